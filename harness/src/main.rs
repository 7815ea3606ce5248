mod fixture;
mod foreign;
mod gen;
mod hostile;
mod io;
mod model;
mod props;
mod readers;
mod rt;
mod tok;
mod trace;

#[global_allocator]
static A: rt::Monitor = rt::Monitor;

pub fn level_of(id: &str) -> &'static str {
    if matches!(id, "C20" | "C21") {
        return "fault_enumeration";
    }
    "exploration"
}
fn root() -> String {
    std::env::var("HARNESS_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let jobs = std::env::var("HARNESS_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8)
            });
            let cfg = rt::RunCfg { root: root(), seed, thorough: tier == "thorough", jobs };
            std::process::exit(rt::supervise(find(&a[2]), &cfg));
        }
        Some("worker") => {
            let w = rt::WorkerArgs {
                shard: a[3].parse().unwrap(),
                nshards: a[4].parse().unwrap(),
                start: a[5].parse().unwrap(),
                out: a[6].clone(),
                progress: a[7].clone(),
                seed: a[8].parse().unwrap(),
                thorough: a[9] == "thorough",
                budget_s: a[10].parse().unwrap(),
            };
            let id = a[2].clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let props = props::all();
                    let p = props.iter().find(|p| p.id == id).unwrap();
                    rt::worker(p, &w)
                })
                .unwrap()
                .join()
                .unwrap();
        }
        // an error each sanitizer must report
        Some("canary") => {
            static mut SHARED: u64 = 0;
            match a[2].as_str() {
                "thread" => {
                    let b = &std::sync::Barrier::new(2);
                    let f = || {
                        b.wait();
                        for i in 0..20000 {
                            unsafe { std::ptr::addr_of_mut!(SHARED).write_volatile(i) }
                        }
                    };
                    std::thread::scope(|s| {
                        s.spawn(f);
                        s.spawn(f);
                    });
                }
                _ => {
                    let v = vec![0u8; 16];
                    let at = std::hint::black_box(v.as_ptr());
                    drop(v);
                    println!("{}", unsafe { at.add(8).read_volatile() });
                }
            }
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p = find(j["property"].as_str().unwrap());
            let fam = p.families.iter().find(|f| f.name == j["family"].as_str().unwrap()).unwrap();
            rt::install_hook();
            let mut st = rt::Stats::default();
            let r = rt::run_case(fam, j["seed"].as_u64().unwrap(), j["idx"].as_u64().unwrap(), j["thorough"].as_bool().unwrap(), &mut st, true);
            if r.is_empty() {
                println!("replay: the property held on this case");
            }
            for e in &r {
                println!("replay: {}: {}", e.sig, e.msg);
            }
            if r.iter().any(|e| Some(e.sig.as_str()) == j["signature"].as_str()) {
                println!("VIOLATION property={} replay={}", p.id, a[2]);
                std::process::exit(1)
            }
        }
        Some("case") => {
            let p = find(&a[2]);
            let fam = p.families.iter().find(|f| f.name == a[3]).unwrap();
            rt::install_hook();
            let mut st = rt::Stats::default();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            println!("{:?}", rt::run_case(fam, seed, a[4].parse().unwrap(), false, &mut st, true));
        }
        Some("digest") => props::threads::digest(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("peer") => props::codec::peer(),
        Some("list") => {
            for p in &props {
                println!("{}", p.id)
            }
        }
        _ => {
            eprintln!("usage: harness run|replay|case|list");
            std::process::exit(2)
        }
    }
}
