//! C28: builds with other sets of cargo features. The same operations on the same files and data, in this build (all
//! codecs) and in each of the others: the same outcome, except that what needs an absent codec is refused as such.
use super::codec::foreign_encode;
use crate::fixture::*;
use crate::foreign;
use crate::gen::*;
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::Compression;
use std::collections::HashMap;
use std::io::{Read, Write};
#[path = "../../../builds/src/ops.rs"]
#[allow(dead_code)]
mod ops;
use ops::Line;

struct Build {
    name: String,
    /// none: it does not compile
    exe: Option<String>,
}
/// HARNESS_BUILDS: `features=path` separated by `;`, `+` between features; the path `!` where parquet2 does not compile
fn builds() -> Vec<Build> {
    std::env::var("HARNESS_BUILDS")
        .unwrap_or_default()
        .split(';')
        .filter_map(|x| x.split_once('='))
        .map(|(n, p)| Build { name: n.into(), exe: (p != "!").then(|| p.into()) })
        .collect()
}
fn has(build: &str, codec: &str) -> bool {
    build.split('+').any(|f| f == codec || (codec == "lz4" && f == "lz4_flex"))
}
fn ask(exe: &str, corpus: &[u8]) -> Result<Vec<Line>, String> {
    let mut p = std::process::Command::new(exe)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("does not start: {e}"))?;
    let mut i = p.stdin.take().unwrap();
    // everything is read before anything is written
    let sent = i.write_all(corpus);
    drop(i);
    let mut s = String::new();
    let got = p.stdout.take().unwrap().read_to_string(&mut s);
    let st = p.wait().map_err(|e| e.to_string())?;
    if sent.is_err() || got.is_err() || !st.success() || !s.ends_with("end\n") {
        return Err(format!("died: {st}"));
    }
    let s = s.strip_suffix("end\n").unwrap_or(&s);
    s.lines().map(|l| Line::parse(l).ok_or(format!("not a line: {l}"))).collect()
}
fn compile(c: &mut Case) -> R {
    let all = builds();
    ensure!(!all.is_empty(), "harness", "HARNESS_BUILDS is not set");
    for b in &all {
        c.count(&format!("build:{}", b.name));
        c.distinct(hash_str(&b.name));
        c.eval();
        ensure!(b.exe.is_some(), format!("does-not-compile:{}", b.name), "the crate does not compile with the features {:?}", b.name);
    }
    Ok(())
}
fn judge(c: &mut Case, build: &str, full: &HashMap<&str, &Line>, got: &[Line]) -> R {
    let mut seen = 0;
    for l in got {
        let k = l.name.split(' ').next().unwrap();
        let Some(f) = full.get(l.name.as_str()) else {
            fail!(format!("other-operation:{k}"), "[{build}] {}: not in the build with all features", l.name);
        };
        seen += 1;
        c.eval();
        ensure!(l.outcome != "panic", format!("panic:{k}"), "[{build}] {} panics", l.name);
        if let Some(z) = l.outcome.strip_prefix("skipped:") {
            let fine = f.outcome == l.outcome || (!z.is_empty() && !has(build, z));
            ensure!(fine, format!("unreadable:{k}"), "[{build}] {}: its input could not be read ({})", l.name, f.outcome);
            c.count("no-input");
            continue;
        }
        let absent = !l.codec.is_empty() && !has(build, &l.codec);
        if absent {
            let want = format!("inactive:{}", l.codec);
            if l.outcome == want {
                c.count(&format!("refused:{}", l.codec));
                continue;
            }
            ensure!(
                l.outcome == f.outcome && !(l.strict && f.outcome.starts_with("ok")),
                format!("absent-codec:{k}"),
                "[{build}] {}: {}, but the feature {} is not active (with all features: {})",
                l.name,
                l.outcome,
                l.codec,
                f.outcome
            );
            c.count("codec-not-needed");
            continue;
        }
        let same = l.outcome == f.outcome || (l.outcome.starts_with("err:") && f.outcome.starts_with("err:"));
        ensure!(same, format!("differs:{k}"), "[{build}] {}: {}, with all features: {}", l.name, l.outcome, f.outcome);
        c.count(if l.outcome.starts_with("ok") { "same-result" } else { "same-error" });
    }
    let expected = full.values().filter(|l| (has(build, "async") || !l.name.starts_with("async-")) && (has(build, "bloom_filter") || !l.name.starts_with("bloom "))).count();
    ensure!(seen == expected, "operations-missing", "[{build}] {seen} of {expected} operations");
    Ok(())
}
fn compare(c: &mut Case, corpus: &[u8]) -> R {
    c.distinct(hash_bytes(corpus));
    let own = ops::run(corpus);
    let mut full = HashMap::new();
    for l in &own {
        ensure!(full.insert(l.name.as_str(), l).is_none(), "harness", "two operations {}", l.name);
        ensure!(l.outcome != "panic", format!("panic:{}", l.name.split(' ').next().unwrap()), "{} panics", l.name);
    }
    c.add("operations", own.len() as u64);
    for b in builds() {
        let Some(exe) = &b.exe else { continue };
        match ask(exe, corpus) {
            Ok(got) => judge(c, &b.name, &full, &got)?,
            Err(e) => fail!("build-died", "[{}] {e}", b.name),
        }
    }
    Ok(())
}
fn item(corpus: &mut Vec<u8>, head: &[u8], d: &[u8]) {
    corpus.extend_from_slice(head);
    corpus.extend((d.len() as u32).to_le_bytes());
    corpus.extend_from_slice(d);
}
fn files(c: &mut Case) -> R {
    let mut corpus = vec![];
    for k in 0..3 {
        let rng = &mut c.rng;
        let flat = rng.chance(2, 3);
        let sh = Shape { flat, max_leaves: 4, max_groups: 2, min_groups: 1, min_pages: 1, max_rows: 40, ..Default::default() };
        let spec = gen_file(rng, &sh);
        let b = if k == 0 { foreign::build(rng, &spec).bytes } else { write_sync(&spec, 0)? };
        for col in spec.groups.iter().flatten() {
            c.count(&format!("codec:{}", codec_name(col.eff_codec())));
        }
        let b = match k {
            1 => crate::hostile::add_bloom(&mut c.rng, &b).unwrap_or(b),
            _ => b,
        };
        item(&mut corpus, &[0], &b);
    }
    compare(c, &corpus)
}
fn data(c: &mut Case) -> R {
    let mut corpus = vec![];
    for _ in 0..4 {
        let rng = &mut c.rng;
        let n = rng.size(20_000);
        let d = if rng.bool() { rng.bytes(n) } else { (0..n).map(|i| (i / 40) as u8 & 3).collect() };
        for which in 0..6 {
            let (z, x, name) = foreign_encode(&mut c.rng, which, &d);
            let code = match z {
                Compression::Uncompressed => 0u8,
                Compression::Snappy => 1,
                Compression::Gzip => 2,
                Compression::Lzo => 3,
                Compression::Brotli => 4,
                Compression::Lz4 => 5,
                Compression::Zstd => 6,
                _ => 7,
            };
            c.count(&format!("data:{name}"));
            let mut head = vec![1, code];
            head.extend((d.len() as u32).to_le_bytes());
            item(&mut corpus, &head, &x);
        }
        let rng = &mut c.rng;
        let code = *rng.pick(&[0u8, 3]);
        let mut head = vec![1, code];
        head.extend((d.len() as u32).to_le_bytes());
        item(&mut corpus, &head, &d);
        item(&mut corpus, &[2], &d);
    }
    compare(c, &corpus)
}
pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "the crate is built with each of several sets of features; random files of all codecs (written here and by an independent writer) and compressed data are read, decompressed, recompressed and rewritten in each, and the outcomes compared with those of the build with all codecs; where the codec is absent, the outcome must be the error that names it; distinct = hash of the corpus",
        assumptions: &["the sets of features listed in check.sh", "a build whose dependencies cannot be compiled here is left out"],
        families: vec![
            Family { name: "compile", quick: 1, thorough: 1, f: compile },
            Family { name: "files", quick: 60, thorough: 6000, f: files },
            Family { name: "data", quick: 40, thorough: 4000, f: data },
        ],
    }
}
