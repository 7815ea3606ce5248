//! C02 (async agrees with sync), C20 (failing sinks), C21 (failing sources).
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::pq;
use crate::rt::*;
use crate::trace::*;
use crate::{ensure, fail};
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::*;
use parquet2::read::*;
use parquet2::write::*;
use std::io::Cursor;

fn small() -> Shape {
    Shape {
        max_leaves: 3,
        depth: 2,
        max_groups: 2,
        max_pages: 3,
        max_rows: 25,
        ..Default::default()
    }
}
fn tally(c: &mut Case, l: &Log) {
    c.add("transport-calls", l.ops as u64);
    c.add("partial-transfers", l.shorts as u64);
    c.add("interruptions", l.interrupts as u64);
    c.add("pendings", l.pendings as u64);
    c.add("faults-injected", l.faults as u64);
}
/// the spec with only some of its row groups
pub fn subset(spec: &FileSpec, groups: &[usize]) -> FileSpec {
    let mut s = spec.clone();
    s.groups = groups.iter().map(|g| spec.groups[*g].clone()).collect();
    s
}

// ---------------------------------------------------------------- writing
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum After {
    Stop,
    End,
    Retry,
    Skip,
}
pub struct Out {
    pub sink: Sink,
    pub written: Vec<usize>,
    pub end: Option<Result<u64, Error>>,
    pub errors: usize,
    /// metadata available after the last call
    pub metadata: bool,
}
fn pick_after(rng: &mut Rng) -> After {
    *rng.pick(&[After::Stop, After::End, After::Retry, After::Skip])
}
pub fn drive_sync(spec: &FileSpec, plan: Plan, after: After, mode: usize) -> Out {
    let sink = Sink::new(plan);
    let mut w = FileWriter::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
    let mut o = Out { sink, written: vec![], end: None, errors: 0, metadata: false };
    let mut g = 0;
    let mut retried = false;
    while g < spec.groups.len() {
        match w.write(row_group(spec, g, mode)) {
            Ok(()) => {
                o.written.push(g);
                g += 1;
                retried = false;
            }
            Err(_) => {
                o.errors += 1;
                match after {
                    After::Stop => return o,
                    After::End => break,
                    After::Retry if !retried => retried = true,
                    _ => {
                        g += 1;
                        retried = false;
                    }
                }
            }
        }
    }
    let mut r = w.end(spec.keyvalues());
    if r.is_err() {
        o.errors += 1;
        if after == After::Retry {
            r = w.end(spec.keyvalues());
        }
    }
    o.metadata = w.metadata().is_some();
    o.end = Some(r);
    o
}
pub fn drive_async(spec: &FileSpec, plan: Plan, after: After, mode: usize) -> Out {
    let sink = Sink::new(plan);
    let mut w = FileStreamer::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
    let mut o = Out { sink, written: vec![], end: None, errors: 0, metadata: false };
    block(async {
        let mut g = 0;
        let mut retried = false;
        while g < spec.groups.len() {
            match w.write(row_group(spec, g, mode)).await {
                Ok(()) => {
                    o.written.push(g);
                    g += 1;
                    retried = false;
                }
                Err(_) => {
                    o.errors += 1;
                    match after {
                        After::Stop => return,
                        After::End => break,
                        After::Retry if !retried => retried = true,
                        _ => {
                            g += 1;
                            retried = false;
                        }
                    }
                }
            }
        }
        let mut r = w.end(spec.keyvalues()).await;
        if r.is_err() {
            o.errors += 1;
            if after == After::Retry {
                r = w.end(spec.keyvalues()).await;
            }
        }
        o.end = Some(r);
    });
    o
}
/// a completion must be of a complete and correct file
pub fn judge_out(spec: &FileSpec, o: &Out, how: &str, way: &str) -> R {
    let log = o.sink.log();
    match &o.end {
        Some(Ok(n)) => {
            let want = write_sync(&subset(spec, &o.written), 0)?;
            let got = o.sink.data();
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                fail!(
                    format!("{way}:completed-wrong-file"),
                    "{how}: end() reported success of {n} bytes; {} bytes were accepted, {} expected, first difference at {at}; written groups {:?}; {log:?}",
                    got.len(),
                    want.len(),
                    o.written
                );
            }
            ensure!(*n == want.len() as u64, format!("{way}:completed-size"), "{how}: end() returned {n}, the file has {} bytes", want.len());
            ensure!(log.flushed_at == Some(got.len()), format!("{way}:not-flushed"), "{how}: completed without a flush after the last byte ({log:?})");
        }
        Some(Err(_)) => ensure!(!o.metadata, format!("{way}:metadata-of-incomplete"), "{how}: metadata() is Some although end() failed"),
        None => (),
    }
    Ok(())
}
fn rough_sync(c: &mut Case) -> R {
    let spec = spec_of(c, &small());
    rough(c, spec, false)
}
fn rough_async(c: &mut Case) -> R {
    let spec = spec_of(c, &small());
    rough(c, spec, true)
}
fn rough(c: &mut Case, spec: FileSpec, asynchronous: bool) -> R {
    let mode = c.rng.below(2);
    let plan = Plan::rough(&mut c.rng);
    c.distinct(spec.hash() ^ plan.seed);
    c.sample(|| format!("{plan:?} {}", spec.describe()));
    let (o, way) = if asynchronous {
        (drive_async(&spec, plan.clone(), After::Stop, mode), "async")
    } else {
        (drive_sync(&spec, plan.clone(), After::Stop, mode), "sync")
    };
    tally(c, &o.sink.log());
    c.eval();
    match &o.end {
        Some(Ok(_)) => judge_out(&spec, &o, &format!("{plan:?}"), way),
        e => fail!(format!("{way}:partial-transfers-fail"), "{plan:?}: partial writes and interruptions alone made the writer fail: {e:?} (after {:?})", o.sink.log()),
    }
}
fn points(rng: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..max - 8).map(|_| rng.below(n)).collect();
        v.extend(n - 8..n);
        v.sort();
        v.dedup();
        v
    }
}
fn faults(c: &mut Case, asynchronous: bool) -> R {
    let mut sh = small();
    sh.max_rows = 12;
    let spec = spec_of(c, &sh);
    let mode = c.rng.below(2);
    let base = if c.rng.bool() { Plan::clean() } else { Plan::rough(&mut c.rng) };
    let way = if asynchronous { "async" } else { "sync" };
    let run = |p: Plan, a: After| if asynchronous { drive_async(&spec, p, a, mode) } else { drive_sync(&spec, p, a, mode) };
    let n = run(base.clone(), After::Stop).sink.log().ops;
    c.sample(|| format!("{n} calls of the sink, {base:?} {}", spec.describe()));
    for op in points(&mut c.rng, n, if c.thorough { 400 } else { 40 }) {
        let f = rand_fault(&mut c.rng, op);
        let after = pick_after(&mut c.rng);
        let plan = base.with(f);
        let how = format!("{way} {f:?} then {after:?}");
        let o = guarded("writing to a failing sink", || run(plan, after))?;
        let log = o.sink.log();
        tally(c, &log);
        c.eval();
        c.distinct(mix(spec.hash() ^ op as u64));
        let k = match (&o.end, o.errors) {
            (Some(Ok(_)), 0) => "completed-without-error",
            (Some(Ok(_)), _) => "completed-after-error",
            (Some(Err(_)), _) => "completion-refused",
            (None, _) => "stopped",
        };
        let k = format!("{way}:{k}");
        c.count(&k);
        let r = judge_out(&spec, &o, &how, way);
        c.soft(r);
    }
    Ok(())
}
fn faults_sync(c: &mut Case) -> R {
    faults(c, false)
}
fn faults_async(c: &mut Case) -> R {
    faults(c, true)
}
/// side-car metadata
fn sidecar(c: &mut Case) -> R {
    let spec = spec_of(c, &small());
    let (w, _) = must(write_sync_to(&spec, vec![], 0), "FileWriter")?;
    let (_, md) = w.into_inner_and_metadata();
    let mut want = vec![];
    let n = must(write_metadata_sidecar(&mut want, &md), "write_metadata_sidecar")?;
    ensure!(n == want.len() as u64, "sidecar:size", "returned {n}, wrote {}", want.len());
    let back = must(read_metadata(&mut Cursor::new(&want)), "read side-car")?;
    let (whole, _) = (must(FileMetaData::try_from_thrift(md.clone()), "try_from_thrift")?, ());
    ensure!(format!("{back:?}") == format!("{whole:?}"), "sidecar:content", "side-car metadata differ from the file's");
    let base = Plan::rough(&mut c.rng);
    let run = |p: Plan| {
        let mut s = Sink::new(p);
        let r = write_metadata_sidecar(&mut s, &md);
        (s, r)
    };
    let check = |s: &Sink, r: &Result<u64, Error>, how: String| -> R {
        if let Ok(n) = r {
            ensure!(s.data() == want, "sidecar:completed-wrong-file", "{how}: success, but {} bytes written of {}", s.data().len(), want.len());
            ensure!(*n == want.len() as u64, "sidecar:completed-size", "{how}: returned {n}, wrote {}", want.len());
            ensure!(s.log().flushed_at == Some(want.len()), "sidecar:not-flushed", "{how}: not flushed");
        }
        Ok(())
    };
    let (s, r) = run(base.clone());
    ensure!(r.is_ok(), "sidecar:partial-transfers-fail", "{base:?}: {r:?}");
    check(&s, &r, format!("{base:?}"))?;
    tally(c, &s.log());
    c.distinct(spec.hash());
    c.sample(|| spec.describe());
    for op in points(&mut c.rng, s.log().ops, 40) {
        let f = rand_fault(&mut c.rng, op);
        let (s, r) = run(base.with(f));
        tally(c, &s.log());
        c.eval();
        c.count(if r.is_ok() { "sidecar:completed" } else { "sidecar:refused" });
        let x = check(&s, &r, format!("{f:?}"));
        c.soft(x);
    }
    Ok(())
}
/// dropping the future of a pending call, then going on
fn cancelled(c: &mut Case) -> R {
    let mut sh = small();
    sh.max_rows = 12;
    sh.min_groups = 1;
    let spec = spec_of(c, &sh);
    let mode = c.rng.below(2);
    let mut plan = Plan::rough(&mut c.rng);
    plan.pending = *c.rng.pick(&[2usize, 6, 12]);
    c.sample(|| format!("{plan:?} {}", spec.describe()));
    let total = drive_async(&spec, plan.clone(), After::Stop, mode).sink.log().pendings;
    for _ in 0..12 {
        let polls = c.rng.below(total + 2);
        let sink = Sink::new(plan.clone());
        let mut w = FileStreamer::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
        let mut o = Out { sink: sink.clone(), written: vec![], end: None, errors: 0, metadata: false };
        let mut left = polls;
        let mut dropped = false;
        // polls a future until it is ready or the budget is used up; dropped then
        fn go<T>(f: impl std::future::Future<Output = T>, left: &mut usize) -> Option<T> {
            let mut f = Box::pin(f);
            let w = futures::task::noop_waker();
            let mut cx = std::task::Context::from_waker(&w);
            loop {
                if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                    return Some(x);
                }
                if *left == 0 {
                    return None;
                }
                *left -= 1;
            }
        }
        for g in 0..spec.groups.len() {
            let mut inf = usize::MAX;
            match go(w.write(row_group(&spec, g, mode)), if dropped { &mut inf } else { &mut left }) {
                Some(Ok(())) => o.written.push(g),
                Some(Err(_)) => o.errors += 1,
                None => dropped = true,
            }
        }
        let mut inf = usize::MAX;
        if !dropped && c.rng.bool() {
            match go(w.end(spec.keyvalues()), &mut left) {
                Some(r) => o.end = Some(r),
                None => dropped = true,
            }
        }
        if o.end.is_none() {
            o.end = go(w.end(spec.keyvalues()), &mut inf);
        }
        c.eval();
        c.distinct(mix(spec.hash() ^ polls as u64));
        tally(c, &sink.log());
        let k = format!("cancelled:{}:{}", if dropped { "dropped" } else { "never-dropped" }, if matches!(o.end, Some(Ok(_))) { "completed" } else { "refused" });
        c.count(&k);
        let r = judge_out(&spec, &o, &format!("a future dropped after {polls} pendings"), "cancelled");
        c.soft(r);
    }
    Ok(())
}
pub fn prop20() -> Prop {
    Prop {
        id: "C20",
        rule: "random files are written to a sink under a plan of partial writes, interruptions, pendings, and, for every (or sampled) call of the sink, one injected error or zero-length write, transient or permanent, with four continuations after an error; distinct = hash of (file, faulted call)",
        assumptions: &["an error of the sink accepts no byte of that call"],
        families: vec![
            Family { name: "rough-sync", quick: 8000, thorough: 200000, f: rough_sync },
            Family { name: "rough-async", quick: 8000, thorough: 200000, f: rough_async },
            Family { name: "rough-sync-scaled", quick: 60, thorough: 2000, f: rough_sync },
            Family { name: "rough-async-scaled", quick: 60, thorough: 2000, f: rough_async },
            Family { name: "faults-sync", quick: 4000, thorough: 20000, f: faults_sync },
            Family { name: "faults-async", quick: 3500, thorough: 18000, f: faults_async },
            Family { name: "faults-sync-scaled-footer", quick: 40, thorough: 800, f: faults_sync },
            Family { name: "sidecar", quick: 1500, thorough: 20000, f: sidecar },
            Family { name: "cancelled", quick: 3000, thorough: 60000, f: cancelled },
        ],
    }
}

// ---------------------------------------------------------------- reading
fn locations(md: &FileMetaData, g: usize, b: &[u8]) -> Vec<Vec<parquet2::indexes::PageLocation>> {
    read_pages_locations(&mut Cursor::new(b), md.row_groups[g].columns()).unwrap_or_default()
}
fn all_ops<'a>(rng: &mut Rng, md: &'a FileMetaData, b: &'a [u8]) -> Vec<Op<'a>> {
    let mut v = metadata_ops(b);
    for g in 0..md.row_groups.len() {
        v.extend(group_ops(md, g));
        let n = md.row_groups[g].num_rows();
        let sel = if rng.bool() { vec![Interval::new(0, n)] } else { super::select::rand_sel(rng, n) };
        v.extend(indexed_ops(md, g, &locations(md, g, b), sel));
    }
    v
}
fn source(c: &mut Case) -> R<(FileSpec, Vec<u8>, FileMetaData)> {
    let spec = spec_of(c, &small());
    let mode = c.rng.below(2);
    let mut b = write_sync(&spec, mode)?;
    if c.rng.chance(1, 3) {
        if let Some(x) = add_bloom(&mut c.rng, &b) {
            b = x;
        }
    }
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    c.sample(|| spec.describe());
    Ok((spec, b, md))
}
fn src_faults(c: &mut Case) -> R {
    let (spec, b, md) = source(c)?;
    let mut ops = all_ops(&mut c.rng, &md, &b);
    let asynchronous = c.rng.chance(1, 3);
    if asynchronous {
        ops = async_metadata_ops();
        for g in 0..md.row_groups.len() {
            ops.extend(async_group_ops(&md, g));
        }
    }
    c.rng.shuffle(&mut ops);
    for (name, op) in ops.iter().take(if c.thorough { 40 } else { 10 }) {
        let s = Src::new(&b, Plan::clean());
        let clean = op(s.clone());
        ensure!(clean.iter().all(|e| e.h.is_some()), "clean-read-fails", "{name}: {clean:?}");
        // without faults nothing changes
        let plan = Plan::rough(&mut c.rng);
        let s = Src::new(&b, plan.clone());
        let got = guarded("reading", || op(s.clone()))?;
        tally(c, &s.log());
        c.eval();
        let r = same(name, &clean, &got, &format!("{plan:?}")).map_err(|e| failure(format!("partial-reads:{}", e.sig), e.msg));
        c.soft(r);
        let base = if c.rng.bool() { Plan::clean() } else { plan };
        let s = Src::new(&b, base.clone());
        op(s.clone());
        let n = s.log().ops;
        let kind = name.split(' ').next().unwrap();
        for at in points(&mut c.rng, n, if c.thorough { 200 } else { 24 }) {
            let f = rand_fault(&mut c.rng, at);
            let s = Src::new(&b, base.with(f));
            let got = guarded("reading a failing source", || op(s.clone()))?;
            tally(c, &s.log());
            c.eval();
            c.distinct(mix(spec.hash() ^ hash_str(name) ^ at as u64));
            let k = format!("{}{kind}:{}", if asynchronous { "async-" } else { "" }, if got.iter().any(|e| e.h.is_none()) { "error" } else { "all-data" });
            c.count(&k);
            let r = judge(name, &clean, &got, &format!("{f:?}"));
            c.soft(r);
        }
    }
    Ok(())
}
/// the file is shorter than its metadata say, or ends while it is read
fn src_ends(c: &mut Case) -> R {
    let (spec, b, md) = source(c)?;
    let (_, start) = pq::footer(&b).map_err(|e| failure("footer", e))?;
    let mut ops = all_ops(&mut c.rng, &md, &b);
    ops.retain(|o| !o.0.starts_with("metadata"));
    for g in 0..md.row_groups.len() {
        ops.extend(async_group_ops(&md, g));
    }
    c.rng.shuffle(&mut ops);
    for (name, op) in ops.iter().take(24) {
        let clean = op(Src::new(&b, Plan::clean()));
        for _ in 0..6 {
            let cut = c.rng.below(start + 1);
            let s = Src::new(&b[..cut], Plan::rough(&mut c.rng));
            let got = guarded("reading a truncated source", || op(s.clone()))?;
            c.eval();
            c.distinct(mix(spec.hash() ^ hash_str(name) ^ cut as u64));
            c.count(if got.iter().any(|e| e.h.is_none()) { "truncated:error" } else { "truncated:all-data" });
            let r = judge(name, &clean, &got, &format!("source ends at {cut} of {}", b.len()));
            c.soft(r);
        }
    }
    // the metadata of a truncated file are never read
    for _ in 0..8 {
        let cut = c.rng.below(b.len());
        let t = &b[..cut];
        let r = one("metadata", read_metadata(&mut Cursor::new(t)));
        // a file cut inside may happen to end with bytes that are a file: not generated here
        ensure!(r[0].h.is_none(), "truncated-metadata-accepted", "the first {cut} of {} bytes have metadata", b.len());
        let r = one("metadata", read_metadata_with_size(&mut Src::new(t, Plan::rough(&mut c.rng)), b.len() as u64));
        ensure!(r[0].h.is_none(), "truncated-metadata-accepted", "the first {cut} of {} bytes have metadata", b.len());
        c.evals(2);
    }
    Ok(())
}
pub fn prop21() -> Prop {
    Prop {
        id: "C21",
        rule: "every reading operation runs on a source under a plan of short reads, interruptions and pendings, and again once per (sampled) call of the source with an injected error or end, transient or permanent, going on after errors; what it delivers is compared with the clean run; distinct = hash of (file, operation, faulted call)",
        assumptions: &["a source that fails transfers no byte in that call"],
        families: vec![
            Family { name: "faults", quick: 8000, thorough: 15000, f: src_faults },
            Family { name: "early-ends", quick: 8000, thorough: 80000, f: src_ends },
            Family { name: "faults-scaled-footer", quick: 40, thorough: 800, f: src_faults },
            Family { name: "early-ends-scaled-footer", quick: 40, thorough: 800, f: src_ends },
            Family { name: "faults-scaled-light", quick: 8, thorough: 200, f: src_faults },
        ],
    }
}

// ---------------------------------------------------------------- async against sync
fn write_agrees(c: &mut Case) -> R {
    let sh = if c.rng.chance(1, 4) { Shape { max_leaves: 12, max_groups: 4, ..small() } } else { Shape { max_rows: 120, ..small() } };
    let spec = spec_of(c, &sh);
    super::c01::note(c, &spec);
    c.sample(|| spec.describe());
    let mode = c.rng.below(2);
    let (w, n) = must(write_sync_to(&spec, vec![], mode), "FileWriter")?;
    let want = w.into_inner();
    let plan = Plan::rough(&mut c.rng);
    let o = drive_async(&spec, plan.clone(), After::Stop, c.rng.below(2));
    tally(c, &o.sink.log());
    match o.end {
        Some(Ok(m)) => {
            ensure!(m == n, "write:returned-size", "async {m}, sync {n}");
            let got = o.sink.data();
            ensure!(
                got == want,
                "write:bytes",
                "async file of {} bytes, sync of {}; first difference at {:?}",
                got.len(),
                want.len(),
                got.iter().zip(&want).position(|(a, b)| a != b)
            );
        }
        e => fail!("write:async-fails", "{plan:?}: {e:?}"),
    }
    c.eval();
    // an owned, unboxed sink: the async writer must also work through `Cursor` and hand it back
    let mut s = FileStreamer::new(futures::io::Cursor::new(vec![]), spec.schema(), spec.options(), spec.created_by.clone());
    block(async {
        for g in 0..spec.groups.len() {
            s.write(row_group(&spec, g, mode)).await?;
        }
        s.end(spec.keyvalues()).await
    })
    .map_err(|e| failure("write:async-fails", format!("{e:?}")))?;
    ensure!(s.into_inner().into_inner() == want, "write:bytes", "async file (cursor) differs");
    c.eval();
    Ok(())
}
fn read_agrees(c: &mut Case) -> R {
    let (spec, b, md) = source(c)?;
    c.distinct(spec.hash());
    agree(c, &md, &b, true)
}
/// files whose footer, or whole size, is about one of the sizes at which they are read in another way
fn footers_agree(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 2, depth: 1, max_groups: 2, max_pages: 2, max_rows: 8, ..Default::default() };
    let mut spec = gen_file(&mut c.rng, &sh);
    let sized = |n: usize, spec: &mut FileSpec| -> R<(Vec<u8>, usize)> {
        spec.kv = Some(vec![("k".into(), Some("v".repeat(n)))]);
        let b = write_sync(spec, 0)?;
        let f = u32::from_le_bytes(b[b.len() - 8..b.len() - 4].try_into().unwrap()) as usize;
        Ok((b, f))
    };
    let target = *c.rng.pick(&[1usize << 16, 1 << 16, 1 << 16, 1 << 15, 1 << 17]);
    let whole = c.rng.bool();
    let probe = target - 4096;
    let (b, f) = sized(probe, &mut spec)?;
    let now = if whole { b.len() } else { f };
    let off = c.rng.range(0, 32);
    let n = (probe + target + 16).saturating_sub(now + off);
    let (b, f) = sized(n, &mut spec)?;
    let d = (if whole { b.len() } else { f }) as i64 - target as i64;
    c.count(&format!("{} {target} {}", if whole { "file" } else { "footer" }, if d.abs() <= 16 { "within 16 bytes" } else { "elsewhere" }));
    c.distinct(mix(b.len() as u64) ^ mix(f as u64));
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    agree(c, &md, &b, true)
}
pub fn agree(c: &mut Case, md: &FileMetaData, b: &[u8], valid: bool) -> R {
    let mut s = metadata_ops(b);
    let mut a = async_metadata_ops();
    for g in 0..md.row_groups.len() {
        s.extend(group_ops(md, g));
        a.extend(async_group_ops(md, g));
    }
    for (name, op) in &a {
        let Some((_, sop)) = s.iter().find(|x| &x.0 == name) else { fail!("harness", "no counterpart of {name}") };
        let sync = guarded("sync", || sop(Src::new(b, Plan::clean())));
        let plan = Plan::rough(&mut c.rng);
        let src = Src::new(b, plan.clone());
        let asy = guarded("async", || op(src.clone()));
        let (Ok(sync), Ok(asy)) = (sync, asy) else {
            // panics are the subject of C17
            c.count("panic");
            continue;
        };
        tally(c, &src.log());
        c.eval();
        let kind = name.split(' ').next().unwrap();
        if valid {
            let k = format!("agree:{kind}");
            c.count(&k);
            let r = same(name, &sync, &asy, &format!("async under {plan:?}"));
            c.soft(r);
            continue;
        }
        // up to the first error of either they deliver the same; an end of one is not data of the other
        let mut i = 0;
        loop {
            match (sync.get(i), asy.get(i)) {
                (Some(x), Some(y)) if x.h.is_some() && y.h.is_some() => {
                    if x.h != y.h {
                        c.soft::<()>(Err(failure(format!("hostile:differs:{kind}"), format!("{name}: item {i}: sync {}, async {}", x.what, y.what))));
                        break;
                    }
                }
                (None, None) => {
                    let k = format!("hostile-same:{kind}");
                    c.count(&k);
                    break;
                }
                (Some(x), None) | (None, Some(x)) if x.h.is_some() => {
                    c.soft::<()>(Err(failure(format!("hostile:length-differs:{kind}"), format!("{name}: sync {} items, async {} items: {:?} / {:?}", sync.len(), asy.len(), sync.last(), asy.last()))));
                    break;
                }
                (x, y) => {
                    let e = |z: Option<&Ev>| z.map_or(false, |z| z.h.is_none());
                    let k = format!("hostile-{}:{kind}", if e(x) && e(y) { "both-reject" } else { "one-rejects" });
                    c.count(&k);
                    break;
                }
            }
            i += 1;
        }
    }
    Ok(())
}
/// files that were changed: whatever both accept is the same
fn hostile_agrees(c: &mut Case) -> R {
    let (spec, b, md) = source(c)?;
    let mut m = b.clone();
    let st = structures(&b);
    for _ in 0..c.rng.range(1, 3) {
        let (p, l) = if c.rng.chance(1, 3) || st.is_empty() { (0, m.len()) } else { *c.rng.pick(&st) };
        if l == 0 {
            continue;
        }
        let at = p + c.rng.below(l);
        m[at] = match c.rng.below(4) {
            0 => m[at] ^ 1 << c.rng.below(8),
            1 => m[at].wrapping_add(1),
            2 => m[at].wrapping_sub(1),
            _ => c.rng.u32() as u8,
        };
    }
    c.distinct(hash_bytes(&m) ^ spec.hash());
    // either the changed file's own metadata, or the original's with changed pages
    let md = match read_metadata(&mut Cursor::new(&m)) {
        Ok(x) => x,
        Err(_) => md,
    };
    if md.row_groups.iter().any(|g| g.columns().iter().any(|c| c.num_values() > 1_000_000)) {
        c.count("too-many-values");
    }
    agree(c, &md, &m, false)
}
pub fn prop02() -> Prop {
    Prop {
        id: "C02",
        rule: "files are written by FileStreamer to a transport that splits and delays and compared byte for byte with FileWriter's; every asynchronous reading operation, on such a transport, is compared item by item with the synchronous one, on valid and on changed files; distinct = hash of the file",
        assumptions: &[],
        families: vec![
            Family { name: "write", quick: 16000, thorough: 300000, f: write_agrees },
            Family { name: "read", quick: 7000, thorough: 120000, f: read_agrees },
            Family { name: "footers", quick: 400, thorough: 10000, f: footers_agree },
            Family { name: "read-scaled-footer", quick: 100, thorough: 2000, f: read_agrees },
            Family { name: "read-scaled-light", quick: 24, thorough: 800, f: read_agrees },
            Family { name: "write-scaled", quick: 60, thorough: 2000, f: write_agrees },
            Family { name: "hostile", quick: 9000, thorough: 200000, f: hostile_agrees },
        ],
    }
}
