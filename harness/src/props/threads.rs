//! C25: many threads, interleaved and nested uses, other processes: the result is the sequential one.
use crate::fixture::*;
use crate::gen::*;
use crate::io::{pause, pauses, Plan, Sink, Src};
use crate::readers::*;
use crate::rt::*;
use crate::trace::*;
use crate::ensure;
use futures::future::BoxFuture;
use parquet2::metadata::FileMetaData;
use parquet2::page::{CompressedPage, Page};
use parquet2::read::*;
use parquet2::write::{compress, Compressor, DynIter, DynStreamingIterator, FileStreamer, FileWriter};
use parquet2::FallibleStreamingIterator;
use std::collections::VecDeque;
use std::io::Cursor;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};

fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a).wrapping_add(b))
}
struct Doc {
    spec: FileSpec,
    bytes: Vec<u8>,
    md: FileMetaData,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Job {
    /// file, mode, asynchronous
    Write(usize, usize, bool),
    Metadata(usize, bool),
    /// file, row group, operation
    Op(usize, usize, String),
    Async(usize, usize, String),
    /// all the way to values, statistics and indexes
    Decode(usize, usize, usize),
    Schema(usize),
    Codec(usize, usize, usize),
}
fn doc(rng: &mut Rng, sh: &Shape) -> R<Doc> {
    let spec = gen_file(rng, sh);
    let bytes = write_sync(&spec, rng.below(2))?;
    let md = read_metadata(&mut Cursor::new(&bytes)).map_err(e2f("read_metadata"))?;
    Ok(Doc { spec, bytes, md })
}
fn shape() -> Shape {
    Shape { max_leaves: 4, max_groups: 2, min_groups: 1, max_pages: 4, max_rows: 60, ..Default::default() }
}
fn docs(rng: &mut Rng, n: usize) -> R<Vec<Doc>> {
    let mut v: Vec<Doc> = vec![];
    for _ in 0..n {
        // files that are alike are easier to mistake for each other
        if !v.is_empty() && rng.chance(1, 3) {
            let mut spec = v[rng.below(v.len())].spec.clone();
            let g = rng.below(spec.groups.len());
            for i in 0..spec.leaves.len() {
                let leaf = spec.leaves[i].clone();
                let codec = spec.groups[g][i].codec;
                let dict = spec.groups[g][i].dict.clone();
                if dict.is_none() {
                    for k in 0..spec.groups[g][i].pages.len() {
                        let p = &spec.groups[g][i].pages[k];
                        let prof = rand_prof(rng);
                        let data = gen_page(rng, leaf.max_rep, leaf.max_def, leaf.ph, p.data.rows, prof);
                        let stats = spec.write_stats.then(|| page_stats(&leaf, &data));
                        let (enc, v2) = (p.enc, p.v2);
                        let built = data_page(rng, &leaf, &data, enc, &[], v2, Via::Ref, stats.clone());
                        spec.groups[g][i].pages[k] = PageSpec { data, enc, v2, stats, built };
                    }
                }
                spec.groups[g][i].codec = codec;
            }
            let bytes = write_sync(&spec, 0)?;
            let md = read_metadata(&mut Cursor::new(&bytes)).map_err(e2f("read_metadata"))?;
            v.push(Doc { spec, bytes, md });
        } else {
            v.push(doc(rng, &shape())?);
        }
    }
    Ok(v)
}
fn jobs(rng: &mut Rng, d: &[Doc], max: usize) -> Vec<Job> {
    let mut v = vec![];
    for (i, f) in d.iter().enumerate() {
        for m in 0..2 {
            v.push(Job::Write(i, m, false));
            v.push(Job::Write(i, m, true));
        }
        v.push(Job::Metadata(i, false));
        v.push(Job::Metadata(i, true));
        v.push(Job::Schema(i));
        for g in 0..f.md.row_groups.len() {
            for (n, _) in group_ops(&f.md, g) {
                v.push(Job::Op(i, g, n));
            }
            for (n, _) in async_jobs(&f.md, g) {
                v.push(Job::Async(i, g, n));
            }
            for c in 0..f.spec.leaves.len() {
                v.push(Job::Decode(i, g, c));
                v.push(Job::Codec(i, g, c));
            }
        }
    }
    rng.shuffle(&mut v);
    v.truncate(max);
    v
}
async fn write_async(spec: &FileSpec, sink: Sink, mode: usize) -> Vec<Ev> {
    let mut w = FileStreamer::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
    for g in 0..spec.groups.len() {
        if let Err(e) = w.write(row_group(spec, g, mode)).await {
            return vec![Ev::err(&e)];
        }
    }
    match w.end(spec.keyvalues()).await {
        Ok(n) => vec![Ev { h: Some(hash_bytes(&sink.data())), what: format!("file of {n} bytes") }],
        Err(e) => vec![Ev::err(&e)],
    }
}
fn fail_ev(e: Fail) -> Vec<Ev> {
    vec![Ev { h: None, what: format!("{}: {}", e.sig, e.msg) }]
}
fn decode(d: &Doc, g: usize, c: usize) -> R<Vec<Ev>> {
    let col = &d.md.row_groups[g].columns()[c];
    let ch = read_chunk(&d.bytes, &d.md, g, c, &d.spec.leaves[c], Mode::Decompressor)?;
    let mut v: Vec<Ev> = ch.pages.iter().map(|p| Ev { h: Some(p.hash()), what: "values".into() }).collect();
    if let Some(s) = col.statistics() {
        pause();
        let s = s.map_err(e2f("statistics"))?;
        v.push(Ev::ok("statistics".into(), &format!("{:?}", parquet2::statistics::serialize_statistics(s.as_ref()))));
    }
    Ok(v)
}
fn codec(d: &Doc, g: usize, c: usize) -> R<Vec<Ev>> {
    let cs = &d.spec.groups[g][c];
    let mut v = vec![];
    for p in page_list(cs, &d.spec.leaves[c]) {
        let before = format!("{p:?}");
        let z = compress(p, vec![], cs.codec).map_err(e2f("compress"))?;
        v.push(compressed(&z));
        pause();
        let p = decompress(z, &mut vec![]).map_err(e2f("decompress"))?;
        let after = format!("{p:?}");
        v.push(Ev::ok("page".into(), &after));
        ensure!(matches!(p, Page::Dict(_)) || before.len() == after.len(), "codec", "{before} becomes {after}");
    }
    Ok(v)
}
fn run<'a>(d: &'a [Doc], j: &Job, plan: Plan) -> Vec<Ev> {
    match j {
        Job::Write(i, m, false) => {
            let sink = Sink::new(plan);
            match write_sync_to(&d[*i].spec, sink.clone(), *m) {
                Ok((_, n)) => vec![Ev { h: Some(hash_bytes(&sink.data())), what: format!("file of {n} bytes") }],
                Err(e) => vec![Ev::err(&e)],
            }
        }
        Job::Metadata(i, false) => {
            let mut s = Src::new(&d[*i].bytes, plan);
            one("metadata", read_metadata(&mut s))
        }
        Job::Op(i, g, n) => {
            let ops = group_ops(&d[*i].md, *g);
            let op = &ops.iter().find(|x| &x.0 == n).unwrap().1;
            op(Src::new(&d[*i].bytes, plan))
        }
        Job::Decode(i, g, c) => decode(&d[*i], *g, *c).unwrap_or_else(fail_ev),
        Job::Codec(i, g, c) => codec(&d[*i], *g, *c).unwrap_or_else(fail_ev),
        Job::Schema(i) => {
            let md = d[*i].md.clone().into_thrift();
            let again = FileMetaData::try_from_thrift(md.clone());
            let a = one("schema", again);
            let b = vec![Ev::ok("thrift".into(), &format!("{md:?}"))];
            [a, b].concat()
        }
        _ => futures::executor::block_on(future(d, j, plan)),
    }
}
fn future<'a>(d: &'a [Doc], j: &Job, plan: Plan) -> BoxFuture<'a, Vec<Ev>> {
    match j {
        Job::Write(i, m, _) => {
            let (spec, m) = (&d[*i].spec, *m);
            Box::pin(async move { write_async(spec, Sink::new(plan), m).await })
        }
        Job::Async(i, g, n) => {
            let ops = async_jobs(&d[*i].md, *g);
            let op = &ops.iter().find(|x| &x.0 == n).unwrap().1;
            op(Src::new(&d[*i].bytes, plan))
        }
        Job::Metadata(i, _) => {
            let mut s = Src::new(&d[*i].bytes, plan);
            Box::pin(async move { one("metadata", read_metadata_async(&mut s).await) })
        }
        _ => unreachable!(),
    }
}
fn is_async(j: &Job) -> bool {
    matches!(j, Job::Write(_, _, true) | Job::Async(..) | Job::Metadata(_, true))
}
fn compare(c: &mut Case, j: &Job, want: &[Ev], got: R<Vec<Ev>>, how: &str) -> R {
    let kind = format!("{j:?}");
    let kind = kind.split('(').next().unwrap().to_lowercase();
    let got = got.map_err(|e| failure(format!("concurrent:{kind}:{}", e.sig), format!("{j:?} {how}: {}", e.msg)))?;
    c.eval();
    let k = format!("job:{kind}");
    c.count(&k);
    same(&kind, want, &got, &format!("{j:?} {how}")).map_err(|e| failure(format!("{how}:{}", e.sig), e.msg))
}
fn references(d: &[Doc], js: &[Job]) -> R<Vec<Vec<Ev>>> {
    js.iter().map(|j| guarded("sequential", || run(d, j, Plan::clean()))).collect()
}
/// the file written first, when nothing else had happened, is also the sequential reference
fn check_writes(d: &[Doc], js: &[Job], refs: &[Vec<Ev>]) -> R {
    for (j, r) in js.iter().zip(refs) {
        if let Job::Write(i, _, _) = j {
            // the two modes of handing pages over give the same bytes
            ensure!(r.len() == 1 && r[0].h == Some(hash_bytes(&d[*i].bytes)), "sequential:write", "{j:?}: written differently the second time: {r:?}");
        }
    }
    Ok(())
}
/// any number of threads at once
fn threads(c: &mut Case) -> R {
    let n = c.rng.range(2, 5);
    let d = docs(&mut c.rng, n)?;
    let max = if c.thorough { 200 } else { 70 };
    let js = jobs(&mut c.rng, &d, max);
    let refs = references(&d, &js)?;
    check_writes(&d, &js, &refs)?;
    let nt = c.rng.range(2, 8);
    let plans: Vec<Plan> = js.iter().map(|_| Plan::rough(&mut c.rng)).collect();
    let times = c.rng.range(1, 2);
    // each job is done by one or two threads
    let mut queue: VecDeque<usize> = (0..js.len()).flat_map(|i| vec![i; times]).collect();
    let mut x: Vec<usize> = queue.drain(..).collect();
    if c.rng.bool() {
        c.rng.shuffle(&mut x);
    }
    let queue = Mutex::new(x.into_iter().collect::<VecDeque<_>>());
    let log: Mutex<Vec<(usize, u8, usize)>> = Mutex::new(vec![]);
    let out: Mutex<Vec<(usize, R<Vec<Ev>>)>> = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..nt).map(|_| c.rng.u64() | 1).collect();
    let running = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (d, js, queue, log, out, plans, seeds, running, most) = (&d, &js, &queue, &log, &out, &plans, &seeds, &running, &most);
            s.spawn(move || {
                pauses(seeds[t]);
                loop {
                    let Some(i) = queue.lock().unwrap().pop_front() else { break };
                    log.lock().unwrap().push((t, 0, i));
                    most.fetch_max(running.fetch_add(1, Ordering::SeqCst) + 1, Ordering::SeqCst);
                    let r = guarded("concurrent", || run(d, &js[i], plans[i].clone()));
                    running.fetch_sub(1, Ordering::SeqCst);
                    log.lock().unwrap().push((t, 1, i));
                    out.lock().unwrap().push((i, r));
                }
            });
        }
    });
    let log = log.into_inner().unwrap();
    // the order of starts and ends, as observed
    let h = hash_str(&format!("{log:?}"));
    c.distinct(mix2(h, d[0].spec.hash()));
    let k = format!("jobs-at-once:{}", most.load(Ordering::SeqCst));
    c.count(&k);
    c.add("events", log.len() as u64);
    c.sample(|| format!("{nt} threads, {} jobs on {n} files; order {:?}…", js.len(), &log[..log.len().min(24)]));
    let out = out.into_inner().unwrap();
    ensure!(out.len() == js.len() * times, "harness", "{} results", out.len());
    for (i, r) in out {
        compare(c, &js[i], &refs[i], r, "threads")?;
    }
    // and when it is over, the history has changed nothing
    for i in 0..js.len().min(8) {
        let r = guarded("after", || run(&d, &js[i], Plan::clean()));
        compare(c, &js[i], &refs[i], r, "after")?;
    }
    Ok(())
}
/// asynchronous operations advanced in any order, by one thread or several
fn tasks(c: &mut Case) -> R {
    let n = c.rng.range(1, 4);
    let d = docs(&mut c.rng, n)?;
    let mut js = jobs(&mut c.rng, &d, 1000);
    js.retain(is_async);
    js.truncate(24);
    let refs = references(&d, &js)?;
    check_writes(&d, &js, &refs)?;
    let mut tasks: Vec<(usize, BoxFuture<Vec<Ev>>)> = vec![];
    for (i, j) in js.iter().enumerate() {
        let mut p = Plan::rough(&mut c.rng);
        p.pending = *c.rng.pick(&[2, 6, 14]);
        tasks.push((i, future(&d, j, p)));
    }
    let moved = c.rng.bool();
    let mut order = vec![];
    if moved {
        // polled by whichever thread gets it
        let pool = Mutex::new(tasks);
        let done: Mutex<Vec<(usize, R<Vec<Ev>>)>> = Mutex::new(vec![]);
        let seeds: Vec<u64> = (0..4).map(|_| c.rng.u64() | 1).collect();
        let log = Mutex::new(vec![]);
        let left = AtomicUsize::new(js.len());
        std::thread::scope(|s| {
            for t in 0..4 {
                let (pool, done, log, left, seed) = (&pool, &done, &log, &left, seeds[t]);
                s.spawn(move || {
                    pauses(seed);
                    let mut rng = Rng::new(seed);
                    let w = futures::task::noop_waker();
                    let mut cx = std::task::Context::from_waker(&w);
                    while left.load(Ordering::SeqCst) > 0 {
                        let x = {
                            let mut p = pool.lock().unwrap();
                            if p.is_empty() {
                                None
                            } else {
                                let k = rng.below(p.len());
                                Some(p.swap_remove(k))
                            }
                        };
                        let Some((i, mut f)) = x else {
                            std::thread::yield_now();
                            continue;
                        };
                        log.lock().unwrap().push((t, i));
                        match guarded("task", || f.as_mut().poll(&mut cx)) {
                            Ok(std::task::Poll::Pending) => pool.lock().unwrap().push((i, f)),
                            Ok(std::task::Poll::Ready(r)) => {
                                done.lock().unwrap().push((i, Ok(r)));
                                left.fetch_sub(1, Ordering::SeqCst);
                            }
                            Err(e) => {
                                done.lock().unwrap().push((i, Err(e)));
                                left.fetch_sub(1, Ordering::SeqCst);
                            }
                        }
                    }
                });
            }
        });
        order = log.into_inner().unwrap();
        for (i, r) in done.into_inner().unwrap() {
            compare(c, &js[i], &refs[i], r, "tasks-moved")?;
        }
    } else {
        let w = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&w);
        while !tasks.is_empty() {
            let k = c.rng.below(tasks.len());
            order.push((0, tasks[k].0));
            let r = guarded("task", || tasks[k].1.as_mut().poll(&mut cx));
            let r = match r {
                Ok(std::task::Poll::Pending) => continue,
                Ok(std::task::Poll::Ready(r)) => Ok(r),
                Err(e) => Err(e),
            };
            let (i, _) = tasks.swap_remove(k);
            compare(c, &js[i], &refs[i], r, "tasks")?;
        }
    }
    c.distinct(hash_str(&format!("{order:?}")));
    c.add("polls", order.len() as u64);
    c.count(if moved { "tasks-moved" } else { "tasks-in-one-thread" });
    Ok(())
}
type Pages<'a> = PageReader<Src<'a>>;
enum Step<'a> {
    Pages(Pages<'a>),
    Dec(Decompressor<Pages<'a>>),
    Basic(BasicDecompressor<Pages<'a>>),
}
fn keeping<'a>(d: &'a [Doc], at: (usize, usize, usize), kind: usize, plan: Plan) -> R<Step<'a>> {
    let col = &d[at.0].md.row_groups[at.1].columns()[at.2];
    let it = get_page_iterator(col, Src::new(&d[at.0].bytes, plan), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
    Ok(match kind {
        0 => Step::Pages(it),
        1 => Step::Dec(Decompressor::new(it, vec![])),
        _ => Step::Basic(BasicDecompressor::new(it, vec![])),
    })
}
impl<'a> Step<'a> {
    /// `Err`: there is more
    fn next(&mut self) -> Result<Option<Ev>, parquet2::error::Error> {
        Ok(match self {
            Step::Pages(it) => it.next().transpose()?.map(|p| compressed(&p)),
            Step::Dec(it) => {
                it.advance()?;
                it.get().map(plain_page)
            }
            Step::Basic(it) => {
                it.advance()?;
                it.get().map(plain_page)
            }
        })
    }
    fn look(&self) -> Option<Ev> {
        match self {
            Step::Pages(_) => None,
            Step::Dec(it) => it.get().map(plain_page),
            Step::Basic(it) => it.get().map(plain_page),
        }
    }
}
fn all_chunks(d: &[Doc]) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (i, f) in d.iter().enumerate() {
        for g in 0..f.md.row_groups.len() {
            for k in 0..f.spec.leaves.len() {
                v.push((i, g, k));
            }
        }
    }
    v
}
/// readers of several chunks and writers of several files advanced in turns, by one thread or moving between threads
fn turns(c: &mut Case) -> R {
    let n = c.rng.range(1, 3);
    let d = docs(&mut c.rng, n)?;
    let chunks = all_chunks(&d);
    if chunks.is_empty() {
        return Ok(());
    }
    let mut live: Vec<(usize, usize, Vec<Ev>, Step, Vec<Ev>)> = vec![];
    for i in 0..c.rng.range(2, 10) {
        let at = *c.rng.pick(&chunks);
        let kind = c.rng.below(3);
        let mut alone = keeping(&d, at, kind, Plan::clean())?;
        let mut want = vec![];
        while let Some(e) = alone.next().map_err(e2f("alone"))? {
            want.push(e);
        }
        let plan = Plan::rough(&mut c.rng);
        live.push((i, kind, want, keeping(&d, at, kind, plan)?, vec![]));
    }
    let mut writers = vec![];
    for _ in 0..c.rng.range(0, 4) {
        let i = c.rng.below(d.len());
        let s = &d[i].spec;
        let w = FileWriter::new(Sink::new(Plan::rough(&mut c.rng)), s.schema(), s.options(), s.created_by.clone());
        writers.push((i, w, 0));
    }
    let mut order = vec![];
    let moved = c.rng.bool();
    while !live.is_empty() || !writers.is_empty() {
        let k = c.rng.below(live.len() + writers.len());
        order.push(k);
        if k < live.len() {
            let (_, kind, want, s, got) = &mut live[k];
            let r = if moved {
                std::thread::scope(|t| t.spawn(|| guarded("turn", || s.next())).join().unwrap())
            } else {
                guarded("turn", || s.next())
            };
            match r?.map_err(e2f("turns"))? {
                Some(e) => got.push(e),
                None => {
                    same(["pages", "decompressor", "basic-decompressor"][*kind], want, got, "in turns")?;
                    c.eval();
                    live.swap_remove(k);
                }
            }
        } else {
            let k = k - live.len();
            let (i, w, g) = &mut writers[k];
            let spec = &d[*i].spec;
            if *g < spec.groups.len() {
                let rg = row_group(spec, *g, *g);
                let r = if moved { std::thread::scope(|t| t.spawn(|| w.write(rg)).join().unwrap()) } else { w.write(rg) };
                r.map_err(e2f("write in turns"))?;
                *g += 1;
            } else {
                let (i, mut w, _) = writers.swap_remove(k);
                w.end(d[i].spec.keyvalues()).map_err(e2f("end in turns"))?;
                let b = w.into_inner().data();
                ensure!(b == d[i].bytes, "turns:write", "a file written in turns with others differs");
                c.eval();
            }
        }
        // what a reader holds is unaffected by what the others do
        if !live.is_empty() {
            let k = c.rng.below(live.len());
            let (_, kind, _, s, got) = &live[k];
            if let (Some(e), Some(l)) = (s.look(), got.last()) {
                ensure!(e.h == l.h, "turns:held-page", "the page held by reader {kind} changes while others advance");
                c.eval();
            }
        }
    }
    c.distinct(hash_str(&format!("{order:?}{}", d[0].spec.hash())));
    c.add("turns", order.len() as u64);
    c.count(if moved { "turns-moved" } else { "turns-in-one-thread" });
    Ok(())
}
struct Made {
    pages: std::vec::IntoIter<Option<CompressedPage>>,
    cur: Option<CompressedPage>,
}
impl FallibleStreamingIterator for Made {
    type Item = CompressedPage;
    type Error = parquet2::error::Error;
    fn advance(&mut self) -> Result<(), Self::Error> {
        self.cur = self.pages.next().flatten();
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.cur.as_ref()
    }
}
/// pages read by some threads and decoded by others; pages compressed by many and written by one
fn handed(c: &mut Case) -> R {
    let n = c.rng.range(1, 3);
    let d = docs(&mut c.rng, n)?;
    let chunks = all_chunks(&d);
    let seeds: Vec<u64> = (0..8).map(|_| c.rng.u64() | 1).collect();
    let (np, nc) = (c.rng.range(1, 3), c.rng.range(1, 4));
    let todo = Mutex::new(chunks.iter().cloned().collect::<VecDeque<_>>());
    let results: Mutex<Vec<((usize, usize, usize), usize, R<(Option<Vec<Val>>, Option<PageData>, String)>)>> = Mutex::new(vec![]);
    let (tx, rx) = mpsc::sync_channel::<(usize, usize, CompressedPage)>(4);
    let rx = Mutex::new(rx);
    let errors: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let log = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..np {
            let (d, todo, chunks, tx, errors, log, seed) = (&d, &todo, &chunks, tx.clone(), &errors, &log, seeds[t]);
            s.spawn(move || {
                pauses(seed);
                loop {
                    let Some(at) = todo.lock().unwrap().pop_front() else { break };
                    let ci = chunks.iter().position(|x| *x == at).unwrap();
                    let r = guarded("producer", || -> R {
                        let col = &d[at.0].md.row_groups[at.1].columns()[at.2];
                        let it = get_page_iterator(col, Src::new(&d[at.0].bytes, Plan::clean()), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
                        for (k, p) in it.enumerate() {
                            let p = p.map_err(e2f("PageReader"))?;
                            log.lock().unwrap().push((t, ci, k));
                            if tx.send((ci, k, p)).is_err() {
                                break;
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = r.and_then(|x| x) {
                        errors.lock().unwrap().push(e);
                    }
                }
            });
        }
        drop(tx);
        for t in 0..nc {
            let (d, chunks, rx, results, log, seed) = (&d, &chunks, &rx, &results, &log, seeds[4 + t]);
            s.spawn(move || {
                pauses(seed);
                let mut scratch = vec![];
                loop {
                    let x = rx.lock().unwrap().recv();
                    let Ok((ci, k, p)) = x else { break };
                    pause();
                    log.lock().unwrap().push((10 + t, ci, k));
                    let at = chunks[ci];
                    let leaf = &d[at.0].spec.leaves[at.2];
                    let r = guarded("consumer", || -> R<_> {
                        let p = decompress(p, &mut scratch).map_err(e2f("decompress"))?;
                        Ok(match &p {
                            Page::Dict(x) => (Some(lib_plain(leaf.ph, &x.buffer, x.num_values)?), None, String::new()),
                            Page::Data(x) => {
                                let dict = d[at.0].spec.groups[at.1][at.2].dict.clone().unwrap_or_default();
                                let st = match x.statistics() {
                                    Some(s) => format!("{:?}", parquet2::statistics::serialize_statistics(s.map_err(e2f("statistics"))?.as_ref())),
                                    None => String::new(),
                                };
                                (None, Some(lib_decode(x, leaf, &dict)?), st)
                            }
                        })
                    });
                    results.lock().unwrap().push((at, k, r.and_then(|x| x)));
                }
            });
        }
    });
    if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    let log = log.into_inner().unwrap();
    c.distinct(hash_str(&format!("{log:?}")));
    c.add("pages-handed", log.len() as u64);
    let results = results.into_inner().unwrap();
    for (at, k, r) in &results {
        let cs = &d[at.0].spec.groups[at.1][at.2];
        let (dict, data, st) = match r {
            Ok(x) => x,
            Err(e) => return Err(failure(format!("handed:{}", e.sig), e.msg.clone())),
        };
        match (dict, data) {
            (Some(x), _) => ensure!(Some(x) == cs.dict.as_ref(), "handed:dict", "the dictionary of {at:?} differs"),
            (_, Some(x)) => {
                let k = k - cs.dict.is_some() as usize;
                ensure!(x == &cs.pages[k].data, "handed:page", "page {k} of {at:?} differs");
                if let Some(s) = &cs.pages[k].stats {
                    let exp = s.null_count.map(|n| format!("null_count: Some({n})")).unwrap_or_default();
                    ensure!(st.contains(&exp), "handed:statistics", "page {k} of {at:?}: {st}");
                }
            }
            _ => {}
        }
        c.eval();
    }
    let got: usize = results.len();
    let want: usize = chunks.iter().map(|a| log.iter().filter(|x| x.0 < 10 && chunks[x.1] == *a).count()).sum();
    ensure!(got == want, "harness", "{got} of {want} pages came through");
    // pages compressed by many threads, written by one
    let i = c.rng.below(d.len());
    let spec = &d[i].spec;
    let mut w = FileWriter::new(Sink::new(Plan::clean()), spec.schema(), spec.options(), spec.created_by.clone());
    for g in 0..spec.groups.len() {
        let mut parts: Vec<Vec<Option<CompressedPage>>> = vec![];
        let mut work = vec![];
        for (k, cs) in spec.groups[g].iter().enumerate() {
            let l = page_list(cs, &spec.leaves[k]);
            parts.push(l.iter().map(|_| None).collect());
            for (p, page) in l.into_iter().enumerate() {
                work.push((k, p, page, cs.codec));
            }
        }
        c.rng.shuffle(&mut work);
        let work = Mutex::new(work);
        let parts = Mutex::new(parts);
        let errors = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for seed in &seeds[..4] {
                let (work, parts, errors) = (&work, &parts, &errors);
                s.spawn(move || {
                    pauses(*seed);
                    loop {
                        let Some((k, p, page, codec)) = work.lock().unwrap().pop() else { break };
                        pause();
                        match guarded("compress", || compress(page, vec![], codec)) {
                            Ok(Ok(z)) => parts.lock().unwrap()[k][p] = Some(z),
                            Ok(Err(e)) => errors.lock().unwrap().push(e2f("compress")(e)),
                            Err(e) => errors.lock().unwrap().push(e),
                        }
                    }
                });
            }
        });
        if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
            return Err(e);
        }
        let parts = parts.into_inner().unwrap();
        let cols = parts.into_iter().map(|v| {
            Ok(DynStreamingIterator::new(Made { pages: v.into_iter(), cur: None }))
        });
        w.write(DynIter::new(cols.collect::<Vec<_>>().into_iter())).map_err(e2f("write"))?;
    }
    w.end(spec.keyvalues()).map_err(e2f("end"))?;
    ensure!(w.into_inner().data() == d[i].bytes, "handed:write", "the file of pages compressed by many threads differs");
    c.eval();
    Ok(())
}
/// callbacks that themselves read and write files
fn nested(c: &mut Case) -> R {
    let n = c.rng.range(2, 3);
    let d = Arc::new(docs(&mut c.rng, n)?);
    let mut inner = jobs(&mut c.rng, &d, 12);
    inner.retain(|j| !is_async(j));
    let refs = references(&d, &inner)?;
    let trouble: Arc<Mutex<Option<Fail>>> = Arc::default();
    let ran = Arc::new(AtomicUsize::new(0));
    let next = Arc::new(AtomicUsize::new(c.rng.below(100)));
    let (inner, refs) = (Arc::new(inner), Arc::new(refs));
    let act: Arc<dyn Fn() + Send + Sync> = {
        let (d, trouble, ran, inner, refs) = (d.clone(), trouble.clone(), ran.clone(), inner.clone(), refs.clone());
        Arc::new(move || {
            let k = next.fetch_add(1, Ordering::SeqCst);
            if inner.is_empty() || k % 3 == 0 {
                return;
            }
            let k = k % inner.len();
            let r = guarded("nested", || run(&d, &inner[k], Plan::clean())).and_then(|x| same("nested", &refs[k], &x, &format!("{:?} in a callback", inner[k])));
            ran.fetch_add(1, Ordering::SeqCst);
            if let Err(e) = r {
                trouble.lock().unwrap().get_or_insert(e);
            }
        })
    };
    // the pages handed to a writer are made while it writes
    for i in 0..d.len() {
        let spec = &d[i].spec;
        let mut w = FileWriter::new(Sink::new(Plan::clean()), spec.schema(), spec.options(), spec.created_by.clone());
        for g in 0..spec.groups.len() {
            let act = act.clone();
            let cols = spec.groups[g].iter().zip(&spec.leaves).map(move |(cs, l)| {
                act();
                let act = act.clone();
                let pages = page_list(cs, l).into_iter().map(move |p| {
                    act();
                    Ok(p)
                });
                Ok(DynStreamingIterator::new(Compressor::new(pages, cs.codec, vec![])))
            });
            let r = guarded("nested-write", || w.write(DynIter::new(cols)))?;
            r.map_err(e2f("nested write"))?;
        }
        w.end(spec.keyvalues()).map_err(e2f("end"))?;
        ensure!(w.into_inner().data() == d[i].bytes, "nested:write", "a file whose pages were made by reading and writing others differs");
        c.eval();
    }
    // filters, and readers between pages
    for at in all_chunks(&d) {
        let act2 = act.clone();
        let filter: PageFilter = Arc::new(move |_, _| {
            act2();
            true
        });
        let col = &d[at.0].md.row_groups[at.1].columns()[at.2];
        let it = get_page_iterator(col, Src::new(&d[at.0].bytes, Plan::clean()), Some(filter), vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
        let act3 = act.clone();
        let it = it.map(move |p| {
            act3();
            p
        });
        let mut ch = Chunk::default();
        if c.rng.bool() {
            let pages: Vec<_> = it.collect();
            for p in pages {
                let p = decompress(p.map_err(e2f("PageReader"))?, &mut vec![]).map_err(e2f("decompress"))?;
                absorb(&p, &d[at.0].spec.leaves[at.2], &mut ch, false)?;
                act();
            }
        } else {
            let mut it = BasicDecompressor::new(it, vec![]);
            loop {
                it.advance().map_err(e2f("BasicDecompressor"))?;
                let Some(p) = it.get() else { break };
                act();
                absorb(p, &d[at.0].spec.leaves[at.2], &mut ch, false)?;
            }
        }
        check_chunk_data(&ch, &d[at.0].spec.groups[at.1][at.2]).map_err(|e| failure(format!("nested:{}", e.sig), e.msg))?;
        c.eval();
    }
    c.distinct(mix2(d[0].spec.hash(), d[1].spec.hash()));
    c.add("nested-operations", ran.load(Ordering::SeqCst) as u64);
    let t = trouble.lock().unwrap().take();
    match t {
        Some(e) => Err(failure(format!("nested:{}", e.sig), e.msg)),
        None => Ok(()),
    }
}
// ---------------------------------------------------------------- other processes
fn digest_lines(seed: u64, n: usize) -> R<Vec<String>> {
    let mut v = vec![];
    for i in 0..n {
        let mut rng = Rng::new(mix2(seed, i as u64));
        let spec = gen_file(&mut rng, &shape());
        let b = write_sync(&spec, i)?;
        let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
        let side = {
            let mut w = vec![];
            parquet2::write::write_metadata_sidecar(&mut w, &md.clone().into_thrift()).map_err(e2f("sidecar"))?;
            w
        };
        let mut h = 0;
        for g in 0..md.row_groups.len() {
            for (_, op) in group_ops(&md, g) {
                for e in op(Src::new(&b, Plan::clean())) {
                    h = mix2(h, e.h.unwrap_or(7));
                }
            }
        }
        v.push(format!("{:x} {:x} {:x} {h:x}", spec.hash(), hash_bytes(&b), hash_bytes(&side)));
    }
    Ok(v)
}
pub fn digest(seed: u64, n: usize) {
    match digest_lines(seed, n) {
        Ok(v) => v.iter().for_each(|l| println!("{l}")),
        Err(e) => println!("failed {} {}", e.sig, e.msg),
    }
}
/// a library that moves the clock of the processes it is loaded into
fn shim() -> Option<String> {
    use std::sync::OnceLock;
    static S: OnceLock<Option<String>> = OnceLock::new();
    S.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("parquet2-shim-{}", std::process::id()));
        std::fs::create_dir_all(&dir).ok()?;
        let (src, lib) = (dir.join("shim.c"), dir.join("shim.so"));
        std::fs::write(&src, include_str!("../../shim.c")).ok()?;
        let ok = std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&lib).arg(&src).arg("-ldl").output().ok()?.status.success();
        ok.then(|| lib.to_string_lossy().into_owned())
    })
    .clone()
}
fn processes(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let n = 40;
    let here = digest_lines(seed, n)?;
    let again = digest_lines(seed, n)?;
    ensure!(here == again, "process:again", "the same files written twice by one process differ: {:?}", here.iter().zip(&again).find(|x| x.0 != x.1));
    for l in &here {
        c.distinct(hash_str(l));
    }
    let exe = std::env::current_exe().map_err(|e| failure("harness", e.to_string()))?;
    let mut cmd = std::process::Command::new(exe);
    cmd.args(["digest", &seed.to_string(), &n.to_string()]);
    let shift = c.rng.range(1, 1_000_000_000);
    if let Some(s) = shim() {
        cmd.env("LD_PRELOAD", s).env("SHIM_SECONDS", shift.to_string());
        c.count("clock-moved");
    }
    if c.rng.bool() {
        cmd.env("TZ", "Asia/Kathmandu").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8");
    }
    if c.rng.bool() {
        cmd.env("HOME", "/nonexistent").current_dir("/");
        for i in 0..c.rng.below(50) {
            cmd.env(format!("FILL{i}"), "x".repeat(c.rng.below(500)));
        }
    }
    let o = cmd.output().map_err(|e| failure("harness", e.to_string()))?;
    ensure!(o.status.success(), "process:crash", "the other process ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr));
    let there: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect();
    ensure!(there.len() == here.len(), "process:lines", "{} of {} files: {there:?}", there.len(), here.len());
    for (a, b) in here.iter().zip(&there) {
        let (x, y): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
        ensure!(x[0] == y.get(0).copied().unwrap_or(""), "harness", "the other process made another file: {a} {b}");
        ensure!(a == b, "process:differs", "another process writes or reads the same file differently: {a} / {b}");
        c.eval();
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "jobs (write, read, decode, compress, parse; sync and async) are done by 2-8 threads with injected yields, as tasks polled in any order and moved between threads, in turns, nested in each other's callbacks, and in other processes with another clock, environment and hash seeds; each result is compared with the sequential one; distinct = observed order of starts and ends (threads), of polls (tasks), of turns, or file",
        assumptions: &["interleavings are those the scheduler produces under the injected yields"],
        families: vec![
            Family { name: "threads", quick: 900, thorough: 20000, f: threads },
            Family { name: "tasks", quick: 2500, thorough: 60000, f: tasks },
            Family { name: "turns", quick: 2500, thorough: 60000, f: turns },
            Family { name: "handed", quick: 1200, thorough: 30000, f: handed },
            Family { name: "nested", quick: 800, thorough: 20000, f: nested },
            Family { name: "processes", quick: 48, thorough: 800, f: processes },
        ],
    }
}
