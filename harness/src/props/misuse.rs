//! C26: whatever is done to the writers, a file they call complete is right.
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::block;
use crate::io::{Plan, Sink};
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::metadata::Descriptor;
use parquet2::error::Error;
use parquet2::fallible_streaming_iterator::FallibleStreamingIterator;
use parquet2::indexes::{select_pages, Interval};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::write::*;
use std::collections::VecDeque;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
enum Bad {
    None,
    /// the iterator of columns fails
    ColErr(usize),
    /// the iterator of the pages of a column fails
    PageErr(usize, usize),
    PagePanic(usize, usize),
    /// a page without number of rows
    NoRows(usize, usize),
    /// a page whose statistics are missing
    NoStats(usize, usize),
    /// statistics that cannot be deserialized
    BadStats(usize, usize),
    /// one page compressed with another codec
    Mixed(usize, usize),
    Fewer(usize),
    More(usize),
    /// a column without one of its pages
    Unequal(usize, usize),
    /// two columns in each other's place
    Swapped(usize, usize),
    /// a page that declares another number of rows
    WrongRows(usize, usize),
    /// the dictionary is given again after the data
    DictAgain(usize),
}
enum Item {
    Page(CompressedPage),
    Err,
    Panic,
}
struct Items {
    items: VecDeque<Item>,
    cur: Option<CompressedPage>,
}
impl FallibleStreamingIterator for Items {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.cur = None;
        match self.items.pop_front() {
            Some(Item::Page(p)) => self.cur = Some(p),
            Some(Item::Err) => return Err(Error::OutOfSpec("injected".into())),
            Some(Item::Panic) => panic!("injected panic of the page iterator"),
            None => (),
        }
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.cur.as_ref()
    }
}
fn set_stats(h: &mut DataPageHeader, s: Option<parquet2::statistics::ParquetStatistics>) {
    match h {
        DataPageHeader::V1(h) => h.statistics = s,
        DataPageHeader::V2(h) => h.statistics = s,
    }
}
fn column(spec: &FileSpec, g: usize, ci: usize, bad: &Bad) -> Items {
    let c = &spec.groups[g][ci];
    let mut items: VecDeque<Item> = VecDeque::new();
    let mut data = 0;
    for p in page_list(c, &spec.leaves[ci]) {
        let mut codec = c.codec;
        let mut p = p;
        if let Page::Data(d) = &p {
            let here = |k: &usize, i: &usize| *k == ci && *i == data;
            let (mut h, mut rows) = (d.header().clone(), Some(c.pages[data].data.rows));
            let mut skip = false;
            match bad {
                Bad::PageErr(k, i) if here(k, i) => items.push_back(Item::Err),
                Bad::PagePanic(k, i) if here(k, i) => items.push_back(Item::Panic),
                Bad::NoRows(k, i) if here(k, i) => rows = None,
                Bad::WrongRows(k, i) if here(k, i) => rows = rows.map(|r| r + 1),
                Bad::NoStats(k, i) if here(k, i) => set_stats(&mut h, None),
                Bad::BadStats(k, i) if here(k, i) => set_stats(
                    &mut h,
                    Some(parquet2::statistics::ParquetStatistics {
                        max: None,
                        min: None,
                        null_count: Some(0),
                        distinct_count: None,
                        max_value: Some(vec![1, 2, 3]),
                        min_value: Some(vec![1, 2, 3]),
                    }),
                ),
                Bad::Mixed(k, i) if here(k, i) => {
                    codec = other_codec(codec)
                }
                Bad::Unequal(k, i) if here(k, i) => skip = true,
                _ => (),
            }
            data += 1;
            if skip {
                continue;
            }
            p = Page::Data(DataPage::new(h, d.buffer().to_vec(), d.descriptor.clone(), rows));
        }
        items.push_back(Item::Page(compress(p, vec![], codec).unwrap()));
    }
    if let (Bad::DictAgain(k), Some(d)) = (bad, &c.dict) {
        if *k == ci {
            let p = Page::Dict(dict_page(spec.leaves[ci].ph, d));
            items.push_back(Item::Page(compress(p, vec![], c.codec).unwrap()));
        }
    }
    Items { items, cur: None }
}
fn bad_group<'a>(spec: &FileSpec, g: usize, bad: &Bad) -> RowGroupIter<'a, Error> {
    let n = spec.leaves.len();
    let mut order: Vec<usize> = (0..n).collect();
    match bad {
        Bad::Fewer(k) => order.truncate(n - k),
        Bad::More(k) => order.extend(std::iter::repeat(n - 1).take(*k)),
        Bad::Swapped(a, b) => order.swap(*a, *b),
        _ => (),
    }
    let mut cols: Vec<Result<ColStream<'a>, Error>> = vec![];
    for ci in order {
        if *bad == Bad::ColErr(ci) {
            cols.push(Err(Error::OutOfSpec("injected".into())));
        }
        cols.push(Ok(DynStreamingIterator::new(column(spec, g, ci, bad))));
    }
    DynIter::new(cols.into_iter())
}
fn rand_bad(rng: &mut Rng, spec: &FileSpec, g: usize) -> Bad {
    let n = spec.leaves.len();
    let k = rng.below(n);
    let np = spec.groups[g][k].pages.len();
    let i = if np == 0 { 0 } else { rng.below(np) };
    match rng.below(15) {
        0 => Bad::ColErr(k),
        1 | 2 => Bad::PageErr(k, i),
        3 => Bad::PagePanic(k, i),
        4 => Bad::NoRows(k, i),
        5 => Bad::NoStats(k, i),
        6 => Bad::BadStats(k, i),
        7 => Bad::Mixed(k, i),
        8 => Bad::Fewer(rng.range(1, n)),
        9 => Bad::More(rng.range(1, 3)),
        10 | 11 => Bad::Unequal(k, i),
        12 if n > 1 => {
            let j = (k + rng.range(1, n - 1)) % n;
            Bad::Swapped(k, j)
        }
        13 => Bad::WrongRows(k, i),
        _ => Bad::DictAgain(k),
    }
}
/// whether a success cannot be right
fn never(spec: &FileSpec, g: usize, bad: &Bad) -> bool {
    let pages = |k: &usize| &spec.groups[g][*k].pages;
    match bad {
        Bad::Fewer(_) | Bad::More(_) | Bad::ColErr(_) => true,
        Bad::PageErr(k, i) | Bad::PagePanic(k, i) => *i < pages(k).len(),
        Bad::NoRows(k, i) => pages(k).get(*i).map_or(false, |p| p.data.rows > 0),
        // the rows of the row group differ between its columns
        Bad::Unequal(k, i) => spec.leaves.len() > 1 && pages(k).get(*i).map_or(false, |p| p.data.rows > 0),
        // otherwise not known without decoding the levels of the page
        Bad::WrongRows(k, i) => pages(k).get(*i).map_or(false, |p| spec.leaves.len() > 1 || spec.leaves[*k].max_rep == 0 || p.v2 || p.data.rows == p.data.entries()),
        Bad::Swapped(a, b) => {
            let (x, y) = (&spec.leaves[*a], &spec.leaves[*b]);
            let some = |k: &usize| !pages(k).is_empty();
            x.ph != y.ph && (some(a) || some(b))
        }
        _ => false,
    }
}
/// the content of the file when the group was accepted
fn as_written(spec: &FileSpec, g: usize, bad: &Bad) -> Vec<ColSpec> {
    let mut cols = spec.groups[g].clone();
    match bad {
        Bad::Unequal(k, i) if *i < cols[*k].pages.len() => {
            cols[*k].pages.remove(*i);
        }
        Bad::Swapped(a, b) => cols.swap(*a, *b),
        // it was accepted, so it was the only page
        Bad::Mixed(k, i) if *i < cols[*k].pages.len() => cols[*k].codec = other_codec(cols[*k].codec),
        _ => (),
    }
    cols
}
fn other_codec(c: CompressionOptions) -> CompressionOptions {
    if c == CompressionOptions::Uncompressed {
        CompressionOptions::Snappy
    } else {
        CompressionOptions::Uncompressed
    }
}
#[derive(Debug, Clone)]
enum Step {
    Write(usize, Bad),
    End,
}
#[derive(Default)]
struct Seen {
    results: Vec<String>,
    /// (group, bad) of the successful writes before the first successful end
    written: Vec<(usize, Bad)>,
    /// (returned size, bytes at the first successful end)
    end: Option<(u64, Vec<u8>)>,
}
fn record(seen: &mut Seen, step: &Step, r: Result<Option<u64>, String>, sink: &Sink) -> R {
    match (&seen.end, step, &r) {
        (Some((_, bytes)), _, _) => {
            ensure!(&sink.data() == bytes, "changed-after-end", "{step:?} after a successful end changed the file");
            ensure!(r.is_err(), "success-after-end", "{step:?} after a successful end succeeded");
        }
        (None, Step::Write(g, bad), Ok(_)) => seen.written.push((*g, bad.clone())),
        (None, Step::End, Ok(n)) => seen.end = Some((n.unwrap(), sink.data())),
        _ => (),
    }
    seen.results.push(match r {
        Ok(_) => "ok".into(),
        Err(e) => e,
    });
    Ok(())
}
fn kind(e: std::thread::Result<Result<Option<u64>, Error>>) -> Result<Option<u64>, String> {
    match e {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error {e:?}").chars().take(60).collect()),
        Err(p) => Err(if p.downcast_ref::<&str>().map_or(false, |s| s.contains("injected panic")) { "panic".into() } else { "library panic".into() }),
    }
}
fn script(c: &mut Case, spec: &FileSpec, likely: usize) -> Vec<Step> {
    let mut v = vec![];
    for g in 0..spec.groups.len() {
        let bad = if c.rng.chance(likely, 8) { rand_bad(&mut c.rng, spec, g) } else { Bad::None };
        v.push(Step::Write(g, bad));
        if c.rng.chance(1, 16) {
            v.push(Step::End)
        }
    }
    for _ in 0..c.rng.range(1, 3) {
        v.push(Step::End);
        if c.rng.chance(1, 3) && !spec.groups.is_empty() {
            v.push(Step::Write(c.rng.below(spec.groups.len()), Bad::None))
        }
    }
    v
}
fn run_sync(spec: &FileSpec, steps: &[Step]) -> R<Seen> {
    let sink = Sink::new(Plan::clean());
    let mut w = FileWriter::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
    let mut seen = Seen::default();
    for s in steps {
        let r = catch_unwind(AssertUnwindSafe(|| match s {
            Step::Write(g, bad) => w.write(bad_group(spec, *g, bad)).map(|_| None),
            Step::End => w.end(spec.keyvalues()).map(Some),
        }));
        record(&mut seen, s, kind(r), &sink)?;
        ensure!(w.metadata().is_some() == seen.end.is_some(), "metadata-before-end", "metadata() is {:?} after {:?}", w.metadata().is_some(), seen.results);
    }
    Ok(seen)
}
fn run_async(spec: &FileSpec, steps: &[Step]) -> R<Seen> {
    let sink = Sink::new(Plan::clean());
    let mut w = FileStreamer::new(sink.clone(), spec.schema(), spec.options(), spec.created_by.clone());
    let mut seen = Seen::default();
    for s in steps {
        let r = catch_unwind(AssertUnwindSafe(|| match s {
            Step::Write(g, bad) => block(w.write(bad_group(spec, *g, bad))).map(|_| None),
            Step::End => block(w.end(spec.keyvalues())).map(Some),
        }));
        record(&mut seen, s, kind(r), &sink)?;
    }
    Ok(seen)
}
fn judge(c: &mut Case, spec: &FileSpec, steps: &[Step], seen: &Seen, way: &str) -> R {
    let how = || format!("{way}: {steps:?} gave {:?}", seen.results);
    ensure!(!seen.results.iter().any(|r| r == "library panic"), "panic", "{}", how());
    c.eval();
    let Some((n, b)) = &seen.end else {
        c.count("refused");
        return Ok(());
    };
    c.count("completed");
    for (g, bad) in &seen.written {
        if never(spec, *g, bad) {
            let k = format!("{bad:?}");
            let k = k.split('(').next().unwrap();
            fail!(format!("completed:{k}"), "{}; completed although row group {g} was given as {bad:?}", how());
        }
    }
    ensure!(*n == b.len() as u64, "size", "{}: end() returned {n}, the file has {} bytes", how(), b.len());
    let groups: Vec<usize> = seen.written.iter().map(|x| x.0).collect();
    let mut want = super::transport::subset(spec, &groups);
    if seen.written.iter().all(|x| x.1 == Bad::None) {
        ensure!(b == &write_sync(&want, 0)?, "content", "{}: the file is not that of the written row groups", how());
        return Ok(());
    }
    if seen.written.iter().any(|x| matches!(x.1, Bad::WrongRows(_, _))) {
        c.count("believed:rows");
        return Ok(());
    }
    want.groups = seen.written.iter().map(|(g, bad)| as_written(spec, *g, bad)).collect();
    check_read(&want, b, c, &[Mode::Decompressor]).map_err(|e| failure(format!("unreadable:{}", e.sig), format!("{}: {}", how(), e.msg)))?;
    Ok(())
}
fn histories(c: &mut Case) -> R {
    let likely = *c.rng.pick(&[0, 1, 3, 8]);
    history(c, likely)
}
/// a single misused call, then an end
fn single(c: &mut Case) -> R {
    history(c, 8)
}
fn history(c: &mut Case, likely: usize) -> R {
    let sh = Shape {
        max_leaves: 3,
        depth: 1,
        max_groups: if likely == 8 { 1 } else { 4 },
        min_groups: if likely == 8 { 1 } else { 0 },
        max_pages: 3,
        max_rows: 12,
        annotate: false,
        ..Default::default()
    };
    let spec = spec_of(c, &sh);
    let steps = script(c, &spec, likely);
    c.distinct(spec.hash() ^ hash_str(&format!("{steps:?}")));
    c.sample(|| format!("{steps:?} on {}", spec.describe()));
    for s in &steps {
        if let Step::Write(_, b) = s {
            let k = format!("given:{b:?}");
            let k = k.split('(').next().unwrap().to_string();
            c.count(&k);
        }
    }
    let a = run_sync(&spec, &steps)?;
    judge(c, &spec, &steps, &a, "sync")?;
    let b = run_async(&spec, &steps)?;
    judge(c, &spec, &steps, &b, "async")?;
    let ok = |s: &Seen| s.results.iter().map(|r| r == "ok").collect::<Vec<_>>();
    ensure!(ok(&a) == ok(&b), "sync-async-differ", "{steps:?}: sync {:?}, async {:?}", a.results, b.results);
    ensure!(a.end.as_ref().map(|x| &x.1) == b.end.as_ref().map(|x| &x.1), "sync-async-differ", "{steps:?}: different files");
    Ok(())
}
/// pages read (selectively or not) from one file are written to another
fn copied(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 3, depth: 1, max_groups: 2, min_groups: 1, max_pages: 3, max_rows: 20, ..Default::default() };
    let spec = spec_of(c, &sh);
    let b = write_sync(&spec, 0)?;
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    c.distinct(spec.hash());
    c.sample(|| spec.describe());
    let way = c.rng.below(4);
    let sel = c.rng.below(4);
    c.count(["copied:all-pages", "copied:indexed", "copied:indexed-recompressed", "copied:selected-by-hand"][way]);
    let mut fw = FileWriter::new(vec![], spec.schema(), spec.options(), spec.created_by.clone());
    let mut written = vec![];
    let mut kept: Vec<Vec<ColSpec>> = vec![];
    for g in 0..spec.groups.len() {
        let rg = &md.row_groups[g];
        let n = rg.num_rows();
        let iv = match sel {
            0 => vec![Interval::new(0, n)],
            1 => vec![Interval::new(0, n / 2)],
            _ => super::select::rand_sel(&mut c.rng, n),
        };
        let locs = must(read_pages_locations(&mut Cursor::new(&b), rg.columns()), "read_pages_locations")?;
        let mut cols: Vec<Result<ColStream<'_>, Error>> = vec![];
        let mut k: Vec<ColSpec> = vec![];
        for (ci, col) in rg.columns().iter().enumerate() {
            let cs = &spec.groups[g][ci];
            let mut items = VecDeque::new();
            let mut cs2 = cs.clone();
            let pages: Vec<CompressedPage> = if way == 0 || way == 3 {
                // reading ends once all values were read
                if cs.pages.iter().all(|p| p.data.entries() == 0) {
                    cs2.pages.clear();
                    cs2.dict = None;
                }
                must(get_page_iterator(col, Cursor::new(&b), None, vec![], MAXPAGE), "get_page_iterator")?.collect::<Result<_, _>>().map_err(e2f("PageReader"))?
            } else {
                let sel = must(select_pages(&iv, &locs[ci], n), "select_pages")?;
                cs2.pages = cs.pages.iter().zip(&sel).filter(|x| !x.1.selected_rows.is_empty()).map(|x| x.0.clone()).collect();
                if cs.pages.is_empty() {
                    // without the location of a page, that of the dictionary is not known
                    cs2.dict = None;
                }
                IndexedPageReader::new(Cursor::new(&b), col, sel, vec![], vec![]).collect::<Result<_, _>>().map_err(e2f("IndexedPageReader"))?
            };
            let mut data = 0;
            for p in pages {
                let p = match (way, p) {
                    (2, p) => must(compress(must(decompress(p, &mut vec![]), "decompress")?, vec![], cs.codec), "compress")?,
                    (3, CompressedPage::Data(mut d)) => {
                        // as there is no other way of declaring them, what is selected is taken for the number
                        // of rows; it can only be wrong where the number is otherwise known
                        let n = cs.pages[data].data.rows;
                        let known = spec.leaves[ci].max_rep == 0 || cs.pages[data].v2;
                        data += 1;
                        d.select_rows(match c.rng.below(6) {
                            0 => vec![],
                            1 if known => vec![Interval::new(0, c.rng.below(5))],
                            2 if n > 1 => vec![Interval::new(1, n - 1)],
                            3 if n > 2 => vec![Interval::new(0, 1), Interval::new(2, 1)],
                            _ => vec![Interval::new(0, n)],
                        });
                        CompressedPage::Data(d)
                    }
                    (_, p) => p,
                };
                items.push_back(Item::Page(p));
            }
            cols.push(Ok(DynStreamingIterator::new(Items { items, cur: None })));
            k.push(cs2);
        }
        let r = guarded("writing copied pages", || fw.write::<Error>(DynIter::new(cols.into_iter())))?;
        c.eval();
        if r.is_ok() {
            written.push(g);
            kept.push(k);
        } else {
            break;
        }
    }
    if written.len() < spec.groups.len() {
        c.count("copied:refused");
        ensure!(fw.end(None).is_err(), "copied:completed", "completed after a failed row group");
        return Ok(());
    }
    if fw.end(spec.keyvalues()).is_err() {
        c.count("copied:end-refused");
        return Ok(());
    }
    c.count("copied:completed");
    let out = fw.into_inner();
    let mut want = spec.clone();
    want.groups = kept;
    // whole pages are copied, whichever of their rows were selected
    let r = check_read(&want, &out, c, &[Mode::Decompressor]).map_err(|e| failure(format!("copied:{}", e.sig), format!("way {way} selection {sel}: {}", e.msg)));
    let out_md = r?;
    for (g, rg) in out_md.row_groups.iter().enumerate() {
        let locs = must(read_pages_locations(&mut Cursor::new(&out), rg.columns()), "read_pages_locations")?;
        for (ci, l) in locs.iter().enumerate() {
            let mut row = 0;
            for (p, x) in want.groups[g][ci].pages.iter().zip(l) {
                ensure!(x.first_row_index == row, "copied:offset-index", "way {way} selection {sel}: page starts at row {} of the index, is at {row}", x.first_row_index);
                row += p.data.rows as i64;
            }
        }
    }
    Ok(())
}
/// pages that announce sizes and counts that do not fit their headers
fn announced(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 1, depth: 0, flat: true, max_groups: 1, min_groups: 1, min_pages: 1, max_pages: 2, max_rows: 12, write_stats: Some(false), ..Default::default() };
    let spec = gen_file(&mut c.rng, &sh);
    let cs = &spec.groups[0][0];
    let leaf = &spec.leaves[0];
    let descriptor = Descriptor { primitive_type: leaf.prim.clone(), max_def_level: leaf.max_def as i16, max_rep_level: leaf.max_rep as i16 };
    let size = *c.rng.pick(&[1usize << 31, (1 << 31) + 7, u32::MAX as usize, 1 << 32, (1 << 32) + 20, usize::MAX]);
    let dict = cs.dict.is_some() && c.rng.bool();
    let count = dict && c.rng.bool();
    let at = c.rng.below(cs.pages.len());
    let codec: Compression = cs.codec.into();
    let mut items = VecDeque::new();
    if let Some(d) = &cs.dict {
        let page = dict_page(leaf.ph, d);
        let n = c.rng.below(40);
        items.push_back(Item::Page(match (dict, count) {
            (false, _) => must(compress(Page::Dict(page), vec![], cs.codec), "compress")?,
            (true, true) => CompressedPage::Dict(CompressedDictPage::new(c.rng.bytes(n), codec, page.buffer.len(), size, false)),
            (true, false) => CompressedPage::Dict(CompressedDictPage::new(c.rng.bytes(n), codec, size, d.len(), false)),
        }));
    }
    for (i, ps) in cs.pages.iter().enumerate() {
        let page = ps.built.clone();
        let n = c.rng.below(40);
        items.push_back(Item::Page(if !dict && i == at {
            let h = page.header().clone();
            CompressedPage::Data(CompressedDataPage::new(h, c.rng.bytes(n), codec, size, descriptor.clone(), Some(ps.data.rows)))
        } else {
            must(compress(Page::Data(page), vec![], cs.codec), "compress")?
        }));
    }
    c.distinct(mix(size as u64) ^ (dict as u64) << 1 ^ count as u64 ^ spec.hash());
    c.count(if count { "announced:dictionary-entries" } else if dict { "announced:dictionary-size" } else { "announced:page-size" });
    c.sample(|| format!("size {size} dict {dict} count {count} {}", spec.describe()));
    let mut fw = FileWriter::new(vec![], spec.schema(), spec.options(), None);
    let cols: Vec<Result<ColStream<'_>, Error>> = vec![Ok(DynStreamingIterator::new(Items { items, cur: None }))];
    let r = guarded("writing a page of an announced size", || fw.write::<Error>(DynIter::new(cols.into_iter())))?;
    ensure!(r.is_err(), "announced:written", "size {size} dict {dict} count {count}");
    ensure!(fw.end(None).is_err(), "announced:completed", "size {size} dict {dict} count {count}");
    c.eval();
    Ok(())
}
/// pages whose headers hold numbers that no page has
fn absurd(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 1, depth: 1, max_groups: 1, min_groups: 1, min_pages: 1, max_pages: 3, max_rows: 12, write_stats: Some(c.rng.bool()), ..Default::default() };
    let spec = gen_file(&mut c.rng, &sh);
    let write = |w: &mut FileWriter<Vec<u8>>, c: &mut Case, alter: bool| -> R<(String, Result<(), Error>)> {
        let mut what = String::new();
        let mut cols: Vec<Result<ColStream<'_>, Error>> = vec![];
        for (cs, leaf) in spec.groups[0].iter().zip(&spec.leaves) {
            let mut items = VecDeque::new();
            if let Some(d) = &cs.dict {
                items.push_back(Item::Page(must(compress(Page::Dict(dict_page(leaf.ph, d)), vec![], cs.codec), "compress")?));
            }
            let descriptor = Descriptor { primitive_type: leaf.prim.clone(), max_def_level: leaf.max_def as i16, max_rep_level: leaf.max_rep as i16 };
            for ps in &cs.pages {
                let mut page = ps.built.clone();
                if alter && c.rng.chance(2, 3) {
                    let mut h = page.header().clone();
                    let n32 = *c.rng.pick(&[-1, -5, i32::MIN, i32::MAX, 0, 1]);
                    let n64 = *c.rng.pick(&[-1, i64::MIN, i64::MAX, i64::MAX - 1, 1 << 32]);
                    let kind = c.rng.below(5);
                    let st = |s: &mut Option<parquet_format_safe::Statistics>| match s {
                        Some(s) if kind == 1 => s.distinct_count = Some(n64),
                        Some(s) => s.null_count = Some(n64),
                        None => (),
                    };
                    match (&mut h, kind) {
                        (DataPageHeader::V1(h), 0 | 1) => st(&mut h.statistics),
                        (DataPageHeader::V2(h), 0 | 1) => st(&mut h.statistics),
                        (DataPageHeader::V1(h), _) => h.num_values = n32,
                        (DataPageHeader::V2(h), 2) => h.num_values = n32,
                        (DataPageHeader::V2(h), 3) => h.num_nulls = n32,
                        (DataPageHeader::V2(h), _) => h.num_rows = n32,
                    }
                    what += &format!("{kind}:{n32}/{n64} ");
                    // the number of rows follows the header where it can
                    let rows = match c.rng.below(3) {
                        0 => None,
                        1 => usize::try_from(n32).ok(),
                        _ => Some(ps.data.rows),
                    };
                    page = DataPage::new(h, page.buffer().to_vec(), descriptor.clone(), rows);
                    if kind < 2 {
                        c.count("absurd:statistics");
                    } else if n32 < 0 {
                        c.count("absurd:negative");
                    } else {
                        c.count("absurd:other");
                    }
                }
                items.push_back(Item::Page(must(compress(Page::Data(page), vec![], cs.codec), "compress")?));
            }
            cols.push(Ok(DynStreamingIterator::new(Items { items, cur: None })));
        }
        Ok((what, guarded("writing pages with absurd headers", || w.write::<Error>(DynIter::new(cols.into_iter())))?))
    };
    let mut fw = FileWriter::new(vec![], spec.schema(), spec.options(), None);
    let (what, r) = write(&mut fw, c, true)?;
    c.distinct(mix(hash_str(&what)) ^ spec.hash());
    c.sample(|| format!("{what}: {}", spec.describe()));
    let e = guarded("ending", || fw.end(None))?;
    c.eval();
    if r.is_err() {
        c.count("absurd:refused");
        ensure!(e.is_err(), "absurd:completed-after-error", "{what}");
        return Ok(());
    }
    if e.is_err() {
        c.count("absurd:end-refused");
        return Ok(());
    }
    c.count("absurd:completed");
    let out = fw.into_inner();
    let md = guarded("read_metadata", || read_metadata(&mut Cursor::new(&out)))?.map_err(|e| failure("absurd:unreadable", format!("{what}: {e:?}")))?;
    for rg in &md.row_groups {
        for col in rg.columns() {
            let n = must(guarded("get_page_iterator", || get_page_iterator(col, Cursor::new(&out), None, vec![], MAXPAGE))?, "get_page_iterator")?;
            let mut it = n;
            while let Some(p) = guarded("next", || it.next())? {
                p.map_err(|e| failure("absurd:page-unreadable", format!("{what}: {e:?}")))?;
            }
        }
    }
    Ok(())
}
pub fn prop26() -> Prop {
    Prop {
        id: "C26",
        rule: "random histories of write (of right and misused row groups: failing and panicking iterators, missing or wrong row counts, missing or wrong statistics, mixed codecs, missing, additional and swapped columns, missing pages) and end calls are made on both writers; the file of a reported completion must be that of the successful writes; also pages copied from another file; distinct = hash of (file, history)",
        assumptions: &["the number of rows a page of a repeated column declares is believed when its columns agree"],
        families: vec![
            Family { name: "histories", quick: 27000, thorough: 200000, f: histories },
            Family { name: "single", quick: 27000, thorough: 200000, f: single },
            Family { name: "copied", quick: 18000, thorough: 150000, f: copied },
            Family { name: "histories-scaled", quick: 60, thorough: 1500, f: histories },
            Family { name: "copied-scaled", quick: 60, thorough: 1500, f: copied },
            Family { name: "absurd", quick: 9000, thorough: 200000, f: absurd },
            Family { name: "announced", quick: 9000, thorough: 50000, f: announced },
        ],
    }
}
