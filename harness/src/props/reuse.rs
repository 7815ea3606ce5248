//! C22: scratch buffers are scratch
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::block;
use crate::props::c01::note;
use crate::props::select::pages_of;
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use futures::StreamExt;
use parquet2::compression::{self, Compression, CompressionOptions};
use parquet2::error::Error;
use parquet2::fallible_streaming_iterator::FallibleStreamingIterator;
use parquet2::indexes::{select_pages, Interval};
use parquet2::metadata::{Descriptor, FileMetaData};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::types::PrimitiveType;
use parquet2::write::*;
use std::collections::VecDeque;
use std::io::Cursor;
use std::sync::{Arc, Mutex};

/// what a page must look like once decompressed
#[derive(Debug, Clone, PartialEq)]
struct Expected {
    /// of data pages: the header, its Debug form
    header: Option<String>,
    rows: Option<Vec<Interval>>,
    buffer: Vec<u8>,
    /// of dictionaries
    dict: Option<(usize, bool)>,
}
fn seen(p: &Page) -> Expected {
    match p {
        Page::Data(p) => Expected {
            header: Some(format!("{:?} {:?}", p.header(), p.descriptor)),
            rows: p.selected_rows().map(|x| x.to_vec()),
            buffer: p.buffer().to_vec(),
            dict: None,
        },
        Page::Dict(p) => Expected {
            header: None,
            rows: None,
            buffer: p.buffer.clone(),
            dict: Some((p.num_values, p.is_sorted)),
        },
    }
}
#[derive(Clone)]
enum Kind {
    /// header, codec
    Data(DataPageHeader),
    Dict(usize, bool),
}
#[derive(Clone)]
struct Item {
    kind: Kind,
    raw: Vec<u8>,
    stored: Vec<u8>,
    size: usize,
    codec: Compression,
    rows: Option<usize>,
    select: Option<Vec<Interval>>,
    /// does not decompress
    bad: bool,
}
fn descriptor() -> Descriptor {
    Descriptor {
        primitive_type: PrimitiveType::from_physical("x".to_string(), PhysicalType::Int32),
        max_def_level: 1,
        max_rep_level: 0,
    }
}
fn dirty(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(5) {
        0 => 0,
        1 => 3,
        2 => 40,
        3 => 300,
        _ => 3000,
    };
    let k = rng.below(n + 1);
    let mut v = rng.bytes(k);
    v.reserve(rng.below(2) * rng.below(500));
    v
}
fn payload(rng: &mut Rng) -> Vec<u8> {
    let n = rng.size(900);
    match rng.below(3) {
        0 => rng.bytes(n),
        1 => vec![rng.u32() as u8; n],
        _ => (0..n).map(|i| (i / 7) as u8).collect(),
    }
}
fn header(rng: &mut Rng, raw: &[u8]) -> DataPageHeader {
    let n = rng.below(1000) as i32;
    if rng.bool() {
        DataPageHeader::V1(DataPageHeaderV1 {
            num_values: n,
            encoding: parquet2::encoding::Encoding::Plain.into(),
            definition_level_encoding: parquet2::encoding::Encoding::Rle.into(),
            repetition_level_encoding: parquet2::encoding::Encoding::Rle.into(),
            statistics: None,
        })
    } else {
        let d = rng.below(raw.len().min(30) + 1);
        let r = rng.below((raw.len() - d).min(10) + 1);
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: n,
            num_nulls: rng.below(5) as i32,
            num_rows: rng.below(50) as i32,
            encoding: parquet2::encoding::Encoding::Plain.into(),
            definition_levels_byte_length: d as i32,
            repetition_levels_byte_length: r as i32,
            is_compressed: *rng.pick(&[None, Some(true), Some(false)]),
            statistics: None,
        })
    }
}
fn item(rng: &mut Rng) -> R<Item> {
    let raw = payload(rng);
    let opts = match rng.below(4) {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        _ => all_codecs(rng),
    };
    let kind = if rng.chance(1, 4) { Kind::Dict(rng.below(100), rng.bool()) } else { Kind::Data(header(rng, &raw)) };
    let codec: Compression = opts.into();
    let mut stored = vec![];
    let (from, plain) = match &kind {
        Kind::Data(DataPageHeader::V2(h)) => (
            (h.definition_levels_byte_length + h.repetition_levels_byte_length) as usize,
            h.is_compressed == Some(false),
        ),
        _ => (0, false),
    };
    stored.extend_from_slice(&raw[..from]);
    if plain || opts == CompressionOptions::Uncompressed {
        stored.extend_from_slice(&raw[from..]);
    } else {
        compression::compress(opts, &raw[from..], &mut stored).map_err(e2f("compress"))?;
    }
    let mut size = raw.len();
    let mut bad = false;
    if opts != CompressionOptions::Uncompressed && rng.chance(1, 8) {
        bad = true;
        if rng.bool() {
            // announces another size
            size += 1 + rng.below(500);
        } else if plain || stored.is_empty() {
            size += 1;
        } else {
            stored.clear();
            size += 1;
        }
    }
    let rows = if rng.bool() { Some(rng.below(50)) } else { None };
    let select = if rng.chance(1, 3) { Some(vec![Interval::new(rng.below(9), rng.below(9)), Interval::new(30, 2)]) } else { None };
    Ok(Item { kind, raw, stored, size, codec, rows, select, bad })
}
impl Item {
    /// the page, in the given buffer
    fn page(&self, mut b: Vec<u8>) -> CompressedPage {
        b.clear();
        b.extend_from_slice(&self.stored);
        match &self.kind {
            Kind::Data(h) => {
                let mut p = CompressedDataPage::new(h.clone(), b, self.codec, self.size, descriptor(), self.rows);
                if let Some(s) = &self.select {
                    p.select_rows(s.clone());
                }
                CompressedPage::Data(p)
            }
            Kind::Dict(n, s) => CompressedPage::Dict(CompressedDictPage::new(b, self.codec, self.size, *n, *s)),
        }
    }
    fn expected(&self) -> Option<Expected> {
        if self.bad {
            return None;
        }
        Some(match &self.kind {
            Kind::Data(h) => Expected {
                header: Some(format!("{h:?} {:?}", descriptor())),
                rows: self.select.clone().or(self.rows.map(|n| vec![Interval::new(0, n)])),
                buffer: self.raw.clone(),
                dict: None,
            },
            Kind::Dict(n, s) => Expected { header: None, rows: None, buffer: self.raw.clone(), dict: Some((*n, *s)) },
        })
    }
}
/// an iterator of pages that builds each page in its scratch buffer, as the readers of the crate do
struct Pages {
    items: VecDeque<Option<Item>>,
    scratch: Vec<u8>,
    /// whether to use the scratch at all
    reuse: bool,
    swaps: Arc<Mutex<u64>>,
}
impl Iterator for Pages {
    type Item = Result<CompressedPage, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(match self.items.pop_front()? {
            Some(i) => Ok(i.page(if self.reuse { std::mem::take(&mut self.scratch) } else { vec![] })),
            None => Err(Error::OutOfSpec("planned".into())),
        })
    }
}
impl PageIterator for Pages {
    fn swap_buffer(&mut self, b: &mut Vec<u8>) {
        *self.swaps.lock().unwrap() += 1;
        std::mem::swap(&mut self.scratch, b)
    }
}
fn items(rng: &mut Rng) -> R<Vec<Option<Item>>> {
    let n = rng.below(9);
    let uniform = rng.below(3);
    let mut v = vec![];
    while v.len() < n {
        if rng.chance(1, 9) {
            v.push(None);
            continue;
        }
        let i = item(rng)?;
        if uniform == 1 && i.codec == Compression::Uncompressed || uniform == 2 && i.codec != Compression::Uncompressed && v.len() % 3 != 0 {
            continue;
        }
        v.push(Some(i));
    }
    Ok(v)
}
/// the outcome of each advance: a page, or an error
fn outcomes(v: &[Option<Item>]) -> Vec<Option<Expected>> {
    v.iter().map(|i| i.as_ref().and_then(|i| i.expected())).collect()
}
/// drives a streaming iterator at random, against the outcomes of one advance each
fn drive<T: FallibleStreamingIterator>(
    c: &mut Case,
    what: &str,
    it: &mut T,
    expected: &[Option<Expected>],
    view: impl Fn(&T::Item) -> Expected,
) -> R
where
    T::Error: std::fmt::Debug,
{
    let mut k = 0;
    let mut after_error = false;
    let stop = if c.rng.chance(1, 6) { c.rng.below(expected.len() + 1) } else { usize::MAX };
    loop {
        if k >= stop {
            c.count("left-unfinished");
            return Ok(());
        }
        // how many advances this call makes, and what it answers
        let n = if c.rng.chance(1, 4) { c.rng.below(3) } else { 0 };
        // nth(n) advances until n+1 pages, an error or the end
        let mut used = 0;
        let mut want: Result<Option<&Expected>, ()> = Ok(None);
        for j in 0..=n {
            match expected.get(k + used) {
                None => {
                    want = Ok(None);
                    break;
                }
                Some(None) => {
                    used += 1;
                    want = Err(());
                    break;
                }
                Some(Some(x)) => {
                    used += 1;
                    if j == n {
                        want = Ok(Some(x));
                    }
                }
            }
        }
        let how = c.rng.below(3);
        let got = if n > 0 {
            it.nth(n).map(|x| x.map(&view)).map_err(|e| format!("{e:?}"))
        } else if how == 0 {
            it.next().map(|x| x.map(&view)).map_err(|e| format!("{e:?}"))
        } else {
            match it.advance() {
                Ok(()) => Ok(it.get().map(&view)),
                Err(e) => Err(format!("{e:?}")),
            }
        };
        c.eval();
        let at = format!("{what}: item {k} (+{used}) of {}{}", expected.len(), if after_error { ", after an error" } else { "" });
        match (&got, &want) {
            (Ok(Some(g)), Ok(Some(x))) => {
                ensure!(
                    g == *x,
                    format!("{what}:page"),
                    "{at}: {} bytes {:?} rows {:?} instead of {} bytes {:?} rows {:?}; buffers equal: {}",
                    g.buffer.len(),
                    g.header,
                    g.rows,
                    x.buffer.len(),
                    x.header,
                    x.rows,
                    g.buffer == x.buffer
                );
                c.count("page");
                for _ in 0..c.rng.below(3) {
                    let again = it.get().map(&view);
                    ensure!(again.as_ref() == Some(*x), format!("{what}:get"), "{at}: another get() differs");
                }
                after_error = false;
            }
            (Ok(None), Ok(None)) => {
                // the end, and it stays
                for _ in 0..2 {
                    ensure!(it.get().is_none(), format!("{what}:after-end"), "{at}: a page after the end");
                    let more = it.next().map(|x| x.is_some()).unwrap_or(true);
                    ensure!(!more, format!("{what}:after-end"), "{at}: another item after the end");
                }
                c.count("end");
                return Ok(());
            }
            (Err(_), Err(())) => {
                c.count("error");
                after_error = true;
                for _ in 0..c.rng.below(3) {
                    ensure!(it.get().is_none(), format!("{what}:stale"), "{at}: a page is presented after an error: {:?}", it.get().map(&view));
                }
            }
            _ => {
                let g = match &got {
                    Ok(g) => format!("a page: {}", g.is_some()),
                    Err(e) => e.clone(),
                };
                fail!(format!("{what}:outcome"), "{at}: {g}, expected {:?}", want.map(|x| x.map(|_| "page")))
            }
        }
        k += used;
    }
}
fn decompressor(c: &mut Case) -> R {
    let rounds = c.rng.range(1, 3);
    let (mut a, mut b) = (dirty(&mut c.rng), dirty(&mut c.rng));
    let mut h = 0;
    for _ in 0..rounds {
        let v = items(&mut c.rng)?;
        let x = outcomes(&v);
        for (i, o) in v.iter().zip(&x) {
            h = mix(h ^ hash_str(&format!("{:?}", i.as_ref().map(|i| (i.codec, i.size, i.bad)))) ^ o.is_some() as u64);
        }
        c.distinct(h);
        c.sample(|| format!("{} pages, {} of them failing, scratch of {} and {} bytes", v.len(), x.iter().filter(|x| x.is_none()).count(), a.len(), b.len()));
        let swaps = Arc::new(Mutex::new(0));
        let it = Pages { items: v.into(), scratch: std::mem::take(&mut a), reuse: c.rng.bool(), swaps: swaps.clone() };
        if c.rng.chance(2, 3) {
            let mut d = Decompressor::new(it, std::mem::take(&mut b));
            drive(c, "Decompressor", &mut d, &x, seen)?;
            // both buffers go on to the next reader, whatever they hold
            (a, b) = d.into_buffers();
        } else {
            let mut d = BasicDecompressor::new(it, std::mem::take(&mut b));
            drive(c, "BasicDecompressor", &mut d, &x, seen)?;
            b = d.into_inner();
            a = dirty(&mut c.rng);
        }
        let n = *swaps.lock().unwrap();
        c.add("swaps", n);
    }
    Ok(())
}
/// one page after the other through the same buffer
fn one_by_one(c: &mut Case) -> R {
    let v = items(&mut c.rng)?;
    let mut b = dirty(&mut c.rng);
    for (k, i) in v.iter().flatten().enumerate() {
        c.distinct(hash_bytes(&i.stored) ^ i.size as u64);
        let held = b.len();
        match (decompress(i.page(dirty(&mut c.rng)), &mut b), i.expected()) {
            (Ok(p), Some(x)) => {
                let g = seen(&p);
                ensure!(g == x, "decompress:page", "page {k} ({:?}) into a buffer of {held} bytes: {} bytes instead of {}", i.codec, g.buffer.len(), x.buffer.len());
                // the page's buffer is used for the next
                if c.rng.bool() {
                    b = match p {
                        Page::Data(mut p) => std::mem::take(p.buffer_mut()),
                        Page::Dict(p) => p.buffer,
                    };
                } else if c.rng.bool() {
                    b = dirty(&mut c.rng);
                }
            }
            (Err(_), None) => c.count("error"),
            (g, x) => fail!("decompress:outcome", "page {k} ({:?}): {:?}, expected a page: {}", i.codec, g.map(|_| ()), x.is_some()),
        }
        c.eval();
    }
    Ok(())
}
fn raw_page(i: &Item) -> Page {
    match &i.kind {
        Kind::Data(h) => {
            let mut p = DataPage::new(h.clone(), i.raw.clone(), descriptor(), i.rows);
            if let Some(s) = &i.select {
                p.selected_rows = Some(s.clone());
            }
            Page::Data(p)
        }
        Kind::Dict(n, s) => Page::Dict(DictPage::new(i.raw.clone(), *n, *s)),
    }
}
fn compressed(p: &CompressedPage) -> Expected {
    Expected { header: Some(format!("{p:?}")), rows: None, buffer: vec![], dict: None }
}
fn compressor(c: &mut Case) -> R {
    let opts = all_codecs(&mut c.rng);
    let mut b = dirty(&mut c.rng);
    for round in 0..c.rng.range(1, 3) {
        let mut v = items(&mut c.rng)?;
        let mut x = vec![];
        let mut pages = vec![];
        for i in v.iter_mut() {
            let Some(i) = i else {
                x.push(None);
                pages.push(None);
                continue;
            };
            if let Kind::Data(DataPageHeader::V2(h)) = &mut i.kind {
                if opts != CompressionOptions::Uncompressed && c.rng.chance(1, 8) {
                    // its levels do not fit the page
                    h.definition_levels_byte_length = i.raw.len() as i32 + 1;
                    i.bad = true;
                } else {
                    i.bad = false;
                }
            } else {
                i.bad = false;
            }
            pages.push(Some(i.clone()));
            match compress(raw_page(i), vec![], opts) {
                Ok(p) => {
                    ensure!(!i.bad, "compress:outcome", "a page whose levels do not fit was compressed");
                    x.push(Some(compressed(&p)));
                    // any buffer gives the same page
                    let again = compress(raw_page(i), dirty(&mut c.rng), opts).map_err(e2f("compress"))?;
                    ensure!(compressed(&again) == compressed(&p), "compress:dirty", "{opts:?}: {again:?} with a used buffer, {p:?} with a fresh one");
                    // and it is the page
                    let back = decompress(p, &mut dirty(&mut c.rng)).map_err(e2f("decompress"))?;
                    let mut e = i.expected().unwrap();
                    let mut got = seen(&back);
                    // how its values are stored is up to the compressor
                    for x in [&mut e, &mut got] {
                        x.header = x.header.take().map(|h| h.replace("is_compressed: Some(true)", "is_compressed: _").replace("is_compressed: Some(false)", "is_compressed: _").replace("is_compressed: None", "is_compressed: _"));
                    }
                    ensure!(got == e, "compress:roundtrip", "{opts:?} {:?}", e.header);
                    c.evals(2);
                }
                Err(e) => {
                    ensure!(i.bad, "compress:outcome", "{opts:?}: {e:?}");
                    x.push(None);
                }
            }
        }
        c.distinct(hash_str(&format!("{opts:?}{round}{:?}", x.iter().map(|x| x.as_ref().map(|x| x.header.as_ref().unwrap().len())).collect::<Vec<_>>())));
        c.sample(|| format!("{opts:?}: {} pages, {} failing", x.len(), x.iter().filter(|x| x.is_none()).count()));
        let it = pages.into_iter().map(|i: Option<Item>| match i {
            Some(i) => Ok(raw_page(&i)),
            None => Err(Error::OutOfSpec("planned".into())),
        });
        let mut d = if c.rng.bool() { Compressor::new(it, opts, std::mem::take(&mut b)) } else { Compressor::new_from_vec(it, opts, std::mem::take(&mut b)) };
        drive(c, "Compressor", &mut d, &x, compressed)?;
        let (rest, buffer) = d.into_inner();
        drop(rest);
        ensure!(buffer.is_empty(), "Compressor:into_inner", "the recovered buffer holds {} bytes", buffer.len());
        b = buffer;
        let k = dirty(&mut c.rng);
        b.extend_from_slice(&k);
    }
    Ok(())
}

// ---------------------------------------------------------------- files
fn spec(c: &mut Case) -> R<(FileSpec, Vec<u8>, FileMetaData)> {
    let sh = Shape { max_leaves: 4, depth: 2, max_groups: 3, max_pages: 5, max_rows: 40, ..Default::default() };
    let spec = spec_of(c, &sh);
    note(c, &spec);
    c.sample(|| spec.describe());
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    Ok((spec, b, md))
}
/// the same two buffers through every column of a file, by a different reader each
fn read_file(c: &mut Case) -> R {
    let (spec, b, md) = spec(c)?;
    let (mut s, mut t) = (dirty(&mut c.rng), dirty(&mut c.rng));
    for g in 0..spec.groups.len() {
        let rg = &md.row_groups[g];
        for (k, leaf) in spec.leaves.iter().enumerate() {
            let col = &rg.columns()[k];
            let cs = &spec.groups[g][k];
            let mut ch = Chunk::default();
            // some readers are left before their end
            let stop = if c.rng.chance(1, 5) { c.rng.below(4) } else { usize::MAX };
            let mut n = 0;
            let how = c.rng.below(5);
            c.count(["decompressor", "basic", "pages", "indexed", "stream"][how]);
            match how {
                0 => {
                    let it = get_page_iterator(col, Cursor::new(&b), None, std::mem::take(&mut s), MAXPAGE).map_err(e2f("get_page_iterator"))?;
                    let mut d = Decompressor::new(it, std::mem::take(&mut t));
                    while n < stop {
                        match d.next().map_err(e2f("Decompressor"))? {
                            Some(p) => absorb(p, leaf, &mut ch, true)?,
                            None => break,
                        }
                        n += 1;
                    }
                    (s, t) = d.into_buffers();
                }
                1 => {
                    let it = get_page_iterator(col, Cursor::new(&b), None, std::mem::take(&mut s), MAXPAGE).map_err(e2f("get_page_iterator"))?;
                    let mut d = BasicDecompressor::new(it, std::mem::take(&mut t));
                    while n < stop {
                        match d.next().map_err(e2f("BasicDecompressor"))? {
                            Some(p) => absorb(p, leaf, &mut ch, true)?,
                            None => break,
                        }
                        n += 1;
                    }
                    t = d.into_inner();
                    s = dirty(&mut c.rng);
                }
                2 => {
                    let mut it = get_page_iterator(col, Cursor::new(&b), None, std::mem::take(&mut s), MAXPAGE).map_err(e2f("get_page_iterator"))?;
                    while n < stop {
                        let Some(p) = it.next() else { break };
                        let p = decompress(p.map_err(e2f("PageReader"))?, &mut t).map_err(e2f("decompress"))?;
                        absorb(&p, leaf, &mut ch, true)?;
                        // the buffer of the page goes back, with its content
                        let mut u = match p {
                            Page::Data(mut p) => std::mem::take(p.buffer_mut()),
                            Page::Dict(p) => p.buffer,
                        };
                        if c.rng.bool() {
                            it.swap_buffer(&mut u);
                        }
                        t = u;
                        n += 1;
                    }
                    (_, s) = it.into_inner();
                }
                3 => {
                    if cs.pages.is_empty() {
                        continue;
                    }
                    let rows = spec.group_rows(g);
                    let loc = read_pages_locations(&mut Cursor::new(&b), &rg.columns()[k..k + 1]).map_err(e2f("read_pages_locations"))?;
                    let all = vec![Interval::new(0, rows)];
                    let sel = select_pages(&all, &loc[0], rows).map_err(e2f("select_pages"))?;
                    let mut it = IndexedPageReader::new(Cursor::new(&b), col, sel, std::mem::take(&mut s), std::mem::take(&mut t));
                    let mut u = dirty(&mut c.rng);
                    while n < stop {
                        let Some(p) = it.next() else { break };
                        let p = decompress(p.map_err(e2f("IndexedPageReader"))?, &mut u).map_err(e2f("decompress"))?;
                        absorb(&p, leaf, &mut ch, true)?;
                        n += 1;
                    }
                    (_, s, t) = it.into_inner();
                    // pages without rows are not selected
                    let x: Vec<&PageData> = cs.pages.iter().map(|p| &p.data).filter(|d| d.rows > 0).collect();
                    ensure!(stop < usize::MAX || ch.pages.iter().collect::<Vec<_>>() == x, "indexed:pages", "row group {g} column {k}");
                    c.eval();
                    continue;
                }
                _ => {
                    let mut r = futures::io::Cursor::new(&b);
                    let scratch = std::mem::take(&mut s);
                    let v: Vec<_> = block(async {
                        let st = get_page_stream(col, &mut r, scratch, Arc::new(|_, _| true), MAXPAGE).await.map_err(e2f("get_page_stream"))?;
                        Ok::<_, Fail>(st.collect().await)
                    })?;
                    let v = v.into_iter().collect::<Result<Vec<_>, _>>().map_err(e2f("get_page_stream"))?;
                    ch = pages_of(v, leaf)?;
                    s = dirty(&mut c.rng);
                }
            }
            if stop == usize::MAX || how == 4 {
                check_chunk_data(&ch, cs)?;
            } else {
                for (p, x) in ch.pages.iter().zip(&cs.pages) {
                    ensure!(p == &x.data, "read:partial", "row group {g} column {k}");
                }
            }
            c.eval();
        }
    }
    Ok(())
}
/// a source that is cut at a random place: after the error no stale page
fn read_broken(c: &mut Case) -> R {
    let (spec, b, md) = spec(c)?;
    if spec.groups.is_empty() {
        return Ok(());
    }
    let g = c.rng.below(spec.groups.len());
    let k = c.rng.below(spec.leaves.len());
    let col = &md.row_groups[g].columns()[k];
    let cs = &spec.groups[g][k];
    let (start, len) = col.byte_range();
    if len == 0 {
        return Ok(());
    }
    let cut = start as usize + c.rng.below(len as usize);
    let data = &b[..cut];
    let it = get_page_iterator(col, Cursor::new(data), None, dirty(&mut c.rng), MAXPAGE).map_err(e2f("get_page_iterator"))?;
    let mut d = Decompressor::new(it, dirty(&mut c.rng));
    let mut ch = Chunk::default();
    let leaf = &spec.leaves[k];
    for _ in 0..50 {
        match d.advance() {
            Err(_) => {
                ensure!(d.get().is_none(), "broken:stale", "a page is presented after an error");
                c.count("cut");
                break;
            }
            Ok(()) => match d.get() {
                Some(p) => absorb(p, leaf, &mut ch, true)?,
                None => break,
            },
        }
    }
    for (i, p) in ch.pages.iter().enumerate() {
        ensure!(i < cs.pages.len() && p == &cs.pages[i].data, "broken:data", "page {i} differs");
    }
    let (s, t) = d.into_buffers();
    // the buffers of the failed reader serve the next
    let it = get_page_iterator(col, Cursor::new(&b), None, s, MAXPAGE).map_err(e2f("get_page_iterator"))?;
    let mut d = Decompressor::new(it, t);
    let mut ch = Chunk::default();
    while let Some(p) = d.next().map_err(e2f("Decompressor"))? {
        absorb(p, leaf, &mut ch, true)?;
    }
    check_chunk_data(&ch, cs)?;
    c.evals(2);
    Ok(())
}
/// columns written with one compression buffer handed from each to the next
type Inner = Compressor<Box<dyn Iterator<Item = Result<Page, Error>> + Send + Sync>>;
struct Handing {
    inner: Option<Inner>,
    slot: Arc<Mutex<Vec<u8>>>,
    junk: Vec<u8>,
}
impl FallibleStreamingIterator for Handing {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.inner.as_mut().unwrap().advance()
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.inner.as_ref().unwrap().get()
    }
}
impl Drop for Handing {
    fn drop(&mut self) {
        let (_, mut b) = self.inner.take().unwrap().into_inner();
        b.extend_from_slice(&self.junk);
        *self.slot.lock().unwrap() = b;
    }
}
fn write_file(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 5, depth: 2, max_groups: 3, max_pages: 5, max_rows: 40, ..Default::default() };
    let spec = spec_of(c, &sh);
    note(c, &spec);
    let fresh = write_sync(&spec, 0)?;
    let slot = Arc::new(Mutex::new(dirty(&mut c.rng)));
    let mut w = FileWriter::new(vec![], spec.schema(), spec.options(), spec.created_by.clone());
    for g in 0..spec.groups.len() {
        let seed = c.rng.u64();
        let cols = spec.groups[g].iter().zip(&spec.leaves).enumerate().map(|(k, (cs, leaf))| {
            let pages: Box<dyn Iterator<Item = Result<Page, Error>> + Send + Sync> = Box::new(page_list(cs, leaf).into_iter().map(Ok));
            let b = std::mem::take(&mut *slot.lock().unwrap());
            let junk = dirty(&mut Rng::new(seed ^ k as u64));
            Ok::<_, Error>(DynStreamingIterator::new(Handing { inner: Some(Compressor::new(pages, cs.codec, b)), slot: slot.clone(), junk }))
        });
        w.write(DynIter::new(cols)).map_err(e2f("write"))?;
        c.count("row-group");
    }
    w.end(spec.keyvalues()).map_err(e2f("end"))?;
    let b = w.into_inner();
    ensure!(b == fresh, "write:bytes", "the file written with a shared buffer differs ({} and {} bytes)", b.len(), fresh.len());
    c.evals(1);
    Ok(())
}
pub fn prop22() -> Prop {
    Prop {
        id: "C22",
        rule: "every page seen through a reusing iterator equals the page built from scratch (buffer, header, selected rows), after any prefix of pages, skips, errors and dirty buffers",
        assumptions: &["the iterator of pages given to Decompressor builds each page in full, as the crate's own do"],
        families: vec![
            Family { name: "decompressor", quick: 60000, thorough: 3000000, f: decompressor },
            Family { name: "decompress", quick: 40000, thorough: 1500000, f: one_by_one },
            Family { name: "compressor", quick: 25000, thorough: 1000000, f: compressor },
            Family { name: "read-file", quick: 12000, thorough: 400000, f: read_file },
            Family { name: "read-file-scaled", quick: 40, thorough: 1500, f: read_file },
            Family { name: "read-broken", quick: 10000, thorough: 300000, f: read_broken },
            Family { name: "write-file", quick: 10000, thorough: 300000, f: write_file },
            Family { name: "write-file-scaled", quick: 40, thorough: 1500, f: write_file },
        ],
    }
}
