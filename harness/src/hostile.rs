//! Structure-aware corruption of thrift trees, files and pages, and the operations observed on them.
use crate::gen::*;
use crate::model::thrift::{self, S, V};
use crate::model::{enc, pq};
use crate::readers::*;
use crate::rt::*;
use parquet2::error::Error;
use parquet2::indexes::{compute_rows, select_pages, Interval};
use parquet2::metadata::FileMetaData;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::FallibleStreamingIterator;
use std::io::Cursor;

// ---------------------------------------------------------------- mutation of thrift trees
fn ext_int(rng: &mut Rng, old: i64) -> i64 {
    match rng.below(14) {
        0 => 0,
        1 => -1,
        2 => 1,
        12 | 13 => rng.below(24) as i64,
        3 => i32::MAX as i64,
        4 => i32::MIN as i64,
        5 => i64::MAX,
        6 => i64::MIN,
        7 => old.wrapping_add(1),
        8 => old.wrapping_sub(1),
        9 => old.wrapping_neg(),
        10 => rng.u64() as i64 >> rng.below(63),
        _ => old ^ (1 << rng.below(40)),
    }
}
fn rand_value(rng: &mut Rng) -> V {
    match rng.below(8) {
        0 => V::Bool(rng.bool()),
        1 => V::I32(ext_int(rng, 5) as i32),
        2 => V::I64(ext_int(rng, 5)),
        3 => {
            let n = rng.size(40);
            V::Bin(rng.bytes(n))
        }
        4 => V::List(12, vec![]),
        5 => V::Struct(S::new()),
        6 => V::List(8, vec![V::Bin(vec![1, 2]), V::Bin(vec![])]),
        _ => V::I16(ext_int(rng, 5) as i16),
    }
}
fn count_v(v: &V) -> usize {
    1 + match v {
        V::List(_, l) => l.iter().map(count_v).sum(),
        V::Struct(s) => count_s(s),
        _ => 0,
    }
}
fn count_s(s: &S) -> usize {
    s.0.iter().map(|x| count_v(&x.1)).sum()
}
fn mutate_value(rng: &mut Rng, v: &mut V) {
    match v {
        V::Bool(b) => *b = !*b,
        V::I8(x) => *x = ext_int(rng, *x as i64) as i8,
        V::I16(x) => *x = ext_int(rng, *x as i64) as i16,
        V::I32(x) => *x = ext_int(rng, *x as i64) as i32,
        V::I64(x) => *x = ext_int(rng, *x),
        V::F64(x) => *x = f64::from_bits(rng.u64()),
        V::Bin(b) => match rng.below(5) {
            0 => b.clear(),
            1 => {
                let n = rng.below(b.len() + 1);
                b.truncate(n)
            }
            2 => {
                let n = rng.size(60);
                b.extend(rng.bytes(n))
            }
            3 => {
                if !b.is_empty() {
                    let i = rng.below(b.len());
                    b[i] = rng.u32() as u8
                }
            }
            _ => {
                b.pop();
            }
        },
        V::List(_, l) => match rng.below(5) {
            0 => l.clear(),
            1 => {
                l.pop();
            }
            2 => {
                if !l.is_empty() {
                    let i = rng.below(l.len());
                    let x = l[i].clone();
                    for _ in 0..rng.range(1, 3) {
                        l.push(x.clone())
                    }
                }
            }
            3 => rng.shuffle(l),
            _ => {
                if !l.is_empty() {
                    let i = rng.below(l.len());
                    l.remove(i);
                }
            }
        },
        V::Struct(s) => mutate_fields(rng, s),
    }
}
fn mutate_fields(rng: &mut Rng, s: &mut S) {
    if s.0.is_empty() {
        s.0.push((rng.range(1, 5) as i16, rand_value(rng)));
        return;
    }
    let i = rng.below(s.0.len());
    match rng.below(6) {
        0..=2 => {
            s.0.remove(i);
        }
        3 => s.0[i].1 = rand_value(rng),
        4 => {
            let id = rng.range(1, 16) as i16;
            s.0.retain(|x| x.0 != id);
            s.0.push((id, rand_value(rng)));
            s.0.sort_by_key(|x| x.0)
        }
        _ => {
            let x = s.0[i].clone();
            s.0.push(x)
        }
    }
}
fn at(v: &mut V, k: &mut usize, rng: &mut Rng) -> bool {
    if *k == 0 {
        mutate_value(rng, v);
        return true;
    }
    *k -= 1;
    match v {
        V::List(_, l) => l.iter_mut().any(|x| at(x, k, rng)),
        V::Struct(s) => s.0.iter_mut().any(|x| at(&mut x.1, k, rng)),
        _ => false,
    }
}
fn lists_of<'a>(s: &'a mut S, out: &mut Vec<*mut Vec<V>>) {
    for (_, v) in s.0.iter_mut() {
        match v {
            V::Struct(x) => lists_of(x, out),
            V::List(_, l) => {
                out.push(l as *mut _);
                for x in l {
                    if let V::Struct(x) = x {
                        lists_of(x, out)
                    }
                }
            }
            _ => {}
        }
    }
}
fn int_paths(s: &S, at: &mut Vec<i16>, out: &mut Vec<Vec<i16>>) {
    for (id, v) in &s.0 {
        at.push(*id);
        match v {
            V::I32(_) | V::I64(_) | V::I16(_) => out.push(at.clone()),
            V::Struct(x) => int_paths(x, at, out),
            _ => {}
        }
        at.pop();
    }
}
fn set_at(s: &mut S, path: &[i16], to: i64) {
    for (id, v) in s.0.iter_mut() {
        if *id == path[0] {
            match v {
                V::I16(x) => *x = to as i16,
                V::I32(x) => *x = to as i32,
                V::I64(x) => *x = to,
                V::Struct(x) if path.len() > 1 => set_at(x, &path[1..], to),
                _ => {}
            }
        }
    }
}
/// the same number in one field of all elements of a list (sums and accumulations)
pub fn same_everywhere(rng: &mut Rng, s: &mut S) {
    let mut lists = vec![];
    lists_of(s, &mut lists);
    let lists: Vec<*mut Vec<V>> = lists.into_iter().filter(|l| matches!(unsafe { &**l }.as_slice(), [V::Struct(_), _, ..])).collect();
    if lists.is_empty() {
        return;
    }
    let l = unsafe { &mut **rng.pick(&lists) };
    let mut paths = vec![];
    if let V::Struct(x) = &l[0] {
        int_paths(x, &mut vec![], &mut paths);
    }
    if paths.is_empty() {
        return;
    }
    let p = rng.pick(&paths).clone();
    let to = ext_int(rng, 1 << 20);
    for x in l {
        if let V::Struct(x) = x {
            set_at(x, &p, to)
        }
    }
}
/// mutates `n` random nodes of the tree
pub fn mutate_thrift(rng: &mut Rng, s: &mut S, n: usize) {
    for _ in 0..n {
        if rng.chance(1, 10) {
            same_everywhere(rng, s);
            continue;
        }
        if rng.chance(1, 12) {
            mutate_fields(rng, s);
            continue;
        }
        let c = count_s(s);
        if c == 0 {
            return;
        }
        let mut k = rng.below(c);
        s.0.iter_mut().any(|x| at(&mut x.1, &mut k, rng));
    }
}
pub fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 3) {
        if b.is_empty() {
            let n = rng.size(20);
            b.extend(rng.bytes(n));
            continue;
        }
        match rng.below(8) {
            0 => {
                let n = rng.below(b.len() + 1);
                b.truncate(n)
            }
            1 => {
                let i = rng.below(b.len());
                b[i] = rng.u32() as u8
            }
            2 => {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8)
            }
            3 => {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe])
            }
            4 => {
                let n = rng.size(20);
                b.extend(rng.bytes(n))
            }
            5 => {
                let i = rng.below(b.len() + 1);
                let n = rng.size(12);
                let x = if rng.bool() { rng.bytes(n) } else { vec![*rng.pick(&[0xffu8, 0x80, 0]); n] };
                b.splice(i..i, x);
            }
            6 => {
                let i = rng.below(b.len());
                let j = rng.range(i, b.len().min(i + 8));
                b.drain(i..j);
            }
            _ => {
                let i = rng.below(b.len());
                let n = rng.size(12).min(b.len() - i);
                let f = *rng.pick(&[0xffu8, 0x80, 0]);
                b[i..i + n].fill(f)
            }
        }
    }
}
pub fn with_footer(body: &[u8], footer: &S) -> Vec<u8> {
    let f = thrift::bytes(footer);
    let mut b = body.to_vec();
    b.extend(&f);
    b.extend((f.len() as u32).to_le_bytes());
    b.extend(b"PAR1");
    b
}
/// Replaces `b[pos..pos+len]` by a value of another length: the rest of the file moves. Offsets of
/// the footer that lie behind are shifted so that the corruption stays local.
pub fn splice_file(b: &[u8], pos: usize, len: usize, new: &[u8]) -> Option<Vec<u8>> {
    let (mut f, start) = pq::footer(b).ok()?;
    if pos + len > start {
        return None;
    }
    let delta = new.len() as i64 - len as i64;
    let mut body = b[..pos].to_vec();
    body.extend_from_slice(new);
    body.extend_from_slice(&b[pos + len..start]);
    let shift = |v: &mut V| match v {
        V::I64(o) if *o > pos as i64 => *o += delta,
        _ => {}
    };
    for x in f.0.iter_mut().filter(|x| x.0 == 4) {
        if let V::List(_, rgs) = &mut x.1 {
            for rg in rgs {
                if let V::Struct(rg) = rg {
                    for x in rg.0.iter_mut().filter(|x| x.0 == 1) {
                        if let V::List(_, cs) = &mut x.1 {
                            for c in cs {
                                if let V::Struct(c) = c {
                                    for (id, v) in c.0.iter_mut() {
                                        match id {
                                            2 | 4 | 6 => shift(v),
                                            3 => {
                                                if let V::Struct(m) = v {
                                                    for (id, v) in m.0.iter_mut() {
                                                        if matches!(id, 9 | 11 | 14) {
                                                            shift(v)
                                                        }
                                                    }
                                                }
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Some(with_footer(&body, &f))
}
/// positions of thrift structures inside the file: (offset, length) of page headers and indexes
pub fn structures(b: &[u8]) -> Vec<(usize, usize)> {
    let mut o = vec![];
    let Ok((f, _)) = pq::footer(b) else { return o };
    let _: Result<(), String> = (|| {
        for rg in f.list(4)? {
            for c in rg.as_struct()?.list(1)? {
                let c = c.as_struct()?;
                let m = c.st(3)?;
                let start = m.i64(9)? as usize;
                if let Ok(ps) = pq::pages(b, start, m.i64(7)? as usize) {
                    for p in ps {
                        o.push((p.offset, p.header_len))
                    }
                }
                for (a, l) in [(4i16, 5i16), (6, 7)] {
                    if c.has(a) {
                        o.push((c.i64(a)? as usize, c.i32(l)? as usize))
                    }
                }
                if m.has(14) {
                    let p = m.i64(14)? as usize;
                    if let Ok((_, n)) = thrift::parse(&b[p..]) {
                        o.push((p, n))
                    }
                }
            }
        }
        Ok(())
    })();
    o
}
/// adds a bloom filter to the first column
pub fn add_bloom(rng: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    let (mut f, start) = pq::footer(b).ok()?;
    let n = 32usize << rng.below(3);
    let h = S::new()
        .with(1, V::I32(n as i32))
        .with(2, V::Struct(S::new().with(1, V::Struct(S::new()))))
        .with(3, V::Struct(S::new().with(1, V::Struct(S::new()))))
        .with(4, V::Struct(S::new().with(1, V::Struct(S::new()))));
    let mut body = b[..start].to_vec();
    let off = body.len();
    body.extend(thrift::bytes(&h));
    body.extend(rng.bytes(n));
    let mut done = false;
    for x in f.0.iter_mut().filter(|x| x.0 == 4) {
        if let V::List(_, rgs) = &mut x.1 {
            if let Some(V::Struct(rg)) = rgs.first_mut() {
                for x in rg.0.iter_mut().filter(|x| x.0 == 1) {
                    if let V::List(_, cs) = &mut x.1 {
                        if let Some(V::Struct(c)) = cs.first_mut() {
                            for (id, v) in c.0.iter_mut() {
                                if *id == 3 {
                                    if let V::Struct(m) = v {
                                        m.0.retain(|x| x.0 != 14);
                                        m.0.push((14, V::I64(off as i64)));
                                        done = true;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    done.then(|| with_footer(&body, &f))
}

// ---------------------------------------------------------------- observation
pub struct Obs<'a, 'b> {
    pub c: &'a mut Case<'b>,
    /// largest allocation allowed for an operation; None: not measured
    pub bound: Option<usize>,
}
impl<'a, 'b> Obs<'a, 'b> {
    /// runs one operation; panics (and, when measured, excessive allocations) are failures
    pub fn op<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        self.c.eval();
        match self.bound {
            None => {
                let r = guarded(name, f);
                self.c.soft(r)
            }
            Some(bound) => {
                let (r, u) = measure(|| guarded(name, f));
                let big = u.peak.max(u.max_request);
                let k = format!("peak<=2^{}:{name}", usize::BITS - big.leading_zeros());
                self.c.count(&k);
                if big > bound {
                    self.c.soft::<()>(Err(failure(
                        format!("memory:{name}"),
                        format!("{name}: peak {} bytes, largest request {} bytes, allowed {bound}", u.peak, u.max_request),
                    )));
                }
                // panics are the subject of another property
                r.ok()
            }
        }
    }
    pub fn res<T>(&mut self, name: &'static str, f: impl FnOnce() -> Result<T, Error>) -> Option<T> {
        let r = self.op(name, f)?;
        let k = format!("{}:{name}", if r.is_ok() { "ok" } else { "err" });
        self.c.count(&k);
        r.ok()
    }
}
fn touch(p: &Page) -> usize {
    match p {
        Page::Data(d) => {
            let _ = d.statistics();
            let _ = (d.encoding(), d.definition_level_encoding(), d.repetition_level_encoding(), d.num_values(), d.selected_rows().map(|x| x.len()));
            let _ = (d.header().num_values(), d.descriptor.max_def_level);
            match d.header() {
                DataPageHeader::V1(h) => {
                    let _ = (h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding());
                }
                DataPageHeader::V2(h) => {
                    let _ = (h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding());
                }
            }
            let _ = DefLevelsDecoder::try_new(d).and_then(|x| drain_def(x, &[Interval::new(0, 3)]));
            d.buffer().len() + split_buffer(d).map(|x| x.2.len()).unwrap_or(0)
        }
        Page::Dict(d) => d.buffer.len(),
    }
}
pub const LIMIT: usize = 20_000;
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

/// everything a user can do with the metadata
pub fn observe_metadata(o: &mut Obs, md: &FileMetaData) {
    o.op("metadata-accessors", || {
        let mut h = 0usize;
        for i in 0..md.schema().columns().len() {
            h ^= format!("{:?}", md.column_order(i)).len();
        }
        for rg in &md.row_groups {
            h ^= rg.compressed_size() ^ rg.num_rows() ^ rg.total_byte_size();
            for c in rg.columns() {
                let (a, b) = c.byte_range();
                h ^= a as usize ^ b as usize;
                h ^= format!(
                    "{:?}{:?}{:?}{:?}{:?}",
                    c.compression(),
                    c.physical_type(),
                    c.column_encoding(),
                    c.num_values(),
                    c.dictionary_page_offset()
                )
                .len();
            }
        }
        h
    });
    o.op("column-statistics", || {
        for rg in &md.row_groups {
            for c in rg.columns() {
                if let Some(Ok(s)) = c.statistics() {
                    let _ = parquet2::statistics::serialize_statistics(&*s);
                    let _ = s.physical_type();
                }
            }
        }
    });
    o.op("metadata-into-thrift", || {
        let _ = md.clone().into_thrift();
    });
    o.op("field-columns", || {
        for f in md.schema().fields() {
            for rg in &md.row_groups {
                get_field_columns(rg.columns(), f.name()).count();
            }
        }
    });
}
/// every way of reading the bytes of a file; `max` is the page-size limit given to the readers
pub fn observe_file(o: &mut Obs, b: &[u8], max: usize) {
    let md = o.res("read_metadata", || read_metadata(&mut Cursor::new(b)));
    o.res("read_metadata_async", || block(read_metadata_async(&mut futures::io::Cursor::new(b))));
    o.res("read_metadata_with_size", || read_metadata_with_size(&mut Cursor::new(b), b.len() as u64));
    let Some(md) = md else { return };
    observe_metadata(o, &md);
    // brotli streams declare a window of up to 16 MiB that the decoder allocates
    let brotli = md.row_groups.iter().any(|rg| rg.columns().iter().any(|c| c.compression() == parquet2::compression::Compression::Brotli));
    if let (Some(b), true) = (o.bound.as_mut(), brotli) {
        *b += 20 << 20;
    }
    for rg in md.row_groups.iter().take(3) {
        let cols: Vec<_> = rg.columns().iter().take(8).cloned().collect();
        o.res("read_columns_indexes", || {
            read_columns_indexes(&mut Cursor::new(b), &cols).map(|v| {
                for i in &v {
                    let _ = i.physical_type();
                }
            })
        });
        let locs = o.res("read_pages_locations", || read_pages_locations(&mut Cursor::new(b), &cols));
        for (ci, col) in cols.iter().enumerate() {
            o.res("bloom_filter::read", || {
                let mut v = vec![];
                parquet2::bloom_filter::read(col, &mut Cursor::new(b), &mut v).map(|_| {
                    let h = parquet2::bloom_filter::hash_byte(b"x");
                    if !v.is_empty() {
                        let _ = parquet2::bloom_filter::is_in_set(&v, h);
                    }
                })
            });
            o.res("pages-decompressor", || {
                let it = get_page_iterator(col, Cursor::new(b), None, vec![], max)?;
                let mut d = Decompressor::new(Careful(it, max), vec![]);
                let mut n = 0;
                while let Some(p) = d.next()? {
                    n += touch(p);
                }
                Ok(n)
            });
            o.res("pages-basic", || {
                let it = get_page_iterator(col, Cursor::new(b), None, vec![], max)?;
                let mut d = BasicDecompressor::new(Careful(it, max), vec![]);
                let mut n = 0;
                while let Some(p) = d.next()? {
                    n += touch(p);
                }
                Ok(n)
            });
            o.res("pages-compressed", || {
                let it = get_page_iterator(col, Cursor::new(b), None, vec![], max)?;
                let mut n = 0;
                for p in it {
                    match p? {
                        CompressedPage::Data(d) => {
                            if let Some(Ok(s)) = d.statistics() {
                                let _ = parquet2::statistics::serialize_statistics(&*s);
                            }
                            n ^= d.compressed_size() ^ d.uncompressed_size() ^ d.num_values();
                        }
                        CompressedPage::Dict(_) => n ^= 1,
                    }
                }
                Ok(n)
            });
            o.res("pages-filtered", || {
                let f: PageFilter = std::sync::Arc::new(|_, _| false);
                let it = get_page_iterator(col, Cursor::new(b), Some(f), vec![], max)?;
                let mut n = 0;
                for p in it {
                    p?;
                    n += 1;
                }
                Ok(n)
            });
            o.res("page-stream", || {
                use futures::StreamExt;
                block(async {
                    let mut r = futures::io::Cursor::new(b);
                    let keep = ci % 2 == 0;
                    let f: PageFilter = std::sync::Arc::new(move |_, _| keep);
                    let s = get_page_stream(col, &mut r, vec![], f, max).await?;
                    futures::pin_mut!(s);
                    let mut n = 0;
                    while let Some(p) = s.next().await {
                        decompress(careful(p?, max)?, &mut vec![])?;
                        n += 1;
                    }
                    Ok(n)
                })
            });
            o.res("read_column", || read_column(&mut Cursor::new(b), col));
            if let Some(l) = locs.as_ref().and_then(|l| l.get(ci)) {
                let rows = rg.num_rows();
                let half = vec![true; l.len() / 2 + 1];
                o.res("compute_rows", || compute_rows(&half, l, rows));
                for iv in [
                    vec![Interval::new(0, rows)],
                    vec![Interval::new(rows / 3, rows / 3)],
                    vec![Interval::new(0, 1), Interval::new(rows.saturating_sub(1), 1)],
                ] {
                    let Some(sel) = o.res("select_pages", || select_pages(&iv, l, rows)) else { continue };
                    if sel.iter().any(|s| s.length > max) {
                        // the reader has no limit of its own: a user checks the lengths it asks for
                        o.c.count("indexed-length-over-limit");
                        continue;
                    }
                    o.res("pages-indexed", || {
                        let it = IndexedPageReader::new(Cursor::new(b), col, sel, vec![], vec![]);
                        let mut n = 0;
                        for p in it {
                            let p = p?;
                            if uncompressed(&p) > max {
                                continue;
                            }
                            n += touch(&decompress(p, &mut vec![])?);
                        }
                        Ok(n)
                    });
                }
            }
        }
        o.res("column-iterator", || {
            let mut n = 0;
            for f in md.schema().fields().iter().take(3) {
                let mut it = get_column_iterator(Cursor::new(b), rg, f.name(), None, vec![], max);
                loop {
                    match it.advance()? {
                        State::Some(mut x) => {
                            if let Some((pages, _)) = x.get() {
                                let mut d = BasicDecompressor::new(Careful(pages, max), vec![]);
                                while let Some(p) = d.next()? {
                                    n += touch(p)
                                }
                            }
                            it = x
                        }
                        State::Finished(_) => break,
                    }
                }
            }
            Ok(n)
        });
    }
}
fn uncompressed(p: &CompressedPage) -> usize {
    match p {
        CompressedPage::Data(d) => d.uncompressed_size(),
        // not visible otherwise
        CompressedPage::Dict(d) => format!("{d:?}")
            .rsplit("uncompressed_page_size: ")
            .next()
            .and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next())
            .and_then(|x| x.parse().ok())
            .unwrap_or(0),
    }
}
/// A caller that looks at the declared uncompressed size before it decompresses (the readers' own
/// limit does not cover it: see known-findings.txt and family `limit` of C19).
fn careful(p: CompressedPage, max: usize) -> Result<CompressedPage, Error> {
    if uncompressed(&p) > max {
        return Err(Error::WouldOverAllocate);
    }
    Ok(p)
}
struct Careful<I>(I, usize);
impl<I: Iterator<Item = Result<CompressedPage, Error>>> Iterator for Careful<I> {
    type Item = Result<CompressedPage, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|p| p.and_then(|p| careful(p, self.1)))
    }
}
impl<I: PageIterator> PageIterator for Careful<I> {
    fn swap_buffer(&mut self, b: &mut Vec<u8>) {
        self.0.swap_buffer(b)
    }
}

// ---------------------------------------------------------------- pages
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, HybridRleDecoder};
use parquet2::encoding::*;
use parquet2::types::NativeType;
use std::collections::VecDeque;

fn drain<T>(it: impl Iterator<Item = Result<T, Error>>) -> Result<usize, Error> {
    let mut n = 0;
    for x in it.take(LIMIT) {
        x?;
        n += 1;
    }
    Ok(n)
}
fn drain_def(d: DefLevelsDecoder, sel: &[Interval]) -> Result<usize, Error> {
    match d {
        DefLevelsDecoder::Bitmap(it) => {
            let f = FilteredHybridRleDecoderIter::new(it.clone(), VecDeque::from(sel.to_vec()));
            drain(f)?;
            let mut n = 0;
            for r in it.clone().take(LIMIT) {
                n += r?.len();
            }
            drain(HybridRleDecoderIter::new(it)).map(|x| x + n)
        }
        DefLevelsDecoder::Levels(it, _) => {
            drain(SliceFilteredIter::new(it.clone(), VecDeque::from(sel.to_vec())))?;
            drain(it)
        }
    }
}
fn native<T: NativeType>(page: &DataPage, dict: &[Val], sel: &[Interval]) -> Result<usize, Error> {
    Ok(match NativePageState::<T, &[Val]>::try_new(page, Some(dict))? {
        NativePageState::Required(v) => {
            SliceFilteredIter::new(v.clone(), VecDeque::from(sel.to_vec())).take(LIMIT).count() + v.take(LIMIT).count()
        }
        NativePageState::Optional(d, v) => drain_def(d, sel)? + v.take(LIMIT).count(),
        NativePageState::RequiredDictionary(d) => {
            let _ = d.len();
            drain(SliceFilteredIter::new(d.indexes.clone(), VecDeque::from(sel.to_vec())))? + drain(d.indexes)?
        }
        NativePageState::OptionalDictionary(l, d) => drain_def(l, sel)? + drain(d.indexes)?,
    })
}
pub fn observe_state(page: &DataPage, ph: Ph, dict: &[Val], sel: &[Interval]) -> Result<usize, Error> {
    match ph {
        Ph::I32 => native::<i32>(page, dict, sel),
        Ph::I64 => native::<i64>(page, dict, sel),
        Ph::I96 => native::<[u32; 3]>(page, dict, sel),
        Ph::F32 => native::<f32>(page, dict, sel),
        Ph::F64 => native::<f64>(page, dict, sel),
        Ph::Bool => Ok(match BooleanPageState::try_new(page)? {
            BooleanPageState::Required(b, n) => BitmapIter::new(b, 0, n).take(LIMIT).count(),
            BooleanPageState::Optional(d, v) => drain_def(d, sel)? + v.take(LIMIT).count(),
        }),
        Ph::Ba => Ok(match BinaryPageState::<&[Val]>::try_new(page, Some(dict))? {
            BinaryPageState::Required(v) => drain(v)?,
            BinaryPageState::Optional(d, v) => drain_def(d, sel)? + drain(v)?,
            BinaryPageState::RequiredDictionary(d) => {
                let _ = d.len();
                drain(d.indexes)?
            }
            BinaryPageState::OptionalDictionary(l, d) => drain_def(l, sel)? + drain(d.indexes)?,
        }),
        Ph::Fl(_) => Ok(match FixedLenBinaryPageState::<&[Val]>::try_new(page, Some(dict))? {
            FixedLenBinaryPageState::Required(v) => v.take(LIMIT).count(),
            FixedLenBinaryPageState::Optional(d, v) => drain_def(d, sel)? + v.take(LIMIT).count(),
            FixedLenBinaryPageState::RequiredDictionary(d) => {
                let _ = d.len();
                drain(d.indexes)?
            }
            FixedLenBinaryPageState::OptionalDictionary(l, d) => drain_def(l, sel)? + drain(d.indexes)?,
        }),
    }
}
/// every decoder of the crate on arbitrary bytes
pub fn observe_decoders(o: &mut Obs, b: &[u8], width: u32, n: usize) {
    o.op("int96", || {
        let v: Vec<[u32; 3]> = b.chunks_exact(12).map(parquet2::types::decode).collect();
        let mut h = 0;
        for x in v.windows(2) {
            h ^= parquet2::types::int96_to_i64_ns(x[0]) ^ x[0].ord(&x[1]) as i64;
        }
        h
    });
    o.res("HybridRleDecoder", || drain(HybridRleDecoder::try_new(b, width, n)?));
    o.res("HybridRleDecoder-filtered", || {
        let d = HybridRleDecoder::try_new(b, width, n)?;
        drain(SliceFilteredIter::new(d, VecDeque::from(vec![Interval::new(1, 3), Interval::new(7, 20)])))
    });
    o.res("hybrid_rle::Decoder", || drain(hybrid_rle::Decoder::new(b, width as usize)));
    o.res("HybridRleIter", || {
        let it = HybridRleIter::new(hybrid_rle::Decoder::new(b, 1), n);
        let _ = it.size_hint();
        drain(HybridRleDecoderIter::new(it))
    });
    o.res("FilteredHybridRleDecoderIter", || {
        let it = HybridRleIter::new(hybrid_rle::Decoder::new(b, 1), n);
        let it = FilteredHybridRleDecoderIter::new(it, VecDeque::from(vec![Interval::new(0, 2), Interval::new(5, 100)]));
        let _ = it.len();
        drain(it)
    });
    o.res("delta_bitpacked::Decoder", || {
        let mut d = delta_bitpacked::Decoder::try_new(b)?;
        let _ = d.size_hint();
        let n = drain(d.by_ref())?;
        let _ = d.consumed_bytes();
        Ok(n)
    });
    o.res("delta_length_byte_array::Decoder", || {
        let mut d = delta_length_byte_array::Decoder::try_new(b)?;
        let n = drain(d.by_ref())?;
        if n < LIMIT {
            return Ok(d.values().len() + d.into_values().len());
        }
        Ok(n)
    });
    o.res("delta_byte_array::Decoder", || {
        let mut d = delta_byte_array::Decoder::try_new(b)?;
        let n = drain(d.by_ref())?;
        if n < LIMIT {
            let mut l = d.into_lengths()?;
            let m = drain(l.by_ref())?;
            if m < LIMIT {
                return Ok(l.into_values().len());
            }
        }
        Ok(n)
    });
    o.res("BinaryIter", || drain(plain_byte_array::BinaryIter::new(b, Some(n)))) ;
    o.res("BinaryIter-unknown-length", || drain(plain_byte_array::BinaryIter::new(b, None)));
    o.res("uleb128", || uleb128::decode(b));
    o.res("zigzag_leb128", || zigzag_leb128::decode(b));
    o.op("get_length", || get_length(b));
    o.op("BitmapIter", || BitmapIter::new(b, (width as usize).min(b.len() * 8), n.min(LIMIT)).take(LIMIT).count());
    macro_rules! bp {
        ($t:ty, $name:expr) => {
            if width as usize <= std::mem::size_of::<$t>() * 8 {
                o.res($name, || {
                    let d = bitpacked::Decoder::<$t>::try_new(b, width as usize, n)?;
                    let _ = d.size_hint();
                    Ok(d.take(LIMIT).count())
                });
            }
        };
    }
    bp!(u8, "bitpacked::Decoder<u8>");
    bp!(u16, "bitpacked::Decoder<u16>");
    bp!(u32, "bitpacked::Decoder<u32>");
    bp!(u64, "bitpacked::Decoder<u64>");
}
/// levels, states and statistics of one page
pub fn observe_page(o: &mut Obs, page: &DataPage, leaf: &Leaf, dict: &[Val], sel: &[Interval]) {
    o.res("split_buffer", || split_buffer(page).map(|x| x.0.len() + x.1.len() + x.2.len()));
    o.op("page-accessors", || {
        let _ = page.statistics().map(|x| x.is_ok());
        let _ = (page.num_values(), page.encoding(), page.definition_level_encoding(), page.repetition_level_encoding());
    });
    o.res("DefLevelsDecoder", || drain_def(DefLevelsDecoder::try_new(page)?, sel));
    if !matches!(leaf.ph, Ph::Fl(0)) {
        let n = match leaf.ph {
            Ph::Bool => "BooleanPageState",
            Ph::Ba => "BinaryPageState",
            Ph::Fl(_) => "FixedLenBinaryPageState",
            _ => "NativePageState",
        };
        o.res(n, || observe_state(page, leaf.ph, dict, sel));
    }
    let n = page.num_values();
    let Some((r, d, v)) = o.res("split_buffer", || split_buffer(page)) else { return };
    for (b, max) in [(r, leaf.max_rep), (d, leaf.max_def)] {
        o.res("levels", || {
            let w = levels::get_bit_width(max as i16);
            drain(HybridRleDecoder::try_new(b, w, n)?)
        });
    }
    let w = v.first().copied().unwrap_or(0) as u32;
    if w <= 32 {
        o.res("dictionary-indices", || drain(HybridRleDecoder::try_new(v.get(1..).unwrap_or(&[]), w, n)?));
    }
    observe_decoders(o, v, 1 + n as u32 % 32, n);
}
#[allow(unused)]
fn unused() {
    let _ = enc::mask(1);
    let _ = MAXPAGE;
}
