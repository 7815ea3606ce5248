//! C11 (row selection), C12 (filters and projections), C23 (page iterators)
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::block;
use crate::model::enc;
use crate::props::c01::note;
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use futures::StreamExt;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridRleDecoder};
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::types::NativeType;
use parquet_format_safe::PageLocation;
use std::collections::VecDeque;
use std::io::Cursor;
use std::sync::{Arc, Mutex};

type Opt = Vec<Option<Val>>;
fn q(sel: &[Interval]) -> VecDeque<Interval> {
    sel.to_vec().into()
}
/// sorted, disjoint intervals within 0..n: some empty, some adjacent
pub fn rand_sel(rng: &mut Rng, n: usize) -> Vec<Interval> {
    let mut v = vec![];
    let mut p = 0;
    let style = rng.below(8);
    if style == 0 {
        return v;
    }
    if style == 1 {
        return vec![Interval::new(0, n)];
    }
    let big = if style == 2 { 2 } else { 1 + n / rng.range(1, 8) };
    while p <= n {
        if !rng.chance(1, 4) {
            p += rng.below(big + 1);
        }
        if p > n {
            break;
        }
        let l = match rng.below(8) {
            0 => 0,
            1 => n - p,
            2 => 1,
            _ => rng.below(big + 1),
        }
        .min(n - p);
        v.push(Interval::new(p, l));
        p += l;
        if rng.chance(1, 12) || (p >= n && l > 0) || v.len() > 40 {
            break;
        }
        if l == 0 {
            p += rng.below(2);
        }
    }
    v
}
pub fn rows_of(sel: &[Interval]) -> Vec<usize> {
    sel.iter().flat_map(|i| i.start..i.start + i.length).collect()
}
fn pick_rows<T: Clone>(v: &[T], sel: &[Interval]) -> Vec<T> {
    rows_of(sel).into_iter().map(|i| v[i].clone()).collect()
}
/// collects, checking that every announced length is exact and that the end is final
pub fn exact<T>(what: &str, mut it: impl Iterator<Item = T>) -> R<Vec<T>> {
    let mut o = vec![];
    let mut h = vec![];
    loop {
        h.push(it.size_hint());
        match it.next() {
            Some(x) => o.push(x),
            None => break,
        }
        ensure!(o.len() < 10_000_000, format!("endless:{what}"), "{what} does not end");
    }
    ensure!(it.next().is_none(), format!("resumes:{what}"), "{what} yields an item after its end");
    let n = o.len();
    for (i, h) in h.into_iter().enumerate() {
        ensure!(h == (n - i, Some(n - i)), format!("length:{what}"), "{what} announced {h:?} with {} items left (of {n})", n - i);
    }
    Ok(o)
}
fn exact_ok<T>(what: &'static str, it: impl Iterator<Item = Result<T, Error>>) -> R<Vec<T>> {
    exact(what, it)?.into_iter().collect::<Result<Vec<_>, _>>().map_err(e2f(what))
}

// ---------------------------------------------------------------- runs
fn expand(runs: &[HybridEncoded]) -> Vec<bool> {
    let mut o = vec![];
    for r in runs {
        match *r {
            HybridEncoded::Bitmap(b, n) => o.extend(BitmapIter::new(b, 0, n)),
            HybridEncoded::Repeated(v, n) => o.extend(std::iter::repeat(v).take(n)),
        }
    }
    o
}
/// the bits of the selected rows and, for each, how many set bits the iterator said precede it
fn run_filtered<'a>(it: HybridDecoderBitmapIter<'a>, sel: &[Interval]) -> R<Vec<(bool, usize)>> {
    let total: usize = sel.iter().map(|x| x.length).sum();
    let mut f = FilteredHybridRleDecoderIter::new(it, q(sel));
    let mut o = vec![];
    let mut set = 0;
    let mut n = 0;
    loop {
        ensure!(f.len() == total - o.len(), "length:FilteredHybridBitmapIter", "len() is {} with {} rows left", f.len(), total - o.len());
        ensure!(f.is_empty() == (f.len() == 0), "length:FilteredHybridBitmapIter", "is_empty");
        let Some(r) = f.next() else { break };
        let r = r.map_err(e2f("FilteredHybridBitmapIter"))?;
        let before = o.len();
        match r {
            FilteredHybridEncoded::Bitmap { values, offset, length } => {
                for b in BitmapIter::new(values, offset, length) {
                    o.push((b, set));
                    set += b as usize;
                }
            }
            FilteredHybridEncoded::Repeated { is_set, length } => {
                for _ in 0..length {
                    o.push((is_set, set));
                    set += is_set as usize;
                }
            }
            FilteredHybridEncoded::Skipped(k) => set += k,
        }
        ensure!(r.len() == o.len() - before && r.is_empty() == (o.len() == before), "length:FilteredHybridEncoded", "{r:?} has {} items", r.len());
        n += 1;
        ensure!(n < 1_000_000 && o.len() <= total, "endless:FilteredHybridBitmapIter", "{} rows of {total} in {n} runs", o.len());
    }
    Ok(o)
}
fn expected_filtered(bits: &[bool], sel: &[Interval]) -> Vec<(bool, usize)> {
    let mut pre = vec![0];
    for b in bits {
        pre.push(pre.last().unwrap() + *b as usize)
    }
    rows_of(sel).into_iter().map(|i| (bits[i], pre[i])).collect()
}
fn runs(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let m = *rng.pick(&[8, 40, 200, 1500]);
    let n = rng.below(m + 1);
    let dens = rng.below(5);
    let mut bits: Vec<bool> = vec![];
    while bits.len() < n {
        let k = if rng.bool() { 1 } else { rng.range(1, 40) };
        let v = match dens {
            0 => true,
            1 => false,
            2 => !rng.chance(1, 10),
            _ => rng.bool(),
        };
        bits.extend(std::iter::repeat(v).take(k.min(n - bits.len())));
    }
    // the stream may hold more than the page's entries
    let extra = if rng.chance(1, 3) { rng.below(20) } else { 0 };
    let mut all: Vec<u64> = bits.iter().map(|x| *x as u64).collect();
    for _ in 0..extra {
        all.push(rng.below(2) as u64)
    }
    let mut b = vec![];
    let mut nruns = 1;
    if rng.chance(1, 4) {
        hybrid_rle::encode_bool(&mut b, all.iter().map(|x| *x == 1)).unwrap();
    } else {
        let mut r = enc::random_runs(&all, rng);
        if rng.chance(1, 6) {
            // a run of no values in the middle
            let at = rng.below(r.len() + 1);
            let v = rng.below(2) as u64;
            let aligned = at == 0 || !matches!(&r[at - 1], enc::Run::Packed(p) if p.len() % 8 != 0);
            if aligned && at < r.len() {
                r.insert(at, enc::Run::Rle(v, 0));
                c.st.counters.entry("empty-run".into()).and_modify(|x| *x += 1).or_insert(1);
            }
        }
        nruns = r.len();
        b = enc::hybrid_encode(&r, 1);
    }
    let sel = rand_sel(rng, n);
    c.distinct(hash_bytes(&b) ^ hash_str(&format!("{n}{sel:?}")));
    c.sample(|| format!("{n} levels in {nruns} runs {b:02x?} selection {sel:?}"));
    c.add("runs", nruns as u64);
    let runs = || HybridRleIter::new(hybrid_rle::Decoder::new(&b, 1), n);
    // runs
    let mut it = runs();
    let mut seen = 0;
    let mut got = vec![];
    loop {
        ensure!(
            it.len() == n - seen && it.number_of_elements() == n - seen && it.is_empty() == (seen == n),
            "length:HybridRleIter",
            "len() is {} with {} left",
            it.len(),
            n - seen
        );
        let Some(r) = it.next() else { break };
        let r = r.map_err(e2f("HybridRleIter"))?;
        seen += r.len();
        ensure!(r.is_empty() == (r.len() == 0) && seen <= n, "length:HybridEncoded", "{r:?}");
        got.push(r);
    }
    ensure!(expand(&got) == bits, "runs:HybridRleIter", "{got:?} expected {bits:?}");
    // bits
    let v = exact_ok("HybridRleDecoderIter", HybridRleDecoderIter::new(runs()))?;
    ensure!(v == bits, "runs:HybridRleDecoderIter", "{v:?} expected {bits:?}");
    // per value
    let d = HybridRleDecoder::try_new(&b, 1, n).map_err(e2f("HybridRleDecoder"))?;
    let v = exact_ok("HybridRleDecoder", d.clone())?;
    ensure!(v.iter().map(|x| *x == 1).collect::<Vec<_>>() == bits, "runs:HybridRleDecoder", "{v:?} expected {bits:?}");
    // selected rows
    let f = run_filtered(runs(), &sel)?;
    let x = expected_filtered(&bits, &sel);
    ensure!(f == x, "runs:FilteredHybridBitmapIter", "{f:?} expected {x:?} (selection {sel:?})");
    let v = exact_ok("SliceFilteredIter", SliceFilteredIter::new(d, q(&sel)))?;
    ensure!(v.iter().map(|x| *x == 1).collect::<Vec<_>>() == pick_rows(&bits, &sel), "runs:SliceFilteredIter", "{v:?}");
    // optional values
    let k = bits.iter().filter(|x| **x).count();
    let v = exact_ok("OptionalValues", OptionalValues::new(HybridRleDecoderIter::new(runs()), 0..k))?;
    let mut i = 0;
    let x: Vec<Option<usize>> = bits
        .iter()
        .map(|b| {
            i += *b as usize;
            b.then(|| i - 1)
        })
        .collect();
    ensure!(v == x, "runs:OptionalValues", "{v:?} expected {x:?}");
    // clones continue independently
    let cut = c.rng.below(n + 1);
    let mut a = HybridRleDecoder::try_new(&b, 1, n).map_err(e2f("HybridRleDecoder"))?;
    for _ in a.by_ref().take(cut) {}
    let rest = a.clone().map(|x| x.map(|x| x == 1)).collect::<Result<Vec<_>, _>>().map_err(e2f("HybridRleDecoder"))?;
    ensure!(rest == bits[cut..], "runs:clone", "{rest:?}");
    c.evals(8);
    Ok(())
}
/// the crate's slicing adapter over iterators with their own `nth`
fn slicing(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let n = rng.size(300);
    let v: Vec<u64> = (0..n as u64).collect();
    let sel = rand_sel(rng, n);
    let x = pick_rows(&v, &sel);
    c.distinct(hash_str(&format!("{n}{sel:?}")));
    let g = exact("SliceFilteredIter", SliceFilteredIter::new(v.iter().copied(), q(&sel)))?;
    ensure!(g == x, "slicing:slice", "{g:?} expected {x:?}");
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let g: Vec<u64> = exact("SliceFilteredIter", SliceFilteredIter::new(b.chunks_exact(8).map(parquet2::types::decode::<i64> as fn(&[u8]) -> i64), q(&sel)))?
        .into_iter()
        .map(|x| x as u64)
        .collect();
    ensure!(g == x, "slicing:casted", "{g:?} expected {x:?}");
    let w = enc::width_for(n as u64).max(1);
    let p = enc::pack(&v, w);
    let d = parquet2::encoding::bitpacked::Decoder::<u64>::try_new(&p, w, n).map_err(e2f("bitpacked::Decoder"))?;
    let g = exact("SliceFilteredIter", SliceFilteredIter::new(d, q(&sel)))?;
    ensure!(g == x, "slicing:bitpacked", "{g:?} expected {x:?}");
    let bits: Vec<bool> = v.iter().map(|x| x % 3 == 0).collect();
    let p = enc::pack(&bits.iter().map(|x| *x as u64).collect::<Vec<_>>(), 1);
    let g = exact("SliceFilteredIter", SliceFilteredIter::new(BitmapIter::new(&p, 0, n), q(&sel)))?;
    ensure!(g == pick_rows(&bits, &sel), "slicing:bitmap", "{g:?}");
    let vals: Vec<Val> = v.iter().map(|x| vec![7; (*x % 5) as usize]).collect();
    let p = enc::plain_ba(&vals);
    let it = parquet2::encoding::plain_byte_array::BinaryIter::new(&p, Some(n));
    let g = exact_ok("SliceFilteredIter", SliceFilteredIter::new(it, q(&sel)))?;
    ensure!(g.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == pick_rows(&vals, &sel), "slicing:binary", "{g:?}");
    c.evals(5);
    Ok(())
}

// ---------------------------------------------------------------- selected rows of a page
fn zip_sel<T>(d: DefLevelsDecoder, mut vals: impl Iterator<Item = T>, sel: &[Interval], by_runs: bool, f: impl Fn(T) -> R<Val>) -> R<Opt> {
    let o: Vec<Option<T>> = match d {
        DefLevelsDecoder::Bitmap(it) if by_runs => {
            let r = run_filtered(it, sel)?;
            let mut at = 0;
            let mut o = vec![];
            for (set, before) in r {
                if !set {
                    o.push(None);
                    continue;
                }
                let v = vals.nth(before - at);
                ensure!(v.is_some(), "page:values-end", "the values end before value {before}");
                at = before + 1;
                o.push(v);
            }
            o
        }
        DefLevelsDecoder::Bitmap(it) => exact_ok("SliceFilteredIter", SliceFilteredIter::new(OptionalValues::new(HybridRleDecoderIter::new(it), vals), q(sel)))?,
        DefLevelsDecoder::Levels(it, max) => exact_ok(
            "SliceFilteredIter",
            SliceFilteredIter::new(OptionalValues::new(it.map(move |x| x.map(|x| x == max)), vals), q(sel)),
        )?,
    };
    o.into_iter().map(|x| x.map(&f).transpose()).collect()
}
fn req_sel<T>(vals: impl Iterator<Item = T>, sel: &[Interval], f: impl Fn(T) -> R<Val>) -> R<Opt> {
    exact("SliceFilteredIter", SliceFilteredIter::new(vals, q(sel)))?.into_iter().map(|x| f(x).map(Some)).collect()
}
fn ix(i: Result<u32, Error>, dict: &[Val]) -> R<Val> {
    let i = i.map_err(e2f("dictionary index"))? as usize;
    dict.get(i).cloned().ok_or_else(|| failure("page:dict-index", format!("index {i} of {}", dict.len())))
}
fn native_sel<T: NativeType>(page: &DataPage, dict: &[Val], sel: &[Interval], by_runs: bool) -> R<Opt> {
    let f = |x: T| -> R<Val> { Ok(x.to_le_bytes().as_ref().to_vec()) };
    match NativePageState::<T, &[Val]>::try_new(page, Some(dict)).map_err(e2f("NativePageState"))? {
        NativePageState::Required(v) => req_sel(v, sel, f),
        NativePageState::Optional(d, v) => zip_sel(d, v, sel, by_runs, f),
        NativePageState::RequiredDictionary(d) => req_sel(d.indexes, sel, |i| ix(i, d.dict)),
        NativePageState::OptionalDictionary(l, d) => zip_sel(l, d.indexes, sel, by_runs, |i| ix(i, d.dict)),
    }
}
/// the selected rows of a page of a flat column
pub fn page_sel(page: &DataPage, leaf: &Leaf, dict: &[Val], sel: &[Interval], by_runs: bool) -> R<Opt> {
    match leaf.ph {
        Ph::I32 => native_sel::<i32>(page, dict, sel, by_runs),
        Ph::I64 => native_sel::<i64>(page, dict, sel, by_runs),
        Ph::I96 => native_sel::<[u32; 3]>(page, dict, sel, by_runs),
        Ph::F32 => native_sel::<f32>(page, dict, sel, by_runs),
        Ph::F64 => native_sel::<f64>(page, dict, sel, by_runs),
        Ph::Bool => match BooleanPageState::try_new(page).map_err(e2f("BooleanPageState"))? {
            BooleanPageState::Required(b, n) => req_sel(BitmapIter::new(b, 0, n), sel, |x| Ok(vec![x as u8])),
            BooleanPageState::Optional(d, v) => zip_sel(d, v, sel, by_runs, |x| Ok(vec![x as u8])),
        },
        Ph::Ba => {
            let f = |x: Result<&[u8], Error>| x.map(|x| x.to_vec()).map_err(e2f("BinaryIter"));
            match BinaryPageState::<&[Val]>::try_new(page, Some(dict)).map_err(e2f("BinaryPageState"))? {
                BinaryPageState::Required(v) => req_sel(v, sel, f),
                BinaryPageState::Optional(d, v) => zip_sel(d, v, sel, by_runs, f),
                BinaryPageState::RequiredDictionary(d) => req_sel(d.indexes, sel, |i| ix(i, d.dict)),
                BinaryPageState::OptionalDictionary(l, d) => zip_sel(l, d.indexes, sel, by_runs, |i| ix(i, d.dict)),
            }
        }
        Ph::Fl(_) => {
            let f = |x: &[u8]| Ok(x.to_vec());
            match FixedLenBinaryPageState::<&[Val]>::try_new(page, Some(dict)).map_err(e2f("FixedLenBinaryPageState"))? {
                FixedLenBinaryPageState::Required(v) => req_sel(v, sel, f),
                FixedLenBinaryPageState::Optional(d, v) => zip_sel(d, v, sel, by_runs, f),
                FixedLenBinaryPageState::RequiredDictionary(d) => req_sel(d.indexes, sel, |i| ix(i, d.dict)),
                FixedLenBinaryPageState::OptionalDictionary(l, d) => zip_sel(l, d.indexes, sel, by_runs, |i| ix(i, d.dict)),
            }
        }
    }
}
fn one_page(rng: &mut Rng, nested: bool, large: bool) -> (Leaf, PageData, EncK, Vec<Val>, bool, DataPage, Sections) {
    let leaf = if nested {
        let f = rand_fields(rng, 3, 5, false);
        let l = leaves(&f);
        rng.pick(&l).clone()
    } else {
        let ph = rand_ph(rng);
        let rep = if rng.bool() { parquet2::schema::Repetition::Required } else { parquet2::schema::Repetition::Optional };
        leaves(&[rand_primitive(rng, "x".into(), rep, ph, false)]).pop().unwrap()
    };
    let p = rand_prof(rng);
    let m = *rng.pick(if large { &[3000, 20_000, 70_000, 140_000] } else { &[0, 5, 40, 400] });
    let rows = rng.below(m + 1);
    let d = gen_page(rng, leaf.max_rep, leaf.max_def, leaf.ph, rows, p);
    let mut e = *rng.pick(encodings_for(leaf.ph));
    if rng.bool() {
        e = EncK::Plain
    }
    let mut dict = if e.is_dict() { dictionarize(&d.vals).0 } else { vec![] };
    if e.is_dict() && rng.bool() {
        // a dictionary shared with other pages
        dict.extend(gen_vals(rng, leaf.ph, rows % 70, p));
    }
    let v2 = rng.bool();
    let via = if rng.bool() { Via::Lib } else { Via::Ref };
    let s = sections(rng, &leaf, &d, e, &dict, via);
    let buffer = page_buffer(&s, &leaf, v2);
    let template = data_page(rng, &leaf, &d, e, &dict, v2, via, None);
    let header = match template.header().clone() {
        DataPageHeader::V2(mut h) => {
            h.definition_levels_byte_length = s.def.len() as i32;
            h.repetition_levels_byte_length = s.rep.len() as i32;
            DataPageHeader::V2(h)
        }
        h => h,
    };
    let page = DataPage::new(header, buffer, leaf.descriptor(), Some(d.rows));
    (leaf, d, e, dict, v2, page, s)
}
fn states_with(c: &mut Case, nested: bool, large: bool) -> R {
    let (leaf, d, e, dict, v2, page, s) = one_page(&mut c.rng, nested, large);
    let sel = rand_sel(&mut c.rng, d.rows);
    c.distinct(mix(hash_bytes(page.buffer()) ^ hash_str(&format!("{:?}{e:?}{v2}{sel:?}", leaf.ph))));
    c.sample(|| format!("{:?} {e:?} v2={v2} rows={} levels {}/{} selection {sel:?}", leaf.ph, d.rows, leaf.max_rep, leaf.max_def));
    c.count(&format!("page:{}/{e:?}/{}", format!("{:?}", leaf.ph).split('(').next().unwrap(), if v2 { "v2" } else { "v1" }));
    // the split
    let got = split_buffer(&page).map_err(e2f("split_buffer"))?;
    ensure!(got == (&s.rep[..], &s.def[..], &s.values[..]), "split:split_buffer", "{got:?}");
    let got = if v2 {
        split_buffer_v2(page.buffer(), s.rep.len(), s.def.len())
    } else {
        split_buffer_v1(page.buffer(), leaf.max_rep > 0, leaf.max_def > 0)
    }
    .map_err(e2f("split_buffer"))?;
    ensure!(got == (&s.rep[..], &s.def[..], &s.values[..]), "split:split_buffer_v", "{got:?}");
    ensure!(
        page.num_values() == d.entries() && page.encoding() == e.to() && page.selected_rows() == Some(&[Interval::new(0, d.rows)][..]),
        "split:accessors",
        "{:?}",
        page.header()
    );
    use parquet2::encoding::Encoding;
    ensure!(page.definition_level_encoding() == Encoding::Rle && page.repetition_level_encoding() == Encoding::Rle, "split:accessors", "levels");
    for (b, max, exp) in [(&s.rep, leaf.max_rep, &d.reps), (&s.def, leaf.max_def, &d.defs)] {
        if max > 0 {
            let w = levels::get_bit_width(max as i16);
            let it = HybridRleDecoder::try_new(b, w, d.entries()).map_err(e2f("HybridRleDecoder"))?;
            let v = exact_ok("HybridRleDecoder", it)?;
            ensure!(&v == exp, "levels:values", "{v:?} expected {exp:?}");
        }
    }
    c.evals(3);
    if leaf.max_def > 0 && leaf.max_rep == 0 {
        let x: Vec<bool> = d.defs.iter().map(|x| *x == leaf.max_def).collect();
        let v = match DefLevelsDecoder::try_new(&page).map_err(e2f("DefLevelsDecoder"))? {
            DefLevelsDecoder::Bitmap(it) => exact_ok("HybridRleDecoderIter", HybridRleDecoderIter::new(it))?,
            DefLevelsDecoder::Levels(it, max) => {
                ensure!(max == leaf.max_def, "levels:max", "{max}");
                exact_ok("HybridRleDecoder", it)?.into_iter().map(|x| x == max).collect()
            }
        };
        ensure!(v == x, "levels:DefLevelsDecoder", "{v:?} expected {x:?}");
        c.eval();
    }
    if has_page_state(&leaf, e) {
        let x = expected_opt(&leaf, &d);
        let o = page_state(&page, &leaf, &dict)?;
        ensure!(o == x, "page:values", "{:?} {e:?}: {o:?} expected {x:?}", leaf.ph);
        for by_runs in [false, true] {
            let o = page_sel(&page, &leaf, &dict, &sel, by_runs)?;
            ensure!(o == pick_rows(&x, &sel), "page:selected", "{:?} {e:?} {sel:?} (by runs: {by_runs}): {o:?} of {x:?}", leaf.ph);
        }
        c.evals(3);
        c.count("page-states");
    } else if leaf.max_rep == 0 && !e.is_dict() && e != EncK::Plain {
        // encodings that the page states do not support are reported
        let r = match leaf.ph {
            Ph::I32 => NativePageState::<i32, ()>::try_new(&page, None).is_err(),
            Ph::I64 => NativePageState::<i64, ()>::try_new(&page, None).is_err(),
            Ph::Ba => BinaryPageState::<()>::try_new(&page, None).is_err(),
            Ph::Fl(_) => FixedLenBinaryPageState::<()>::try_new(&page, None).is_err(),
            Ph::Bool => BooleanPageState::try_new(&page).is_err(),
            _ => true,
        };
        ensure!(r, "page:unsupported", "{:?} {e:?} is read as something else", leaf.ph);
        c.count("unsupported-encoding-rejected");
    }
    Ok(())
}
fn states(c: &mut Case) -> R {
    states_with(c, false, false)
}
fn states_nested(c: &mut Case) -> R {
    states_with(c, true, false)
}
fn states_large(c: &mut Case) -> R {
    let nested = c.rng.bool();
    states_with(c, nested, true)
}
/// 96-bit timestamps: Julian day and nanoseconds within it
fn instants(c: &mut Case) -> R {
    use parquet2::types::{int96_to_i64_ns, NativeType};
    const DAY: i128 = 86_400_000_000_000;
    let exact = |x: &[u32; 3]| (x[2] as i128 - 2_440_588) * DAY + (((x[1] as u64) << 32) | x[0] as u64) as i64 as i128;
    let mut v: Vec<[u32; 3]> = vec![];
    for _ in 0..8 {
        let t = match c.rng.below(4) {
            0 => c.rng.u64() as i64 as i128,
            1 => (c.rng.u64() as i64 >> c.rng.below(63)) as i128,
            2 => *c.rng.pick(&[i64::MIN as i128, i64::MAX as i128, 0, -1, DAY, -DAY, DAY - 1, 1 << 32, (1 << 32) - 1]),
            _ => c.rng.u32() as i128,
        };
        let (d, n) = (t.div_euclid(DAY) + 2_440_588, t.rem_euclid(DAY) as u64);
        let x = [n as u32, (n >> 32) as u32, d as u32];
        ensure!(exact(&x) == t, "harness", "{x:?} {t}");
        let got = int96_to_i64_ns(x);
        ensure!(got as i128 == t, "int96:instant", "{x:?} is {t} ns, not {got}");
        v.push(x);
        if c.rng.chance(1, 3) {
            // years that 64 bits of nanoseconds do not reach
            let n = c.rng.u64() % DAY as u64;
            v.push([n as u32, (n >> 32) as u32, (c.rng.u32() >> 1) >> c.rng.below(31)]);
        }
    }
    for x in v.windows(2) {
        let (a, b) = (exact(&x[0]), exact(&x[1]));
        ensure!(x[0].ord(&x[1]) == a.cmp(&b), "int96:order", "{x:?}: {:?}", x[0].ord(&x[1]));
    }
    c.evals(15);
    c.distinct(hash_str(&format!("{v:?}")));
    Ok(())
}
pub fn prop23() -> Prop {
    Prop {
        id: "C23",
        rule: "random levels cut into random runs (by the crate or by another writer), random pages of every type, encoding and version, and random row selections: the section split, runs, bitmaps, per-value, optional, dictionary and filtered iterators are compared with the levels and values that were encoded, and every announced length with what follows; distinct = hash of the bytes and the selection",
        assumptions: &["row selections are sorted, disjoint and within the page"],
        families: vec![
            Family { name: "runs", quick: 150000, thorough: 4000000, f: runs },
            Family { name: "slicing", quick: 60000, thorough: 1500000, f: slicing },
            Family { name: "states", quick: 120000, thorough: 3000000, f: states },
            Family { name: "states-nested", quick: 50000, thorough: 1500000, f: states_nested },
            Family { name: "instants", quick: 20000, thorough: 100000, f: instants },
            Family { name: "states-large", quick: 400, thorough: 12000, f: states_large },
        ],
    }
}

// ---------------------------------------------------------------- C11
fn loc(first: usize, offset: usize, size: usize) -> PageLocation {
    PageLocation { offset: offset as i64, compressed_page_size: size as i32, first_row_index: first as i64 }
}
fn rand_locs(rng: &mut Rng, rows: usize, max_pages: usize) -> Vec<PageLocation> {
    let n = rng.below(max_pages + 1);
    let mut s: Vec<usize> = (0..n).map(|_| rng.below(rows + 1)).collect();
    s.sort();
    if let Some(x) = s.first_mut() {
        *x = 0
    }
    let mut off = 4 + rng.below(1000);
    s.into_iter()
        .map(|f| {
            let size = rng.range(1, 500);
            let l = loc(f, off, size);
            off += size + rng.below(3);
            l
        })
        .collect()
}
/// start and length in rows of each page
fn page_rows(l: &[PageLocation], n: usize) -> Vec<(usize, usize)> {
    (0..l.len())
        .map(|i| {
            let a = l[i].first_row_index as usize;
            (a, l.get(i + 1).map_or(n, |x| x.first_row_index as usize) - a)
        })
        .collect()
}
fn sorted_disjoint(v: &[Interval]) -> bool {
    v.windows(2).all(|w| w[0].start + w[0].length <= w[1].start)
}
/// the same rows with adjacent intervals merged and empty ones dropped
fn merged(v: &[Interval]) -> Vec<(usize, usize)> {
    let mut o: Vec<(usize, usize)> = vec![];
    for i in v.iter().filter(|i| i.length > 0) {
        match o.last_mut() {
            Some(l) if l.0 + l.1 == i.start => l.1 += i.length,
            _ => o.push((i.start, i.length)),
        }
    }
    o
}
/// counting every row `k` times selects `k` times the rows of the same pages, also when there are
/// more rows than 32 bits can count, in pages that are anywhere in the file
fn homogeneous(c: &mut Case, sel: &[Interval], l: &[PageLocation], flags: &[bool], n: usize) -> R {
    let k = *c.rng.pick(&[2usize, 1000, 65_536, 1 << 31, 1 << 32, (1 << 33) + 1, 1 << 40]);
    let shift = *c.rng.pick(&[0i64, 1 << 31, 1 << 32, 1 << 40]);
    let times = |v: &[(usize, usize)]| v.iter().map(|x| (x.0 * k, x.1 * k)).collect::<Vec<_>>();
    let kl: Vec<PageLocation> = l
        .iter()
        .map(|x| PageLocation { offset: x.offset + shift, compressed_page_size: x.compressed_page_size, first_row_index: x.first_row_index * k as i64 })
        .collect();
    let ksel: Vec<Interval> = sel.iter().map(|i| Interval::new(i.start * k, i.length * k)).collect();
    let a = guarded("select_pages", || select_pages(sel, l, n))?.map_err(e2f("select_pages"))?;
    let b = guarded("select_pages", || select_pages(&ksel, &kl, n * k))?.map_err(e2f("select_pages"))?;
    ensure!(a.len() == b.len(), "scale:pages", "{} and {}", a.len(), b.len());
    for (x, y) in a.iter().zip(&b) {
        ensure!(
            y.start == x.start + shift as u64 && y.length == x.length && y.num_rows == x.num_rows * k && merged(&y.selected_rows) == times(&merged(&x.selected_rows)),
            "scale:selected",
            "rows counted {k} times, offset + {shift}: {x:?} becomes {y:?}"
        );
    }
    let a = guarded("compute_rows", || compute_rows(flags, l, n))?.map_err(e2f("compute_rows"))?;
    let b = guarded("compute_rows", || compute_rows(flags, &kl, n * k))?.map_err(e2f("compute_rows"))?;
    ensure!(merged(&b) == times(&merged(&a)), "scale:rows", "rows counted {k} times: {a:?} becomes {b:?}");
    c.count(&format!("rows-counted:{k}"));
    c.evals(2);
    Ok(())
}
fn check_select(sel: &[Interval], l: &[PageLocation], n: usize, got: &[FilteredPage]) -> R {
    let want: std::collections::HashSet<usize> = rows_of(sel).into_iter().collect();
    ensure!(got.len() == l.len(), "select:pages", "{} pages for {} locations", got.len(), l.len());
    for (i, ((start, len), p)) in page_rows(l, n).into_iter().zip(got).enumerate() {
        ensure!(
            p.start == l[i].offset as u64 && p.length == l[i].compressed_page_size as usize && p.num_rows == len,
            "select:location",
            "page {i}: {p:?}, location {:?}, {len} rows",
            l[i]
        );
        let rows = rows_of(&p.selected_rows);
        let x: Vec<usize> = (0..len).filter(|r| want.contains(&(start + r))).collect();
        ensure!(rows == x, "select:rows", "page {i} (rows {start}+{len}) selects {:?}, expected rows {x:?} of {sel:?}", p.selected_rows);
        ensure!(p.selected_rows.is_empty() == x.is_empty(), "select:empty-interval", "page {i} without selected rows has {:?}", p.selected_rows);
        ensure!(sorted_disjoint(&p.selected_rows), "select:order", "{:?}", p.selected_rows);
    }
    Ok(())
}
fn select(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let n = rng.size(400);
    let l = rand_locs(rng, n, 12);
    let sel = rand_sel(rng, n);
    c.distinct(hash_str(&format!("{n} {l:?} {sel:?}")));
    c.sample(|| format!("{n} rows, pages at {:?}, selection {sel:?}", l.iter().map(|x| x.first_row_index).collect::<Vec<_>>()));
    let got = guarded("select_pages", || select_pages(&sel, &l, n))?.map_err(e2f("select_pages"))?;
    check_select(&sel, &l, n, &got)?;
    // pages -> rows
    let flags: Vec<bool> = l.iter().map(|_| c.rng.bool()).collect();
    let rows = guarded("compute_rows", || compute_rows(&flags, &l, n))?.map_err(e2f("compute_rows"))?;
    let x: Vec<usize> = page_rows(&l, n).into_iter().zip(&flags).filter(|x| *x.1).flat_map(|x| x.0 .0..x.0 .0 + x.0 .1).collect();
    ensure!(rows_of(&rows) == x && sorted_disjoint(&rows), "compute:rows", "{flags:?} selects {rows:?}");
    // rows -> pages: the same choice
    let back = select_pages(&rows, &l, n).map_err(e2f("select_pages"))?;
    for ((p, f), (_, len)) in back.iter().zip(&flags).zip(page_rows(&l, n)) {
        let r = rows_of(&p.selected_rows);
        ensure!(r.len() == if *f { len } else { 0 }, "compose:pages", "{flags:?} comes back as {back:?}");
    }
    // and other pages of another column
    let m = rand_locs(&mut c.rng, n, 12);
    if !m.is_empty() {
        let other = select_pages(&rows, &m, n).map_err(e2f("select_pages"))?;
        check_select(&rows, &m, n, &other)?;
        let all: Vec<usize> = other.iter().zip(page_rows(&m, n)).flat_map(|(p, (s, _))| rows_of(&p.selected_rows).into_iter().map(move |r| s + r)).collect();
        ensure!(all == x, "compose:columns", "{x:?} becomes {all:?}");
    }
    c.evals(4);
    homogeneous(c, &sel, &l, &flags, n)?;
    // rows out of order are errors
    if l.len() > 1 {
        let mut bad = l.clone();
        let last = bad.last_mut().unwrap();
        let what = match c.rng.below(3) {
            0 => {
                last.first_row_index = n as i64 + 1 + c.rng.below(5) as i64;
                "beyond"
            }
            1 => {
                bad[0].first_row_index = -1;
                "negative"
            }
            _ => {
                let i = c.rng.below(bad.len() - 1);
                bad[i].first_row_index = bad[i + 1].first_row_index + 1;
                "decreasing"
            }
        };
        let a = guarded("select_pages", || select_pages(&sel, &bad, n))?;
        let b = guarded("compute_rows", || compute_rows(&flags, &bad, n))?;
        ensure!(a.is_err() && b.is_err(), format!("select:accepts-{what}"), "{bad:?} with {n} rows: {a:?} {b:?}");
        c.count(&format!("rejected-{what}"));
    }
    Ok(())
}
fn read_selected(c: &mut Case) -> R {
    let sh = Shape {
        max_leaves: 3,
        max_groups: 2,
        max_pages: 7,
        min_pages: 1,
        min_groups: 1,
        max_rows: 80,
        flat: c.rng.chance(2, 3),
        ..Default::default()
    };
    let spec = spec_of(c, &sh);
    note(c, &spec);
    c.sample(|| spec.describe());
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    for g in 0..spec.groups.len() {
        selected_group(c, &spec, &b, &md, g)?;
    }
    Ok(())
}
/// reads a random selection of rows of a row group whose pages are located
pub fn selected_group(c: &mut Case, spec: &FileSpec, b: &[u8], md: &FileMetaData, g: usize) -> R {
    let cols = md.row_groups[g].columns();
    let n = spec.group_rows(g);
    let locs = read_pages_locations(&mut Cursor::new(b), cols).map_err(e2f("read_pages_locations"))?;
    ensure!(locs.len() == cols.len(), "locations:columns", "{}", locs.len());
    // a choice of rows, or of pages of one of the columns
    let sel = if c.rng.bool() {
        rand_sel(&mut c.rng, n)
    } else {
        let l = c.rng.pick(&locs).clone();
        let flags: Vec<bool> = l.iter().map(|_| c.rng.bool()).collect();
        compute_rows(&flags, &l, n).map_err(e2f("compute_rows"))?
    };
    let mut dirty = (c.rng.bytes(10), c.rng.bytes(500));
    for (ci, col) in cols.iter().enumerate() {
        let leaf = &spec.leaves[ci];
        let cs = &spec.groups[g][ci];
        ensure!(locs[ci].len() == cs.pages.len(), "locations:pages", "{} of {}", locs[ci].len(), cs.pages.len());
        if cs.pages.is_empty() {
            continue;
        }
        let pages = select_pages(&sel, &locs[ci], n).map_err(e2f("select_pages"))?;
        check_select(&sel, &locs[ci], n, &pages)?;
        let chosen: Vec<usize> = (0..pages.len()).filter(|i| !pages[*i].selected_rows.is_empty()).collect();
        c.add("pages-selected", chosen.len() as u64);
        c.add("pages-skipped", (pages.len() - chosen.len()) as u64);
        let mut read = vec![];
        if c.rng.chance(1, 4) {
            // every page is read, and the rows are selected in the pages
            dirty = Default::default();
            let it = get_page_iterator(col, Cursor::new(b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
            let mut i = 0;
            for p in it {
                match p.map_err(e2f("PageReader"))? {
                    CompressedPage::Data(mut d) => {
                        if i < pages.len() && !pages[i].selected_rows.is_empty() {
                            d.select_rows(pages[i].selected_rows.clone());
                            read.push(CompressedPage::Data(d));
                        }
                        i += 1;
                    }
                    p => {
                        if !chosen.is_empty() {
                            read.push(p)
                        }
                    }
                }
            }
            c.count("selected-in-pages");
        } else {
            let mut it = IndexedPageReader::new(Cursor::new(b), col, pages.clone(), dirty.0, dirty.1);
            for p in it.by_ref() {
                read.push(p.map_err(e2f("IndexedPageReader"))?);
            }
            let (_, x, y) = it.into_inner();
            dirty = (x, y);
            if c.rng.bool() {
                let n = c.rng.below(300);
                dirty.0 = c.rng.bytes(n);
            }
        }
        let mut dict: Option<Vec<Val>> = None;
        let mut k = 0;
        let mut out: Opt = vec![];
        let states = cs.pages.iter().all(|p| has_page_state(leaf, p.enc));
        for p in read {
            match &p {
                CompressedPage::Dict(_) => {
                    ensure!(dict.is_none() && k == 0, "read:dict-order", "a dictionary after {k} data pages");
                    ensure!(cs.dict.is_some(), "read:dict-invented", "the chunk has no dictionary");
                }
                CompressedPage::Data(d) => {
                    ensure!(k < chosen.len(), "read:extra-page", "more than the {} selected pages", chosen.len());
                    ensure!(d.selected_rows() == Some(&pages[chosen[k]].selected_rows[..]), "read:selected-rows", "{:?} expected {:?}", d.selected_rows(), pages[chosen[k]]);
                }
            }
            match decompress(p, &mut vec![1, 2, 3]).map_err(e2f("decompress"))? {
                Page::Dict(p) => dict = Some(lib_plain(leaf.ph, &p.buffer, p.num_values)?),
                Page::Data(p) => {
                    let ps = &cs.pages[chosen[k]];
                    k += 1;
                    let empty = vec![];
                    let dv = dict.as_ref().unwrap_or(&empty);
                    ensure!(dict.is_some() == cs.dict.is_some(), "read:dict-missing", "the dictionary was not read first");
                    let d = lib_decode(&p, leaf, dv)?;
                    ensure!(d == ps.data, "read:data", "selected page {} differs", chosen[k - 1]);
                    let s = p.selected_rows().unwrap().to_vec();
                    ensure!(s == pages[chosen[k - 1]].selected_rows, "read:selected-rows", "after decompression: {s:?}");
                    if states {
                        let by_runs = c.rng.bool();
                        out.extend(page_sel(&p, leaf, dv, &s, by_runs)?);
                        c.count("pages-filtered");
                    }
                    c.eval();
                }
            }
        }
        ensure!(k == chosen.len(), "read:missing-page", "{k} of the {} selected pages", chosen.len());
        if let Some(d) = &dict {
            ensure!(Some(d) == cs.dict.as_ref(), "read:dict", "the dictionary differs");
        }
        if states {
            let all: Opt = cs.pages.iter().flat_map(|p| expected_opt(leaf, &p.data)).collect();
            ensure!(out == pick_rows(&all, &sel), "read:rows", "{:?}: selection {sel:?} gives {} rows", leaf.ph, out.len());
            c.eval();
        }
    }
    Ok(())
}
pub fn prop11() -> Prop {
    Prop {
        id: "C11",
        rule: "random page layouts (with empty pages) and selections are compared with a row-set model, and files are read through IndexedPageReader and the filtered page iterators and compared with the selected rows of the data written; distinct = hash of the layout and selection, or of the file",
        assumptions: &["row selections are sorted and disjoint"],
        families: vec![
            Family { name: "select", quick: 300000, thorough: 4000000, f: select },
            Family { name: "read", quick: 40000, thorough: 600000, f: read_selected },
            Family { name: "read-scaled", quick: 40, thorough: 2000, f: read_selected },
        ],
    }
}

// ---------------------------------------------------------------- C12
fn filtered_spec(c: &mut Case) -> R<(FileSpec, Vec<u8>, FileMetaData)> {
    let sh = Shape {
        max_leaves: 5,
        depth: 3,
        max_groups: 3,
        max_pages: 6,
        max_rows: 40,
        min_groups: c.rng.below(2),
        ..Default::default()
    };
    let spec = spec_of(c, &sh);
    note(c, &spec);
    c.sample(|| spec.describe());
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    Ok((spec, b, md))
}
/// what a filter saw: (number of values, rows, encoding)
type Seen = Arc<Mutex<Vec<(usize, i32)>>>;
fn recording(keep: Arc<dyn Fn(usize, &DataPageHeader) -> bool + Send + Sync>, leaf: Option<Leaf>) -> (PageFilter, Seen, Arc<Mutex<Option<String>>>) {
    let seen: Seen = Default::default();
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let (s, b) = (seen.clone(), bad.clone());
    let f: PageFilter = Arc::new(move |d, h| {
        if let Some(l) = &leaf {
            if *d != l.descriptor() {
                *b.lock().unwrap() = Some(format!("{d:?}"));
            }
        }
        let mut s = s.lock().unwrap();
        let e = match h {
            DataPageHeader::V1(h) => h.encoding.0,
            DataPageHeader::V2(h) => h.encoding.0,
        };
        s.push((h.num_values(), e));
        keep(s.len() - 1, h)
    });
    (f, seen, bad)
}
/// the data pages a reader of the chunk sees: those up to the one that completes the values
fn visible(cs: &ColSpec) -> usize {
    cs.pages.iter().rposition(|p| p.data.entries() > 0).map_or(0, |i| i + 1)
}
pub fn pages_of(pages: Vec<CompressedPage>, leaf: &Leaf) -> R<Chunk> {
    let mut ch = Chunk::default();
    for p in pages {
        let p = decompress(p, &mut vec![]).map_err(e2f("decompress"))?;
        absorb(&p, leaf, &mut ch, false)?;
    }
    Ok(ch)
}
fn filter_pages(c: &mut Case) -> R {
    let (spec, b, md) = filtered_spec(c)?;
    for g in 0..spec.groups.len() {
        for (ci, col) in md.row_groups[g].columns().iter().enumerate() {
            let leaf = &spec.leaves[ci];
            let cs = &spec.groups[g][ci];
            let vis = visible(cs);
            let mask: Vec<bool> = match c.rng.below(4) {
                0 => vec![false; cs.pages.len()],
                1 => vec![true; cs.pages.len()],
                _ => (0..cs.pages.len()).map(|_| c.rng.bool()).collect(),
            };
            let m = mask.clone();
            let (f, seen, bad) = recording(Arc::new(move |i, _| m.get(i).copied().unwrap_or(true)), Some(leaf.clone()));
            let how = c.rng.below(3);
            let scratch = c.rng.bytes(20);
            let pages: Vec<CompressedPage> = match how {
                0 => get_page_iterator(col, Cursor::new(&b), Some(f), scratch, MAXPAGE)
                    .map_err(e2f("get_page_iterator"))?
                    .collect::<Result<Vec<_>, _>>()
                    .map_err(e2f("PageReader"))?,
                1 => {
                    let start = col.byte_range().0 as usize;
                    let meta = PageMetaData::new(start as u64, col.num_values(), col.compression(), col.descriptor().descriptor.clone());
                    PageReader::new_with_page_meta(&b[start..], meta, f, scratch, MAXPAGE)
                        .collect::<Result<Vec<_>, _>>()
                        .map_err(e2f("PageReader"))?
                }
                _ => {
                    let mut r = futures::io::Cursor::new(&b);
                    let v = block(async {
                        let s = get_page_stream(col, &mut r, scratch, f, MAXPAGE).await?;
                        let mut s = Box::pin(s);
                        let mut v = vec![];
                        while let Some(p) = s.next().await {
                            v.push(p?)
                        }
                        Ok(v)
                    });
                    v.map_err(e2f("get_page_stream"))?
                }
            };
            c.count(["via:get_page_iterator", "via:PageReader", "via:get_page_stream"][how]);
            if let Some(b) = bad.lock().unwrap().as_ref() {
                fail!("filter:descriptor", "the filter saw {b}")
            }
            let s = seen.lock().unwrap().clone();
            let x: Vec<(usize, i32)> = cs.pages[..vis].iter().map(|p| (p.data.entries(), p.enc.code())).collect();
            ensure!(s == x, "filter:seen", "the filter saw {s:?}, the pages are {x:?}");
            // dictionaries first and always kept (when any page was to be read)
            let kinds: Vec<bool> = pages.iter().map(|p| matches!(p, CompressedPage::Dict(_))).collect();
            let nd = kinds.iter().filter(|x| **x).count();
            ensure!(nd <= 1 && (nd == 0 || kinds[0]), "filter:dict-order", "{kinds:?}");
            ensure!(vis == 0 || (nd == 1) == cs.dict.is_some(), "filter:dict", "{nd} dictionary pages");
            for p in &pages {
                if let CompressedPage::Data(p) = p {
                    ensure!(p.selected_rows().is_none(), "filter:selected-rows", "{:?}", p.selected_rows())
                }
            }
            let ch = pages_of(pages, leaf)?;
            let x: Vec<&PageData> = (0..vis).filter(|i| mask[*i]).map(|i| &cs.pages[i].data).collect();
            ensure!(ch.pages.iter().collect::<Vec<_>>() == x, "filter:pages", "mask {mask:?}: {} pages, expected {}", ch.pages.len(), x.len());
            if let Some(d) = &ch.dict {
                ensure!(Some(d) == cs.dict.as_ref(), "filter:dict", "the dictionary differs");
            }
            c.add("pages-accepted", x.len() as u64);
            c.add("pages-rejected", (vis - x.len()) as u64);
            c.eval();
        }
    }
    Ok(())
}
/// filters that look at the header (statistics pushdown)
fn filter_header(c: &mut Case) -> R {
    let (spec, b, md) = filtered_spec(c)?;
    for g in 0..spec.groups.len() {
        for (ci, col) in md.row_groups[g].columns().iter().enumerate() {
            let leaf = &spec.leaves[ci];
            let cs = &spec.groups[g][ci];
            let k = c.rng.below(20);
            let what = c.rng.below(3);
            let keep = move |nv: usize, v2: bool, st: Option<i64>| match what {
                0 => nv > k,
                1 => v2,
                _ => st.map_or(true, |n| n as usize > k / 4),
            };
            let (f, _, _) = recording(
                Arc::new(move |_, h| {
                    let (v2, st) = match h {
                        DataPageHeader::V1(h) => (false, h.statistics.as_ref()),
                        DataPageHeader::V2(h) => (true, h.statistics.as_ref()),
                    };
                    keep(h.num_values(), v2, st.and_then(|s| s.null_count))
                }),
                None,
            );
            let pages = get_page_iterator(col, Cursor::new(&b), Some(f), vec![], MAXPAGE)
                .map_err(e2f("get_page_iterator"))?
                .collect::<Result<Vec<_>, _>>()
                .map_err(e2f("PageReader"))?;
            let ch = pages_of(pages, leaf)?;
            let x: Vec<&PageData> = cs.pages[..visible(cs)]
                .iter()
                .filter(|p| keep(p.data.entries(), p.v2, p.stats.as_ref().and_then(|s| s.null_count)))
                .map(|p| &p.data)
                .collect();
            ensure!(ch.pages.iter().collect::<Vec<_>>() == x, "filter:pages", "{} pages, expected {}", ch.pages.len(), x.len());
            c.eval();
        }
    }
    Ok(())
}
fn filter_groups(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 2, depth: 1, max_groups: 9, max_pages: 2, max_rows: 12, ..Default::default() };
    let spec = spec_of(c, &sh);
    note(c, &spec);
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    let mask: Vec<bool> = spec.groups.iter().map(|_| c.rng.bool()).collect();
    let seen = Mutex::new(vec![]);
    let out = filter_row_groups(&md, &|rg, i| {
        seen.lock().unwrap().push((i, format!("{rg:?}")));
        mask[i]
    });
    let seen = seen.into_inner().unwrap();
    let x: Vec<(usize, String)> = md.row_groups.iter().map(|g| format!("{g:?}")).enumerate().collect();
    ensure!(seen == x, "groups:seen", "the predicate saw {} groups of {}", seen.len(), x.len());
    let got: Vec<String> = out.row_groups.iter().map(|g| format!("{g:?}")).collect();
    let x: Vec<String> = x.into_iter().filter(|g| mask[g.0]).map(|g| g.1).collect();
    ensure!(got == x, "groups:kept", "mask {mask:?}: {} groups kept", got.len());
    ensure!(
        format!("{:?}", out.schema()) == format!("{:?}", md.schema()) && out.key_value_metadata == md.key_value_metadata && out.created_by == md.created_by && out.version == md.version,
        "groups:rest",
        "the rest of the metadata changed"
    );
    // the kept groups read as before
    let kept: Vec<usize> = (0..mask.len()).filter(|i| mask[*i]).collect();
    for (k, g) in kept.iter().enumerate() {
        ensure!(out.row_groups[k].num_rows() == spec.group_rows(*g), "groups:rows", "{}", out.row_groups[k].num_rows());
        for ci in 0..spec.leaves.len() {
            let ch = read_chunk(&b, &out, k, ci, &spec.leaves[ci], Mode::Decompressor)?;
            check_chunk_data(&ch, &spec.groups[*g][ci])?;
            c.eval();
        }
    }
    Ok(())
}
fn raw(b: &[u8], col: &ColumnChunkMetaData) -> Vec<u8> {
    let (s, l) = col.byte_range();
    b[s as usize..(s + l) as usize].to_vec()
}
fn project(c: &mut Case) -> R {
    let (spec, b, md) = filtered_spec(c)?;
    for g in 0..spec.groups.len() {
        let rg = &md.row_groups[g];
        let names: Vec<String> = spec.fields.iter().map(|f| f.name().to_string()).collect();
        let mut order: Vec<usize> = (0..names.len()).collect();
        c.rng.shuffle(&mut order);
        // names that are not (or not only) those of a field: paths, leaves, prefixes
        let i = c.rng.below(spec.leaves.len());
        let path = spec.leaves[i].path.clone();
        let first = path[0].clone();
        let other = match c.rng.below(6) {
            0 => "no such field".to_string(),
            1 => path.join("."),
            2 => path.last().unwrap().clone(),
            3 => first.chars().take(c.rng.below(first.len() + 1)).collect(),
            4 => format!("{first}{}", *c.rng.pick(&[".", "x", " ", "\0"])),
            _ => first.to_uppercase(),
        };
        let mut asked: Vec<&String> = order.iter().map(|i| &names[*i]).collect();
        asked.push(&other);
        for name in asked {
            let x: Vec<usize> = (0..spec.leaves.len()).filter(|i| &spec.leaves[*i].path[0] == name).collect();
            // by name
            let cols: Vec<&ColumnChunkMetaData> = get_field_columns(rg.columns(), name).collect();
            ensure!(cols.len() == x.len(), "project:columns", "{name:?}: {} columns, expected {x:?}", cols.len());
            for (a, i) in cols.iter().zip(&x) {
                ensure!(std::ptr::eq(*a, &rg.columns()[*i]), "project:columns", "{name:?}: {:?}", a.descriptor().path_in_schema);
            }
            // bytes
            let v = read_columns(&mut Cursor::new(&b), rg.columns(), name).map_err(e2f("read_columns"))?;
            let e: Vec<(&ColumnChunkMetaData, Vec<u8>)> = x.iter().map(|i| (&rg.columns()[*i], raw(&b, &rg.columns()[*i]))).collect();
            ensure!(v.len() == e.len() && v.iter().zip(&e).all(|(a, b)| std::ptr::eq(a.0, b.0) && a.1 == b.1), "project:read_columns", "{name:?}");
            let v = {
                let bb = b.clone();
                let factory = move || {
                    let r = futures::io::Cursor::new(bb.clone());
                    Box::pin(async move { Ok(r) }) as futures::future::BoxFuture<'static, std::io::Result<_>>
                };
                block(read_columns_async(factory, rg.columns(), name)).map_err(e2f("read_columns_async"))?
            };
            ensure!(v.len() == e.len() && v.iter().zip(&e).all(|(a, b)| std::ptr::eq(a.0, b.0) && a.1 == b.1), "project:read_columns_async", "{name:?}");
            for ((col, bytes), i) in v.iter().zip(&x) {
                let r = PageReader::new(&bytes[..], col, Arc::new(|_, _| true), vec![], MAXPAGE);
                let ch = pages_of(r.collect::<Result<Vec<_>, _>>().map_err(e2f("PageReader"))?, &spec.leaves[*i])?;
                check_chunk_data(&ch, &spec.groups[g][*i])?;
            }
            // column iterator, consuming each column entirely, partially or not at all
            let keep_odd = c.rng.bool();
            let (f, _, _) = recording(Arc::new(move |_, h| !keep_odd || h.num_values() % 2 == 1), None);
            let filter = if keep_odd { Some(f) } else { None };
            let scratch = c.rng.bytes(40);
            let mut it = get_column_iterator(Cursor::new(&b), rg, name, filter, scratch, MAXPAGE);
            ensure!(it.get().is_none(), "project:get-before-advance", "a column before the first advance");
            let mut k = 0;
            loop {
                match it.advance().map_err(e2f("ColumnIterator"))? {
                    State::Finished(_) => break,
                    State::Some(mut s) => {
                        ensure!(k < x.len(), "project:iterator-extra", "{name:?}: more than {} columns", x.len());
                        let how = c.rng.below(4);
                        let Some((pages, meta)) = s.get() else { fail!("project:iterator-get", "no column") };
                        ensure!(meta.descriptor().path_in_schema == spec.leaves[x[k]].path, "project:iterator-order", "{:?}", meta.descriptor().path_in_schema);
                        if how > 0 {
                            let take = if how == 1 { 1 } else { usize::MAX };
                            let v = pages.by_ref().take(take).collect::<Result<Vec<_>, _>>().map_err(e2f("PageReader"))?;
                            if take > 1 {
                                let ch = pages_of(v, &spec.leaves[x[k]])?;
                                let cs = &spec.groups[g][x[k]];
                                let e: Vec<&PageData> = cs.pages[..visible(cs)].iter().map(|p| &p.data).filter(|d| !keep_odd || d.entries() % 2 == 1).collect();
                                ensure!(ch.pages.iter().collect::<Vec<_>>() == e, "project:iterator-pages", "{name:?} column {k}");
                            }
                        }
                        c.count(["column-untouched", "column-partly-read", "column-read", "column-read"][how]);
                        k += 1;
                        it = s;
                    }
                }
            }
            ensure!(k == x.len(), "project:iterator-missing", "{name:?}: {k} of {} columns", x.len());
            // pre-read columns: each with its own metadata and pages
            if !x.is_empty() {
                let field = spec.fields.iter().find(|f| f.name() == name).unwrap().clone();
                let mut chunks = vec![];
                for i in &x {
                    let col = &rg.columns()[*i];
                    let v: Vec<_> = get_page_iterator(col, Cursor::new(&b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?.collect();
                    chunks.push((v, col.clone()));
                }
                let mut it = ReadColumnIterator::new(field, chunks);
                let mut got = vec![];
                loop {
                    match it.advance().map_err(e2f("ReadColumnIterator"))? {
                        State::Finished(_) => break,
                        State::Some(mut s) => {
                            let Some((pages, meta)) = s.get() else { fail!("project:read-iterator-get", "no column") };
                            let Some(i) = x.iter().find(|i| spec.leaves[**i].path == meta.descriptor().path_in_schema) else {
                                fail!("project:read-iterator", "{:?}", meta.descriptor().path_in_schema)
                            };
                            let v = pages.collect::<Result<Vec<_>, _>>().map_err(e2f("ReadColumnIterator"))?;
                            check_chunk_data(&pages_of(v, &spec.leaves[*i])?, &spec.groups[g][*i])?;
                            got.push(*i);
                            it = s;
                        }
                    }
                }
                got.sort();
                ensure!(got == x, "project:read-iterator", "columns {got:?} expected {x:?}");
            }
            c.evals(5);
        }
    }
    Ok(())
}
pub fn prop12() -> Prop {
    Prop {
        id: "C12",
        rule: "random files are read through recording page filters (sync, from a column's start, async), row-group predicates and every projection API; what the filters saw and what was returned is compared with the file's specification; distinct = hash of the file",
        assumptions: &["names of the top-level fields are unique", "the order in which ReadColumnIterator returns the columns is not fixed"],
        families: vec![
            Family { name: "filter-pages", quick: 15000, thorough: 400000, f: filter_pages },
            Family { name: "filter-pages-scaled", quick: 40, thorough: 2000, f: filter_pages },
            Family { name: "filter-header", quick: 6000, thorough: 150000, f: filter_header },
            Family { name: "filter-groups", quick: 6000, thorough: 150000, f: filter_groups },
            Family { name: "project", quick: 8000, thorough: 200000, f: project },
            Family { name: "project-scaled", quick: 16, thorough: 500, f: project },
        ],
    }
}
