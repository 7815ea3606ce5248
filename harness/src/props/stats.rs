//! C09 (statistics) and C10 (page indexes)
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::with_footer;
use crate::model::thrift::{self, S, V};
use crate::model::pq;
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::indexes::*;
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData, SortOrder};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::*;
use std::cmp::Ordering;
use std::io::Cursor;
use std::sync::Arc;

/// what the library's structure says: (null count, distinct count, min, max)
type Flat = (Option<i64>, Option<i64>, Option<Val>, Option<Val>);
pub fn flat(s: &dyn Statistics) -> Flat {
    fn n<T: parquet2::types::NativeType>(s: &dyn Statistics) -> Flat {
        let s = s.as_any().downcast_ref::<PrimitiveStatistics<T>>().unwrap();
        let f = |x: &T| x.to_le_bytes().as_ref().to_vec();
        (s.null_count, s.distinct_count, s.min_value.as_ref().map(f), s.max_value.as_ref().map(f))
    }
    match s.physical_type() {
        PhysicalType::Boolean => {
            let s = s.as_any().downcast_ref::<BooleanStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.map(|x| vec![x as u8]), s.max_value.map(|x| vec![x as u8]))
        }
        PhysicalType::Int32 => n::<i32>(s),
        PhysicalType::Int64 => n::<i64>(s),
        PhysicalType::Int96 => n::<[u32; 3]>(s),
        PhysicalType::Float => n::<f32>(s),
        PhysicalType::Double => n::<f64>(s),
        PhysicalType::ByteArray => {
            let s = s.as_any().downcast_ref::<BinaryStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
        PhysicalType::FixedLenByteArray(_) => {
            let s = s.as_any().downcast_ref::<FixedLenStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
    }
}
pub fn flat_raw(s: &ParquetStatistics) -> Flat {
    (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
}
fn rand_count(rng: &mut Rng) -> Option<i64> {
    match rng.below(5) {
        0 => None,
        1 => Some(0),
        2 => Some(i64::MAX - rng.below(3) as i64),
        _ => Some(rng.below(1000) as i64),
    }
}
fn rand_stats(rng: &mut Rng, ph: Ph) -> ParquetStatistics {
    let p = rand_prof(rng);
    let v = |rng: &mut Rng| if rng.chance(1, 4) { None } else { gen_vals(rng, ph, 1, p).pop() };
    ParquetStatistics {
        max: if rng.chance(1, 4) { Some(rng.bytes(4)) } else { None },
        min: if rng.chance(1, 4) { Some(rng.bytes(4)) } else { None },
        null_count: rand_count(rng),
        distinct_count: rand_count(rng),
        max_value: v(rng),
        min_value: v(rng),
    }
}
fn leaf_of(rng: &mut Rng) -> (Vec<ParquetType>, Leaf) {
    let ph = rand_ph(rng);
    let rep = *rng.pick(&[Repetition::Required, Repetition::Optional, Repetition::Repeated]);
    let t = rand_primitive(rng, "x".into(), rep, ph, true);
    let f = vec![t];
    let l = leaves(&f).pop().unwrap();
    (f, l)
}
fn is_nan(ph: Ph, v: &Val) -> bool {
    match ph {
        Ph::F32 => f32::from_le_bytes(v[..].try_into().unwrap()).is_nan(),
        Ph::F64 => f64::from_le_bytes(v[..].try_into().unwrap()).is_nan(),
        _ => false,
    }
}
fn same_val(ph: Ph, a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => match ph {
            Ph::F32 | Ph::F64 => cmp_vals(ph, Order::Float, x, y) == Some(Ordering::Equal),
            _ => x == y,
        },
        (None, None) => true,
        _ => false,
    }
}
fn serde(c: &mut Case) -> R {
    let (_, leaf) = leaf_of(&mut c.rng);
    let a = rand_stats(&mut c.rng, leaf.ph);
    c.sample(|| format!("{:?} {a:?}", leaf.prim));
    let fa = flat_raw(&a);
    c.distinct(hash_str(&format!("{:?}{fa:?}", leaf.ph)));
    c.count(&format!("type:{}", format!("{:?}", leaf.ph).split('(').next().unwrap()));
    let d = guarded("deserialize_statistics", || deserialize_statistics(&a, leaf.prim.clone()))?.map_err(e2f("deserialize_statistics"))?;
    ensure!(d.physical_type() == &leaf.prim.physical_type, "serde:type", "{:?}", d.physical_type());
    ensure!(flat(d.as_ref()) == fa, "serde:read", "{:?} read as {:?}", fa, flat(d.as_ref()));
    ensure!(d.null_count() == fa.0, "serde:null-count", "{:?}", d.null_count());
    let s = guarded("serialize_statistics", || serialize_statistics(d.as_ref()))?;
    ensure!(flat_raw(&s) == fa, "serde:write", "{fa:?} written as {s:?}");
    c.evals(3);
    // equality is that of the fields
    let mut b = a.clone();
    match c.rng.below(6) {
        0 => b = rand_stats(&mut c.rng, leaf.ph),
        1 => b.null_count = rand_count(&mut c.rng),
        2 => b.distinct_count = rand_count(&mut c.rng),
        3 => b.min_value = rand_stats(&mut c.rng, leaf.ph).min_value,
        4 => b.max_value = rand_stats(&mut c.rng, leaf.ph).max_value,
        _ => {}
    }
    let fb = flat_raw(&b);
    let d2 = deserialize_statistics(&b, leaf.prim.clone()).map_err(e2f("deserialize_statistics"))?;
    let eq = fa.0 == fb.0 && fa.1 == fb.1 && same_val(leaf.ph, &fa.2, &fb.2) && same_val(leaf.ph, &fa.3, &fb.3);
    let (x, y): (&dyn Statistics, &dyn Statistics) = (d.as_ref(), d2.as_ref());
    ensure!((x == y) == eq && (y == x) == eq, "serde:equality", "{fa:?} == {fb:?} is {}", x == y);
    c.count(if eq { "equal" } else { "different" });
    // bounds of the wrong size are errors for types of fixed size
    if let Some(w) = leaf.ph.width() {
        let mut b = a.clone();
        let n = *c.rng.pick(&[0, 1, w.saturating_sub(1), w + 1, w * 2, 3]);
        if n != w {
            let v = Some(c.rng.bytes(n));
            if c.rng.bool() {
                b.min_value = v
            } else {
                b.max_value = v
            }
            let r = guarded("deserialize_statistics", || deserialize_statistics(&b, leaf.prim.clone()))?;
            ensure!(r.is_err(), "serde:size", "a bound of {n} bytes is accepted for {:?}", leaf.ph);
            c.count("wrong-size-rejected");
        }
    }
    Ok(())
}
/// the same fields of statistics of two different types are different statistics
fn eq_types(c: &mut Case) -> R {
    let mk = |rng: &mut Rng| {
        let ph = rand_ph(rng);
        let t = rand_primitive(rng, "x".into(), Repetition::Required, ph, false);
        let l = leaves(&[t]).pop().unwrap();
        let s = ParquetStatistics { max: None, min: None, null_count: Some(1), distinct_count: None, max_value: None, min_value: None };
        (l.prim.clone(), deserialize_statistics(&s, l.prim).unwrap())
    };
    let (p, a) = mk(&mut c.rng);
    let (q, b) = mk(&mut c.rng);
    let (x, y): (&dyn Statistics, &dyn Statistics) = (a.as_ref(), b.as_ref());
    let r = guarded("Statistics-eq", || x == y)?;
    // statistics of booleans do not carry their type
    let exp = p == q || (p.physical_type == q.physical_type && p.physical_type == PhysicalType::Boolean);
    ensure!(r == exp, "serde:equality-types", "{p:?} == {q:?} is {r}");
    c.distinct(hash_str(&format!("{p:?}{q:?}")));
    Ok(())
}

// ---------------------------------------------------------------- chunk statistics
/// statistics of one page as a caller may give them: sound, but possibly loose or partial
fn caller_stats(rng: &mut Rng, leaf: &Leaf, d: &PageData, partial: bool) -> Option<ParquetStatistics> {
    let o = order_of(&leaf.prim);
    let mut s = page_stats(leaf, d);
    if rng.chance(1, 4) && o != Order::Undefined {
        // loose bounds
        let p = rand_prof(rng);
        let mut v = d.vals.clone();
        v.extend(gen_vals(rng, leaf.ph, 2, p).into_iter().filter(|x| !is_nan(leaf.ph, x)));
        if let Some((a, b)) = min_max(leaf, &v) {
            if !d.vals.is_empty() {
                s.min_value = Some(a);
                s.max_value = Some(b);
            }
        }
    }
    if o == Order::Undefined && !d.vals.is_empty() && rng.bool() {
        s.min_value = Some(rng.pick(&d.vals).clone());
        s.max_value = Some(rng.pick(&d.vals).clone());
    }
    if rng.chance(1, 3) {
        s.distinct_count = Some(d.vals.iter().collect::<std::collections::HashSet<_>>().len() as i64)
    }
    if partial {
        match rng.below(12) {
            0 => return None,
            1 => s.min_value = None,
            2 => s.max_value = None,
            3 => s.null_count = None,
            4 => {
                s.min_value = None;
                s.max_value = None
            }
            _ => {}
        }
    }
    Some(s)
}
fn reduce_file(c: &mut Case, partial: bool, order: bool) -> R {
    let rng = &mut c.rng;
    let (fields, leaf) = if order {
        // types whose order is not the one of their bytes
        let t = loop {
            let ph = rand_ph(rng);
            let t = rand_primitive(rng, "x".into(), Repetition::Optional, ph, true);
            if let ParquetType::PrimitiveType(p) = &t {
                if matches!(order_of(p), Order::Unsigned | Order::SignedBytes | Order::Bytes | Order::Float) && ph != Ph::Bool {
                    break t;
                }
            }
        };
        let f = vec![t];
        let l = leaves(&f).pop().unwrap();
        (f, l)
    } else {
        leaf_of(rng)
    };
    let m = if rng.chance(1, 20) { 40 } else { 5 };
    let np = rng.range(0, m);
    let via = Via::Ref;
    let prof = rand_prof(rng);
    let mut pages = vec![];
    let v2 = rng.bool();
    let same = rng.bool();
    // values that only differ after a long shared prefix
    let prefix: Vec<u8> = if rng.chance(1, 4) { let n = rng.size(300); rng.bytes(n) } else { vec![] };
    for _ in 0..np {
        let p = if same { prof } else { rand_prof(rng) };
        let rows = rng.size(30);
        let mut data = gen_page(rng, leaf.max_rep, leaf.max_def, leaf.ph, rows, p);
        if !prefix.is_empty() {
            for v in data.vals.iter_mut() {
                match leaf.ph {
                    Ph::Ba => {
                        v.splice(0..0, prefix.iter().copied());
                    }
                    Ph::Fl(w) if w > 1 => {
                        let n = prefix.len().min(w - 1);
                        v[..n].copy_from_slice(&prefix[..n]);
                    }
                    _ => {}
                }
            }
        }
        if rng.chance(1, 6) && leaf.max_def > 0 && leaf.max_rep == 0 {
            // only nulls
            data.defs.iter_mut().for_each(|d| *d = 0);
            data.vals.clear();
        }
        let stats = caller_stats(rng, &leaf, &data, partial);
        let built = data_page(rng, &leaf, &data, EncK::Plain, &[], v2, via, stats.clone());
        pages.push(PageSpec { data, enc: EncK::Plain, v2, stats, built });
    }
    let full = pages.iter().all(|p| p.stats.as_ref().map_or(false, |s| s.null_count.is_some() && (s.min_value.is_none() || s.max_value.is_some())));
    let write_stats = full && rng.bool();
    let cs = ColSpec { codec: parquet2::compression::CompressionOptions::Uncompressed, dict: None, pages };
    let spec = FileSpec {
        name: "s".into(),
        fields,
        leaves: vec![leaf.clone()],
        groups: vec![vec![cs]],
        write_stats,
        v2,
        created_by: None,
        kv: None,
    };
    c.sample(|| format!("{:?} {}", leaf.prim, spec.describe()));
    c.distinct(mix(spec.hash() ^ hash_str(&format!("{:?}", spec.groups[0][0].pages.iter().map(|p| p.stats.as_ref().map(flat_raw)).collect::<Vec<_>>()))));
    c.count(&format!("order:{:?}", order_of(&leaf.prim)));
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    let col = &md.row_groups[0].columns()[0];
    // pages
    let it = get_page_iterator(col, Cursor::new(&b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
    let cs = &spec.groups[0][0];
    for (i, p) in it.enumerate() {
        let p = p.map_err(e2f("PageReader"))?;
        let CompressedPage::Data(p) = p else { fail!("pages:kind", "page {i}") };
        let s = p.statistics().transpose().map_err(e2f("statistics"))?;
        let x = cs.pages[i].stats.as_ref();
        let got = s.as_ref().map(|s| flat(s.as_ref()));
        ensure!(got == x.map(flat_raw), "pages:statistics", "page {i}: {got:?} expected {x:?}");
        let p = decompress(CompressedPage::Data(p), &mut vec![]).map_err(e2f("decompress"))?;
        let Page::Data(p) = p else { fail!("pages:kind", "page {i}") };
        let s = p.statistics().transpose().map_err(e2f("statistics"))?;
        let got = s.as_ref().map(|s| flat(s.as_ref()));
        ensure!(got == x.map(flat_raw), "pages:statistics", "decompressed page {i}: {got:?} expected {x:?}");
        c.evals(2);
    }
    // the chunk
    let s = col.statistics().transpose().map_err(e2f("statistics"))?;
    check_chunk_stats(&leaf, cs, s, c)
}
pub fn check_chunk_stats(leaf: &Leaf, cs: &ColSpec, s: Option<Arc<dyn Statistics>>, c: &mut Case) -> R {
    let o = order_of(&leaf.prim);
    let ph = leaf.ph;
    let all = cs.pages.iter().all(|p| p.stats.is_some());
    let Some(s) = s else {
        ensure!(!all || cs.pages.is_empty(), "chunk:missing", "every page has statistics but the chunk has none");
        c.count("chunk:none");
        return Ok(());
    };
    c.count("chunk:some");
    let (nulls, distinct, min, max) = flat(s.as_ref());
    ensure!(all, "chunk:ignores-page", "the chunk has statistics {:?} but some page has none", flat(s.as_ref()));
    let st: Vec<(&PageData, &ParquetStatistics)> = cs.pages.iter().map(|p| (&p.data, p.stats.as_ref().unwrap())).collect();
    // null count
    let known = st.iter().all(|x| x.1.null_count.is_some());
    let sum: i64 = st.iter().map(|x| x.1.null_count.unwrap_or(0)).sum();
    match nulls {
        Some(n) => ensure!(known && n == sum, "chunk:null-count", "{n}, the pages' are {:?}", st.iter().map(|x| x.1.null_count).collect::<Vec<_>>()),
        None => ensure!(!known, "chunk:null-count-missing", "null counts of all pages are known: {sum}"),
    }
    // distinct counts cannot be added
    if st.len() > 1 {
        ensure!(distinct.is_none(), "chunk:distinct-count", "{distinct:?} over {} pages", st.len());
    } else {
        ensure!(distinct == st[0].1.distinct_count, "chunk:distinct-count", "{distinct:?}");
    }
    for (name, bound, is_max) in [("min", &min, false), ("max", &max, true)] {
        let of = |s: &ParquetStatistics| if is_max { s.max_value.clone() } else { s.min_value.clone() };
        let given: Vec<Val> = st.iter().filter_map(|x| of(x.1)).collect();
        // unknown of a page that holds values
        let unknown = st.iter().any(|x| of(x.1).is_none() && !x.0.vals.is_empty());
        match bound {
            Some(b) => {
                ensure!(given.contains(b), format!("chunk:{name}-invented"), "{b:?} is not a bound of any page");
                ensure!(!unknown, format!("chunk:{name}-ignores-page"), "{name} {b:?} is reported although some page has none");
                if o != Order::Undefined {
                    let bad = if is_max { Ordering::Greater } else { Ordering::Less };
                    for (i, (d, s)) in st.iter().enumerate() {
                        for v in d.vals.iter().chain(of(s).iter()) {
                            ensure!(
                                cmp_vals(ph, o, v, b) != Some(bad),
                                format!("chunk:{name}-not-a-bound"),
                                "{:?} ({o:?}): {name} {b:?} excludes {v:?} of page {i}",
                                leaf.prim
                            );
                        }
                    }
                }
            }
            None => {
                let unclear = st.iter().any(|x| of(x.1).is_none() && x.1.null_count != Some(x.0.entries() as i64));
                ensure!(given.is_empty() || unclear, format!("chunk:{name}-missing"), "the pages have {given:?}");
            }
        }
    }
    c.eval();
    Ok(())
}
fn reduce(c: &mut Case) -> R {
    reduce_file(c, false, false)
}
fn reduce_partial(c: &mut Case) -> R {
    reduce_file(c, true, false)
}
fn reduce_order(c: &mut Case) -> R {
    reduce_file(c, false, true)
}
fn sort_order(c: &mut Case) -> R {
    let ph = rand_ph(&mut c.rng);
    let t = rand_primitive(&mut c.rng, "x".into(), Repetition::Required, ph, true);
    let ParquetType::PrimitiveType(p) = &t else { unreachable!() };
    let got = parquet2::metadata::get_sort_order(&p.logical_type, &p.converted_type, &p.physical_type);
    let exp = match order_of(p) {
        Order::Signed | Order::Float | Order::SignedBytes => SortOrder::Signed,
        Order::Unsigned | Order::Bytes => SortOrder::Unsigned,
        Order::Undefined => SortOrder::Undefined,
    };
    ensure!(got == exp, "sort-order", "{p:?}: {got:?} expected {exp:?}");
    c.distinct(hash_str(&format!("{:?}{:?}{:?}", p.logical_type, p.converted_type, ph.code())));
    Ok(())
}
pub fn prop09() -> Prop {
    Prop {
        id: "C09",
        rule: "random statistics of every type are converted to and from their stored form, and files whose pages carry sound caller-given statistics (tight, loose, partial or absent) are written; page and chunk statistics read back are compared with the pages' values in the sort order of the type; distinct = hash of the statistics and values",
        assumptions: &["no bound of a floating-point page is NaN (the format forbids it)"],
        families: vec![
            Family { name: "serde", quick: 800000, thorough: 6000000, f: serde },
            Family { name: "eq-types", quick: 40000, thorough: 200000, f: eq_types },
            Family { name: "reduce", quick: 120000, thorough: 1500000, f: reduce },
            Family { name: "reduce-partial", quick: 120000, thorough: 1500000, f: reduce_partial },
            Family { name: "reduce-order", quick: 120000, thorough: 1500000, f: reduce_order },
            Family { name: "sort-order", quick: 100000, thorough: 400000, f: sort_order },
        ],
    }
}

// ---------------------------------------------------------------- C10
pub fn index_flat(ix: &dyn Index) -> (Vec<(Option<Val>, Option<Val>, Option<i64>)>, BoundaryOrder, PhysicalType) {
    fn n<T: parquet2::types::NativeType>(ix: &dyn Index) -> (Vec<(Option<Val>, Option<Val>, Option<i64>)>, BoundaryOrder) {
        let x = ix.as_any().downcast_ref::<NativeIndex<T>>().unwrap();
        let f = |x: &T| x.to_le_bytes().as_ref().to_vec();
        (x.indexes.iter().map(|p| (p.min.as_ref().map(f), p.max.as_ref().map(f), p.null_count)).collect(), x.boundary_order)
    }
    let t = *ix.physical_type();
    let (a, b) = match t {
        PhysicalType::Boolean => {
            let x = ix.as_any().downcast_ref::<BooleanIndex>().unwrap();
            let f = |x: bool| vec![x as u8];
            (x.indexes.iter().map(|p| (p.min.map(f), p.max.map(f), p.null_count)).collect(), x.boundary_order)
        }
        PhysicalType::Int32 => n::<i32>(ix),
        PhysicalType::Int64 => n::<i64>(ix),
        PhysicalType::Int96 => n::<[u32; 3]>(ix),
        PhysicalType::Float => n::<f32>(ix),
        PhysicalType::Double => n::<f64>(ix),
        PhysicalType::ByteArray => {
            let x = ix.as_any().downcast_ref::<ByteIndex>().unwrap();
            (x.indexes.iter().map(|p| (p.min.clone(), p.max.clone(), p.null_count)).collect(), x.boundary_order)
        }
        PhysicalType::FixedLenByteArray(_) => {
            let x = ix.as_any().downcast_ref::<FixedLenByteIndex>().unwrap();
            (x.indexes.iter().map(|p| (p.min.clone(), p.max.clone(), p.null_count)).collect(), x.boundary_order)
        }
    };
    (a, b, t)
}
/// a random selection of columns, in any order
pub fn subset(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match rng.below(4) {
        0 => {}
        1 => rng.shuffle(&mut v),
        2 => {
            rng.shuffle(&mut v);
            v.truncate(rng.range(1, n))
        }
        _ => v = vec![rng.below(n)],
    }
    v
}
fn check_indexes(c: &mut Case, spec: &FileSpec, b: &[u8], md: &FileMetaData) -> R {
    for g in 0..spec.groups.len() {
        let n = spec.leaves.len();
        if n == 0 {
            continue;
        }
        let sel = subset(&mut c.rng, n);
        let cols: Vec<ColumnChunkMetaData> = sel.iter().map(|i| md.row_groups[g].columns()[*i].clone()).collect();
        let locs = guarded("read_pages_locations", || read_pages_locations(&mut Cursor::new(b), &cols))?.map_err(e2f("read_pages_locations"))?;
        ensure!(locs.len() == cols.len(), "offset:count", "{} for {} columns", locs.len(), cols.len());
        let ixs = guarded("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(b), &cols))?.map_err(e2f("read_columns_indexes"))?;
        ensure!(ixs.len() == if spec.write_stats { cols.len() } else { 0 }, "column:count", "{} for {} columns", ixs.len(), cols.len());
        for (k, i) in sel.iter().enumerate() {
            let cs = &spec.groups[g][*i];
            let leaf = &spec.leaves[*i];
            let (start, len) = cols[k].byte_range();
            let raw = pq::pages(b, start as usize, len as usize).map_err(|e| failure("harness", e))?;
            let nd = cs.dict.is_some() as usize;
            ensure!(raw.len() == cs.pages.len() + nd, "offset:pages", "{} pages in the file", raw.len());
            ensure!(locs[k].len() == cs.pages.len(), "offset:pages", "{} locations for {} pages", locs[k].len(), cs.pages.len());
            let mut row = 0;
            for (j, l) in locs[k].iter().enumerate() {
                let p = &raw[j + nd];
                let size = p.header_len + p.body.len();
                ensure!(
                    l.offset == p.offset as i64 && l.compressed_page_size as usize == size && l.first_row_index == row,
                    "offset:location",
                    "page {j} of column {i}: {l:?} but it is at {} of size {size} with first row {row}",
                    p.offset
                );
                row += cs.pages[j].data.rows as i64;
                c.eval();
            }
            if spec.write_stats {
                let (ix, order, t) = index_flat(ixs[k].as_ref());
                ensure!(t == leaf.ph.to(), "column:type", "{t:?}");
                ensure!(ix.len() == cs.pages.len(), "column:pages", "{} entries for {} pages", ix.len(), cs.pages.len());
                for (j, (e, p)) in ix.iter().zip(&cs.pages).enumerate() {
                    let s = p.stats.as_ref().unwrap();
                    ensure!(e.2 == s.null_count, "column:null-count", "page {j}: {:?} expected {:?}", e.2, s.null_count);
                    ensure!(
                        e.0 == s.min_value && e.1 == s.max_value,
                        "column:bounds",
                        "page {j}: {:?}..{:?} expected {:?}..{:?}",
                        e.0,
                        e.1,
                        s.min_value,
                        s.max_value
                    );
                    // a reader may skip a page flagged as null
                    if e.0.is_none() && !p.data.vals.is_empty() {
                        c.soft::<()>(Err(failure(
                            "null-flag-without-bounds",
                            format!("page {j} holds {} values and no bounds: the index says it holds only nulls", p.data.vals.len()),
                        )));
                    }
                    c.eval();
                }
                if order != BoundaryOrder::Unordered {
                    let o = order_of(&leaf.prim);
                    let b: Vec<_> = ix.iter().filter_map(|x| Some((x.0.clone()?, x.1.clone()?))).collect();
                    let bad = if order == BoundaryOrder::Ascending { Ordering::Greater } else { Ordering::Less };
                    for w in b.windows(2) {
                        ensure!(
                            cmp_vals(leaf.ph, o, &w[0].0, &w[1].0) != Some(bad) && cmp_vals(leaf.ph, o, &w[0].1, &w[1].1) != Some(bad),
                            "column:order",
                            "declared {order:?}"
                        );
                    }
                }
            }
            // seeking to one page
            let rows = spec.group_rows(g);
            if !cs.pages.is_empty() {
                let want = c.rng.below(cs.pages.len());
                let mut pages = select_pages(&[], &locs[k], rows).map_err(e2f("select_pages"))?;
                ensure!(pages.len() == cs.pages.len(), "seek:select", "{} pages", pages.len());
                let nrows = cs.pages[want].data.rows;
                ensure!(pages[want].num_rows == nrows, "seek:rows", "{} rows expected {nrows}", pages[want].num_rows);
                pages[want].selected_rows = vec![Interval::new(0, nrows)];
                let it = IndexedPageReader::new(Cursor::new(b), &cols[k], pages, vec![], vec![]);
                let mut ch = Chunk::default();
                for p in it {
                    let p = p.map_err(e2f("IndexedPageReader"))?;
                    let p = decompress(p, &mut vec![]).map_err(e2f("decompress"))?;
                    absorb(&p, leaf, &mut ch, false)?;
                }
                ensure!(ch.dict == cs.dict, "seek:dict", "the dictionary differs");
                ensure!(ch.pages.len() == 1 && ch.pages[0] == cs.pages[want].data, "seek:page", "seeking to page {want} returns something else");
                c.eval();
            }
        }
    }
    Ok(())
}
fn written_with(c: &mut Case, sh: Shape) -> R {
    let mut spec = spec_of(c, &sh);
    if spec.write_stats && c.rng.bool() {
        // caller-given statistics
        for g in 0..spec.groups.len() {
            for i in 0..spec.leaves.len() {
                let leaf = spec.leaves[i].clone();
                let cs = &mut spec.groups[g][i];
                let dict = cs.dict.clone().unwrap_or_default();
                for p in &mut cs.pages {
                    p.stats = caller_stats(&mut c.rng, &leaf, &p.data, false);
                    p.built = data_page(&mut c.rng, &leaf, &p.data, p.enc, &dict, p.v2, Via::Ref, p.stats.clone());
                }
            }
        }
    }
    c.distinct(spec.hash());
    c.sample(|| spec.describe());
    c.count(if spec.write_stats { "with-column-index" } else { "without-column-index" });
    let b = write_sync(&spec, c.rng.below(2))?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    check_indexes(c, &spec, &b, &md)
}
fn written(c: &mut Case) -> R {
    written_with(c, Shape::default())
}
fn many_pages(c: &mut Case) -> R {
    let n = c.rng.range(20, 600);
    written_with(c, Shape { max_leaves: 2, depth: 1, min_pages: n, max_pages: n, max_rows: 2, min_groups: 1, max_groups: 1, write_stats: Some(true), ..Default::default() })
}
fn wide(c: &mut Case) -> R {
    written_with(c, Shape { max_leaves: 40, depth: 2, max_pages: 3, max_rows: 5, min_groups: 1, max_groups: 3, ..Default::default() })
}
/// indexes of other writers: placed anywhere, with any order, without null counts, with flagged null pages
fn foreign(c: &mut Case) -> R {
    let spec = gen_file(&mut c.rng, &Shape { write_stats: Some(true), min_groups: 1, max_groups: 2, max_leaves: 4, ..Default::default() });
    let b = write_sync(&spec, 0)?;
    let (mut f, start) = pq::footer(&b).map_err(|e| failure("harness", e))?;
    let mut body = b[..start].to_vec();
    let mut jobs: Vec<(usize, usize)> = (0..spec.groups.len()).flat_map(|g| (0..spec.leaves.len()).map(move |i| (g, i))).collect();
    c.rng.shuffle(&mut jobs);
    let mut exp = std::collections::HashMap::new();
    let mut at = std::collections::HashMap::new();
    let mut places = std::collections::HashMap::new();
    for (g, i) in jobs {
        let ph = spec.leaves[i].ph;
        let n = if c.rng.chance(1, 6) { c.rng.range(50, 400) } else { c.rng.below(6) };
        let prof = rand_prof(&mut c.rng);
        let mins = gen_vals(&mut c.rng, ph, n, prof);
        let maxs = gen_vals(&mut c.rng, ph, n, prof);
        let nulls: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 4)).collect();
        let counts: Option<Vec<i64>> = c.rng.bool().then(|| (0..n).map(|_| (c.rng.u64() >> 1) as i64 >> c.rng.below(63)).collect());
        let order = c.rng.below(3) as i32;
        let pad = c.rng.below(5);
        body.extend(c.rng.bytes(pad));
        let null_bytes = |v: &Val, is: bool, k: usize| if !is { v.clone() } else if k == 0 { vec![] } else { vec![0] };
        let k = c.rng.below(2);
        let s = S::new()
            .with(1, thrift::boollist(nulls.clone()))
            .with(2, thrift::blist(mins.iter().zip(&nulls).map(|(v, n)| null_bytes(v, *n, k))))
            .with(3, thrift::blist(maxs.iter().zip(&nulls).map(|(v, n)| null_bytes(v, *n, k))))
            .with(4, V::I32(order))
            .opt(5, counts.clone().map(thrift::i64list));
        let x = thrift::bytes(&s);
        let p = body.len();
        body.extend(&x);
        // pages anywhere, of rows and sizes of any magnitude
        let np = match c.rng.below(12) {
            0 => c.rng.range(300, 3000),
            1 => 0,
            _ => c.rng.below(8),
        };
        let tiny = c.rng.bool();
        let mut row = 0i64;
        let locs: Vec<(i64, i32, i64)> = (0..np)
            .map(|_| {
                let rng = &mut c.rng;
                let z = if tiny { 57 } else { 0 };
                let l = ((rng.u64() >> 1) as i64 >> z.max(rng.below(63)), (rng.u32() >> 1) as i32 >> (z / 2).max(rng.below(31)), row);
                row = row.saturating_add((rng.u64() >> 1) as i64 >> z.max(rng.range(10, 62)));
                l
            })
            .collect();
        let o = S::new().with(1, thrift::slist(locs.iter().map(|l| S::new().with(1, V::I64(l.0)).with(2, V::I32(l.1)).with(3, V::I64(l.2)))));
        let o = thrift::bytes(&o);
        at.insert((g, i), (p as i64, x.len() as i32, body.len() as i64, o.len() as i32));
        body.extend(&o);
        places.insert((g, i), locs);
        let e: Vec<(Option<Val>, Option<Val>, Option<i64>)> = (0..n)
            .map(|j| {
                let m = |v: &Val| if nulls[j] { None } else { Some(v.clone()) };
                (m(&mins[j]), m(&maxs[j]), counts.as_ref().map(|c| c[j]))
            })
            .collect();
        exp.insert((g, i), (e, order));
    }
    // point the footer to the new indexes
    if let Some(V::List(_, rgs)) = f.0.iter_mut().find(|x| x.0 == 4).map(|x| &mut x.1) {
        for (g, rg) in rgs.iter_mut().enumerate() {
            let V::Struct(rg) = rg else { continue };
            let Some(V::List(_, cols)) = rg.0.iter_mut().find(|x| x.0 == 1).map(|x| &mut x.1) else { continue };
            for (i, col) in cols.iter_mut().enumerate() {
                let V::Struct(col) = col else { continue };
                let (p, n, q, m) = at[&(g, i)];
                for x in col.0.iter_mut() {
                    match x.0 {
                        4 => x.1 = V::I64(q),
                        5 => x.1 = V::I32(m),
                        6 => x.1 = V::I64(p),
                        7 => x.1 = V::I32(n),
                        _ => {}
                    }
                }
            }
        }
    }
    let b = with_footer(&body, &f);
    c.distinct(hash_bytes(&b));
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    for g in 0..spec.groups.len() {
        if spec.leaves.is_empty() {
            continue;
        }
        let sel = subset(&mut c.rng, spec.leaves.len());
        let cols: Vec<ColumnChunkMetaData> = sel.iter().map(|i| md.row_groups[g].columns()[*i].clone()).collect();
        let ixs = guarded("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(&b), &cols))?.map_err(e2f("read_columns_indexes"))?;
        ensure!(ixs.len() == sel.len(), "foreign:count", "{} of {}", ixs.len(), sel.len());
        let locs = guarded("read_pages_locations", || read_pages_locations(&mut Cursor::new(&b), &cols))?.map_err(e2f("read_pages_locations"))?;
        ensure!(locs.len() == sel.len(), "foreign:count", "locations of {} of {} columns", locs.len(), sel.len());
        for (k, i) in sel.iter().enumerate() {
            let got: Vec<(i64, i32, i64)> = locs[k].iter().map(|l| (l.offset, l.compressed_page_size, l.first_row_index)).collect();
            ensure!(&got == &places[&(g, *i)], "foreign:locations", "{got:?}\nexpected {:?}", places[&(g, *i)]);
            // selecting no row: the pages, and their rows
            let e = &places[&(g, *i)];
            let rows = e.last().map_or(0, |l| l.2 as usize);
            let sp = guarded("select_pages", || select_pages(&[], &locs[k], rows))?.map_err(e2f("select_pages"))?;
            ensure!(sp.len() == e.len(), "foreign:selected", "{} of {}", sp.len(), e.len());
            for (j, x) in sp.iter().enumerate() {
                let n = e.get(j + 1).map_or(rows as i64, |l| l.2) - e[j].2;
                ensure!(
                    x.start == e[j].0 as u64 && x.length == e[j].1 as usize && x.num_rows as i64 == n && x.selected_rows.is_empty(),
                    "foreign:selected",
                    "{x:?} of {:?} with {n} rows",
                    e[j]
                );
            }
            c.eval();
        }
        for (k, i) in sel.iter().enumerate() {
            let (e, o) = &exp[&(g, *i)];
            let (ix, order, _) = index_flat(ixs[k].as_ref());
            ensure!(&ix == e, "foreign:entries", "{:?} expected {:?}", ix, e);
            let eo = [BoundaryOrder::Unordered, BoundaryOrder::Ascending, BoundaryOrder::Descending][*o as usize];
            ensure!(order == eo, "foreign:order", "{order:?} expected {eo:?}");
            // equality of indexes
            for k2 in 0..ixs.len() {
                let same = guarded("Index-eq", || ixs[k].as_ref() == ixs[k2].as_ref())?;
                let a = (&exp[&(g, sel[k])], &spec.leaves[sel[k]].prim);
                let z = (&exp[&(g, sel[k2])], &spec.leaves[sel[k2]].prim);
                let nan = |l: &Leaf| matches!(l.ph, Ph::F32 | Ph::F64);
                // booleans do not carry their type
                if !nan(&spec.leaves[sel[k]]) && (spec.leaves[sel[k]].ph != Ph::Bool || k == k2) {
                    ensure!(same == (a == z), "foreign:equality", "{a:?} == {z:?} is {same}");
                }
            }
            c.eval();
        }
    }
    Ok(())
}
pub fn prop10() -> Prop {
    Prop {
        id: "C10",
        rule: "the page locations and column indexes the crate reads for random sets of columns of written files are compared with the pages an independent parser finds in the bytes and with the pages' statistics; each page is sought through its location; indexes of other writers are planted and read back; distinct = hash of the file",
        assumptions: &["the statistics given for a page are sound"],
        families: vec![
            Family { name: "written", quick: 30000, thorough: 700000, f: written },
            Family { name: "many-pages", quick: 400, thorough: 8000, f: many_pages },
            Family { name: "wide", quick: 1500, thorough: 30000, f: wide },
            Family { name: "written-scaled", quick: 60, thorough: 2000, f: written },
            Family { name: "foreign", quick: 20000, thorough: 400000, f: foreign },
        ],
    }
}
