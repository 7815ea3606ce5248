//! Files as other writers lay them out: an independent writer that uses the freedom of the format.
use crate::fixture::*;
use crate::gen::*;
use crate::model::enc;
use crate::model::thrift::{self, S, V};
use crate::props::codec::foreign_encode;
use crate::rt::*;
use parquet2::compression::CompressionOptions;
use parquet2::page::DataPageHeader;

#[derive(Debug, Clone, Default)]
pub struct FCol {
    pub start: usize,
    pub len: usize,
    /// where the dictionary is declared to be
    pub dict_offset: Option<i64>,
    pub data_offset: i64,
    /// the column metadata structure, as stored
    pub meta: S,
    /// the column chunk structure, as stored
    pub chunk: S,
    /// (offset, size with header, first row)
    pub pages: Vec<(usize, usize, usize)>,
    /// as declared per page: (all null, min, max, null count)
    pub index: Option<(Vec<bool>, Vec<Val>, Vec<Val>, Option<Vec<i64>>, i32)>,
    pub located: bool,
    pub dict_sorted: Option<bool>,
}
#[derive(Debug, Clone, Default)]
pub struct Foreign {
    pub bytes: Vec<u8>,
    pub cols: Vec<Vec<FCol>>,
    pub group_structs: Vec<S>,
    pub orders: bool,
    pub notes: Vec<&'static str>,
}
#[derive(Debug, Clone)]
struct Style {
    shuffle: bool,
    unknown: bool,
    crc: bool,
    separate_dict_offset: bool,
    dict_enc: i32,
    pad: bool,
    shuffle_chunks: bool,
    located: bool,
    indexed: bool,
    index_early: bool,
    extra: bool,
    orders: bool,
    legacy_stats: bool,
    later_stats: bool,
    raw_v2: usize,
    zero_children: bool,
    root_repetition: bool,
    minimal: bool,
}
fn unknown_value(rng: &mut Rng, depth: usize) -> V {
    match rng.below(if depth > 2 { 7 } else { 10 }) {
        0 => V::Bool(rng.bool()),
        1 => V::I8(rng.u32() as i8),
        2 => V::I16(rng.u32() as i16),
        3 => V::I32(rng.u32() as i32),
        4 => V::I64(rng.u64() as i64),
        5 => V::F64(1.5),
        // strings of unknown fields have to be of characters: the thrift library wants so
        6 => thrift::s("später"),
        7 => thrift::ilist((0..rng.below(20)).map(|i| i as i32 * 1000)),
        8 => {
            let n = rng.below(3);
            let v: Vec<S> = (0..n).map(|_| unknown_struct(rng, depth + 1)).collect();
            thrift::slist(v)
        }
        _ => V::Struct(unknown_struct(rng, depth + 1)),
    }
}
fn unknown_struct(rng: &mut Rng, depth: usize) -> S {
    let mut s = S::new();
    let mut id = 0;
    for _ in 0..rng.below(4) {
        id += rng.range(1, 30) as i16;
        s = s.with(id, unknown_value(rng, depth));
    }
    s
}
/// fields of later versions of the format, and fields in another order
fn fin(rng: &mut Rng, st: &Style, mut s: S) -> S {
    if st.unknown && rng.bool() {
        let mut id = 40;
        for _ in 0..rng.range(1, 2) {
            id += rng.range(1, 300) as i16;
            s.0.push((id, unknown_value(rng, 0)));
        }
    }
    if st.shuffle {
        rng.shuffle(&mut s.0);
    }
    s
}
fn compress_foreign(rng: &mut Rng, codec: CompressionOptions, d: &[u8]) -> Vec<u8> {
    let which = match codec {
        CompressionOptions::Uncompressed => return d.to_vec(),
        CompressionOptions::Snappy => 0,
        CompressionOptions::Gzip(_) => 1,
        CompressionOptions::Brotli(_) => 2,
        CompressionOptions::Zstd(_) => 3,
        CompressionOptions::Lz4Raw => 4,
        CompressionOptions::Lz4 => 5,
        CompressionOptions::Lzo => unreachable!(),
    };
    foreign_encode(rng, which, d).1
}
fn stats_struct(rng: &mut Rng, st: &Style, s: &parquet2::statistics::ParquetStatistics) -> S {
    let mut x = S::new();
    if st.legacy_stats {
        x = x.opt(1, s.max_value.clone().map(V::Bin)).opt(2, s.min_value.clone().map(V::Bin));
    }
    x = x.opt(3, s.null_count.map(V::I64)).opt(4, s.distinct_count.map(V::I64));
    x = x.opt(5, s.max_value.clone().map(V::Bin)).opt(6, s.min_value.clone().map(V::Bin));
    if st.later_stats {
        x = x.with(7, V::Bool(rng.bool())).with(8, V::Bool(rng.bool()));
    }
    fin(rng, st, x)
}
fn page_struct(rng: &mut Rng, st: &Style, kind: i32, unc: usize, body: &[u8], field: i16, inner: S) -> Vec<u8> {
    let mut h = S::new().with(1, V::I32(kind)).with(2, V::I32(unc as i32)).with(3, V::I32(body.len() as i32));
    if st.crc {
        h = h.with(4, V::I32(enc::crc32(body) as i32));
    }
    let inner = fin(rng, st, inner);
    h = h.with(field, V::Struct(inner));
    thrift::bytes(&fin(rng, st, h))
}
fn chunk(rng: &mut Rng, st: &Style, spec: &FileSpec, g: usize, ci: usize, body: &mut Vec<u8>, notes: &mut Vec<&'static str>) -> FCol {
    let cs = &spec.groups[g][ci];
    let leaf = &spec.leaves[ci];
    let mut f = FCol { start: body.len(), ..Default::default() };
    let mut unc_total = 0;
    let mut encs: Vec<i32> = vec![];
    let mut stats_list: Vec<(i32, i32)> = vec![];
    if let Some(d) = &cs.dict {
        let raw = plain(leaf.ph, d);
        let z = compress_foreign(rng, cs.codec, &raw);
        let sorted = match rng.below(3) {
            0 => None,
            1 if in_order(d) => Some(true),
            // declaring it not to be sorted is always right
            _ => Some(false),
        };
        f.dict_sorted = sorted;
        let inner = S::new().with(1, V::I32(d.len() as i32)).with(2, V::I32(st.dict_enc)).opt(3, sorted.map(V::Bool));
        let h = page_struct(rng, st, 2, raw.len(), &z, 7, inner);
        unc_total += h.len() + raw.len();
        body.extend(h);
        body.extend(z);
        encs.push(st.dict_enc);
        stats_list.push((2, st.dict_enc));
        if st.separate_dict_offset {
            f.dict_offset = Some(f.start as i64);
            f.data_offset = body.len() as i64;
            notes.push("separate-dictionary-offset");
        } else {
            f.data_offset = f.start as i64;
        }
    } else {
        f.data_offset = f.start as i64;
    }
    let mut row = 0;
    for p in &cs.pages {
        let at = body.len();
        let raw = p.built.buffer();
        let stats = p.stats.as_ref().map(|s| V::Struct(stats_struct(rng, st, s)));
        let (h, z) = match p.built.header() {
            DataPageHeader::V1(_) => {
                let z = compress_foreign(rng, cs.codec, raw);
                // the encoding of levels that do not exist is not meaningful
                let lv = |max: u32, rng: &mut Rng| if max == 0 && rng.bool() { 4 } else { 3 };
                let (dl, rl) = (lv(leaf.max_def, rng), lv(leaf.max_rep, rng));
                let inner = S::new().with(1, V::I32(p.data.entries() as i32)).with(2, V::I32(p.enc.code())).with(3, V::I32(dl)).with(4, V::I32(rl)).opt(5, stats);
                (page_struct(rng, st, 0, raw.len(), &z, 5, inner), z)
            }
            DataPageHeader::V2(h2) => {
                let (dl, rl) = (h2.definition_levels_byte_length as usize, h2.repetition_levels_byte_length as usize);
                let plain_values = match st.raw_v2 {
                    0 => false,
                    1 => true,
                    _ => rng.bool(),
                };
                let (mut z, comp) = (raw[..dl + rl].to_vec(), !plain_values);
                if comp {
                    z.extend(compress_foreign(rng, cs.codec, &raw[dl + rl..]));
                } else {
                    z.extend(&raw[dl + rl..]);
                    if cs.codec != CompressionOptions::Uncompressed {
                        notes.push("uncompressed-v2-page-in-compressed-chunk");
                    }
                }
                let flag = if comp && rng.bool() { None } else { Some(comp) };
                let inner = S::new()
                    .with(1, V::I32(p.data.entries() as i32))
                    .with(2, V::I32(p.data.nulls() as i32))
                    .with(3, V::I32(p.data.rows as i32))
                    .with(4, V::I32(p.enc.code()))
                    .with(5, V::I32(dl as i32))
                    .with(6, V::I32(rl as i32))
                    .opt(7, flag.map(V::Bool))
                    .opt(8, stats);
                (page_struct(rng, st, 3, raw.len(), &z, 8, inner), z)
            }
        };
        unc_total += h.len() + raw.len();
        body.extend(h);
        body.extend(z);
        f.pages.push((at, body.len() - at, row));
        row += p.data.rows;
        encs.push(p.enc.code());
        encs.push(3);
        stats_list.push((if p.v2 { 3 } else { 0 }, p.enc.code()));
    }
    f.len = body.len() - f.start;
    encs.sort();
    encs.dedup();
    if rng.bool() {
        rng.shuffle(&mut encs);
    }
    let n: usize = cs.pages.iter().map(|p| p.data.entries()).sum();
    let mut m = S::new()
        .with(1, V::I32(leaf.ph.code()))
        .with(2, thrift::ilist(encs))
        .with(3, thrift::blist(leaf.path.iter().map(|x| x.as_bytes().to_vec())))
        .with(4, V::I32(codec_code(cs.eff_codec())))
        .with(5, V::I64(n as i64))
        .with(6, V::I64(unc_total as i64))
        .with(7, V::I64(f.len as i64));
    if st.extra && rng.bool() {
        let kv: Vec<S> = (0..rng.below(3)).map(|i| S::new().with(1, thrift::s(&format!("k{i}"))).opt(2, rng.bool().then(|| thrift::s("v")))).collect();
        m = m.with(8, thrift::slist(kv));
    }
    m = m.with(9, V::I64(f.data_offset));
    if st.extra && rng.chance(1, 4) {
        m = m.with(10, V::I64(f.start as i64));
    }
    m = m.opt(11, f.dict_offset.map(V::I64));
    if rng.chance(2, 3) && !st.minimal {
        let all: Vec<Val> = cs.pages.iter().flat_map(|p| p.data.vals.iter().cloned()).collect();
        let mm = min_max(leaf, &all);
        let s = parquet2::statistics::ParquetStatistics {
            max: None,
            min: None,
            null_count: rng.bool().then(|| cs.pages.iter().map(|p| p.data.nulls() as i64).sum()),
            distinct_count: rng.chance(1, 4).then(|| dictionarize(&all).0.len() as i64),
            max_value: mm.as_ref().map(|x| x.1.clone()),
            min_value: mm.map(|x| x.0),
        };
        m = m.with(12, V::Struct(stats_struct(rng, st, &s)));
    }
    if st.extra {
        let l: Vec<S> = stats_list.iter().map(|(t, e)| S::new().with(1, V::I32(*t)).with(2, V::I32(*e)).with(3, V::I32(1))).collect();
        m = m.with(13, thrift::slist(l));
    }
    if st.unknown && rng.bool() {
        // size_statistics of later versions
        m = m.with(16, V::Struct(S::new().with(1, V::I64(5)).with(2, thrift::i64list([1, 2, 3])).with(3, thrift::i64list([]))));
    }
    f.meta = m;
    f
}
fn indexes(rng: &mut Rng, st: &Style, spec: &FileSpec, g: usize, ci: usize, f: &mut FCol) -> Vec<(i16, i16, Vec<u8>)> {
    let cs = &spec.groups[g][ci];
    let mut out = vec![];
    if st.located {
        let l: Vec<S> = f
            .pages
            .iter()
            .map(|(o, n, r)| {
                let s = S::new().with(1, V::I64(*o as i64)).with(2, V::I32(*n as i32)).with(3, V::I64(*r as i64));
                fin(rng, st, s)
            })
            .collect();
        let mut s = S::new().with(1, thrift::slist(l));
        if st.unknown && rng.bool() {
            // unencoded_byte_array_data_bytes
            s = s.with(2, thrift::i64list(f.pages.iter().map(|x| x.1 as i64)));
        }
        f.located = true;
        out.push((4, 5, thrift::bytes(&fin(rng, st, s))));
    }
    if st.indexed && cs.pages.iter().all(|p| p.stats.is_some()) {
        let nulls: Vec<bool> = cs.pages.iter().map(|p| p.data.vals.is_empty()).collect();
        // pages with values but without bounds (NaNs only) have no index
        if cs.pages.iter().any(|p| !p.data.vals.is_empty() && p.stats.as_ref().unwrap().min_value.is_none()) {
            return out;
        }
        let b = |x: &Option<Val>| x.clone().unwrap_or_default();
        let mins: Vec<Val> = cs.pages.iter().map(|p| b(&p.stats.as_ref().unwrap().min_value)).collect();
        let maxs: Vec<Val> = cs.pages.iter().map(|p| b(&p.stats.as_ref().unwrap().max_value)).collect();
        let counts: Option<Vec<i64>> = rng.bool().then(|| cs.pages.iter().map(|p| p.data.nulls() as i64).collect());
        let order = 0;
        let mut s = S::new()
            .with(1, thrift::boollist(nulls.clone()))
            .with(2, thrift::blist(mins.clone()))
            .with(3, thrift::blist(maxs.clone()))
            .with(4, V::I32(order))
            .opt(5, counts.clone().map(thrift::i64list));
        if st.unknown && rng.bool() {
            // histograms of levels
            s = s.with(6, thrift::i64list([1, 2])).with(7, thrift::i64list([3]));
        }
        f.index = Some((nulls, mins, maxs, counts, order));
        out.push((6, 7, thrift::bytes(&fin(rng, st, s))));
    }
    out
}
/// lays `spec` out as some other writer would
pub fn build(rng: &mut Rng, spec: &FileSpec) -> Foreign {
    let st = Style {
        shuffle: rng.chance(1, 4),
        unknown: rng.chance(1, 3),
        crc: rng.bool(),
        separate_dict_offset: rng.chance(2, 3),
        dict_enc: if rng.bool() { 0 } else { 2 },
        pad: rng.bool(),
        shuffle_chunks: rng.chance(1, 3),
        located: rng.chance(3, 4),
        indexed: rng.chance(3, 4),
        index_early: rng.chance(1, 4),
        extra: rng.bool(),
        orders: rng.bool(),
        legacy_stats: rng.bool(),
        later_stats: rng.chance(1, 4),
        raw_v2: rng.below(3),
        zero_children: rng.chance(1, 4),
        root_repetition: rng.chance(1, 4),
        minimal: rng.chance(1, 5),
    };
    let mut out = Foreign { orders: st.orders, ..Default::default() };
    for (b, n) in [
        (st.shuffle, "fields-in-another-order"),
        (st.unknown, "unknown-fields"),
        (st.crc, "page-checksums"),
        (st.pad, "padding-between-chunks"),
        (st.shuffle_chunks, "chunks-in-another-order"),
        (st.located, "offset-indexes"),
        (st.indexed, "column-indexes"),
        (st.index_early, "indexes-between-chunks"),
        (st.extra, "optional-fields"),
        (st.minimal, "few-fields"),
        (!st.orders, "no-column-orders"),
        (st.legacy_stats, "legacy-statistics"),
    ] {
        if b {
            out.notes.push(n)
        }
    }
    let mut body = b"PAR1".to_vec();
    let n = spec.leaves.len();
    out.cols = vec![vec![FCol::default(); n]; spec.groups.len()];
    let mut jobs: Vec<(usize, usize)> = (0..spec.groups.len()).flat_map(|g| (0..n).map(move |i| (g, i))).collect();
    if st.shuffle_chunks {
        rng.shuffle(&mut jobs);
    }
    // (group, column, id of the offset, id of the length, bytes)
    let mut pending: Vec<(usize, usize, i16, i16, Vec<u8>)> = vec![];
    let mut placed: Vec<(usize, usize, i16, i16, usize, usize)> = vec![];
    let junk = |rng: &mut Rng, body: &mut Vec<u8>| {
        if st.pad && rng.bool() {
            let k = rng.below(20);
            // what looks like a header, or zeros
            let v = match rng.below(3) {
                0 => vec![0; k],
                1 => b"PAR1"[..].to_vec(),
                _ => rng.bytes(k),
            };
            body.extend(v);
        }
    };
    for (g, ci) in jobs {
        junk(rng, &mut body);
        let mut f = chunk(rng, &st, spec, g, ci, &mut body, &mut out.notes);
        for (a, b, x) in indexes(rng, &st, spec, g, ci, &mut f) {
            pending.push((g, ci, a, b, x));
        }
        out.cols[g][ci] = f;
        if st.index_early {
            while !pending.is_empty() && rng.bool() {
                let k = rng.below(pending.len());
                let (g, ci, a, b, x) = pending.swap_remove(k);
                junk(rng, &mut body);
                placed.push((g, ci, a, b, body.len(), x.len()));
                body.extend(x);
            }
        }
    }
    if rng.bool() {
        rng.shuffle(&mut pending);
    }
    for (g, ci, a, b, x) in pending {
        junk(rng, &mut body);
        placed.push((g, ci, a, b, body.len(), x.len()));
        body.extend(x);
    }
    junk(rng, &mut body);
    // footer
    let mut els = flatten(&spec.name, &spec.fields);
    for (i, e) in els.iter_mut().enumerate() {
        if i == 0 && st.root_repetition {
            e.0.push((3, V::I32(0)));
        }
        if i > 0 && st.zero_children && e.has(1) {
            // as written by some versions of parquet-cpp
            e.0.push((5, V::I32(0)));
            if !e.has(2) && rng.bool() {
                e.0.push((2, V::I32(0)));
            }
        }
        e.0.sort_by_key(|x| x.0);
        *e = fin(rng, &st, e.clone());
    }
    let mut groups = vec![];
    for g in 0..spec.groups.len() {
        let mut cols = vec![];
        for ci in 0..n {
            let mut f = out.cols[g][ci].clone();
            f.meta = fin(rng, &st, f.meta);
            let mut ch = S::new();
            if st.extra && rng.bool() {
                ch = ch.with(1, thrift::s(""));
            }
            // deprecated: where the metadata is repeated, if at all
            let off = *rng.pick(&[0, f.start as i64, (f.start + f.len) as i64]);
            ch = ch.with(2, V::I64(off)).with(3, V::Struct(f.meta.clone()));
            for (pg, pc, a, b, o, l) in &placed {
                if (*pg, *pc) == (g, ci) {
                    ch.0.push((*a, V::I64(*o as i64)));
                    ch.0.push((*b, V::I32(*l as i32)));
                }
            }
            ch.0.sort_by_key(|x| x.0);
            f.chunk = fin(rng, &st, ch);
            cols.push(f.chunk.clone());
            out.cols[g][ci] = f;
        }
        let total: i64 = out.cols[g].iter().map(|f| f.meta.i64(6).unwrap()).sum();
        let mut s = S::new().with(1, thrift::slist(cols)).with(2, V::I64(total)).with(3, V::I64(spec.group_rows(g) as i64));
        if !st.minimal {
            if st.extra && n > 0 && rng.bool() {
                let sc = S::new().with(1, V::I32(rng.below(n) as i32)).with(2, V::Bool(rng.bool())).with(3, V::Bool(rng.bool()));
                s = s.with(4, thrift::slist([sc]));
            }
            if rng.bool() {
                s = s.with(5, V::I64(out.cols[g].first().map_or(0, |f| f.start) as i64));
                s = s.with(6, V::I64(out.cols[g].iter().map(|f| f.len).sum::<usize>() as i64));
                s = s.with(7, V::I16(g as i16));
            }
        }
        out.group_structs.push(s.clone());
        groups.push(fin(rng, &st, s));
    }
    let rows: usize = (0..spec.groups.len()).map(|g| spec.group_rows(g)).sum();
    let mut md = S::new()
        .with(1, V::I32(if spec.v2 { 2 } else { 1 }))
        .with(2, thrift::slist(els))
        .with(3, V::I64(rows as i64))
        .with(4, thrift::slist(groups));
    if let Some(kv) = &spec.kv {
        md = md.with(5, thrift::slist(kv.iter().map(|(k, v)| S::new().with(1, thrift::s(k)).opt(2, v.as_ref().map(|v| thrift::s(v))))));
    }
    md = md.opt(6, spec.created_by.as_ref().map(|x| thrift::s(x)));
    if st.orders {
        md = md.with(7, thrift::slist((0..n).map(|_| S::new().with(1, V::Struct(S::new())))));
    }
    let md = fin(rng, &st, md);
    let m = thrift::bytes(&md);
    body.extend(&m);
    body.extend((m.len() as u32).to_le_bytes());
    body.extend(b"PAR1");
    out.bytes = body;
    out.notes.sort();
    out.notes.dedup();
    out
}
