//! C15: file metadata is preserved.
use super::schema::check_descriptor;
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::*;
use crate::model::pq;
use crate::model::thrift::{self, S, V};
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::Compression;
use parquet2::metadata::*;
use parquet2::read::*;
use parquet2::schema::types::ParquetType;
use parquet2::write::*;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;

pub struct Md {
    pub name: String,
    pub fields: Vec<ParquetType>,
    pub s: S,
}
fn any_str(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.size(max);
    let s: String = match rng.below(4) {
        0 => (0..n).map(|_| *rng.pick(&['a', 'é', '名', '🦀', '\0', '\n'])).collect(),
        1 => "PAR1".repeat(n / 4 + 1),
        _ => (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect(),
    };
    s.into_bytes()
}
fn any_i64(rng: &mut Rng) -> i64 {
    match rng.below(8) {
        0 => 0,
        1 => i64::MAX,
        2 => i32::MAX as i64 + rng.below(3) as i64,
        3 => (rng.u64() >> 1) as i64 >> rng.below(63),
        _ => rng.below(100000) as i64,
    }
}
fn signed(rng: &mut Rng) -> i64 {
    let x = any_i64(rng);
    if rng.chance(1, 8) {
        -x
    } else {
        x
    }
}
fn kvs(rng: &mut Rng, n: usize, max: usize) -> V {
    thrift::slist((0..n).map(|_| {
        let k = any_str(rng, max);
        let v = if rng.chance(1, 4) { None } else { Some(V::Bin(any_str(rng, max))) };
        S::new().with(1, V::Bin(k)).opt(2, v)
    }))
}
fn opt<T>(rng: &mut Rng, num: usize, den: usize, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if rng.chance(num, den) {
        Some(f(rng))
    } else {
        None
    }
}
fn statistics(rng: &mut Rng, leaf: &Leaf) -> S {
    let p = rand_prof(rng);
    let v = |rng: &mut Rng| {
        if rng.chance(1, 5) {
            None
        } else {
            gen_vals(rng, leaf.ph, 1, p).pop().map(V::Bin)
        }
    };
    let c = |rng: &mut Rng| opt(rng, 2, 3, |r| V::I64(any_i64(r)));
    let dep = |rng: &mut Rng| opt(rng, 1, 4, |r| V::Bin(r.bytes(5)));
    let (a, b) = (dep(rng), dep(rng));
    let (n, d) = (c(rng), c(rng));
    let (mx, mn) = (v(rng), v(rng));
    S::new().opt(1, a).opt(2, b).opt(3, n).opt(4, d).opt(5, mx).opt(6, mn)
}
fn chunk(rng: &mut Rng, leaf: &Leaf) -> S {
    let ne = rng.size(30);
    let md = S::new()
        .with(1, V::I32(leaf.ph.code()))
        .with(2, thrift::ilist((0..ne).map(|_| *rng.pick(&[0, 2, 3, 4, 5, 6, 7, 8, 9]))))
        .with(3, thrift::blist(leaf.path.iter().map(|x| x.as_bytes().to_vec())))
        .with(4, V::I32(rng.below(8) as i32))
        .with(5, V::I64(any_i64(rng)))
        .with(6, V::I64(any_i64(rng)))
        .with(7, V::I64(any_i64(rng) >> 20))
        .opt(8, opt(rng, 1, 4, |r| {
            let n = r.size(4);
            kvs(r, n, 20)
        }))
        .with(9, V::I64(any_i64(rng)))
        .opt(10, opt(rng, 1, 4, |r| V::I64(signed(r))))
        .opt(11, opt(rng, 1, 3, |r| V::I64(any_i64(r))))
        .opt(12, opt(rng, 2, 3, |r| V::Struct(statistics(r, leaf))))
        .opt(13, opt(rng, 1, 4, |r| {
            let n = r.size(5);
            thrift::slist((0..n).map(|_| {
                S::new()
                    .with(1, V::I32(r.below(4) as i32))
                    .with(2, V::I32(r.below(10) as i32))
                    .with(3, V::I32(r.u32() as i32 >> r.below(31)))
            }))
        }))
        .opt(14, opt(rng, 1, 4, |r| V::I64(signed(r))));
    S::new()
        .opt(1, opt(rng, 1, 5, |r| V::Bin(any_str(r, 40))))
        .with(2, V::I64(signed(rng)))
        .with(3, V::Struct(md))
        .opt(4, opt(rng, 1, 2, |r| V::I64(signed(r))))
        .opt(5, opt(rng, 1, 2, |r| V::I32(r.u32() as i32 >> r.below(31))))
        .opt(6, opt(rng, 1, 2, |r| V::I64(signed(r))))
        .opt(7, opt(rng, 1, 2, |r| V::I32(r.u32() as i32 >> r.below(31))))
        .opt(8, opt(rng, 1, 12, |_| V::Struct(S::new().with(1, V::Struct(S::new())))))
        .opt(9, opt(rng, 1, 12, |r| V::Bin(r.bytes(7))))
}
pub struct Size {
    pub leaves: usize,
    pub groups: usize,
    pub kv: usize,
    pub kv_len: usize,
}
pub fn rand_md(rng: &mut Rng, z: &Size) -> Md {
    let depth = rng.below(4);
    let fields = rand_fields(rng, z.leaves.max(1), depth, true);
    let name = rand_name(rng, 0);
    let lv = leaves(&fields);
    let ng = rng.range(0, z.groups);
    let mut rows = 0i64;
    let groups: Vec<S> = (0..ng)
        .map(|g| {
            let n = any_i64(rng) >> 24;
            rows = rows.wrapping_add(n);
            let cols: Vec<S> = lv.iter().map(|l| chunk(rng, l)).collect();
            S::new()
                .with(1, thrift::slist(cols))
                .with(2, V::I64(any_i64(rng)))
                .with(3, V::I64(n))
                .opt(4, opt(rng, 1, 6, |r| {
                    thrift::slist([S::new().with(1, V::I32(r.below(9) as i32)).with(2, V::Bool(r.bool())).with(3, V::Bool(r.bool()))])
                }))
                .opt(5, opt(rng, 1, 3, |r| V::I64(any_i64(r))))
                .opt(6, opt(rng, 1, 3, |r| V::I64(any_i64(r))))
                .opt(7, opt(rng, 1, 2, |_| V::I16(g as i16)))
        })
        .collect();
    if rng.chance(1, 5) {
        rows = any_i64(rng)
    }
    let nk = rng.size(z.kv);
    let s = S::new()
        .with(1, V::I32(*rng.pick(&[1, 2, 1, 2, 0, i32::MAX, -1])))
        .with(2, thrift::slist(flatten(&name, &fields)))
        .with(3, V::I64(rows))
        .with(4, thrift::slist(groups))
        .opt(5, opt(rng, 3, 4, |r| kvs(r, nk, z.kv_len)))
        .opt(6, opt(rng, 2, 3, |r| V::Bin(any_str(r, 60))))
        .opt(7, opt(rng, 2, 3, |_| thrift::slist(lv.iter().map(|_| S::new().with(1, V::Struct(S::new()))))));
    Md { name, fields, s }
}
fn kv_of(s: &S, id: i16) -> Option<Vec<KeyValue>> {
    let Some(V::List(_, l)) = s.get(id) else { return None };
    Some(
        l.iter()
            .map(|e| {
                let e = e.as_struct().unwrap();
                let st = |i| e.bin(i).ok().map(|b| String::from_utf8(b.to_vec()).unwrap());
                KeyValue { key: st(1).unwrap(), value: st(2) }
            })
            .collect(),
    )
}
fn codec(i: i32) -> Compression {
    use Compression::*;
    [Uncompressed, Snappy, Gzip, Lzo, Brotli, Lz4, Zstd, Lz4Raw][i as usize]
}
fn chunk_bytes(c: &parquet_format_safe::ColumnChunk) -> R<S> {
    let mut b = vec![];
    c.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).map_err(|e| failure("metadata:chunk-write", format!("{e:?}")))?;
    let (s, n) = thrift::parse(&b).map_err(|e| failure("metadata:chunk-write", e))?;
    ensure!(n == b.len(), "metadata:chunk-write", "{} bytes left", b.len() - n);
    Ok(s)
}
/// every field of a list has the element type of its content, also when it is empty
fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(_, x), V::List(_, y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_v(a, b)),
        (V::Struct(x), V::Struct(y)) => same(x, y),
        (a, b) => a == b,
    }
}
fn same(a: &S, b: &S) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| x.0 == y.0 && same_v(&x.1, &y.1))
}
/// the metadata read is that of the model
pub fn check_md(m: &Md, md: &FileMetaData, way: &str) -> R {
    let w = |sig: &str| format!("metadata:{sig}");
    let s = &m.s;
    ensure!(md.version == s.i32(1).unwrap(), w("version"), "{way}: {} expected {:?}", md.version, s.get(1));
    ensure!(md.num_rows as i64 == s.i64(3).unwrap(), w("num-rows"), "{way}: {} expected {:?}", md.num_rows, s.get(3));
    let cb = s.bin(6).ok().map(|b| String::from_utf8(b.to_vec()).unwrap());
    ensure!(md.created_by == cb, w("created-by"), "{way}: {:?} expected {cb:?}", md.created_by);
    let kv = kv_of(s, 5);
    ensure!(md.key_value_metadata == kv && md.key_value_metadata() == &kv, w("key-values"), "{way}: {:?} expected {kv:?}", md.key_value_metadata);
    check_descriptor(&md.schema_descr, &m.name, &m.fields).map_err(|e| failure(e.sig, format!("{way}: {}", e.msg)))?;
    let lv = leaves(&m.fields);
    for (i, l) in lv.iter().enumerate() {
        let exp = if s.has(7) {
            ColumnOrder::TypeDefinedOrder(get_sort_order(&l.prim.logical_type, &l.prim.converted_type, &l.prim.physical_type))
        } else {
            ColumnOrder::Undefined
        };
        ensure!(md.column_order(i) == exp, w("column-order"), "{way}: column {i} {:?} expected {exp:?}", md.column_order(i));
    }
    ensure!(md.column_orders.is_some() == s.has(7), w("column-order"), "{way}: {:?}", md.column_orders);
    let gs = s.list(4).unwrap();
    ensure!(md.row_groups.len() == gs.len(), w("row-groups"), "{way}: {} expected {}", md.row_groups.len(), gs.len());
    for (g, rg) in gs.iter().zip(&md.row_groups) {
        let g = g.as_struct().unwrap();
        ensure!(rg.num_rows() as i64 == g.i64(3).unwrap(), w("rg-num-rows"), "{way}: {}", rg.num_rows());
        ensure!(rg.total_byte_size() as i64 == g.i64(2).unwrap(), w("rg-total-byte-size"), "{way}: {}", rg.total_byte_size());
        let cols = g.list(1).unwrap();
        ensure!(rg.columns().len() == cols.len(), w("columns"), "{way}: {}", rg.columns().len());
        let total: i64 = cols.iter().map(|c| c.as_struct().unwrap().st(3).unwrap().i64(7).unwrap()).sum();
        ensure!(rg.compressed_size() as i64 == total, w("rg-compressed-size"), "{way}: {} expected {total}", rg.compressed_size());
        for ((e, c), l) in cols.iter().zip(rg.columns()).zip(&lv) {
            check_chunk_md(e.as_struct().unwrap(), c, l).map_err(|e| failure(e.sig, format!("{way}: {}", e.msg)))?;
        }
    }
    Ok(())
}
pub fn check_chunk_md(e: &S, c: &ColumnChunkMetaData, l: &Leaf) -> R {
    let w = |sig: &str| format!("metadata:chunk-{sig}");
    let got = chunk_bytes(c.column_chunk())?;
    ensure!(same(&got, e), w("fields"), "{got:?}\nexpected {e:?}");
    ensure!(c.descriptor().path_in_schema == l.path && c.physical_type() == l.ph.to(), w("descriptor"), "{:?} of {:?}", c.descriptor(), l.path);
    ensure!(c.descriptor().descriptor == l.descriptor(), w("descriptor"), "{:?}", c.descriptor());
    let m = e.st(3).unwrap();
    ensure!(c.file_path().as_ref().map(|x| x.as_bytes()) == e.bin(1).ok(), w("file-path"), "{:?}", c.file_path());
    ensure!(c.file_offset() == e.i64(2).unwrap(), w("file-offset"), "{}", c.file_offset());
    ensure!(c.num_values() == m.i64(5).unwrap(), w("num-values"), "{}", c.num_values());
    ensure!(c.compression() == codec(m.i32(4).unwrap()), w("codec"), "{:?} for {:?}", c.compression(), m.get(4));
    ensure!(c.uncompressed_size() == m.i64(6).unwrap(), w("uncompressed-size"), "{}", c.uncompressed_size());
    ensure!(c.compressed_size() == m.i64(7).unwrap(), w("compressed-size"), "{}", c.compressed_size());
    ensure!(c.data_page_offset() == m.i64(9).unwrap(), w("data-page-offset"), "{}", c.data_page_offset());
    ensure!(
        c.index_page_offset() == m.i64(10).ok() && c.has_index_page() == m.has(10),
        w("index-page-offset"),
        "{:?}",
        c.index_page_offset()
    );
    ensure!(c.dictionary_page_offset() == m.i64(11).ok(), w("dictionary-page-offset"), "{:?}", c.dictionary_page_offset());
    let enc: Vec<i32> = c.column_encoding().iter().map(|x| x.0).collect();
    let exp: Vec<i32> = m.list(2).unwrap().iter().map(|x| x.as_i32().unwrap()).collect();
    ensure!(enc == exp, w("encodings"), "{enc:?} expected {exp:?}");
    let o = parquet2::write::ColumnOffsetsMetadata::from_column_chunk_metadata(c);
    let p = parquet2::write::ColumnOffsetsMetadata::from_column_chunk(c.column_chunk());
    ensure!((o.dictionary_page_offset, o.data_page_offset) == (m.i64(11).ok(), m.i64(9).ok()), w("offsets"), "{:?}", c.column_chunk());
    ensure!((p.dictionary_page_offset, p.data_page_offset) == (m.i64(11).ok(), m.i64(9).ok()), w("offsets"), "{:?}", c.column_chunk());
    ensure!(o.calc_row_group_file_offset() == m.i64(11).ok().filter(|x| *x > 0).or(m.i64(9).ok()), w("offsets"), "{:?}", c.column_chunk());
    let start = m.i64(11).unwrap_or(m.i64(9).unwrap());
    ensure!(c.byte_range() == (start as u64, m.i64(7).unwrap() as u64), w("byte-range"), "{:?} of {m:?}", c.byte_range());
    match (c.statistics(), m.st(12).ok()) {
        (None, None) => {}
        (Some(st), Some(e)) => {
            let st = must(st, "statistics")?;
            ensure!(st.null_count() == e.i64(3).ok(), w("statistics"), "{:?} expected {e:?}", st.null_count());
            ensure!(st.physical_type() == &l.ph.to(), w("statistics"), "{:?}", st.physical_type());
        }
        (a, b) => fail!(w("statistics"), "present {} expected {}", a.is_some(), b.is_some()),
    }
    Ok(())
}
/// the stored structure, written to bytes and read by the model
fn check_stored(m: &Md, b: &[u8], way: &str) -> R {
    let (f, _) = pq::footer(b).map_err(|e| failure("metadata:stored", format!("{way}: {e}")))?;
    let strip = |s: &S| {
        let mut s = s.clone();
        for (id, v) in s.0.iter_mut() {
            if *id == 4 {
                if let V::List(_, l) = v {
                    for g in l {
                        if let V::Struct(g) = g {
                            // not kept: sorting columns and ordinal; computed: offset and size
                            g.0.retain(|x| x.0 <= 3)
                        }
                    }
                }
            }
        }
        s.0.retain(|x| x.0 != 2);
        s
    };
    ensure!(same(&strip(&f), &strip(&m.s)), "metadata:stored", "{way}: {:?}\nexpected {:?}", strip(&f), strip(&m.s));
    // what is computed of a group
    let groups = |s: &S| -> Vec<S> { s.list(4).map(|l| l.iter().filter_map(|g| if let V::Struct(g) = g { Some(g.clone()) } else { None }).collect()).unwrap_or_default() };
    for (g, e) in groups(&f).iter().zip(groups(&m.s)) {
        let mds: Vec<S> = e.list(1).unwrap().iter().filter_map(|c| if let V::Struct(c) = c { c.st(3).ok().cloned() } else { None }).collect();
        let offset = mds.first().map(|m| m.i64(11).ok().filter(|x| *x > 0).unwrap_or(m.i64(9).unwrap()));
        ensure!(g.i64(5).ok() == offset, "metadata:stored-group-offset", "{way}: {:?} expected {offset:?}", g.get(5));
        let size: i128 = mds.iter().map(|m| m.i64(7).unwrap() as i128).sum();
        ensure!(size > i64::MAX as i128 || g.i64(6).ok() == Some(size as i64), "metadata:stored-group-size", "{way}: {:?} expected {size}", g.get(6));
    }
    check_schema(&m.name, &m.fields, f.list(2).map_err(|e| failure("metadata:stored", e))?)
}
fn check_ways(c: &mut Case, m: &Md, b: &[u8], footer: &[u8]) -> R {
    let start = c.rng.below(b.len() + 1) as u64;
    let mut cur = Cursor::new(b);
    cur.set_position(start);
    let md = must(guarded("read_metadata", || read_metadata(&mut cur))?, "read_metadata")?;
    check_md(m, &md, "read_metadata")?;
    let x = must(guarded("read_metadata_with_size", || read_metadata_with_size(&mut Cursor::new(b), b.len() as u64))?, "read_metadata_with_size")?;
    check_md(m, &x, "read_metadata_with_size")?;
    let x = must(guarded("read_metadata_async", || block(read_metadata_async(&mut futures::io::Cursor::new(b))))?, "read_metadata_async")?;
    check_md(m, &x, "read_metadata_async")?;
    let limit = *c.rng.pick(&[usize::MAX, footer.len() * 8 + 1024, 1 << 40]);
    let x = must(guarded("deserialize_metadata", || deserialize_metadata(footer, limit))?, "deserialize_metadata")?;
    check_md(m, &x, "deserialize_metadata")?;
    // to the stored structure and back
    let t = guarded("into_thrift", || md.clone().into_thrift())?;
    let mut side = vec![];
    let n = must(guarded("write_metadata_sidecar", || write_metadata_sidecar(&mut side, &t))?, "write_metadata_sidecar")?;
    ensure!(n as usize == side.len(), "metadata:sidecar-size", "{n} reported, {} written", side.len());
    ensure!(side.starts_with(b"PAR1") && side.ends_with(b"PAR1"), "metadata:sidecar-magic", "{:?}", &side[..4]);
    check_stored(m, &side, "side-car")?;
    let x = must(guarded("read_metadata", || read_metadata(&mut Cursor::new(&side)))?, "read_metadata")?;
    check_md(m, &x, "side-car")?;
    let x = must(guarded("try_from_thrift", || FileMetaData::try_from_thrift(t))?, "try_from_thrift")?;
    check_md(m, &x, "try_from_thrift")?;
    c.evals(6);
    Ok(())
}
pub fn file_of(c: &mut Case, m: &Md) -> (Vec<u8>, Vec<u8>) {
    let f = thrift::bytes(&m.s);
    let n = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.size(100_000),
        _ => c.rng.size(3000),
    };
    let mut body = b"PAR1".to_vec();
    body.extend(if c.rng.bool() { vec![0; n] } else { c.rng.bytes(n) });
    (with_footer(&body, &m.s), f)
}
fn note(c: &mut Case, f: &[u8]) {
    c.distinct(hash_bytes(f));
    let k = match f.len() {
        0..=999 => "<1k",
        1000..=9999 => "1k-10k",
        10_000..=65_527 => "10k-64k",
        65_528..=1_000_000 => "64k-1M",
        _ => ">1M",
    };
    c.count(&format!("footer:{k}"));
}
fn contents(c: &mut Case) -> R {
    let z = *c.rng.pick(&[(4, 2, 5, 30), (12, 3, 20, 200), (2, 12, 3, 10), (40, 1, 3, 10)]);
    let m = rand_md(&mut c.rng, &Size { leaves: z.0, groups: z.1, kv: z.2, kv_len: z.3 });
    let (b, f) = file_of(c, &m);
    note(c, &f);
    c.sample(|| format!("{} leaves, {} row groups, footer of {} bytes", leaves(&m.fields).len(), m.s.list(4).unwrap().len(), f.len()));
    check_ways(c, &m, &b, &f)
}
/// footers and files around the size of the first read, and much larger
fn sizes(c: &mut Case) -> R {
    let mut m = rand_md(&mut c.rng, &Size { leaves: 3, groups: 2, kv: 3, kv_len: 10 });
    let rng = &mut c.rng;
    // replaced key values: many small ones, or one large
    let many = rng.chance(1, 3);
    let target = match rng.below(6) {
        0 => 65536 - 8,
        1..=2 => 65536,
        3 => 65536 * rng.range(1, 4),
        4 => 1 << rng.range(7, 20),
        _ => rng.range(100, 400_000),
    } as i64
        + rng.range(0, 16) as i64
        - 8;
    m.s.0.retain(|x| x.0 != 5);
    let at = m.s.0.iter().position(|x| x.0 > 5).unwrap_or(m.s.0.len());
    if many {
        let n = (target / 5).clamp(1, 60_000) as usize;
        let v = thrift::slist((0..n).map(|_| S::new().with(1, V::Bin(vec![b'k'; rng.below(2)])).opt(2, if rng.bool() { Some(V::Bin(vec![])) } else { None })));
        m.s.0.insert(at, (5, v));
    } else {
        // the pad that makes the footer (with its 8 bytes) exactly `target`
        let one = |n: usize| thrift::slist([S::new().with(1, thrift::s("p")).with(2, V::Bin(vec![b'x'; n]))]);
        m.s.0.insert(at, (5, one(0)));
        for _ in 0..3 {
            let len = thrift::bytes(&m.s).len() as i64 + 8;
            let Some(V::List(_, l)) = m.s.get(5) else { unreachable!() };
            let cur = l[0].as_struct().unwrap().bin(2).unwrap().len() as i64;
            m.s.0[at].1 = one((cur + target - len).max(0) as usize);
        }
    }
    let f = thrift::bytes(&m.s);
    note(c, &f);
    if f.len() as i64 + 8 == target && (65530..65542).contains(&target) {
        c.count("around-first-read");
    }
    // no body at all, or one that makes the file about as large as the first read
    let room = 65536usize.saturating_sub(f.len() + 12);
    let n = match c.rng.below(3) {
        0 => 0,
        1 => (room + c.rng.below(6)).saturating_sub(3),
        _ => c.rng.below(200),
    };
    let mut body = b"PAR1".to_vec();
    body.extend(vec![0; n]);
    let b = with_footer(&body, &m.s);
    check_ways(c, &m, &b, &f)
}
/// a schema with many columns or long paths
fn wide(c: &mut Case) -> R {
    let n = *c.rng.pick(&[200, 600, 2000]);
    let mut m = rand_md(&mut c.rng, &Size { leaves: n, groups: 1, kv: 2, kv_len: 5 });
    if c.rng.bool() {
        // deep paths of short names
        let k = c.rng.range(20, 150);
        let mut t = rand_primitive(&mut c.rng, "x".into(), parquet2::schema::Repetition::Optional, Ph::I32, false);
        let mut side = vec![];
        for _ in 0..k {
            let mut f = vec![t];
            f.append(&mut side);
            side = vec![ParquetType::from_physical("y".into(), parquet2::schema::types::PhysicalType::Int64)];
            t = ParquetType::from_group("g".into(), parquet2::schema::Repetition::Required, None, None, f, None);
        }
        m.fields = vec![t];
        let lv = leaves(&m.fields);
        let g = (0..c.rng.range(0, 2)).map(|_| S::new().with(1, thrift::slist(lv.iter().map(|l| chunk(&mut c.rng, l)).collect::<Vec<_>>())).with(2, V::I64(3)).with(3, V::I64(7))).collect::<Vec<_>>();
        for (id, v) in m.s.0.iter_mut() {
            match id {
                2 => *v = thrift::slist(flatten(&m.name, &m.fields)),
                4 => *v = thrift::slist(g.clone()),
                7 => *v = thrift::slist(lv.iter().map(|_| S::new().with(1, V::Struct(S::new())))),
                _ => {}
            }
        }
    }
    let (b, f) = file_of(c, &m);
    note(c, &f);
    check_ways(c, &m, &b, &f)
}
fn all_read(b: &[u8], full: u64) -> R<Vec<(&'static str, bool)>> {
    let mut o = vec![];
    o.push(("read_metadata", guarded("read_metadata", || read_metadata(&mut Cursor::new(b)))?.is_ok()));
    o.push(("read_metadata_with_size", guarded("read_metadata_with_size", || read_metadata_with_size(&mut Cursor::new(b), b.len() as u64))?.is_ok()));
    o.push(("read_metadata_async", guarded("read_metadata_async", || block(read_metadata_async(&mut futures::io::Cursor::new(b))))?.is_ok()));
    if full != b.len() as u64 {
        o.push(("read_metadata_with_size (of the original)", guarded("read_metadata_with_size", || read_metadata_with_size(&mut Cursor::new(b), full))?.is_ok()));
    }
    Ok(o)
}
/// every truncation of a file
fn truncation(c: &mut Case) -> R {
    let m = rand_md(&mut c.rng, &Size { leaves: 4, groups: 2, kv: 4, kv_len: 12 });
    let (b, f) = if c.rng.chance(1, 6) { file_of(c, &m) } else { (with_footer(b"PAR1", &m.s), thrift::bytes(&m.s)) };
    note(c, &f);
    let cuts: Vec<usize> = if b.len() < 1500 {
        (0..b.len()).collect()
    } else {
        (0..60).map(|_| c.rng.below(b.len())).chain((1..20).map(|k| b.len() - k)).collect()
    };
    for n in cuts {
        let t = &b[..n];
        if n >= 12 && t.ends_with(b"PAR1") {
            c.count("cut-at-magic");
            continue;
        }
        c.eval();
        for (w, ok) in all_read(t, b.len() as u64)? {
            ensure!(!ok, "metadata:truncation-accepted", "{w}: a file of {} bytes cut to {n}", b.len());
        }
        // and the metadata alone
        if n < f.len() {
            let r = guarded("deserialize_metadata", || deserialize_metadata(&f[..n], usize::MAX))?;
            ensure!(r.is_err(), "metadata:truncation-accepted", "deserialize_metadata: {} bytes cut to {n}", f.len());
        }
    }
    // cut in front
    for _ in 0..5 {
        let k = c.rng.range(1, b.len() - 1);
        let t = &b[k..];
        let inside = t.len() < f.len() + 8;
        if inside {
            c.eval();
            for (w, ok) in all_read(t, t.len() as u64)? {
                ensure!(!ok, "metadata:truncation-accepted", "{w}: the last {} bytes, with a footer of {}", t.len(), f.len() + 8);
            }
        }
    }
    Ok(())
}
/// independent judgement of whether bytes could be read as file metadata
fn plausible(b: &[u8]) -> bool {
    match thrift::parse(b) {
        Ok((s, _)) => s.i32(1).is_ok() && s.list(2).is_ok() && s.i64(3).is_ok() && s.list(4).is_ok(),
        Err(_) => false,
    }
}
fn framing(c: &mut Case) -> R {
    let m = rand_md(&mut c.rng, &Size { leaves: 4, groups: 2, kv: 4, kv_len: 12 });
    let (b, f) = file_of(c, &m);
    note(c, &f);
    let n = b.len();
    for _ in 0..8 {
        let mut x = b.clone();
        let what = match c.rng.below(6) {
            0 => {
                let i = n - 1 - c.rng.below(4);
                x[i] ^= 1 << c.rng.below(8);
                "magic"
            }
            1 => {
                x[n - 4..].copy_from_slice(*c.rng.pick(&[b"PARE", b"par1", b"1RAP", b"PAR2", b"\0\0\0\0"]));
                "magic"
            }
            2 => {
                let k = c.rng.range(1, 9);
                let t = c.rng.bytes(k);
                x.extend(t);
                "trailing bytes"
            }
            _ => {
                let len = f.len() as i64;
                let v = match c.rng.below(7) {
                    0 => len + 1,
                    1 => len - 1,
                    2 => (n - 8) as i64 + 1 + c.rng.below(3) as i64,
                    3 => i32::MAX as i64,
                    4 => -1 - c.rng.below(1000) as i64,
                    5 => c.rng.below(n) as i64,
                    _ => i32::MIN as i64,
                } as i32;
                if v as i64 == len {
                    continue;
                }
                x[n - 8..n - 4].copy_from_slice(&v.to_le_bytes());
                if v >= 0 && (v as usize) <= n - 8 && plausible(&x[n - 8 - v as usize..n - 8]) {
                    c.count("plausible");
                    continue;
                }
                "length"
            }
        };
        if what == "trailing bytes" && x.ends_with(b"PAR1") {
            continue;
        }
        c.count(&format!("changed:{what}"));
        c.eval();
        for (w, ok) in all_read(&x, x.len() as u64)? {
            ensure!(!ok, "metadata:framing-accepted", "{w}: {what} changed; {:?} after {} bytes", &x[x.len() - 12..], x.len());
        }
    }
    Ok(())
}
/// what is given to the writers is what is read
fn writers(c: &mut Case) -> R {
    let fields = rand_fields(&mut c.rng, 4, 2, true);
    let name = rand_name(&mut c.rng, 0);
    let rng = &mut c.rng;
    let nk = if rng.chance(1, 30) { 20_000 } else { rng.size(300) };
    let len = if rng.chance(1, 10) { 70_000 } else { 40 };
    let kv = opt(rng, 4, 5, |r| {
        let v = kvs(r, if len > 1000 { nk.min(3) } else { nk }, len);
        kv_of(&S::new().with(5, v), 5).unwrap()
    });
    let cb = opt(rng, 2, 3, |r| String::from_utf8(any_str(r, 200)).unwrap());
    let v2 = rng.bool();
    let o = WriteOptions {
        write_statistics: rng.bool(),
        version: if v2 { Version::V2 } else { Version::V1 },
    };
    let d = SchemaDescriptor::new(name.clone(), fields.clone());
    let (b, n, t) = if rng.bool() {
        c.count("writer:sync");
        let mut w = FileWriter::new(vec![], d, o, cb.clone());
        let n = must(guarded("end", || w.end(kv.clone()))?, "end")?;
        let (b, t) = w.into_inner_and_metadata();
        (b, n, Some(t))
    } else {
        c.count("writer:async");
        let mut w = FileStreamer::new(futures::io::Cursor::new(vec![]), d, o, cb.clone());
        let n = must(guarded("end", || block(w.end(kv.clone())))?, "end")?;
        (w.into_inner().into_inner(), n, None)
    };
    c.distinct(hash_bytes(&b));
    c.eval();
    ensure!(n as usize == b.len(), "metadata:file-size", "{n} reported, {} written", b.len());
    let chk = |md: &FileMetaData, way: &str| -> R {
        ensure!(md.key_value_metadata == kv, "metadata:key-values", "{way}: {:?} expected {kv:?}", md.key_value_metadata);
        ensure!(md.created_by == cb, "metadata:created-by", "{way}: {:?} expected {cb:?}", md.created_by);
        ensure!(md.version == if v2 { 2 } else { 1 }, "metadata:version", "{way}: {}", md.version);
        ensure!(md.num_rows == 0 && md.row_groups.is_empty(), "metadata:row-groups", "{way}");
        check_descriptor(md.schema(), &name, &fields)
    };
    chk(&must(guarded("read_metadata", || read_metadata(&mut Cursor::new(&b)))?, "read_metadata")?, "read_metadata")?;
    let x = must(guarded("read_metadata_async", || block(read_metadata_async(&mut futures::io::Cursor::new(&b))))?, "read_metadata_async")?;
    chk(&x, "read_metadata_async")?;
    if let Some(t) = t {
        chk(&must(guarded("try_from_thrift", || FileMetaData::try_from_thrift(t))?, "try_from_thrift")?, "metadata of the writer")?;
    }
    Ok(())
}
/// the metadata of several files with the same schema, merged in one side-car file, describe each of them
fn merged(c: &mut Case) -> R {
    let sh = Shape { max_groups: 5, max_pages: 3, max_rows: 40, ..Default::default() };
    let spec = spec_of(c, &sh);
    let k = c.rng.range(1, spec.groups.len().max(1) + 1);
    // row groups in order, cut into `k` files
    let mut cuts: Vec<usize> = (1..k).map(|_| c.rng.below(spec.groups.len() + 1)).collect();
    cuts.push(0);
    cuts.push(spec.groups.len());
    cuts.sort();
    let mut parts = vec![];
    let mut merged: Option<parquet_format_safe::FileMetaData> = None;
    let mut where_ = vec![];
    for (i, w) in cuts.windows(2).enumerate() {
        let mut part = spec.clone();
        part.groups = spec.groups[w[0]..w[1]].to_vec();
        let path = match c.rng.below(4) {
            0 => String::new(),
            1 => format!("a=é/b={}/", "x".repeat(c.rng.size(300))),
            _ => format!("part-{i}.parquet"),
        };
        let mode = c.rng.below(3);
        let (fw, n) = must(write_sync_to(&part, vec![], mode), "FileWriter")?;
        let given = fw.metadata().cloned();
        let (b, mut md) = fw.into_inner_and_metadata();
        ensure!(b.len() as u64 == n, "metadata:file-size", "{n} reported, {} written", b.len());
        ensure!(given.as_ref() == Some(&md), "metadata:of-the-writer", "metadata() and into_inner_and_metadata() differ");
        let own = must(guarded("read_metadata", || read_metadata(&mut Cursor::new(&b)))?, "read_metadata")?;
        for g in &mut md.row_groups {
            for col in &mut g.columns {
                col.file_path = Some(path.clone());
            }
        }
        where_.extend((w[0]..w[1]).map(|g| (i, g - w[0])));
        parts.push((b, own, path));
        merged = Some(match merged {
            None => md,
            Some(mut acc) => {
                acc.num_rows += md.num_rows;
                acc.row_groups.extend(md.row_groups);
                acc
            }
        });
    }
    let merged = merged.unwrap();
    c.add("merged:files", parts.len() as u64);
    c.add("merged:row-groups", spec.groups.len() as u64);
    let mut side = vec![];
    let n = must(guarded("write_metadata_sidecar", || write_metadata_sidecar(&mut side, &merged))?, "write_metadata_sidecar")?;
    ensure!(n as usize == side.len(), "metadata:sidecar-size", "{n} reported, {} written", side.len());
    c.distinct(hash_bytes(&side));
    let mut read = vec![must(guarded("read_metadata", || read_metadata(&mut Cursor::new(&side)))?, "read_metadata")?];
    read.push(must(guarded("read_metadata_async", || block(read_metadata_async(&mut futures::io::Cursor::new(&side))))?, "read_metadata_async")?);
    let t = must(guarded("try_from_thrift", || FileMetaData::try_from_thrift(read[0].clone().into_thrift()))?, "try_from_thrift")?;
    read.push(t);
    for md in &read {
        crate::readers::check_metadata(&spec, md)?;
        for (rg, (f, g)) in md.row_groups.iter().zip(&where_) {
            let (b, own, path) = &parts[*f];
            let og = &own.row_groups[*g];
            ensure!(rg.total_byte_size() == og.total_byte_size() && rg.num_rows() == og.num_rows(), "metadata:merged-row-group", "{} bytes, {} in the file", rg.total_byte_size(), og.total_byte_size());
            for (x, y) in rg.columns().iter().zip(og.columns()) {
                c.eval();
                ensure!(x.file_path().as_ref() == Some(path), "metadata:merged-path", "{:?} expected {path:?}", x.file_path());
                let mut a = x.clone().into_thrift();
                a.file_path = None;
                ensure!(a == y.clone().into_thrift(), "metadata:merged-chunk", "{a:?} expected {:?}", y.clone().into_thrift());
            }
        }
    }
    // and the data of each file are found through the side-car
    let md = &read[0];
    for (gi, (f, _)) in where_.iter().enumerate() {
        let b = &parts[*f].0;
        for ci in 0..spec.leaves.len() {
            let ch = crate::readers::read_chunk(b, md, gi, ci, &spec.leaves[ci], crate::readers::Mode::Decompressor)?;
            crate::readers::check_chunk_data(&ch, &spec.groups[gi][ci])?;
        }
        let cols = md.row_groups[gi].columns();
        let own = &parts[*f].1.row_groups[where_[gi].1];
        let a = must(guarded("read_pages_locations", || read_pages_locations(&mut Cursor::new(b), cols))?, "read_pages_locations")?;
        let x = must(read_pages_locations(&mut Cursor::new(b), own.columns()), "read_pages_locations")?;
        ensure!(a == x, "metadata:merged-locations", "{a:?} expected {x:?}");
        if spec.write_stats && spec.groups[gi].iter().all(|c| !c.pages.is_empty()) {
            let a = must(guarded("read_columns_indexes", || read_columns_indexes(&mut Cursor::new(b), cols))?, "read_columns_indexes")?;
            let x = must(read_columns_indexes(&mut Cursor::new(b), own.columns()), "read_columns_indexes")?;
            ensure!(format!("{a:?}") == format!("{x:?}"), "metadata:merged-indexes", "{a:?} expected {x:?}");
        }
        c.eval();
    }
    Ok(())
}
/// the parts of the metadata that can be serialized with serde
fn serde(c: &mut Case) -> R {
    let m = rand_md(&mut c.rng, &Size { leaves: 6, groups: 2, kv: 2, kv_len: 5 });
    let (b, f) = file_of(c, &m);
    note(c, &f);
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    let js = |r: Result<String, serde_json::Error>| r.map_err(|e| failure("serde:serialize", e.to_string()));
    let lv = leaves(&m.fields);
    for (g, rg) in m.s.list(4).unwrap().iter().zip(&md.row_groups) {
        let g = g.as_struct().unwrap();
        c.eval();
        let t = js(guarded("serialize", || serde_json::to_string(rg))?)?;
        let r: RowGroupMetaData = guarded("deserialize", || serde_json::from_str(&t))?.map_err(|e| failure("serde:deserialize", e.to_string()))?;
        ensure!(
            r.num_rows() == rg.num_rows() && r.total_byte_size() == rg.total_byte_size() && r.columns().len() == rg.columns().len(),
            "serde:row-group",
            "{} {} {}",
            r.num_rows(),
            r.total_byte_size(),
            r.columns().len()
        );
        for ((e, cc), l) in g.list(1).unwrap().iter().zip(r.columns()).zip(&lv) {
            check_chunk_md(e.as_struct().unwrap(), cc, l).map_err(|e| failure(e.sig, format!("serde: {}", e.msg)))?;
        }
    }
    let t = js(guarded("serialize", || serde_json::to_string(md.schema()))?)?;
    let d: SchemaDescriptor = guarded("deserialize", || serde_json::from_str(&t))?.map_err(|e| failure("serde:deserialize", e.to_string()))?;
    check_descriptor(&d, &m.name, &m.fields)
}
/// descriptions that contradict themselves are errors
fn invalid(c: &mut Case) -> R {
    let mut m = rand_md(&mut c.rng, &Size { leaves: 5, groups: 3, kv: 2, kv_len: 5 });
    let lv = leaves(&m.fields).len();
    let rng = &mut c.rng;
    let gs = match m.s.0.iter_mut().find(|x| x.0 == 4) {
        Some((_, V::List(_, l))) => l,
        _ => unreachable!(),
    };
    if gs.is_empty() || lv == 0 {
        return Ok(());
    }
    let gi = rng.below(gs.len());
    let V::Struct(g) = &mut gs[gi] else { unreachable!() };
    let set = |s: &mut S, id: i16, v: V| {
        let e = s.0.iter_mut().find(|x| x.0 == id);
        match e {
            Some(e) => e.1 = v,
            None => {
                let at = s.0.iter().position(|x| x.0 > id).unwrap_or(s.0.len());
                s.0.insert(at, (id, v))
            }
        }
    };
    let neg = V::I64(*rng.pick(&[-1, i64::MIN, -1000]));
    let what = match rng.below(8) {
        0 => {
            set(g, 2, neg);
            "negative total byte size"
        }
        1 => {
            set(g, 3, neg);
            "negative row group rows"
        }
        k => {
            let V::List(_, cols) = &mut g.0[0].1 else { unreachable!() };
            if k == 2 {
                cols.pop();
                "missing column"
            } else if k == 3 {
                let x = cols[0].clone();
                cols.push(x);
                "extra column"
            } else {
                let i = rng.below(cols.len());
                let V::Struct(cc) = &mut cols[i] else { unreachable!() };
                if k == 4 {
                    cc.0.retain(|x| x.0 != 3);
                    "no column metadata"
                } else {
                    let V::Struct(md) = &mut cc.0.iter_mut().find(|x| x.0 == 3).unwrap().1 else { unreachable!() };
                    match k {
                        5 => {
                            set(md, 4, V::I32(*rng.pick(&[8, -1, 100, i32::MIN])));
                            "codec"
                        }
                        6 => {
                            set(md, 7, neg);
                            "negative compressed size"
                        }
                        _ => {
                            set(md, *rng.pick(&[9, 11]), neg);
                            "negative page offset"
                        }
                    }
                }
            }
        }
    };
    let b = with_footer(b"PAR1", &m.s);
    c.distinct(hash_bytes(&b));
    c.count(&format!("invalid:{what}"));
    c.eval();
    for (w, ok) in all_read(&b, b.len() as u64)? {
        ensure!(!ok, "metadata:invalid-accepted", "{w}: {what}");
    }
    Ok(())
}
/// the numbers the format gives to codecs, encodings, kinds of pages, orders and repetitions
fn codes(c: &mut Case) -> R {
    use parquet_format_safe as f;
    let x = match c.rng.below(4) {
        0 => *c.rng.pick(&[i32::MIN, i32::MAX, -1, 255, 256, 1 << 16]),
        _ => c.rng.range(0, 24) as i32 - 6,
    };
    macro_rules! one {
        ($what:literal, $lib:ty, $thrift:ident, $names:expr) => {{
            let names: &[&str] = &$names;
            let want = usize::try_from(x).ok().and_then(|i| names.get(i)).filter(|n| !n.is_empty());
            let got = <$lib>::try_from($thrift(x));
            match (&got, want) {
                (Ok(g), Some(w)) => {
                    ensure!(format!("{g:?}").starts_with(w), concat!("code:", $what), "{x} is read as {g:?}, not {w}");
                    let back: i32 = $thrift::from(*g).0;
                    ensure!(back == x, concat!("code-written:", $what), "{g:?} is written as {back}, not {x}");
                }
                (Err(_), None) => {}
                _ => fail!(concat!("code:", $what), "{x} is read as {got:?}, expected {want:?}"),
            }
            c.eval();
        }};
    }
    use f::{BoundaryOrder, CompressionCodec, Encoding, FieldRepetitionType, PageType};
    one!("codec", parquet2::compression::Compression, CompressionCodec, ["Uncompressed", "Snappy", "Gzip", "Lzo", "Brotli", "Lz4", "Zstd", "Lz4Raw"]);
    one!(
        "encoding",
        parquet2::encoding::Encoding,
        Encoding,
        ["Plain", "", "PlainDictionary", "Rle", "BitPacked", "DeltaBinaryPacked", "DeltaLengthByteArray", "DeltaByteArray", "RleDictionary", "ByteStreamSplit"]
    );
    one!("page", parquet2::page::PageType, PageType, ["DataPage", "", "DictionaryPage", "DataPageV2"]);
    one!("order", parquet2::indexes::BoundaryOrder, BoundaryOrder, ["Unordered", "Ascending", "Descending"]);
    one!("repetition", parquet2::schema::Repetition, FieldRepetitionType, ["Required", "Optional", "Repeated"]);
    // the codec of a choice of codec and level
    let o = all_codecs(&mut c.rng);
    let (a, b): (CompressionCodec, CompressionCodec) = (o.into(), parquet2::compression::Compression::from(o).into());
    ensure!(a.0 == codec_code(o) && b.0 == codec_code(o), "code:options", "{o:?} is {a:?} and {b:?}");
    // parts of metadata that a user can put together
    let (rows, bytes) = (c.rng.size(1000), c.rng.size(100000));
    let g = RowGroupMetaData::new(vec![], rows, bytes);
    ensure!((g.num_rows(), g.total_byte_size(), g.columns().len()) == (rows, bytes, 0), "row-group:new", "{g:?}");
    for s in [SortOrder::Signed, SortOrder::Unsigned, SortOrder::Undefined] {
        ensure!(ColumnOrder::TypeDefinedOrder(s).sort_order() == s, "column-order", "{s:?}");
    }
    ensure!(ColumnOrder::Undefined.sort_order() == SortOrder::Signed, "column-order", "undefined");
    c.distinct(x as u64 ^ hash_str(&format!("{o:?}")));
    Ok(())
}
pub fn prop15() -> Prop {
    Prop {
        id: "C15",
        rule: "random metadata (every field of the row groups and column chunks, extreme numbers, key-value pairs from none to tens of thousands, footers placed around the size of the first read and beyond) is stored by an independent writer and read in seven ways (seekable, known size, asynchronous, from bytes, via the stored structure, via a side-car, via serde), every field and accessor compared; what is given to the writers is read back; all truncations of small files, changes of magic and length and self-contradictory descriptions must be errors; distinct = hash of the footer",
        assumptions: &[
            "sorting columns, ordinals and encryption of the file are not modelled by the crate and are not compared",
            "a truncated file that happens to end in the magic, or a changed length that happens to frame plausible metadata, is not judged",
        ],
        families: vec![
            Family { name: "contents", quick: 6000, thorough: 300000, f: contents },
            Family { name: "sizes", quick: 1500, thorough: 60000, f: sizes },
            Family { name: "wide", quick: 150, thorough: 5000, f: wide },
            Family { name: "truncation", quick: 250, thorough: 12000, f: truncation },
            Family { name: "framing", quick: 8000, thorough: 400000, f: framing },
            Family { name: "writers", quick: 3000, thorough: 100000, f: writers },
            Family { name: "merged", quick: 2500, thorough: 80000, f: merged },
            Family { name: "merged-scaled", quick: 40, thorough: 1000, f: merged },
            Family { name: "serde", quick: 1500, thorough: 50000, f: serde },
            Family { name: "codes", quick: 400, thorough: 4000, f: codes },
            Family { name: "invalid", quick: 15000, thorough: 500000, f: invalid },
        ],
    }
}
