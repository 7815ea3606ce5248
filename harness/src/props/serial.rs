//! C27: what is serialised with serde is deserialised equal, in every kind of format.
use super::meta::*;
use super::schema::check_descriptor;
use super::select::{rand_sel, selected_group};
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::*;
use crate::model::thrift::{self, S};
use crate::props::c01::note;
use crate::readers::*;
use crate::rt::*;
use crate::tok::{self, Fmt, T};
use crate::{ensure, fail};
use parquet2::compression::Compression;
use parquet2::indexes::{select_pages, FilteredPage, Interval};
use parquet2::metadata::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::io::Cursor;

const FORMATS: [&str; 9] = ["json-text", "json-reader", "json-value", "json-pretty", "bincode", "bincode-varint", "cbor", "strict", "strict-other-layout"];
fn any_fmt(rng: &mut Rng) -> Fmt {
    Fmt { compact: rng.bool(), index: rng.bool(), owned: rng.below(3) as u8, human: rng.bool() }
}
/// through one format and back
fn trip<V: Serialize + DeserializeOwned>(c: &mut Case, v: &V, k: usize) -> R<V> {
    use bincode::Options;
    let f = any_fmt(&mut c.rng);
    let name = FORMATS[k];
    c.count(&format!("format:{name}"));
    let r = guarded("serde", || -> Result<V, String> {
        let e = |x: &dyn std::fmt::Display| format!("serialize: {x}");
        let d = |x: &dyn std::fmt::Display| format!("deserialize: {x}");
        match k {
            0 => serde_json::from_str(&serde_json::to_string(v).map_err(|x| e(&x))?).map_err(|x| d(&x)),
            1 => serde_json::from_reader(Cursor::new(serde_json::to_vec(v).map_err(|x| e(&x))?)).map_err(|x| d(&x)),
            2 => serde_json::from_value(serde_json::to_value(v).map_err(|x| e(&x))?).map_err(|x| d(&x)),
            3 => serde_json::from_slice(&serde_json::to_vec_pretty(v).map_err(|x| e(&x))?).map_err(|x| d(&x)),
            4 => bincode::deserialize(&bincode::serialize(v).map_err(|x| e(&x))?).map_err(|x| d(&x)),
            5 => {
                let o = bincode::DefaultOptions::new().with_big_endian();
                o.deserialize_from(Cursor::new(o.serialize(v).map_err(|x| e(&x))?)).map_err(|x| d(&x))
            }
            6 => {
                let mut b = vec![];
                ciborium::into_writer(v, &mut b).map_err(|x| e(&x))?;
                ciborium::from_reader(&b[..]).map_err(|x| d(&x))
            }
            _ => {
                let mut t = tok::to(v, f).map_err(|x| e(&x))?;
                if k == 8 {
                    relayout(&mut t, 0x5eed ^ f.owned as u64);
                }
                tok::from(&t, f).map_err(|x| d(&x))
            }
        }
    })?;
    c.eval();
    r.map_err(|x| failure(format!("serde:{}", x.split(':').next().unwrap()), format!("{name} {f:?}: {x}")))
}
/// the fields of every map in another order
fn relayout(t: &mut T, seed: u64) {
    match t {
        T::Some(x) | T::Variant(_, _, x) => relayout(x, seed),
        T::Seq(x) => x.iter_mut().for_each(|x| relayout(x, seed)),
        T::Map(x) => {
            let mut r = Rng::new(seed ^ x.len() as u64);
            r.shuffle(x);
            x.iter_mut().for_each(|x| relayout(&mut x.1, seed));
        }
        _ => {}
    }
}
fn equal<V: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, v: &V) -> R {
    for k in 0..FORMATS.len() {
        let x = trip(c, v, k)?;
        ensure!(&x == v, "serde:changed", "{}: {v:?} becomes {x:?}", FORMATS[k]);
    }
    Ok(())
}
fn chunk_of(c: &parquet_format_safe::ColumnChunk) -> R<Vec<u8>> {
    let mut b = vec![];
    must(c.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)), "write")?;
    Ok(b)
}
/// random metadata of a file
fn metadata(c: &mut Case) -> R {
    let z = *c.rng.pick(&[(6, 2), (12, 2), (2, 8), (1, 1)]);
    let m = rand_md(&mut c.rng, &Size { leaves: z.0, groups: z.1, kv: 2, kv_len: 5 });
    let (b, f) = file_of(c, &m);
    c.distinct(hash_bytes(&f));
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    let lv = leaves(&m.fields);
    for k in 0..FORMATS.len() {
        let w = |e: Fail| failure(e.sig, format!("{}: {}", FORMATS[k], e.msg));
        let d = trip(c, md.schema(), k)?;
        check_descriptor(&d, &m.name, &m.fields).map_err(w)?;
        let rgs = trip(c, &md.row_groups, k)?;
        ensure!(rgs.len() == md.row_groups.len(), "serde:row-groups", "{} of {}", rgs.len(), md.row_groups.len());
        for ((r, rg), g) in rgs.iter().zip(&md.row_groups).zip(m.s.list(4).unwrap()) {
            ensure!(r.num_rows() == rg.num_rows(), "serde:row-group", "{} rows, {} before", r.num_rows(), rg.num_rows());
            ensure!(r.total_byte_size() == rg.total_byte_size(), "serde:row-group", "{} bytes, {} before", r.total_byte_size(), rg.total_byte_size());
            ensure!(r.columns().len() == rg.columns().len(), "serde:row-group", "{} columns, {} before", r.columns().len(), rg.columns().len());
            ensure!(r.compressed_size() == rg.compressed_size(), "serde:row-group", "{} {}", r.compressed_size(), rg.compressed_size());
            let g = g.as_struct().unwrap();
            for (((e, cc), old), l) in g.list(1).unwrap().iter().zip(r.columns()).zip(rg.columns()).zip(&lv) {
                check_chunk_md(e.as_struct().unwrap(), cc, l).map_err(w)?;
                ensure!(cc.descriptor() == old.descriptor(), "serde:descriptor", "{:?} becomes {:?}", old.descriptor(), cc.descriptor());
                ensure!(chunk_of(&cc.clone().into_thrift())? == chunk_of(old.column_chunk())?, "serde:chunk", "{:?} becomes {:?}", old.column_chunk(), cc.column_chunk());
            }
        }
        // one chunk by itself, and twice
        if let Some(cc) = md.row_groups.first().and_then(|g| g.columns().first()) {
            let other = c.rng.below(FORMATS.len());
            let x = trip(c, cc, k)?;
            let x = trip(c, &x, other)?;
            let (a, b) = (chunk_of(x.column_chunk())?, chunk_of(cc.column_chunk())?);
            ensure!(a == b && x.descriptor() == cc.descriptor(), "serde:twice", "{cc:?} becomes {x:?}");
        }
    }
    Ok(())
}
/// every value of the small types, and random values of the others
fn types(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let n = rng.range(1, 6);
    let fields = rand_fields(rng, n, 3, true);
    let big = |rng: &mut Rng| -> usize {
        match rng.below(4) {
            0 => usize::MAX - rng.below(2),
            1 => (1 << 32) + rng.below(3),
            _ => rng.size(1 << 20),
        }
    };
    let iv: Vec<Interval> = (0..rng.size(6)).map(|_| Interval::new(big(rng), big(rng))).collect();
    let fp = FilteredPage {
        start: if rng.chance(1, 3) { u64::MAX - rng.below(5) as u64 } else { rng.u64() >> rng.below(64) },
        length: big(rng),
        selected_rows: iv.clone(),
        num_rows: big(rng),
    };
    let logical = rand_logical(rng);
    let decimal = PrimitiveConvertedType::Decimal(big(rng), big(rng));
    let fixed = PhysicalType::FixedLenByteArray(big(rng));
    let dec = PrimitiveLogicalType::Decimal(big(rng), big(rng));
    let which = rng.below(8);
    c.distinct(hash_str(&format!("{fields:?} {fp:?} {logical:?} {which}")));
    match which {
        0 => {
            equal(c, &fp)?;
            equal(c, &iv)?;
            equal(c, &vec![fp])?;
        }
        1 => {
            equal(c, &fields)?;
            let d = SchemaDescriptor::new("s".into(), fields);
            for x in d.columns().iter().take(3) {
                equal(c, x)?;
                equal(c, &x.descriptor)?;
                equal(c, &x.descriptor.primitive_type)?;
                equal(c, &x.descriptor.primitive_type.field_info)?;
            }
        }
        2 => {
            equal(c, &logical)?;
            equal(c, &Some(logical))?;
            equal(c, &dec)?;
            equal(c, &decimal)?;
            equal(c, &fixed)?;
            equal(c, &vec![Some(decimal), None])?;
        }
        3 => {
            use PrimitiveConvertedType::*;
            for x in [Utf8, Enum, Date, TimeMillis, TimeMicros, TimestampMillis, TimestampMicros, Uint8, Uint16, Uint32, Uint64, Int8, Int16, Int32, Int64, Json, Bson, Interval] {
                equal(c, &x)?;
            }
        }
        4 => {
            use PrimitiveLogicalType::*;
            for x in [String, Enum, Date, Unknown, Json, Bson, Uuid] {
                equal(c, &x)?;
            }
            for u in [TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds] {
                equal(c, &u)?;
                for is_adjusted_to_utc in [true, false] {
                    equal(c, &Time { unit: u, is_adjusted_to_utc })?;
                    equal(c, &Timestamp { unit: u, is_adjusted_to_utc })?;
                }
            }
            use IntegerType::*;
            for i in [Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64] {
                equal(c, &i)?;
                equal(c, &Integer(i))?;
            }
        }
        5 => {
            for x in [GroupConvertedType::Map, GroupConvertedType::List, GroupConvertedType::MapKeyValue] {
                equal(c, &x)?;
            }
            for x in [GroupLogicalType::Map, GroupLogicalType::List] {
                equal(c, &x)?;
            }
            for x in [Repetition::Required, Repetition::Optional, Repetition::Repeated] {
                equal(c, &x)?;
            }
        }
        6 => {
            for s in [SortOrder::Signed, SortOrder::Unsigned, SortOrder::Undefined] {
                equal(c, &s)?;
                equal(c, &ColumnOrder::TypeDefinedOrder(s))?;
            }
            equal(c, &ColumnOrder::Undefined)?;
            use Compression::*;
            for x in [Uncompressed, Snappy, Gzip, Lzo, Brotli, Lz4, Zstd, Lz4Raw] {
                equal(c, &x)?;
            }
        }
        _ => {
            use PhysicalType::*;
            for x in [Boolean, Int32, Int64, Int96, Float, Double, ByteArray, FixedLenByteArray(0), FixedLenByteArray(7)] {
                equal(c, &x)?;
                equal(c, &PrimitiveType::from_physical("é".into(), x))?;
            }
        }
    }
    Ok(())
}
/// the file is read with deserialised row groups and selections of pages
fn reading(c: &mut Case) -> R {
    let spec = gen_file(&mut c.rng, &Shape { max_leaves: 3, max_groups: 2, max_pages: 3, max_rows: 40, ..Default::default() });
    note(c, &spec);
    let b = write_sync(&spec, 0)?;
    let mut md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    let k = c.rng.below(FORMATS.len());
    md.row_groups = trip(c, &md.row_groups, k)?;
    let w = |e: Fail| failure(e.sig, format!("after {}: {}", FORMATS[k], e.msg));
    check_metadata(&spec, &md).map_err(w)?;
    for g in 0..spec.groups.len() {
        for ci in 0..spec.leaves.len() {
            let mode = *c.rng.pick(&[Mode::Decompressor, Mode::Basic, Mode::One]);
            let ch = read_chunk(&b, &md, g, ci, &spec.leaves[ci], mode).map_err(w)?;
            check_chunk_data(&ch, &spec.groups[g][ci]).map_err(w)?;
            c.eval();
        }
        let n = spec.group_rows(g);
        let locs = read_pages_locations(&mut Cursor::new(&b), md.row_groups[g].columns()).map_err(e2f("read_pages_locations"))?;
        if spec.write_stats {
            selected_group(c, &spec, &b, &md, g).map_err(w)?;
            for l in &locs {
                let sel = rand_sel(&mut c.rng, n);
                let p = select_pages(&sel, l, n).map_err(e2f("select_pages"))?;
                let k = c.rng.below(FORMATS.len());
                let x: Vec<FilteredPage> = trip(c, &p, k)?;
                ensure!(x == p, "serde:selection", "{}: {p:?} becomes {x:?}", FORMATS[k]);
            }
        }
    }
    Ok(())
}
/// altered serialised chunks are errors or chunks that can be used
fn altered(c: &mut Case) -> R {
    let m = rand_md(&mut c.rng, &Size { leaves: 2, groups: 1, kv: 1, kv_len: 5 });
    let (b, _) = file_of(c, &m);
    let md = must(read_metadata(&mut Cursor::new(&b)), "read_metadata")?;
    let Some(cc) = md.row_groups.first().and_then(|g| g.columns().first()) else { return Ok(()) };
    let e: &S = m.s.list(4).unwrap()[0].as_struct().unwrap().list(1).unwrap()[0].as_struct().unwrap();
    let mut e = e.clone();
    let rng = &mut c.rng;
    let what = rng.below(5);
    match what {
        0 | 1 => mutate_thrift(rng, &mut e, 1),
        2 => e.0.retain(|x| x.0 != 3),
        _ => {}
    }
    let mut raw = thrift::bytes(&e);
    if what >= 3 {
        if rng.chance(1, 4) {
            // a collection that claims to be enormous
            let at = rng.below(raw.len());
            raw.splice(at..(at + 1).min(raw.len()), [0xfcu8 & rng.u32() as u8 | 0xf0, 0xff, 0xff, 0xff, 0xff, 0x0f]);
        } else {
            mutate_bytes(rng, &mut raw);
        }
    }
    c.distinct(hash_bytes(&raw));
    let f = any_fmt(&mut c.rng);
    let mut t = tok::to(cc, f).map_err(|x| failure("serde:serialize", x.0))?;
    let n = raw.len();
    let slot = match &mut t {
        T::Seq(x) => &mut x[0],
        T::Map(x) => &mut x[0].1,
        x => fail!("serde:layout", "{x:?}"),
    };
    ensure!(matches!(slot, T::Bytes(_) | T::Seq(_)), "serde:layout", "{slot:?}");
    // as bytes, or as a sequence of numbers as in text formats
    *slot = if c.rng.bool() { T::Bytes(raw) } else { T::Seq(raw.into_iter().map(|x| T::I(x as i128)).collect()) };
    let (r, u) = measure(|| {
        guarded("deserialize", || {
            let r: Result<ColumnChunkMetaData, _> = tok::from(&t, f);
            r.ok().map(|x| {
                let _ = x.file_path();
                let _ = x.num_values();
                let _ = x.compression();
                let _ = x.byte_range();
                let _ = x.column_encoding().len();
                let _ = x.statistics().map(|x| x.is_ok());
                let _ = (x.data_page_offset(), x.dictionary_page_offset(), x.has_index_page());
                let _ = (x.compressed_size(), x.uncompressed_size());
            })
        })
    });
    let r = r.map_err(|e| failure("serde:crash", e.msg))?;
    c.eval();
    c.count(if r.is_some() { "altered:accepted" } else { "altered:error" });
    ensure!(u.peak <= 200 * n + 100_000, "serde:memory", "{} bytes to deserialise a chunk of {n} bytes", u.peak);
    Ok(())
}
pub fn prop27() -> Prop {
    Prop {
        id: "C27",
        rule: "every serialisable type (row groups, chunks, schemas and their parts, intervals, page selections, all enumerations; random and extreme contents) goes through nine serialised forms - JSON in four ways, bincode with fixed and variable integers, CBOR, and a strict self-written form that keeps bytes, sequences, maps, names and indices apart, in random layouts - and must come back equal to an independent description; files are read with deserialised row groups and selections; altered serialised chunks must be errors or usable, in bounded memory; distinct = hash of the metadata, value, file or altered chunk",
        assumptions: &["the stability of the serialised forms across versions of the crate is not judged"],
        families: vec![
            Family { name: "metadata", quick: 3000, thorough: 20000, f: metadata },
            Family { name: "types", quick: 18000, thorough: 100000, f: types },
            Family { name: "reading", quick: 10000, thorough: 60000, f: reading },
            Family { name: "altered", quick: 240000, thorough: 1000000, f: altered },
        ],
    }
}
