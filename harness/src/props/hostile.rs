//! C17 (file bytes), C18 (page contents), C19 (memory)
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::*;
use crate::model::thrift::{self, S, V};
use crate::model::{enc, pq};
use crate::readers::*;
use crate::rt::*;
use parquet2::indexes::Interval;
use parquet2::page::*;
use std::io::Cursor;

fn small(c: &mut Case) -> R<Vec<u8>> {
    let sh = Shape {
        max_leaves: 3,
        max_groups: 2,
        max_pages: 3,
        max_rows: 40,
        ..Default::default()
    };
    let spec = gen_file(&mut c.rng, &sh);
    let b = write_sync(&spec, 0)?;
    if c.rng.chance(1, 3) {
        if let Some(x) = add_bloom(&mut c.rng, &b) {
            return Ok(x);
        }
    }
    Ok(b)
}
/// page-size limit used by hostile runs
const MAX: usize = 1 << 20;
/// what an operation on a file of `len` bytes may use
fn bound(len: usize) -> usize {
    // every byte of a footer can announce an element of a list, of at most 500 bytes in memory
    (1 << 20) + 4 * MAX19 + 500 * len
}
/// page-size limit used when memory is measured
const MAX19: usize = 1 << 16;
fn run(c: &mut Case, b: &[u8], mem: bool) {
    c.distinct(hash_bytes(b));
    let bnd = bound(b.len());
    let mut o = Obs {
        c,
        bound: mem.then_some(bnd),
    };
    observe_file(&mut o, b, if mem { MAX19 } else { MAX });
}
fn footer_case(c: &mut Case, mem: bool) -> R {
    let b = small(c)?;
    let (mut f, start) = pq::footer(&b).map_err(|e| failure("harness", e))?;
    let n = c.rng.range(1, 4);
    mutate_thrift(&mut c.rng, &mut f, n);
    let b = with_footer(&b[..start], &f);
    c.sample(|| format!("file of {} bytes, footer {f:?}", b.len()));
    run(c, &b, mem);
    Ok(())
}
fn struct_case(c: &mut Case, mem: bool) -> R {
    let mut b = small(c)?;
    for _ in 0..c.rng.range(1, 2) {
        let s = structures(&b);
        if s.is_empty() {
            break;
        }
        let (p, n) = *c.rng.pick(&s);
        let Ok((mut t, _)) = thrift::parse(&b[p..p + n]) else { break };
        let k = c.rng.range(1, 3);
        mutate_thrift(&mut c.rng, &mut t, k);
        match splice_file(&b, p, n, &thrift::bytes(&t)) {
            Some(x) => b = x,
            None => break,
        }
    }
    c.sample(|| format!("file of {} bytes with a corrupted page header, index or bloom filter", b.len()));
    run(c, &b, mem);
    Ok(())
}
fn bytes_case(c: &mut Case, mem: bool) -> R {
    let mut b = small(c)?;
    match c.rng.below(6) {
        0 => {
            // only the data area
            if let Ok((_, start)) = pq::footer(&b) {
                let (mut x, f) = (b[..start].to_vec(), b[start..].to_vec());
                let n = x.len();
                for _ in 0..c.rng.range(1, 6) {
                    if n > 0 {
                        let i = c.rng.below(n);
                        x[i] = c.rng.u32() as u8;
                    }
                }
                x.extend(f);
                b = x;
            }
        }
        1 => {
            // the framing
            let n = b.len();
            let i = n - 1 - c.rng.below(8);
            b[i] = c.rng.u32() as u8;
        }
        2 => {
            let n = c.rng.size(200);
            let mut x = c.rng.bytes(n);
            x.extend(((c.rng.below(n + 1)) as u32).to_le_bytes());
            x.extend(b"PAR1");
            b = x;
        }
        _ => mutate_bytes(&mut c.rng, &mut b),
    }
    c.sample(|| format!("file of {} bytes", b.len()));
    run(c, &b, mem);
    Ok(())
}
/// any bytes given to the structure readers
fn raw_thrift_case(c: &mut Case, mem: bool) -> R {
    let b = small(c)?;
    let (f, _) = pq::footer(&b).map_err(|e| failure("harness", e))?;
    let mut t = thrift::bytes(&f);
    mutate_bytes(&mut c.rng, &mut t);
    c.distinct(hash_bytes(&t));
    let limit = *c.rng.pick(&[64usize, 1024, 100_000, t.len() * 2 + 1024]);
    let bnd = 64 * limit + 200 * t.len() + (1 << 20);
    let mut o = Obs {
        c,
        bound: mem.then_some(bnd),
    };
    if let Some(md) = o.res("deserialize_metadata", || parquet2::read::deserialize_metadata(&t[..], limit)) {
        observe_metadata(&mut o, &md);
    }
    Ok(())
}
/// deep and adversarial schemas
fn schema_case(c: &mut Case, mem: bool) -> R {
    let rng = &mut c.rng;
    let kind = rng.below(5);
    let mut els: Vec<S> = vec![];
    let g = |name: &str, n: i32, rep: Option<i32>| {
        let s = S::new();
        let s = if let Some(r) = rep { s.with(3, V::I32(r)) } else { s };
        s.with(4, thrift::s(name)).with(5, V::I32(n))
    };
    let leaf = |name: &str| S::new().with(1, V::I32(1)).with(3, V::I32(1)).with(4, thrift::s(name));
    match kind {
        0 => {
            // a chain of nested groups
            let d = *rng.pick(&[10usize, 100, 1000, 10_000, 30_000]);
            els.push(g("r", 1, None));
            for _ in 0..d {
                els.push(g("g", 1, Some(rng.below(3) as i32)));
            }
            els.push(leaf("x"));
        }
        1 => {
            // announced children
            els.push(g("r", ext(rng), None));
            for _ in 0..rng.below(5) {
                els.push(g("g", ext(rng), Some(1)));
                els.push(leaf("x"));
            }
        }
        2 => {
            let d = *rng.pick(&[200usize, 20_000]);
            els.push(g("r", d as i32, None));
            for _ in 0..d {
                els.push(leaf(""));
            }
        }
        3 => {
            els.push(g("r", 2, None));
            for _ in 0..rng.range(1, 6) {
                els.push(g("g", rng.below(4) as i32 - 1, Some(rng.below(4) as i32)));
                els.push(leaf("x"));
            }
        }
        _ => {
            // chain whose levels exceed what 16 bits hold
            let d = *rng.pick(&[32_766usize, 32_767, 32_768, 40_000, 66_000]);
            els.push(g("r", 1, None));
            for _ in 0..d {
                els.push(g("", 1, Some(2)));
            }
            els.push(leaf("x"));
        }
    }
    let f = S::new()
        .with(1, V::I32(1))
        .with(2, thrift::slist(els))
        .with(3, V::I64(0))
        .with(4, V::List(12, vec![]));
    let b = with_footer(b"PAR1", &f);
    c.sample(|| format!("schema kind {kind}, {} bytes", b.len()));
    run(c, &b, mem);
    Ok(())
}
/// one group with many leaves
fn wide19(c: &mut Case) -> R {
    let n = *c.rng.pick(&[300usize, 800, 1500]);
    let mut els = vec![
        S::new().with(4, thrift::s("r")).with(5, V::I32(1)),
        S::new().with(3, V::I32(0)).with(4, thrift::s("g")).with(5, V::I32(n as i32)),
    ];
    for i in 0..n {
        els.push(S::new().with(1, V::I32(1)).with(3, V::I32(1)).with(4, thrift::s(&format!("{i}"))));
    }
    let f = S::new().with(1, V::I32(1)).with(2, thrift::slist(els)).with(3, V::I64(0)).with(4, V::List(12, vec![]));
    let b = with_footer(b"PAR1", &f);
    c.distinct(n as u64);
    c.eval();
    let (r, u) = measure(|| guarded("read_metadata", || parquet2::read::read_metadata(&mut Cursor::new(&b)).map(|m| m.schema().columns().len())));
    crate::ensure!(matches!(r?, Ok(x) if x == n), "wide-group-unreadable", "a group of {n} leaves");
    crate::ensure!(
        u.peak <= bound(b.len()),
        "wide-group-quadratic",
        "the footer of {} bytes ({n} leaves in one group) took {} bytes to read, allowed {}",
        b.len(),
        u.peak,
        bound(b.len())
    );
    Ok(())
}
fn ext(rng: &mut Rng) -> i32 {
    *rng.pick(&[0, 1, 2, 3, -1, i32::MAX, i32::MIN, 1000])
}
/// many pages without values, all of them filtered: iteration must not recurse
fn many_pages(c: &mut Case, mem: bool) -> R {
    let n = *c.rng.pick(&[2_000usize, 60_000, 150_000]);
    let v2 = c.rng.bool();
    let h = if v2 {
        S::new().with(1, V::I32(3)).with(2, V::I32(0)).with(3, V::I32(0)).with(
            8,
            V::Struct(
                S::new()
                    .with(1, V::I32(0))
                    .with(2, V::I32(0))
                    .with(3, V::I32(0))
                    .with(4, V::I32(0))
                    .with(5, V::I32(0))
                    .with(6, V::I32(0)),
            ),
        )
    } else {
        S::new().with(1, V::I32(0)).with(2, V::I32(0)).with(3, V::I32(0)).with(
            5,
            V::Struct(S::new().with(1, V::I32(0)).with(2, V::I32(0)).with(3, V::I32(3)).with(4, V::I32(3))),
        )
    };
    let h = thrift::bytes(&h);
    let mut body = b"PAR1".to_vec();
    for _ in 0..n {
        body.extend(&h)
    }
    let els = vec![
        S::new().with(4, thrift::s("r")).with(5, V::I32(1)),
        S::new().with(1, V::I32(1)).with(3, V::I32(0)).with(4, thrift::s("x")),
    ];
    let loc = |i: usize| {
        S::new()
            .with(1, V::I64((4 + i * h.len()) as i64))
            .with(2, V::I32(h.len() as i32))
            .with(3, V::I64(0))
    };
    let oi_off = body.len();
    let oi = thrift::bytes(&S::new().with(1, thrift::slist((0..n).map(loc))));
    body.extend(&oi);
    let md = S::new()
        .with(1, V::I32(1))
        .with(2, thrift::ilist([0]))
        .with(3, thrift::blist([b"x".to_vec()]))
        .with(4, V::I32(0))
        .with(5, V::I64(1))
        .with(6, V::I64((n * h.len()) as i64))
        .with(7, V::I64((n * h.len()) as i64))
        .with(9, V::I64(4));
    let cc = S::new()
        .with(2, V::I64(4))
        .with(3, V::Struct(md))
        .with(4, V::I64(oi_off as i64))
        .with(5, V::I32(oi.len() as i32));
    let rg = S::new().with(1, thrift::slist([cc])).with(2, V::I64(0)).with(3, V::I64(0));
    let f = S::new()
        .with(1, V::I32(1))
        .with(2, thrift::slist(els))
        .with(3, V::I64(0))
        .with(4, thrift::slist([rg]));
    let b = with_footer(&body, &f);
    c.sample(|| format!("{n} empty pages, v2={v2}, {} bytes", b.len()));
    run(c, &b, mem);
    Ok(())
}
macro_rules! fam {
    ($a:ident, $f:ident, $m:expr) => {
        fn $a(c: &mut Case) -> R {
            $f(c, $m)
        }
    };
}
fam!(footer17, footer_case, false);
fam!(struct17, struct_case, false);
fam!(bytes17, bytes_case, false);
fam!(raw17, raw_thrift_case, false);
fam!(schema17, schema_case, false);
fam!(many17, many_pages, false);
fam!(footer19, footer_case, true);
fam!(struct19, struct_case, true);
fam!(bytes19, bytes_case, true);
fam!(raw19, raw_thrift_case, true);
fam!(schema19, schema_case, true);
fam!(many19, many_pages, true);

/// compressed bytes of every codec, corrupted, against every output size
fn codecs17(c: &mut Case) -> R {
    use parquet2::compression::*;
    let rng = &mut c.rng;
    let n = rng.size(600);
    let data = if rng.bool() { rng.bytes(n) } else { vec![7; n] };
    let opt = all_codecs(rng);
    let mut z = vec![];
    if compress(opt, &data, &mut z).is_err() {
        let k = rng.size(50);
        z = rng.bytes(k);
    }
    if rng.chance(3, 4) {
        mutate_bytes(rng, &mut z);
    }
    let mut comp: Compression = opt.into();
    if rng.chance(1, 4) {
        // Hadoop framing around it
        comp = Compression::Lz4;
        let mut h = vec![];
        for _ in 0..rng.range(1, 3) {
            h.extend((ext(rng) as u32 ^ n as u32).to_be_bytes());
            h.extend((if rng.bool() { z.len() as u32 } else { ext(rng) as u32 }).to_be_bytes());
            h.extend(&z);
        }
        z = h;
    }
    if rng.chance(1, 10) {
        comp = *rng.pick(&[Compression::Lzo, Compression::Uncompressed, Compression::Snappy, Compression::Zstd, Compression::Lz4, Compression::Lz4Raw, Compression::Gzip, Compression::Brotli]);
    }
    let size = match rng.below(4) {
        0 => n,
        1 => 0,
        2 => rng.size(1000),
        _ => n + rng.below(3),
    };
    let mut out = vec![0; size];
    c.distinct(hash_bytes(&z) ^ size as u64);
    c.sample(|| format!("{comp:?} {} bytes -> {size}", z.len()));
    let mut o = Obs { c, bound: None };
    o.res("decompress-bytes", || decompress(comp, &z, &mut out));
    Ok(())
}
/// statistics and column indexes given as structures
fn stats17(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let ph = rand_ph(rng);
    let rep = rand_repetition(rng);
    let t = rand_primitive(rng, "x".into(), rep, ph, true);
    let lv = leaves(&[t]);
    let opt = |rng: &mut Rng| {
        if rng.chance(1, 3) {
            None
        } else {
            let w = ph.width().unwrap_or(5);
            let n = match rng.below(4) {
                0 => rng.below(20),
                1 => w.saturating_sub(1),
                _ => w,
            };
            Some(rng.bytes(n))
        }
    };
    let s = parquet2::statistics::ParquetStatistics {
        max: opt(rng),
        min: opt(rng),
        null_count: Some(rng.u64() as i64),
        distinct_count: if rng.bool() { Some(rng.u64() as i64) } else { None },
        max_value: opt(rng),
        min_value: opt(rng),
    };
    c.distinct(hash_bytes(format!("{s:?}{ph:?}").as_bytes()));
    c.sample(|| format!("{ph:?} {s:?}"));
    let p = lv[0].prim.clone();
    let mut o = Obs { c, bound: None };
    o.res("deserialize_statistics", || {
        parquet2::statistics::deserialize_statistics(&s, p).map(|x| parquet2::statistics::serialize_statistics(&*x))
    });
    Ok(())
}
pub fn prop17() -> Prop {
    Prop {
        id: "C17",
        rule: "valid files (random schemas, codecs, indexes, bloom filters) are corrupted in their thrift structures, framing and data; every reader of the crate runs on the result under a panic, stack and CPU monitor; distinct = hash of the corrupted bytes",
        assumptions: &["a case may use up to 40 s of CPU before it counts as a hang", "8 MiB of stack"],
        families: vec![
            Family { name: "footer", quick: 12000, thorough: 300000, f: footer17 },
            Family { name: "structures", quick: 12000, thorough: 300000, f: struct17 },
            Family { name: "bytes", quick: 8000, thorough: 200000, f: bytes17 },
            Family { name: "raw-thrift", quick: 8000, thorough: 200000, f: raw17 },
            Family { name: "schema", quick: 200, thorough: 2000, f: schema17 },
            Family { name: "many-pages", quick: 24, thorough: 100, f: many17 },
            Family { name: "codecs", quick: 10000, thorough: 300000, f: codecs17 },
            Family { name: "statistics", quick: 5000, thorough: 100000, f: stats17 },
        ],
    }
}
// ---------------------------------------------------------------- C18
fn rand_sel(rng: &mut Rng, n: usize) -> Vec<Interval> {
    let mut v = vec![];
    let mut p = 0;
    while p < n && v.len() < 6 {
        p += rng.below(5);
        if p >= n {
            break;
        }
        let l = rng.range(1, (n - p).min(20));
        v.push(Interval::new(p, l));
        p += l;
    }
    v
}
fn page_case(c: &mut Case, corrupt: bool) -> R {
    let rng = &mut c.rng;
    let fields = rand_fields(rng, 1, rng.clone().below(3), false);
    let lv = leaves(&fields);
    let leaf = &lv[0];
    let rows = rng.size(200);
    let prof = rand_prof(rng);
    let d = gen_page(rng, leaf.max_rep, leaf.max_def, leaf.ph, rows, prof);
    let e = *rng.pick(encodings_for(leaf.ph));
    let dict = dictionarize(&d.vals).0;
    let v2 = rng.bool();
    let via = if rng.bool() { Via::Lib } else { Via::Ref };
    let st = rng.bool().then(|| page_stats(leaf, &d));
    let p = data_page(rng, leaf, &d, e, &dict, v2, via, st);
    let mut buf = p.buffer().to_vec();
    let mut header = p.header().clone();
    if corrupt {
        if rng.chance(4, 5) {
            mutate_bytes(rng, &mut buf);
        }
        if rng.chance(1, 3) {
            let x = |rng: &mut Rng, old: i32| match rng.below(8) {
                0 => 0,
                1 => -1,
                2 => i32::MAX,
                3 => i32::MIN,
                4 => old.wrapping_add(1),
                5 => old.wrapping_sub(1),
                6 => old.wrapping_mul(2),
                _ => rng.u32() as i32 >> rng.below(31),
            };
            match &mut header {
                DataPageHeader::V1(h) => h.num_values = x(rng, h.num_values),
                DataPageHeader::V2(h) => match rng.below(3) {
                    0 => h.num_values = x(rng, h.num_values),
                    1 => h.definition_levels_byte_length = x(rng, h.definition_levels_byte_length),
                    _ => h.repetition_levels_byte_length = x(rng, h.repetition_levels_byte_length),
                },
            }
        }
        if rng.chance(1, 6) {
            // another encoding declared
            let e = *rng.pick(&[EncK::Plain, EncK::RleDict, EncK::PlainDict, EncK::Delta, EncK::RleBool]);
            match &mut header {
                DataPageHeader::V1(h) => h.encoding = e.to().into(),
                DataPageHeader::V2(h) => h.encoding = e.to().into(),
            }
        }
    }
    let page = DataPage::new(header, buf, leaf.descriptor(), None);
    let sel = rand_sel(rng, rows);
    c.distinct(hash_bytes(page.buffer()) ^ hash_str(&format!("{:?}", page.header())));
    c.sample(|| format!("{:?} {:?} rep{} def{} {:?} body {:?}", leaf.ph, e, leaf.max_rep, leaf.max_def, page.header(), page.buffer()));
    let mut o = Obs { c, bound: None };
    observe_page(&mut o, &page, leaf, &dict, &sel);
    Ok(())
}
fn pages18(c: &mut Case) -> R {
    page_case(c, true)
}
fn decoders18(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let n = rng.size(300);
    let w = rng.range(0, 32);
    let prof = rand_prof(rng);
    let mut b = match rng.below(6) {
        0 => {
            let k = rng.size(40);
            rng.bytes(k)
        }
        1 => {
            let v = gen_i64s(rng, n, prof);
            enc::delta_encode(&v, 128, *rng.pick(&[1, 2, 4]), false)
        }
        2 => {
            let v = gen_vals(rng, Ph::Ba, n, prof);
            enc::delta_length_encode(&v)
        }
        3 => {
            let v = gen_vals(rng, Ph::Ba, n, prof);
            enc::delta_ba_encode(&v)
        }
        4 => {
            let v = gen_vals(rng, Ph::Ba, n, prof);
            enc::plain_ba(&v)
        }
        _ => {
            let v: Vec<u64> = (0..n).map(|_| rng.u64() & enc::mask(w)).collect();
            enc::hybrid_encode(&enc::random_runs(&v, rng), w)
        }
    };
    if rng.chance(5, 6) {
        mutate_bytes(rng, &mut b);
    }
    if rng.chance(1, 8) {
        // an adversarial delta header
        let mut h = vec![];
        for _ in 0..4 {
            let v = *rng.pick(&[0u64, 1, 7, 8, 32, 128, 129, 1 << 31, u64::MAX, u64::MAX - 127, 1 << 63, 4, 256]);
            h.extend(enc::uleb(v));
        }
        h.extend(&b);
        b = h;
    }
    let width = if rng.chance(3, 4) { w } else { *rng.pick(&[0, 1, 2, 8, 31, 32, 33, 63, 64]) } as u32;
    let m = match rng.below(5) {
        0 => 0,
        1 => usize::MAX,
        2 => n,
        3 => 1 << 40,
        _ => rng.size(1000),
    };
    c.distinct(hash_bytes(&b) ^ width as u64 ^ (m as u64) << 20);
    c.sample(|| format!("width {width} count {m} bytes {b:?}"));
    let mut o = Obs { c, bound: None };
    observe_decoders(&mut o, &b, width, m);
    Ok(())
}
/// very long sequences of empty runs: stepping must not recurse
fn empty_runs18(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let n = *rng.pick(&[1000usize, 100_000, 400_000]);
    let w = rng.range(1, 9);
    let mut b = vec![];
    for i in 0..n {
        match rng.below(2) {
            0 => {
                b.push(0); // repeated run of length zero
                b.extend(vec![1u8; (w + 7) / 8]);
            }
            _ if i % 3 == 0 => b.push(1), // bit-packed run of zero groups
            _ => {
                b.push(0);
                b.extend(vec![0u8; (w + 7) / 8]);
            }
        }
    }
    b.push(20);
    b.extend(vec![1u8; (w + 7) / 8]);
    c.distinct(hash_bytes(&b));
    c.sample(|| format!("{n} empty runs of width {w}"));
    let mut o = Obs { c, bound: None };
    use parquet2::encoding::hybrid_rle::HybridRleDecoder;
    let m = 10;
    o.res("HybridRleDecoder", || HybridRleDecoder::try_new(&b, w as u32, m).and_then(|d| d.take(LIMIT).collect::<Result<Vec<_>, _>>()));
    observe_decoders(&mut o, &b, w as u32, m);
    // the same as levels of a page
    let t = rand_primitive(&mut o.c.rng, "x".into(), parquet2::schema::Repetition::Optional, Ph::I32, false);
    let lv = leaves(&[t]);
    let mut buf = (b.len() as u32).to_le_bytes().to_vec();
    buf.extend(&b);
    buf.extend([0; 40]);
    let d = PageData { rows: 10, reps: vec![0; 10], defs: vec![1; 10], vals: vec![vec![0; 4]; 10] };
    let p = data_page(&mut o.c.rng, &lv[0], &d, EncK::Plain, &[], false, Via::Lib, None);
    let page = DataPage::new(p.header().clone(), buf, lv[0].descriptor(), None);
    observe_page(&mut o, &page, &lv[0], &[], &[Interval::new(2, 3), Interval::new(7, 2)]);
    Ok(())
}
/// row selections with many runs and many intervals
fn selections18(c: &mut Case) -> R {
    use parquet2::deserialize::*;
    use parquet2::encoding::hybrid_rle;
    use std::collections::VecDeque;
    let rng = &mut c.rng;
    let big = rng.chance(1, 20);
    let n = if big { 300_000 } else { rng.size(300) };
    let mut b = vec![];
    let mut k = 0;
    while k < n {
        let l = if big { 1 } else { rng.range(1, 20) };
        b.extend(enc::uleb((l as u64) << 1));
        b.push(rng.below(2) as u8);
        k += l;
    }
    let mut sel = vec![];
    let mut p = 0;
    while p < k + 10 {
        let l = rng.below(4);
        sel.push(Interval::new(p, l));
        p += l + if big { k / 3 } else { rng.below(10) };
    }
    c.distinct(hash_bytes(&b) ^ hash_str(&format!("{sel:?}")));
    c.sample(|| format!("{k} levels, intervals {:?}", &sel[..sel.len().min(8)]));
    let mut o = Obs { c, bound: None };
    o.res("FilteredHybridRleDecoderIter", || {
        let it = HybridRleIter::new(hybrid_rle::Decoder::new(&b, 1), k);
        let mut n = 0;
        for r in FilteredHybridRleDecoderIter::new(it, VecDeque::from(sel.clone())).take(2_000_000) {
            n += r?.len();
        }
        Ok(n)
    });
    o.op("SliceFilteredIter", || SliceFilteredIter::new(0..k, VecDeque::from(sel.clone())).take(2_000_000).count());
    Ok(())
}
pub fn prop18() -> Prop {
    Prop {
        id: "C18",
        rule: "pages of every type, encoding and version, and encoded value streams, are corrupted in body and header; every splitter, level decoder, value decoder and page state steps over them (at most 20000 items each) under a panic, stack and CPU monitor; distinct = hash of bytes and header",
        assumptions: &["decoders that announce their own count are stepped at most 20000 times"],
        families: vec![
            Family { name: "pages", quick: 160000, thorough: 1000000, f: pages18 },
            Family { name: "decoders", quick: 160000, thorough: 1000000, f: decoders18 },
            Family { name: "empty-runs", quick: 16, thorough: 100, f: empty_runs18 },
            Family { name: "selections", quick: 8000, thorough: 40000, f: selections18 },
        ],
    }
}
// ---------------------------------------------------------------- C19
/// headers that announce much more than there is
fn announce19(c: &mut Case) -> R {
    let b = small(c)?;
    let s = structures(&b);
    let (mut f, start) = pq::footer(&b).map_err(|e| failure("harness", e))?;
    let rng = &mut c.rng;
    let huge = |rng: &mut Rng| *rng.pick(&[i32::MAX, i32::MAX - 1, 1 << 30, (1 << 20) + 1, 100_000_000]);
    let out = if rng.bool() && !s.is_empty() {
        let (p, n) = *rng.pick(&s);
        let Ok((mut t, _)) = thrift::parse(&b[p..p + n]) else { return Ok(()) };
        for (id, v) in t.0.iter_mut() {
            if let V::I32(x) = v {
                if *id != 1 || rng.bool() {
                    *x = huge(rng)
                }
            }
        }
        splice_file(&b, p, n, &thrift::bytes(&t))
    } else {
        // lengths and sizes of the footer
        for (_, v) in f.0.iter_mut().filter(|x| x.0 == 4) {
            big_ints(rng, v);
        }
        Some(with_footer(&b[..start], &f))
    };
    let Some(out) = out else { return Ok(()) };
    c.sample(|| format!("file of {} bytes announcing huge sizes", out.len()));
    run(c, &out, true);
    Ok(())
}
fn big_ints(rng: &mut Rng, v: &mut V) {
    match v {
        V::I32(x) if rng.chance(1, 4) && *x > 10 => *x = i32::MAX,
        V::I64(x) if rng.chance(1, 8) => *x = *rng.pick(&[i64::MAX, i32::MAX as i64, 1 << 33]),
        V::List(_, l) => l.iter_mut().for_each(|x| big_ints(rng, x)),
        V::Struct(s) => s.0.iter_mut().for_each(|x| big_ints(rng, &mut x.1)),
        _ => {}
    }
}
/// lists that announce more elements than present, at every depth
fn lists19(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let field = *rng.pick(&[2i16, 4, 5, 7]);
    let mut b = vec![];
    // a compact-protocol footer cut after the header of a list
    let prefix = S::new().with(1, V::I32(1));
    let t = thrift::bytes(&prefix);
    b.extend(&t[..t.len() - 1]);
    b.push((((field - 1) as u8) << 4) | 9);
    let el = *rng.pick(&[12u8, 8, 5, 3, 9]);
    b.push(0xf0 | el);
    b.extend(enc::uleb(*rng.pick(&[u32::MAX as u64, i32::MAX as u64, 1 << 24, 1 << 20])));
    let n = rng.size(300);
    b.extend(rng.bytes(n));
    let limit = *rng.pick(&[1024usize, 100_000, 1 << 20]);
    c.distinct(hash_bytes(&b));
    c.sample(|| format!("list of field {field} elements of type {el}, limit {limit}"));
    let mut o = Obs { c, bound: Some(64 * limit + (1 << 20)) };
    o.res("deserialize_metadata", || parquet2::read::deserialize_metadata(&b[..], limit));
    // the same bytes as a page header and as indexes
    o.res("page-header", || {
        use parquet2::read::*;
        let m = PageMetaData::new(0, 10, parquet2::compression::Compression::Uncompressed, leaves(&[rand_primitive(&mut Rng::new(1), "x".into(), parquet2::schema::Repetition::Optional, Ph::I32, false)])[0].descriptor());
        let r = PageReader::new_with_page_meta(Cursor::new(&b), m, std::sync::Arc::new(|_, _| true), vec![], limit);
        for p in r.take(5) {
            p?;
        }
        Ok(())
    });
    Ok(())
}
/// a page whose declared sizes exceed the limit must be refused before memory is allocated for it
fn limit19(c: &mut Case) -> R {
    use parquet2::read::*;
    let rng = &mut c.rng;
    let n = rng.range(1, 4000);
    let prof = rand_prof(rng);
    let ph = *rng.pick(&[Ph::I32, Ph::I64, Ph::Ba]);
    let t = rand_primitive(rng, "x".into(), parquet2::schema::Repetition::Required, ph, false);
    let lv = leaves(&[t]);
    let leaf = &lv[0];
    let d = gen_page(rng, 0, 0, ph, n, prof);
    let v2 = rng.bool();
    let p = data_page(rng, leaf, &d, EncK::Plain, &[], v2, Via::Lib, None);
    let opt = all_codecs(rng);
    let z = must(parquet2::write::compress(Page::Data(p), vec![], opt), "compress")?;
    let (unc, body) = match &z {
        CompressedPage::Data(d) => (d.uncompressed_size(), d.compressed_size()),
        _ => unreachable!(),
    };
    let spec = FileSpec {
        name: "s".into(),
        fields: vec![],
        leaves: lv.clone(),
        groups: vec![],
        write_stats: false,
        v2: false,
        created_by: None,
        kv: None,
    };
    let _ = spec;
    let lie = c.rng.chance(1, 3);
    let declared = if lie { *c.rng.pick(&[1 << 29, 1 << 28, 1 << 24]) } else { unc };
    let h = if v2 {
        S::new()
            .with(1, V::I32(3))
            .with(2, V::I32(declared as i32))
            .with(3, V::I32(body as i32))
            .with(8, V::Struct(S::new().with(1, V::I32(n as i32)).with(2, V::I32(0)).with(3, V::I32(n as i32)).with(4, V::I32(0)).with(5, V::I32(0)).with(6, V::I32(0))))
    } else {
        S::new().with(1, V::I32(0)).with(2, V::I32(declared as i32)).with(3, V::I32(body as i32)).with(
            5,
            V::Struct(S::new().with(1, V::I32(n as i32)).with(2, V::I32(0)).with(3, V::I32(3)).with(4, V::I32(3))),
        )
    };
    let mut b = thrift::bytes(&h);
    // the body itself is not needed to judge the limit: zeros
    b.extend(vec![0; body]);
    let limit = match c.rng.below(4) {
        0 => declared.min(body).saturating_sub(1),
        1 => body,
        2 => declared.max(body),
        _ => c.rng.below(declared.max(body).min(1 << 20) + 10),
    }
    .max(64);
    c.distinct(hash_bytes(&b[..b.len().min(60)]) ^ limit as u64);
    c.sample(|| format!("{:?} declared {declared} compressed {body} limit {limit}", opt));
    let m = PageMetaData::new(0, n as i64, opt.into(), leaf.descriptor());
    let run = |limit: usize| {
        let r = PageReader::new_with_page_meta(Cursor::new(&b), m.clone(), std::sync::Arc::new(|_, _| true), vec![], limit);
        let mut d = Decompressor::new(r, vec![]);
        use parquet2::FallibleStreamingIterator;
        d.next().map(|p| p.is_some())
    };
    let (r, u) = measure(|| guarded("page-limit", || run(limit)));
    let r = r?;
    c.eval();
    c.count(if r.is_ok() { "limit:ok" } else { "limit:err" });
    if body > limit {
        crate::ensure!(
            r.is_err(),
            "limit-not-enforced",
            "a page of {body} compressed bytes was read with a limit of {limit}"
        );
    }
    // decompressors keep their own windows: brotli up to 16 MiB, zstd up to 8 MiB
    let window = if limit >= body { 40 << 20 } else { 0 };
    let mem = |allowed: usize| u.peak.max(u.max_request) <= 2 * allowed + window + 64 * 1024 + 4 * b.len();
    let allowed = if body > limit { limit } else { limit.max(declared) };
    crate::ensure!(
        mem(allowed),
        "limit-exceeded",
        "peak {} request {} with a limit of {limit} (page {body}/{declared})",
        u.peak,
        u.max_request
    );
    if body <= limit && declared > limit && (r.is_ok() || !mem(limit)) {
        let f: R = Err(crate::rt::failure(
            "uncompressed-limit-not-enforced",
            format!("with a limit of {limit}, a page of {body} compressed bytes that declares {declared} uncompressed bytes was not refused: {} bytes were requested",
            u.max_request),
        ));
        c.soft(f);
    }
    // async
    let r2 = block(async {
        use futures::StreamExt;
        let col = col_for(leaf, n, opt, body);
        let mut rd = futures::io::Cursor::new(&b);
        let s = get_page_stream_from_column_start(&col, &mut rd, vec![], std::sync::Arc::new(|_, _| true), limit).await?;
        futures::pin_mut!(s);
        s.next().await.transpose().map(|x| x.is_some())
    });
    if body > limit {
        crate::ensure!(r2.is_err(), "limit-not-enforced-async", "limit {limit} page {body}/{declared}");
    }
    Ok(())
}
/// a limit that no page of a file exceeds refuses nothing; one byte less refuses the largest page
fn tight19(c: &mut Case) -> R {
    use futures::StreamExt;
    use parquet2::read::*;
    let spec = gen_file(&mut c.rng, &Shape { max_leaves: 2, max_groups: 1, min_groups: 1, max_pages: 4, max_rows: 900, ..Default::default() });
    let b = write_sync(&spec, 0)?;
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    for col in md.row_groups[0].columns() {
        let (start, len) = col.byte_range();
        let pages = pq::pages(&b, start as usize, len as usize).map_err(|e| failure("harness", e))?;
        if pages.is_empty() {
            continue;
        }
        // (pages without values at the end are not read)
        let all = get_page_iterator(col, Cursor::new(&b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?.count();
        let pages = &pages[..all];
        if all == 0 {
            continue;
        }
        let largest = pages.iter().map(|p| p.body.len()).max().unwrap();
        let declared = pages.iter().map(|p| p.header.i32(2).unwrap() as usize).max().unwrap();
        let header = pages.iter().map(|p| 4 * p.header_len + 100).max().unwrap();
        let limit = largest.max(declared).max(header);
        let mut limits = vec![limit];
        if largest > header {
            c.count("tight");
            limits.push(largest - 1);
        }
        c.distinct(largest as u64 ^ hash_bytes(&b));
        for limit in limits {
            let sync = guarded("pages", || -> Result<usize, parquet2::error::Error> {
                let mut n = 0;
                for p in get_page_iterator(col, Cursor::new(&b), None, vec![], limit)? {
                    p?;
                    n += 1;
                }
                Ok(n)
            })?;
            let stream = guarded("stream", || {
                block(async {
                    let mut rd = futures::io::Cursor::new(&b);
                    let s = get_page_stream(col, &mut rd, vec![], std::sync::Arc::new(|_, _| true), limit).await?;
                    futures::pin_mut!(s);
                    let mut n = 0;
                    while let Some(p) = s.next().await {
                        p?;
                        n += 1;
                    }
                    Ok::<usize, parquet2::error::Error>(n)
                })
            })?;
            for (way, r) in [("PageReader", sync), ("stream", stream)] {
                c.eval();
                if limit < largest {
                    crate::ensure!(r.is_err(), "limit-not-enforced", "{way}: {r:?} with a limit of {limit} and a page of {largest} bytes");
                } else {
                    crate::ensure!(
                        matches!(&r, Ok(n) if *n == all),
                        "limit-refuses",
                        "{way}: {r:?} with a limit of {limit}; the largest of {all} pages has {largest} bytes ({declared} uncompressed)"
                    );
                }
            }
        }
    }
    Ok(())
}
pub fn col_for(leaf: &Leaf, n: usize, opt: parquet2::compression::CompressionOptions, size: usize) -> parquet2::metadata::ColumnChunkMetaData {
    use parquet2::metadata::*;
    use parquet_format_safe as t;
    let cc = t::ColumnChunk {
        file_path: None,
        file_offset: 0,
        meta_data: Some(t::ColumnMetaData {
            type_: t::Type(leaf.ph.code()),
            encodings: vec![],
            path_in_schema: leaf.path.clone(),
            codec: t::CompressionCodec(codec_code(opt)),
            num_values: n as i64,
            total_uncompressed_size: size as i64,
            total_compressed_size: size as i64,
            key_value_metadata: None,
            data_page_offset: 0,
            index_page_offset: None,
            dictionary_page_offset: None,
            statistics: None,
            encoding_stats: None,
            bloom_filter_offset: None,
        }),
        offset_index_offset: None,
        offset_index_length: None,
        column_index_offset: None,
        column_index_length: None,
        crypto_metadata: None,
        encrypted_column_metadata: None,
    };
    ColumnChunkMetaData::new(
        cc,
        ColumnDescriptor::new(leaf.descriptor(), leaf.path.clone(), parquet2::schema::types::ParquetType::PrimitiveType(leaf.prim.clone())),
    )
}
pub fn prop19() -> Prop {
    Prop {
        id: "C19",
        rule: "corrupted files and structures announcing more than they hold are read while an instrumented allocator records the peak and the largest request of every operation; distinct = hash of the bytes",
        assumptions: &["allowed per operation: 1 MiB + 4 x page limit + 200 bytes per byte of input (plus brotli's window, 16 MiB, when the file uses it)"],
        families: vec![
            Family { name: "footer", quick: 6000, thorough: 150000, f: footer19 },
            Family { name: "structures", quick: 6000, thorough: 150000, f: struct19 },
            Family { name: "bytes", quick: 4000, thorough: 100000, f: bytes19 },
            Family { name: "raw-thrift", quick: 4000, thorough: 100000, f: raw19 },
            Family { name: "schema", quick: 100, thorough: 1000, f: schema19 },
            Family { name: "many-pages", quick: 8, thorough: 50, f: many19 },
            Family { name: "wide-group", quick: 6, thorough: 20, f: wide19 },
            Family { name: "announce", quick: 6000, thorough: 150000, f: announce19 },
            Family { name: "lists", quick: 3000, thorough: 60000, f: lists19 },
            Family { name: "limit", quick: 4000, thorough: 100000, f: limit19 },
            Family { name: "tight-limit", quick: 3000, thorough: 100000, f: tight19 },
        ],
    }
}
