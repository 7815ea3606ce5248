//! C05-C08: every codec of `encoding` against the reference codecs of the harness.
use crate::gen::*;
use crate::model::enc::{self, Run};
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridEncoded, HybridRleDecoder};
use parquet2::encoding::*;

/// lengths around the boundaries of packs, miniblocks and blocks
fn len(rng: &mut Rng, max: usize) -> usize {
    match rng.below(8) {
        0 => rng.below(4),
        1..=3 => {
            let b = *rng.pick(&[8usize, 16, 24, 32, 40, 56, 64, 96, 128, 129, 192, 256, 257, 384, 512, 640, 1024]);
            let d = rng.below(3);
            (b + d).saturating_sub(1).min(max)
        }
        4..=6 => rng.below(200).min(max),
        _ => rng.below(max + 1),
    }
}
fn vals_w(rng: &mut Rng, w: usize, n: usize) -> Vec<u64> {
    let m = enc::mask(w);
    match rng.below(6) {
        0 => vec![m; n],
        1 => {
            let v = rng.u64() & m;
            vec![v; n]
        }
        2 => (0..n).map(|i| i as u64 & m).collect(),
        3 => (0..n).map(|_| *rng.pick(&[0, m, 1 & m, m >> 1])).collect(),
        4 => {
            // runs
            let mut o = vec![];
            while o.len() < n {
                let v = rng.u64() & m;
                let k = rng.size(70).max(1);
                o.extend(std::iter::repeat(v).take(k));
            }
            o.truncate(n);
            o
        }
        _ => (0..n).map(|_| rng.u64() & m).collect(),
    }
}
/// steps an iterator of known length `n`, checking the announced length at every step
fn drain_exact<T, I: Iterator<Item = T>>(mut it: I, n: usize, what: &str) -> R<Vec<T>> {
    let mut o = Vec::with_capacity(n);
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(
            lo == n - o.len() && hi == Some(n - o.len()),
            format!("length:{what}"),
            "{what} announces {lo:?}..{hi:?} items when {} are left of {n}",
            n - o.len()
        );
        match it.next() {
            Some(v) => {
                o.push(v);
                ensure!(o.len() <= n, format!("too-many:{what}"), "{what} yields more than {n} items");
            }
            None => break,
        }
    }
    ensure!(o.len() == n, format!("too-few:{what}"), "{what} yields {} items instead of {n}", o.len());
    ensure!(it.next().is_none(), format!("not-fused:{what}"), "{what} yields items after its end");
    Ok(o)
}
fn same<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T], sig: &str) -> R {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    fail!(sig, "differs at {i}: {:?} instead of {:?} (lengths {} and {})", a.get(i), b.get(i), a.len(), b.len())
}
fn oks<T>(v: Vec<Result<T, parquet2::error::Error>>, what: &str) -> R<Vec<T>> {
    v.into_iter().collect::<Result<Vec<_>, _>>().map_err(e2f(what))
}
fn key(c: &mut Case, w: usize, b: &[u8], n: usize) {
    c.distinct(hash_bytes(b) ^ mix((w * 1_000_003 + n) as u64));
    c.count(&format!("width:{w}"));
    c.add("values", n as u64);
}

// ---------------------------------------------------------------- C05
fn decode_hybrid(b: &[u8], w: usize, vals: &[u64], what: &str, c: &mut Case) -> R {
    let n = vals.len();
    let d = HybridRleDecoder::try_new(b, w as u32, n).map_err(e2f("HybridRleDecoder::try_new"))?;
    let got = oks(drain_exact(d, n, "HybridRleDecoder")?, "HybridRleDecoder")?;
    let want: Vec<u32> = vals.iter().map(|x| *x as u32).collect();
    same(&got, &want, &format!("hybrid:{what}"))?;
    c.eval();
    // a prefix only, and skipping instead of stepping
    let k = c.rng.below(n + 1);
    let d = HybridRleDecoder::try_new(b, w as u32, k).map_err(e2f("HybridRleDecoder::try_new"))?;
    let got = oks(drain_exact(d, k, "HybridRleDecoder(prefix)")?, "HybridRleDecoder")?;
    same(&got, &want[..k], &format!("hybrid-prefix:{what}"))?;
    let mut d = HybridRleDecoder::try_new(b, w as u32, n).map_err(e2f("HybridRleDecoder::try_new"))?;
    let mut at = 0;
    while at < n {
        let s = c.rng.size(40);
        let x = d.nth(s).transpose().map_err(e2f("HybridRleDecoder::nth"))?;
        ensure!(x == want.get(at + s).copied(), format!("hybrid-nth:{what}"), "nth({s}) at {at}: {x:?} instead of {:?}", want.get(at + s));
        at += s + 1;
        ensure!(d.len() == n.saturating_sub(at), format!("hybrid-nth-length:{what}"), "len {} after {at} of {n}", d.len());
    }
    // a clone taken half way continues alike
    let mut d = HybridRleDecoder::try_new(b, w as u32, n).map_err(e2f("HybridRleDecoder::try_new"))?;
    for _ in 0..k {
        d.next();
    }
    let e = oks(d.clone().collect(), "clone")?;
    same(&e, &want[k..], &format!("hybrid-clone:{what}"))?;
    // the raw runs denote the same values
    if w > 0 {
        let mut o: Vec<u64> = vec![];
        for r in hybrid_rle::Decoder::new(b, w) {
            match r.map_err(e2f("hybrid_rle::Decoder"))? {
                HybridEncoded::Bitpacked(p) => o.extend(enc::unpack(p, w, p.len() * 8 / w).unwrap()),
                HybridEncoded::Rle(v, k) => {
                    let mut a = [0u8; 8];
                    a[..v.len()].copy_from_slice(v);
                    let k = k.min(n + 8);
                    o.extend(std::iter::repeat(u64::from_le_bytes(a)).take(k))
                }
            }
        }
        ensure!(o.len() >= n, format!("hybrid-runs:{what}"), "the runs hold {} values of {n}", o.len());
        same(&o[..n], vals, &format!("hybrid-runs:{what}"))?;
    }
    c.evals(4);
    Ok(())
}
fn hybrid_encode(c: &mut Case) -> R {
    hybrid_encode_n(c, 2000)
}
fn hybrid_large(c: &mut Case) -> R {
    if c.rng.bool() {
        hybrid_encode_n(c, 150_000)
    } else {
        hybrid_runs_n(c, 150_000)
    }
}
fn hybrid_encode_n(c: &mut Case, max: usize) -> R {
    let w = (c.idx % 33) as usize;
    let n = if max > 10_000 { c.rng.below(max) } else { len(&mut c.rng, max) };
    let vals = vals_w(&mut c.rng, w, n);
    let pre = c.rng.below(3);
    let mut b = c.rng.bytes(pre);
    let before = b.clone();
    must(hybrid_rle::encode_u32(&mut b, vals.iter().map(|x| *x as u32), w as u32), "hybrid_rle::encode_u32")?;
    ensure!(b.starts_with(&before), "hybrid:appends", "what the buffer held was changed");
    let b = &b[pre..];
    key(c, w, b, n);
    c.sample(|| format!("width {w}, {n} values: {:?}", &vals[..n.min(20)]));
    let (want, used) = enc::hybrid_decode(b, w, n).map_err(|e| failure("hybrid:malformed", format!("width {w}, {n} values: {e}")))?;
    same(&want, &vals, "hybrid:encoded-values")?;
    if n > 0 {
        ensure!(used == b.len(), "hybrid:trailing", "{} bytes, {used} of them meaningful", b.len());
    }
    decode_hybrid(b, w, &vals, "own", c)
}
fn hybrid_runs(c: &mut Case) -> R {
    hybrid_runs_n(c, 1500)
}
fn hybrid_runs_n(c: &mut Case, max: usize) -> R {
    let w = (c.idx % 33) as usize;
    let n = if max > 10_000 { c.rng.below(max) } else { len(&mut c.rng, max) };
    let vals = vals_w(&mut c.rng, w, n);
    let mut runs = enc::random_runs(&vals, &mut c.rng);
    // runs longer than needed, and empty runs in between
    if c.rng.chance(1, 3) {
        match runs.last_mut() {
            Some(Run::Rle(_, k)) => *k += c.rng.size(1 << 20),
            Some(Run::Packed(v)) if v.len() % 8 == 0 => v.extend((0..8 * c.rng.range(0, 3)).map(|i| i as u64 & enc::mask(w))),
            _ => {}
        }
    }
    if c.rng.chance(1, 4) {
        let i = c.rng.below(runs.len() + 1);
        runs.insert(i, if c.rng.bool() { Run::Rle(enc::mask(w), 0) } else { Run::Packed(vec![]) });
    }
    let b = enc::hybrid_encode(&runs, w);
    key(c, w, &b, n);
    for r in &runs {
        c.count(if matches!(r, Run::Rle(..)) { "run:rle" } else { "run:packed" });
    }
    c.sample(|| format!("width {w}, runs {:?}", &runs[..runs.len().min(6)]));
    if w == 0 && !vals.is_empty() {
        // a width of zero is only zeros
        return decode_hybrid(&b, 0, &vec![0; n], "foreign", c);
    }
    decode_hybrid(&b, w, &vals, "foreign", c)
}
fn gen_bools(rng: &mut Rng, n: usize) -> Vec<bool> {
    vals_w(rng, 1, n).into_iter().map(|x| x == 1).collect()
}
fn bitmaps(c: &mut Case) -> R {
    let n = len(&mut c.rng, 3000);
    let v = gen_bools(&mut c.rng, n);
    let mut b = vec![];
    must(hybrid_rle::bitpacked_encode(&mut b, v.iter().copied()), "bitpacked_encode")?;
    let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
    ensure!(b == enc::pack(&u, 1), "bitmap:encoded", "{n} bits encode to {b:02x?}");
    key(c, 1, &b, n);
    c.sample(|| format!("{n} bits, bytes {:02x?}", &b[..b.len().min(20)]));
    for _ in 0..4 {
        let off = c.rng.below(n + 1);
        let k = c.rng.below(n - off + 1);
        let got = drain_exact(BitmapIter::new(&b, off, k), k, "BitmapIter")?;
        same(&got, &v[off..off + k], "bitmap:iterated")?;
        let mut it = BitmapIter::new(&b, off, k);
        let s = c.rng.below(k + 2);
        ensure!(it.nth(s) == v[off..off + k].get(s).copied(), "bitmap:nth", "offset {off}, length {k}, nth({s})");
        ensure!(it.size_hint().0 == k.saturating_sub(s + 1), "bitmap:nth-length", "offset {off}, length {k}, nth({s})");
        c.evals(2);
    }
    let mut b = vec![];
    must(hybrid_rle::encode_bool(&mut b, v.iter().copied()), "hybrid_rle::encode_bool")?;
    let (want, _) = enc::hybrid_decode(&b, 1, n).map_err(|e| failure("hybrid-bool:malformed", e))?;
    same(&want, &u, "hybrid-bool:encoded")?;
    decode_hybrid(&b, 1, &u, "bool", c)
}
pub fn prop05() -> Prop {
    Prop {
        id: "C05",
        rule: "sequences of every bit width 0..=32 are encoded by the crate and decoded by the reference, and random run structures are encoded by the reference and decoded by the crate (stepping, skipping, cloning, prefixes, raw runs); distinct = hash of (width, bytes, length)",
        assumptions: &["the reference hybrid codec follows the Parquet specification"],
        families: vec![
            Family { name: "encode", quick: 300000, thorough: 8000000, f: hybrid_encode },
            Family { name: "large", quick: 600, thorough: 15000, f: hybrid_large },
            Family { name: "runs", quick: 300000, thorough: 8000000, f: hybrid_runs },
            Family { name: "bitmaps", quick: 100000, thorough: 3000000, f: bitmaps },
        ],
    }
}

// ---------------------------------------------------------------- C06
trait U: bitpacked::Unpackable + PartialEq + std::fmt::Debug {
    const BITS: usize;
    fn of(x: u64) -> Self;
}
macro_rules! u {
    ($t:ty) => {
        impl U for $t {
            const BITS: usize = <$t>::BITS as usize;
            fn of(x: u64) -> Self {
                x as $t
            }
        }
    };
}
u!(u8);
u!(u16);
u!(u32);
u!(u64);
fn pack_t<T: U>(c: &mut Case, w: usize, max: usize) -> R {
    let n = if max > 10_000 { c.rng.below(max) } else { len(&mut c.rng, max) };
    let vals = vals_w(&mut c.rng, w, n);
    let t: Vec<T> = vals.iter().map(|x| T::of(*x)).collect();
    let exact = (n * w + 7) / 8;
    let pack = T::BITS * w / 8;
    let full = (n + T::BITS - 1) / T::BITS * pack;
    let extra = c.rng.below(3) * pack;
    let mut b = vec![0u8; full + extra];
    if w > 0 {
        // a width of zero has no packed form (the decoder refuses it, too)
        bitpacked::encode::<T>(&t, w, &mut b);
    }
    let want = enc::pack(&vals, w);
    key(c, w, &want, n);
    c.count(&format!("type:u{}", T::BITS));
    c.sample(|| format!("u{}, width {w}, {n} values {:?}", T::BITS, &vals[..n.min(12)]));
    ensure!(b[..exact] == want[..], format!("pack:u{}", T::BITS), "width {w}, {n} values");
    ensure!(b[exact..].iter().all(|x| *x == 0), format!("pack-tail:u{}", T::BITS), "bytes past the values were written");
    c.eval();
    // one pack
    let k = n.min(T::BITS);
    let mut p = vec![0u8; T::BITS * w / 8];
    bitpacked::encode_pack::<T>(&t[..k], w, &mut p);
    let mut pad = vals[..k].to_vec();
    pad.resize(T::BITS, 0);
    ensure!(p == enc::pack(&pad, w), format!("encode_pack:u{}", T::BITS), "width {w}, {k} values");
    // decoding, with and without padding, and with bytes that are not part of the values
    if w > 0 {
        let mut bufs = vec![want.clone(), b.clone()];
        let mut t2 = want.clone();
        let k = c.rng.size(70);
        t2.extend(c.rng.bytes(k));
        bufs.push(t2);
        // bits after the last value are not zero
        let mut dirty = want.clone();
        if n * w % 8 != 0 {
            *dirty.last_mut().unwrap() |= 0xffu8 << (n * w % 8);
            bufs.push(dirty);
        }
        for (i, b) in bufs.iter().enumerate() {
            let d = bitpacked::Decoder::<T>::try_new(b, w, n).map_err(e2f("bitpacked::Decoder::try_new"))?;
            let got = drain_exact(d.clone(), n, "bitpacked::Decoder")?;
            same(&got, &t, &format!("unpack:u{}", T::BITS)).map_err(|mut e| {
                e.msg = format!("buffer {i}, width {w}: {}", e.msg);
                e
            })?;
            let mut d = d;
            let mut at = 0;
            while at < n {
                let s = c.rng.size(80);
                let x = d.nth(s);
                ensure!(x == t.get(at + s).copied(), format!("nth:u{}", T::BITS), "width {w}: nth({s}) at {at} of {n}");
                at += s + 1;
                ensure!(d.size_hint() == (n.saturating_sub(at), Some(n.saturating_sub(at))), format!("nth-length:u{}", T::BITS), "width {w}: {:?} after {at} of {n}", d.size_hint());
            }
            c.evals(2);
        }
        // fewer values than are there
        let k = c.rng.below(n + 1);
        let d = bitpacked::Decoder::<T>::try_new(&want, w, k).map_err(e2f("bitpacked::Decoder::try_new"))?;
        same(&drain_exact(d, k, "bitpacked::Decoder(prefix)")?, &t[..k], &format!("unpack-prefix:u{}", T::BITS))?;
        // more values than the bytes can hold is an error
        let too = want.len() * 8 / w + 1;
        ensure!(bitpacked::Decoder::<T>::try_new(&want, w, too).is_err(), format!("overlong:u{}", T::BITS), "{too} values of {w} bits accepted from {} bytes", want.len());
        c.evals(2);
    }
    Ok(())
}
fn pack_any(c: &mut Case) -> R {
    pack_any_n(c, 1200)
}
fn pack_large(c: &mut Case) -> R {
    pack_any_n(c, 140_000)
}
fn pack_any_n(c: &mut Case, max: usize) -> R {
    // 9 + 17 + 33 + 65 combinations
    let i = (c.idx % 124) as usize;
    match i {
        0..=8 => pack_t::<u8>(c, i, max),
        9..=25 => pack_t::<u16>(c, i - 9, max),
        26..=58 => pack_t::<u32>(c, i - 26, max),
        _ => pack_t::<u64>(c, i - 59, max),
    }
}
pub fn prop06() -> Prop {
    Prop {
        id: "C06",
        rule: "all 124 combinations of type and width in turn, random values and lengths around pack boundaries, packed and unpacked against a bit-by-bit reference with exact, padded, trailing and dirty buffers; distinct = hash of (width, bytes, length)",
        assumptions: &["callers pack into zeroed buffers of a whole number of packs, as the crate's own encoders do"],
        families: vec![Family { name: "pack", quick: 800000, thorough: 20000000, f: pack_any }, Family { name: "large", quick: 496, thorough: 12400, f: pack_large }],
    }
}

// ---------------------------------------------------------------- C07
/// legal streams other writers produce: any block structure, wider than needed mini-blocks,
/// arbitrary widths for the mini-blocks that hold nothing
fn foreign_delta(rng: &mut Rng, vals: &[i64]) -> Vec<u8> {
    let minis = *rng.pick(&[1usize, 2, 4, 8, 16]);
    let per = *rng.pick(&[32usize, 64, 96, 128, 256]);
    let mut block = minis * per;
    while block % 128 != 0 {
        block += minis * per
    }
    let per = block / minis;
    let wide = rng.chance(1, 3);
    let garbage = rng.bool();
    let mut o = enc::uleb(block as u64);
    o.extend(enc::uleb(minis as u64));
    o.extend(enc::uleb(vals.len() as u64));
    o.extend(enc::zig(vals.first().copied().unwrap_or(0)));
    let d: Vec<i64> = vals.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    for blk in d.chunks(block) {
        let min = *blk.iter().min().unwrap();
        o.extend(enc::zig(min));
        let rel: Vec<u64> = blk.iter().map(|x| x.wrapping_sub(min) as u64).collect();
        let ws: Vec<usize> = (0..minis)
            .map(|i| match rel.chunks(per).nth(i) {
                Some(m) => {
                    let w = enc::width_for(*m.iter().max().unwrap());
                    if wide {
                        rng.range(w, 64)
                    } else {
                        w
                    }
                }
                None if garbage => rng.range(0, 255),
                None => 0,
            })
            .collect();
        o.extend(ws.iter().map(|w| *w as u8));
        for (m, w) in rel.chunks(per).zip(&ws) {
            let mut m = m.to_vec();
            m.resize(per, if garbage && *w > 0 { enc::mask(*w) } else { 0 });
            o.extend(enc::pack(&m, *w));
        }
    }
    o
}
/// one profile throughout, or segments that have nothing in common, or a constant with outliers
fn delta_vals(rng: &mut Rng, n: usize, c_profile: &mut String) -> Vec<i64> {
    match rng.below(4) {
        0 => {
            *c_profile = "segments".into();
            let mut o = vec![];
            while o.len() < n {
                let k = if rng.bool() { rng.range(1, 300) } else { *rng.pick(&[1usize, 31, 32, 33, 127, 128, 129, 256]) };
                let p = rand_prof(rng);
                o.extend(gen_i64s(rng, k, p));
            }
            o.truncate(n);
            o
        }
        1 => {
            *c_profile = "outliers".into();
            let v = rng.u64() as i64;
            let step = *rng.pick(&[0i64, 0, 1, -1, 1000, i64::MAX / 3]);
            let mut o: Vec<i64> = (0..n).map(|i| v.wrapping_add(step.wrapping_mul(i as i64))).collect();
            for _ in 0..rng.below(4) {
                if n > 0 {
                    let i = match rng.below(3) {
                        0 => rng.below(n),
                        1 => n - 1,
                        _ => (rng.below(n) / 128 * 128 + rng.below(3)).saturating_sub(1).min(n - 1),
                    };
                    o[i] = *rng.pick(&[i64::MIN, i64::MAX, 0, v.wrapping_add(1), v.wrapping_sub(1 << 40)]);
                }
            }
            o
        }
        _ => {
            let p = rand_prof(rng);
            *c_profile = format!("{p:?}");
            gen_i64s(rng, n, p)
        }
    }
}
fn decode_delta(c: &mut Case, b: &[u8], vals: &[i64], what: &str) -> R {
    let mut d = delta_bitpacked::Decoder::try_new(b).map_err(e2f("delta_bitpacked::Decoder::try_new"))?;
    let got = oks(drain_exact(d.by_ref(), vals.len(), "delta_bitpacked::Decoder")?, "delta_bitpacked::Decoder")?;
    same(&got, vals, &format!("delta:{what}"))?;
    ensure!(d.consumed_bytes() == b.len(), format!("delta-consumed:{what}"), "{} bytes reported as consumed of {} ({} values)", d.consumed_bytes(), b.len(), vals.len());
    // followed by other content
    let mut x = b.to_vec();
    let k = c.rng.size(40);
    x.extend(c.rng.bytes(k));
    let mut d = delta_bitpacked::Decoder::try_new(&x).map_err(e2f("delta_bitpacked::Decoder::try_new"))?;
    let got = oks(d.by_ref().collect(), "delta_bitpacked::Decoder")?;
    same(&got, vals, &format!("delta-trailing:{what}"))?;
    ensure!(d.consumed_bytes() == b.len(), format!("delta-consumed-trailing:{what}"), "{} bytes reported as consumed of {}", d.consumed_bytes(), b.len());
    c.evals(4);
    Ok(())
}
fn delta_own(c: &mut Case) -> R {
    let n = len(&mut c.rng, 3000);
    delta_own_n(c, n)
}
fn delta_large(c: &mut Case) -> R {
    let n = c.rng.below(200_000);
    if c.rng.bool() {
        delta_own_n(c, n)
    } else {
        delta_foreign_n(c, n)
    }
}
fn delta_own_n(c: &mut Case, n: usize) -> R {
    let mut p = String::new();
    let vals = delta_vals(&mut c.rng, n, &mut p);
    let pre = c.rng.below(3);
    let mut b = c.rng.bytes(pre);
    let before = b.clone();
    delta_bitpacked::encode(vals.iter().copied(), &mut b);
    ensure!(b.starts_with(&before), "delta:appends", "what the buffer held was changed");
    let b = &b[pre..];
    c.distinct(hash_bytes(b));
    c.add("values", n as u64);
    c.count(&format!("profile:{p}"));
    c.sample(|| format!("{n} values {:?}", &vals[..n.min(10)]));
    let (want, used) = enc::delta_decode(b).map_err(|e| failure("delta:malformed", format!("{n} values: {e}")))?;
    same(&want, &vals, "delta:encoded")?;
    ensure!(used == b.len(), "delta:trailing", "{} bytes written, {used} of them meaningful", b.len());
    // each miniblock is complete, as the format requires
    c.evals(2);
    decode_delta(c, b, &vals, "own")
}
fn delta_foreign(c: &mut Case) -> R {
    let n = len(&mut c.rng, 3000);
    delta_foreign_n(c, n)
}
fn delta_foreign_n(c: &mut Case, n: usize) -> R {
    let mut p = String::new();
    let vals = delta_vals(&mut c.rng, n, &mut p);
    c.count(&format!("profile:{p}"));
    let b = foreign_delta(&mut c.rng, &vals);
    let (want, used) = enc::delta_decode(&b).expect("reference");
    assert!(want == vals && used == b.len());
    c.distinct(hash_bytes(&b));
    c.add("values", n as u64);
    c.sample(|| format!("{n} values, header {:02x?}", &b[..b.len().min(8)]));
    decode_delta(c, &b, &vals, "foreign")
}
/// 32-bit writers wrap deltas at 32 bits; the low 32 bits of what is decoded are the values
fn delta_foreign32(c: &mut Case) -> R {
    let n = len(&mut c.rng, 1500);
    let vals: Vec<i64> = delta_vals(&mut c.rng, n, &mut String::new()).into_iter().map(|x| x as i32 as i64).collect();
    let (blk, minis) = *c.rng.pick(&[(128, 1), (128, 4), (256, 8), (512, 2)]);
    let b = enc::delta_encode(&vals, blk, minis, true);
    let mut d = delta_bitpacked::Decoder::try_new(&b).map_err(e2f("delta_bitpacked::Decoder::try_new"))?;
    let got = oks(drain_exact(d.by_ref(), n, "delta_bitpacked::Decoder")?, "delta_bitpacked::Decoder")?;
    let got: Vec<i32> = got.into_iter().map(|x| x as i32).collect();
    let want: Vec<i32> = vals.iter().map(|x| *x as i32).collect();
    same(&got, &want, "delta:foreign32")?;
    ensure!(d.consumed_bytes() == b.len(), "delta-consumed:foreign32", "{} of {}", d.consumed_bytes(), b.len());
    c.distinct(hash_bytes(&b));
    c.evals(2);
    Ok(())
}
pub fn prop07() -> Prop {
    Prop {
        id: "C07",
        rule: "sequences of 64-bit integers (constant, sequential, random magnitude, extreme) are encoded by the crate and decoded by the reference and by the crate; random legal block structures written by the reference are decoded by the crate, with counts and consumed bytes; distinct = hash of the encoded bytes",
        assumptions: &["the reference delta codec follows the Parquet specification"],
        families: vec![
            Family { name: "own", quick: 200000, thorough: 5000000, f: delta_own },
            Family { name: "foreign", quick: 200000, thorough: 5000000, f: delta_foreign },
            Family { name: "large", quick: 400, thorough: 10000, f: delta_large },
            Family { name: "foreign32", quick: 60000, thorough: 1500000, f: delta_foreign32 },
        ],
    }
}

// ---------------------------------------------------------------- C08
fn gen_strings(rng: &mut Rng) -> Vec<Val> {
    let n = len(rng, 700);
    match rng.below(5) {
        0 => {
            // growing and shrinking prefixes of one string
            let l = rng.range(1, 40);
            let s = rng.bytes(l);
            (0..n).map(|_| s[..rng.below(l + 1)].to_vec()).collect()
        }
        1 => {
            // edits of the previous one
            let mut cur: Val = vec![];
            (0..n)
                .map(|_| {
                    let k = rng.below(cur.len() + 1);
                    cur.truncate(k);
                    let m = rng.below(6);
                    cur.extend(rng.bytes(m).iter().map(|x| x & 1));
                    cur.clone()
                })
                .collect()
        }
        2 => vec![vec![]; n],
        _ => {
            let p = rand_prof(rng);
            gen_vals(rng, Ph::Ba, n, p)
        }
    }
}
fn strings(c: &mut Case) -> R {
    let v = gen_strings(&mut c.rng);
    strings_of(c, v)
}
/// many strings, or few that are long and share long prefixes
fn strings_large(c: &mut Case) -> R {
    let v: Vec<Val> = if c.rng.bool() {
        let n = c.rng.below(80_000);
        let l = c.rng.range(1, 12);
        let s = c.rng.bytes(l);
        let share = c.rng.bool();
        (0..n)
            .map(|_| {
                let mut v = if share { s[..c.rng.below(l + 1)].to_vec() } else { vec![] };
                let k = c.rng.size(6);
                v.extend(c.rng.bytes(k));
                v
            })
            .collect()
    } else {
        let l = *c.rng.pick(&[255usize, 256, 32_767, 65_535, 65_536, 70_000, 200_000]);
        let s = c.rng.bytes(l);
        (0..c.rng.range(1, 12))
            .map(|_| {
                let k = match c.rng.below(4) {
                    0 => c.rng.below(l + 1),
                    1 => l,
                    2 => l - 1,
                    _ => c.rng.below(l.min(300)),
                };
                let mut v = s[..k].to_vec();
                let k = *c.rng.pick(&[0usize, 0, 1, 20, 66_000]);
                let k = c.rng.below(k + 1);
                v.extend(c.rng.bytes(k));
                v
            })
            .collect()
    };
    strings_of(c, v)
}
fn strings_of(c: &mut Case, v: Vec<Val>) -> R {
    let n = v.len();
    let refs = || v.iter().map(|x| x.as_slice());
    c.distinct(hash_bytes(&enc::plain_ba(&v)));
    c.add("strings", n as u64);
    c.sample(|| format!("{n} strings {:02x?}", &v[..n.min(4)]));
    let pre = c.rng.below(3);
    let head = c.rng.bytes(pre);
    // delta-length
    let mut b = head.clone();
    delta_length_byte_array::encode(refs(), &mut b);
    ensure!(b.starts_with(&head), "delta-length:appends", "what the buffer held was changed");
    let b = &b[pre..];
    let want = enc::delta_length_decode(b).map_err(|e| failure("delta-length:malformed", e))?;
    same(&want, &v, "delta-length:encoded")?;
    for (bytes, who) in [(b.to_vec(), "own"), (enc::delta_length_encode(&v), "foreign")] {
        let d = delta_length_byte_array::Decoder::try_new(&bytes).map_err(e2f("delta_length_byte_array"))?;
        let mut d2 = delta_length_byte_array::Decoder::try_new(&bytes).map_err(e2f("delta_length_byte_array"))?;
        let lens = oks(d2.by_ref().collect(), "delta_length_byte_array")?;
        let l: Vec<i32> = v.iter().map(|x| x.len() as i32).collect();
        same(&lens, &l, &format!("delta-length-lengths:{who}"))?;
        ensure!(d2.values() == v.concat(), format!("delta-length-values:{who}"), "{n} strings");
        drop(d);
        same(&lib_delta_len(&bytes).map_err(e2f("delta_length_byte_array"))?, &v, &format!("delta-length:{who}"))?;
    }
    // delta byte array
    let mut b = head.clone();
    delta_byte_array::encode(refs(), &mut b);
    ensure!(b.starts_with(&head), "delta-ba:appends", "what the buffer held was changed");
    let b = &b[pre..];
    let want = enc::delta_ba_decode(b).map_err(|e| failure("delta-ba:malformed", e))?;
    same(&want, &v, "delta-ba:encoded")?;
    for (bytes, who) in [(b.to_vec(), "own"), (enc::delta_ba_encode(&v), "foreign")] {
        same(&lib_delta_ba(&bytes).map_err(e2f("delta_byte_array"))?, &v, &format!("delta-ba:{who}"))?;
    }
    // plain
    let mut b = enc::plain_ba(&v);
    let get = |b: &[u8], n: Option<usize>| -> R<Vec<Val>> { Ok(oks(plain_byte_array::BinaryIter::new(b, n).collect(), "BinaryIter")?.into_iter().map(|x| x.to_vec()).collect()) };
    same(&get(&b, None)?, &v, "plain:unknown-length")?;
    same(&get(&b, Some(n))?, &v, "plain:known-length")?;
    let it = plain_byte_array::BinaryIter::new(&b, Some(n));
    drain_exact(it, n, "BinaryIter")?;
    let k = c.rng.below(n + 1);
    same(&get(&b, Some(k))?, &v[..k], "plain:prefix")?;
    b.extend([1, 2, 3]);
    same(&get(&b, Some(n))?, &v, "plain:trailing")?;
    c.evals(11);
    Ok(())
}
fn ints(c: &mut Case) -> R {
    for _ in 0..64 {
        let s = c.rng.below(64);
        let v = match c.rng.below(4) {
            0 => (1u64 << s).wrapping_sub(c.rng.below(2) as u64),
            1 => !0u64 >> s,
            _ => c.rng.u64() >> s,
        };
        c.distinct(v);
        let want = enc::uleb(v);
        let mut b = [0u8; 10];
        let k = uleb128::encode(v, &mut b);
        ensure!(b[..k] == want[..], "uleb:encoded", "{v}: {:02x?}", &b[..k]);
        let tail = c.rng.below(4);
        let mut x = want.clone();
        x.extend(c.rng.bytes(tail));
        let r = uleb128::decode(&x).map_err(e2f("uleb128::decode"))?;
        ensure!(r == (v, want.len()), "uleb:decoded", "{v}: {r:?}");
        // overlong but valid forms denote the same value
        if want.len() < 9 {
            let mut x = want.clone();
            *x.last_mut().unwrap() |= 0x80;
            x.push(0);
            let r = uleb128::decode(&x).map_err(e2f("uleb128::decode(overlong)"))?;
            ensure!(r == (v, want.len() + 1), "uleb:overlong", "{v}: {r:?}");
        }
        ensure!(uleb128::decode(&want[..want.len() - 1]).is_err(), "uleb:truncated", "a truncated {v} is accepted");
        let i = v as i64;
        let want = enc::zig(i);
        let (b, k) = zigzag_leb128::encode(i);
        ensure!(b[..k] == want[..], "zigzag:encoded", "{i}: {:02x?}", &b[..k]);
        let mut x = want.clone();
        x.extend(c.rng.bytes(tail));
        let r = zigzag_leb128::decode(&x).map_err(e2f("zigzag_leb128::decode"))?;
        ensure!(r == (i, want.len()), "zigzag:decoded", "{i}: {r:?}");
        let n = c.rng.u32() as usize >> (s % 32);
        ensure!(ceil8(n) == (n + 7) / 8, "ceil8", "{n}: {}", ceil8(n));
        let w = c.rng.u32();
        let mut x = w.to_le_bytes().to_vec();
        x.extend(c.rng.bytes(tail));
        ensure!(get_length(&x) == Some(w as usize), "get_length", "{w}");
        ensure!(get_length(&x[..tail.min(3)]).is_none(), "get_length-short", "{tail}");
        c.evals(8);
    }
    Ok(())
}
pub fn prop08() -> Prop {
    Prop {
        id: "C08",
        rule: "sequences of byte strings (shared prefixes, strict prefixes, empties, random) are encoded by the crate and decoded by the reference, and the reverse; integers of every magnitude through the variable-length codecs; distinct = hash of the strings, or the integer",
        assumptions: &["the reference byte-array codecs follow the Parquet specification"],
        families: vec![
            Family { name: "strings", quick: 80000, thorough: 2500000, f: strings },
            Family { name: "large", quick: 240, thorough: 8000, f: strings_large },
            Family { name: "ints", quick: 20000, thorough: 600000, f: ints },
        ],
    }
}
