//! C04: compression codecs.
use crate::gen::*;
use crate::model::{enc, pq};
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::*;
use std::io::{Read, Write};

fn data(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(10) {
        0 => rng.below(3),
        1..=5 => rng.below(400),
        6 | 7 => rng.below(9000),
        8 => {
            let b = *rng.pick(&[64usize, 256, 4096, 16384, 32768, 65536, 131072]);
            (b + rng.below(3)).saturating_sub(1)
        }
        _ => rng.below(max),
    };
    let n = n.min(max);
    match rng.below(6) {
        0 => vec![rng.u32() as u8; n],
        1 => rng.bytes(n),
        2 => (0..n).map(|i| (i / 7) as u8).collect(),
        3 => {
            let k = rng.range(1, 300);
            let p = rng.bytes(k);
            p.iter().copied().cycle().take(n).collect()
        }
        4 => (0..n).map(|_| b'a' + (rng.below(3)) as u8).collect(),
        _ => {
            // alternating runs, random parts and far repetitions
            let mut o: Vec<u8> = vec![];
            while o.len() < n {
                let k = rng.size(400).max(1);
                match rng.below(3) {
                    0 => o.extend(rng.bytes(k)),
                    1 => {
                        let b = rng.u32() as u8;
                        o.extend(std::iter::repeat(b).take(k))
                    }
                    _ if !o.is_empty() => {
                        let s = rng.below(o.len());
                        let e = (s + k).min(o.len());
                        o.extend_from_within(s..e)
                    }
                    _ => {}
                }
            }
            o.truncate(n);
            o
        }
    }
}
fn options(rng: &mut Rng, i: u64, small: bool) -> CompressionOptions {
    use CompressionOptions::*;
    match i % 5 {
        0 => Snappy,
        1 => Gzip(if rng.chance(1, 5) { None } else { Some(GzipLevel::try_new(rng.below(11) as u8).unwrap()) }),
        2 => Brotli(if rng.chance(1, 5) {
            None
        } else {
            Some(BrotliLevel::try_new(rng.below(if small { 12 } else { 6 }) as u32).unwrap())
        }),
        3 => Zstd(if rng.chance(1, 5) {
            None
        } else {
            Some(ZstdLevel::try_new(rng.range(1, if small { 22 } else { 8 }) as i32).unwrap())
        }),
        _ => Lz4Raw,
    }
}
fn of(code: i32) -> Compression {
    match code {
        1 => Compression::Snappy,
        2 => Compression::Gzip,
        4 => Compression::Brotli,
        5 => Compression::Lz4,
        6 => Compression::Zstd,
        _ => Compression::Lz4Raw,
    }
}
/// decompression into a buffer of the right size holding other content, and into buffers of wrong sizes
fn check_decompress(c: &mut Case, codec: Compression, z: &[u8], d: &[u8], who: &str) -> R {
    let name = format!("{codec:?}").to_lowercase();
    let mut o = c.rng.bytes(d.len());
    must(decompress(codec, z, &mut o), &format!("decompress-{name}-{who}"))?;
    ensure!(o == d, format!("decompress:{name}:{who}"), "{} bytes of {} differ from the original", name, d.len());
    c.eval();
    for delta in [-1i64, 1, -(c.rng.range(1, 40) as i64), c.rng.range(2, 2000) as i64, -(d.len() as i64)] {
        let m = d.len() as i64 + delta;
        if m < 0 || m as usize == d.len() {
            continue;
        }
        let mut o = vec![0xa5u8; m as usize];
        if decompress(codec, z, &mut o).is_ok() {
            fail!(format!("wrong-size-accepted:{name}"), "{} bytes of {name} data were accepted as {m} bytes", d.len());
        }
        c.eval();
    }
    Ok(())
}
fn roundtrip_n(c: &mut Case, max: usize) -> R {
    let d = data(&mut c.rng, max);
    let idx = c.idx;
    let o = options(&mut c.rng, idx, d.len() < 2000);
    let name = codec_name(o);
    c.count(&format!("codec:{name}"));
    c.add("bytes", d.len() as u64);
    c.distinct(hash_bytes(&d) ^ hash_str(&format!("{o:?}")));
    c.sample(|| format!("{o:?}, {} bytes {:02x?}", d.len(), &d[..d.len().min(12)]));
    let k = *c.rng.pick(&[0usize, 0, 1, 7, 300]);
    let mut b = c.rng.bytes(k);
    let before = b.clone();
    must(compress(o, &d, &mut b), &format!("compress-{name}"))?;
    ensure!(b.len() >= k && b[..k] == before[..], format!("compress-appends:{name}"), "what the buffer held was changed");
    let z = &b[k..];
    match guarded(&format!("inflate-{name}"), || pq::inflate(codec_code(o), z, d.len()))? {
        Ok(x) => ensure!(x == d, format!("compress:{name}"), "an independent decoder reads other bytes"),
        Err(e) => fail!(format!("compress-malformed:{name}"), "{} bytes: {e}", d.len()),
    }
    c.evals(2);
    check_decompress(c, of(codec_code(o)), z, &d, "own")
}
fn roundtrip(c: &mut Case) -> R {
    roundtrip_n(c, 120_000)
}
fn roundtrip_large(c: &mut Case) -> R {
    roundtrip_n(c, 3_000_000)
}

// ------------------------------------------------------------ other encoders
fn matches(d: &[u8], i: usize, table: &mut std::collections::HashMap<[u8; 4], usize>, maxoff: usize) -> Option<(usize, usize)> {
    if i + 4 > d.len() {
        return None;
    }
    let k: [u8; 4] = d[i..i + 4].try_into().unwrap();
    let r = table.insert(k, i);
    let p = r?;
    if i - p > maxoff {
        return None;
    }
    let mut l = 4;
    while i + l < d.len() && d[p + l] == d[i + l] {
        l += 1
    }
    Some((i - p, l))
}
pub fn snappy_encode(rng: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut o = enc::uleb(d.len() as u64);
    fn lit(rng: &mut Rng, o: &mut Vec<u8>, mut l: &[u8]) {
        while !l.is_empty() {
            let k = if rng.chance(1, 4) { rng.range(1, l.len()) } else { l.len() };
            let (a, b) = l.split_at(k);
            l = b;
            let n = a.len() - 1;
            let min = if n < 60 { 0 } else { (64 - (n as u64).leading_zeros() as usize + 7) / 8 };
            let nb = if rng.chance(1, 4) { rng.range(min.max(1), 4) } else { min };
            if nb == 0 {
                o.push((n as u8) << 2)
            } else {
                o.push((59 + nb as u8) << 2);
                o.extend_from_slice(&(n as u64).to_le_bytes()[..nb]);
            }
            o.extend_from_slice(a);
        }
    }
    let mut t = Default::default();
    let (mut i, mut s) = (0, 0);
    while i < d.len() {
        match matches(d, i, &mut t, usize::MAX) {
            Some((off, l)) if rng.chance(9, 10) => {
                lit(rng, &mut o, &d[s..i]);
                let mut left = l;
                while left > 0 {
                    let k = left.min(64);
                    let k = if rng.chance(1, 4) { rng.range(1, k) } else { k };
                    if (4..=11).contains(&k) && off < 2048 && rng.chance(2, 3) {
                        o.push(1 | ((k - 4) as u8) << 2 | ((off >> 8) as u8) << 5);
                        o.push(off as u8);
                    } else if off < 65536 && rng.chance(4, 5) {
                        o.push(2 | ((k - 1) as u8) << 2);
                        o.extend_from_slice(&(off as u16).to_le_bytes());
                    } else {
                        o.push(3 | ((k - 1) as u8) << 2);
                        o.extend_from_slice(&(off as u32).to_le_bytes());
                    }
                    left -= k;
                }
                i += l;
                s = i;
            }
            _ => i += 1,
        }
    }
    lit(rng, &mut o, &d[s..]);
    o
}
pub fn lz4_encode(rng: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    fn seq(o: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
        let ml = m.map(|x| x.1 - 4).unwrap_or(0);
        o.push((lit.len().min(15) as u8) << 4 | ml.min(15) as u8);
        let ext = |o: &mut Vec<u8>, mut r: usize| {
            while r >= 255 {
                o.push(255);
                r -= 255
            }
            o.push(r as u8);
        };
        if lit.len() >= 15 {
            ext(o, lit.len() - 15)
        }
        o.extend_from_slice(lit);
        if let Some((off, _)) = m {
            o.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 {
                ext(o, ml - 15)
            }
        }
    }
    let mut t = Default::default();
    let (mut i, mut s) = (0, 0);
    // the last match starts 12 bytes before the end at the latest, and the last 5 bytes are literals
    while i + 12 < d.len() {
        match matches(d, i, &mut t, 65535) {
            Some((off, l)) if rng.chance(9, 10) => {
                let l = l.min(d.len() - 5 - i);
                seq(&mut o, &d[s..i], Some((off, l)));
                i += l;
                s = i;
            }
            _ => i += 1,
        }
    }
    seq(&mut o, &d[s..], None);
    o
}
fn gzip_member(rng: &mut Rng, d: &[u8]) -> Vec<u8> {
    let lvl = flate2::Compression::new(rng.below(10) as u32);
    let mut b = flate2::GzBuilder::new();
    if rng.bool() {
        b = b.filename("a name").mtime(12345);
    }
    if rng.bool() {
        b = b.comment("c").extra(vec![1, 2, 3]);
    }
    let mut w = b.write(vec![], lvl);
    let k = rng.below(d.len() + 1);
    w.write_all(&d[..k]).unwrap();
    if rng.bool() {
        w.flush().unwrap();
    }
    w.write_all(&d[k..]).unwrap();
    w.finish().unwrap()
}
fn cut<'a>(rng: &mut Rng, d: &'a [u8], max: usize) -> Vec<&'a [u8]> {
    let n = rng.range(1, max);
    let mut p: Vec<usize> = (1..n).map(|_| rng.below(d.len() + 1)).collect();
    p.push(0);
    p.push(d.len());
    p.sort();
    p.windows(2).map(|w| &d[w[0]..w[1]]).collect()
}
/// `d` as another encoder would compress it, with all of the freedom of the format
pub fn foreign_encode(rng: &mut Rng, which: u64, d: &[u8]) -> (Compression, Vec<u8>, &'static str) {
    match which {
        0 => (Compression::Snappy, snappy_encode(rng, d), "snappy"),
        1 => {
            let parts = cut(rng, d, 4);
            let many = parts.len() > 1;
            let mut z = vec![];
            for p in parts {
                z.extend(gzip_member(rng, p))
            }
            (Compression::Gzip, z, if many { "gzip-members" } else { "gzip" })
        }
        2 => {
            let mut z = vec![];
            let q = rng.below(10) as u32;
            let w = rng.range(10, 24) as u32;
            {
                let mut e = brotli::CompressorWriter::new(&mut z, 512, q, w);
                let k = rng.below(d.len() + 1);
                e.write_all(&d[..k]).unwrap();
                if rng.bool() {
                    e.flush().unwrap();
                }
                e.write_all(&d[k..]).unwrap();
            }
            (Compression::Brotli, z, "brotli")
        }
        3 => {
            let mut z = vec![];
            let parts = cut(rng, d, 3);
            let many = parts.len() > 1;
            for p in parts {
                let lvl = rng.range(1, 12) as i32;
                let mut e = zstd::Encoder::new(vec![], lvl).unwrap();
                e.include_checksum(rng.bool()).unwrap();
                e.include_contentsize(rng.bool()).unwrap();
                e.write_all(p).unwrap();
                z.extend(e.finish().unwrap());
            }
            (Compression::Zstd, z, if many { "zstd-frames" } else { "zstd" })
        }
        4 => (Compression::Lz4Raw, if rng.chance(1, 4) { enc::lz4_block_literal(d) } else { lz4_encode(rng, d) }, "lz4-raw"),
        _ => {
            if rng.chance(1, 4) {
                (Compression::Lz4, lz4_encode(rng, d), "lz4-without-frames")
            } else {
                let mut z = vec![];
                let parts = cut(rng, d, 6);
                let many = parts.len() > 1;
                for p in parts {
                    let b = if rng.chance(1, 4) { enc::lz4_block_literal(p) } else { lz4_encode(rng, p) };
                    z.extend_from_slice(&(p.len() as u32).to_be_bytes());
                    z.extend_from_slice(&(b.len() as u32).to_be_bytes());
                    z.extend(b);
                }
                (Compression::Lz4, z, if many { "lz4-hadoop-frames" } else { "lz4-hadoop" })
            }
        }
    }
}
fn foreign_n(c: &mut Case, max: usize) -> R {
    let d = data(&mut c.rng, max);
    let (codec, z, what) = foreign_encode(&mut c.rng, c.idx % 6, &d);
    c.count(&format!("foreign:{what}"));
    c.add("bytes", d.len() as u64);
    c.distinct(hash_bytes(&z) ^ hash_str(what));
    c.sample(|| format!("{what}, {} bytes -> {}", d.len(), z.len()));
    check_decompress(c, codec, &z, &d, what)
}
fn foreign(c: &mut Case) -> R {
    foreign_n(c, 60_000)
}
/// checksummed formats: a flipped bit never yields other data; all: a truncated block is never accepted
fn damaged(c: &mut Case) -> R {
    let d = data(&mut c.rng, 5000);
    if d.is_empty() {
        return Ok(());
    }
    let idx = c.idx;
    let o = options(&mut c.rng, idx, true);
    let name = codec_name(o);
    let mut z = vec![];
    must(compress(o, &d, &mut z), "compress")?;
    let codec = of(codec_code(o));
    for _ in 0..6 {
        let k = c.rng.below(z.len());
        let mut out = vec![0u8; d.len()];
        let r = decompress(codec, &z[..k], &mut out);
        ensure!(r.is_err(), format!("truncated-accepted:{name}"), "{k} of {} compressed bytes accepted", z.len());
        c.eval();
    }
    let (codec, z) = match idx % 2 {
        0 => (Compression::Gzip, gzip_member(&mut c.rng, &d)),
        _ => {
            let mut e = zstd::Encoder::new(vec![], 3).unwrap();
            e.include_checksum(true).unwrap();
            e.write_all(&d).unwrap();
            (Compression::Zstd, e.finish().unwrap())
        }
    };
    for _ in 0..6 {
        let mut x = z.clone();
        let k = c.rng.below(x.len());
        x[k] ^= 1 << c.rng.below(8);
        let mut out = vec![0u8; d.len()];
        match decompress(codec, &x, &mut out) {
            Ok(()) => {
                c.count("flip:harmless");
                ensure!(out == d, format!("damaged-accepted:{codec:?}"), "bit flip at byte {k} of {}: other data is returned", x.len())
            }
            Err(_) => c.count("flip:reported"),
        }
        c.eval();
    }
    c.distinct(hash_bytes(&z));
    Ok(())
}
fn refused(c: &mut Case) -> R {
    let d = data(&mut c.rng, 300);
    c.distinct(hash_bytes(&d));
    let mut b = vec![1, 2, 3];
    for o in [CompressionOptions::Uncompressed, CompressionOptions::Lzo, CompressionOptions::Lz4] {
        ensure!(compress(o, &d, &mut b).is_err(), "unsupported-accepted", "{o:?}");
        ensure!(b == [1, 2, 3], "unsupported-writes", "{o:?}");
    }
    let mut o = vec![7u8; d.len()];
    for x in [Compression::Uncompressed, Compression::Lzo] {
        ensure!(decompress(x, &d, &mut o).is_err(), "unsupported-accepted", "{x:?}");
    }
    for l in 0..40u32 {
        ensure!(GzipLevel::try_new(l as u8).is_ok() == (l <= 10), "level:gzip", "{l}");
        ensure!(BrotliLevel::try_new(l).is_ok() == (l <= 11), "level:brotli", "{l}");
        ensure!(ZstdLevel::try_new(l as i32).is_ok() == (1..=22).contains(&l), "level:zstd", "{l}");
    }
    c.evals(7);
    Ok(())
}

// ------------------------------------------------------------ the other LZ4 back end
pub struct Peer {
    i: std::process::ChildStdin,
    o: std::process::ChildStdout,
    _p: std::process::Child,
}
impl Peer {
    fn new() -> Option<Peer> {
        let exe = std::env::var("HARNESS_PEER").ok()?;
        let mut p = std::process::Command::new(exe)
            .arg("peer")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .ok()?;
        Some(Peer { i: p.stdin.take()?, o: p.stdout.take()?, _p: p })
    }
    fn ask(&mut self, op: u8, size: usize, d: &[u8]) -> std::io::Result<Result<Vec<u8>, String>> {
        let mut m = vec![op];
        m.extend_from_slice(&(size as u32).to_le_bytes());
        m.extend_from_slice(&(d.len() as u32).to_le_bytes());
        m.extend_from_slice(d);
        self.i.write_all(&m)?;
        self.i.flush()?;
        let mut h = [0u8; 5];
        self.o.read_exact(&mut h)?;
        let mut b = vec![0; u32::from_le_bytes(h[1..5].try_into().unwrap()) as usize];
        self.o.read_exact(&mut b)?;
        Ok(if h[0] == 0 { Ok(b) } else { Err(String::from_utf8_lossy(&b).to_string()) })
    }
}
/// the process behind `Peer`: 0 compress, 1 decompress as LZ4_RAW, 2 decompress as LZ4
pub fn peer() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut h = [0u8; 9];
        if i.read_exact(&mut h).is_err() {
            return;
        }
        let size = u32::from_le_bytes(h[1..5].try_into().unwrap()) as usize;
        let mut d = vec![0; u32::from_le_bytes(h[5..9].try_into().unwrap()) as usize];
        if i.read_exact(&mut d).is_err() {
            return;
        }
        // a panic is reported as such (status 2)
        let r = std::panic::catch_unwind(|| match h[0] {
            0 => {
                let mut b = vec![];
                compress(CompressionOptions::Lz4Raw, &d, &mut b).map(|_| b)
            }
            k => {
                let mut b = vec![0x5a; size];
                decompress(if k == 1 { Compression::Lz4Raw } else { Compression::Lz4 }, &d, &mut b).map(|_| b)
            }
        });
        let (s, b) = match r {
            Ok(Ok(b)) => (0u8, b),
            Ok(Err(e)) => (1, format!("{e:?}").into_bytes()),
            Err(_) => (1, b"PANIC".to_vec()),
        };
        let mut m = vec![s];
        m.extend_from_slice(&(b.len() as u32).to_le_bytes());
        m.extend(b);
        if o.write_all(&m).and_then(|_| o.flush()).is_err() {
            return;
        }
    }
}
thread_local! { static PEER: std::cell::RefCell<Option<Peer>> = const { std::cell::RefCell::new(None) }; }
fn ask(op: u8, size: usize, d: &[u8]) -> R<Result<Vec<u8>, String>> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Peer::new();
        }
        let Some(x) = p.as_mut() else {
            fail!("peer-missing", "HARNESS_PEER is not set or does not start");
        };
        match x.ask(op, size, d) {
            Ok(r) => Ok(r),
            Err(e) => {
                *p = None;
                fail!("peer-died", "the other LZ4 back end died (op {op}, {} bytes): {e}", d.len())
            }
        }
    })
}
fn backends(c: &mut Case) -> R {
    let max = if c.rng.chance(1, 50) { 2_000_000 } else { 80_000 };
    let d = data(&mut c.rng, max);
    c.distinct(hash_bytes(&d));
    c.add("bytes", d.len() as u64);
    let mut own = vec![];
    must(compress(CompressionOptions::Lz4Raw, &d, &mut own), "compress")?;
    let theirs = match ask(0, 0, &d)? {
        Ok(z) => z,
        Err(e) => fail!("backend:compress", "lz4_flex back end: {e}"),
    };
    let x = enc::lz4_block_decode(&theirs).map_err(|e| failure("backend:malformed", e))?;
    ensure!(x == d, "backend:compressed", "lz4_flex back end compresses to other data");
    check_decompress(c, Compression::Lz4Raw, &theirs, &d, "lz4_flex")?;
    let raw = lz4_encode(&mut c.rng, &d);
    let mut framed = vec![];
    for p in cut(&mut c.rng, &d, 4) {
        let b = lz4_encode(&mut c.rng, p);
        framed.extend_from_slice(&(p.len() as u32).to_be_bytes());
        framed.extend_from_slice(&(b.len() as u32).to_be_bytes());
        framed.extend(b);
    }
    for (z, op, who) in [(&own, 1u8, "own"), (&theirs, 1, "flex"), (&raw, 1, "raw"), (&framed, 2, "hadoop"), (&raw, 2, "legacy-raw")] {
        match ask(op, d.len(), z)? {
            Ok(o) => ensure!(o == d, format!("backend:decompressed:{who}"), "lz4_flex back end returns other data"),
            Err(e) => fail!(format!("backend:decompress:{who}"), "lz4_flex back end: {e} ({} bytes)", d.len()),
        }
        for m in [d.len() + 1 + c.rng.below(50), d.len().saturating_sub(1 + c.rng.below(50))] {
            if m != d.len() {
                match ask(op, m, z)? {
                    Ok(_) => fail!(format!("backend:wrong-size-accepted:{who}"), "{} bytes accepted as {m}", d.len()),
                    Err(e) if e == "PANIC" && (m < d.len() || who == "hadoop") => {
                        // lz4_flex without its checked-decode feature
                        let f = failure("backend:flex-panics-when-output-too-small", format!("{} bytes decompressed as {m}", d.len()));
                        c.soft::<()>(Err(f));
                    }
                    Err(e) => ensure!(e != "PANIC", format!("backend:panic:{who}"), "{} bytes decompressed as {m}", d.len()),
                }
            }
        }
        c.evals(3);
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "random blocks of bytes of many shapes and sizes are compressed by every codec and level and judged by independent decoders; blocks produced by other encoders (own LZ4 and Snappy encoders, gzip members, zstd frames, Hadoop frames, the lz4_flex build of the crate) are decompressed into buffers of right and wrong sizes; distinct = hash of (block, codec, level)",
        assumptions: &["gzip, brotli and zstd payloads are judged by the flate2, brotli and zstd crates"],
        families: vec![
            Family { name: "roundtrip", quick: 5000, thorough: 200000, f: roundtrip },
            Family { name: "roundtrip-large", quick: 48, thorough: 2000, f: roundtrip_large },
            Family { name: "foreign", quick: 8000, thorough: 200000, f: foreign },
            Family { name: "damaged", quick: 4000, thorough: 100000, f: damaged },
            Family { name: "backends", quick: 2000, thorough: 50000, f: backends },
            Family { name: "refused", quick: 20, thorough: 50, f: refused },
        ],
    }
}
