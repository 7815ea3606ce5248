//! C16: bloom filters against an independent split-block implementation.
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::with_footer;
use crate::io::{rand_fault, Plan, Src};
use crate::model::pq;
use crate::model::thrift::{self, S, V};
use crate::rt::*;
use crate::ensure;
use parquet2::bloom_filter;
use parquet2::read::read_metadata;
use std::collections::HashSet;
use std::io::Cursor;

// ---------------------------------------------------------------- the format, independently
const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;
fn round(acc: u64, v: u64) -> u64 {
    acc.wrapping_add(v.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1)
}
fn rd64(b: &[u8]) -> u64 {
    b[..8].iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
fn rd32(b: &[u8]) -> u64 {
    b[..4].iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
/// xxhash64 with seed 0
pub fn xxh64(b: &[u8]) -> u64 {
    let n = b.len() as u64;
    let mut b = b;
    let mut h = if b.len() >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while b.len() >= 32 {
            for (i, a) in v.iter_mut().enumerate() {
                *a = round(*a, rd64(&b[i * 8..]));
            }
            b = &b[32..];
        }
        let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for a in v {
            h = (h ^ round(0, a)).wrapping_mul(P1).wrapping_add(P4);
        }
        h
    } else {
        P5
    };
    h = h.wrapping_add(n);
    while b.len() >= 8 {
        h = (h ^ round(0, rd64(b))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        b = &b[8..];
    }
    if b.len() >= 4 {
        h = (h ^ rd32(b).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        b = &b[4..];
    }
    for x in b {
        h = (h ^ (*x as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ h >> 32
}
const SALT: [u32; 8] = [0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31];
/// the (byte, bit) positions of a hash in a filter of `len` bytes
fn positions(hash: u64, len: usize) -> [(usize, u8); 8] {
    let blocks = (len / 32) as u128;
    let block = (((hash >> 32) as u128 * blocks) >> 32) as usize;
    let key = hash as u32 as u64;
    let mut out = [(0, 0); 8];
    for (i, s) in SALT.iter().enumerate() {
        let bit = ((key * *s as u64) & 0xffff_ffff) >> 27;
        out[i] = (block * 32 + i * 4 + bit as usize / 8, 1u8 << (bit % 8));
    }
    out
}
fn m_insert(f: &mut [u8], hash: u64) {
    for (i, m) in positions(hash, f.len()) {
        f[i] |= m;
    }
}
fn m_has(f: &[u8], hash: u64) -> bool {
    positions(hash, f.len()).iter().all(|(i, m)| f[*i] & m != 0)
}
// ---------------------------------------------------------------- hashes
/// the hash the library gives the value of a column, and the format's bytes of it
fn lib_hash(ph: Ph, v: &[u8]) -> u64 {
    match ph {
        Ph::I32 => bloom_filter::hash_native(i32::from_le_bytes(v.try_into().unwrap())),
        Ph::I64 => bloom_filter::hash_native(i64::from_le_bytes(v.try_into().unwrap())),
        Ph::F32 => bloom_filter::hash_native(f32::from_le_bytes(v.try_into().unwrap())),
        Ph::F64 => bloom_filter::hash_native(f64::from_le_bytes(v.try_into().unwrap())),
        Ph::I96 => {
            let w = |i: usize| u32::from_le_bytes(v[i..i + 4].try_into().unwrap());
            bloom_filter::hash_native([w(0), w(4), w(8)])
        }
        _ => bloom_filter::hash_byte(v),
    }
}
fn rand_ph_bloom(rng: &mut Rng) -> Ph {
    loop {
        let p = rand_ph(rng);
        if p != Ph::Bool {
            return p;
        }
    }
}
fn hashes(c: &mut Case) -> R {
    // the published test vectors, so that the model itself is checked
    ensure!(xxh64(b"") == 0xef46db3751d8e999 && xxh64(b"abc") == 0x44bc2cf5ad770999, "model", "xxh64 of the harness is wrong");
    let ph = rand_ph_bloom(&mut c.rng);
    let n = c.rng.range(1, 20);
    let prof = rand_prof(&mut c.rng);
    for v in gen_vals(&mut c.rng, ph, n, prof) {
        let want = xxh64(&v);
        let got = guarded("hash", || lib_hash(ph, &v))?;
        ensure!(got == want, "hash", "{ph:?} {v:?}: {got:x}, expected {want:x}");
        c.eval();
    }
    let len = if c.rng.chance(1, 8) { c.rng.below(5000) } else { c.rng.below(130) };
    let v = c.rng.bytes(len);
    c.distinct(hash_bytes(&v) ^ len as u64);
    let (a, b) = (guarded("hash_byte", || bloom_filter::hash_byte(&v))?, xxh64(&v));
    ensure!(a == b, "hash", "bytes {v:?}: {a:x}, expected {b:x}");
    c.eval();
    c.count(&format!("bytes:{}", if len < 4 { "0..4" } else if len < 8 { "4..8" } else if len < 32 { "8..32" } else { "32.." }));
    Ok(())
}
// ---------------------------------------------------------------- histories
fn size(c: &mut Case) -> usize {
    let max = if c.thorough { 1 << 22 } else { 1 << 17 };
    32 * match c.rng.below(12) {
        0..=2 => c.rng.range(1, 4),
        3..=5 => 1 << c.rng.below(8),
        6 | 7 => c.rng.range(1, 100),
        8 => c.rng.range(1, 4096),
        9 | 10 => (1usize << c.rng.below(12)).saturating_sub(1).max(1),
        _ => {
            if c.rng.chance(1, 40) {
                c.rng.range(max / 2, max)
            } else {
                c.rng.range(1, 1000)
            }
        }
    }
}
/// hashes that are of interest: extremes of the block index and of the key
fn rand_hash(rng: &mut Rng) -> u64 {
    let part = |rng: &mut Rng| -> u64 {
        match rng.below(7) {
            0 => 0,
            1 => u32::MAX as u64,
            2 => 1 << rng.below(32),
            3 => u32::MAX as u64 - (1 << rng.below(32)),
            _ => rng.u32() as u64,
        }
    };
    part(rng) << 32 | part(rng)
}
fn history(c: &mut Case) -> R {
    let len = size(c);
    let start = match c.rng.below(4) {
        0 => c.rng.bytes(len),
        1 => {
            // sparse
            let mut v = vec![0; len];
            for _ in 0..c.rng.below(20) {
                let i = c.rng.below(len);
                v[i] |= 1 << c.rng.below(8)
            }
            v
        }
        _ => vec![0; len],
    };
    let (mut lib, mut model) = (start.clone(), start.clone());
    let steps = c.rng.range(1, if c.thorough { 400 } else { 60 });
    let ph = rand_ph_bloom(&mut c.rng);
    let prof = rand_prof(&mut c.rng);
    let vals = gen_vals(&mut c.rng, ph, steps, prof);
    let mut inserted: Vec<u64> = vec![];
    let mut trace = hash_bytes(&start[..start.len().min(64)]) ^ len as u64;
    let small = len <= 4096;
    let (mut hits, mut misses, mut ins) = (0u64, 0u64, 0u64);
    for i in 0..steps {
        let raw = c.rng.chance(1, 3);
        let hash = if raw {
            rand_hash(&mut c.rng)
        } else if c.rng.chance(1, 5) && !inserted.is_empty() {
            // again, or near something inserted
            let h = *c.rng.pick(&inserted);
            if c.rng.bool() {
                h
            } else {
                h ^ 1 << c.rng.below(64)
            }
        } else {
            lib_hash(ph, &vals[i])
        };
        trace = mix(trace ^ hash);
        if c.rng.chance(2, 3) {
            guarded("insert", || bloom_filter::insert(&mut lib, hash))?;
            m_insert(&mut model, hash);
            inserted.push(hash);
            ins += 1;
            if small {
                ensure!(lib == model, "bits", "{len} bytes: insert of {hash:x} (step {i}) set other bits than the format's");
                c.eval();
            } else {
                for (k, m) in positions(hash, len) {
                    ensure!(lib[k] & m != 0, "bits", "{len} bytes: insert of {hash:x} misses bit {m} of byte {k}");
                }
            }
        } else {
            let before = if small { lib.clone() } else { vec![] };
            let got = guarded("is_in_set", || bloom_filter::is_in_set(&lib, hash))?;
            let want = m_has(&model, hash);
            ensure!(got == want, "lookup", "{len} bytes: is_in_set({hash:x}) is {got}, expected {want}");
            ensure!(!small || before == lib, "lookup-changes", "{len} bytes: is_in_set({hash:x}) changed the filter");
            if got {
                hits += 1
            } else {
                misses += 1
            }
            c.eval();
        }
    }
    ensure!(lib == model, "bits", "{len} bytes: the filter after {ins} inserts is not that of the format");
    ensure!(start.iter().zip(&lib).all(|(a, b)| a & b == *a), "cleared", "{len} bytes: inserts cleared bits");
    for h in &inserted {
        ensure!(guarded("is_in_set", || bloom_filter::is_in_set(&lib, *h))?, "false-negative", "{len} bytes: {h:x} was inserted and is not found");
    }
    c.evals(inserted.len() + 2);
    c.distinct(trace);
    c.add("inserted", ins);
    c.add("lookup:present", hits);
    c.add("lookup:absent", misses);
    c.count(if len == 32 { "size:32" } else if (len / 32).is_power_of_two() { "size:power-of-two" } else { "size:other" });
    c.sample(|| format!("{len} bytes, {ins} inserts of {ph:?} values, {} look-ups", hits + misses));
    Ok(())
}
// ---------------------------------------------------------------- files
/// the metadata structure of a column chunk within a footer
pub fn col_meta<'a>(f: &'a mut S, g: usize, ci: usize) -> Option<&'a mut S> {
    let list = |s: &'a mut S, id: i16| -> Option<&'a mut Vec<V>> {
        s.0.iter_mut().find(|x| x.0 == id).and_then(|x| match &mut x.1 {
            V::List(_, v) => Some(v),
            _ => None,
        })
    };
    let st = |v: &'a mut V| match v {
        V::Struct(s) => Some(s),
        _ => None,
    };
    let rg = st(list(f, 4)?.get_mut(g)?)?;
    let col = st(list(rg, 1)?.get_mut(ci)?)?;
    st(&mut col.0.iter_mut().find(|x| x.0 == 3)?.1)
}
pub fn set_field(s: &mut S, id: i16, v: V) {
    s.0.retain(|x| x.0 != id);
    s.0.push((id, v));
    s.0.sort_by_key(|x| x.0);
}
fn header(rng: &mut Rng, n: usize) -> (S, bool) {
    let unit = || V::Struct(S::new());
    let union = |id: i16| V::Struct(S::new().with(id, unit()));
    let mut s = S::new().with(1, V::I32(n as i32)).with(2, union(1)).with(3, union(1)).with(4, union(1));
    if rng.chance(1, 4) {
        // a later version of the format
        s = s.with(9, V::Bin(b"later".to_vec())).with(200, V::Struct(S::new().with(1, V::I64(1))));
    }
    let known = !rng.chance(1, 12);
    if !known {
        // an algorithm, hash or compression of the future
        let id = *rng.pick(&[2i16, 3, 4]);
        set_field(&mut s, id, union(2));
    }
    (s, known)
}
fn files(c: &mut Case) -> R {
    let sh = Shape { max_leaves: 4, depth: 1, max_groups: 3, min_groups: 1, max_pages: 2, max_rows: 12, annotate: false, ..Default::default() };
    let spec = gen_file(&mut c.rng, &sh);
    let b = write_sync(&spec, 0)?;
    let (mut f, start) = pq::footer(&b).map_err(|e| failure("harness", e))?;
    let mut body = b[..start].to_vec();
    // filters of some of the columns, in any order, with or without something between them
    let mut cells: Vec<(usize, usize)> = (0..spec.groups.len()).flat_map(|g| (0..spec.leaves.len()).map(move |i| (g, i))).collect();
    c.rng.shuffle(&mut cells);
    let mut want: Vec<((usize, usize), Option<(Vec<u8>, bool, u64)>)> = vec![];
    for (g, ci) in cells {
        if c.rng.chance(1, 4) {
            want.push(((g, ci), None));
            continue;
        }
        let len = 32 * if c.rng.chance(1, 10) { c.rng.range(100, 2000) } else { c.rng.range(1, 40) };
        let mut filter = vec![0; len];
        for p in &spec.groups[g][ci].pages {
            for v in &p.data.vals {
                m_insert(&mut filter, xxh64(v));
            }
        }
        if c.rng.chance(1, 3) {
            filter = c.rng.bytes(len);
        }
        let gap = c.rng.below(3) * c.rng.below(40);
        let gap = c.rng.bytes(gap);
        body.extend(gap);
        let off = body.len() as u64;
        let (h, known) = header(&mut c.rng, len);
        body.extend(thrift::bytes(&h));
        body.extend(&filter);
        let m = col_meta(&mut f, g, ci).ok_or_else(|| failure("harness", "column metadata"))?;
        set_field(m, 14, V::I64(off as i64));
        if c.rng.bool() {
            // bloom_filter_length, of a later version of the format
            set_field(m, 15, V::I32((body.len() as u64 - off) as i32));
        }
        want.push(((g, ci), Some((filter, known, off))));
    }
    let file = with_footer(&body, &f);
    let md = must(read_metadata(&mut Cursor::new(&file)), "read_metadata")?;
    c.distinct(hash_bytes(&file));
    c.sample(|| format!("{} filters over {}", want.iter().filter(|x| x.1.is_some()).count(), spec.describe()));
    let plan = Plan::rough(&mut c.rng);
    // one reader and one buffer for all filters, in any order, some of them twice
    let mut src = Src::new(&file, plan);
    let mut order: Vec<usize> = (0..want.len()).collect();
    order.extend(0..want.len().min(2));
    c.rng.shuffle(&mut order);
    let mut buf = if c.rng.bool() { c.rng.bytes(100) } else { vec![] };
    for i in order {
        let ((g, ci), w) = &want[i];
        let col = &md.row_groups[*g].columns()[*ci];
        let off = w.as_ref().map(|x| x.2 as i64);
        ensure!(col.metadata().bloom_filter_offset == off, "offset", "bloom_filter_offset of {g},{ci} is {:?}, expected {off:?}", col.metadata().bloom_filter_offset);
        let r = guarded("bloom_filter::read", || bloom_filter::read(col, &mut src, &mut buf))?;
        c.eval();
        match w {
            None => {
                must(r, "reading an absent filter")?;
                ensure!(buf.is_empty(), "absent", "a filter of {} bytes was read for a column without", buf.len());
                c.count("read:absent");
            }
            Some((_, false, _)) => {
                c.count("read:unknown-kind");
                ensure!(buf.is_empty() || r.is_err(), "unknown-kind", "a filter of an unknown kind was read as one of {} bytes", buf.len());
            }
            Some((filter, true, _)) => {
                must(r, "reading a filter")?;
                ensure!(&buf == filter, "content", "the filter of {g},{ci} ({} bytes) was read as {} other bytes", filter.len(), buf.len());
                c.count("read:present");
                let leaf = &spec.leaves[*ci];
                if m_all(filter, &spec.groups[*g][*ci]) {
                    for p in &spec.groups[*g][*ci].pages {
                        for v in &p.data.vals {
                            if leaf.ph != Ph::Bool {
                                ensure!(bloom_filter::is_in_set(&buf, lib_hash(leaf.ph, v)), "false-negative", "{:?} {v:?} of the column is not in its filter", leaf.ph);
                                c.eval();
                            }
                        }
                    }
                }
            }
        }
    }
    // sources that fail or end
    let here: Vec<usize> = (0..want.len()).filter(|i| want[*i].1.as_ref().map_or(false, |x| x.1)).collect();
    if here.is_empty() {
        return Ok(());
    }
    let ((g, ci), w) = &want[*c.rng.pick(&here)];
    let (filter, _, _) = w.as_ref().unwrap();
    let col = &md.row_groups[*g].columns()[*ci];
    let n = {
        let mut src = Src::new(&file, Plan::clean());
        must(bloom_filter::read(col, &mut src, &mut buf).map(|_| ()), "reading a filter")?;
        src.log().ops
    };
    for _ in 0..4 {
        let op = c.rng.below(n + 1);
        let plan = Plan::clean().with(rand_fault(&mut c.rng, op));
        let mut src = Src::new(&file, plan);
        let r = guarded("bloom_filter::read", || bloom_filter::read(col, &mut src, &mut buf))?;
        ensure!(r.is_err() || &buf == filter, "failing-source", "Ok with {} bytes from a failing source ({} bytes are right)", buf.len(), filter.len());
        c.eval();
        c.count(if r.is_err() { "failing-source:error" } else { "failing-source:unaffected" });
    }
    let cut = c.rng.below(file.len());
    let mut src = Cursor::new(&file[..cut]);
    let r = guarded("bloom_filter::read", || bloom_filter::read(col, &mut src, &mut buf))?;
    ensure!(r.is_err() || &buf == filter, "truncated", "Ok with {} bytes from a file of {cut} of {} bytes", buf.len(), file.len());
    c.eval();
    Ok(())
}
fn m_all(filter: &[u8], cs: &ColSpec) -> bool {
    cs.pages.iter().all(|p| p.data.vals.iter().all(|v| m_has(filter, xxh64(v))))
}
/// filters that are full, as in use: the false positives are those of the format and no value is missed
fn populated(c: &mut Case) -> R {
    let len = 32 * c.rng.range(1, 64);
    let n = c.rng.range(1, len);
    let (mut lib, mut model) = (vec![0; len], vec![0; len]);
    let base = c.rng.u64() as i64;
    let step = *c.rng.pick(&[1i64, 3, 1 << 20, 1 << 32]);
    let vals: Vec<i64> = (0..n).map(|i| base.wrapping_add(step.wrapping_mul(i as i64))).collect();
    let mut set = HashSet::new();
    for v in &vals {
        let h = bloom_filter::hash_native(*v);
        guarded("insert", || bloom_filter::insert(&mut lib, h))?;
        m_insert(&mut model, xxh64(&v.to_le_bytes()));
        set.insert(*v);
    }
    ensure!(lib == model, "bits", "{len} bytes, {n} values: not the filter of the format");
    let mut fp = 0;
    for i in 0..2 * n {
        let v = base.wrapping_add(step.wrapping_mul(i as i64));
        let got = bloom_filter::is_in_set(&lib, bloom_filter::hash_native(v));
        ensure!(got || !set.contains(&v), "false-negative", "{len} bytes, {n} values: {v} was inserted and is not found");
        ensure!(got == m_has(&model, xxh64(&v.to_le_bytes())), "lookup", "{len} bytes, {n} values: {v} found {got}");
        fp += (got && !set.contains(&v)) as u64;
    }
    c.evals(2 * n + 1);
    c.add("false-positives", fp);
    c.add("absent-values", n as u64);
    c.distinct(mix(base as u64 ^ len as u64) ^ n as u64);
    Ok(())
}
pub fn prop16() -> Prop {
    Prop {
        id: "C16",
        rule: "hashes of random values of every type; random histories of inserts and look-ups in filters of every kind of size, compared bit for bit with an independent implementation; filters stored at random places of files for random columns, read through sources that split, interrupt, fail or end; distinct = hash of the history or file",
        assumptions: &["sizes are non-zero multiples of 32 bytes, up to 4 MiB quick and 128 MiB thorough"],
        families: vec![
            Family { name: "hashes", quick: 400000, thorough: 5000000, f: hashes },
            Family { name: "history", quick: 300000, thorough: 2000000, f: history },
            Family { name: "populated", quick: 20000, thorough: 300000, f: populated },
            Family { name: "files", quick: 40000, thorough: 500000, f: files },
        ],
    }
}
