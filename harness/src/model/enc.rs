//! Reference encoders/decoders written from the Parquet format specification.
pub type Res<T> = Result<T, String>;

// ------------------------------------------------------------ varints
pub fn uleb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7
    }
    o.push(v as u8);
    o
}
pub fn zig(v: i64) -> Vec<u8> {
    uleb(((v << 1) ^ (v >> 63)) as u64)
}
pub fn rd_uleb(b: &[u8], p: &mut usize) -> Res<u64> {
    let mut r = 0u64;
    let mut s = 0u32;
    loop {
        let x = *b.get(*p).ok_or("uleb eof")?;
        *p += 1;
        if s >= 64 {
            return Err("uleb long".into());
        }
        r |= ((x & 0x7f) as u64) << s;
        s += 7;
        if x & 0x80 == 0 {
            return Ok(r);
        }
    }
}
pub fn rd_zig(b: &[u8], p: &mut usize) -> Res<i64> {
    let u = rd_uleb(b, p)?;
    Ok(((u >> 1) as i64) ^ -((u & 1) as i64))
}

// ------------------------------------------------------------ bit packing (LSB first)
pub fn pack(vals: &[u64], w: usize) -> Vec<u8> {
    let mut o = vec![0u8; (vals.len() * w + 7) / 8];
    let mut bit = 0;
    for v in vals {
        for k in 0..w {
            if (v >> k) & 1 == 1 {
                o[(bit + k) / 8] |= 1 << ((bit + k) % 8)
            }
        }
        bit += w;
    }
    o
}
pub fn unpack(b: &[u8], w: usize, n: usize) -> Res<Vec<u64>> {
    if b.len() * 8 < n * w {
        return Err("unpack: short".into());
    }
    let mut o = Vec::with_capacity(n);
    let mut bit = 0;
    for _ in 0..n {
        let mut v = 0u64;
        for k in 0..w {
            if b[(bit + k) / 8] >> ((bit + k) % 8) & 1 == 1 {
                v |= 1 << k
            }
        }
        bit += w;
        o.push(v);
    }
    Ok(o)
}
pub fn mask(w: usize) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn width_for(max: u64) -> usize {
    64 - max.leading_zeros() as usize
}

// ------------------------------------------------------------ hybrid RLE
#[derive(Debug, Clone)]
pub enum Run {
    Rle(u64, usize),
    /// values; the packed run is padded with zeros to a multiple of 8
    Packed(Vec<u64>),
}
pub fn hybrid_encode(runs: &[Run], w: usize) -> Vec<u8> {
    let mut o = vec![];
    for r in runs {
        match r {
            Run::Rle(v, n) => {
                o.extend(uleb((*n as u64) << 1));
                let nb = (w + 7) / 8;
                o.extend_from_slice(&v.to_le_bytes()[..nb]);
            }
            Run::Packed(v) => {
                let g = (v.len() + 7) / 8;
                o.extend(uleb(((g as u64) << 1) | 1));
                let mut p = v.clone();
                p.resize(g * 8, 0);
                o.extend(pack(&p, w));
            }
        }
    }
    o
}
/// `n` values out of a hybrid stream; the last packed run may be cut short (truncated padding)
pub fn hybrid_decode(b: &[u8], w: usize, n: usize) -> Res<(Vec<u64>, usize)> {
    let mut o = Vec::with_capacity(n.min(1 << 20));
    let mut p = 0;
    while o.len() < n {
        let h = rd_uleb(b, &mut p)?;
        if h & 1 == 1 {
            let cnt = (h >> 1) as usize * 8;
            let take = cnt.min(n - o.len());
            let have = (b.len() - p).min((h >> 1) as usize * w);
            if have * 8 < take * w {
                return Err("hybrid: packed run short".into());
            }
            o.extend(unpack(&b[p..p + have], w, take)?);
            p += have;
        } else {
            let cnt = (h >> 1) as usize;
            let nb = (w + 7) / 8;
            if p + nb > b.len() {
                return Err("hybrid: rle short".into());
            }
            let mut a = [0u8; 8];
            a[..nb].copy_from_slice(&b[p..p + nb]);
            p += nb;
            let v = u64::from_le_bytes(a);
            for _ in 0..cnt.min(n - o.len()) {
                o.push(v)
            }
            if cnt == 0 {
                // legal but pointless
                continue;
            }
        }
    }
    Ok((o, p))
}
/// splits `vals` in a random run structure that is a valid hybrid encoding of it
pub fn random_runs(vals: &[u64], rng: &mut crate::rt::Rng) -> Vec<Run> {
    let mut out = vec![];
    let mut i = 0;
    let style = rng.below(4);
    while i < vals.len() {
        let mut same = 1;
        while i + same < vals.len() && vals[i + same] == vals[i] {
            same += 1
        }
        let rle = match style {
            0 => false,
            1 => true,
            2 => same >= 8,
            _ => rng.bool(),
        };
        if rle {
            let k = if rng.chance(1, 3) { rng.range(1, same) } else { same };
            out.push(Run::Rle(vals[i], k));
            i += k;
        } else {
            let left = vals.len() - i;
            // a packed run that is not the last must hold a multiple of 8
            let groups = rng.range(1, (left + 7) / 8);
            let k = (groups * 8).min(left);
            out.push(Run::Packed(vals[i..i + k].to_vec()));
            i += k;
        }
    }
    out
}

// ------------------------------------------------------------ delta binary packed
pub fn delta_encode(vals: &[i64], block: usize, minis: usize, bits32: bool) -> Vec<u8> {
    let mut o = vec![];
    o.extend(uleb(block as u64));
    o.extend(uleb(minis as u64));
    o.extend(uleb(vals.len() as u64));
    o.extend(zig(vals.first().copied().unwrap_or(0)));
    if vals.len() <= 1 {
        return o;
    }
    let per = block / minis;
    let mut deltas: Vec<i64> = vals
        .windows(2)
        .map(|w| {
            if bits32 {
                (w[1] as i32).wrapping_sub(w[0] as i32) as i64
            } else {
                w[1].wrapping_sub(w[0])
            }
        })
        .collect();
    for blk in deltas.chunks_mut(block) {
        let min = *blk.iter().min().unwrap();
        o.extend(zig(min));
        let rel: Vec<u64> = blk
            .iter()
            .map(|d| {
                if bits32 {
                    (*d as i32).wrapping_sub(min as i32) as u32 as u64
                } else {
                    d.wrapping_sub(min) as u64
                }
            })
            .collect();
        let mut widths = vec![0u8; minis];
        for (i, m) in rel.chunks(per).enumerate() {
            widths[i] = width_for(*m.iter().max().unwrap()) as u8;
        }
        o.extend_from_slice(&widths);
        for (i, m) in rel.chunks(per).enumerate() {
            let mut m = m.to_vec();
            m.resize(per, 0);
            o.extend(pack(&m, widths[i] as usize));
        }
    }
    o
}
/// returns values and bytes consumed
pub fn delta_decode(b: &[u8]) -> Res<(Vec<i64>, usize)> {
    let mut p = 0;
    let block = rd_uleb(b, &mut p)? as usize;
    let minis = rd_uleb(b, &mut p)? as usize;
    let n = rd_uleb(b, &mut p)? as usize;
    let first = rd_zig(b, &mut p)?;
    if n == 0 {
        return Ok((vec![], p));
    }
    if minis == 0 || block == 0 || block % minis != 0 {
        return Err("delta header".into());
    }
    let per = block / minis;
    let mut o = vec![first];
    while o.len() < n {
        let min = rd_zig(b, &mut p)?;
        if p + minis > b.len() {
            return Err("delta widths".into());
        }
        let ws = b[p..p + minis].to_vec();
        p += minis;
        for w in ws {
            if o.len() >= n {
                break;
            }
            let w = w as usize;
            if w > 64 {
                return Err("delta width".into());
            }
            let take = per.min(n - o.len());
            let have = ((per * w + 7) / 8).min(b.len() - p);
            for d in unpack(&b[p..p + have], w, take)? {
                let last = *o.last().unwrap();
                o.push(last.wrapping_add(min).wrapping_add(d as i64));
            }
            p += have;
        }
    }
    Ok((o, p))
}

// ------------------------------------------------------------ byte arrays
pub fn plain_ba(v: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        o.extend_from_slice(&(x.len() as u32).to_le_bytes());
        o.extend_from_slice(x);
    }
    o
}
pub fn plain_ba_decode(b: &[u8], n: usize) -> Res<Vec<Vec<u8>>> {
    let mut p = 0;
    let mut o = vec![];
    for _ in 0..n {
        if p + 4 > b.len() {
            return Err("plain ba eof".into());
        }
        let l = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        p += 4;
        if p + l > b.len() {
            return Err("plain ba short".into());
        }
        o.push(b[p..p + l].to_vec());
        p += l;
    }
    Ok(o)
}
pub fn delta_length_encode(v: &[Vec<u8>]) -> Vec<u8> {
    let l: Vec<i64> = v.iter().map(|x| x.len() as i64).collect();
    let mut o = delta_encode(&l, 128, 4, true);
    for x in v {
        o.extend_from_slice(x)
    }
    o
}
pub fn delta_length_decode(b: &[u8]) -> Res<Vec<Vec<u8>>> {
    let (l, mut p) = delta_decode(b)?;
    let mut o = vec![];
    for n in l {
        let n = n as i32 as usize;
        if n > b.len() || p + n > b.len() {
            return Err("delta length short".into());
        }
        o.push(b[p..p + n].to_vec());
        p += n;
    }
    Ok(o)
}
pub fn delta_ba_encode(v: &[Vec<u8>]) -> Vec<u8> {
    let mut pre = vec![];
    let mut suf = vec![];
    let mut last: &[u8] = &[];
    for x in v {
        let k = last.iter().zip(x).take_while(|(a, b)| a == b).count();
        pre.push(k as i64);
        suf.push(x[k..].to_vec());
        last = x;
    }
    let mut o = delta_encode(&pre, 128, 4, true);
    o.extend(delta_length_encode(&suf));
    o
}
pub fn delta_ba_decode(b: &[u8]) -> Res<Vec<Vec<u8>>> {
    let (pre, p) = delta_decode(b)?;
    let suf = delta_length_decode(&b[p..])?;
    if pre.len() != suf.len() {
        return Err("delta ba counts".into());
    }
    let mut o: Vec<Vec<u8>> = vec![];
    let mut last: Vec<u8> = vec![];
    for (k, s) in pre.into_iter().zip(suf) {
        let k = k as i32 as usize;
        if k > last.len() {
            return Err("delta ba prefix".into());
        }
        last.truncate(k);
        last.extend_from_slice(&s);
        o.push(last.clone());
    }
    Ok(o)
}

// ------------------------------------------------------------ decompression references
pub fn snappy_decode(b: &[u8]) -> Res<Vec<u8>> {
    let mut p = 0;
    let n = rd_uleb(b, &mut p)? as usize;
    let mut o: Vec<u8> = Vec::new();
    while p < b.len() {
        let t = b[p];
        p += 1;
        let (len, off) = match t & 3 {
            0 => {
                let mut l = (t >> 2) as usize;
                if l >= 60 {
                    let k = l - 59;
                    let mut a = [0u8; 8];
                    a[..k].copy_from_slice(b.get(p..p + k).ok_or("snappy lit")?);
                    l = u64::from_le_bytes(a) as usize;
                    p += k;
                }
                l += 1;
                o.extend_from_slice(b.get(p..p + l).ok_or("snappy lit data")?);
                p += l;
                continue;
            }
            1 => {
                let l = 4 + ((t >> 2) & 7) as usize;
                let off = ((t >> 5) as usize) << 8 | *b.get(p).ok_or("snappy c1")? as usize;
                p += 1;
                (l, off)
            }
            k => {
                let l = (t >> 2) as usize + 1;
                let nb = if k == 2 { 2 } else { 4 };
                let mut a = [0u8; 8];
                a[..nb].copy_from_slice(b.get(p..p + nb).ok_or("snappy c2")?);
                p += nb;
                (l, u64::from_le_bytes(a) as usize)
            }
        };
        if off == 0 || off > o.len() {
            return Err("snappy off".into());
        }
        for _ in 0..len {
            o.push(o[o.len() - off])
        }
    }
    if o.len() != n {
        return Err("snappy len".into());
    }
    Ok(o)
}
pub fn lz4_block_decode(b: &[u8]) -> Res<Vec<u8>> {
    let mut o: Vec<u8> = vec![];
    let mut p = 0;
    if b.is_empty() {
        return Ok(o);
    }
    loop {
        let t = *b.get(p).ok_or("lz4 tok")?;
        p += 1;
        let mut l = (t >> 4) as usize;
        if l == 15 {
            loop {
                let x = *b.get(p).ok_or("lz4 l")?;
                p += 1;
                l += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        o.extend_from_slice(b.get(p..p + l).ok_or("lz4 lit")?);
        p += l;
        if p == b.len() {
            return Ok(o);
        }
        let off = u16::from_le_bytes(b.get(p..p + 2).ok_or("lz4 off")?.try_into().unwrap()) as usize;
        p += 2;
        let mut m = (t & 15) as usize;
        if m == 15 {
            loop {
                let x = *b.get(p).ok_or("lz4 m")?;
                p += 1;
                m += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        m += 4;
        if off == 0 || off > o.len() {
            return Err("lz4 offset".into());
        }
        for _ in 0..m {
            o.push(o[o.len() - off])
        }
    }
}
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }
        }
    }
    !c
}
/// literal-only lz4 block
pub fn lz4_block_literal(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if d.len() < 15 {
        o.push((d.len() as u8) << 4)
    } else {
        o.push(0xf0);
        let mut r = d.len() - 15;
        while r >= 255 {
            o.push(255);
            r -= 255
        }
        o.push(r as u8);
    }
    o.extend_from_slice(d);
    o
}
