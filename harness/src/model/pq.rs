//! Independent structural reader of Parquet files (footer, chunks, pages, indexes).
use super::enc;
use super::thrift::{self, S, V};
use crate::gen::{self, EncK, Leaf, PageData, Val};
use std::io::Read;

pub type Res<T> = Result<T, String>;

pub fn footer(b: &[u8]) -> Res<(S, usize)> {
    let n = b.len();
    if n < 12 {
        return Err("too short".into());
    }
    if &b[..4] != b"PAR1" || &b[n - 4..] != b"PAR1" {
        return Err("magic".into());
    }
    let len = u32::from_le_bytes(b[n - 8..n - 4].try_into().unwrap()) as usize;
    if len + 12 > n {
        return Err("footer length".into());
    }
    let start = n - 8 - len;
    let (s, used) = thrift::parse(&b[start..n - 8])?;
    if used != len {
        return Err(format!("footer length {len} but the thrift struct takes {used}"));
    }
    Ok((s, start))
}

#[derive(Debug, Clone)]
pub struct PageRaw {
    pub offset: usize,
    pub header: S,
    pub header_len: usize,
    pub body: Vec<u8>,
}
impl PageRaw {
    pub fn kind(&self) -> Res<i32> {
        self.header.i32(1)
    }
}
/// walks pages in `b[start..start+len]`, which they must fill exactly
pub fn pages(b: &[u8], start: usize, len: usize) -> Res<Vec<PageRaw>> {
    let end = start.checked_add(len).filter(|e| *e <= b.len()).ok_or("chunk out of file")?;
    let mut p = start;
    let mut o = vec![];
    while p < end {
        let (h, used) = thrift::parse(&b[p..end]).map_err(|e| format!("page header at {p}: {e}"))?;
        let size = h.i32(3)?;
        if size < 0 || p + used + size as usize > end {
            return Err(format!("page at {p} overruns its chunk"));
        }
        let body = b[p + used..p + used + size as usize].to_vec();
        o.push(PageRaw {
            offset: p,
            header: h,
            header_len: used,
            body,
        });
        p += used + size as usize;
    }
    Ok(o)
}

pub fn inflate(codec: i32, b: &[u8], size: usize) -> Res<Vec<u8>> {
    let o = match codec {
        0 => b.to_vec(),
        1 => enc::snappy_decode(b)?,
        2 => {
            let mut o = vec![];
            flate2::read::GzDecoder::new(b).read_to_end(&mut o).map_err(|e| format!("gzip {e}"))?;
            o
        }
        4 => {
            let mut o = vec![];
            brotli::Decompressor::new(b, 4096).read_to_end(&mut o).map_err(|e| format!("brotli {e}"))?;
            o
        }
        6 => zstd::decode_all(b).map_err(|e| format!("zstd {e}"))?,
        7 => enc::lz4_block_decode(b)?,
        c => return Err(format!("codec {c}")),
    };
    if o.len() != size {
        return Err(format!("codec {codec}: decompressed to {} bytes, header says {size}", o.len()));
    }
    Ok(o)
}

/// A decoded page: dictionary values, or data
pub enum Decoded {
    Dict(Vec<Val>),
    Data { d: PageData, e: EncK, v2: bool, stats: Option<S> },
}
pub fn decode_page(p: &PageRaw, codec: i32, leaf: &Leaf, dict: &[Val]) -> Res<Decoded> {
    let h = &p.header;
    let unc = h.i32(2)? as usize;
    match p.kind()? {
        2 => {
            let dh = h.st(7)?;
            let n = dh.i32(1)? as usize;
            if dh.i32(2)? != 0 && dh.i32(2)? != 2 {
                return Err("dict page encoding".into());
            }
            let b = inflate(codec, &p.body, unc)?;
            let v = gen::plain_decode(leaf.ph, &b, n)?;
            if gen::plain(leaf.ph, &v) != b {
                return Err("dict page has trailing bytes".into());
            }
            Ok(Decoded::Dict(v))
        }
        0 => {
            let dh = h.st(5)?;
            let n = dh.i32(1)? as usize;
            let e = EncK::of(dh.i32(2)?).ok_or("encoding")?;
            if dh.i32(3)? != 3 || dh.i32(4)? != 3 {
                return Err("level encoding".into());
            }
            let b = inflate(codec, &p.body, unc)?;
            let mut pos = 0;
            let mut lv = |max: u32| -> Res<Vec<u32>> {
                if max == 0 {
                    return Ok(vec![0; n]);
                }
                let l = u32::from_le_bytes(b.get(pos..pos + 4).ok_or("lvl len")?.try_into().unwrap()) as usize;
                let s = b.get(pos + 4..pos + 4 + l).ok_or("lvl")?;
                pos += 4 + l;
                Ok(enc::hybrid_decode(s, enc::width_for(max as u64), n)?.0.into_iter().map(|x| x as u32).collect())
            };
            let reps = lv(leaf.max_rep)?;
            let defs = lv(leaf.max_def)?;
            finish(reps, defs, &b[pos..], e, leaf, dict, false, dh.o(5, |s, i| s.st(i).cloned())?)
        }
        3 => {
            let dh = h.st(8)?;
            let n = dh.i32(1)? as usize;
            let e = EncK::of(dh.i32(4)?).ok_or("encoding")?;
            let dl = dh.i32(5)? as usize;
            let rl = dh.i32(6)? as usize;
            let comp = dh.o(7, |s, i| s.bool(i))?.unwrap_or(true);
            let lev = p.body.get(..dl + rl).ok_or("v2 levels")?.to_vec();
            let vals = if comp {
                inflate(codec, &p.body[dl + rl..], unc.checked_sub(dl + rl).ok_or("v2 size")?)?
            } else {
                p.body[dl + rl..].to_vec()
            };
            let get = |s: &[u8], max: u32| -> Res<Vec<u32>> {
                if max == 0 {
                    return Ok(vec![0; n]);
                }
                Ok(enc::hybrid_decode(s, enc::width_for(max as u64), n)?.0.into_iter().map(|x| x as u32).collect())
            };
            let reps = get(&lev[..rl], leaf.max_rep)?;
            let defs = get(&lev[rl..], leaf.max_def)?;
            let r = finish(reps, defs, &vals, e, leaf, dict, true, dh.o(8, |s, i| s.st(i).cloned())?)?;
            if let Decoded::Data { d, .. } = &r {
                if dh.i32(2)? as usize != d.nulls() {
                    return Err("v2 num_nulls".into());
                }
                if dh.i32(3)? as usize != d.rows {
                    return Err("v2 num_rows".into());
                }
            }
            Ok(r)
        }
        k => Err(format!("page type {k}")),
    }
}
#[allow(clippy::too_many_arguments)]
fn finish(
    reps: Vec<u32>,
    defs: Vec<u32>,
    b: &[u8],
    e: EncK,
    leaf: &Leaf,
    dict: &[Val],
    v2: bool,
    stats: Option<S>,
) -> Res<Decoded> {
    let n = defs.iter().filter(|d| **d == leaf.max_def).count();
    let vals = gen::decode_values(leaf.ph, e, b, n, dict)?;
    let rows = reps.iter().filter(|r| **r == 0).count();
    Ok(Decoded::Data {
        d: PageData { rows, reps, defs, vals },
        e,
        v2,
        stats,
    })
}

// thrift builders for foreign files live in fixture.rs
pub fn stat_field(s: &S, id: i16) -> Option<Vec<u8>> {
    match s.get(id) {
        Some(V::Bin(b)) => Some(b.clone()),
        _ => None,
    }
}
