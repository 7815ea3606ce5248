//! Independent Thrift compact-protocol reader/writer over a dynamic tree.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F64(f64),
    Bin(Vec<u8>),
    List(u8, Vec<V>),
    Struct(S),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct S(pub Vec<(i16, V)>);

type Res<T> = Result<T, String>;
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    fn byte(&mut self) -> Res<u8> {
        let x = *self.b.get(self.p).ok_or("eof")?;
        self.p += 1;
        Ok(x)
    }
    fn varint(&mut self) -> Res<u64> {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let x = self.byte()?;
            if s < 64 {
                r |= ((x & 0x7f) as u64) << s;
            }
            s += 7;
            if x & 0x80 == 0 {
                return Ok(r);
            }
            if s > 70 {
                return Err("varint too long".into());
            }
        }
    }
    fn zig(&mut self) -> Res<i64> {
        let u = self.varint()?;
        Ok(((u >> 1) as i64) ^ -((u & 1) as i64))
    }
    fn value(&mut self, t: u8, in_list: bool, depth: usize) -> Res<V> {
        if depth > 60 {
            return Err("depth".into());
        }
        Ok(match t {
            1 | 2 => {
                if in_list {
                    V::Bool(self.byte()? == 1)
                } else {
                    V::Bool(t == 1)
                }
            }
            3 => V::I8(self.byte()? as i8),
            4 => V::I16(self.zig()? as i16),
            5 => V::I32(self.zig()? as i32),
            6 => V::I64(self.zig()?),
            7 => {
                let mut a = [0u8; 8];
                for x in a.iter_mut() {
                    *x = self.byte()?
                }
                V::F64(f64::from_le_bytes(a))
            }
            8 => {
                let n = self.varint()? as usize;
                if n > self.b.len() - self.p {
                    return Err("bin len".into());
                }
                let v = self.b[self.p..self.p + n].to_vec();
                self.p += n;
                V::Bin(v)
            }
            9 | 10 => {
                let h = self.byte()?;
                let et = h & 0xf;
                let mut n = (h >> 4) as usize;
                if n == 15 {
                    n = self.varint()? as usize
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.value(et, true, depth + 1)?)
                }
                V::List(et, v)
            }
            12 => V::Struct(self.strukt(depth + 1)?),
            _ => return Err(format!("type {t}")),
        })
    }
    pub fn strukt(&mut self, depth: usize) -> Res<S> {
        let mut last = 0i16;
        let mut out = vec![];
        loop {
            let h = self.byte()?;
            if h == 0 {
                return Ok(S(out));
            }
            let t = h & 0xf;
            let d = h >> 4;
            let id = if d == 0 { self.zig()? as i16 } else { last + d as i16 };
            last = id;
            out.push((id, self.value(t, false, depth)?));
        }
    }
}
/// parses one struct at the start of `b`, returning it and the bytes consumed
pub fn parse(b: &[u8]) -> Res<(S, usize)> {
    let mut r = Rd { b, p: 0 };
    let s = r.strukt(0)?;
    Ok((s, r.p))
}

fn w_varint(o: &mut Vec<u8>, mut u: u64) {
    while u >= 0x80 {
        o.push((u as u8) | 0x80);
        u >>= 7;
    }
    o.push(u as u8);
}
fn w_zig(o: &mut Vec<u8>, i: i64) {
    w_varint(o, ((i << 1) ^ (i >> 63)) as u64)
}
fn tcode(v: &V) -> u8 {
    match v {
        V::Bool(true) => 1,
        V::Bool(false) => 2,
        V::I8(_) => 3,
        V::I16(_) => 4,
        V::I32(_) => 5,
        V::I64(_) => 6,
        V::F64(_) => 7,
        V::Bin(_) => 8,
        V::List(..) => 9,
        V::Struct(_) => 12,
    }
}
fn w_val(o: &mut Vec<u8>, v: &V, in_list: bool) {
    match v {
        V::Bool(b) => {
            if in_list {
                o.push(if *b { 1 } else { 2 })
            }
        }
        V::I8(x) => o.push(*x as u8),
        V::I16(x) => w_zig(o, *x as i64),
        V::I32(x) => w_zig(o, *x as i64),
        V::I64(x) => w_zig(o, *x),
        V::F64(x) => o.extend_from_slice(&x.to_le_bytes()),
        V::Bin(x) => {
            w_varint(o, x.len() as u64);
            o.extend_from_slice(x)
        }
        V::List(t, x) => {
            if x.len() < 15 {
                o.push(((x.len() as u8) << 4) | t)
            } else {
                o.push(0xf0 | t);
                w_varint(o, x.len() as u64)
            }
            for e in x {
                w_val(o, e, true)
            }
        }
        V::Struct(s) => w_struct(o, s),
    }
}
pub fn w_struct(o: &mut Vec<u8>, s: &S) {
    let mut last = 0i16;
    for (id, v) in &s.0 {
        let d = *id as i32 - last as i32;
        if (1..=15).contains(&d) {
            o.push(((d as u8) << 4) | tcode(v))
        } else {
            o.push(tcode(v));
            w_zig(o, *id as i64)
        }
        last = *id;
        w_val(o, v, false);
    }
    o.push(0)
}
pub fn bytes(s: &S) -> Vec<u8> {
    let mut o = vec![];
    w_struct(&mut o, s);
    o
}

impl S {
    pub fn new() -> S {
        S(vec![])
    }
    /// appends a field (ids must be given in ascending order)
    pub fn with(mut self, id: i16, v: V) -> S {
        self.0.push((id, v));
        self
    }
    pub fn opt(self, id: i16, v: Option<V>) -> S {
        match v {
            Some(v) => self.with(id, v),
            None => self,
        }
    }
    pub fn get(&self, id: i16) -> Option<&V> {
        self.0.iter().find(|x| x.0 == id).map(|x| &x.1)
    }
    pub fn i32(&self, id: i16) -> Res<i32> {
        match self.get(id) {
            Some(V::I32(x)) => Ok(*x),
            o => Err(format!("field {id}: expected i32, got {o:?}")),
        }
    }
    pub fn i64(&self, id: i16) -> Res<i64> {
        match self.get(id) {
            Some(V::I64(x)) => Ok(*x),
            o => Err(format!("field {id}: expected i64, got {o:?}")),
        }
    }
    pub fn i16(&self, id: i16) -> Res<i16> {
        match self.get(id) {
            Some(V::I16(x)) => Ok(*x),
            o => Err(format!("field {id}: expected i16, got {o:?}")),
        }
    }
    pub fn bool(&self, id: i16) -> Res<bool> {
        match self.get(id) {
            Some(V::Bool(x)) => Ok(*x),
            o => Err(format!("field {id}: expected bool, got {o:?}")),
        }
    }
    pub fn bin(&self, id: i16) -> Res<&[u8]> {
        match self.get(id) {
            Some(V::Bin(x)) => Ok(x),
            o => Err(format!("field {id}: expected binary, got {o:?}")),
        }
    }
    pub fn list(&self, id: i16) -> Res<&[V]> {
        match self.get(id) {
            Some(V::List(_, x)) => Ok(x),
            o => Err(format!("field {id}: expected list, got {o:?}")),
        }
    }
    pub fn st(&self, id: i16) -> Res<&S> {
        match self.get(id) {
            Some(V::Struct(x)) => Ok(x),
            o => Err(format!("field {id}: expected struct, got {o:?}")),
        }
    }
    pub fn has(&self, id: i16) -> bool {
        self.get(id).is_some()
    }
    pub fn o<T>(&self, id: i16, f: impl Fn(&S, i16) -> Res<T>) -> Res<Option<T>> {
        if self.has(id) {
            f(self, id).map(Some)
        } else {
            Ok(None)
        }
    }
}
impl V {
    pub fn as_struct(&self) -> Res<&S> {
        match self {
            V::Struct(s) => Ok(s),
            o => Err(format!("expected struct, got {o:?}")),
        }
    }
    pub fn as_i32(&self) -> Res<i32> {
        match self {
            V::I32(s) => Ok(*s),
            o => Err(format!("expected i32, got {o:?}")),
        }
    }
    pub fn as_i64(&self) -> Res<i64> {
        match self {
            V::I64(s) => Ok(*s),
            o => Err(format!("expected i64, got {o:?}")),
        }
    }
    pub fn as_bin(&self) -> Res<&[u8]> {
        match self {
            V::Bin(s) => Ok(s),
            o => Err(format!("expected bin, got {o:?}")),
        }
    }
    pub fn as_bool(&self) -> Res<bool> {
        match self {
            V::Bool(s) => Ok(*s),
            o => Err(format!("expected bool, got {o:?}")),
        }
    }
}
pub fn ilist(v: impl IntoIterator<Item = i32>) -> V {
    V::List(5, v.into_iter().map(V::I32).collect())
}
pub fn i64list(v: impl IntoIterator<Item = i64>) -> V {
    V::List(6, v.into_iter().map(V::I64).collect())
}
pub fn slist(v: impl IntoIterator<Item = S>) -> V {
    V::List(12, v.into_iter().map(V::Struct).collect())
}
pub fn blist(v: impl IntoIterator<Item = Vec<u8>>) -> V {
    V::List(8, v.into_iter().map(V::Bin).collect())
}
pub fn boollist(v: impl IntoIterator<Item = bool>) -> V {
    V::List(1, v.into_iter().map(V::Bool).collect())
}
pub fn s(x: &str) -> V {
    V::Bin(x.as_bytes().to_vec())
}
