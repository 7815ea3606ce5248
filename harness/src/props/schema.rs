//! C13: stored schemas; C14: the textual schema language.
use crate::fixture::*;
use crate::gen::*;
use crate::hostile::*;
use crate::model::thrift::{self, S, V};
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::metadata::SchemaDescriptor;
use parquet2::read::read_metadata;
use parquet2::schema::io_message::from_message;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::write::{FileWriter, Version, WriteOptions};
use std::io::Cursor;

pub fn root(name: &str, fields: &[ParquetType]) -> ParquetType {
    ParquetType::from_group(name.to_string(), Repetition::Optional, None, None, fields.to_vec(), None)
}
/// the descriptor of the schema has the fields and leaves of the model
pub fn check_descriptor(d: &SchemaDescriptor, name: &str, fields: &[ParquetType]) -> R {
    ensure!(d.name() == name, "schema:name", "{:?} expected {:?}", d.name(), name);
    ensure!(d.fields() == fields, "schema:fields", "{:?} expected {:?}", d.fields(), fields);
    let exp = leaves(fields);
    ensure!(d.columns().len() == exp.len(), "schema:leaves", "{} leaves expected {}", d.columns().len(), exp.len());
    // the field of each leaf
    let mut bases = vec![];
    for f in fields {
        for _ in leaves(std::slice::from_ref(f)) {
            bases.push(f)
        }
    }
    for ((c, e), b) in d.columns().iter().zip(&exp).zip(bases) {
        ensure!(c.path_in_schema == e.path, "schema:path", "{:?} expected {:?}", c.path_in_schema, e.path);
        ensure!(
            c.descriptor.max_rep_level == e.max_rep as i16 && c.descriptor.max_def_level == e.max_def as i16,
            "schema:levels",
            "{:?}: rep {} def {} expected {} {}",
            e.path,
            c.descriptor.max_rep_level,
            c.descriptor.max_def_level,
            e.max_rep,
            e.max_def
        );
        ensure!(c.descriptor.primitive_type == e.prim, "schema:primitive", "{:?} expected {:?}", c.descriptor.primitive_type, e.prim);
        ensure!(&c.base_type == b, "schema:base", "{:?} expected {:?}", c.base_type, b);
    }
    Ok(())
}
fn extreme_ids(rng: &mut Rng, f: &mut [ParquetType]) {
    for t in f {
        let id = match rng.below(8) {
            0 => Some(i32::MIN),
            1 => Some(i32::MAX),
            2 => Some(0),
            3 => Some(-1),
            _ => None,
        };
        match t {
            ParquetType::PrimitiveType(p) => {
                if id.is_some() {
                    p.field_info.id = id
                }
            }
            ParquetType::GroupType { field_info, fields, .. } => {
                if id.is_some() {
                    field_info.id = id
                }
                extreme_ids(rng, fields)
            }
        }
    }
}
fn rand_tree(rng: &mut Rng) -> Vec<ParquetType> {
    let (n, d) = match rng.below(10) {
        0 => (1, 0),
        1..=5 => (6, 3),
        6..=7 => (16, 5),
        8 => (8, 12),
        _ => (60, 3),
    };
    let mut f = rand_fields(rng, n, d, true);
    if rng.chance(1, 12) {
        // a field with many nested groups
        let k = rng.range(5, 200);
        let mut t = f.pop().unwrap();
        for i in 0..k {
            let (c, l) = rand_group_annot(rng);
            let mut g = vec![t];
            if rng.chance(1, 6) {
                let p = rand_ph(rng);
                let rep = rand_repetition(rng);
                let x = rand_primitive(rng, format!("side{i}"), rep, p, true);
                let at = rng.below(2);
                g.insert(at, x);
            }
            t = ParquetType::from_group(format!("n{i}"), rand_repetition(rng), c, l, g, None);
        }
        f.push(t);
    }
    if rng.chance(1, 10) {
        // a group without fields
        let g = ParquetType::from_group("hollow".into(), rand_repetition(rng), None, None, vec![], None);
        let at = rng.below(f.len() + 1);
        f.insert(at, g);
    }
    if rng.chance(1, 25) {
        f.clear();
    }
    extreme_ids(rng, &mut f);
    f
}
fn shape_counts(c: &mut Case, fields: &[ParquetType]) {
    fn depth(t: &ParquetType) -> usize {
        match t {
            ParquetType::PrimitiveType(_) => 1,
            ParquetType::GroupType { fields, .. } => 1 + fields.iter().map(depth).max().unwrap_or(0),
        }
    }
    let d = fields.iter().map(depth).max().unwrap_or(0);
    c.count(&format!("depth:{}", if d > 20 { ">20".to_string() } else if d > 6 { "7-20".into() } else { d.to_string() }));
    let ls = leaves(fields);
    c.add("leaves", ls.len() as u64);
    for l in &ls {
        if let Some(x) = &l.prim.converted_type {
            let s = format!("{x:?}");
            c.count(&format!("converted:{}", s.split('(').next().unwrap()));
        }
        if let Some(x) = &l.prim.logical_type {
            let s = format!("{x:?}");
            c.count(&format!("logical:{}", s.split([' ', '(']).next().unwrap()));
        }
    }
}
fn roundtrip(c: &mut Case) -> R {
    let fields = rand_tree(&mut c.rng);
    let name = rand_name(&mut c.rng, 0);
    c.distinct(hash_str(&format!("{name}{fields:?}")));
    shape_counts(c, &fields);
    c.eval();
    let d = must(guarded("descriptor", || SchemaDescriptor::new(name.clone(), fields.clone()))?.pipe_ok(), "descriptor")?;
    check_descriptor(&d, &name, &fields)?;
    let opt = WriteOptions {
        write_statistics: c.rng.bool(),
        version: if c.rng.bool() { Version::V1 } else { Version::V2 },
    };
    let b = guarded("write", || {
        let mut w = FileWriter::new(Cursor::new(vec![]), d.clone(), opt, None);
        w.end(None)?;
        Ok::<_, parquet2::error::Error>(w.into_inner().into_inner())
    })?;
    let b = must(b, "write")?;
    let footer = crate::model::pq::footer(&b).map_err(|e| failure("schema:footer", e))?.0;
    check_schema(&name, &fields, footer.list(2).map_err(|e| failure("schema:footer", e))?)?;
    let md = must(guarded("read_metadata", || read_metadata(&mut Cursor::new(&b)))?, "read_metadata")?;
    check_descriptor(&md.schema_descr, &name, &fields)?;
    // the stored structure of the metadata read
    let t = guarded("into_thrift", || md.clone().into_thrift())?;
    let again = must(guarded("try_from_thrift", || ParquetType::try_from_thrift(&t.schema))?, "try_from_thrift")?;
    ensure!(again == root(&name, &fields), "schema:again", "{again:?} expected {:?}", root(&name, &fields));
    c.sample(|| format!("{name:?}: {} fields, {} leaves", fields.len(), leaves(&fields).len()));
    Ok(())
}
pub trait PipeOk: Sized {
    fn pipe_ok(self) -> Result<Self, parquet2::error::Error> {
        Ok(self)
    }
}
impl<T> PipeOk for T {}

fn read_schema(els: &[S]) -> R<Result<SchemaDescriptor, String>> {
    let f = S::new()
        .with(1, V::I32(1))
        .with(2, V::List(12, els.iter().map(|s| V::Struct(s.clone())).collect()))
        .with(3, V::I64(0))
        .with(4, V::List(12, vec![]));
    let b = with_footer(b"PAR1", &f);
    let r = guarded("read_metadata", || read_metadata(&mut Cursor::new(&b)))?;
    Ok(r.map(|m| m.schema_descr).map_err(|e| e.to_string()))
}
fn set(s: &mut S, id: i16, v: Option<V>) {
    s.0.retain(|x| x.0 != id);
    if let Some(v) = v {
        let at = s.0.iter().position(|x| x.0 > id).unwrap_or(s.0.len());
        s.0.insert(at, (id, v));
    }
}
/// other writers' forms of the same schema
fn foreign(c: &mut Case) -> R {
    let fields = rand_tree(&mut c.rng);
    let name = rand_name(&mut c.rng, 0);
    let mut els = flatten(&name, &fields);
    let rng = &mut c.rng;
    let mut forms = std::collections::BTreeSet::new();
    for (i, e) in els.iter_mut().enumerate() {
        if i == 0 {
            if rng.chance(1, 3) {
                set(e, 3, Some(V::I32(rng.below(3) as i32)));
                forms.insert("root-repetition");
            }
            continue;
        }
        if e.has(1) {
            if rng.chance(1, 3) {
                set(e, 5, Some(V::I32(0)));
                forms.insert("zero-children");
            }
            if !e.has(2) && rng.chance(1, 6) {
                set(e, 2, Some(V::I32(rng.below(20) as i32)));
                forms.insert("spurious-type-length");
            }
            let dec = e.i32(6).ok() == Some(5);
            if dec && e.i32(7).ok() == Some(0) && rng.bool() {
                set(e, 7, None);
                forms.insert("no-scale");
            }
            // the logical decimal is stored with precision and scale by other writers
            if let Ok(l) = e.st(10) {
                if let (Ok(d), false) = (l.st(5), dec) {
                    if !e.has(6) && rng.bool() {
                        let (s, p) = (d.i32(1).unwrap(), d.i32(2).unwrap());
                        set(e, 7, Some(V::I32(s)));
                        set(e, 8, Some(V::I32(p)));
                        forms.insert("logical-decimal-precision");
                    }
                }
            }
        }
    }
    for f in &forms {
        c.count(&format!("form:{f}"));
    }
    c.distinct(hash_bytes(&els.iter().flat_map(thrift::bytes).collect::<Vec<_>>()));
    c.eval();
    let d = read_schema(&els)?.map_err(|e| failure("schema:foreign", format!("{forms:?}: {e} for {els:?}")))?;
    check_descriptor(&d, &name, &fields)
}

// ------------------------------------------------------------------ legality, independently
/// number of decimal digits of 2^k - 1, by doubling a decimal number
fn digits(k: usize) -> usize {
    let mut d = vec![1u32];
    for _ in 0..k {
        let mut carry = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + carry;
            *x = v % 1_000_000_000;
            carry = v / 1_000_000_000;
        }
        if carry > 0 {
            d.push(carry)
        }
    }
    // 2^k - 1 has as many digits as 2^k, unless k is 0
    if k == 0 {
        return 1;
    }
    (d.len() - 1) * 9 + d.last().unwrap().to_string().len()
}
fn decimal_legal(ph: Ph, p: i64, s: i64) -> bool {
    if p < 1 || s < 0 || s > p {
        return false;
    }
    match ph {
        Ph::I32 => p <= 9,
        Ph::I64 => p <= 18,
        Ph::Ba => true,
        Ph::Fl(0) => false,
        // floor(log10(x)) is the number of digits minus one
        Ph::Fl(n) => p <= digits(8 * n - 1) as i64 - 1,
        _ => false,
    }
}
fn converted_legal(ph: Ph, code: i32, p: Option<i64>, s: Option<i64>) -> bool {
    match code {
        0 | 4 | 19 | 20 => ph == Ph::Ba,
        5 => match p {
            Some(p) => decimal_legal(ph, p, s.unwrap_or(0)),
            None => false,
        },
        6 | 7 | 11 | 12 | 13 | 15 | 16 | 17 => ph == Ph::I32,
        8 | 9 | 10 | 14 | 18 => ph == Ph::I64,
        21 => ph == Ph::Fl(12),
        _ => false,
    }
}
/// `None`: the format does not settle it
fn logical_legal(ph: Ph, l: &PrimitiveLogicalType) -> Option<bool> {
    use PrimitiveLogicalType::*;
    Some(match l {
        String | Enum | Json | Bson => ph == Ph::Ba,
        Decimal(p, s) => decimal_legal(ph, *p as i64, *s as i64),
        Date => ph == Ph::I32,
        Time { unit: TimeUnit::Milliseconds, .. } => ph == Ph::I32,
        Time { .. } | Timestamp { .. } => ph == Ph::I64,
        Integer(IntegerType::Int64 | IntegerType::UInt64) => ph == Ph::I64,
        Integer(_) => ph == Ph::I32,
        Unknown => {
            if ph == Ph::I32 {
                true
            } else {
                return None;
            }
        }
        Uuid => ph == Ph::Fl(16),
    })
}
fn any_ph(rng: &mut Rng) -> Ph {
    match rng.below(12) {
        0 => Ph::Bool,
        1 => Ph::I32,
        2 => Ph::I64,
        3 => Ph::I96,
        4 => Ph::F32,
        5 => Ph::F64,
        6 => Ph::Ba,
        7 => Ph::Fl(12),
        8 => Ph::Fl(16),
        9 => Ph::Fl(rng.below(40)),
        10 => Ph::Fl(rng.range(1, 20)),
        _ => Ph::Fl(rng.range(100, 400)),
    }
}
/// precisions around the limit of the type
fn any_decimal(rng: &mut Rng, ph: Ph) -> (i64, i64) {
    let lim = match ph {
        Ph::I32 => 9,
        Ph::I64 => 18,
        Ph::Fl(n) if n > 0 => digits(8 * n - 1) as i64 - 1,
        _ => 30,
    };
    let p = match rng.below(8) {
        0 => lim,
        1 => lim + 1,
        2 => (lim - 1).max(0),
        3 => 0,
        4 => i32::MAX as i64,
        5 => lim * 2 + 2,
        _ => rng.range(1, lim.max(1) as usize + 1) as i64,
    };
    let s = match rng.below(6) {
        0 => p,
        1 => p + 1,
        2 => 0,
        _ => rng.below(p.min(1000) as usize + 1) as i64,
    };
    (p, s.min(i32::MAX as i64))
}
fn annotations(c: &mut Case) -> R {
    use PrimitiveConvertedType as C;
    let rng = &mut c.rng;
    let ph = any_ph(rng);
    let (p, s) = any_decimal(rng, ph);
    // every converted and logical type in turn, alone or together
    let all = all_converted();
    let conv = match c.idx % 3 {
        0 => None,
        _ => Some(match all[(c.idx as usize / 3) % all.len()] {
            C::Decimal(..) => C::Decimal(p as usize, s as usize),
            x => x,
        }),
    };
    let logi = match c.idx % 3 {
        1 => None,
        _ => Some(match rand_logical(rng) {
            PrimitiveLogicalType::Decimal(..) => PrimitiveLogicalType::Decimal(p as usize, s as usize),
            x => x,
        }),
    };
    c.distinct(hash_str(&format!("{ph:?}{conv:?}{logi:?}")));
    let lc = conv.as_ref().map_or(Some(true), |x| Some(converted_legal(ph, conv_code(x), Some(p), Some(s))));
    let ll = logi.as_ref().map_or(Some(true), |l| logical_legal(ph, l));
    let (Some(lc), Some(ll)) = (lc, ll) else {
        c.count("unspecified");
        return Ok(());
    };
    let legal = lc && ll;
    c.count(if legal { "legal" } else { "illegal" });
    c.eval();
    let rep = rand_repetition(&mut c.rng);
    let r = guarded("try_from_primitive", || ParquetType::try_from_primitive("x".into(), ph.to(), rep, conv, logi, Some(3)))?;
    ensure!(
        r.is_ok() == legal,
        if legal { "annotation:legal-rejected" } else { "annotation:illegal-accepted" },
        "{ph:?} converted {conv:?} logical {logi:?}: {r:?}"
    );
    // and as stored
    let mut e = S::new().with(1, V::I32(ph.code()));
    if let Ph::Fl(n) = ph {
        e = e.with(2, V::I32(n as i32))
    }
    e = e.with(3, V::I32(1)).with(4, thrift::s("x"));
    if let Some(x) = &conv {
        e = e.with(6, V::I32(conv_code(x)));
        if matches!(x, C::Decimal(..)) {
            e = e.with(7, V::I32(s as i32)).with(8, V::I32(p as i32));
        }
    }
    e = e.opt(10, logi.as_ref().map(logical_thrift));
    let els = vec![S::new().with(4, thrift::s("r")).with(5, V::I32(1)), e];
    let d = read_schema(&els)?;
    ensure!(
        d.is_ok() == legal,
        if legal { "annotation:legal-rejected" } else { "annotation:illegal-accepted" },
        "stored {ph:?} converted {conv:?} logical {logi:?}: {:?}",
        d.map(|d| d.fields().to_vec())
    );
    if let Ok(d) = d {
        let t = ParquetType::try_from_primitive("x".into(), ph.to(), Repetition::Optional, conv, logi, None).unwrap();
        check_descriptor(&d, "r", &[t])?;
    }
    Ok(())
}

// ------------------------------------------------------------------ malformed trees
#[derive(PartialEq, Debug)]
enum Verdict {
    Good,
    Bad(&'static str),
    Unspecified(&'static str),
}
/// judges the element at `i` and those below it; returns the next position
fn judge(els: &[S], i: usize, depth: usize) -> Result<usize, Verdict> {
    use Verdict::*;
    if depth > 150 {
        return Err(Unspecified("deep"));
    }
    let Some(e) = els.get(i) else { return Err(Bad("missing element")) };
    let n = e.i32(5).ok();
    let ty = e.i32(1).ok();
    let conv = e.i32(6).ok();
    if i == 0 {
        if ty.is_some() {
            return Err(if n.unwrap_or(0) > 0 { Unspecified("typed root") } else { Bad("primitive root") });
        }
        if e.has(10) || conv.is_some() {
            return Err(Unspecified("annotated root"));
        }
    } else {
        match e.i32(3).ok() {
            None => return Err(Bad("no repetition")),
            Some(0..=2) => {}
            Some(_) => return Err(Bad("repetition code")),
        }
    }
    match n {
        Some(n) if n < 0 => Err(Bad("negative children")),
        None | Some(0) if ty.is_some() => {
            let ph = match ty.unwrap() {
                0 => Ph::Bool,
                1 => Ph::I32,
                2 => Ph::I64,
                3 => Ph::I96,
                4 => Ph::F32,
                5 => Ph::F64,
                6 => Ph::Ba,
                7 => match e.i32(2).ok() {
                    None => return Err(Bad("no length")),
                    Some(n) if n < 0 => return Err(Bad("negative length")),
                    Some(n) => Ph::Fl(n as usize),
                },
                _ => return Err(Bad("type code")),
            };
            let (s, p) = (e.i32(7).ok().map(|x| x as i64), e.i32(8).ok().map(|x| x as i64));
            if let Some(code) = conv {
                if code != 5 && (s.is_some() || p.is_some()) {
                    return Err(Unspecified("precision of another type"));
                }
                if let Ph::Fl(n) = ph {
                    if n > 2000 {
                        return Err(Unspecified("huge length"));
                    }
                }
                if !converted_legal(ph, code, p, s) {
                    return Err(Bad("converted type"));
                }
            }
            if let Ok(l) = e.st(10) {
                if l.0.len() != 1 {
                    return Err(Unspecified("union"));
                }
                let d = |s: &S, i| s.i32(i).unwrap_or(-1) as i64;
                let (id, v) = (&l.0[0].0, l.0[0].1.as_struct().cloned().unwrap_or_default());
                let unit = |v: &S| v.st(2).ok().and_then(|u| u.0.first().map(|x| x.0));
                let ok = match id {
                    1 | 4 | 12 | 13 => ph == Ph::Ba,
                    2 | 3 => false,
                    5 => decimal_legal(ph, d(&v, 2), d(&v, 1)),
                    6 => ph == Ph::I32,
                    7 => match unit(&v) {
                        Some(1) => ph == Ph::I32,
                        Some(2 | 3) => ph == Ph::I64,
                        _ => return Err(Unspecified("unit")),
                    },
                    8 => match unit(&v) {
                        Some(1..=3) => ph == Ph::I64,
                        _ => return Err(Unspecified("unit")),
                    },
                    10 => match v.0.first().map(|x| &x.1) {
                        Some(V::I8(8 | 16 | 32)) => ph == Ph::I32,
                        Some(V::I8(64)) => ph == Ph::I64,
                        _ => return Err(Unspecified("width")),
                    },
                    11 if ph == Ph::I32 => true,
                    14 => ph == Ph::Fl(16),
                    _ => return Err(Unspecified("logical")),
                };
                if !ok {
                    return Err(Bad("logical type"));
                }
            }
            Ok(i + 1)
        }
        None => Err(Bad("no type and no children")),
        Some(n) => {
            if ty.is_some() {
                return Err(Unspecified("typed group"));
            }
            if i != 0 {
                if let Some(c) = conv {
                    if !(1..=3).contains(&c) {
                        return Err(Bad("group converted type"));
                    }
                }
                if let Ok(l) = e.st(10) {
                    match l.0.first().map(|x| x.0) {
                        Some(2 | 3) => {}
                        Some(1 | 4..=8 | 10..=14) => return Err(Bad("group logical type")),
                        _ => return Err(Unspecified("union")),
                    }
                }
            }
            let mut at = i + 1;
            for _ in 0..n {
                at = judge(els, at, depth + 1)?;
            }
            Ok(at)
        }
    }
}
fn verdict(els: &[S]) -> Verdict {
    match judge(els, 0, 0) {
        Err(Verdict::Good) => unreachable!(),
        Err(v) => v,
        Ok(n) if n != els.len() => Verdict::Bad("elements left over"),
        Ok(_) => Verdict::Good,
    }
}
fn malformed(c: &mut Case) -> R {
    let fields = {
        let n = c.rng.range(1, 8);
        let d = c.rng.below(4);
        rand_fields(&mut c.rng, n, d, true)
    };
    let mut els = flatten("root", &fields);
    ensure!(verdict(&els) == Verdict::Good, "harness:judge", "{:?} for {els:?}", verdict(&els));
    let rng = &mut c.rng;
    for _ in 0..rng.range(1, 2) {
        if els.is_empty() {
            break;
        }
        let i = rng.below(els.len());
        let j = rng.below(els.len());
        let codes = |rng: &mut Rng, max: i32| *rng.pick(&[-1, max, max + 1, i32::MAX, i32::MIN, 100]);
        match rng.below(15) {
            0 => {
                els.remove(i);
            }
            1 => {
                let x = els[i].clone();
                els.insert(j, x)
            }
            2 => els.swap(i, j),
            3 => {
                let n = els[i].i32(5).unwrap_or(0);
                let k = *rng.pick(&[n.wrapping_add(1), n.wrapping_sub(1), n.wrapping_add(2), -1, i32::MIN, i32::MAX, 0, 1000]);
                set(&mut els[i], 5, Some(V::I32(k)))
            }
            4 => set(&mut els[i], 5, None),
            5 => set(&mut els[i], 1, None),
            6 => set(&mut els[i], 3, None),
            7 => {
                let k = codes(rng, 8);
                set(&mut els[i], 1, Some(V::I32(k)))
            }
            8 => {
                let k = codes(rng, 3);
                set(&mut els[i], 3, Some(V::I32(k)))
            }
            9 => {
                let k = if rng.bool() { codes(rng, 22) } else { rng.below(22) as i32 };
                set(&mut els[i], 6, Some(V::I32(k)))
            }
            10 => {
                let l = rand_logical(rng);
                let v = if rng.chance(1, 3) { V::Struct(S::new().with(*rng.pick(&[2, 3]), V::Struct(S::new()))) } else { logical_thrift(&l) };
                set(&mut els[i], 10, Some(v))
            }
            11 => set(&mut els[i], 2, None),
            12 => set(&mut els[i], 2, Some(V::I32(*rng.pick(&[-1, 0, i32::MIN, 1, 13])))),
            13 => {
                let k = rng.below(8) as i32;
                set(&mut els[i], 1, Some(V::I32(k)))
            }
            _ => {
                let f = *rng.pick(&[7i16, 8]);
                let v = if rng.bool() { None } else { Some(V::I32(*rng.pick(&[-1, 0, 1, 5, 10, 40, i32::MAX, i32::MIN]))) };
                set(&mut els[i], f, v)
            }
        }
    }
    c.distinct(hash_bytes(&els.iter().flat_map(thrift::bytes).collect::<Vec<_>>()));
    let v = verdict(&els);
    match &v {
        Verdict::Good => c.count("still-well-formed"),
        Verdict::Bad(w) => c.count(&format!("bad:{w}")),
        Verdict::Unspecified(w) => c.count(&format!("unspecified:{w}")),
    }
    c.eval();
    let d = read_schema(&els)?;
    match v {
        Verdict::Good => {
            let d = d.map_err(|e| failure("malformed:good-rejected", format!("{e}: {els:?}")))?;
            // what is read is what is stored
            let exp = flatten(d.name(), d.fields());
            let norm = |s: &S| -> S {
                let mut s = s.clone();
                let prim = s.has(1);
                if prim {
                    set(&mut s, 5, None)
                }
                if s.i32(1).ok() != Some(7) {
                    set(&mut s, 2, None)
                }
                if s.i32(6).ok() != Some(5) {
                    set(&mut s, 7, None);
                    set(&mut s, 8, None)
                } else if !s.has(7) {
                    set(&mut s, 7, Some(V::I32(0)))
                }
                s
            };
            for (k, (a, b)) in exp.iter().zip(&els).enumerate() {
                let (mut a, mut b) = (norm(a), norm(b));
                if k == 0 {
                    for f in [2, 3, 9] {
                        set(&mut a, f, None);
                        set(&mut b, f, None)
                    }
                }
                ensure!(a == b, "malformed:read-differs", "element {k}: stored {b:?}, read as {a:?}");
            }
            ensure!(exp.len() == els.len(), "malformed:read-differs", "{} elements stored, {} read", els.len(), exp.len());
        }
        Verdict::Bad(w) => ensure!(d.is_err(), "malformed:accepted", "{w}: {els:?} read as {:?}", d.map(|d| d.fields().to_vec())),
        Verdict::Unspecified(_) => {}
    }
    Ok(())
}
fn several_roots(c: &mut Case) -> R {
    // no root, several roots, and lists that are cut
    let fields = rand_fields(&mut c.rng, 5, 2, true);
    let els = flatten("root", &fields);
    c.distinct(hash_bytes(&els.iter().flat_map(thrift::bytes).collect::<Vec<_>>()));
    c.evals(els.len() + 1);
    for n in 0..els.len() {
        let d = read_schema(&els[..n])?;
        ensure!(d.is_err(), "malformed:cut-accepted", "the first {n} of {els:?}");
    }
    let two: Vec<S> = els.iter().chain(&els).cloned().collect();
    ensure!(read_schema(&two)?.is_err(), "malformed:two-roots", "{els:?} twice");
    Ok(())
}
/// a part of the fields (a projection): some fields are left out, at any level
fn part(rng: &mut Rng, f: &[ParquetType]) -> Vec<ParquetType> {
    let mut out = vec![];
    for x in f {
        if rng.chance(1, 4) {
            continue;
        }
        out.push(match x {
            ParquetType::GroupType { field_info, logical_type, converted_type, fields } => ParquetType::GroupType {
                field_info: field_info.clone(),
                logical_type: *logical_type,
                converted_type: *converted_type,
                fields: part(rng, fields),
            },
            x => x.clone(),
        });
    }
    if rng.chance(1, 4) {
        rng.shuffle(&mut out);
    }
    out
}
fn nodes<'a>(f: &'a mut [ParquetType], out: &mut Vec<&'a mut ParquetType>) {
    for x in f {
        if matches!(x, ParquetType::GroupType { fields, .. } if !fields.is_empty()) {
            if let ParquetType::GroupType { fields, .. } = x {
                nodes(fields, out)
            }
        } else {
            out.push(x)
        }
    }
}
fn contains(c: &mut Case) -> R {
    let mut rng = c.rng.clone();
    let rng = &mut rng;
    let fields = rand_fields(rng, 12, 3, true);
    let whole = root("schema", &fields);
    let sub = part(rng, &fields);
    c.distinct(hash_str(&format!("{fields:?}{sub:?}")));
    c.sample(|| format!("{fields:?} contains {sub:?}"));
    let name = if rng.bool() { "schema" } else { "other" };
    let r = guarded("check_contains", || whole.check_contains(&root(name, &sub)))?;
    ensure!(r, "contains:projection", "{sub:?} is not part of {fields:?}");
    c.count("projections");
    // another leaf
    let mut other = sub.clone();
    let mut l = vec![];
    nodes(&mut other, &mut l);
    if l.is_empty() {
        return Ok(());
    }
    let k = rng.below(l.len());
    let n = &mut *l[k];
    let what = match rng.below(4) {
        0 => {
            match n {
                ParquetType::PrimitiveType(p) => p.field_info.name.push_str("_other_"),
                ParquetType::GroupType { field_info, .. } => field_info.name.push_str("_other_"),
            }
            "name"
        }
        1 => {
            *n = match &*n {
                ParquetType::PrimitiveType(p) => ParquetType::from_group(p.field_info.name.clone(), p.field_info.repetition, None, None, vec![], p.field_info.id),
                ParquetType::GroupType { field_info, .. } => {
                    let mut p = PrimitiveType::from_physical(field_info.name.clone(), PhysicalType::Int32);
                    p.field_info = field_info.clone();
                    ParquetType::PrimitiveType(p)
                }
            };
            "kind"
        }
        2 => match n {
            ParquetType::PrimitiveType(p) => {
                let all = [
                    PhysicalType::Boolean,
                    PhysicalType::Int32,
                    PhysicalType::Int64,
                    PhysicalType::Int96,
                    PhysicalType::Float,
                    PhysicalType::Double,
                    PhysicalType::ByteArray,
                    PhysicalType::FixedLenByteArray(rng.range(1, 20)),
                ];
                let (what, new) = match p.physical_type {
                    PhysicalType::FixedLenByteArray(n) if rng.bool() => ("length", PhysicalType::FixedLenByteArray(if rng.bool() { n + 1 } else { n ^ (1 << rng.below(16)) })),
                    _ => ("physical-type", *rng.pick(&all)),
                };
                if new == p.physical_type {
                    return Ok(());
                }
                p.physical_type = new;
                what
            }
            _ => return Ok(()),
        },
        _ => match n {
            ParquetType::PrimitiveType(p) => {
                p.field_info.repetition = if p.field_info.repetition == Repetition::Optional { Repetition::Required } else { Repetition::Optional };
                "repetition"
            }
            _ => return Ok(()),
        },
    };
    let r = guarded("check_contains", || whole.check_contains(&root(name, &other)))?;
    ensure!(!r, format!("contains:other-{what}"), "{other:?} is taken as part of {fields:?}");
    c.count(&format!("other-{what}"));
    c.eval();
    Ok(())
}
pub fn prop13() -> Prop {
    Prop {
        id: "C13",
        rule: "random schema trees (nesting up to 200, all annotations, ids, repeated and related names, groups without fields) are written and read back and compared with an independent model of the stored list, leaves and levels; the same trees in other writers' stored forms; stored lists after one or two mutations judged by an independent well-formedness and legality table; every annotation against every physical type; distinct = hash of the tree or list",
        assumptions: &[
            "UNKNOWN on types other than INT32, integer widths outside 8, 16, 32 and 64, annotations of the root and groups with a physical type are not judged",
            "nesting past 150 groups is only required not to crash",
        ],
        families: vec![
            Family { name: "roundtrip", quick: 60000, thorough: 1000000, f: roundtrip },
            Family { name: "foreign", quick: 60000, thorough: 1000000, f: foreign },
            Family { name: "malformed", quick: 300000, thorough: 4000000, f: malformed },
            Family { name: "cut", quick: 20000, thorough: 300000, f: several_roots },
            Family { name: "contains", quick: 120000, thorough: 1500000, f: contains },
            Family { name: "annotations", quick: 300000, thorough: 4000000, f: annotations },
        ],
    }
}

// ------------------------------------------------------------------ C14
fn word(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s.chars().map(|ch| if rng.bool() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}
fn msg_name(rng: &mut Rng, i: usize) -> String {
    match rng.below(10) {
        0 => (*rng.pick(&[
            "required", "optional", "REPEATED", "group", "message", "int32", "binary", "UTF8", "LIST", "fixed_len_byte_array", "true", "1", "-1", "0x1F",
        ]))
        .to_string()
            + if rng.bool() { "" } else { "_" },
        1 => format!("né{i}"),
        2 => format!("名前{i}"),
        3 => format!("a.b.{i}"),
        4 => format!("\"quoted{i}\""),
        5 => format!("#{i}-[x]:<y>/\\'`"),
        6 => format!("{}{i}", "x".repeat(rng.range(1, 300))),
        7 => format!("🦀{i}"),
        _ => format!("c{i}"),
    }
}
fn toks(rng: &mut Rng, o: &mut Vec<String>, w: &[&str]) {
    for x in w {
        let w = word(rng, x);
        o.push(w)
    }
}
fn bool_tok(rng: &mut Rng, o: &mut Vec<String>, b: bool) {
    let t = word(rng, if b { "true" } else { "false" });
    o.push(t)
}
fn unit_tok(u: TimeUnit) -> &'static str {
    match u {
        TimeUnit::Milliseconds => "MILLIS",
        TimeUnit::Microseconds => "MICROS",
        TimeUnit::Nanoseconds => "NANOS",
    }
}
fn rep_tok(r: Repetition) -> &'static str {
    match r {
        Repetition::Required => "required",
        Repetition::Optional => "optional",
        Repetition::Repeated => "repeated",
    }
}
/// a random field, its text appended to `o`
fn msg_field(rng: &mut Rng, ctr: &mut usize, depth: usize, budget: &mut usize, o: &mut Vec<String>, seen: &mut std::collections::BTreeMap<String, u64>) -> ParquetType {
    *ctr += 1;
    *budget = budget.saturating_sub(1);
    let name = msg_name(rng, *ctr);
    let rep = *rng.pick(&[Repetition::Required, Repetition::Optional, Repetition::Repeated]);
    toks(rng, o, &[rep_tok(rep)]);
    let id = match rng.below(6) {
        0 => Some(rng.u32() as i32),
        1 => Some(rng.below(10) as i32),
        2 => Some(*rng.pick(&[i32::MIN, i32::MAX, -1, 0])),
        _ => None,
    };
    let mut see = |s: &str| *seen.entry(s.to_string()).or_insert(0) += 1;
    if depth > 0 && rng.chance(1, 3) {
        toks(rng, o, &["group"]);
        o.push(name.clone());
        let conv = match rng.below(6) {
            0 => Some((GroupConvertedType::List, "LIST")),
            1 => Some((GroupConvertedType::Map, "MAP")),
            2 => Some((GroupConvertedType::MapKeyValue, "MAP_KEY_VALUE")),
            _ => None,
        };
        if let Some((_, t)) = conv {
            see(&format!("group:{t}"));
            toks(rng, o, &["(", t, ")"]);
        }
        if let Some(i) = id {
            o.push("=".into());
            o.push(i.to_string())
        }
        o.push("{".into());
        let mut f = vec![];
        for _ in 0..rng.below(4) {
            if *budget == 0 {
                break;
            }
            f.push(msg_field(rng, ctr, depth - 1, budget, o, seen));
        }
        o.push("}".into());
        return ParquetType::from_group(name, rep, conv.map(|x| x.0), None, f, id);
    }
    // an annotation with a type it can be given to
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    let mut conv = None;
    let mut logi = None;
    let mut a: Vec<String> = vec![];
    let ph;
    match rng.below(4) {
        0 => ph = any_ph(rng),
        1 => {
            let t = *rng.pick(&[
                (C::Utf8, Ph::Ba, "UTF8"),
                (C::TimeMillis, Ph::I32, "TIME_MILLIS"),
                (C::TimeMicros, Ph::I64, "TIME_MICROS"),
                (C::TimestampMillis, Ph::I64, "TIMESTAMP_MILLIS"),
                (C::TimestampMicros, Ph::I64, "TIMESTAMP_MICROS"),
                (C::Uint8, Ph::I32, "UINT_8"),
                (C::Uint16, Ph::I32, "UINT_16"),
                (C::Uint32, Ph::I32, "UINT_32"),
                (C::Uint64, Ph::I64, "UINT_64"),
                (C::Int8, Ph::I32, "INT_8"),
                (C::Int16, Ph::I32, "INT_16"),
                (C::Int32, Ph::I32, "INT_32"),
                (C::Int64, Ph::I64, "INT_64"),
                (C::Interval, Ph::Fl(12), "INTERVAL"),
            ]);
            ph = t.1;
            conv = Some(t.0);
            toks(rng, &mut a, &[t.2]);
        }
        _ => {
            let l = rand_logical(rng);
            let fit: Vec<Ph> = [Ph::I32, Ph::I64, Ph::Ba, Ph::Fl(16), Ph::Fl(rng.range(1, 30))]
                .into_iter()
                .filter(|p| logical_legal(*p, &l) == Some(true))
                .collect();
            ph = *rng.pick(&fit);
            let l = match l {
                L::Decimal(p, _) if rng.chance(1, 3) => L::Decimal(p, 0),
                L::Time { .. } if ph == Ph::I32 && rng.bool() => L::Time { unit: TimeUnit::Milliseconds, is_adjusted_to_utc: false },
                x => x,
            };
            logi = Some(l);
            match l {
                L::String => toks(rng, &mut a, &["STRING"]),
                L::Enum => toks(rng, &mut a, &["ENUM"]),
                L::Date => toks(rng, &mut a, &["DATE"]),
                L::Json => toks(rng, &mut a, &["JSON"]),
                L::Bson => toks(rng, &mut a, &["BSON"]),
                L::Uuid => toks(rng, &mut a, &["UUID"]),
                L::Unknown => toks(rng, &mut a, &["UNKNOWN"]),
                L::Decimal(p, s) => {
                    toks(rng, &mut a, &["DECIMAL", "("]);
                    a.push(p.to_string());
                    if s != 0 || rng.bool() {
                        a.push(",".into());
                        a.push(s.to_string())
                    }
                    a.push(")".into())
                }
                L::Time { unit, is_adjusted_to_utc: u } | L::Timestamp { unit, is_adjusted_to_utc: u } => {
                    toks(rng, &mut a, &[if matches!(l, L::Time { .. }) { "TIME" } else { "TIMESTAMP" }]);
                    let bare = unit == TimeUnit::Milliseconds && !u && rng.bool();
                    if !bare {
                        toks(rng, &mut a, &["(", unit_tok(unit)]);
                        if u || rng.bool() {
                            a.push(",".into());
                            bool_tok(rng, &mut a, u)
                        }
                        a.push(")".into())
                    }
                }
                L::Integer(i) => {
                    let (w, s): (usize, bool) = match i {
                        IntegerType::Int8 => (8, true),
                        IntegerType::Int16 => (16, true),
                        IntegerType::Int32 => (32, true),
                        IntegerType::Int64 => (64, true),
                        IntegerType::UInt8 => (8, false),
                        IntegerType::UInt16 => (16, false),
                        IntegerType::UInt32 => (32, false),
                        IntegerType::UInt64 => (64, false),
                    };
                    toks(rng, &mut a, &["INTEGER", "("]);
                    a.push(w.to_string());
                    a.push(",".into());
                    bool_tok(rng, &mut a, s);
                    a.push(")".into())
                }
            }
        }
    }
    if let Some(t) = a.first() {
        see(&format!("annotation:{}", t.to_uppercase()));
    }
    match ph {
        Ph::Bool => toks(rng, o, &["boolean"]),
        Ph::I32 => toks(rng, o, &["int32"]),
        Ph::I64 => toks(rng, o, &["int64"]),
        Ph::I96 => toks(rng, o, &["int96"]),
        Ph::F32 => toks(rng, o, &["float"]),
        Ph::F64 => toks(rng, o, &["double"]),
        Ph::Ba => {
            let t = if rng.bool() { "binary" } else { "byte_array" };
            toks(rng, o, &[t])
        }
        Ph::Fl(n) => {
            toks(rng, o, &["fixed_len_byte_array", "("]);
            o.push(n.to_string());
            o.push(")".into())
        }
    }
    o.push(name.clone());
    if !a.is_empty() {
        o.push("(".into());
        o.extend(a);
        o.push(")".into())
    }
    if let Some(i) = id {
        see("id");
        o.push("=".into());
        o.push(i.to_string())
    }
    o.push(";".into());
    ParquetType::try_from_primitive(name, ph.to(), rep, conv, logi, id).unwrap()
}
fn delim(s: &str) -> bool {
    matches!(s, ";" | "{" | "}" | "(" | ")" | "=" | ",")
}
fn white(rng: &mut Rng, style: usize) -> String {
    match style {
        0 => " ".into(),
        1 => "\n".into(),
        _ => (0..rng.range(1, 4)).map(|_| *rng.pick(&[' ', '\n', '\t', '\r', ' '])).collect(),
    }
}
fn layout(rng: &mut Rng, t: &[String]) -> String {
    let style = rng.below(4);
    let dense = rng.below(3);
    let mut s = String::new();
    if rng.bool() {
        s += &white(rng, style)
    }
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let need = !delim(x) && !delim(&t[i - 1]);
            if need || dense == 0 || (dense == 1 && rng.bool()) {
                s += &white(rng, style)
            }
        }
        s += x;
    }
    if rng.bool() {
        s += &white(rng, style)
    }
    s
}
fn message(c: &mut Case) -> (Vec<String>, String, Vec<ParquetType>) {
    let rng = &mut c.rng;
    let name = msg_name(rng, 0);
    let mut o = vec!["message".to_string(), name.clone(), "{".into()];
    let (n, d) = *rng.pick(&[(1, 0), (6, 2), (6, 2), (15, 4), (30, 6)]);
    let mut budget = rng.range(0, n);
    let mut ctr = 0;
    let mut f = vec![];
    let mut seen = Default::default();
    while budget > 0 {
        f.push(msg_field(rng, &mut ctr, d, &mut budget, &mut o, &mut seen));
    }
    o.push("}".into());
    for (k, v) in seen {
        c.add(&k, v)
    }
    (o, name, f)
}
fn parses(c: &mut Case) -> R {
    let (t, name, fields) = message(c);
    let text = layout(&mut c.rng, &t);
    c.distinct(hash_str(&text));
    c.add("tokens", t.len() as u64);
    c.eval();
    let r = must(guarded("from_message", || from_message(&text))?, "from_message")
        .map_err(|e| failure("message:rejected", format!("{} for {text}", e.msg)))?;
    ensure!(r == root(&name, &fields), "message:differs", "{text}\nparsed {r:?}\nexpected {:?}", root(&name, &fields));
    let d = must(guarded("try_from_message", || SchemaDescriptor::try_from_message(&text))?, "try_from_message")?;
    check_descriptor(&d, &name, &fields)?;
    c.sample(|| text.chars().take(300).collect());
    Ok(())
}
fn parses_deep(c: &mut Case) -> R {
    let k = c.rng.range(1, 220);
    let mut t = vec!["message".to_string(), "m".into(), "{".into()];
    let mut reps = vec![];
    for i in 0..k {
        let rep = rand_repetition(&mut c.rng);
        toks(&mut c.rng, &mut t, &[rep_tok(rep), "group"]);
        t.push(format!("g{i}"));
        t.push("{".into());
        reps.push(rep);
    }
    let mut o = vec![];
    let leaf = msg_field(&mut c.rng, &mut 0, 0, &mut 1, &mut o, &mut Default::default());
    t.extend(o);
    t.extend((0..=k).map(|_| "}".to_string()));
    let mut f = leaf;
    for (i, rep) in reps.into_iter().enumerate().rev() {
        f = ParquetType::from_group(format!("g{i}"), rep, None, None, vec![f], None);
    }
    let text = layout(&mut c.rng, &t);
    c.distinct(hash_str(&text));
    c.eval();
    let r = must(guarded("from_message", || from_message(&text))?, "from_message")?;
    ensure!(r == root("m", &[f]), "message:differs", "{k} nested groups");
    Ok(())
}
fn hostile_text(c: &mut Case) -> R {
    let (mut t, _, _) = message(c);
    let rng = &mut c.rng;
    const SOUP: [&str; 44] = [
        ";", "{", "}", "(", ")", "=", ",", "message", "required", "optional", "repeated", "group", "int32", "int64", "int96", "binary", "boolean", "double",
        "fixed_len_byte_array", "DECIMAL", "INTEGER", "TIME", "TIMESTAMP", "LIST", "MAP", "UTF8", "INTERVAL", "MILLIS", "NANOS", "true", "false", "8", "64",
        "-1", "99999999999", "2147483647", "-2147483648", "0", "x", "é", "名", "🦀", "UUID", "UNKNOWN",
    ];
    let text = match rng.below(10) {
        0 => {
            // token soup
            let n = rng.size(60);
            t = (0..n).map(|_| rng.pick(&SOUP).to_string()).collect();
            if rng.bool() {
                t.insert(0, "message".into());
                t.insert(1, "m".into());
                t.insert(2, "{".into())
            }
            layout(rng, &t)
        }
        1 => {
            let n = rng.size(200);
            String::from_utf8_lossy(&rng.bytes(n)).into_owned()
        }
        2 if rng.chance(1, 20) => {
            let k = rng.range(250, 30000);
            format!("message m {{ {}", "required group g { ".repeat(k))
        }
        3 => {
            let mut b = layout(rng, &t).into_bytes();
            mutate_bytes(rng, &mut b);
            String::from_utf8_lossy(&b).into_owned()
        }
        4 => {
            let s = layout(rng, &t);
            let ch: Vec<char> = s.chars().collect();
            let n = rng.below(ch.len() + 1);
            ch[..n].iter().collect()
        }
        _ => {
            for _ in 0..rng.range(1, 3) {
                if t.is_empty() {
                    break;
                }
                let i = rng.below(t.len());
                let j = rng.below(t.len());
                match rng.below(5) {
                    0 => {
                        t.remove(i);
                    }
                    1 => {
                        let x = t[i].clone();
                        t.insert(j, x)
                    }
                    2 => t.swap(i, j),
                    3 => t[i] = rng.pick(&SOUP).to_string(),
                    _ => t.insert(i, rng.pick(&SOUP).to_string()),
                }
            }
            layout(rng, &t)
        }
    };
    c.distinct(hash_str(&text));
    c.eval();
    match guarded("from_message", || from_message(&text))? {
        Ok(_) => c.count("accepted"),
        Err(_) => c.count("rejected"),
    }
    match guarded("try_from_message", || SchemaDescriptor::try_from_message(&text))? {
        Ok(d) => {
            // what is accepted can be used
            guarded("accepted schema", || d.columns().len() + d.fields().len())?;
        }
        Err(e) => {
            if e.to_string().is_empty() {
                fail!("message:empty-error", "{text}")
            }
        }
    }
    Ok(())
}
pub fn prop14() -> Prop {
    Prop {
        id: "C14",
        rule: "random schemas are printed by an independent printer (random white space, letter case, every type, annotation with and without its optional arguments, ids, nesting, names that are keywords, contain punctuation or are not ASCII) and must parse to exactly that schema; texts after token and byte mutations, cuts, token soups and deep nesting must give a schema or an error; distinct = hash of the text",
        assumptions: &["the words JSON, BSON, ENUM, DATE and DECIMAL denote the logical types, LIST, MAP and MAP_KEY_VALUE the converted types of groups, as the crate's documentation and tests have it"],
        families: vec![
            Family { name: "printed", quick: 240000, thorough: 2500000, f: parses },
            Family { name: "nested", quick: 9000, thorough: 100000, f: parses_deep },
            Family { name: "hostile", quick: 450000, thorough: 5000000, f: hostile_text },
        ],
    }
}
