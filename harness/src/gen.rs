//! Workload generators: schemas, columns, levels, pages.
use crate::model::enc;
use crate::rt::Rng;
use parquet2::compression::{BrotliLevel, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::encoding::{hybrid_rle, Encoding};
use parquet2::metadata::Descriptor;
use parquet2::page::{DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2, DictPage};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::ParquetStatistics;

pub type Val = Vec<u8>;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ph {
    Bool,
    I32,
    I64,
    I96,
    F32,
    F64,
    Ba,
    Fl(usize),
}
pub const PHS: [Ph; 9] = [
    Ph::Bool,
    Ph::I32,
    Ph::I64,
    Ph::I96,
    Ph::F32,
    Ph::F64,
    Ph::Ba,
    Ph::Fl(5),
    Ph::Fl(16),
];
impl Ph {
    pub fn of(p: PhysicalType) -> Ph {
        match p {
            PhysicalType::Boolean => Ph::Bool,
            PhysicalType::Int32 => Ph::I32,
            PhysicalType::Int64 => Ph::I64,
            PhysicalType::Int96 => Ph::I96,
            PhysicalType::Float => Ph::F32,
            PhysicalType::Double => Ph::F64,
            PhysicalType::ByteArray => Ph::Ba,
            PhysicalType::FixedLenByteArray(n) => Ph::Fl(n),
        }
    }
    pub fn to(self) -> PhysicalType {
        match self {
            Ph::Bool => PhysicalType::Boolean,
            Ph::I32 => PhysicalType::Int32,
            Ph::I64 => PhysicalType::Int64,
            Ph::I96 => PhysicalType::Int96,
            Ph::F32 => PhysicalType::Float,
            Ph::F64 => PhysicalType::Double,
            Ph::Ba => PhysicalType::ByteArray,
            Ph::Fl(n) => PhysicalType::FixedLenByteArray(n),
        }
    }
    /// thrift `Type` code
    pub fn code(self) -> i32 {
        match self {
            Ph::Bool => 0,
            Ph::I32 => 1,
            Ph::I64 => 2,
            Ph::I96 => 3,
            Ph::F32 => 4,
            Ph::F64 => 5,
            Ph::Ba => 6,
            Ph::Fl(_) => 7,
        }
    }
    pub fn width(self) -> Option<usize> {
        Some(match self {
            Ph::Bool => 1,
            Ph::I32 | Ph::F32 => 4,
            Ph::I64 | Ph::F64 => 8,
            Ph::I96 => 12,
            Ph::Ba => return None,
            Ph::Fl(n) => n,
        })
    }
}

#[derive(Debug, Clone)]
pub struct Leaf {
    pub path: Vec<String>,
    pub prim: PrimitiveType,
    pub ph: Ph,
    pub max_rep: u32,
    pub max_def: u32,
}
impl Leaf {
    pub fn descriptor(&self) -> Descriptor {
        Descriptor {
            primitive_type: self.prim.clone(),
            max_def_level: self.max_def as i16,
            max_rep_level: self.max_rep as i16,
        }
    }
}
/// independent computation of the leaves and their levels
pub fn leaves(fields: &[ParquetType]) -> Vec<Leaf> {
    fn go(t: &ParquetType, path: &mut Vec<String>, rep: u32, def: u32, out: &mut Vec<Leaf>) {
        let fi = t.get_field_info();
        let (r, d) = match fi.repetition {
            Repetition::Required => (rep, def),
            Repetition::Optional => (rep, def + 1),
            Repetition::Repeated => (rep + 1, def + 1),
        };
        path.push(fi.name.clone());
        match t {
            ParquetType::PrimitiveType(p) => out.push(Leaf {
                path: path.clone(),
                prim: p.clone(),
                ph: Ph::of(p.physical_type),
                max_rep: r,
                max_def: d,
            }),
            ParquetType::GroupType { fields, .. } => {
                for f in fields {
                    go(f, path, r, d, out)
                }
            }
        }
        path.pop();
    }
    let mut o = vec![];
    for f in fields {
        go(f, &mut vec![], 0, 0, &mut o)
    }
    o
}

pub fn rand_repetition(rng: &mut Rng) -> Repetition {
    *rng.pick(&[Repetition::Required, Repetition::Optional, Repetition::Optional, Repetition::Repeated])
}
fn time_unit(rng: &mut Rng) -> TimeUnit {
    *rng.pick(&[TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds])
}
pub fn all_converted() -> Vec<PrimitiveConvertedType> {
    use PrimitiveConvertedType::*;
    vec![
        Utf8, Enum, Date, TimeMillis, TimeMicros, TimestampMillis, TimestampMicros, Uint8, Uint16, Uint32, Uint64,
        Int8, Int16, Int32, Int64, Json, Bson, Interval, Decimal(3, 1), Decimal(9, 0), Decimal(18, 4), Decimal(38, 10),
    ]
}
pub fn rand_logical(rng: &mut Rng) -> PrimitiveLogicalType {
    use PrimitiveLogicalType::*;
    match rng.below(12) {
        0 => String,
        1 => Enum,
        2 => {
            let p = rng.range(1, 30);
            Decimal(p, rng.range(0, p))
        }
        3 => Date,
        4 => Time {
            unit: time_unit(rng),
            is_adjusted_to_utc: rng.bool(),
        },
        5 => Timestamp {
            unit: time_unit(rng),
            is_adjusted_to_utc: rng.bool(),
        },
        6..=7 => Integer(*rng.pick(&[
            IntegerType::Int8,
            IntegerType::Int16,
            IntegerType::Int32,
            IntegerType::Int64,
            IntegerType::UInt8,
            IntegerType::UInt16,
            IntegerType::UInt32,
            IntegerType::UInt64,
        ])),
        8 => Unknown,
        9 => Json,
        10 => Bson,
        _ => Uuid,
    }
}
pub fn rand_name(rng: &mut Rng, i: usize) -> String {
    match rng.below(12) {
        // names that repeat, extend or contain each other at different depths
        8..=11 => (*rng.pick(&["a", "b", "ab", "A", "a.b", "a.b.a", "b.a", "a b", "", ".", "a.", "key_value", "list", "element"])).to_string(),
        0 => format!("col {i}"),
        1 => format!("ü{i}é"),
        2 => format!("a.b{i}"),
        3 => {
            let n = if rng.chance(1, 10) { rng.range(7, 60) } else { rng.range(1, 6) };
            format!("{}{i}", "long_name_".repeat(n))
        }
        _ => format!("c{i}"),
    }
}
pub fn rand_ph(rng: &mut Rng) -> Ph {
    match rng.below(10) {
        0 => Ph::Bool,
        1..=2 => Ph::I32,
        3..=4 => Ph::I64,
        5 => Ph::I96,
        6 => *rng.pick(&[Ph::F32, Ph::F64]),
        7..=8 => Ph::Ba,
        _ => Ph::Fl(*rng.pick(&[1usize, 2, 3, 5, 12, 16, 20, 37, 130])),
    }
}
/// a primitive whose annotations the crate accepts
pub fn rand_primitive(rng: &mut Rng, name: String, rep: Repetition, ph: Ph, annotate: bool) -> ParquetType {
    let id = if rng.chance(1, 4) { Some(rng.u32() as i32 >> rng.below(31)) } else { None };
    if annotate && rng.chance(1, 2) {
        for _ in 0..20 {
            let c = if rng.bool() { Some(*rng.pick(&all_converted())) } else { None };
            let l = if rng.bool() { Some(rand_logical(rng)) } else { None };
            // a decimal converted type and a decimal logical type share precision/scale in thrift
            if let (Some(PrimitiveConvertedType::Decimal(a, b)), Some(PrimitiveLogicalType::Decimal(p, s))) = (c, l) {
                if (a, b) != (p, s) {
                    continue;
                }
            }
            if let Ok(t) = ParquetType::try_from_primitive(name.clone(), ph.to(), rep, c, l, id) {
                return t;
            }
        }
    }
    ParquetType::try_from_primitive(name, ph.to(), rep, None, None, id).unwrap()
}
pub fn rand_group_annot(rng: &mut Rng) -> (Option<GroupConvertedType>, Option<GroupLogicalType>) {
    match rng.below(6) {
        0 => (Some(GroupConvertedType::List), Some(GroupLogicalType::List)),
        1 => (Some(GroupConvertedType::Map), Some(GroupLogicalType::Map)),
        2 => (Some(GroupConvertedType::MapKeyValue), None),
        3 => (None, Some(GroupLogicalType::List)),
        _ => (None, None),
    }
}
fn rand_field(rng: &mut Rng, ctr: &mut usize, depth: usize, budget: &mut usize, annotate: bool, siblings: &[ParquetType]) -> ParquetType {
    *ctr += 1;
    let mut name = rand_name(rng, *ctr);
    if siblings.iter().any(|s| s.name() == name) {
        name = format!("{name}{}", *ctr);
    }
    let rep = rand_repetition(rng);
    if depth > 0 && *budget > 1 && rng.chance(2, 5) {
        let n = rng.range(1, 3);
        let mut f = vec![];
        for _ in 0..n {
            if *budget == 0 && !f.is_empty() {
                break;
            }
            let x = rand_field(rng, ctr, depth - 1, budget, annotate, &f);
            f.push(x);
        }
        let (c, l) = if annotate { rand_group_annot(rng) } else { (None, None) };
        let id = if rng.chance(1, 4) { Some(rng.below(1000) as i32) } else { None };
        ParquetType::from_group(name, rep, c, l, f, id)
    } else {
        *budget = budget.saturating_sub(1);
        let ph = rand_ph(rng);
        rand_primitive(rng, name, rep, ph, annotate)
    }
}
pub fn rand_fields(rng: &mut Rng, max_leaves: usize, depth: usize, annotate: bool) -> Vec<ParquetType> {
    let mut budget = rng.range(1, max_leaves);
    let mut ctr = 0;
    let mut f = vec![];
    while budget > 0 {
        let x = rand_field(rng, &mut ctr, depth, &mut budget, annotate, &f);
        f.push(x);
    }
    f
}

// ---------------------------------------------------------------- values
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Prof {
    Const,
    LowCard,
    Seq,
    Rand,
    Extreme,
    /// byte arrays of up to 1 MB
    Huge,
}
pub fn rand_prof(rng: &mut Rng) -> Prof {
    *rng.pick(&[Prof::Const, Prof::LowCard, Prof::Seq, Prof::Rand, Prof::Extreme])
}
fn ext_i64(rng: &mut Rng) -> i64 {
    *rng.pick(&[
        0,
        1,
        -1,
        i64::MAX,
        i64::MIN,
        i64::MAX - 1,
        i64::MIN + 1,
        i32::MAX as i64,
        i32::MIN as i64,
        u32::MAX as i64,
        1 << 62,
        -(1 << 62),
        255,
        256,
        65536,
    ])
}
pub fn gen_i64s(rng: &mut Rng, n: usize, p: Prof) -> Vec<i64> {
    let bits = rng.range(1, 63);
    let base = if rng.bool() { rng.u64() as i64 } else { 0 };
    let step = (rng.u64() >> rng.range(30, 62)) as i64;
    (0..n)
        .map(|i| match p {
            Prof::Const => base,
            Prof::LowCard => base.wrapping_add(rng.below(7) as i64),
            Prof::Seq => base.wrapping_add(step.wrapping_mul(i as i64)),
            Prof::Rand => base.wrapping_add((rng.u64() >> (64 - bits)) as i64),
            Prof::Extreme | Prof::Huge => ext_i64(rng),
        })
        .collect()
}
pub fn gen_vals(rng: &mut Rng, ph: Ph, n: usize, p: Prof) -> Vec<Val> {
    match ph {
        Ph::Bool => {
            let d = match p {
                Prof::Const => rng.below(2) * 8,
                _ => rng.range(0, 8),
            };
            (0..n).map(|_| vec![(rng.below(8) < d) as u8]).collect()
        }
        Ph::I32 => match p {
            Prof::Extreme => (0..n)
                .map(|_| {
                    rng.pick(&[0i32, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 30, 255, 65536])
                        .to_le_bytes()
                        .to_vec()
                })
                .collect(),
            _ => gen_i64s(rng, n, p).into_iter().map(|x| (x as i32).to_le_bytes().to_vec()).collect(),
        },
        Ph::I64 => gen_i64s(rng, n, p).into_iter().map(|x| x.to_le_bytes().to_vec()).collect(),
        Ph::I96 => {
            let base = rng.bytes(12);
            (0..n)
                .map(|i| match p {
                    Prof::Const => base.clone(),
                    Prof::LowCard => {
                        let mut b = base.clone();
                        b[rng.below(2) * 11] = rng.below(3) as u8;
                        b
                    }
                    Prof::Seq => {
                        let mut b = vec![0; 12];
                        b[..8].copy_from_slice(&(i as u64).to_le_bytes());
                        b
                    }
                    _ => rng.bytes(12),
                })
                .collect()
        }
        Ph::F32 => {
            let base = rng.u32();
            (0..n)
                .map(|i| {
                    let b = match p {
                        Prof::Const => base,
                        Prof::LowCard => (rng.below(5) as f32 - 2.0).to_bits(),
                        Prof::Seq => (i as f32 * 0.5).to_bits(),
                        Prof::Rand => {
                            let f = f32::from_bits(rng.u32());
                            if f.is_nan() {
                                1.5f32.to_bits()
                            } else {
                                f.to_bits()
                            }
                        }
                        Prof::Extreme | Prof::Huge => rng
                            .pick(&[0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN, f32::MAX, f32::NAN, 1e-40])
                            .to_bits(),
                    };
                    b.to_le_bytes().to_vec()
                })
                .collect()
        }
        Ph::F64 => {
            let base = rng.u64();
            (0..n)
                .map(|i| {
                    let b = match p {
                        Prof::Const => base,
                        Prof::LowCard => (rng.below(5) as f64 - 2.0).to_bits(),
                        Prof::Seq => (i as f64 * 0.5).to_bits(),
                        Prof::Rand => {
                            let f = f64::from_bits(rng.u64());
                            if f.is_nan() {
                                1.5f64.to_bits()
                            } else {
                                f.to_bits()
                            }
                        }
                        Prof::Extreme | Prof::Huge => rng
                            .pick(&[0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, f64::NAN, 1e-310])
                            .to_bits(),
                    };
                    b.to_le_bytes().to_vec()
                })
                .collect()
        }
        Ph::Ba => {
            let b0 = rng.size(30);
            let base = rng.bytes(b0);
            let maxlen = *rng.pick(&[0usize, 1, 8, 40, 300]);
            (0..n)
                .map(|i| match p {
                    Prof::Const => base.clone(),
                    Prof::LowCard => {
                        let mut b = base.clone();
                        b.truncate(rng.below(4));
                        b
                    }
                    Prof::Seq => {
                        let mut b = base.clone();
                        b.extend(format!("{:06}", i / 2).bytes());
                        b
                    }
                    Prof::Rand => {
                        let l = rng.range(0, maxlen);
                        rng.bytes(l)
                    }
                    Prof::Huge => {
                        let l = *rng.pick(&[127usize, 128, 16_383, 16_384, 65_535, 65_536, 70_001, 300_000, 1_000_000]);
                        let mut b = rng.bytes(17);
                        if rng.bool() {
                            b.resize(l, 7);
                        } else {
                            b = rng.bytes(l);
                        }
                        b
                    }
                    Prof::Extreme => match rng.below(5) {
                        0 => vec![],
                        1 => vec![0],
                        2 => vec![255; rng.range(1, 5)],
                        3 => {
                            let mut b = base.clone();
                            b.push(rng.below(3) as u8);
                            b
                        }
                        _ => {
                            let l = rng.size(400);
                            rng.bytes(l)
                        }
                    },
                })
                .collect()
        }
        Ph::Fl(w) => {
            let base = rng.bytes(w);
            (0..n)
                .map(|i| match p {
                    Prof::Const => base.clone(),
                    Prof::LowCard => {
                        let mut b = base.clone();
                        if w > 0 {
                            let k = w - 1;
                            b[k] = rng.below(4) as u8;
                        }
                        b
                    }
                    Prof::Seq => {
                        let mut b = base.clone();
                        let x = (i as u32).to_be_bytes();
                        for k in 0..w.min(4) {
                            b[w - 1 - k] = x[3 - k]
                        }
                        b
                    }
                    Prof::Extreme | Prof::Huge => match rng.below(3) {
                        0 => vec![0; w],
                        1 => vec![255; w],
                        _ => base.clone(),
                    },
                    Prof::Rand => rng.bytes(w),
                })
                .collect()
        }
    }
}

// ---------------------------------------------------------------- page data
#[derive(Debug, Clone, Default, PartialEq)]
pub struct PageData {
    pub rows: usize,
    pub reps: Vec<u32>,
    pub defs: Vec<u32>,
    pub vals: Vec<Val>,
}
impl PageData {
    pub fn entries(&self) -> usize {
        self.defs.len()
    }
    pub fn nulls(&self) -> usize {
        self.defs.len() - self.vals.len()
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.rows as u64;
        for x in self.reps.iter().chain(self.defs.iter()) {
            h = crate::rt::mix(h ^ *x as u64)
        }
        for v in &self.vals {
            h = crate::rt::mix(h ^ crate::rt::hash_bytes(v))
        }
        h
    }
}
/// `rows` rows of valid level sequences and values
pub fn gen_page(rng: &mut Rng, max_rep: u32, max_def: u32, ph: Ph, rows: usize, prof: Prof) -> PageData {
    let mut reps = vec![];
    let mut defs = vec![];
    let style = rng.below(6);
    let mut run_left = 0usize;
    let mut run_def = max_def;
    let mut def = |rng: &mut Rng| -> u32 {
        if max_def == 0 {
            return 0;
        }
        match style {
            0 => max_def,
            1 => {
                if run_left == 0 {
                    run_left = if rows > 1000 && rng.bool() { rng.range(1, rows) } else { rng.range(1, 70) };
                    run_def = if rng.bool() { max_def } else { rng.below(max_def as usize + 1) as u32 };
                }
                run_left -= 1;
                run_def
            }
            2 => rng.below(max_def as usize) as u32,
            _ => {
                if rng.chance(3, 4) {
                    max_def
                } else {
                    rng.below(max_def as usize + 1) as u32
                }
            }
        }
    };
    let fan = rng.range(0, 5);
    for _ in 0..rows {
        reps.push(0);
        defs.push(def(rng));
        if max_rep > 0 {
            let extra = if rng.chance(1, 30) { rng.range(0, 40) } else { rng.range(0, fan) };
            for _ in 0..extra {
                reps.push(rng.range(1, max_rep as usize) as u32);
                defs.push(def(rng));
            }
        }
    }
    let n = defs.iter().filter(|d| **d == max_def).count();
    PageData {
        rows,
        reps,
        defs,
        vals: gen_vals(rng, ph, n, prof),
    }
}

// ---------------------------------------------------------------- encodings
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum EncK {
    Plain,
    RleDict,
    PlainDict,
    Delta,
    DeltaLen,
    DeltaBa,
    RleBool,
}
impl EncK {
    pub fn is_dict(self) -> bool {
        matches!(self, EncK::RleDict | EncK::PlainDict)
    }
    pub fn to(self) -> Encoding {
        match self {
            EncK::Plain => Encoding::Plain,
            EncK::RleDict => Encoding::RleDictionary,
            EncK::PlainDict => Encoding::PlainDictionary,
            EncK::Delta => Encoding::DeltaBinaryPacked,
            EncK::DeltaLen => Encoding::DeltaLengthByteArray,
            EncK::DeltaBa => Encoding::DeltaByteArray,
            EncK::RleBool => Encoding::Rle,
        }
    }
    pub fn code(self) -> i32 {
        match self {
            EncK::Plain => 0,
            EncK::PlainDict => 2,
            EncK::RleBool => 3,
            EncK::Delta => 5,
            EncK::DeltaLen => 6,
            EncK::DeltaBa => 7,
            EncK::RleDict => 8,
        }
    }
    pub fn of(code: i32) -> Option<EncK> {
        Some(match code {
            0 => EncK::Plain,
            2 => EncK::PlainDict,
            3 => EncK::RleBool,
            5 => EncK::Delta,
            6 => EncK::DeltaLen,
            7 => EncK::DeltaBa,
            8 => EncK::RleDict,
            _ => return None,
        })
    }
}
pub fn encodings_for(ph: Ph) -> &'static [EncK] {
    match ph {
        Ph::Bool => &[EncK::Plain, EncK::RleBool],
        Ph::I32 | Ph::I64 => &[EncK::Plain, EncK::Delta, EncK::RleDict, EncK::PlainDict],
        Ph::I96 | Ph::F32 | Ph::F64 => &[EncK::Plain, EncK::RleDict, EncK::PlainDict],
        Ph::Ba => &[EncK::Plain, EncK::DeltaLen, EncK::DeltaBa, EncK::RleDict, EncK::PlainDict],
        Ph::Fl(_) => &[EncK::Plain, EncK::DeltaBa, EncK::RleDict, EncK::PlainDict],
    }
}
pub fn plain(ph: Ph, vals: &[Val]) -> Vec<u8> {
    match ph {
        Ph::Bool => {
            let v: Vec<u64> = vals.iter().map(|x| x[0] as u64).collect();
            enc::pack(&v, 1)
        }
        Ph::Ba => enc::plain_ba(vals),
        _ => vals.concat(),
    }
}
pub fn plain_decode(ph: Ph, b: &[u8], n: usize) -> Result<Vec<Val>, String> {
    Ok(match ph {
        Ph::Bool => enc::unpack(b, 1, n)?.into_iter().map(|x| vec![x as u8]).collect(),
        Ph::Ba => enc::plain_ba_decode(b, n)?,
        _ => {
            let w = ph.width().unwrap();
            if b.len() < n * w {
                return Err("plain short".into());
            }
            (0..n).map(|i| b[i * w..(i + 1) * w].to_vec()).collect()
        }
    })
}
fn to_i64(ph: Ph, v: &Val) -> i64 {
    match ph {
        Ph::I32 => i32::from_le_bytes(v[..].try_into().unwrap()) as i64,
        _ => i64::from_le_bytes(v[..].try_into().unwrap()),
    }
}
fn from_i64(ph: Ph, v: i64) -> Val {
    match ph {
        Ph::I32 => (v as i32).to_le_bytes().to_vec(),
        _ => v.to_le_bytes().to_vec(),
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Via {
    /// the crate's own encoders where it has one
    Lib,
    /// the reference encoders (which use all of the freedom of the format)
    Ref,
}
/// distinct values in order of first appearance and the index of each value
pub fn dictionarize(vals: &[Val]) -> (Vec<Val>, Vec<u64>) {
    let mut m = std::collections::HashMap::new();
    let mut d = vec![];
    let mut ix = vec![];
    for v in vals {
        let k = *m.entry(v.clone()).or_insert_with(|| {
            d.push(v.clone());
            d.len() - 1
        });
        ix.push(k as u64);
    }
    (d, ix)
}
pub fn encode_hybrid(rng: &mut Rng, vals: &[u64], w: usize, via: Via) -> Vec<u8> {
    match via {
        Via::Lib => {
            let mut o = vec![];
            hybrid_rle::encode_u32(&mut o, vals.iter().map(|x| *x as u32), w as u32).unwrap();
            o
        }
        Via::Ref => enc::hybrid_encode(&enc::random_runs(vals, rng), w),
    }
}
pub fn encode_values(rng: &mut Rng, ph: Ph, e: EncK, vals: &[Val], dict: &[Val], via: Via) -> Vec<u8> {
    match e {
        EncK::Plain => plain(ph, vals),
        EncK::RleDict | EncK::PlainDict => {
            let pos: std::collections::HashMap<&Val, u64> = dict.iter().enumerate().map(|(i, v)| (v, i as u64)).collect();
            let ix: Vec<u64> = vals.iter().map(|v| pos[v]).collect();
            let need = enc::width_for(dict.len().max(1) as u64 - 1);
            let w = match via {
                Via::Lib => need.max(1),
                Via::Ref => {
                    // writers may use a wider width than needed
                    if rng.chance(1, 3) {
                        rng.range(need, 32)
                    } else {
                        need
                    }
                }
            };
            let mut o = vec![w as u8];
            o.extend(encode_hybrid(rng, &ix, w, via));
            o
        }
        EncK::Delta => {
            let v: Vec<i64> = vals.iter().map(|x| to_i64(ph, x)).collect();
            match via {
                Via::Lib => {
                    let mut o = vec![];
                    parquet2::encoding::delta_bitpacked::encode(v.into_iter(), &mut o);
                    o
                }
                Via::Ref => {
                    let (b, m) = *rng.pick(&[(128usize, 4usize), (128, 1), (256, 8), (128, 2), (512, 4), (1024, 32)]);
                    enc::delta_encode(&v, b, m, ph == Ph::I32 && rng.bool())
                }
            }
        }
        EncK::DeltaLen => match via {
            Via::Lib => {
                let mut o = vec![];
                parquet2::encoding::delta_length_byte_array::encode(vals.iter().map(|x| x.as_slice()), &mut o);
                o
            }
            Via::Ref => enc::delta_length_encode(vals),
        },
        EncK::DeltaBa => match via {
            Via::Lib => {
                let mut o = vec![];
                parquet2::encoding::delta_byte_array::encode(vals.iter().map(|x| x.as_slice()), &mut o);
                o
            }
            Via::Ref => enc::delta_ba_encode(vals),
        },
        EncK::RleBool => {
            let ix: Vec<u64> = vals.iter().map(|v| v[0] as u64).collect();
            let body = match via {
                Via::Lib => {
                    let mut o = vec![];
                    hybrid_rle::encode_bool(&mut o, ix.iter().map(|x| *x == 1)).unwrap();
                    o
                }
                Via::Ref => enc::hybrid_encode(&enc::random_runs(&ix, rng), 1),
            };
            let mut o = (body.len() as u32).to_le_bytes().to_vec();
            o.extend(body);
            o
        }
    }
}
/// reference decoding of the values section
pub fn decode_values(ph: Ph, e: EncK, b: &[u8], n: usize, dict: &[Val]) -> Result<Vec<Val>, String> {
    Ok(match e {
        EncK::Plain => plain_decode(ph, b, n)?,
        EncK::RleDict | EncK::PlainDict => {
            if n == 0 {
                return Ok(vec![]);
            }
            let w = *b.first().ok_or("no bit width")? as usize;
            let (ix, _) = enc::hybrid_decode(&b[1..], w, n)?;
            let mut o = vec![];
            for i in ix {
                o.push(dict.get(i as usize).ok_or("dict index")?.clone())
            }
            o
        }
        EncK::Delta => {
            let (v, _) = enc::delta_decode(b)?;
            if v.len() != n {
                return Err(format!("delta count {} != {n}", v.len()));
            }
            v.into_iter().map(|x| from_i64(ph, x)).collect()
        }
        EncK::DeltaLen => {
            let v = enc::delta_length_decode(b)?;
            if v.len() != n {
                return Err("delta length count".into());
            }
            v
        }
        EncK::DeltaBa => {
            let v = enc::delta_ba_decode(b)?;
            if v.len() != n {
                return Err("delta ba count".into());
            }
            v
        }
        EncK::RleBool => {
            if b.len() < 4 {
                return Err("rle bool len".into());
            }
            let l = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            let (v, _) = enc::hybrid_decode(b.get(4..4 + l).ok_or("rle bool")?, 1, n)?;
            v.into_iter().map(|x| vec![x as u8]).collect()
        }
    })
}
/// encoded page: (rep bytes without length, def bytes without length, values)
pub struct Sections {
    pub rep: Vec<u8>,
    pub def: Vec<u8>,
    pub values: Vec<u8>,
}
pub fn sections(rng: &mut Rng, leaf: &Leaf, d: &PageData, e: EncK, dict: &[Val], via: Via) -> Sections {
    let lv = |rng: &mut Rng, v: &[u32], max: u32| -> Vec<u8> {
        if max == 0 {
            return vec![];
        }
        let x: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        encode_hybrid(rng, &x, enc::width_for(max as u64), via)
    };
    Sections {
        rep: lv(rng, &d.reps, leaf.max_rep),
        def: lv(rng, &d.defs, leaf.max_def),
        values: encode_values(rng, leaf.ph, e, &d.vals, dict, via),
    }
}
pub fn page_buffer(s: &Sections, leaf: &Leaf, v2: bool) -> Vec<u8> {
    let mut b = vec![];
    for (x, m) in [(&s.rep, leaf.max_rep), (&s.def, leaf.max_def)] {
        if m > 0 {
            if !v2 {
                b.extend_from_slice(&(x.len() as u32).to_le_bytes());
            }
            b.extend_from_slice(x);
        }
    }
    b.extend_from_slice(&s.values);
    b
}
#[allow(clippy::too_many_arguments)]
pub fn data_page(
    rng: &mut Rng,
    leaf: &Leaf,
    d: &PageData,
    e: EncK,
    dict: &[Val],
    v2: bool,
    via: Via,
    stats: Option<ParquetStatistics>,
) -> DataPage {
    let s = sections(rng, leaf, d, e, dict, via);
    let buffer = page_buffer(&s, leaf, v2);
    let header = if v2 {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: d.entries() as i32,
            num_nulls: d.nulls() as i32,
            num_rows: d.rows as i32,
            encoding: e.to().into(),
            definition_levels_byte_length: s.def.len() as i32,
            repetition_levels_byte_length: s.rep.len() as i32,
            // how they were stored before: a writer decides by itself
            is_compressed: *rng.pick(&[None, None, Some(true), Some(false)]),
            statistics: stats,
        })
    } else {
        DataPageHeader::V1(DataPageHeaderV1 {
            num_values: d.entries() as i32,
            encoding: e.to().into(),
            definition_level_encoding: Encoding::Rle.into(),
            repetition_level_encoding: Encoding::Rle.into(),
            statistics: stats,
        })
    };
    DataPage::new(header, buffer, leaf.descriptor(), Some(d.rows))
}
/// whether the harness declares a dictionary to be sorted
pub fn in_order(dict: &[Val]) -> bool {
    dict.windows(2).all(|x| x[0] <= x[1])
}
pub fn dict_page(ph: Ph, dict: &[Val]) -> DictPage {
    DictPage::new(plain(ph, dict), dict.len(), in_order(dict))
}

pub fn all_codecs(rng: &mut Rng) -> CompressionOptions {
    match rng.below(7) {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        2 => CompressionOptions::Gzip(if rng.bool() {
            None
        } else {
            Some(GzipLevel::try_new(rng.below(10) as u8).unwrap())
        }),
        3 => CompressionOptions::Brotli(if rng.bool() {
            Some(BrotliLevel::try_new(rng.below(5) as u32).unwrap())
        } else {
            None
        }),
        4 => CompressionOptions::Zstd(if rng.bool() {
            None
        } else {
            Some(ZstdLevel::try_new(rng.range(1, 9) as i32).unwrap())
        }),
        5 => CompressionOptions::Lz4Raw,
        _ => *rng.pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy]),
    }
}
pub fn codec_name(c: CompressionOptions) -> &'static str {
    match c {
        CompressionOptions::Uncompressed => "uncompressed",
        CompressionOptions::Snappy => "snappy",
        CompressionOptions::Gzip(_) => "gzip",
        CompressionOptions::Brotli(_) => "brotli",
        CompressionOptions::Zstd(_) => "zstd",
        CompressionOptions::Lz4Raw => "lz4_raw",
        CompressionOptions::Lz4 => "lz4",
        CompressionOptions::Lzo => "lzo",
    }
}
pub fn codec_code(c: CompressionOptions) -> i32 {
    match c {
        CompressionOptions::Uncompressed => 0,
        CompressionOptions::Snappy => 1,
        CompressionOptions::Gzip(_) => 2,
        CompressionOptions::Lzo => 3,
        CompressionOptions::Brotli(_) => 4,
        CompressionOptions::Lz4 => 5,
        CompressionOptions::Zstd(_) => 6,
        CompressionOptions::Lz4Raw => 7,
    }
}
