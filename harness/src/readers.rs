//! Drivers of the crate's readers, decoding into the model's PageData.
use crate::ensure;
use crate::fixture::*;
use crate::gen::*;
use crate::model::enc;
use crate::rt::*;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, HybridRleDecoder};
use parquet2::encoding::{delta_bitpacked, delta_byte_array, delta_length_byte_array, plain_byte_array};
use parquet2::error::Error;
use parquet2::metadata::FileMetaData;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::types::NativeType;
use parquet2::FallibleStreamingIterator;
use std::io::Cursor;

pub fn e2f(what: &str) -> impl Fn(Error) -> Fail + '_ {
    move |e| failure(format!("unexpected-error:{what}"), format!("{what} failed: {e:?}"))
}
pub const MAXPAGE: usize = 1 << 30;

// ------------------------------------------------------------ library decoding of values
pub fn lib_plain(ph: Ph, b: &[u8], n: usize) -> R<Vec<Val>> {
    let v: Vec<Val> = match ph {
        Ph::Bool => BitmapIter::new(b, 0, n).map(|x| vec![x as u8]).collect(),
        Ph::Ba => plain_byte_array::BinaryIter::new(b, Some(n))
            .map(|x| x.map(|x| x.to_vec()))
            .collect::<Result<_, _>>()
            .map_err(e2f("BinaryIter"))?,
        Ph::Fl(w) => FixexBinaryIter::new(b, w).map(|x| x.to_vec()).collect(),
        _ => b.chunks_exact(ph.width().unwrap()).map(|x| x.to_vec()).collect(),
    };
    Ok(v)
}
pub fn lib_delta_ba(b: &[u8]) -> Result<Vec<Val>, Error> {
    let mut d = delta_byte_array::Decoder::try_new(b)?;
    let pre = d.by_ref().collect::<Result<Vec<_>, _>>()?;
    let mut l = d.into_lengths()?;
    let lens = l.by_ref().collect::<Result<Vec<_>, _>>()?;
    let v = l.values();
    let mut o: Vec<Val> = vec![];
    let mut p = 0;
    let mut last: Val = vec![];
    for (k, n) in pre.iter().zip(&lens) {
        last = last.get(..*k as usize).ok_or_else(|| Error::OutOfSpec("prefix".into()))?.to_vec();
        last.extend_from_slice(v.get(p..p + *n as usize).ok_or_else(|| Error::OutOfSpec("suffix".into()))?);
        p += *n as usize;
        o.push(last.clone());
    }
    Ok(o)
}
pub fn lib_delta_len(b: &[u8]) -> Result<Vec<Val>, Error> {
    let mut d = delta_length_byte_array::Decoder::try_new(b)?;
    let lens = d.by_ref().collect::<Result<Vec<_>, _>>()?;
    let v = d.into_values();
    let mut p = 0;
    let mut o = vec![];
    for n in lens {
        o.push(v.get(p..p + n as usize).ok_or_else(|| Error::OutOfSpec("value".into()))?.to_vec());
        p += n as usize;
    }
    Ok(o)
}
/// values section -> `n` values, using the crate's decoders
pub fn lib_values(ph: Ph, e: EncK, b: &[u8], n: usize, dict: &[Val]) -> R<Vec<Val>> {
    let v = match e {
        EncK::Plain => lib_plain(ph, b, n)?,
        EncK::RleDict | EncK::PlainDict => {
            if b.is_empty() && n == 0 {
                return Ok(vec![]);
            }
            let ix = HybridRleDecoder::try_new(&b[1..], b[0] as u32, n)
                .and_then(|d| d.collect::<Result<Vec<_>, _>>())
                .map_err(e2f("HybridRleDecoder"))?;
            let mut o = vec![];
            for i in ix {
                ensure!((i as usize) < dict.len(), "read:dict-index", "index {i} of {}", dict.len());
                o.push(dict[i as usize].clone());
            }
            o
        }
        EncK::Delta => delta_bitpacked::Decoder::try_new(b)
            .and_then(|d| d.collect::<Result<Vec<_>, _>>())
            .map_err(e2f("delta_bitpacked::Decoder"))?
            .into_iter()
            .map(|x| match ph {
                Ph::I32 => (x as i32).to_le_bytes().to_vec(),
                _ => x.to_le_bytes().to_vec(),
            })
            .collect(),
        EncK::DeltaLen => lib_delta_len(b).map_err(e2f("delta_length_byte_array::Decoder"))?,
        EncK::DeltaBa => lib_delta_ba(b).map_err(e2f("delta_byte_array::Decoder"))?,
        EncK::RleBool => {
            let l = parquet2::encoding::get_length(b).ok_or_else(|| failure("read:rle-bool", "length"))?;
            let s = b.get(4..4 + l).ok_or_else(|| failure("read:rle-bool", "length"))?;
            HybridRleDecoder::try_new(s, 1, n)
                .and_then(|d| d.collect::<Result<Vec<_>, _>>())
                .map_err(e2f("HybridRleDecoder"))?
                .into_iter()
                .map(|x| vec![x as u8])
                .collect()
        }
    };
    ensure!(v.len() == n, "read:value-count", "{e:?}: {} values decoded, expected {n}", v.len());
    Ok(v)
}
pub fn lib_levels(b: &[u8], max: u32, n: usize) -> R<Vec<u32>> {
    if max == 0 {
        return Ok(vec![0; n]);
    }
    let w = levels::get_bit_width(max as i16);
    let v = HybridRleDecoder::try_new(b, w, n)
        .and_then(|d| d.collect::<Result<Vec<_>, _>>())
        .map_err(e2f("HybridRleDecoder(levels)"))?;
    ensure!(v.len() == n, "read:levels-count", "{} levels, expected {n}", v.len());
    Ok(v)
}
pub fn enc_of(e: parquet2::encoding::Encoding) -> EncK {
    use parquet2::encoding::Encoding::*;
    match e {
        Plain => EncK::Plain,
        PlainDictionary => EncK::PlainDict,
        Rle => EncK::RleBool,
        DeltaBinaryPacked => EncK::Delta,
        DeltaLengthByteArray => EncK::DeltaLen,
        DeltaByteArray => EncK::DeltaBa,
        RleDictionary => EncK::RleDict,
        _ => EncK::Plain,
    }
}
/// decodes a data page with the crate's split_buffer, level decoder and value decoders
pub fn lib_decode(page: &DataPage, leaf: &Leaf, dict: &[Val]) -> R<PageData> {
    let (rep, def, values) = split_buffer(page).map_err(e2f("split_buffer"))?;
    let n = page.num_values();
    let reps = lib_levels(rep, leaf.max_rep, n)?;
    let defs = lib_levels(def, leaf.max_def, n)?;
    let k = defs.iter().filter(|d| **d == leaf.max_def).count();
    let vals = lib_values(leaf.ph, enc_of(page.encoding()), values, k, dict)?;
    Ok(PageData {
        rows: reps.iter().filter(|r| **r == 0).count(),
        reps,
        defs,
        vals,
    })
}

// ------------------------------------------------------------ page states (flat columns)
fn validity(d: DefLevelsDecoder) -> R<Vec<bool>> {
    match d {
        DefLevelsDecoder::Bitmap(it) => HybridRleDecoderIter::new(it)
            .collect::<Result<Vec<_>, _>>()
            .map_err(e2f("HybridRleDecoderIter")),
        DefLevelsDecoder::Levels(it, max) => it
            .map(|x| x.map(|x| x == max))
            .collect::<Result<Vec<_>, _>>()
            .map_err(e2f("HybridRleDecoder")),
    }
}
type Opt = Vec<Option<Val>>;
fn zip_opt<T>(d: DefLevelsDecoder, vals: impl Iterator<Item = T>, f: impl Fn(T) -> R<Val>) -> R<Opt> {
    // through OptionalValues when the validity is a bitmap, as the documentation shows
    match d {
        DefLevelsDecoder::Bitmap(it) => OptionalValues::new(HybridRleDecoderIter::new(it), vals)
            .map(|x| match x {
                Ok(Some(v)) => f(v).map(Some),
                Ok(None) => Ok(None),
                Err(e) => Err(e2f("OptionalValues")(e)),
            })
            .collect(),
        d => {
            let mut vals = vals;
            let mut o = vec![];
            for v in validity(d)? {
                o.push(if v {
                    match vals.next() {
                        Some(x) => Some(f(x)?),
                        None => None,
                    }
                } else {
                    None
                })
            }
            Ok(o)
        }
    }
}
fn ix_val(i: Result<u32, Error>, dict: &[Val]) -> R<Val> {
    let i = i.map_err(e2f("dictionary index"))? as usize;
    dict.get(i).cloned().ok_or_else(|| failure("read:dict-index", format!("index {i} of {}", dict.len())))
}
fn native<T: NativeType>(page: &DataPage, dict: &[Val]) -> R<Opt> {
    let f = |x: T| -> R<Val> { Ok(x.to_le_bytes().as_ref().to_vec()) };
    match NativePageState::<T, &[Val]>::try_new(page, Some(dict)).map_err(e2f("NativePageState"))? {
        NativePageState::Required(v) => v.map(|x| f(x).map(Some)).collect(),
        NativePageState::Optional(d, v) => zip_opt(d, v, f),
        NativePageState::RequiredDictionary(d) => {
            let n = d.len();
            let v: Opt = d.indexes.map(|i| ix_val(i, d.dict).map(Some)).collect::<R<_>>()?;
            ensure!(n == v.len(), "read:dictionary-len", "len() said {n}, {} indexes", v.len());
            Ok(v)
        }
        NativePageState::OptionalDictionary(l, d) => zip_opt(l, d.indexes, |i| ix_val(i, d.dict)),
    }
}
/// one optional value per entry (flat columns; PLAIN and dictionary encodings)
pub fn page_state(page: &DataPage, leaf: &Leaf, dict: &[Val]) -> R<Opt> {
    match leaf.ph {
        Ph::I32 => native::<i32>(page, dict),
        Ph::I64 => native::<i64>(page, dict),
        Ph::I96 => native::<[u32; 3]>(page, dict),
        Ph::F32 => native::<f32>(page, dict),
        Ph::F64 => native::<f64>(page, dict),
        Ph::Bool => match BooleanPageState::try_new(page).map_err(e2f("BooleanPageState"))? {
            BooleanPageState::Required(b, n) => Ok(BitmapIter::new(b, 0, n).map(|x| Some(vec![x as u8])).collect()),
            BooleanPageState::Optional(d, v) => zip_opt(d, v, |x| Ok(vec![x as u8])),
        },
        Ph::Ba => {
            let f = |x: Result<&[u8], Error>| x.map(|x| x.to_vec()).map_err(e2f("BinaryIter"));
            match BinaryPageState::<&[Val]>::try_new(page, Some(dict)).map_err(e2f("BinaryPageState"))? {
                BinaryPageState::Required(v) => v.map(|x| f(x).map(Some)).collect(),
                BinaryPageState::Optional(d, v) => zip_opt(d, v, f),
                BinaryPageState::RequiredDictionary(d) => {
                    let n = d.len();
                    let v: Opt = d.indexes.map(|i| ix_val(i, d.dict).map(Some)).collect::<R<_>>()?;
                    ensure!(n == v.len(), "read:dictionary-len", "len() said {n}, {} indexes", v.len());
                    Ok(v)
                }
                BinaryPageState::OptionalDictionary(l, d) => zip_opt(l, d.indexes, |i| ix_val(i, d.dict)),
            }
        }
        Ph::Fl(_) => {
            let f = |x: &[u8]| Ok(x.to_vec());
            match FixedLenBinaryPageState::<&[Val]>::try_new(page, Some(dict)).map_err(e2f("FixedLenBinaryPageState"))? {
                FixedLenBinaryPageState::Required(v) => v.map(|x| f(x).map(Some)).collect(),
                FixedLenBinaryPageState::Optional(d, v) => zip_opt(d, v, f),
                FixedLenBinaryPageState::RequiredDictionary(d) => {
                    let n = d.len();
                    let v: Opt = d.indexes.map(|i| ix_val(i, d.dict).map(Some)).collect::<R<_>>()?;
                    ensure!(n == v.len(), "read:dictionary-len", "len() said {n}, {} indexes", v.len());
                    Ok(v)
                }
                FixedLenBinaryPageState::OptionalDictionary(l, d) => zip_opt(l, d.indexes, |i| ix_val(i, d.dict)),
            }
        }
    }
}
pub fn expected_opt(leaf: &Leaf, d: &PageData) -> Opt {
    let mut it = d.vals.iter();
    d.defs
        .iter()
        .map(|x| if *x == leaf.max_def { it.next().cloned() } else { None })
        .collect()
}
/// whether a page can be seen through the page states
pub fn has_page_state(leaf: &Leaf, e: EncK) -> bool {
    leaf.max_rep == 0
        && (e == EncK::Plain || e.is_dict())
        // `is_optional` is decided by the leaf's own repetition
        && (leaf.max_def == 0) == (leaf.prim.field_info.repetition == parquet2::schema::Repetition::Required)
        && !(matches!(leaf.ph, Ph::Fl(0)))
}

// ------------------------------------------------------------ whole file
/// one decoded chunk: the dictionary and the data pages in order
#[derive(Debug, Default, PartialEq)]
pub struct Chunk {
    pub dict: Option<Vec<Val>>,
    pub pages: Vec<PageData>,
    pub dict_sorted: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Decompressor,
    Basic,
    One,
}
pub fn absorb(page: &Page, leaf: &Leaf, ch: &mut Chunk, states: bool) -> R {
    match page {
        Page::Dict(d) => {
            let v = lib_plain(leaf.ph, &d.buffer, d.num_values)?;
            ensure!(v.len() == d.num_values, "read:dict-count", "{} values, header says {}", v.len(), d.num_values);
            ch.dict = Some(v);
            ch.dict_sorted = d.is_sorted;
        }
        Page::Data(p) => {
            let empty = vec![];
            let dict = ch.dict.as_ref().unwrap_or(&empty);
            let d = lib_decode(p, leaf, dict)?;
            if states && has_page_state(leaf, enc_of(p.encoding())) {
                let o = page_state(p, leaf, dict)?;
                let x = expected_opt(leaf, &d);
                ensure!(o == x, "read:page-state", "page state of {:?} {:?} differs from the decoded page", leaf.ph, p.encoding());
            }
            ch.pages.push(d);
        }
    }
    Ok(())
}
pub fn read_chunk(b: &[u8], md: &FileMetaData, g: usize, c: usize, leaf: &Leaf, mode: Mode) -> R<Chunk> {
    let col = &md.row_groups[g].columns()[c];
    let it = get_page_iterator(col, Cursor::new(b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))?;
    let mut ch = Chunk::default();
    match mode {
        Mode::Decompressor => {
            let mut d = Decompressor::new(it, vec![]);
            while let Some(p) = d.next().map_err(e2f("Decompressor"))? {
                absorb(p, leaf, &mut ch, true)?;
            }
        }
        Mode::Basic => {
            let mut d = BasicDecompressor::new(it, vec![]);
            while let Some(p) = d.next().map_err(e2f("BasicDecompressor"))? {
                absorb(p, leaf, &mut ch, true)?;
            }
        }
        Mode::One => {
            for p in it {
                let p = p.map_err(e2f("PageReader"))?;
                let p = decompress(p, &mut vec![]).map_err(e2f("decompress"))?;
                absorb(&p, leaf, &mut ch, true)?;
            }
        }
    }
    Ok(ch)
}
pub fn check_chunk_data(ch: &Chunk, cs: &ColSpec) -> R {
    for (i, p) in cs.pages.iter().enumerate() {
        match ch.pages.get(i) {
            Some(x) => ensure!(x == &p.data, "read:data", "page {i} reads back differently ({:?}, v2={})", p.enc, p.v2),
            None => ensure!(
                cs.pages[i..].iter().all(|p| p.data.entries() == 0),
                "read:missing-page",
                "page {i} of {} is missing",
                cs.pages.len()
            ),
        }
    }
    ensure!(ch.pages.len() <= cs.pages.len(), "read:extra-page", "{} pages", ch.pages.len());
    if let Some(d) = &ch.dict {
        ensure!(Some(d) == cs.dict.as_ref(), "read:dict", "dictionary differs");
        ensure!(!ch.dict_sorted || in_order(d), "read:dict-sorted", "a dictionary not declared sorted is said to be");
    }
    Ok(())
}
pub fn check_metadata(spec: &FileSpec, md: &FileMetaData) -> R {
    ensure!(md.version == if spec.v2 { 2 } else { 1 }, "read:version", "{}", md.version);
    ensure!(md.created_by == spec.created_by, "read:created-by", "{:?}", md.created_by);
    ensure!(md.key_value_metadata == spec.keyvalues(), "read:key-values", "{:?}", md.key_value_metadata);
    ensure!(md.schema().fields() == &spec.fields[..], "read:schema", "{:?} expected {:?}", md.schema().fields(), spec.fields);
    ensure!(md.schema().name() == spec.name, "read:schema-name", "{:?}", md.schema().name());
    ensure!(md.row_groups.len() == spec.groups.len(), "read:row-groups", "{}", md.row_groups.len());
    let rows: usize = (0..spec.groups.len()).map(|g| spec.group_rows(g)).sum();
    ensure!(md.num_rows == rows, "read:num-rows", "{} expected {rows}", md.num_rows);
    ensure!(md.schema().columns().len() == spec.leaves.len(), "read:columns", "columns");
    for (c, l) in md.schema().columns().iter().zip(&spec.leaves) {
        ensure!(
            c.path_in_schema == l.path
                && c.descriptor.primitive_type == l.prim
                && c.descriptor.max_def_level as u32 == l.max_def
                && c.descriptor.max_rep_level as u32 == l.max_rep,
            "read:column-descriptor",
            "{c:?} expected {l:?}"
        );
    }
    for (g, rg) in md.row_groups.iter().enumerate() {
        ensure!(rg.num_rows() == spec.group_rows(g), "read:rg-num-rows", "{} expected {}", rg.num_rows(), spec.group_rows(g));
        ensure!(rg.columns().len() == spec.leaves.len(), "read:rg-columns", "{}", rg.columns().len());
        for (ci, c) in rg.columns().iter().enumerate() {
            let cs = &spec.groups[g][ci];
            let n: usize = cs.pages.iter().map(|p| p.data.entries()).sum();
            ensure!(c.num_values() == n as i64, "read:num-values", "{} expected {n}", c.num_values());
            ensure!(c.compression() == cs.eff_codec().into(), "read:codec", "{:?}", c.compression());
            ensure!(c.descriptor().path_in_schema == spec.leaves[ci].path, "read:path", "{:?}", c.descriptor().path_in_schema);
            ensure!(c.physical_type() == spec.leaves[ci].ph.to(), "read:physical-type", "{:?}", c.physical_type());
        }
    }
    Ok(())
}
/// reads everything back and compares with the specification
pub fn check_read(spec: &FileSpec, b: &[u8], c: &mut Case, modes: &[Mode]) -> R<FileMetaData> {
    let md = read_metadata(&mut Cursor::new(b)).map_err(e2f("read_metadata"))?;
    check_metadata(spec, &md)?;
    c.eval();
    for g in 0..spec.groups.len() {
        for ci in 0..spec.leaves.len() {
            for m in modes {
                let ch = read_chunk(b, &md, g, ci, &spec.leaves[ci], *m)
                    .and_then(|ch| check_chunk_data(&ch, &spec.groups[g][ci]))
                    .map_err(|e| failure(e.sig, format!("row group {g} column {ci} ({m:?}): {}", e.msg)));
                ch?;
                c.eval();
            }
        }
    }
    Ok(md)
}
#[allow(unused)]
fn unused() {
    let _ = enc::mask(1);
}
