//! Random file specifications, drivers for the writers, and oracles over the bytes written.
use crate::gen::*;
use crate::model::thrift::{self, S, V};
use crate::model::{enc, pq};
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::fallible_streaming_iterator;
use parquet2::metadata::{KeyValue, SchemaDescriptor};
use parquet2::page::{CompressedPage, DataPage, DictPage, Page};
use parquet2::schema::types::*;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::cmp::Ordering;

#[derive(Debug, Clone)]
pub struct PageSpec {
    pub data: PageData,
    pub enc: EncK,
    pub v2: bool,
    pub stats: Option<ParquetStatistics>,
    pub built: DataPage,
}
#[derive(Debug, Clone)]
pub struct ColSpec {
    pub codec: CompressionOptions,
    pub dict: Option<Vec<Val>>,
    pub pages: Vec<PageSpec>,
}
impl ColSpec {
    /// a chunk without any page is declared as uncompressed
    pub fn eff_codec(&self) -> CompressionOptions {
        if self.pages.is_empty() && self.dict.is_none() {
            CompressionOptions::Uncompressed
        } else {
            self.codec
        }
    }
}
#[derive(Debug, Clone)]
pub struct FileSpec {
    pub name: String,
    pub fields: Vec<ParquetType>,
    pub leaves: Vec<Leaf>,
    /// [row group][column]
    pub groups: Vec<Vec<ColSpec>>,
    pub write_stats: bool,
    pub v2: bool,
    pub created_by: Option<String>,
    pub kv: Option<Vec<(String, Option<String>)>>,
}
impl FileSpec {
    pub fn options(&self) -> WriteOptions {
        WriteOptions {
            write_statistics: self.write_stats,
            version: if self.v2 { Version::V2 } else { Version::V1 },
        }
    }
    pub fn schema(&self) -> SchemaDescriptor {
        SchemaDescriptor::new(self.name.clone(), self.fields.clone())
    }
    pub fn keyvalues(&self) -> Option<Vec<KeyValue>> {
        self.kv.as_ref().map(|v| {
            v.iter()
                .map(|(k, v)| KeyValue {
                    key: k.clone(),
                    value: v.clone(),
                })
                .collect()
        })
    }
    pub fn group_rows(&self, g: usize) -> usize {
        self.groups[g].first().map(|c| c.pages.iter().map(|p| p.data.rows).sum()).unwrap_or(0)
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_str(&self.name) ^ self.leaves.len() as u64;
        for g in &self.groups {
            for c in g {
                h = mix(h ^ codec_code(c.codec) as u64);
                for p in &c.pages {
                    h = mix(h ^ p.data.hash() ^ p.enc.code() as u64 ^ (p.v2 as u64) << 9)
                }
            }
        }
        h
    }
    pub fn describe(&self) -> String {
        let cols: Vec<String> = self
            .leaves
            .iter()
            .map(|l| format!("{}:{:?}(rep{} def{})", l.path.join("/"), l.ph, l.max_rep, l.max_def))
            .collect();
        let g: Vec<String> = self
            .groups
            .iter()
            .map(|g| {
                g.iter()
                    .map(|c| {
                        format!(
                            "{}{}[{}]",
                            codec_name(c.codec),
                            c.dict.as_ref().map(|d| format!("+dict{}", d.len())).unwrap_or_default(),
                            c.pages
                                .iter()
                                .map(|p| format!(
                                    "{:?}{}:{}rows/{}entries/{}vals",
                                    p.enc,
                                    if p.v2 { "v2" } else { "v1" },
                                    p.data.rows,
                                    p.data.entries(),
                                    p.data.vals.len()
                                ))
                                .collect::<Vec<_>>()
                                .join(",")
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect();
        format!("columns {cols:?} row groups {g:?} stats={}", self.write_stats)
    }
}

#[derive(Debug, Clone)]
pub struct Shape {
    pub max_leaves: usize,
    pub depth: usize,
    pub max_groups: usize,
    pub max_pages: usize,
    pub max_rows: usize,
    pub annotate: bool,
    /// fixes the choice of codecs
    pub codec: Option<CompressionOptions>,
    pub write_stats: Option<bool>,
    pub via: Option<Via>,
    /// only leaves with max_rep 0 / max_def <= 1
    pub flat: bool,
    /// allow dictionary chunks
    pub dict: bool,
    /// same page row boundaries in all columns of a group
    pub min_groups: usize,
    pub min_pages: usize,
    /// range of the number of rows of every page
    pub page_rows: Option<(usize, usize)>,
    /// fixes the distribution of the values
    pub prof: Option<Prof>,
    /// fixes the leaves' physical type
    pub ph: Option<Ph>,
    pub min_leaves: usize,
    /// fixes the schema
    pub fields: Option<Vec<ParquetType>>,
}
impl Default for Shape {
    fn default() -> Self {
        Shape {
            max_leaves: 4,
            depth: 2,
            max_groups: 3,
            max_pages: 4,
            max_rows: 120,
            annotate: true,
            codec: None,
            write_stats: None,
            via: None,
            flat: false,
            dict: true,
            min_groups: 0,
            min_pages: 0,
            page_rows: None,
            prof: None,
            ph: None,
            min_leaves: 1,
            fields: None,
        }
    }
}
/// files that are large in one dimension: sizes beyond 8, 14 and 16 bits of rows, levels, dictionary entries, pages,
/// row groups, columns and lengths of values
pub fn gen_scaled(rng: &mut Rng, kinds: &[usize], via: Option<Via>) -> (FileSpec, &'static str) {
    let base = Shape { max_leaves: 1, depth: 0, max_groups: 1, min_groups: 1, min_pages: 1, max_pages: 2, via, ..Default::default() };
    let mut chain = {
        let ph = *rng.pick(&[Ph::Bool, Ph::I32, Ph::Fl(2)]);
        let rep = rand_repetition(rng);
        rand_primitive(rng, "x".into(), rep, ph, true)
    };
    for i in 0..rng.range(1, 6) {
        let rep = rand_repetition(rng);
        chain = ParquetType::from_group(format!("g{i}"), rep, None, None, vec![chain], None);
    }
    let (sh, what) = match *rng.pick(kinds) {
        // a page holds more than 65536 rows; its levels (of 2 or 3 bits) more than 64 KiB
        0 => (Shape { flat: true, max_pages: 2, page_rows: Some((60_000, 140_000)), ..base }, "rows"),
        1 => (Shape { fields: Some(vec![chain]), max_pages: 1, page_rows: Some((20_000, 90_000)), ..base }, "levels"),
        2 => (Shape { flat: true, max_leaves: 2, min_pages: 130, max_pages: 1200, page_rows: Some((0, 3)), ..base }, "pages"),
        3 => (Shape { max_leaves: 2, depth: 1, min_groups: 130, max_groups: 600, page_rows: Some((0, 3)), ..base }, "groups"),
        4 => (Shape { flat: true, min_leaves: 130, max_leaves: 700, page_rows: Some((0, 2)), max_groups: 2, ..base }, "columns"),
        5 => (
            Shape { flat: true, max_pages: 3, page_rows: Some((1, 5)), prof: Some(Prof::Huge), ph: Some(Ph::Ba), max_groups: 2, ..base },
            "strings",
        ),
        7 => (Shape { max_leaves: 2, depth: 1, page_rows: Some((0, 5)), min_groups: 0, ..base }, "footer"),
        // dictionaries of more than 65536 entries
        _ => (Shape { flat: true, max_pages: 3, page_rows: Some((1000, 60_000)), prof: Some(Prof::Seq), ph: Some(*rng.pick(&[Ph::I32, Ph::I64, Ph::Fl(5)])), ..base }, "dictionary"),
    };
    let mut spec = gen_file(rng, &sh);
    if what == "footer" {
        // the footer is larger than what is read of the file's end in one go (64 KiB)
        let n = *rng.pick(&[60_000usize, 65_000, 65_400, 65_536, 70_000, 131_072, 200_000]) + rng.below(300);
        spec.kv = Some(vec![("k".into(), Some("v".repeat(n))), ("l".into(), None)]);
    }
    // large files of all codecs at their highest levels are slow
    for g in spec.groups.iter_mut() {
        for c in g.iter_mut() {
            use CompressionOptions as O;
            c.codec = match c.codec {
                O::Brotli(_) => O::Brotli(None),
                O::Zstd(_) => O::Zstd(None),
                O::Gzip(_) => O::Gzip(None),
                x => x,
            };
        }
    }
    (spec, what)
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Order {
    Signed,
    Unsigned,
    Bytes,
    SignedBytes,
    Float,
    Undefined,
}
/// the sort order the specification prescribes for a column's statistics
pub fn order_of(p: &PrimitiveType) -> Order {
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    match (&p.logical_type, &p.converted_type, Ph::of(p.physical_type)) {
        (Some(L::Unknown), _, _) => Order::Undefined,
        (Some(L::Integer(i)), _, _) => match i {
            IntegerType::UInt8 | IntegerType::UInt16 | IntegerType::UInt32 | IntegerType::UInt64 => Order::Unsigned,
            _ => Order::Signed,
        },
        (Some(L::Decimal(..)), _, ph) | (None, Some(C::Decimal(..)), ph) => match ph {
            Ph::Ba | Ph::Fl(_) => Order::SignedBytes,
            _ => Order::Signed,
        },
        (None, Some(C::Uint8 | C::Uint16 | C::Uint32 | C::Uint64), _) => Order::Unsigned,
        (None, Some(C::Interval), _) => Order::Undefined,
        (_, _, Ph::I96) => Order::Undefined,
        (_, _, Ph::Ba | Ph::Fl(_)) => Order::Bytes,
        (_, _, Ph::F32 | Ph::F64) => Order::Float,
        (_, _, Ph::Bool) => Order::Unsigned,
        _ => Order::Signed,
    }
}
pub fn cmp_vals(ph: Ph, o: Order, a: &Val, b: &Val) -> Option<Ordering> {
    Some(match (ph, o) {
        (_, Order::Undefined) => return None,
        (Ph::Bool, _) => a.cmp(b),
        (Ph::I32, Order::Unsigned) => {
            u32::from_le_bytes(a[..].try_into().unwrap()).cmp(&u32::from_le_bytes(b[..].try_into().unwrap()))
        }
        (Ph::I32, _) => {
            i32::from_le_bytes(a[..].try_into().unwrap()).cmp(&i32::from_le_bytes(b[..].try_into().unwrap()))
        }
        (Ph::I64, Order::Unsigned) => {
            u64::from_le_bytes(a[..].try_into().unwrap()).cmp(&u64::from_le_bytes(b[..].try_into().unwrap()))
        }
        (Ph::I64, _) => {
            i64::from_le_bytes(a[..].try_into().unwrap()).cmp(&i64::from_le_bytes(b[..].try_into().unwrap()))
        }
        (Ph::F32, _) => f32::from_le_bytes(a[..].try_into().unwrap())
            .partial_cmp(&f32::from_le_bytes(b[..].try_into().unwrap()))?,
        (Ph::F64, _) => f64::from_le_bytes(a[..].try_into().unwrap())
            .partial_cmp(&f64::from_le_bytes(b[..].try_into().unwrap()))?,
        (Ph::Ba | Ph::Fl(_), Order::SignedBytes) => {
            // big-endian two's complement
            let n = a.len().max(b.len());
            let ext = |x: &Val| {
                let s = if x.first().map(|b| b & 0x80 != 0).unwrap_or(false) { 0xff } else { 0 };
                let mut v = vec![s; n - x.len()];
                v.extend_from_slice(x);
                if let Some(f) = v.first_mut() {
                    *f ^= 0x80
                }
                v
            };
            ext(a).cmp(&ext(b))
        }
        _ => a.cmp(b),
    })
}
/// min and max of non-NaN values in the column's order
pub fn min_max(leaf: &Leaf, vals: &[Val]) -> Option<(Val, Val)> {
    let o = order_of(&leaf.prim);
    let mut r: Option<(Val, Val)> = None;
    for v in vals {
        if cmp_vals(leaf.ph, o, v, v).is_none() {
            continue;
        }
        match &mut r {
            None => r = Some((v.clone(), v.clone())),
            Some((a, b)) => {
                if cmp_vals(leaf.ph, o, v, a) == Some(Ordering::Less) {
                    *a = v.clone()
                }
                if cmp_vals(leaf.ph, o, v, b) == Some(Ordering::Greater) {
                    *b = v.clone()
                }
            }
        }
    }
    r
}
pub fn page_stats(leaf: &Leaf, d: &PageData) -> ParquetStatistics {
    let mm = min_max(leaf, &d.vals);
    ParquetStatistics {
        max: None,
        min: None,
        null_count: Some(d.nulls() as i64),
        distinct_count: None,
        max_value: mm.as_ref().map(|x| x.1.clone()),
        min_value: mm.map(|x| x.0),
    }
}

pub fn gen_column(rng: &mut Rng, leaf: &Leaf, sh: &Shape, rows_per_page: &[usize], codec: CompressionOptions, write_stats: bool) -> ColSpec {
    let via = sh.via.unwrap_or(if rng.bool() { Via::Lib } else { Via::Ref });
    let prof = sh.prof.unwrap_or_else(|| rand_prof(rng));
    let mut datas: Vec<PageData> = rows_per_page
        .iter()
        .map(|r| {
            let p = if sh.prof.is_none() && rng.chance(1, 4) { rand_prof(rng) } else { prof };
            gen_page(rng, leaf.max_rep, leaf.max_def, leaf.ph, *r, p)
        })
        .collect();
    let encs = encodings_for(leaf.ph);
    let use_dict = sh.dict && leaf.ph != Ph::Bool && (rng.chance(1, 3) || sh.prof == Some(Prof::Seq));
    let dict_enc = if rng.bool() { EncK::RleDict } else { EncK::PlainDict };
    let plain_encs: Vec<EncK> = encs.iter().copied().filter(|e| !e.is_dict()).collect();
    let mut dict = None;
    let mut choice: Vec<EncK> = datas
        .iter()
        .map(|_| {
            if use_dict && rng.chance(4, 5) {
                dict_enc
            } else {
                *rng.pick(&plain_encs)
            }
        })
        .collect();
    if use_dict {
        let mut all: Vec<Val> = vec![];
        for (d, e) in datas.iter().zip(&choice) {
            if e.is_dict() {
                all.extend(d.vals.iter().cloned())
            }
        }
        let mut d = dictionarize(&all).0;
        if rng.chance(1, 4) {
            // entries which no page uses
            let p = rand_prof(rng);
            d.extend(gen_vals(rng, leaf.ph, 3, p));
        }
        rng.shuffle(&mut d);
        let mut seen = std::collections::HashSet::new();
        d.retain(|x| seen.insert(x.clone()));
        if rng.chance(1, 3) {
            d.sort();
        }
        dict = Some(d);
    } else {
        for c in choice.iter_mut() {
            if c.is_dict() {
                *c = EncK::Plain
            }
        }
    }
    let v2 = rng.bool();
    let mixed = rng.chance(1, 8);
    let pages = datas
        .drain(..)
        .zip(choice)
        .map(|(data, e)| {
            let v2 = if mixed { rng.bool() } else { v2 };
            let stats = if write_stats || rng.chance(1, 3) { Some(page_stats(leaf, &data)) } else { None };
            let empty = vec![];
            let built = data_page(rng, leaf, &data, e, dict.as_ref().unwrap_or(&empty), v2, via, stats.clone());
            PageSpec {
                data,
                enc: e,
                v2,
                stats,
                built,
            }
        })
        .collect();
    ColSpec { codec, dict, pages }
}
/// the file of a case: a large one in families named "scaled"
pub fn spec_of(c: &mut Case, sh: &Shape) -> FileSpec {
    let kinds: &[usize] = match c.family.rsplit_once("scaled") {
        Some((_, "")) => &[0, 1, 2, 3, 4, 5, 6, 7],
        Some((_, "-light")) => &[0, 1, 5, 6, 7, 7],
        Some((_, "-footer")) => &[7],
        _ => return gen_file(&mut c.rng, sh),
    };
    let (s, what) = gen_scaled(&mut c.rng, kinds, sh.via);
    c.count(&format!("scaled:{what}"));
    s
}
pub fn gen_file(rng: &mut Rng, sh: &Shape) -> FileSpec {
    let fields = if let Some(f) = &sh.fields {
        f.clone()
    } else if sh.flat {
        let n = rng.range(sh.min_leaves, sh.max_leaves);
        (0..n)
            .map(|i| {
                let rep = if rng.bool() {
                    parquet2::schema::Repetition::Optional
                } else {
                    parquet2::schema::Repetition::Required
                };
                let ph = sh.ph.unwrap_or_else(|| rand_ph(rng));
                rand_primitive(rng, format!("c{i}"), rep, ph, sh.annotate)
            })
            .collect()
    } else {
        rand_fields(rng, sh.max_leaves, sh.depth, sh.annotate)
    };
    let leaves = leaves(&fields);
    let write_stats = sh.write_stats.unwrap_or_else(|| rng.bool());
    let ng = rng.range(sh.min_groups, sh.max_groups.max(sh.min_groups));
    let one_codec = sh.codec.unwrap_or_else(|| all_codecs(rng));
    let mix_codecs = sh.codec.is_none() && rng.bool();
    let groups = (0..ng)
        .map(|_| {
            let np = rng.range(sh.min_pages, sh.max_pages);
            let rows: Vec<usize> = (0..np).map(|_| match sh.page_rows {
                Some((a, b)) => rng.range(a, b),
                None => rng.size(sh.max_rows),
            }).collect();
            let total: usize = rows.iter().sum();
            leaves
                .iter()
                .map(|l| {
                    let codec = if mix_codecs { all_codecs(rng) } else { one_codec };
                    // page boundaries may differ between columns
                    let r = if np > 0 && rng.chance(1, 3) {
                        let mut cuts: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(total + 1)).collect();
                        cuts.push(0);
                        cuts.push(total);
                        cuts.sort();
                        cuts.windows(2).map(|w| w[1] - w[0]).collect()
                    } else {
                        rows.clone()
                    };
                    gen_column(rng, l, sh, &r, codec, write_stats)
                })
                .collect()
        })
        .collect();
    let kv = match rng.below(4) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(
            (0..if rng.chance(1, 60) { rng.range(5, 300) } else { rng.range(1, 4) })
                .map(|i| (format!("key{i}ü"), if rng.chance(1, 4) { None } else { Some("v".repeat(rng.size(200))) }))
                .collect(),
        ),
    };
    FileSpec {
        name: rng.pick(&["schema", "root", "spark_schema", ""]).to_string(),
        fields,
        leaves,
        groups,
        write_stats,
        v2: rng.bool(),
        created_by: if rng.bool() { Some("harness 1.0 (ü)".into()) } else { None },
        kv,
    }
}

// ---------------------------------------------------------------- drivers of the writers
/// pages of one column, as the iterator of pages a user hands to the writer
pub fn page_list(c: &ColSpec, leaf: &Leaf) -> Vec<Page> {
    let mut v = vec![];
    if let Some(d) = &c.dict {
        v.push(Page::Dict(dict_page(leaf.ph, d)));
    }
    for p in &c.pages {
        v.push(Page::Data(p.built.clone()));
    }
    v
}
/// a user-written stream of compressed pages (one `compress` call per page)
struct OwnPages {
    pages: std::vec::IntoIter<Page>,
    codec: parquet2::compression::CompressionOptions,
    cur: Option<CompressedPage>,
}
impl FallibleStreamingIterator for OwnPages {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.cur = match self.pages.next() {
            Some(p) => Some(compress(p, vec![], self.codec)?),
            None => None,
        };
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.cur.as_ref()
    }
}
pub type ColStream<'a> = DynStreamingIterator<'a, CompressedPage, Error>;
pub fn column_stream<'a>(c: &ColSpec, leaf: &Leaf, mode: usize) -> ColStream<'a> {
    let pages = page_list(c, leaf);
    if mode % 2 == 0 {
        DynStreamingIterator::new(Compressor::new(pages.into_iter().map(Ok), c.codec, vec![]))
    } else {
        let codec = c.codec;
        DynStreamingIterator::new(OwnPages { pages: pages.into_iter(), codec, cur: None })
    }
}
pub fn row_group<'a>(spec: &'a FileSpec, g: usize, mode: usize) -> RowGroupIter<'a, Error> {
    let cols: Vec<_> = spec.groups[g]
        .iter()
        .zip(&spec.leaves)
        .map(|(c, l)| Ok(column_stream(c, l, mode)))
        .collect();
    DynIter::new(cols.into_iter())
}
pub fn write_sync_to<W: std::io::Write>(spec: &FileSpec, w: W, mode: usize) -> Result<(FileWriter<W>, u64), Error> {
    let mut fw = FileWriter::new(w, spec.schema(), spec.options(), spec.created_by.clone());
    for g in 0..spec.groups.len() {
        fw.write(row_group(spec, g, mode))?;
    }
    let n = fw.end(spec.keyvalues())?;
    Ok((fw, n))
}
pub fn write_sync(spec: &FileSpec, mode: usize) -> R<Vec<u8>> {
    let (fw, n) = must(write_sync_to(spec, vec![], mode), "FileWriter")?;
    let b = fw.into_inner();
    ensure!(b.len() as u64 == n, "end-size", "end() returned {n} but {} bytes were written", b.len());
    Ok(b)
}

// ---------------------------------------------------------------- oracle over the bytes
fn mf(e: String) -> Fail {
    failure("layout", e)
}
/// The independent reader: everything in the file must be what `spec` says.
pub fn check_layout(spec: &FileSpec, b: &[u8], c: &mut Case) -> R {
    let (f, fstart) = pq::footer(b).map_err(mf)?;
    // file level
    let ver = f.i32(1).map_err(mf)?;
    ensure!(ver == if spec.v2 { 2 } else { 1 }, "layout:version", "version {ver}");
    check_schema(&spec.name, &spec.fields, f.list(2).map_err(mf)?)?;
    let rows: usize = (0..spec.groups.len()).map(|g| spec.group_rows(g)).sum();
    ensure!(f.i64(3).map_err(mf)? == rows as i64, "layout:num-rows", "file num_rows {:?} expected {rows}", f.get(3));
    let cb = f.o(6, |s, i| s.bin(i).map(|x| x.to_vec())).map_err(mf)?;
    ensure!(cb == spec.created_by.as_ref().map(|x| x.as_bytes().to_vec()), "layout:created-by", "{cb:?}");
    let kv = match f.get(5) {
        None => None,
        Some(V::List(_, l)) => {
            let mut o = vec![];
            for e in l {
                let s = e.as_struct().map_err(mf)?;
                o.push((
                    String::from_utf8(s.bin(1).map_err(mf)?.to_vec()).unwrap(),
                    s.o(2, |s, i| s.bin(i).map(|x| String::from_utf8(x.to_vec()).unwrap())).map_err(mf)?,
                ));
            }
            Some(o)
        }
        _ => fail!("layout:kv", "kv"),
    };
    ensure!(kv == spec.kv, "layout:key-values", "{kv:?} expected {:?}", spec.kv);
    // minimum and maximum values have a meaning only with the order of every column
    let needs_order = spec.write_stats && !spec.groups.is_empty();
    match f.get(7) {
        None => ensure!(!needs_order, "layout:column-orders", "statistics are written without column orders"),
        Some(V::List(_, l)) => ensure!(
            l.len() == spec.leaves.len() && l.iter().all(|o| o.as_struct().is_ok_and(|o| o.0.len() == 1 && o.has(1))),
            "layout:column-orders",
            "{l:?} for {} columns",
            spec.leaves.len()
        ),
        Some(o) => fail!("layout:column-orders", "{o:?}"),
    }
    let mut cursor = 4;
    let rgs = f.list(4).map_err(mf)?;
    ensure!(rgs.len() == spec.groups.len(), "layout:row-groups", "{} row groups", rgs.len());
    // every byte of the file must belong to exactly one of these regions
    let mut regions: Vec<(usize, usize, String)> = vec![(0, 4, "magic".into()), (fstart, b.len(), "footer".into())];
    for (g, rg) in rgs.iter().enumerate() {
        let rg = rg.as_struct().map_err(mf)?;
        let cols = rg.list(1).map_err(mf)?;
        ensure!(cols.len() == spec.leaves.len(), "layout:columns", "{} columns", cols.len());
        ensure!(
            rg.i64(3).map_err(mf)? == spec.group_rows(g) as i64,
            "layout:rg-num-rows",
            "row group {g}: {:?} expected {}",
            rg.get(3),
            spec.group_rows(g)
        );
        let (mut tb, mut tc) = (0i64, 0i64);
        for (ci, col) in cols.iter().enumerate() {
            let leaf = &spec.leaves[ci];
            let cs = &spec.groups[g][ci];
            let cc = col.as_struct().map_err(mf)?;
            let md = cc.st(3).map_err(mf)?;
            ensure!(!cc.has(1), "layout:file-path", "file path set");
            let r = check_chunk(spec, leaf, cs, cc, md, b, &mut regions, &mut cursor, c)
                .map_err(|e| failure(e.sig, format!("row group {g} column {ci}: {}", e.msg)))?;
            tb += r.0;
            tc += r.1;
        }
        ensure!(rg.i64(2).map_err(mf)? == tb, "layout:rg-total-byte-size", "{:?} != {tb}", rg.get(2));
        ensure!(rg.i64(6).map_err(mf)? == tc, "layout:rg-total-compressed", "{:?} != {tc}", rg.get(6));
        if let Some(V::I64(fo)) = rg.get(5) {
            let first = cols[0].as_struct().map_err(mf)?.st(3).map_err(mf)?.i64(9).map_err(mf)?;
            ensure!(*fo == first, "layout:rg-file-offset", "{fo} != {first}");
        } else {
            fail!("layout:rg-file-offset", "missing");
        }
        ensure!(rg.i16(7).ok() == Some(g as i16), "layout:rg-ordinal", "{:?}", rg.get(7));
        c.eval();
    }
    regions.sort();
    let mut p = 0;
    for (a, e, what) in &regions {
        ensure!(*a == p, "layout:gap-or-overlap", "region {what} starts at {a}, expected {p}: {regions:?}");
        p = *e;
    }
    ensure!(p == b.len(), "layout:gap-or-overlap", "ends at {p} of {}", b.len());
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn check_chunk(
    spec: &FileSpec,
    leaf: &Leaf,
    cs: &ColSpec,
    cc: &S,
    md: &S,
    b: &[u8],
    regions: &mut Vec<(usize, usize, String)>,
    cursor: &mut usize,
    c: &mut Case,
) -> R<(i64, i64)> {
    let path: Vec<String> = md
        .list(3)
        .map_err(mf)?
        .iter()
        .map(|x| String::from_utf8(x.as_bin().unwrap().to_vec()).unwrap())
        .collect();
    ensure!(path == leaf.path, "layout:path", "{path:?} expected {:?}", leaf.path);
    ensure!(md.i32(1).map_err(mf)? == leaf.ph.code(), "layout:type", "{:?}", md.get(1));
    ensure!(md.i32(4).map_err(mf)? == codec_code(cs.eff_codec()), "layout:codec", "{:?} expected {:?}", md.get(4), cs.codec);
    let start = md.i64(9).map_err(mf)?;
    let start = match md.get(11) {
        Some(V::I64(d)) => *d.min(&start),
        _ => start,
    } as usize;
    let clen = md.i64(7).map_err(mf)?;
    let pages = pq::pages(b, start, clen as usize).map_err(mf)?;
    let nd = cs.dict.is_some() as usize;
    ensure!(pages.len() == cs.pages.len() + nd, "layout:pages", "{} pages, expected {}", pages.len(), cs.pages.len() + nd);
    let mut dict: Vec<Val> = vec![];
    let mut unc = 0i64;
    let mut vals = 0i64;
    let mut encs: Vec<i32> = vec![];
    let codec = codec_code(cs.eff_codec());
    for (i, p) in pages.iter().enumerate() {
        unc += p.header_len as i64 + p.header.i32(2).map_err(mf)? as i64;
        match pq::decode_page(p, codec, leaf, &dict).map_err(|e| failure("layout:page-decode", e))? {
            pq::Decoded::Dict(d) => {
                ensure!(i == 0 && Some(&d) == cs.dict.as_ref(), "layout:dict-values", "dictionary differs");
                let said = matches!(p.header.st(7).map_err(mf)?.get(3), Some(V::Bool(true)));
                ensure!(said == in_order(&d), "layout:dict-sorted", "the dictionary is declared sorted: {said}");
                dict = d;
                encs.push(0);
            }
            pq::Decoded::Data { d, e, v2, stats } => {
                ensure!(i >= nd, "layout:pages", "missing dictionary page");
                let ps = &cs.pages[i - nd];
                ensure!(d == ps.data, "layout:page-values", "page {i} content differs from what was written");
                ensure!(e == ps.enc && v2 == ps.v2, "layout:page-kind", "{e:?} {v2}");
                vals += d.entries() as i64;
                encs.push(e.code());
                if leaf.max_def > 0 || leaf.max_rep > 0 {
                    encs.push(3)
                }
                match (&stats, &ps.stats) {
                    (None, None) => {}
                    (Some(s), Some(x)) => {
                        ensure!(
                            pq::stat_field(s, 5) == x.max_value
                                && pq::stat_field(s, 6) == x.min_value
                                && s.o(3, |s, i| s.i64(i)).map_err(mf)? == x.null_count,
                            "layout:page-stats",
                            "page statistics differ"
                        );
                    }
                    _ => fail!("layout:page-stats", "presence of page statistics differs"),
                }
            }
        }
        c.eval();
    }
    ensure!(md.i64(5).map_err(mf)? == vals, "layout:num-values", "{:?} expected {vals}", md.get(5));
    ensure!(md.i64(6).map_err(mf)? == unc, "layout:uncompressed-size", "{:?} expected {unc}", md.get(6));
    let listed: Vec<i32> = md.list(2).map_err(mf)?.iter().map(|x| x.as_i32().unwrap()).collect();
    for e in &encs {
        ensure!(listed.contains(e), "layout:encodings", "encoding {e} used but only {listed:?} declared");
    }
    for e in &listed {
        // RLE (levels) may be declared by columns without levels
        ensure!(encs.contains(e) || *e == 3, "layout:encodings", "encoding {e} declared but only {encs:?} used");
    }
    if !pages.is_empty() {
        regions.push((start, start + clen as usize, format!("pages of {path:?}")));
    }
    // the column metadata is repeated after the chunk
    let end = start + clen as usize;
    let declared = cc.i64(2).map_err(mf)? as usize;
    // a chunk without pages has no position of its own
    let fo = if pages.is_empty() { *cursor } else { end };
    ensure!(declared == end, "layout:file-offset", "file_offset {declared}, the chunk ends at {end}");
    let (m2, used) = thrift::parse(b.get(fo..).ok_or_else(|| mf("file_offset".into()))?).map_err(mf)?;
    ensure!(&m2 == md, "layout:column-metadata-copy", "the copy at {fo} differs from the footer's");
    regions.push((fo, fo + used, "column metadata".into()));
    *cursor = fo + used;
    // chunk statistics
    if spec.write_stats {
        for (o, l) in [(4i16, 5i16), (6, 7)] {
            let off = cc.i64(o).map_err(mf)? as usize;
            let len = cc.i32(l).map_err(mf)? as usize;
            let (s, used) = thrift::parse(b.get(off..off + len).ok_or_else(|| mf("index range".into()))?).map_err(mf)?;
            ensure!(used == len, "layout:index-length", "declared {len} used {used}");
            if o == 4 {
                check_offset_index(&s, &pages[nd..], cs)?;
            } else {
                check_column_index(&s, leaf, cs)?;
            }
            regions.push((off, off + len, format!("index {o}")));
        }
    } else {
        ensure!(!cc.has(6), "layout:column-index", "column index without write_statistics");
        let off = cc.i64(4).map_err(mf)? as usize;
        let len = cc.i32(5).map_err(mf)? as usize;
        let (s, used) = thrift::parse(b.get(off..off + len).ok_or_else(|| mf("index range".into()))?).map_err(mf)?;
        ensure!(used == len, "layout:index-length", "declared {len} used {used}");
        check_offset_index(&s, &pages[nd..], cs)?;
        regions.push((off, off + len, "offset index".into()));
    }
    Ok((unc, clen))
}
pub fn check_offset_index(s: &S, pages: &[pq::PageRaw], cs: &ColSpec) -> R {
    let l = s.list(1).map_err(mf)?;
    ensure!(l.len() == pages.len(), "layout:offset-index", "{} locations for {} pages", l.len(), pages.len());
    let mut row = 0i64;
    for (i, (x, p)) in l.iter().zip(pages).enumerate() {
        let x = x.as_struct().map_err(mf)?;
        let size = (p.header_len + p.body.len()) as i32;
        ensure!(
            x.i64(1).map_err(mf)? == p.offset as i64 && x.i32(2).map_err(mf)? == size && x.i64(3).map_err(mf)? == row,
            "layout:offset-index",
            "page {i}: location {x:?}, but it is at {} size {size} first row {row}",
            p.offset
        );
        row += cs.pages[i].data.rows as i64;
    }
    Ok(())
}
pub fn check_column_index(s: &S, leaf: &Leaf, cs: &ColSpec) -> R {
    let nulls: Vec<bool> = s.list(1).map_err(mf)?.iter().map(|x| x.as_bool().unwrap()).collect();
    let mins: Vec<Vec<u8>> = s.list(2).map_err(mf)?.iter().map(|x| x.as_bin().unwrap().to_vec()).collect();
    let maxs: Vec<Vec<u8>> = s.list(3).map_err(mf)?.iter().map(|x| x.as_bin().unwrap().to_vec()).collect();
    let n = cs.pages.len();
    ensure!(nulls.len() == n && mins.len() == n && maxs.len() == n, "layout:column-index", "entries {}", nulls.len());
    let ncs = match s.get(5) {
        None => None,
        Some(V::List(_, l)) => Some(l.iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>()),
        _ => fail!("layout:column-index", "null counts"),
    };
    let bo = s.i32(4).map_err(mf)?;
    let o = order_of(&leaf.prim);
    let mut prev: Option<(Val, Val)> = None;
    for i in 0..n {
        let p = &cs.pages[i];
        let all_null = p.data.entries() == p.data.nulls();
        let st = p.stats.as_ref().unwrap();
        // a page with only nulls has no values, so min/max are absent
        ensure!(
            nulls[i] == all_null || (!all_null && st.min_value.is_none()),
            "layout:column-index-null-pages",
            "page {i}: null_pages={} but entries={} nulls={}",
            nulls[i],
            p.data.entries(),
            p.data.nulls()
        );
        if !nulls[i] {
            ensure!(
                Some(&mins[i]) == st.min_value.as_ref() && Some(&maxs[i]) == st.max_value.as_ref(),
                "layout:column-index-bounds",
                "page {i}: {:?}..{:?} expected {:?}..{:?}",
                mins[i],
                maxs[i],
                st.min_value,
                st.max_value
            );
            if bo != 0 {
                if let Some((a, b)) = &prev {
                    let (x, y) = (cmp_vals(leaf.ph, o, a, &mins[i]), cmp_vals(leaf.ph, o, b, &maxs[i]));
                    let bad = if bo == 1 { Ordering::Greater } else { Ordering::Less };
                    ensure!(x != Some(bad) && y != Some(bad), "layout:column-index-boundary-order", "order {bo} is false");
                }
                prev = Some((mins[i].clone(), maxs[i].clone()));
            }
        }
        if let Some(nc) = &ncs {
            ensure!(nc[i] == p.data.nulls() as i64, "layout:column-index-null-counts", "page {i}: {}", nc[i]);
        }
    }
    Ok(())
}
/// flattened schema elements against the tree
pub fn check_schema(name: &str, fields: &[ParquetType], els: &[V]) -> R {
    let exp = flatten(name, fields);
    let got: Vec<S> = els.iter().map(|e| e.as_struct().cloned().unwrap_or_default()).collect();
    ensure!(exp.len() == got.len(), "layout:schema", "{} elements expected {}", got.len(), exp.len());
    for (i, (e, g)) in exp.iter().zip(&got).enumerate() {
        if i == 0 {
            // the repetition of the root is not meaningful
            ensure!(g.bin(4).ok() == e.bin(4).ok() && g.i32(5).ok() == e.i32(5).ok(), "layout:schema", "root {g:?}");
            continue;
        }
        let mut e2 = e.clone();
        let mut g2 = g.clone();
        // precision and scale are redundant with the logical type when there is no converted type
        if !g.has(6) {
            g2.0.retain(|x| x.0 != 7 && x.0 != 8);
            e2.0.retain(|x| x.0 != 7 && x.0 != 8);
        }
        ensure!(e2 == g2, "layout:schema", "element {i}: {g:?} expected {e:?}");
    }
    Ok(())
}
pub fn flatten(name: &str, fields: &[ParquetType]) -> Vec<S> {
    let mut o = vec![S::new().with(4, thrift::s(name)).with(5, V::I32(fields.len() as i32))];
    fn go(t: &ParquetType, o: &mut Vec<S>) {
        let fi = t.get_field_info();
        let rep = match fi.repetition {
            parquet2::schema::Repetition::Required => 0,
            parquet2::schema::Repetition::Optional => 1,
            parquet2::schema::Repetition::Repeated => 2,
        };
        match t {
            ParquetType::PrimitiveType(p) => {
                let ph = Ph::of(p.physical_type);
                let mut s = S::new().with(1, V::I32(ph.code()));
                if let Ph::Fl(n) = ph {
                    s = s.with(2, V::I32(n as i32))
                }
                s = s.with(3, V::I32(rep)).with(4, thrift::s(&fi.name));
                if let Some(c) = &p.converted_type {
                    s = s.with(6, V::I32(conv_code(c)));
                    if let PrimitiveConvertedType::Decimal(pr, sc) = c {
                        s = s.with(7, V::I32(*sc as i32)).with(8, V::I32(*pr as i32))
                    }
                }
                s = s.opt(9, fi.id.map(V::I32));
                s = s.opt(10, p.logical_type.as_ref().map(logical_thrift));
                o.push(s)
            }
            ParquetType::GroupType {
                logical_type,
                converted_type,
                fields,
                ..
            } => {
                let mut s = S::new()
                    .with(3, V::I32(rep))
                    .with(4, thrift::s(&fi.name))
                    .with(5, V::I32(fields.len() as i32));
                s = s.opt(
                    6,
                    converted_type.as_ref().map(|c| {
                        V::I32(match c {
                            GroupConvertedType::Map => 1,
                            GroupConvertedType::MapKeyValue => 2,
                            GroupConvertedType::List => 3,
                        })
                    }),
                );
                s = s.opt(9, fi.id.map(V::I32));
                s = s.opt(
                    10,
                    logical_type.as_ref().map(|l| {
                        V::Struct(S::new().with(
                            match l {
                                GroupLogicalType::Map => 2,
                                GroupLogicalType::List => 3,
                            },
                            V::Struct(S::new()),
                        ))
                    }),
                );
                o.push(s);
                for f in fields {
                    go(f, o)
                }
            }
        }
    }
    for f in fields {
        go(f, &mut o)
    }
    o
}
pub fn conv_code(c: &PrimitiveConvertedType) -> i32 {
    use PrimitiveConvertedType::*;
    match c {
        Utf8 => 0,
        Enum => 4,
        Decimal(..) => 5,
        Date => 6,
        TimeMillis => 7,
        TimeMicros => 8,
        TimestampMillis => 9,
        TimestampMicros => 10,
        Uint8 => 11,
        Uint16 => 12,
        Uint32 => 13,
        Uint64 => 14,
        Int8 => 15,
        Int16 => 16,
        Int32 => 17,
        Int64 => 18,
        Json => 19,
        Bson => 20,
        Interval => 21,
    }
}
pub fn logical_thrift(l: &PrimitiveLogicalType) -> V {
    use PrimitiveLogicalType::*;
    let e = || V::Struct(S::new());
    let unit = |u: &TimeUnit| {
        V::Struct(S::new().with(
            match u {
                TimeUnit::Milliseconds => 1,
                TimeUnit::Microseconds => 2,
                TimeUnit::Nanoseconds => 3,
            },
            V::Struct(S::new()),
        ))
    };
    let (id, v) = match l {
        String => (1, e()),
        Enum => (4, e()),
        Decimal(p, s) => (
            5,
            V::Struct(S::new().with(1, V::I32(*s as i32)).with(2, V::I32(*p as i32))),
        ),
        Date => (6, e()),
        Time {
            unit: u,
            is_adjusted_to_utc,
        } => (7, V::Struct(S::new().with(1, V::Bool(*is_adjusted_to_utc)).with(2, unit(u)))),
        Timestamp {
            unit: u,
            is_adjusted_to_utc,
        } => (8, V::Struct(S::new().with(1, V::Bool(*is_adjusted_to_utc)).with(2, unit(u)))),
        Integer(i) => {
            let (w, sg) = match i {
                IntegerType::Int8 => (8, true),
                IntegerType::Int16 => (16, true),
                IntegerType::Int32 => (32, true),
                IntegerType::Int64 => (64, true),
                IntegerType::UInt8 => (8, false),
                IntegerType::UInt16 => (16, false),
                IntegerType::UInt32 => (32, false),
                IntegerType::UInt64 => (64, false),
            };
            (10, V::Struct(S::new().with(1, V::I8(w)).with(2, V::Bool(sg))))
        }
        Unknown => (11, e()),
        Json => (12, e()),
        Bson => (13, e()),
        Uuid => (14, e()),
    };
    V::Struct(S::new().with(id, v))
}
#[allow(unused)]
fn unused() {
    let _ = enc::crc32(&[]);
    let _: Option<DictPage> = None;
    fn f<T: FallibleStreamingIterator>(_: T) {}
}
