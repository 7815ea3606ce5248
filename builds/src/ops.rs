//! Operations whose outcome is compared between build configurations. Also compiled into the harness, whose
//! configuration has all the codecs.
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::error::{Error, Feature};
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::io::Cursor;

const MAX: usize = 1 << 28;

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for x in b.chunks(8) {
        let mut a = [0; 8];
        a[..x.len()].copy_from_slice(x);
        h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
    }
    h ^ (h >> 31)
}
/// the outcome of one operation
#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub name: String,
    /// the codec that the operation is about; empty when it needs none
    pub codec: String,
    /// the operation cannot be performed without the codec
    pub strict: bool,
    pub outcome: String,
}
impl Line {
    pub fn line(&self) -> String {
        format!("{}\t{}\t{}\t{}", self.name, self.codec, self.strict as u8, self.outcome)
    }
    pub fn parse(s: &str) -> Option<Line> {
        let v: Vec<&str> = s.split('\t').collect();
        (v.len() == 4).then(|| Line { name: v[0].into(), codec: v[1].into(), strict: v[2] == "1", outcome: v[3].into() })
    }
}
fn kind(e: &Error) -> String {
    match e {
        Error::FeatureNotActive(f, _) => format!(
            "inactive:{}",
            match f {
                Feature::Snappy => "snappy",
                Feature::Brotli => "brotli",
                Feature::Gzip => "gzip",
                Feature::Lz4 => "lz4",
                Feature::Zstd => "zstd",
                _ => "?",
            }
        ),
        Error::OutOfSpec(_) => "err:oos".into(),
        Error::FeatureNotSupported(_) => "err:unsupported".into(),
        Error::InvalidParameter(_) => "err:parameter".into(),
        Error::WouldOverAllocate => "err:over-allocate".into(),
        _ => "err:?".into(),
    }
}
pub fn codec_of(c: Compression) -> &'static str {
    match c {
        Compression::Snappy => "snappy",
        Compression::Gzip => "gzip",
        Compression::Brotli => "brotli",
        Compression::Lz4 | Compression::Lz4Raw => "lz4",
        Compression::Zstd => "zstd",
        Compression::Uncompressed | Compression::Lzo => "",
    }
}
pub const CODECS: [CompressionOptions; 6] = [
    CompressionOptions::Uncompressed,
    CompressionOptions::Snappy,
    CompressionOptions::Gzip(None),
    CompressionOptions::Brotli(None),
    CompressionOptions::Lz4Raw,
    CompressionOptions::Zstd(None),
];
fn codec_of_code(c: u8) -> Compression {
    match c {
        0 => Compression::Uncompressed,
        1 => Compression::Snappy,
        2 => Compression::Gzip,
        3 => Compression::Lzo,
        4 => Compression::Brotli,
        5 => Compression::Lz4,
        6 => Compression::Zstd,
        _ => Compression::Lz4Raw,
    }
}
struct Out(Vec<Line>);
impl Out {
    /// `f` gives what identifies the result
    fn op<T: AsRef<[u8]>>(&mut self, name: String, codec: &str, strict: bool, f: impl FnOnce() -> Result<T, Error>) {
        let outcome = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(x)) => format!("ok:{:016x}", hash(x.as_ref())),
            Ok(Err(e)) => kind(&e),
            Err(_) => "panic".into(),
        };
        self.0.push(Line { name, codec: codec.into(), strict, outcome });
    }
    /// an operation whose input is not available, for lack of this codec (if any)
    fn skipped(&mut self, name: String, codec: &str) {
        self.0.push(Line { name, codec: String::new(), strict: false, outcome: format!("skipped:{codec}") });
    }
    fn dbg<T: std::fmt::Debug>(&mut self, name: String, f: impl FnOnce() -> Result<T, Error>) {
        self.op(name, "", false, || f().map(|x| format!("{x:?}")))
    }
}
fn file(o: &mut Out, b: &[u8], n: usize) {
    o.dbg(format!("metadata {n}"), || read_metadata(&mut Cursor::new(b)));
    let Ok(md) = read_metadata(&mut Cursor::new(b)) else { return };
    o.dbg(format!("thrift {n}"), || Ok(md.clone().into_thrift()));
    o.dbg(format!("statistics {n}"), || {
        md.row_groups
            .iter()
            .flat_map(|g| g.columns())
            .filter_map(|c| c.statistics())
            .map(|s| s.map(|s| parquet2::statistics::serialize_statistics(&*s)))
            .collect::<Result<Vec<_>, _>>()
    });
    for (g, rg) in md.row_groups.iter().enumerate() {
        o.dbg(format!("locations {n}/{g}"), || read_pages_locations(&mut Cursor::new(b), rg.columns()));
        o.dbg(format!("indexes {n}/{g}"), || read_columns_indexes(&mut Cursor::new(b), rg.columns()));
        for (i, col) in rg.columns().iter().enumerate() {
            column(o, b, rg, col, &format!("{n}/{g}/{i}"));
        }
    }
    #[cfg(feature = "async")]
    o.dbg(format!("async-metadata {n}"), || futures::executor::block_on(read_metadata_async(&mut futures::io::Cursor::new(b))));
}
fn raw_pages(b: &[u8], col: &ColumnChunkMetaData) -> Result<Vec<CompressedPage>, Error> {
    get_page_iterator(col, Cursor::new(b), None, vec![], MAX)?.take(100_000).collect()
}
fn page_bytes(p: &Page, out: &mut Vec<u8>) {
    out.extend_from_slice(format!("{p:?}").as_bytes());
}
fn plain_of(p: CompressedPage) -> Result<Page, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decompress(p, &mut vec![]))).map_err(|_| ())?.map_err(|_| ())
}
fn is_strict(p: &Page) -> bool {
    match p {
        Page::Data(d) => match d.header() {
            DataPageHeader::V1(_) => !d.buffer().is_empty(),
            DataPageHeader::V2(_) => split_buffer(d).map(|x| !x.2.is_empty()).unwrap_or(false),
        },
        Page::Dict(d) => !d.buffer.is_empty(),
    }
}
fn column(o: &mut Out, b: &[u8], rg: &RowGroupMetaData, col: &ColumnChunkMetaData, at: &str) {
    let codec = codec_of(col.compression());
    let codec_name = format!("{:?}", col.compression());
    o.dbg(format!("pages {at}"), || raw_pages(b, col));
    o.op(format!("bytes {at}"), "", false, || read_column(&mut Cursor::new(b), col));
    #[cfg(feature = "async")]
    o.dbg(format!("async-pages {at}"), || {
        use futures::StreamExt;
        futures::executor::block_on(async {
            let mut r = futures::io::Cursor::new(b);
            let keep: PageFilter = std::sync::Arc::new(|_, _| true);
            let s = get_page_stream(col, &mut r, vec![], keep, MAX).await?;
            futures::pin_mut!(s);
            let mut v = vec![];
            while let Some(p) = s.next().await {
                v.push(p?);
            }
            Ok::<_, Error>(v)
        })
    });
    o.op(format!("indexed {at}"), "", false, || {
        let l = read_pages_locations(&mut Cursor::new(b), std::slice::from_ref(col))?;
        let mut v = vec![];
        if let Some(l) = l.first().filter(|l| !l.is_empty()) {
            let sel = select_pages(&[Interval::new(0, rg.num_rows())], l, rg.num_rows())?;
            for p in IndexedPageReader::new(Cursor::new(b), col, sel, vec![], vec![]) {
                v.extend_from_slice(format!("{:?}", p?).as_bytes());
            }
        }
        Ok(v)
    });
    #[cfg(feature = "bloom_filter")]
    o.op(format!("bloom {at}"), "", false, || {
        let mut v = vec![];
        parquet2::bloom_filter::read(col, &mut Cursor::new(b), &mut v).map(|_| v)
    });
    // reading the values
    o.op(format!("decompressor-{codec_name} {at}"), codec, false, || {
        let mut it = Decompressor::new(get_page_iterator(col, Cursor::new(b), None, vec![], MAX)?, vec![]);
        let mut v = vec![];
        while let Some(p) = it.next()? {
            page_bytes(p, &mut v);
        }
        Ok(v)
    });
    o.op(format!("basic-decompressor-{codec_name} {at}"), codec, false, || {
        let mut it = BasicDecompressor::new(get_page_iterator(col, Cursor::new(b), None, vec![], MAX)?, vec![]);
        let mut v = vec![];
        while let Some(p) = it.next()? {
            page_bytes(p, &mut v);
        }
        Ok(v)
    });
    let pages = || raw_pages(b, col).unwrap_or_default();
    for (k, p) in pages().into_iter().enumerate().take(6) {
        o.op(format!("page-{codec_name} {at}/{k}"), codec, false, || {
            let mut v = vec![];
            decompress(p, &mut vec![]).map(|p| page_bytes(&p, &mut v)).map(|_| v)
        });
    }
    // writing them with every codec
    for z in CODECS {
        let to = codec_of(z.into());
        for (k, p) in pages().into_iter().enumerate().take(4) {
            let name = format!("compress-{z:?} {at}/{k}");
            let Ok(p) = plain_of(p) else {
                o.skipped(name, codec);
                continue;
            };
            let strict = is_strict(&p);
            o.op(name, to, strict, || {
                let q = compress(p, vec![], z)?;
                let mut v = vec![];
                page_bytes(&decompress(q, &mut vec![])?, &mut v);
                Ok(v)
            });
        }
        let plain: Result<Vec<Page>, ()> = pages().into_iter().map(plain_of).collect();
        let name = format!("write-{z:?} {at}");
        let Ok(plain) = plain else {
            o.skipped(name, codec);
            continue;
        };
        let strict = plain.iter().any(is_strict);
        let one = SchemaDescriptor::new("root".into(), vec![parquet2::schema::types::ParquetType::PrimitiveType(
            col.descriptor().descriptor.primitive_type.clone(),
        )]);
        // a column of another schema cannot be a file of its own
        if col.descriptor().base_type.get_field_info() != one.fields()[0].get_field_info() || plain.is_empty() {
            o.skipped(name, "");
            continue;
        }
        o.op(name, to, strict, || {
            let options = WriteOptions { write_statistics: false, version: Version::V1 };
            let mut w = FileWriter::new(vec![], one.clone(), options, None);
            let it = Compressor::new(plain.into_iter().map(Ok), z, vec![]);
            let columns = std::iter::once(Ok(DynStreamingIterator::new(it)));
            w.write(DynIter::new(columns))?;
            w.end(None)?;
            let b = w.into_inner();
            let md = read_metadata(&mut Cursor::new(&b))?;
            let c = &md.row_groups[0].columns()[0];
            let mut v = vec![];
            for p in get_page_iterator(c, Cursor::new(&b), None, vec![], MAX)? {
                page_bytes(&decompress(p?, &mut vec![])?, &mut v);
            }
            Ok(v)
        });
    }
}
fn u32_at(b: &mut &[u8]) -> usize {
    let (x, rest) = b.split_at(4);
    *b = rest;
    u32::from_le_bytes(x.try_into().unwrap()) as usize
}
fn take<'a>(b: &mut &'a [u8]) -> &'a [u8] {
    let n = u32_at(b);
    let (x, rest) = b.split_at(n);
    *b = rest;
    x
}
/// corpus: items of a kind (1 byte); 0: a file; 1: a codec (1 byte), a size and data to decompress to it; 2: data to compress
pub fn run(mut b: &[u8]) -> Vec<Line> {
    let mut o = Out(vec![]);
    let mut n = 0;
    while !b.is_empty() {
        let k = b[0];
        b = &b[1..];
        match k {
            0 => file(&mut o, take(&mut b), n),
            1 => {
                let c = codec_of_code(b[0]);
                b = &b[1..];
                let size = u32_at(&mut b);
                let d = take(&mut b);
                // stored bytes of another length than the data cannot be a copy of it
                let strict = size != d.len();
                o.op(format!("decompress-{c:?} {n}"), codec_of(c), strict, || {
                    let mut v = vec![0x5a; size];
                    parquet2::compression::decompress(c, d, &mut v).map(|_| v)
                });
            }
            _ => {
                let d = take(&mut b);
                for z in CODECS.into_iter().chain([CompressionOptions::Lzo, CompressionOptions::Lz4]) {
                    o.op(format!("raw-compress-{z:?} {n}"), codec_of(z.into()), !d.is_empty(), || {
                        let mut c = vec![1, 2, 3];
                        parquet2::compression::compress(z, d, &mut c)?;
                        let mut v = vec![0x5a; d.len()];
                        parquet2::compression::decompress(z.into(), &c[3..], &mut v)?;
                        v.extend_from_slice(&c[..3]);
                        Ok(v)
                    });
                }
            }
        }
        n += 1;
    }
    o.0
}
