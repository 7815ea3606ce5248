//! What a reader delivers, as a list of events that can be compared between runs.
use crate::io::*;
use crate::rt::*;
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::FallibleStreamingIterator;

/// `None`: an error was returned
#[derive(Clone, Debug)]
pub struct Ev {
    pub h: Option<u64>,
    pub what: String,
}
impl Ev {
    pub fn err(e: &Error) -> Ev {
        Ev { h: None, what: format!("Err({e:?})") }
    }
    pub fn ok(what: String, dbg: &str) -> Ev {
        Ev { h: Some(hash_str(dbg)), what }
    }
}
pub fn compressed(p: &CompressedPage) -> Ev {
    let what = match p {
        CompressedPage::Data(d) => format!("page of {} values in {} bytes", d.num_values(), d.compressed_size()),
        CompressedPage::Dict(_) => "dictionary page".to_string(),
    };
    Ev::ok(what, &format!("{p:?}"))
}
pub fn plain_page(p: &Page) -> Ev {
    let what = match p {
        Page::Data(d) => format!("page of {} values in {} bytes", d.num_values(), d.buffer().len()),
        Page::Dict(d) => format!("dictionary page of {} values", d.num_values),
    };
    Ev::ok(what, &format!("{p:?}"))
}
/// errors after which reading goes on
const ERRS: usize = 3;
const MAX: usize = 1 << 26;
pub type Op<'a> = (String, Box<dyn Fn(Src<'a>) -> Vec<Ev> + 'a>);

/// asynchronous operations: futures that can be moved between threads
pub type AOp<'a> = (String, Box<dyn Fn(Src<'a>) -> futures::future::BoxFuture<'a, Vec<Ev>> + 'a>);

pub fn one<T: std::fmt::Debug>(what: &str, r: Result<T, Error>) -> Vec<Ev> {
    vec![match r {
        Ok(x) => Ev::ok(what.into(), &format!("{x:?}")),
        Err(e) => Ev::err(&e),
    }]
}
fn iter(it: impl Iterator<Item = Result<CompressedPage, Error>>) -> Vec<Ev> {
    let mut v = vec![];
    let mut errs = 0;
    for p in it {
        match p {
            Ok(p) => v.push(compressed(&p)),
            Err(e) => {
                v.push(Ev::err(&e));
                errs += 1;
                if errs == ERRS {
                    break;
                }
            }
        }
        if v.len() > 10_000 {
            break;
        }
    }
    v
}
fn stream_pages<I: FallibleStreamingIterator<Item = Page, Error = Error>>(mut it: I) -> Vec<Ev> {
    let mut v = vec![];
    let mut errs = 0;
    loop {
        match it.next() {
            Ok(Some(p)) => v.push(plain_page(p)),
            Ok(None) => break,
            Err(e) => {
                v.push(Ev::err(&e));
                errs += 1;
                if errs == ERRS {
                    break;
                }
            }
        }
        if v.len() > 10_000 {
            break;
        }
    }
    v
}
/// the operations on the metadata
pub fn metadata_ops<'a>(b: &'a [u8]) -> Vec<Op<'a>> {
    let n = b.len() as u64;
    vec![
        ("metadata".into(), Box::new(|mut s: Src<'a>| one("metadata", read_metadata(&mut s)))),
        ("metadata-with-size".into(), Box::new(move |mut s: Src<'a>| one("metadata", read_metadata_with_size(&mut s, n)))),
    ]
}
pub fn async_metadata_ops<'a>() -> Vec<Op<'a>> {
    vec![("metadata".into(), Box::new(|mut s: Src<'a>| one("metadata", block(read_metadata_async(&mut s)))))]
}
fn keep(mode: usize) -> PageFilter {
    std::sync::Arc::new(move |_: &Descriptor, h: &DataPageHeader| match mode {
        0 => true,
        1 => h.num_values() % 2 == 0,
        _ => false,
    })
}
/// the operations on one row group
pub fn group_ops<'a>(md: &'a FileMetaData, g: usize) -> Vec<Op<'a>> {
    let rg = &md.row_groups[g];
    let mut v: Vec<Op<'a>> = vec![];
    for (i, col) in rg.columns().iter().enumerate() {
        for f in 0..3 {
            v.push((
                format!("pages {g}/{i} filter {f}"),
                Box::new(move |s: Src<'a>| match get_page_iterator(col, s, Some(keep(f)), vec![], MAX) {
                    Ok(it) => iter(it),
                    Err(e) => vec![Ev::err(&e)],
                }),
            ));
        }
        v.push((
            format!("decompressor {g}/{i}"),
            Box::new(move |s: Src<'a>| match get_page_iterator(col, s, None, vec![], MAX) {
                Ok(it) => stream_pages(Decompressor::new(it, vec![])),
                Err(e) => vec![Ev::err(&e)],
            }),
        ));
        v.push((
            format!("basic-decompressor {g}/{i}"),
            Box::new(move |s: Src<'a>| match get_page_iterator(col, s, None, vec![], MAX) {
                Ok(it) => stream_pages(BasicDecompressor::new(it, vec![])),
                Err(e) => vec![Ev::err(&e)],
            }),
        ));
        v.push((
            format!("bytes {g}/{i}"),
            Box::new(move |mut s: Src<'a>| one("column bytes", read_column(&mut s, col))),
        ));
        v.push((
            format!("from-start {g}/{i}"),
            Box::new(move |mut s: Src<'a>| {
                use std::io::Seek;
                match s.seek(std::io::SeekFrom::Start(col.byte_range().0)) {
                    Ok(_) => iter(PageReader::new(s, col, keep(0), vec![], MAX)),
                    Err(e) => vec![Ev::err(&e.into())],
                }
            }),
        ));
        v.push((
            format!("bloom {g}/{i}"),
            Box::new(move |mut s: Src<'a>| {
                let mut bits = vec![1, 2, 3];
                let r = parquet2::bloom_filter::read(col, &mut s, &mut bits);
                one("bloom filter", r.map(|_| bits))
            }),
        ));
    }
    for f in md.schema().fields() {
        let name = f.name();
        v.push((
            format!("field-bytes {g}/{name}"),
            Box::new(move |mut s: Src<'a>| one("field bytes", read_columns(&mut s, rg.columns(), name))),
        ));
        v.push((
            format!("column-iterator {g}/{name}"),
            Box::new(move |s: Src<'a>| {
                let mut v = vec![];
                let mut it = get_column_iterator(s, rg, name, None, vec![], MAX);
                loop {
                    match it.advance() {
                        Ok(State::Some(mut x)) => {
                            if let Some((pages, col)) = x.get() {
                                v.push(Ev::ok("column".into(), &format!("{col:?}")));
                                v.extend(iter(pages));
                            }
                            it = x
                        }
                        Ok(State::Finished(_)) => break,
                        Err(e) => {
                            v.push(Ev::err(&e));
                            break;
                        }
                    }
                }
                v
            }),
        ));
    }
    v.push((
        format!("column-indexes {g}"),
        Box::new(move |mut s: Src<'a>| one("column indexes", read_columns_indexes(&mut s, rg.columns()))),
    ));
    v.push((
        format!("page-locations {g}"),
        Box::new(move |mut s: Src<'a>| one("page locations", read_pages_locations(&mut s, rg.columns()))),
    ));
    v
}
/// reading selected rows through the indexes; `locs`: the locations of the pages of the group
pub fn indexed_ops<'a>(md: &'a FileMetaData, g: usize, locs: &[Vec<PageLocation>], sel: Vec<Interval>) -> Vec<Op<'a>> {
    let rg = &md.row_groups[g];
    let mut v: Vec<Op<'a>> = vec![];
    for (i, col) in rg.columns().iter().enumerate() {
        let Some(l) = locs.get(i) else { continue };
        let Ok(pages) = select_pages(&sel, l, rg.num_rows()) else { continue };
        v.push((
            format!("indexed {g}/{i}"),
            Box::new(move |s: Src<'a>| iter(IndexedPageReader::new(s, col, pages.clone(), vec![], vec![]))),
        ));
    }
    v
}
async fn drain_stream(s: impl futures::Stream<Item = Result<CompressedPage, Error>>) -> Vec<Ev> {
    use futures::StreamExt;
    futures::pin_mut!(s);
    let mut v = vec![];
    let mut errs = 0;
    while let Some(p) = s.next().await {
        match p {
            Ok(p) => v.push(compressed(&p)),
            Err(e) => {
                v.push(Ev::err(&e));
                errs += 1;
                if errs == ERRS {
                    break;
                }
            }
        }
        if v.len() > 10_000 {
            break;
        }
    }
    v
}
/// the asynchronous counterparts, under the names of the synchronous operations
pub fn async_jobs<'a>(md: &'a FileMetaData, g: usize) -> Vec<AOp<'a>> {
    let rg = &md.row_groups[g];
    let mut v: Vec<AOp<'a>> = vec![];
    for (i, col) in rg.columns().iter().enumerate() {
        for f in 0..3 {
            v.push((
                format!("pages {g}/{i} filter {f}"),
                Box::new(move |mut s: Src<'a>| {
                    Box::pin(async move {
                        match get_page_stream(col, &mut s, vec![], keep(f), MAX).await {
                            Ok(it) => drain_stream(it).await,
                            Err(e) => vec![Ev::err(&e)],
                        }
                    })
                }),
            ));
        }
        v.push((
            format!("from-start {g}/{i}"),
            Box::new(move |mut s: Src<'a>| {
                Box::pin(async move {
                    use futures::AsyncSeekExt;
                    match s.seek(std::io::SeekFrom::Start(col.byte_range().0)).await {
                        Ok(_) => match get_page_stream_from_column_start(col, &mut s, vec![7], keep(0), MAX).await {
                            Ok(it) => drain_stream(it).await,
                            Err(e) => vec![Ev::err(&e)],
                        },
                        Err(e) => vec![Ev::err(&e.into())],
                    }
                })
            }),
        ));
        v.push((
            format!("bytes {g}/{i}"),
            Box::new(move |s: Src<'a>| {
                let f = move || -> futures::future::BoxFuture<'a, std::io::Result<Src<'a>>> {
                    let s = s.reopen();
                    Box::pin(async move { Ok(s) })
                };
                Box::pin(async move { one("column bytes", read_column_async(f, col).await) })
            }),
        ));
    }
    for f in md.schema().fields() {
        let name = f.name();
        v.push((
            format!("field-bytes {g}/{name}"),
            Box::new(move |s: Src<'a>| {
                let f = move || -> futures::future::BoxFuture<'a, std::io::Result<Src<'a>>> {
                    let s = s.reopen();
                    Box::pin(async move { Ok(s) })
                };
                Box::pin(async move { one("field bytes", read_columns_async(f, rg.columns(), name).await) })
            }),
        ));
    }
    v
}

pub fn async_group_ops<'a>(md: &'a FileMetaData, g: usize) -> Vec<Op<'a>> {
    async_jobs(md, g).into_iter().map(|(n, f)| -> Op<'a> { (n, Box::new(move |s: Src<'a>| block(f(s)))) }).collect()
}

/// What was delivered under faults against what the file contains: exactly the same events, in
/// order, up to the first error; after it, nothing that is not in the file, and never an end
/// without either all of it or an error.
pub fn judge(name: &str, clean: &[Ev], got: &[Ev], how: &str) -> R {
    let kind = name.split(' ').next().unwrap();
    let mut i = 0;
    let mut failed = false;
    for e in got {
        match e.h {
            None => failed = true,
            Some(h) => {
                let at = if failed { clean[i..].iter().position(|x| x.h == Some(h)).map(|p| p + i) } else { (clean.get(i).map(|x| x.h) == Some(Some(h))).then_some(i) };
                match at {
                    Some(p) => i = p + 1,
                    None => {
                        return Err(failure(
                            format!("wrong-data:{kind}{}", if failed { "-after-error" } else { "" }),
                            format!("{name}, {how}: item {i} is a {} that is not the file's ({})", e.what, clean.get(i).map(|x| x.what.as_str()).unwrap_or("end")),
                        ))
                    }
                }
            }
        }
    }
    if !failed && i != clean.len() {
        return Err(failure(
            format!("shortened:{kind}"),
            format!("{name}, {how}: ended after {i} of {} items without an error", clean.len()),
        ));
    }
    Ok(())
}
pub fn same(name: &str, a: &[Ev], b: &[Ev], how: &str) -> R {
    let kind = name.split(' ').next().unwrap();
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        let eq = match (x, y) {
            (Some(x), Some(y)) => x.h == y.h,
            _ => false,
        };
        if !eq {
            return Err(failure(
                format!("differs:{kind}"),
                format!("{name}, {how}: item {i} is {:?}, expected {:?}", y.map(|x| &x.what), x.map(|x| &x.what)),
            ));
        }
    }
    Ok(())
}
