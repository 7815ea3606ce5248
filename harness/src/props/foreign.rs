//! C24: files of other writers, laid out by the harness's own writer.
use crate::fixture::*;
use crate::foreign::{build, Foreign};
use crate::gen::*;
use crate::hostile::with_footer;
use crate::io::{Plan, Src};
use crate::model::pq;
use crate::model::thrift::{self, S, V};
use crate::props::c01::note;
use crate::props::select::selected_group;
use crate::props::stats::{index_flat, subset};
use crate::props::transport::agree;
use crate::readers::*;
use crate::rt::*;
use crate::{ensure, fail};
use parquet2::compression::CompressionOptions;
use parquet2::indexes::BoundaryOrder;
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData};
use parquet2::page::{CompressedPage, DataPageHeader, Page};
use parquet2::read::{decompress, get_page_iterator, read_columns_indexes, read_metadata, read_pages_locations};
use parquet2::statistics::serialize_statistics;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;

/// the fields of `s` this version of the format knows, in order
fn known(s: &S, ids: &[i16], nested: &dyn Fn(i16, &S) -> S) -> S {
    let mut v: Vec<(i16, V)> = s
        .0
        .iter()
        .filter(|x| ids.contains(&x.0))
        .map(|(i, v)| {
            let v = match v {
                V::Struct(s) => V::Struct(nested(*i, s)),
                V::List(t, l) => V::List(*t, l.iter().map(|x| if let V::Struct(s) = x { V::Struct(nested(*i, s)) } else { x.clone() }).collect()),
                x => x.clone(),
            };
            (*i, v)
        })
        .collect();
    v.sort_by_key(|x| x.0);
    S(v)
}
fn all(s: &S) -> S {
    known(s, &(1..40).collect::<Vec<_>>(), &|_, s| all(s))
}
fn known_meta(s: &S) -> S {
    known(s, &(1..=14).collect::<Vec<_>>(), &|i, s| if i == 12 { known(s, &(1..=6).collect::<Vec<_>>(), &|_, s| all(s)) } else { all(s) })
}
fn known_chunk(s: &S) -> S {
    known(s, &(1..=7).collect::<Vec<_>>(), &|i, s| if i == 3 { known_meta(s) } else { all(s) })
}
fn thrift_of(c: &ColumnChunkMetaData) -> R<S> {
    let mut b = vec![];
    c.column_chunk().write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).map_err(|e| failure("harness", e.to_string()))?;
    Ok(thrift::parse(&b).map_err(|e| failure("harness", e))?.0)
}
fn opt_i64(s: &S, id: i16) -> Option<i64> {
    s.get(id).and_then(|v| if let V::I64(x) = v { Some(*x) } else { None })
}
fn check_chunk_meta(f: &crate::foreign::FCol, col: &ColumnChunkMetaData, at: &str) -> R {
    let got = known_chunk(&thrift_of(col)?);
    let want = known_chunk(&f.chunk);
    ensure!(got == want, "meta:chunk", "{at}: {got:?} expected {want:?}");
    let m = &f.meta;
    ensure!(col.file_offset() == want.i64(2).unwrap_or(-1), "meta:file-offset", "{at}");
    ensure!(col.file_path().as_ref().map(|x| x.as_bytes()) == want.get(1).and_then(|v| if let V::Bin(x) = v { Some(&x[..]) } else { None }), "meta:file-path", "{at}");
    ensure!(Some(col.compressed_size()) == opt_i64(m, 7), "meta:compressed-size", "{at}");
    ensure!(Some(col.uncompressed_size()) == opt_i64(m, 6), "meta:uncompressed-size", "{at}");
    ensure!(Some(col.data_page_offset()) == opt_i64(m, 9), "meta:data-page-offset", "{at}");
    ensure!(col.index_page_offset() == opt_i64(m, 10) && col.has_index_page() == m.has(10), "meta:index-page-offset", "{at}");
    ensure!(col.dictionary_page_offset() == opt_i64(m, 11), "meta:dictionary-page-offset", "{at}");
    let encs: Vec<i32> = col.column_encoding().iter().map(|e| e.0).collect();
    let V::List(_, l) = m.get(2).unwrap() else { return Ok(()) };
    let want: Vec<i32> = l.iter().map(|v| if let V::I32(x) = v { *x } else { -1 }).collect();
    ensure!(encs == want, "meta:encodings", "{at}: {encs:?} expected {want:?}");
    let (s, n) = col.byte_range();
    // what comes before the first page is not the reader's business
    ensure!(s as usize <= f.start && (s + n) as usize >= f.start + f.len || n == 0, "meta:byte-range", "{at}: {s}+{n} but it is at {}+{}", f.start, f.len);
    Ok(())
}
fn check_chunk_statistics(f: &crate::foreign::FCol, col: &ColumnChunkMetaData, at: &str) -> R {
    let got = col.statistics();
    let Some(V::Struct(want)) = f.meta.get(12) else {
        ensure!(got.is_none(), "meta:statistics-invented", "{at}");
        return Ok(());
    };
    let Some(got) = got else { return Err(failure("meta:statistics-missing", at.to_string())) };
    let got = got.map_err(e2f("statistics"))?;
    let s = serialize_statistics(got.as_ref());
    let b = |i: i16| want.get(i).and_then(|v| if let V::Bin(x) = v { Some(x.clone()) } else { None });
    ensure!(s.null_count == opt_i64(want, 3) && s.distinct_count == opt_i64(want, 4), "meta:statistics-counts", "{at}: {s:?} expected {want:?}");
    ensure!(s.min_value == b(6) && s.max_value == b(5), "meta:statistics-bounds", "{at}: {s:?} expected {want:?}");
    Ok(())
}
fn check_foreign_meta(c: &mut Case, spec: &FileSpec, f: &Foreign, md: &FileMetaData) -> R {
    ensure!(md.column_orders.is_some() == f.orders, "meta:orders", "{:?}", md.column_orders);
    for (g, rg) in md.row_groups.iter().enumerate() {
        let gs = &f.group_structs[g];
        ensure!(rg.total_byte_size() as i64 == gs.i64(2).unwrap_or(-1), "meta:total-byte-size", "row group {g}");
        let z: usize = f.cols[g].iter().map(|x| x.len).sum();
        ensure!(rg.compressed_size() == z, "meta:group-compressed-size", "row group {g}: {} expected {z}", rg.compressed_size());
        for (ci, col) in rg.columns().iter().enumerate() {
            let at = format!("row group {g} column {ci}");
            check_chunk_meta(&f.cols[g][ci], col, &at)?;
            check_chunk_statistics(&f.cols[g][ci], col, &at)?;
            ensure!(col.descriptor() == &md.schema().columns()[ci], "meta:descriptor", "{at}");
            
            c.eval();
        }
    }
    Ok(())
}
/// the statistics and encodings of the pages
fn check_pages(c: &mut Case, spec: &FileSpec, f: &Foreign, b: &[u8], md: &FileMetaData) -> R {
    for g in 0..spec.groups.len() {
        for ci in 0..spec.leaves.len() {
            let cs = &spec.groups[g][ci];
            let col = &md.row_groups[g].columns()[ci];
            let mut k = 0;
            for p in get_page_iterator(col, Cursor::new(b), None, vec![], MAXPAGE).map_err(e2f("get_page_iterator"))? {
                let p = match p.map_err(e2f("PageReader"))? {
                    CompressedPage::Data(p) => p,
                    CompressedPage::Dict(d) => {
                        let want = f.cols[g][ci].dict_sorted.unwrap_or(false);
                        ensure!(d.is_sorted == want, "page:dict-sorted", "row group {g} column {ci}: {} expected {want}", d.is_sorted);
                        let n = cs.dict.as_ref().map_or(0, |d| d.len());
                        match decompress(CompressedPage::Dict(d), &mut vec![]).map_err(e2f("decompress"))? {
                            Page::Dict(d) => ensure!(
                                d.is_sorted == want && d.num_values == n,
                                "page:dict-sorted",
                                "row group {g} column {ci}: decompressed {} with {} values, expected {want} with {n}",
                                d.is_sorted,
                                d.num_values
                            ),
                            Page::Data(_) => fail!("page:kind", "row group {g} column {ci}: a dictionary became a data page"),
                        }
                        continue;
                    }
                };
                let ps = &cs.pages[k];
                let at = format!("row group {g} column {ci} page {k}");
                ensure!(p.num_values() == ps.data.entries(), "page:num-values", "{at}");
                ensure!(matches!(p.header(), DataPageHeader::V2(_)) == ps.v2, "page:version", "{at}");
                match (p.statistics(), &ps.stats) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        let x = serialize_statistics(x.map_err(e2f("page statistics"))?.as_ref());
                        ensure!(
                            (&x.min_value, &x.max_value, x.null_count, x.distinct_count) == (&y.min_value, &y.max_value, y.null_count, y.distinct_count),
                            "page:statistics",
                            "{at}: {x:?} expected {y:?}"
                        );
                    }
                    (x, y) => return Err(failure("page:statistics", format!("{at}: {} expected {y:?}", x.is_some()))),
                }
                c.eval();
                k += 1;
            }
        }
    }
    Ok(())
}
fn check_page_indexes(c: &mut Case, spec: &FileSpec, f: &Foreign, b: &[u8], md: &FileMetaData) -> R {
    for g in 0..spec.groups.len() {
        let n = spec.leaves.len();
        if n == 0 {
            continue;
        }
        let sel = subset(&mut c.rng, n);
        let cols: Vec<ColumnChunkMetaData> = sel.iter().map(|i| md.row_groups[g].columns()[*i].clone()).collect();
        if f.cols[g].iter().all(|x| x.located) {
            let locs = read_pages_locations(&mut Cursor::new(b), &cols).map_err(e2f("read_pages_locations"))?;
            ensure!(locs.len() == cols.len(), "index:locations", "{} for {} columns", locs.len(), cols.len());
            for (l, i) in locs.iter().zip(&sel) {
                let got: Vec<(usize, usize, usize)> = l.iter().map(|x| (x.offset as usize, x.compressed_page_size as usize, x.first_row_index as usize)).collect();
                ensure!(got == f.cols[g][*i].pages, "index:locations", "row group {g} column {i}: {got:?} expected {:?}", f.cols[g][*i].pages);
                c.eval();
            }
            selected_group(c, spec, b, md, g)?;
            c.count("group-with-locations");
        } else {
            let r = read_pages_locations(&mut Cursor::new(b), &cols).map_err(e2f("read_pages_locations"))?;
            ensure!(r.is_empty(), "index:locations-invented", "row group {g}");
        }
        let have: Vec<bool> = sel.iter().map(|i| f.cols[g][*i].index.is_some()).collect();
        let r = read_columns_indexes(&mut Cursor::new(b), &cols);
        if !have[0] {
            // none as far as the reader cares
            let r = r.map_err(e2f("read_columns_indexes"))?;
            ensure!(r.is_empty(), "index:invented", "row group {g}");
        } else if have.iter().all(|x| *x) {
            let r = r.map_err(e2f("read_columns_indexes"))?;
            ensure!(r.len() == cols.len(), "index:count", "{} for {} columns", r.len(), cols.len());
            for (ix, i) in r.iter().zip(&sel) {
                let (nulls, mins, maxs, counts, order) = f.cols[g][*i].index.as_ref().unwrap();
                let (got, o, t) = index_flat(ix.as_ref());
                ensure!(t == spec.leaves[*i].ph.to(), "index:type", "{t:?}");
                let want: Vec<(Option<Val>, Option<Val>, Option<i64>)> = (0..nulls.len())
                    .map(|k| {
                        let m = |v: &[Val]| (!nulls[k]).then(|| v[k].clone());
                        (m(mins), m(maxs), counts.as_ref().map(|c| c[k]))
                    })
                    .collect();
                ensure!(got == want, "index:entries", "row group {g} column {i}: {got:?} expected {want:?}");
                let order = [BoundaryOrder::Unordered, BoundaryOrder::Ascending, BoundaryOrder::Descending][*order as usize];
                ensure!(o == order, "index:order", "{o:?} expected {order:?}");
                c.eval();
            }
            c.count("group-with-column-indexes");
        } else {
            // documented: all or none
            c.count("group-with-some-column-indexes");
        }
    }
    Ok(())
}
fn foreign_spec(c: &mut Case, sh: Shape) -> FileSpec {
    let mut spec = spec_of(c, &Shape { via: Some(Via::Ref), ..sh });
    for g in &mut spec.groups {
        for cs in g {
            if cs.codec == CompressionOptions::Lz4Raw && c.rng.bool() {
                cs.codec = CompressionOptions::Lz4;
            }
        }
    }
    spec
}
fn layout_with(c: &mut Case, sh: Shape) -> R {
    let spec = foreign_spec(c, sh);
    let f = build(&mut c.rng, &spec);
    c.distinct(hash_bytes(&f.bytes));
    c.sample(|| format!("{} {:?}", spec.describe(), f.notes));
    note(c, &spec);
    for n in &f.notes {
        let k = format!("layout:{n}");
        c.count(&k);
    }
    let why = |e: Fail| failure(e.sig, format!("{} [{}]", e.msg, f.notes.join(",")));
    let b = &f.bytes;
    let md = check_read(&spec, b, c, &[Mode::Decompressor, Mode::Basic, Mode::One]).map_err(why)?;
    check_foreign_meta(c, &spec, &f, &md).map_err(why)?;
    check_pages(c, &spec, &f, b, &md).map_err(why)?;
    check_page_indexes(c, &spec, &f, b, &md).map_err(why)?;
    if c.rng.chance(1, 6) {
        agree(c, &md, b, true).map_err(why)?;
    }
    // through a file that delivers less than it is asked for
    let plan = Plan::rough(&mut c.rng);
    let mut src = Src::new(b, plan);
    let again = read_metadata(&mut src).map_err(e2f("read_metadata"))?;
    check_foreign_meta(c, &spec, &f, &again).map_err(why)
}
fn layouts(c: &mut Case) -> R {
    layout_with(c, Shape::default())
}
fn dictionaries(c: &mut Case) -> R {
    let flat = c.rng.bool();
    layout_with(c, Shape { max_leaves: 3, max_groups: 3, min_groups: 1, min_pages: 1, max_pages: 6, flat, ..Default::default() })
}
fn deep(c: &mut Case) -> R {
    layout_with(c, Shape { max_leaves: 6, depth: 7, max_groups: 2, max_rows: 60, ..Default::default() })
}
fn wide(c: &mut Case) -> R {
    layout_with(c, Shape { max_leaves: 40, max_groups: 4, max_pages: 2, max_rows: 8, ..Default::default() })
}
/// levels of the deprecated encoding: not supported is fine, wrong is not
fn old_levels(c: &mut Case) -> R {
    let rng = &mut c.rng;
    let spec = gen_file(rng, &Shape { via: Some(Via::Ref), max_leaves: 3, min_groups: 1, max_groups: 1, codec: Some(CompressionOptions::Uncompressed), ..Default::default() });
    let mut body = b"PAR1".to_vec();
    let mut cols = vec![];
    let mut old = vec![];
    for (leaf, cs) in spec.leaves.iter().zip(&spec.groups[0]) {
        let start = body.len();
        let mut encs = vec![4, 3];
        if let Some(d) = &cs.dict {
            let raw = plain(leaf.ph, d);
            let h = S::new()
                .with(1, V::I32(2))
                .with(2, V::I32(raw.len() as i32))
                .with(3, V::I32(raw.len() as i32))
                .with(7, V::Struct(S::new().with(1, V::I32(d.len() as i32)).with(2, V::I32(2))));
            body.extend(thrift::bytes(&h));
            body.extend(raw);
        }
        let mut used = vec![];
        for p in &cs.pages {
            let s = sections(rng, leaf, &p.data, p.enc, cs.dict.as_deref().unwrap_or(&[]), Via::Ref);
            let mut raw = vec![];
            let mut code = [3, 3];
            for (k, (v, x, max)) in [(&p.data.reps, &s.rep, leaf.max_rep), (&p.data.defs, &s.def, leaf.max_def)].into_iter().enumerate() {
                if max == 0 {
                    continue;
                }
                if rng.bool() {
                    code[k] = 4;
                    let w = crate::model::enc::width_for(max as u64);
                    // most significant bit first, without a length
                    let mut bits: Vec<bool> = v.iter().flat_map(|x| (0..w).rev().map(move |i| x >> i & 1 == 1)).collect();
                    bits.resize((bits.len() + 7) / 8 * 8, false);
                    raw.extend(bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)));
                } else {
                    raw.extend((x.len() as u32).to_le_bytes());
                    raw.extend(x);
                }
            }
            raw.extend(&s.values);
            used.push(code);
            let inner = S::new().with(1, V::I32(p.data.entries() as i32)).with(2, V::I32(p.enc.code())).with(3, V::I32(code[1])).with(4, V::I32(code[0]));
            let h = S::new().with(1, V::I32(0)).with(2, V::I32(raw.len() as i32)).with(3, V::I32(raw.len() as i32)).with(5, V::Struct(inner));
            body.extend(thrift::bytes(&h));
            body.extend(raw);
            encs.push(p.enc.code());
        }
        let n: usize = cs.pages.iter().map(|p| p.data.entries()).sum();
        let len = (body.len() - start) as i64;
        let m = S::new()
            .with(1, V::I32(leaf.ph.code()))
            .with(2, thrift::ilist(encs))
            .with(3, thrift::blist(leaf.path.iter().map(|x| x.as_bytes().to_vec())))
            .with(4, V::I32(0))
            .with(5, V::I64(n as i64))
            .with(6, V::I64(len))
            .with(7, V::I64(len))
            .with(9, V::I64(start as i64));
        cols.push(S::new().with(2, V::I64(start as i64)).with(3, V::Struct(m)));
        old.push(used);
    }
    let rows = spec.group_rows(0) as i64;
    let group = S::new().with(1, thrift::slist(cols)).with(2, V::I64(0)).with(3, V::I64(rows));
    let f = S::new()
        .with(1, V::I32(1))
        .with(2, thrift::slist(flatten(&spec.name, &spec.fields)))
        .with(3, V::I64(rows))
        .with(4, thrift::slist([group]));
    let b = with_footer(&body, &f);
    c.distinct(hash_bytes(&b));
    let md = read_metadata(&mut Cursor::new(&b)).map_err(e2f("read_metadata"))?;
    for (ci, leaf) in spec.leaves.iter().enumerate() {
        let col = &md.row_groups[0].columns()[ci];
        let cs = &spec.groups[0][ci];
        let mut dict = vec![];
        let mut k = 0;
        let Ok(it) = get_page_iterator(col, Cursor::new(&b), None, vec![], MAXPAGE) else {
            c.count("rejected");
            continue;
        };
        for p in it {
            let Ok(p) = p else {
                c.count("rejected");
                break;
            };
            let is = matches!(p, CompressedPage::Data(_));
            let is_old = is && old[ci][k].contains(&4);
            let p = match decompress(p, &mut vec![]) {
                Ok(p) => p,
                Err(_) if is_old => {
                    c.count("rejected");
                    break;
                }
                Err(e) => return Err(e2f("decompress")(e)),
            };
            let mut ch = Chunk { dict: Some(dict.clone()), ..Default::default() };
            if !is {
                ch.dict = None;
            }
            // through what the crate offers to split and decode pages
            match guarded("decoding", || absorb(&p, leaf, &mut ch, true)) {
                Ok(Ok(())) => {
                    if is {
                        ensure!(
                            ch.pages.len() == 1 && ch.pages[0] == cs.pages[k].data,
                            "levels:wrong",
                            "column {ci} page {k}: levels encoded as {:?} of {:?} are read as others",
                            old[ci][k],
                            (leaf.max_rep, leaf.max_def)
                        );
                        c.count(if is_old { "read-old" } else { "read-new" });
                        k += 1;
                    } else {
                        dict = ch.dict.unwrap_or_default();
                    }
                }
                Ok(Err(e)) if is_old => {
                    let is_lib = !e.sig.starts_with("harness");
                    ensure!(is_lib, "harness", "{}", e.msg);
                    ensure!(!e.sig.contains("page-state") || e.msg.contains("error"), "levels:wrong", "column {ci} page {k}: {}", e.msg);
                    c.count("rejected");
                    k += 1;
                }
                Ok(Err(e)) => return Err(e),
                Err(e) => return Err(e),
            }
            c.eval();
        }
    }
    let _ = pq::footer(&b);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "an independent writer lays random data out with the freedom the format gives (field order, unknown and absent fields, offsets, padding, order and place of chunks and indexes, checksums, legacy encodings and annotations, raw v2 pages, foreign compressors); data, levels, metadata, page headers, indexes and selections are compared with what was stored; distinct = hash of the file",
        assumptions: &["the harness's own writer follows the Parquet specification", "unknown fields hold no binary that is not UTF-8 (the thrift library rejects them)"],
        families: vec![
            Family { name: "layouts", quick: 8000, thorough: 300000, f: layouts },
            Family { name: "dictionaries", quick: 3000, thorough: 100000, f: dictionaries },
            Family { name: "wide", quick: 400, thorough: 12000, f: wide },
            Family { name: "deep", quick: 600, thorough: 30000, f: deep },
            Family { name: "scaled", quick: 48, thorough: 2000, f: layouts },
            Family { name: "old-levels", quick: 3000, thorough: 60000, f: old_levels },
        ],
    }
}
