use crate::fixture::*;
use crate::gen::*;
use crate::readers::*;
use crate::rt::*;

pub fn note(c: &mut Case, spec: &FileSpec) {
    c.distinct(spec.hash());
    c.most("row-groups", spec.groups.len());
    c.most("columns", spec.leaves.len());
    c.most("key-values", spec.kv.as_ref().map_or(0, |x| x.len()));
    for l in &spec.leaves {
        c.most("depth", l.path.len());
        c.most("definition-level", l.max_def as usize);
        c.most("repetition-level", l.max_rep as usize);
        c.most("name-bytes", l.path.iter().map(|x| x.len()).max().unwrap_or(0));
    }
    for g in &spec.groups {
        for (col, leaf) in g.iter().zip(&spec.leaves) {
            let k = format!("codec:{}", codec_name(col.codec));
            c.count(&k);
            c.most("pages-of-a-chunk", col.pages.len());
            c.most("dictionary", col.dict.as_ref().map_or(0, |x| x.len()));
            for p in &col.pages {
                c.most("rows-of-a-page", p.data.rows);
                c.most("entries-of-a-page", p.data.entries());
                c.most("values-of-a-page", p.data.vals.len());
                c.most("page-bytes", p.built.buffer().len());
                c.most("value-bytes", p.data.vals.iter().map(|v| v.len()).max().unwrap_or(0));
                let k = format!("page:{:?}/{:?}/{}", leaf.ph, p.enc, if p.v2 { "v2" } else { "v1" });
                let k = k.replace("Fl(", "Fl").replace(')', "");
                let k = if k.contains("Fl") { k.split('/').skip(1).fold("page:Fl".to_string(), |a, b| a + "/" + b) } else { k };
                c.count(&k);
                c.add("rows", p.data.rows as u64);
                c.add("values", p.data.vals.len() as u64);
            }
        }
    }
}
fn roundtrip(c: &mut Case) -> R {
    let sh = Shape::default();
    run(c, sh)
}
fn flat_large(c: &mut Case) -> R {
    let sh = Shape {
        max_leaves: 2,
        depth: 0,
        max_groups: 2,
        max_pages: 3,
        max_rows: 5000,
        flat: true,
        ..Default::default()
    };
    run(c, sh)
}
fn deep(c: &mut Case) -> R {
    let sh = Shape {
        max_leaves: 6,
        depth: 7,
        max_groups: 2,
        max_rows: 60,
        ..Default::default()
    };
    run(c, sh)
}
fn wide(c: &mut Case) -> R {
    let sh = Shape {
        max_leaves: 60,
        depth: 2,
        max_groups: 4,
        max_pages: 2,
        max_rows: 8,
        ..Default::default()
    };
    run(c, sh)
}
/// every (type, encoding, version, codec) combination in turn
fn matrix(c: &mut Case) -> R {
    use parquet2::compression::CompressionOptions as O;
    let combos: Vec<(Ph, EncK)> = PHS.iter().flat_map(|p| encodings_for(*p).iter().map(move |e| (*p, *e))).collect();
    let i = c.idx as usize;
    let (ph, e) = combos[i % combos.len()];
    let codecs = [O::Uncompressed, O::Snappy, O::Gzip(None), O::Brotli(None), O::Zstd(None), O::Lz4Raw];
    let codec = codecs[(i / combos.len()) % 6];
    let rng = &mut c.rng;
    let v2 = rng.bool();
    let rep = *rng.pick(&[parquet2::schema::Repetition::Required, parquet2::schema::Repetition::Optional, parquet2::schema::Repetition::Repeated]);
    let t = rand_primitive(rng, "x".into(), rep, ph, false);
    let fields = vec![t];
    let lv = leaves(&fields);
    let leaf = &lv[0];
    let np = rng.range(1, 3);
    let via = if rng.bool() { Via::Lib } else { Via::Ref };
    let datas: Vec<PageData> = (0..np)
        .map(|_| {
            let p = rand_prof(rng);
            let r = rng.size(700);
            gen_page(rng, leaf.max_rep, leaf.max_def, ph, r, p)
        })
        .collect();
    let dict = e.is_dict().then(|| dictionarize(&datas.iter().flat_map(|d| d.vals.clone()).collect::<Vec<_>>()).0);
    let write_stats = rng.bool();
    let pages = datas
        .into_iter()
        .map(|data| {
            let stats = write_stats.then(|| page_stats(leaf, &data));
            let built = data_page(rng, leaf, &data, e, dict.as_deref().unwrap_or(&[]), v2, via, stats.clone());
            PageSpec { data, enc: e, v2, stats, built }
        })
        .collect();
    let spec = FileSpec {
        name: "s".into(),
        fields,
        leaves: lv.clone(),
        groups: vec![vec![ColSpec { codec, dict, pages }]],
        write_stats,
        v2,
        created_by: None,
        kv: None,
    };
    note(c, &spec);
    c.sample(|| spec.describe());
    let mode = c.rng.below(2);
    let b = write_sync(&spec, mode)?;
    check_read(&spec, &b, c, &[Mode::Decompressor, Mode::Basic, Mode::One])?;
    Ok(())
}
fn scaled(c: &mut Case) -> R {
    let spec = spec_of(c, &Shape::default());
    note(c, &spec);
    let mode = c.rng.below(2);
    let b = write_sync(&spec, mode)?;
    let m = *c.rng.pick(&[Mode::Decompressor, Mode::Basic, Mode::One]);
    check_read(&spec, &b, c, &[m])?;
    Ok(())
}
fn run(c: &mut Case, sh: Shape) -> R {
    let spec = spec_of(c, &sh);
    note(c, &spec);
    c.sample(|| spec.describe());
    let mode = c.rng.below(2);
    let b = write_sync(&spec, mode)?;
    check_read(&spec, &b, c, &[Mode::Decompressor, Mode::Basic, Mode::One])?;
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "random schemas, levels, values, page splits, encodings, codecs and page versions are written with FileWriter and read back through get_page_iterator with each decompressor; distinct = hash of (schema, codec, levels, values, encoding, version) of the file",
        assumptions: &["the reference encoders of the harness follow the Parquet specification"],
        families: vec![
            Family { name: "roundtrip", quick: 40000, thorough: 900000, f: roundtrip },
            Family { name: "matrix", quick: 18000, thorough: 400000, f: matrix },
            Family { name: "flat-large", quick: 2500, thorough: 60000, f: flat_large },
            Family { name: "deep", quick: 3000, thorough: 70000, f: deep },
            Family { name: "wide", quick: 1000, thorough: 25000, f: wide },
            Family { name: "scaled", quick: 80, thorough: 3000, f: scaled },
        ],
    }
}

// ---------------------------------------------------------------- C03
fn layout_with(c: &mut Case, sh: Shape) -> R {
    let spec = spec_of(c, &sh);
    note(c, &spec);
    c.sample(|| spec.describe());
    let mode = c.rng.below(2);
    let b = write_sync(&spec, mode)?;
    check_layout(&spec, &b, c)
}
fn layout(c: &mut Case) -> R {
    layout_with(c, Shape::default())
}
fn layout_wide(c: &mut Case) -> R {
    layout_with(
        c,
        Shape {
            max_leaves: 60,
            max_groups: 6,
            max_pages: 3,
            max_rows: 8,
            ..Default::default()
        },
    )
}
fn layout_large(c: &mut Case) -> R {
    layout_with(
        c,
        Shape {
            max_leaves: 2,
            depth: 0,
            max_pages: 6,
            max_rows: 5000,
            flat: true,
            ..Default::default()
        },
    )
}
pub fn prop_layout() -> Prop {
    Prop {
        id: "C03",
        rule: "files written by FileWriter from random specifications are parsed by an independent Thrift/Parquet reader that checks every offset, size, count, encoding list, index and byte of the file; distinct = hash of the file specification",
        assumptions: &["gzip, brotli and zstd payloads are decoded with the flate2, brotli and zstd crates"],
        families: vec![
            Family { name: "layout", quick: 40000, thorough: 900000, f: layout },
            Family { name: "layout-wide", quick: 2000, thorough: 40000, f: layout_wide },
            Family { name: "layout-large", quick: 2000, thorough: 40000, f: layout_large },
            Family { name: "layout-scaled", quick: 80, thorough: 3000, f: layout },
        ],
    }
}
