//! P01 paths, Q01 queries, F01 formats.

use pica_record::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::matchers::records;
use crate::ensure;
use crate::expr::{self, Lay, Opts};
use crate::fmtm::{self, Fmt};
use crate::pathq::{self, PathM, QFrag, QOpts, QueryM};
use crate::rec;
use crate::rec::{B, Rec};
use crate::runner::{Env, Fail, Property, Res, sub};

fn rejected(what: &str, t: &str, e: impl std::fmt::Display) -> Fail {
    Fail::Violation(format!("{what} rejected: {t:?} ({e})"))
}

fn serde_text<T: Serialize>(x: &T) -> String {
    match serde_json::to_value(x) {
        Ok(serde_json::Value::String(s)) => s,
        v => format!("not a string: {v:?}"),
    }
}

// ------------------------------------------------------------------------ P01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PathCase {
    p: PathM,
    lay: Vec<u8>,
    opts: Opts,
    recs: Vec<Rec>,
}

fn enlarged(recs: &mut [Rec], k: rec::Large, mix: u32) {
    for r in recs {
        rec::enlarge(r, k, mix as usize);
    }
}

fn path_large() -> BoxedStrategy<PathCase> {
    (path_case(), rec::large(), any::<u32>())
        .prop_map(|(mut c, k, mix)| {
            enlarged(&mut c.recs, k, mix);
            c
        })
        .boxed()
}

/// The rows of several fragments, and of several subfields, multiply.
fn query_large() -> BoxedStrategy<QueryCase> {
    (query_case(), rec::large(), any::<u32>())
        .prop_map(|(mut c, k, mix)| {
            enlarged(&mut c.recs, k, mix);
            c.q.0.truncate(1);
            for f in c.recs.iter_mut().flat_map(|r| r.0.iter_mut()) {
                f.subs.truncate(if k == rec::Large::Subfields && !c.opts.squash {
                    18
                } else {
                    700
                });
            }
            c
        })
        .boxed()
}

fn fmt_large() -> BoxedStrategy<FmtCase> {
    (fmt_case(), rec::large(), any::<u32>())
        .prop_map(|(mut c, k, mix)| {
            enlarged(&mut c.recs, k, mix);
            c
        })
        .boxed()
}

fn path_case() -> BoxedStrategy<PathCase> {
    (pathq::path(), expr::layout(), expr::opts(), records())
        .prop_map(|(p, lay, opts, recs)| PathCase { p, lay, opts, recs })
        .boxed()
}

fn lib_path(r: &ByteRecord, p: &Path, o: &MatcherOptions) -> Vec<B> {
    r.path(p, o).map(|v| B(v.to_vec())).collect()
}

fn paths(c: &PathCase, env: &mut Env) -> Res {
    let text = c.p.text(&mut Lay::new(&c.lay));
    let path = Path::new(&text).map_err(|e| rejected("path", &text, e))?;
    let back = path.to_string();
    let again = Path::new(&back).map_err(|e| rejected("text form", &back, e))?;
    let js = serde_text(&path);
    let json: Path = serde_json::from_value(js.clone().into())
        .map_err(|e| rejected("serialised path", &js, e))?;
    let o = c.opts.lib();
    let mut nt = false;
    env.label_if(c.p.filter.is_some(), "with-filter");
    env.label_if(c.p.groups.len() > 1, "many-codes");
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let want = c.p.eval(r, &c.opts);
        nt |= !want.is_empty();
        env.label_if(want.len() > 1, "many-values");
        for (p, what) in
            [(&path, "path"), (&again, "re-parsed path"), (&json, "deserialised path")]
        {
            let got = lib_path(&lr, p, &o);
            ensure!(
                got == want,
                "{what} {text:?} ({:?}) on {:?}: {got:?}, expected {want:?}",
                c.opts,
                B(bytes.clone())
            );
        }
        let first = lr.first(&path, &o).map(|v| B(v.to_vec()));
        ensure!(
            first.as_ref() == want.first(),
            "first of {text:?} on {:?}: {first:?}, expected {:?}",
            B(bytes.clone()),
            want.first()
        );
        let ppn = lr.ppn().map(|v| B(v.to_vec()));
        ensure!(
            ppn.as_ref() == r.ppn(),
            "ppn of {:?}: {ppn:?}, expected {:?}",
            B(bytes.clone()),
            r.ppn()
        );
        env.label_if(ppn.is_some(), "has-identifier");
        if r.is_utf8() {
            let s = StringRecord::try_from(lr)
                .map_err(|e| Fail::Violation(e.to_string()))?;
            let got: Vec<B> = s.path(&path, &o).map(B::s).collect();
            ensure!(
                got == want,
                "path {text:?} on string record {:?}: {got:?}, expected {want:?}",
                B(bytes.clone())
            );
            let got = s.ppn().map(B::s);
            ensure!(got.as_ref() == r.ppn(), "ppn of string record: {got:?}");
        }
    }
    Ok(nt)
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        rule: "the path selects at least one value",
        assumptions: &[],
        subs: vec![
            sub("values", 250_000, 25_000_000, path_case, paths),
            sub("large", 6_000, 600_000, path_large, paths),
        ],
    }
}

// ------------------------------------------------------------------------ Q01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct QueryCase {
    q: QueryM,
    lay: Vec<u8>,
    opts: QOpts,
    recs: Vec<Rec>,
}

fn query_case() -> BoxedStrategy<QueryCase> {
    (pathq::query(), expr::layout(), pathq::qopts(), records())
        .prop_map(|(q, lay, opts, recs)| QueryCase { q, lay, opts, recs })
        .boxed()
}

pub fn lib_qopts(o: &QOpts) -> QueryOptions {
    QueryOptions::new()
        .case_ignore(o.m.case)
        .strsim_threshold(o.m.thr as f64 / 100.0)
        .squash(o.squash)
        .merge(o.merge)
        .separator(o.sep.clone())
}

fn queries(c: &QueryCase, env: &mut Env) -> Res {
    let text = c.q.text(&mut Lay::new(&c.lay));
    let q = Query::new(&text).map_err(|e| rejected("query", &text, e))?;
    let back = q.to_string();
    let again = Query::new(&back).map_err(|e| rejected("text form", &back, e))?;
    let js = serde_text(&q);
    let json: Query = serde_json::from_value(js.clone().into())
        .map_err(|e| rejected("serialised query", &js, e))?;
    // The warning about separators inside of values goes to stderr; keep the
    // number of rows and the noise small.
    let o = lib_qopts(&c.opts);
    let cols = c.q.columns();
    let mut nt = false;
    for f in &c.q.0 {
        env.label(match f {
            QFrag::Path(_) => "path",
            QFrag::Lit(_) => "constant",
            QFrag::Fmt(_) => "format",
        });
    }
    env.label_if(c.opts.squash, "squash");
    env.label_if(c.opts.merge, "merge");
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let want = c.q.eval(r, &c.opts);
        nt |= want.iter().flatten().any(|v| !v.0.is_empty());
        env.label_if(want.len() > 1, "many-rows");
        for (q, what) in
            [(&q, "query"), (&again, "re-parsed query"), (&json, "deserialised query")]
        {
            let got: Vec<Vec<B>> = lr
                .query(q, &o)
                .into_inner()
                .into_iter()
                .map(|row| row.into_iter().map(|v| B(v.to_vec())).collect())
                .collect();
            ensure!(
                got.iter().all(|row| row.len() == cols),
                "{what} {text:?} on {:?}: a row without {cols} cells: {got:?}",
                B(bytes.clone())
            );
            ensure!(
                got == want,
                "{what} {text:?} ({:?}) on {:?}: {got:?}, expected {want:?}",
                c.opts,
                B(bytes.clone())
            );
        }
        if r.is_utf8() {
            let s = StringRecord::try_from(lr)
                .map_err(|e| Fail::Violation(e.to_string()))?;
            let got: Vec<Vec<B>> = s
                .query(&q, &o)
                .into_inner()
                .into_iter()
                .map(|row| row.iter().map(|v| B::s(v)).collect())
                .collect();
            ensure!(
                got == want,
                "query {text:?} ({:?}) on string record {:?}: {got:?}, expected {want:?}",
                c.opts,
                B(bytes.clone())
            );
        }
    }
    Ok(nt)
}

pub fn q01() -> Property {
    Property {
        id: "Q01",
        rule: "some cell of the result is not empty",
        assumptions: &[],
        subs: vec![
            sub("rows", 120_000, 12_000_000, query_case, queries),
            sub("large", 3_000, 300_000, query_large, queries),
        ],
    }
}

// ------------------------------------------------------------------------ F01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FmtCase {
    f: Fmt,
    lay: Vec<u8>,
    opts: Opts,
    strip: bool,
    recs: Vec<Rec>,
}

fn fmt_case() -> BoxedStrategy<FmtCase> {
    (
        fmtm::fmt(true),
        expr::layout(),
        expr::opts(),
        any::<bool>(),
        records(),
    )
        .prop_map(|(f, lay, opts, strip, recs)| FmtCase {
            f,
            lay,
            opts,
            strip,
            recs,
        })
        .boxed()
}

fn formats(c: &FmtCase, env: &mut Env) -> Res {
    let text = c.f.text(&mut Lay::new(&c.lay));
    let f = Format::new(&text).map_err(|e| rejected("format", &text, e))?;
    let back = f.to_string();
    let again = Format::new(&back).map_err(|e| rejected("text form", &back, e))?;
    let js = serde_text(&f);
    let json: Format = serde_json::from_value(js.clone().into())
        .map_err(|e| rejected("serialised format", &js, e))?;
    let o = FormatOptions::new()
        .strip_overread_char(c.strip)
        .case_ignore(c.opts.case)
        .strsim_threshold(c.opts.thr as f64 / 100.0);
    let mut nt = false;
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let want = c.f.eval(r, &c.opts, c.strip);
        nt |= !want.is_empty();
        env.label_if(want.len() > 1, "many-values");
        for (f, what) in
            [(&f, "format"), (&again, "re-parsed format"), (&json, "deserialised format")]
        {
            let got: Vec<B> =
                lr.format(f, &o).map(|v| B(v.to_vec())).collect();
            ensure!(
                got == want,
                "{what} {text:?} (strip: {}, {:?}) on {:?}: {got:?}, expected {want:?}",
                c.strip,
                c.opts,
                B(bytes.clone())
            );
        }
        if r.is_utf8() {
            let s = StringRecord::try_from(lr)
                .map_err(|e| Fail::Violation(e.to_string()))?;
            let got: Vec<B> = s.format(&f, &o).map(|v: String| B::s(&v)).collect();
            ensure!(
                got == want,
                "format {text:?} on string record {:?}: {got:?}, expected {want:?}",
                B(bytes.clone())
            );
        }
    }
    Ok(nt)
}

pub fn f01() -> Property {
    Property {
        id: "F01",
        rule: "the format renders at least one field to a non-empty text",
        assumptions: &[
            "repetition bounds of groups have no documented effect and are not generated",
        ],
        subs: vec![
            sub("render", 250_000, 25_000_000, fmt_case, formats),
            sub("large", 6_000, 600_000, fmt_large, formats),
        ],
    }
}
