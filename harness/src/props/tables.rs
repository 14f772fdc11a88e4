//! C09–C11, C14: commands that produce tables.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use unicode_normalization::UnicodeNormalization;

use crate::cli::{
    Cli, Common, Input, Out, Preds, args, common, input, preds, preds_text, same, input_of,
    skip_for, thin, volume, long,
};
use crate::expr::Lay;
use crate::pathq::{self, QFrag, QOpts, QueryM};
use crate::rec::{self, B, Fld, Rec};
use crate::runner::{Env, Fail, Property, Res, sub};

const ASSUME: &[&str] = &[
    "the reference models of records, expressions and queries (harness/src/rec.rs, expr.rs, pathq.rs)",
    "unicode-normalization implements the four normal forms",
];

// ------------------------------------------------------------------- csv model

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Quote {
    Necessary,
    Always,
    Never,
    NonNumeric,
}

/// One line of a CSV file.
pub fn csv_row(cells: &[Vec<u8>], sep: u8, q: Quote) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in cells.iter().enumerate() {
        if i > 0 {
            out.push(sep);
        }
        let need = match q {
            Quote::Always => true,
            Quote::Never => false,
            Quote::Necessary => {
                c.iter().any(|b| *b == sep || b"\"\r\n".contains(b))
            }
            Quote::NonNumeric => match std::str::from_utf8(c) {
                Ok(s) => s.parse::<f64>().is_err() && s.parse::<i128>().is_err(),
                Err(_) => true,
            },
        };
        if need || (cells.len() == 1 && c.is_empty()) {
            out.push(b'"');
            for b in c {
                if *b == b'"' {
                    out.push(b'"');
                }
                out.push(*b);
            }
            out.push(b'"');
        } else {
            out.extend_from_slice(c);
        }
    }
    out.push(b'\n');
    out
}

pub fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).to_string()
}

/// The four normal forms.
pub fn nf(form: Option<u8>, s: &str) -> String {
    match form {
        None => s.to_string(),
        Some(0) => s.nfc().collect(),
        Some(1) => s.nfkc().collect(),
        Some(2) => s.nfd().collect(),
        Some(_) => s.nfkd().collect(),
    }
}

pub fn nf_name(form: u8) -> &'static str {
    ["nfc", "nfkc", "nfd", "nfkd"][form as usize % 4]
}

fn with_old(cli: &Cli, append: bool, name: &str) -> Result<Vec<u8>, Fail> {
    cli.write(name, "old\n")?;
    Ok(if append { b"old\n".to_vec() } else { vec![] })
}

// ------------------------------------------------------------------------ C09

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum CountForm {
    Plain,
    Records,
    Fields,
    Subfields,
    Csv,
    Tsv,
    CsvBare,
    TsvBare,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CountCase {
    input: Input,
    common: Common,
    form: CountForm,
    out: bool,
    append: bool,
    salt: usize,
}

fn count_case() -> BoxedStrategy<CountCase> {
    use CountForm::*;
    (
        input(false, true, 12),
        common(),
        select(&[Plain, Records, Fields, Subfields, Csv, Tsv, CsvBare, TsvBare][..]),
        any::<bool>(),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(input, common, form, out, append, salt)| CountCase {
            common: common.sharp(&input),
            input,
            // a header in the middle of a file is not specified
            append: append && !matches!(form, Csv | Tsv) && out,
            form,
            out,
            salt: salt as usize,
        })
        .boxed()
}

fn counting(c: &CountCase, env: &mut Env) -> Res {
    use CountForm::*;
    let cli = Cli::new(env)?;
    let mut a = args(&["count"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(match (c.form, c.salt % 2) {
        (Plain, _) => vec![],
        (Records, 0) => args(&["-r"]),
        (Records, _) => args(&["--records"]),
        (Fields, _) => args(&["--fields"]),
        (Subfields, _) => args(&["--subfields"]),
        (Csv, _) => args(&["--csv"]),
        (Tsv, _) => args(&["--tsv"]),
        (CsvBare, _) => args(&["--csv", "--no-header"]),
        (TsvBare, _) => args(&["--no-header", "--tsv"]),
    });
    let mut want = vec![];
    if c.out {
        a.extend(args(&["-o", "count.txt"]));
        if c.append {
            a.push("--append".into());
        }
        want = with_old(&cli, c.append, "count.txt")?;
    }
    a.extend(c.common.args(&cli)?);
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let recs = c.common.select(&c.input.recs());
    let n = recs.len();
    let f: usize = recs.iter().map(|r| r.0.len()).sum();
    let s: usize = recs.iter().flat_map(|r| &r.0).map(|f| f.subs.len()).sum();
    let text = match c.form {
        Plain => format!("records: {n}\nfields: {f}\nsubfields: {s}\n"),
        Records => format!("{n}\n"),
        Fields => format!("{f}\n"),
        Subfields => format!("{s}\n"),
        Csv => format!("records,fields,subfields\n{n},{f},{s}\n"),
        Tsv => format!("records\tfields\tsubfields\n{n}\t{f}\t{s}\n"),
        CsvBare => format!("{n},{f},{s}\n"),
        TsvBare => format!("{n}\t{f}\t{s}\n"),
    };
    want.extend(text.into_bytes());
    let o = cli.run(&a, stdin.as_deref())?;
    let out = o.good()?;
    if c.out {
        same("stdout", out, b"", &o)?;
        same("output file", &cli.read("count.txt")?, &want, &o)?;
    } else {
        same("stdout", out, &want, &o)?;
    }
    env.label(&format!("{:?}", c.form));
    Ok(n > 0 && s > n)
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum DescForm {
    CsvName,
    TsvName,
    CsvFlag,
    TsvFlag,
    Table,
    Ipc,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DescCase {
    input: Input,
    common: Common,
    keep: Option<Preds>,
    discard: Option<Preds>,
    form: DescForm,
    salt: usize,
}

fn desc_case() -> BoxedStrategy<DescCase> {
    use DescForm::*;
    (
        input(false, true, 10),
        common(),
        option::weighted(0.3, preds()),
        option::weighted(0.3, preds()),
        select(&[CsvName, CsvName, TsvName, CsvFlag, TsvFlag, Table, Ipc][..]),
        any::<u8>(),
    )
        .prop_map(|(input, common, keep, discard, form, salt)| DescCase {
            common: common.sharp(&input),
            input,
            keep,
            discard,
            form,
            salt: salt as usize,
        })
        .boxed()
}

fn describing(c: &DescCase, env: &mut Env) -> Res {
    use DescForm::*;
    let cli = Cli::new(env)?;
    let mut a = args(&["describe"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    if let Some(k) = &c.keep {
        a.push(if c.salt % 2 == 0 { "-k" } else { "--keep" }.into());
        a.push(preds_text(k));
    }
    if let Some(k) = &c.discard {
        a.push(if c.salt % 2 == 0 { "-d" } else { "--discard" }.into());
        a.push(preds_text(k));
    }
    let (name, flag) = match c.form {
        CsvName => (Some("t.csv"), None),
        TsvName => (Some("t.tsv"), None),
        CsvFlag => (Some("t.out"), Some(if c.salt % 2 == 0 { "-c" } else { "--csv" })),
        TsvFlag => (Some("t.out"), Some(if c.salt % 2 == 0 { "-t" } else { "--tsv" })),
        Table => (None, None),
        Ipc => (Some("t.ipc"), None),
    };
    if let Some(n) = name {
        cli.write(n, "old content that has to go\n".repeat(50))?;
        a.extend(args(&["-o", n]));
    }
    a.extend(flag.map(String::from));
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);

    // tag -> code -> number of subfields
    let mut t: BTreeMap<String, BTreeMap<char, u64>> = BTreeMap::new();
    let mut codes: BTreeSet<char> = BTreeSet::new();
    for r in c.common.select(&c.input.recs()) {
        for f in &thin(&r, &c.discard, &c.keep).0 {
            let row = t.entry(f.tag.clone()).or_default();
            for (code, _) in &f.subs {
                codes.insert(*code);
                *row.entry(*code).or_default() += 1;
            }
        }
    }
    let mut rows: Vec<Vec<String>> = vec![
        std::iter::once("field".to_string())
            .chain(codes.iter().map(|c| c.to_string()))
            .collect(),
    ];
    for (tag, m) in &t {
        rows.push(
            std::iter::once(tag.clone())
                .chain(
                    codes
                        .iter()
                        .map(|c| m.get(c).copied().unwrap_or(0).to_string()),
                )
                .collect(),
        );
    }
    let o = cli.run(&a, stdin.as_deref())?;
    let out = o.good()?;
    let text = |sep: &str| -> Vec<u8> {
        rows.iter().map(|r| r.join(sep) + "\n").collect::<String>().into_bytes()
    };
    match c.form {
        CsvName | CsvFlag => {
            same("table", &cli.read(name.unwrap())?, &text(","), &o)?
        }
        TsvName | TsvFlag => {
            same("table", &cli.read(name.unwrap())?, &text("\t"), &o)?
        }
        Table => {
            // Wide and long tables are abridged.
            if codes.len() <= 8 && t.len() <= 40 && !t.is_empty() {
                let got: Vec<Vec<String>> = lossy(out)
                    .lines()
                    .filter(|l| l.starts_with('│'))
                    .map(|l| {
                        l.trim_matches('│')
                            .split('┆')
                            .map(|c| c.trim().to_string())
                            .collect()
                    })
                    .collect();
                if got != rows {
                    return Err(o.violation(format!(
                        "printed table differs, expected {rows:?}"
                    )));
                }
            }
        }
        Ipc => {
            // Observed through the tool itself: the distinct values of every
            // column, and the columns.
            let probe = |col: &str, vals: &[String]| -> Result<Option<Vec<String>>, Fail> {
                let data: String =
                    vals.iter().map(|v| format!("003@ \x1f0{v}\x1e\n")).collect();
                let o = cli.run(
                    &["filter", "-A", "t.ipc", "--filter-set-column", col, "003@?"],
                    Some(data.as_bytes()),
                )?;
                if o.code == Some(2) && o.err.contains("Missing column") {
                    return Ok(None);
                }
                let s = lossy(o.good()?);
                Ok(Some(
                    s.lines()
                        .map(|l| {
                            l.trim_start_matches("003@ \x1f0")
                                .trim_end_matches('\x1e')
                                .to_string()
                        })
                        .collect(),
                ))
            };
            let mut tags: Vec<String> = t.keys().cloned().collect();
            tags.extend(["999Z".to_string(), "000A".to_string()]);
            let want: Vec<String> =
                tags.iter().filter(|x| t.contains_key(*x)).cloned().collect();
            let got = probe("field", &tags)?;
            if got.as_ref() != Some(&want) {
                return Err(o.violation(format!(
                    "column `field` has {got:?}, expected {want:?}"
                )));
            }
            let mut all: Vec<char> = codes.iter().take(3).copied().collect();
            all.extend(['q', 'Q'].into_iter().filter(|c| !codes.contains(c)).take(1));
            for code in all {
                let max = t
                    .values()
                    .map(|m| m.get(&code).copied().unwrap_or(0))
                    .max()
                    .unwrap_or(0);
                let vals: Vec<String> =
                    (0..=max + 1).map(|n| n.to_string()).collect();
                let got = probe(&code.to_string(), &vals)?;
                let have: BTreeSet<u64> = t
                    .values()
                    .map(|m| m.get(&code).copied().unwrap_or(0))
                    .collect();
                let want: Option<Vec<String>> = codes.contains(&code).then(|| {
                    have.iter().map(|n| n.to_string()).collect::<Vec<_>>()
                });
                if got != want {
                    return Err(o.violation(format!(
                        "column `{code}` has values {got:?}, expected {want:?}"
                    )));
                }
            }
        }
    }
    env.label(&format!("{:?}", c.form));
    env.label_if(t.is_empty(), "empty-table");
    Ok(t.len() > 1 && codes.len() > 1)
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "count: accepted records with more subfields than records; describe: \
               at least two rows and two codes",
        assumptions: ASSUME,
        subs: vec![
            sub("count", 6_000, 100_000, count_case, counting),
            sub("describe", 6_000, 100_000, desc_case, describing),
            sub("count-volume", 120, 4_000, count_volume, counting),
            sub("describe-volume", 120, 4_000, desc_volume, describing),
        ],
    }
}

fn count_volume() -> BoxedStrategy<CountCase> {
    (count_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

fn desc_volume() -> BoxedStrategy<DescCase> {
    (desc_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C10

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Join {
    No,
    Squash,
    Merge,
}

fn join() -> BoxedStrategy<Join> {
    select(&[Join::No, Join::No, Join::Squash, Join::Merge][..]).boxed()
}

fn join_args(j: Join, sep: &Option<String>) -> Vec<String> {
    let mut a = match j {
        Join::No => vec![],
        Join::Squash => args(&["--squash"]),
        Join::Merge => args(&["--merge"]),
    };
    if let Some(s) = sep {
        a.push(format!("--separator={s}"));
    }
    a
}

fn qopts(c: &Common, j: Join, sep: &Option<String>) -> QOpts {
    QOpts {
        m: c.opts(),
        squash: j == Join::Squash,
        merge: j == Join::Merge,
        sep: sep.clone().unwrap_or("|".into()),
    }
}

fn separator() -> BoxedStrategy<Option<String>> {
    option::weighted(
        0.6,
        select(&["|", ";", "", "--", ", ", "ä", "\t", "\""][..])
            .prop_map(|s| s.to_string()),
    )
    .boxed()
}

/// Queries that mostly give rows with values on dense records.
fn telling_query() -> BoxedStrategy<QueryM> {
    let dense = (
        select(&["012A", "012A", "012A", "012B", "013A", "003@"][..]),
        vec(select(&['a', 'a', 'b', 'c', '0', 'x'][..]), 1..3),
        any::<bool>(),
    )
        .prop_map(|(t, codes, any)| {
            QFrag::Path(pathq::PathM {
                tag: crate::expr::TagPat::exact(t),
                occ: if any {
                    crate::expr::OccPat::Any
                } else {
                    crate::expr::OccPat::None
                },
                groups: codes.into_iter().map(crate::expr::Codes::One).collect(),
                filter: None,
                curly: true,
                parens: false,
            })
        });
    prop_oneof![
        4 => vec(dense, 1..3).prop_map(QueryM),
        1 => pathq::query(),
    ]
    .boxed()
}

/// Inputs of many similar records: few tags, codes and values.
fn similar(utf8: bool, bad: bool, max: usize) -> BoxedStrategy<Input> {
    let value = prop_oneof![
        6 => select(&["a", "b", "a", "B", "1", "10"][..]).prop_map(B::s),
        3 => select(&["1.5", "-2", "x y", "a,b", "say \"x\"", "a\tb", "\r", "",
            "ä", "a\u{308}", "\u{fb01}", "inf", "1e3", "0x1", ";"][..])
            .prop_map(B::s),
        1 => if utf8 { rec::value_utf8() } else { rec::value_bytes() },
    ];
    let field = (
        select(&["012A", "012A", "012A", "012B", "013A"][..]),
        select(&[None, None, Some("01")][..]),
        vec((select(&['a', 'a', 'b', 'c', 'x'][..]), value), 0..4),
    )
        .prop_map(|(t, o, subs)| Fld {
            tag: t.into(),
            occ: o.map(String::from),
            subs,
        });
    let record = (rec::ppn(), vec(field, 1..5)).prop_map(|(p, mut f)| {
        f.insert(
            0,
            Fld { tag: "003@".into(), occ: None, subs: vec![('0', p)] },
        );
        Rec(f)
    });
    input_of(record.boxed(), bad, max)
}

fn table_input(max: usize) -> BoxedStrategy<Input> {
    (any::<bool>(), any::<bool>(), 0..4)
        .prop_flat_map(move |(utf8, bad, k)| {
            if k == 0 {
                input(utf8, bad, max)
            } else {
                similar(utf8, bad, max)
            }
        })
        .boxed()
}

fn light() -> BoxedStrategy<Common> {
    prop_oneof![3 => Just(Common::none()), 2 => common()].boxed()
}

/// A header, usually of the right number of columns.
fn header(cols: usize, names: &[String], off: i8) -> Option<(String, Vec<Vec<u8>>)> {
    let n = (cols as i64 + off as i64).max(1) as usize;
    let v: Vec<String> =
        (0..n).map(|i| names[i % names.len()].clone()).collect();
    let text = v.join(",");
    let cells: Vec<Vec<u8>> =
        text.split(',').map(|s| s.trim().as_bytes().to_vec()).collect();
    if cells.len() == 1 && cells[0].is_empty() {
        return None;
    }
    Some((text, cells))
}

fn names() -> BoxedStrategy<Option<Vec<String>>> {
    option::weighted(
        0.4,
        vec(
            select(&["a", "b", " ppn", "x y", "", "ä", "\"q\"", "count ", "x-"][..])
                .prop_map(|s| s.to_string()),
            1..5,
        ),
    )
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreqCase {
    input: Input,
    common: Common,
    query: QueryM,
    lay: Vec<u8>,
    join: Join,
    sep: Option<String>,
    unique: bool,
    reverse: bool,
    num: usize,
    thr: u64,
    names: Option<Vec<String>>,
    off: i8,
    tsv: bool,
    nf: Option<u8>,
    out: bool,
    salt: usize,
}

fn freq_case() -> BoxedStrategy<FreqCase> {
    (
        table_input(18),
        light(),
        telling_query(),
        crate::expr::layout(),
        (join(), separator()),
        any::<(bool, bool, bool, bool)>(),
        prop_oneof![2 => Just(0usize), 1 => 1usize..5],
        prop_oneof![2 => Just(0u64), 1 => 1u64..4],
        (names(), prop_oneof![10 => Just(0i8), 1 => Just(1), 1 => Just(-1)]),
        option::weighted(0.3, 0u8..4),
        any::<u8>(),
    )
        .prop_map(
            |(
                input,
                common,
                query,
                lay,
                (join, sep),
                (unique, reverse, tsv, out),
                num,
                thr,
                (names, off),
                nf,
                salt,
            )| {
                let query = common.sharp_query(&input, query);
                FreqCase {
                    common: common.sharp(&input),
                    input,
                    query,
                    lay,
                    join,
                    sep,
                    unique,
                    reverse,
                    num,
                    thr,
                    names,
                    off,
                    tsv,
                    nf,
                    out,
                    salt: salt as usize,
                }
            },
        )
        .boxed()
}

/// Compares a table, where a header of the wrong width is an error as soon as
/// a row is written.
fn table_out(
    cli: &Cli,
    o: &Out,
    head: &Option<(String, Vec<Vec<u8>>)>,
    rows: &[Vec<Vec<u8>>],
    old: Vec<u8>,
    file: Option<&str>,
    sep: u8,
    q: Quote,
) -> Result<bool, Fail> {
    if let (Some((_, h)), Some(r)) = (head, rows.first())
        && h.len() != r.len()
    {
        o.fails("header and rows differ in length")?;
        return Ok(false);
    }
    let mut want = old;
    if let Some((_, h)) = head {
        want.extend(csv_row(h, sep, q));
    }
    for r in rows {
        want.extend(csv_row(r, sep, q));
    }
    let out = o.good()?;
    match file {
        Some(f) => {
            same("stdout", out, b"", o)?;
            same("output file", &cli.read(f)?, &want, o)?;
        }
        None => same("stdout", out, &want, o)?,
    }
    Ok(true)
}

fn frequency(c: &FreqCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&[if c.salt % 2 == 0 { "frequency" } else { "freq" }]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    a.extend(join_args(c.join, &c.sep));
    let flag = |b: bool, s: &'static str, l: &'static str| -> Option<String> {
        b.then(|| if c.salt % 2 == 0 { s } else { l }.to_string())
    };
    a.extend(flag(c.unique, "-u", "--unique"));
    a.extend(flag(c.reverse, "-r", "--reverse"));
    a.extend(flag(c.tsv, "-t", "--tsv"));
    if c.num > 0 {
        a.extend(args(&["-n", &c.num.to_string()]));
    }
    if c.thr > 0 {
        a.extend(args(&["--threshold", &c.thr.to_string()]));
    }
    if let Some(n) = c.nf {
        a.extend(args(&["--translit", nf_name(n)]));
    }
    let head = c.names.as_ref().and_then(|n| header(c.query.columns() + 1, n, c.off));
    if let Some((t, _)) = &head {
        a.push(if c.salt % 2 == 0 { "-H" } else { "--header" }.into());
        a.push(t.clone());
    }
    if c.out {
        cli.write("t.csv", "old\n".repeat(300))?;
        a.extend(args(&["-o", "t.csv"]));
    }
    // everything positional behind the options
    a.push("--".into());
    a.push(c.query.text(&mut Lay::new(&c.lay)));
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);

    let q = qopts(&c.common, c.join, &c.sep);
    let mut table: BTreeMap<Vec<Vec<u8>>, u64> = BTreeMap::new();
    let mut dup = false;
    for r in c.common.select(&c.input.recs()) {
        let mut seen = HashSet::new();
        for row in c.query.eval(&r, &q) {
            let row: Vec<Vec<u8>> = row.into_iter().map(|b| b.0).collect();
            if row.iter().all(|x| x.is_empty()) {
                continue;
            }
            if !seen.insert(row.clone()) {
                dup = true;
                if c.unique {
                    continue;
                }
            }
            *table.entry(row).or_default() += 1;
        }
    }
    let total = table.len();
    let mut rows: Vec<(Vec<Vec<u8>>, u64)> = table.into_iter().collect();
    rows.sort_by(|a, b| {
        let n = if c.reverse { a.1.cmp(&b.1) } else { b.1.cmp(&a.1) };
        n.then_with(|| a.0.cmp(&b.0))
    });
    rows.retain(|r| r.1 >= c.thr);
    if c.num > 0 {
        rows.truncate(c.num);
    }
    let some = rows.iter().any(|r| r.1 > 1);
    let cut = rows.len() < total;
    let rows: Vec<Vec<Vec<u8>>> = rows
        .into_iter()
        .map(|(v, n)| {
            v.iter()
                .map(|x| nf(c.nf, &lossy(x)).into_bytes())
                .chain([n.to_string().into_bytes()])
                .collect()
        })
        .collect();
    let o = cli.run(&a, stdin.as_deref())?;
    let file = c.out.then_some("t.csv");
    let sep = if c.tsv { b'\t' } else { b',' };
    let full =
        table_out(&cli, &o, &head, &rows, vec![], file, sep, Quote::Necessary)?;
    env.label_if(!full, "wrong-header");
    env.label_if(dup && c.unique, "unique-matters");
    env.label_if(cut, "threshold-or-limit-matters");
    env.label_if(rows.len() > 1, "several-rows");
    env.label_if(c.reverse && rows.len() > 1, "reverse");
    Ok(rows.len() > 1 && (some || cut))
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "at least two rows, and one of them counts more than one or some were \
               cut off",
        assumptions: ASSUME,
        subs: vec![
            sub("frequency", 12_000, 250_000, freq_case, frequency),
            sub("volume", 120, 4_000, freq_volume, frequency),
            sub("long", 12, 300, freq_long, frequency),
        ],
    }
}

/// Queries that also see the field in which the records differ.
fn volume_query(q: &mut QueryM, salt: usize) {
    q.0.truncate(2);
    if salt % 3 != 0 {
        let p = if salt % 2 == 0 {
            pathq::plain("003@", '0')
        } else {
            pathq::plain("001@", 'a')
        };
        q.0.truncate(1);
        q.0.insert(salt / 7 % 2, QFrag::Path(p));
    }
}

fn one_more(input: &mut Input) {
    input.lines.truncate(3);
    input.lines.push(crate::cli::Line::R(Rec(vec![Fld {
        tag: "012A".into(),
        occ: None,
        subs: vec![('a', B::s("1"))],
    }])));
}

/// Very many different rows, some of which return.
fn freq_long() -> BoxedStrategy<FreqCase> {
    (freq_case(), input(false, false, 4), long())
        .prop_map(|(mut c, input, v)| {
            c.input = Input { form: c.input.form, ..input };
            one_more(&mut c.input);
            v.blow(&mut c.input);
            c.query.0.truncate(v.number(1) % 2);
            c.query.0.insert(0, QFrag::Path(pathq::plain("003@", '0')));
            c.common = Common::none();
            c.num = 0;
            c
        })
        .boxed()
}

fn freq_volume() -> BoxedStrategy<FreqCase> {
    (freq_case(), volume(75_000, false))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            volume_query(&mut c.query, c.salt);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            if c.num > 0 {
                c.num = v.number(1);
            }
            if c.thr > 1 {
                c.thr = v.number(2) as u64;
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SelCase {
    input: Input,
    common: Common,
    query: QueryM,
    lay: Vec<u8>,
    join: Join,
    sep: Option<String>,
    unique: bool,
    no_empty: bool,
    names: Option<Vec<String>>,
    off: i8,
    tsv: bool,
    quote: Option<Quote>,
    nf: Option<u8>,
    out: bool,
    append: bool,
    salt: usize,
}

fn sel_case() -> BoxedStrategy<SelCase> {
    use Quote::*;
    (
        table_input(14),
        light(),
        telling_query(),
        crate::expr::layout(),
        (join(), separator()),
        any::<(bool, bool, bool, bool)>(),
        (names(), prop_oneof![10 => Just(0i8), 1 => Just(1), 1 => Just(-1)]),
        option::weighted(
            0.5,
            select(&[Necessary, Always, Never, NonNumeric][..]),
        ),
        option::weighted(0.25, 0u8..4),
        prop::bool::weighted(0.2),
        any::<u8>(),
    )
        .prop_map(
            |(
                input,
                common,
                query,
                lay,
                (join, sep),
                (unique, no_empty, tsv, out),
                (names, off),
                quote,
                nf,
                append,
                salt,
            )| {
                let query = common.sharp_query(&input, query);
                SelCase {
                    common: common.sharp(&input),
                    input,
                    query,
                    lay,
                    join,
                    sep,
                    unique,
                    no_empty,
                    names,
                    off,
                    tsv,
                    quote,
                    nf,
                    out,
                    append: append && out,
                    salt: salt as usize,
                }
            },
        )
        .boxed()
}

fn selecting(c: &SelCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["select"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    a.extend(join_args(c.join, &c.sep));
    let flag = |b: bool, s: &'static str, l: &'static str| -> Option<String> {
        b.then(|| if c.salt % 2 == 0 { s } else { l }.to_string())
    };
    a.extend(flag(c.unique, "-u", "--unique"));
    a.extend(flag(c.no_empty, "--no-empty-columns", "--no-empty-columns"));
    a.extend(flag(c.tsv, "-t", "--tsv"));
    if let Some(q) = c.quote {
        a.push("--quote-style".into());
        a.push(
            match q {
                Quote::Necessary => "necessary",
                Quote::Always => "always",
                Quote::Never => "never",
                Quote::NonNumeric => "non-numeric",
            }
            .into(),
        );
    }
    if let Some(n) = c.nf {
        a.extend(args(&["--translit", nf_name(n)]));
    }
    let head = c.names.as_ref().and_then(|n| header(c.query.columns(), n, c.off));
    if let Some((t, _)) = &head {
        a.push(if c.salt % 2 == 0 { "-H" } else { "--header" }.into());
        a.push(t.clone());
    }
    let mut old = vec![];
    if c.out {
        old = with_old(&cli, c.append, "t.csv")?;
        a.extend(args(&["-o", "t.csv"]));
        if c.append {
            a.push("--append".into());
        }
    }
    a.push("--".into());
    a.push(c.query.text(&mut Lay::new(&c.lay)));
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);

    let q = qopts(&c.common, c.join, &c.sep);
    let mut seen: HashSet<Vec<B>> = HashSet::new();
    let mut rows = vec![];
    let (mut dup, mut empty, mut per) = (false, false, 0);
    for r in c.common.select(&c.input.recs()) {
        let t = c.query.eval(&r, &q);
        per = per.max(t.len());
        for row in t {
            if row.iter().any(|x| x.0.is_empty()) {
                empty = true;
                if c.no_empty {
                    continue;
                }
            }
            if !seen.insert(row.clone()) {
                dup = true;
                if c.unique {
                    continue;
                }
            }
            if row.iter().all(|x| x.0.is_empty()) {
                continue;
            }
            rows.push(
                row.iter()
                    .map(|x| match c.nf {
                        None => x.0.clone(),
                        n => nf(n, &lossy(&x.0)).into_bytes(),
                    })
                    .collect::<Vec<_>>(),
            );
        }
    }
    let o = cli.run(&a, stdin.as_deref())?;
    let file = c.out.then_some("t.csv");
    let sep = if c.tsv { b'\t' } else { b',' };
    let quote = c.quote.unwrap_or(Quote::Necessary);
    let full = table_out(&cli, &o, &head, &rows, old, file, sep, quote)?;
    env.label_if(!full, "wrong-header");
    env.label_if(dup && c.unique, "unique-matters");
    env.label_if(empty && c.no_empty, "no-empty-matters");
    env.label_if(per > 1, "several-rows-per-record");
    env.label_if(c.nf.is_some(), "translit");
    Ok(rows.len() > 1)
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "the table has at least two rows",
        assumptions: ASSUME,
        subs: vec![
            sub("select", 12_000, 250_000, sel_case, selecting),
            sub("volume", 120, 4_000, sel_volume, selecting),
            sub("long", 12, 300, sel_long, selecting),
        ],
    }
}

fn sel_long() -> BoxedStrategy<SelCase> {
    (sel_case(), input(false, false, 4), long())
        .prop_map(|(mut c, input, v)| {
            c.input = Input { form: c.input.form, ..input };
            one_more(&mut c.input);
            v.blow(&mut c.input);
            c.query.0.truncate(v.number(1) % 2);
            c.query.0.insert(0, QFrag::Path(pathq::plain("003@", '0')));
            c.common = Common::none();
            c.unique = true;
            c
        })
        .boxed()
}

fn sel_volume() -> BoxedStrategy<SelCase> {
    (sel_case(), volume(75_000, false))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            volume_query(&mut c.query, c.salt);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C14

fn hash_volume() -> BoxedStrategy<HashCase> {
    (hash_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashCase {
    input: Input,
    common: Common,
    names: Option<Vec<String>>,
    off: i8,
    tsv: bool,
    out: bool,
    salt: usize,
}

fn hash_case() -> BoxedStrategy<HashCase> {
    (
        input(false, true, 12),
        common(),
        names(),
        prop_oneof![10 => Just(0i8), 1 => Just(1), 1 => Just(-1)],
        any::<bool>(),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(input, common, names, off, tsv, out, salt)| HashCase {
            common: common.sharp(&input),
            input,
            names,
            off,
            tsv,
            out,
            salt: salt as usize,
        })
        .boxed()
}

pub fn first_ppn(r: &Rec) -> Option<Vec<u8>> {
    r.0.iter()
        .filter(|f| f.tag == "003@")
        .filter(|f| f.occ.is_none() || f.occ.as_deref() == Some("00"))
        .flat_map(|f| f.subs.iter())
        .find(|(c, _)| *c == '0')
        .map(|(_, v)| v.0.clone())
}

fn hashing(c: &HashCase, env: &mut Env) -> Res {
    use sha2::Digest;
    let cli = Cli::new(env)?;
    let mut a = args(&["hash"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    if c.tsv {
        a.push(if c.salt % 2 == 0 { "-t" } else { "--tsv" }.into());
    }
    let named = c.names.as_ref().and_then(|n| header(2, n, c.off));
    if let Some((t, _)) = &named {
        a.push(if c.salt % 2 == 0 { "-H" } else { "--header" }.into());
        a.push(t.clone());
    }
    let head = named
        .or(Some(("".into(), vec![b"ppn".to_vec(), b"hash".to_vec()])));
    if c.out {
        cli.write("t.csv", "old\n".repeat(300))?;
        a.extend(args(&["-o", "t.csv"]));
    }
    a.push("--".into());
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let recs = c.common.select(&c.input.recs());
    let rows: Vec<Vec<Vec<u8>>> = recs
        .iter()
        .map(|r| {
            let h = sha2::Sha256::digest(r.bytes());
            let hex: String = h.iter().map(|b| format!("{b:02x}")).collect();
            vec![
                lossy(&first_ppn(r).unwrap_or_default()).into_bytes(),
                hex.into_bytes(),
            ]
        })
        .collect();
    let o = cli.run(&a, stdin.as_deref())?;
    let sep = if c.tsv { b'\t' } else { b',' };
    let file = c.out.then_some("t.csv");
    let full =
        table_out(&cli, &o, &head, &rows, vec![], file, sep, Quote::Necessary)?;
    env.label_if(!full, "wrong-header");
    env.label_if(recs.iter().any(|r| first_ppn(r).is_none()), "without-ppn");
    Ok(rows.len() > 1)
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "at least two records are hashed",
        assumptions: &[
            "the sha2 crate implements SHA-256",
            "the reference models of records and expressions",
        ],
        subs: vec![
            sub("hash", 8_000, 150_000, hash_case, hashing),
            sub("volume", 120, 4_000, hash_volume, hashing),
        ],
    }
}
