//! C01–C08, C15: commands that read records and write records.

use std::collections::HashSet;
use std::collections::BTreeMap;

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use bstr::ByteSlice;

use crate::cli::{
    Cli, Common, Input, Preds, Sink, args, combined, common, input, input_of,
    cond, preds, preds_text, same, skip_for, sum, thin, volume, long,
};
use crate::ensure;
use crate::expr::{self, FldEx, Lay, plain};
use crate::pathq::{self, PathM};
use crate::rec::{self, B, Fld, Rec};
use crate::runner::{Env, Fail, Property, Res, sub};

const ASSUME: &[&str] = &[
    "the reference models of records and expressions (harness/src/rec.rs, expr.rs, pathq.rs)",
    "flate2 writes and reads gzip correctly",
];

// ------------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FilterCase {
    input: Input,
    common: Common,
    cond: FldEx,
    lay: Vec<u8>,
    invert: bool,
    discard: Option<Preds>,
    keep: Option<Preds>,
    sink: Sink,
    file: bool,
    salt: usize,
}

fn filter_case() -> BoxedStrategy<FilterCase> {
    use Sink::*;
    (
        input(false, true, 10),
        common(),
        cond(),
        expr::layout(),
        any::<bool>(),
        option::weighted(0.3, preds()),
        option::weighted(0.3, preds()),
        select(
            &[
                Stdout, Stdout, Stdout, File, GzFlag, GzName, RawGzName, GzStdout, Append,
                AppendGz, Tee, TeeAppend, TeeAppendGz, TeeGzFlag,
            ][..],
        ),
        prop::bool::weighted(0.3),
        any::<u8>(),
    )
        .prop_map(
            |(input, mut common, mut cond, lay, invert, discard, keep, sink, file, salt)| {
                if common.mix % 3 == 1 {
                    // the condition as well
                    common.cond = Some(cond);
                    common = common.sharp(&input);
                    cond = common.cond.take().expect("a condition");
                }
                FilterCase {
                    common: common.sharp(&input),
                    input,
                    cond,
                    lay,
                    invert,
                    discard,
                    keep,
                    sink,
                    file,
                    salt: salt as usize,
                }
            },
        )
        .boxed()
}

fn filtering(c: &FilterCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["filter"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.flags(&cli)?);
    if c.invert {
        a.push(if c.salt % 8 < 4 { "-v" } else { "--invert-match" }.into());
    }
    if let Some(p) = &c.discard {
        a.push(if c.salt % 8 < 4 { "-d" } else { "--discard" }.into());
        a.push(preds_text(p));
    }
    if let Some(p) = &c.keep {
        a.push(if c.salt % 8 < 4 { "-k" } else { "--keep" }.into());
        a.push(preds_text(p));
    }
    a.extend(c.sink.args(&cli)?);
    let text = c.cond.text(&mut Lay::new(&c.lay));
    if c.file {
        cli.write("expr.txt", &text)?;
        a.extend(args(&["-F", "expr.txt"]));
    } else {
        a.push(text);
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;

    let opts = c.common.opts();
    let limit = if c.common.limit == 0 { usize::MAX } else { c.common.limit };
    let recs = c.input.recs();
    let hits: Vec<Rec> = recs
        .iter()
        .filter(|r| {
            c.common.sets.accepts(r)
                && combined(
                    &c.cond,
                    &c.common.and,
                    &c.common.or,
                    &c.common.not,
                    r,
                    &opts,
                ) != c.invert
        })
        .take(limit)
        .cloned()
        .collect();
    let want: Vec<Rec> = hits
        .iter()
        .map(|r| thin(r, &c.discard, &c.keep))
        .filter(|r| !r.0.is_empty())
        .collect();
    c.sink.check(&cli, &o, &sum(&want))?;

    env.label_if(hits.len() < recs.len() && !hits.is_empty(), "some-but-not-all");
    env.label_if(c.common.sets.active(), "allow/deny-lists");
    env.label_if(c.file, "expression-file");
    env.label_if(!c.input.all_valid(), "with-invalid-lines");
    env.label_if(limit < recs.len(), "limit-below-input");
    env.label_if(sum(&want) != sum(&hits), "fields-removed");
    Ok(!recs.is_empty() && !want.is_empty())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "at least one record is expected in the output",
        assumptions: ASSUME,
        subs: vec![
            sub("filter", 8_000, 150_000, filter_case, filtering),
            sub("selections", 3_000, 60_000, list_case, selections),
            sub("volume", 120, 4_000, filter_volume, filtering),
        ],
    }
}

/// The text of a list of fields, in any layout and sometimes malformed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ListCase {
    preds: Preds,
    /// Replaces the text of one of them.
    odd: Option<String>,
    seps: Vec<String>,
    cmd: u8,
    keep: bool,
    recs: Vec<Rec>,
}

fn list_case() -> BoxedStrategy<ListCase> {
    let item = (pathq::hit_tag(), expr::occ_pat())
        .prop_map(|(t, o)| format!("{}{}", t.text(), o.text()))
        .boxed();
    let odd = crate::mutate::text(item, super::matchers::PAT_TOKENS, 2);
    let sep = select(&[",", ", ", " ,", " , ", ",,", ", ,\t", ",\n"][..]);
    let end = select(&["", "", " ", ",", " , ", "\n"][..]);
    (
        prop_oneof![9 => preds(), 1 => Just(vec![])],
        option::weighted(0.3, odd),
        (end.clone(), vec(sep, 3), end),
        0u8..4,
        any::<bool>(),
        vec(rec::rec(false), 1..4),
    )
        .prop_map(|(preds, odd, (a, mut seps, z), cmd, keep, recs)| {
            seps.insert(0, a);
            seps.insert(1, z);
            let seps = seps.into_iter().map(String::from).collect();
            ListCase { preds, odd, seps, cmd, keep, recs }
        })
        .boxed()
}

/// The fields kept or discarded are those of the list, or it is refused.
fn selections(c: &ListCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut items: Vec<String> = c
        .preds
        .iter()
        .map(|(t, o)| format!("{}{}", t.text(), o.text()))
        .collect();
    let mut good = true;
    if let (Some(odd), false) = (&c.odd, items.is_empty()) {
        let n = c.seps[0].len() % items.len();
        items[n] = odd.clone();
        good = odd.split(',').map(str::trim).filter(|s| !s.is_empty()).all(|s| {
            let (t, o) = s.split_at(s.rfind('/').unwrap_or(s.len()));
            super::matchers::tag_pat_ok(t) && super::matchers::occ_pat_ok(o)
        });
    }
    let mut text = c.seps[0].clone();
    for (i, item) in items.iter().enumerate() {
        if i > 0 {
            text.push_str(&c.seps[1 + i % (c.seps.len() - 1)]);
        }
        text.push_str(item);
    }
    text.push_str(&c.seps[1]);
    if text.contains('\0') {
        return Err(Fail::Skip);
    }
    let bytes: Vec<u8> = c.recs.iter().flat_map(|r| r.bytes()).collect();
    cli.write("in.dat", &bytes)?;
    let flag = format!("{}={text}", if c.keep { "--keep" } else { "--discard" });
    let mut a = args(match c.cmd {
        0 | 1 => &["filter", "-o", "out"],
        2 => &["explode", "-o", "out"],
        _ => &["describe", "--csv", "-o", "out"],
    });
    a.push(flag);
    a.extend(args(match c.cmd {
        0 | 1 => &["..../*?", "in.dat"],
        2 => &["main", "in.dat"],
        _ => &["in.dat"],
    }));
    let o = cli.run(&a, None)?;
    env.label(["filter", "filter", "explode", "describe"][c.cmd as usize]);
    if !good {
        env.label("malformed");
        o.fails("the list of fields is malformed")?;
        return Ok(true);
    }
    o.good()?;
    if c.odd.is_some() && !items.is_empty() {
        env.label("odd-but-wellformed");
        return Ok(true);
    }
    let (k, d) = match (c.preds.is_empty(), c.keep) {
        (true, _) => (None, None),
        (_, true) => (Some(c.preds.clone()), None),
        (_, false) => (None, Some(c.preds.clone())),
    };
    let all = c.recs.clone();
    let want: Vec<Rec> = all
        .iter()
        .filter(|r| c.cmd == 2 || !r.0.is_empty())
        .map(|r| thin(r, &d, &k))
        .filter(|r| !r.0.is_empty())
        .collect();
    let got = crate::cli::io(std::fs::read(cli.path("out")))?;
    let changed = want != all;
    env.label_if(changed, "fields-removed");
    if c.cmd == 3 {
        let mut tags: Vec<String> = want
            .iter()
            .flat_map(|r| r.0.iter().map(|f| f.tag.clone()))
            .collect();
        tags.sort();
        tags.dedup();
        let got: Vec<String> = String::from_utf8_lossy(&got)
            .lines()
            .skip(1)
            .map(|l| l.split(',').next().unwrap_or("").to_string())
            .collect();
        if got != tags {
            return Err(o.violation(format!(
                "described tags {got:?}, fields left {tags:?} ({text:?})"
            )));
        }
        return Ok(changed);
    }
    crate::cli::same("records", &got, &sum(&want), &o)?;
    Ok(changed)
}

fn filter_volume() -> BoxedStrategy<FilterCase> {
    (filter_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Count(u8),
    Describe,
    ExplodeMain,
    Frequency(String),
    Hash,
    Partition(String),
    Print,
    Sample(u32, u64),
    Select(String),
    Slice(usize, usize),
    Split(u32),
}

impl Cmd {
    fn name(&self) -> &'static str {
        match self {
            Cmd::Count(_) => "count",
            Cmd::Describe => "describe",
            Cmd::ExplodeMain => "explode",
            Cmd::Frequency(_) => "frequency",
            Cmd::Hash => "hash",
            Cmd::Partition(_) => "partition",
            Cmd::Print => "print",
            Cmd::Sample(..) => "sample",
            Cmd::Select(_) => "select",
            Cmd::Slice(..) => "slice",
            Cmd::Split(_) => "split",
        }
    }
    /// Options and positional arguments before the file names.
    fn args(&self) -> (Vec<String>, Vec<String>) {
        let s = |x: &dyn std::fmt::Display| x.to_string();
        match self {
            Cmd::Count(n) => (
                args(
                    [&["--csv"][..], &["--tsv", "--no-header"], &[], &["--records"]]
                        [*n as usize % 4],
                ),
                vec![],
            ),
            Cmd::Describe => (args(&["-o", "x/table.csv"]), vec![]),
            Cmd::ExplodeMain => (vec![], args(&["main"])),
            Cmd::Frequency(q) => (vec![], vec![q.clone()]),
            Cmd::Hash => (vec![], vec![]),
            Cmd::Partition(p) => (args(&["-o", "x"]), vec![p.clone()]),
            Cmd::Print => (vec![], vec![]),
            Cmd::Sample(n, seed) => {
                (vec!["--seed".into(), s(seed)], vec![s(n)])
            }
            Cmd::Select(q) => (vec![], vec![q.clone()]),
            Cmd::Slice(a, b) => (
                vec!["--start".into(), s(a), "--end".into(), s(b)],
                vec![],
            ),
            Cmd::Split(n) => (args(&["--outdir", "x"]), vec![s(n)]),
        }
    }
}

const SAFE_QUERIES: &[&str] = &[
    "003@.0", "012A.a", "012A{a, b}", "003@.0, 012A/*.a", "012A/*{ a | a? }",
    "012A/01.b, 003@{0}", "....{a}", "012A{ (a, b) | c == 'abc' }, 'x'",
    "012A/*{ a | b =? 'Baum' }", "012A{a | a == 'ABC'}", "012A{ a | b =* 'baum' }",
];

fn cmd() -> BoxedStrategy<Cmd> {
    let q = || select(SAFE_QUERIES).prop_map(|s| s.to_string());
    prop_oneof![
        1 => (0u8..4).prop_map(Cmd::Count),
        1 => Just(Cmd::Describe),
        1 => Just(Cmd::ExplodeMain),
        1 => q().prop_map(Cmd::Frequency),
        1 => Just(Cmd::Hash),
        1 => select(&["012A.x", "012A/*.x", "013A/*{x | a?}", "....{x}"][..])
            .prop_map(|s| Cmd::Partition(s.to_string())),
        1 => Just(Cmd::Print),
        1 => (1u32..5, any::<u64>()).prop_map(|(n, s)| Cmd::Sample(n, s)),
        1 => q().prop_map(Cmd::Select),
        1 => (0usize..4, 0usize..6).prop_map(|(a, b)| Cmd::Slice(a, b)),
        1 => (1u32..4).prop_map(Cmd::Split),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CommonCase {
    input: Input,
    common: Common,
    cmd: Cmd,
    salt: usize,
}

/// Values that can be file names.
pub fn name_safe(s: &str) -> bool {
    !s.contains(['/', '\0']) && s.len() < 200
}

/// Makes the values of subfield `x` usable as file names.
fn safe_x(mut r: Rec) -> Rec {
    for f in &mut r.0 {
        for (c, v) in &mut f.subs {
            if *c == 'x' {
                let t = v.lossy();
                if !v.is_utf8() || !name_safe(&t) {
                    *v = B::s("v");
                }
            }
        }
    }
    r
}

fn common_case() -> BoxedStrategy<CommonCase> {
    (
        input_of(rec::rec_ppn(true).prop_map(safe_x).boxed(), true, 12),
        common(),
        cmd(),
        any::<u8>(),
    )
        .prop_map(|(input, common, cmd, salt)| CommonCase {
            common: common.sharp(&input),
            input,
            cmd,
            salt: salt as usize,
        })
        .boxed()
}

/// All files below a directory.
fn tree(dir: &std::path::Path) -> BTreeMap<B, Vec<u8>> {
    use std::os::unix::ffi::OsStringExt;
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            let n = e.file_name().into_vec();
            if p.is_dir() {
                for (k, v) in tree(&p) {
                    m.insert(B([&n[..], b"/", &k.0].concat()), v);
                }
            } else if let Ok(b) = std::fs::read(&p) {
                m.insert(B(n), b);
            }
        }
    }
    m
}

fn common_options(c: &CommonCase, env: &mut Env) -> Res {
    let lines = c.input.lines();
    // Records whose partition or path values are not file names would make
    // every variant fail (raw lines may decode to such records).
    let safe = lines.iter().all(|(_, r)| {
        r.as_ref().is_none_or(|r| {
            r.is_utf8() && (!matches!(c.cmd, Cmd::Partition(_)) || {
                safe_x(r.clone()) == *r
            })
        })
    });
    if !safe {
        return Ok(false);
    }
    if matches!(c.cmd, Cmd::Slice(..)) && !c.input.all_valid() {
        return Ok(false);
    }
    let cli = Cli::new(env)?;
    let (o1, pos) = c.cmd.args();
    let mk = |dir: &str| {
        std::fs::create_dir_all(cli.path(dir))
            .map_err(|e| Fail::Harness(e.to_string()))
    };

    // The command with all options on the whole input.
    mk("x")?;
    let mut a = vec![c.cmd.name().to_string()];
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(o1.clone());
    a.extend(c.common.args(&cli)?);
    a.extend(pos.clone());
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let all = cli.run(&a, stdin.as_deref())?;
    all.good()?;
    let all_tree = tree(&cli.path("x"));
    std::fs::remove_dir_all(cli.path("x"))
        .map_err(|e| Fail::Harness(e.to_string()))?;

    // The command on the records that the options select.
    mk("x")?;
    let recs = c.input.recs();
    let chosen = c.common.select(&recs);
    let mut b = vec![c.cmd.name().to_string()];
    b.extend(o1);
    if matches!(c.cmd, Cmd::Slice(..)) {
        // Its limit applies to the records of the slice.
        let mut n = c.common.clone();
        n.limit = 0;
        cli.write("chosen.dat", sum(&n.select(&recs)))?;
        b.extend(["--limit".to_string(), c.common.limit.to_string()]);
    } else {
        cli.write("chosen.dat", sum(&chosen))?;
    }
    if c.common.case {
        b.push("-i".into());
    }
    if let Some(t) = c.common.thr {
        b.extend(["--strsim-threshold".to_string(), t.to_string()]);
    }
    b.extend(pos);
    b.push("chosen.dat".into());
    let part = cli.run(&b, None)?;
    part.good()?;
    same(
        &format!("{} with options, against the selected records", c.cmd.name()),
        &all.out,
        &part.out,
        &all,
    )?;
    let part_tree = tree(&cli.path("x"));
    ensure!(
        all_tree == part_tree,
        "{}: files differ: {:?} against {:?}\n$ pica {}",
        c.cmd.name(),
        all_tree.into_iter().map(|(k, v)| (k, B(v))).collect::<Vec<_>>(),
        part_tree.into_iter().map(|(k, v)| (k, B(v))).collect::<Vec<_>>(),
        all.cmd
    );

    // `filter` with the same options gives the selected records.
    if c.salt % 3 == 0
        && let Some(cond) = &c.common.cond
    {
        let mut f = args(&["filter", "-s"]);
        f.extend(c.common.flags(&cli)?);
        f.push(plain(cond));
        cli.write("all.dat", c.input.data())?;
        f.push("all.dat".into());
        let o = cli.run(&f, None)?;
        same("filter", o.good()?, &sum(&chosen), &o)?;
    }
    env.label(c.cmd.name());
    env.label_if(c.common.sets.active(), "allow/deny-lists");
    env.label_if(c.common.limit > 0 && c.common.limit < recs.len(), "limit");
    let part = !chosen.is_empty() && chosen.len() < recs.len();
    env.label_if(part, "proper-selection");
    Ok(part)
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "the options select some but not all records",
        assumptions: ASSUME,
        subs: vec![
            sub("commands", 6_000, 120_000, common_case, common_options),
            sub("arrow-lists", 400, 8_000, arrow_case, arrow_lists),
        ],
    }
}

/// Lists in Arrow form, which `describe` writes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArrowCase {
    /// Fields that are described, by number of the tag, with their codes.
    fields: Vec<(usize, Vec<char>)>,
    /// Values of the records.
    values: Vec<Vec<usize>>,
    column: usize,
    deny: bool,
    /// Whether the list is joined by one in text form with this value.
    other: Option<usize>,
    ext: usize,
    source: bool,
}

const LISTED: &[&str] =
    &["012A", "012B", "013A", "145Z", "201@", "203@", "001A", "1", "2", "3", "0", "012"];

fn arrow_case() -> BoxedStrategy<ArrowCase> {
    (
        vec((0usize..7, vec(select(&['a', 'b', 'X', '9'][..]), 0..5)), 1..9),
        vec(vec(0..LISTED.len(), 0..4), 1..9),
        0usize..5,
        any::<bool>(),
        option::weighted(0.3, 0..LISTED.len()),
        0usize..4,
        any::<bool>(),
    )
        .prop_map(|(fields, values, column, deny, other, ext, source)| ArrowCase {
            fields,
            values,
            column,
            deny,
            other,
            ext,
            source,
        })
        .boxed()
}

fn arrow_lists(c: &ArrowCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let list = ["l.ipc", "l.arrow", "a b.c.arrow", "d.csv.ipc"][c.ext % 4];
    let mut described = Rec(vec![]);
    let mut codes: BTreeMap<char, BTreeMap<&str, usize>> = BTreeMap::new();
    let mut tags: HashSet<&str> = HashSet::new();
    for (t, cs) in &c.fields {
        let tag = LISTED[t % 7];
        tags.insert(tag);
        described.0.push(Fld {
            tag: tag.to_string(),
            occ: None,
            subs: cs.iter().map(|x| (*x, B::s("v"))).collect(),
        });
        for x in cs {
            *codes.entry(*x).or_default().entry(tag).or_default() += 1;
        }
    }
    let columns: Vec<&char> = codes.keys().collect();
    let (column, listed): (String, HashSet<String>) =
        if c.column < 3 || columns.is_empty() {
            ("field".into(), tags.iter().map(|t| t.to_string()).collect())
        } else {
            let x = columns[c.column % columns.len()];
            let count = |t: &&str| codes[x].get(t).copied().unwrap_or(0);
            (x.to_string(), tags.iter().map(|t| count(t).to_string()).collect())
        };
    let o = cli.run(&["describe", "-o", "l.tmp"], Some(&sum(&[described])))?;
    if o.code != Some(0) {
        return Err(Fail::Skip);
    }
    cli.write(list, cli.read("l.tmp")?)?;

    let rec = |v: &Vec<usize>| {
        let value = |i: &usize| ('0', B::s(LISTED[i % LISTED.len()]));
        Rec(vec![
            Fld {
                tag: "003@".into(),
                occ: None,
                subs: if c.source { vec![] } else { v.iter().map(value).collect() },
            },
            Fld {
                tag: "033A".into(),
                occ: None,
                subs: if c.source { v.iter().map(value).collect() } else { vec![] },
            },
        ])
    };
    let input: Vec<Rec> = c.values.iter().map(rec).collect();
    let mut listed = listed;
    let mut a = vec![if c.deny { "-D" } else { "-A" }.to_string(), list.to_string()];
    a.extend(["--filter-set-column".to_string(), column.clone()]);
    if let Some(i) = c.other {
        let v = LISTED[i];
        cli.write("other.csv", format!("{column}\n{v}\n"))?;
        a.extend([if c.deny { "-D" } else { "-A" }.to_string(), "other.csv".into()]);
        listed.insert(v.to_string());
    }
    if c.source {
        a.extend(args(&["--filter-set-source", "033A.0"]));
    }
    let pass = |v: &Vec<usize>| {
        v.iter().any(|i| listed.contains(LISTED[i % LISTED.len()])) != c.deny
    };
    let want: Vec<Rec> =
        c.values.iter().zip(&input).filter(|(v, _)| pass(v)).map(|(_, r)| r.clone()).collect();
    let data = sum(&input);
    let mut f = args(&["filter"]);
    f.extend(a.clone());
    f.push("003@?".into());
    let o = cli.run(&f, Some(&data))?;
    same("records", o.good()?, &sum(&want), &o)?;
    let mut f = args(&["count", "--records"]);
    f.extend(a);
    let o = cli.run(&f, Some(&data))?;
    same("number", o.good()?, format!("{}\n", want.len()).as_bytes(), &o)?;
    env.label(list);
    env.label_if(column != "field", "numbers");
    Ok(!want.is_empty() && want.len() < input.len())
}

// ------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConcatCase {
    input: Input,
    /// 0: no, 1: default strategy, 2: idn, 3: hash
    unique: u8,
    sink: Sink,
    salt: usize,
}

fn concat_case() -> BoxedStrategy<ConcatCase> {
    use Sink::*;
    (
        input(false, true, 10),
        select(&[0u8, 1, 2, 3, 3][..]),
        select(
            &[
                Stdout, Stdout, File, GzName, RawGzName, Append, AppendGz, Tee, TeeAppend,
                TeeOut, TeeAppendGz, TeeAppendOut,
            ][..],
        ),
        any::<u8>(),
    )
        .prop_map(|(input, unique, sink, salt)| ConcatCase {
            input,
            unique,
            sink,
            salt: salt as usize,
        })
        .boxed()
}

fn concat(c: &ConcatCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&[if c.salt % 8 < 4 { "concat" } else { "cat" }]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    match c.unique {
        0 => {}
        1 => a.push(if c.salt % 8 < 4 { "-u" } else { "--unique" }.into()),
        n => a.extend(args(&[
            "--unique",
            "--unique-strategy",
            if n == 2 { "idn" } else { "hash" },
        ])),
    }
    a.extend(c.sink.args(&cli)?);
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let recs = c.input.recs();
    let mut without_id = false;
    let want: Vec<Rec> = recs
        .iter()
        .filter(|r| {
            let key = match c.unique {
                0 => return true,
                3 => r.bytes(),
                _ => r.ppn().map(|p| p.0.clone()).unwrap_or_default(),
            };
            if key.is_empty() {
                without_id = true;
                return false;
            }
            seen.insert(key)
        })
        .cloned()
        .collect();
    c.sink.check(&cli, &o, &sum(&want))?;
    env.label_if(want.len() < recs.len(), "duplicates-removed");
    env.label_if(without_id, "record-without-identifier");
    env.label_if(!c.input.all_valid(), "with-invalid-lines");
    Ok(recs.len() > 1)
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "the input has at least two records",
        assumptions: ASSUME,
        subs: vec![
            sub("concat", 8_000, 150_000, concat_case, concat),
            sub("volume", 120, 4_000, concat_volume, concat),
            sub("long", 16, 400, concat_long, concat),
        ],
    }
}

/// So many different identifiers that none may be forgotten.
fn concat_long() -> BoxedStrategy<ConcatCase> {
    (concat_case(), input(false, false, 4), long())
        .prop_map(|(mut c, input, v)| {
            c.input = Input { form: c.input.form, ..input };
            c.input.lines.push(crate::cli::Line::R(Rec(vec![Fld {
                tag: "012A".into(),
                occ: None,
                subs: vec![('a', B::s("1"))],
            }])));
            c.unique = c.unique.max(1);
            v.blow(&mut c.input);
            c
        })
        .boxed()
}

fn concat_volume() -> BoxedStrategy<ConcatCase> {
    (concat_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SliceCase {
    input: Input,
    common: Common,
    start: Option<usize>,
    end: Option<usize>,
    length: Option<usize>,
    sink: Sink,
    salt: usize,
}

fn slice_case() -> BoxedStrategy<SliceCase> {
    use Sink::*;
    let n = || prop_oneof![10 => 0usize..8, 1 => Just(usize::MAX)];
    (
        input(false, true, 9),
        option::of(n()),
        prop_oneof![
            2 => Just((None, None)),
            3 => (prop_oneof![10 => 1usize..9, 1 => Just(usize::MAX)])
                .prop_map(|e| (Some(e), None)),
            3 => (prop_oneof![10 => 1usize..6, 1 => Just(usize::MAX)])
                .prop_map(|l| (None, Some(l))),
        ],
        select(&[
            Stdout, Stdout, File, GzFlag, GzName, RawGzName, GzStdout, Append, AppendGz,
        ][..]),
        any::<u8>(),
        prop_oneof![2 => Just(Common::none()), 1 => common()],
    )
        .prop_map(|(input, start, (end, length), sink, salt, common)| SliceCase {
            common: common.sharp(&input),
            input,
            start,
            end,
            length,
            sink,
            salt: salt as usize,
        })
        .boxed()
}

fn slice(c: &SliceCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["slice"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    for (n, v) in
        [("--start", c.start), ("--end", c.end), ("--length", c.length)]
    {
        if let Some(v) = v {
            a.extend([n.to_string(), v.to_string()]);
        }
    }
    a.extend(c.common.args(&cli)?);
    a.extend(c.sink.args(&cli)?);
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let lines = c.input.lines();
    let limit = if c.common.limit == 0 { usize::MAX } else { c.common.limit };
    let want: Vec<Rec> = lines
        .iter()
        .map(|(_, r)| r)
        .filter(|r| r.as_ref().is_none_or(|r| c.common.accepts(r)))
        .enumerate()
        .filter(|(i, _)| {
            *i >= c.start.unwrap_or(0) && c.end.is_none_or(|e| *i < e)
        })
        .filter_map(|(_, r)| r.clone())
        .take(c.length.unwrap_or(usize::MAX).min(limit))
        .collect();
    c.sink.check(&cli, &o, &sum(&want))?;
    env.label_if(c.common.cond.is_some(), "condition");
    env.label_if(
        c.common.cond.is_some() && !c.input.all_valid(),
        "condition-and-invalid-lines",
    );
    env.label_if(c.common.limit > 0, "limit");
    env.label_if(!c.input.all_valid(), "with-invalid-lines");
    env.label_if(c.length.is_some(), "length");
    Ok(!want.is_empty() && want.len() < lines.len())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "the slice has some but not all lines of the input",
        assumptions: ASSUME,
        subs: vec![
            sub("slice", 8_000, 150_000, slice_case, slice),
            sub("volume", 120, 4_000, slice_volume, slice),
        ],
    }
}

fn slice_volume() -> BoxedStrategy<SliceCase> {
    (slice_case(), volume(75_000, false), 0u8..4)
        .prop_map(|(mut c, v, k)| {
            v.blow(&mut c.input);
            c.start = (k != 0).then(|| v.number(0));
            c.end = c.end.filter(|_| k < 3).map(|_| v.number(1));
            c.length = c.length.filter(|_| c.end.is_none()).map(|_| v.number(2));
            if v.bare() {
                c.common = Common::none();
            } else if c.common.limit > 0 {
                c.common.limit = v.number(3);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SplitCase {
    input: Input,
    size: u32,
    common: Common,
    template: Option<String>,
    gzip: bool,
    outdir: u8,
    salt: usize,
}

fn template() -> BoxedStrategy<Option<String>> {
    option::weighted(
        0.5,
        select(
            &["{}.dat", "CHUNK_{}.dat", "a{}b.dat.gz", "{}-{}.pp", "{}", "x {}.gz"]
                [..],
        )
        .prop_map(|s| s.to_string()),
    )
    .boxed()
}

fn split_case() -> BoxedStrategy<SplitCase> {
    (
        input(false, true, 14),
        prop_oneof![
            20 => 1u32..6,
            2 => select(&[16u32, 100, 255, 256, 1000, 65_536][..]),
            1 => Just(u32::MAX)
        ],
        prop_oneof![3 => Just(Common::none()), 1 => common()],
        template(),
        any::<bool>(),
        0u8..4,
        any::<u8>(),
    )
        .prop_map(|(input, size, common, template, gzip, outdir, salt)| SplitCase {
            common: common.sharp(&input),
            input,
            size,
            template,
            gzip,
            outdir,
            salt: salt as usize,
        })
        .boxed()
}

/// Hundreds of chunks.
fn split_many() -> BoxedStrategy<SplitCase> {
    (split_case(), 200u32..700, 1u32..4)
        .prop_map(|(mut c, n, size)| {
            c.input.rep = n / c.input.lines.len().max(1) as u32;
            c.size = size;
            c.common = Common::none();
            c
        })
        .boxed()
}

/// More than 65536 records in chunks of thousands.
fn split_long() -> BoxedStrategy<SplitCase> {
    (split_case(), input(false, false, 3), 65_600u32..140_000, 700u32..50_000)
        .prop_map(|(mut c, input, n, size)| {
            c.input = Input { form: c.input.form, ..input };
            c.input.lines.push(crate::cli::Line::R(Rec(vec![Fld {
                tag: "003@".into(),
                occ: None,
                subs: vec![('0', B::s("1"))],
            }])));
            c.input.rep = n / c.input.lines.len() as u32;
            c.size = size;
            c.common = Common::none();
            c
        })
        .boxed()
}

/// Many records, in few or thousands of chunks.
fn split_volume() -> BoxedStrategy<SplitCase> {
    (split_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            c.size = v.number(0).max(v.number(1) % 40) as u32;
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(2);
            }
            c
        })
        .boxed()
}

/// Directory for many output files: absent, nested, existing, current.
fn out_dir(cli: &Cli, n: u8, short: bool) -> Result<(String, Vec<String>), Fail> {
    let d = ["new", "deep/er", "there", "."][n as usize % 4].to_string();
    if n % 4 == 2 {
        std::fs::create_dir_all(cli.path(&d))
            .map_err(|e| Fail::Harness(e.to_string()))?;
    }
    let a = match n % 4 {
        3 => vec![],
        _ if short => vec!["-o".to_string(), d.clone()],
        _ => vec!["--outdir".to_string(), d.clone()],
    };
    Ok((d, a))
}

fn split(c: &SplitCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["split"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    let (dir, d) = out_dir(&cli, c.outdir, c.salt % 8 < 4)?;
    a.extend(d);
    if let Some(t) = &c.template {
        a.extend([
            "--template".to_string(),
            t.clone(),
        ]);
    }
    if c.gzip {
        a.push(if c.salt % 8 < 4 { "-g" } else { "--gzip" }.into());
    }
    a.push(c.size.to_string());
    let (files, stdin) = c.input.deliver_named(&cli, "src/in")?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    same("stdout", o.good()?, b"", &o)?;

    let want = c.common.select(&c.input.recs());
    let t = c.template.clone().unwrap_or(
        if c.gzip { "{}.dat.gz" } else { "{}.dat" }.into(),
    );
    let mut chunks: Vec<&[Rec]> = want.chunks(c.size as usize).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    for (i, ch) in chunks.iter().enumerate() {
        let n = format!("{dir}/{}", t.replace("{}", &i.to_string()));
        let mut b = cli.read(&n)?;
        if c.gzip || t.ends_with(".gz") {
            b = super::gunzip_all(&b)
                .map_err(|e| o.violation(format!("{n} is not gzip: {e}")))?;
        }
        same(&format!("chunk {i}"), &b, &sum(ch), &o)?;
    }
    let next = format!("{dir}/{}", t.replace("{}", &chunks.len().to_string()));
    ensure!(!cli.exists(&next), "additional chunk {next}\n$ pica {}", o.cmd);
    env.label_if(chunks.len() > 1, "several-chunks");
    env.label_if(
        !want.is_empty() && want.len() % c.size as usize == 0,
        "full-last-chunk",
    );
    Ok(chunks.len() > 1)
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "at least two chunks are expected",
        assumptions: ASSUME,
        subs: vec![
            sub("split", 8_000, 150_000, split_case, split),
            sub("volume", 120, 4_000, split_volume, split),
            sub("many-chunks", 80, 2_000, split_many, split),
            sub("long", 16, 400, split_long, split),
        ],
    }
}

// ------------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PartCase {
    input: Input,
    path: PathM,
    common: Common,
    template: Option<String>,
    gzip: bool,
    outdir: u8,
    salt: usize,
}

fn part_case() -> BoxedStrategy<PartCase> {
    (
        prop_oneof![2 => input(true, true, 10), 1 => input(false, true, 10)],
        prop_oneof![
            1 => pathq::path(),
            2 => pathq::path().prop_map(|mut p| {
                p.tag = expr::TagPat::exact("012A");
                p.occ = expr::OccPat::Any;
                p
            }),
        ],
        prop_oneof![3 => Just(Common::none()), 1 => common()],
        template(),
        any::<bool>(),
        0u8..4,
        any::<u8>(),
        option::weighted(0.4, any::<u64>()),
    )
        .prop_map(|(input, mut path, common, template, gzip, outdir, salt, mix)| {
            let mut common = common.sharp(&input);
            if let Some(mix) = mix
                && let Some((t, o, m)) = expr::sharp(&input.small(), mix)
            {
                // a path whose values depend on the options
                path = pathq::only(t, o, pathq::code_of(&m), m);
                if mix % 5 < 3 {
                    common.case = true;
                } else if mix % 5 == 3 {
                    common.thr = Some((mix >> 8) as u8 % 100);
                }
            }
            PartCase {
                common,
                input,
                path,
                template,
                gzip,
                outdir,
                salt: salt as usize,
            }
        })
        .boxed()
}

fn partition(c: &PartCase, env: &mut Env) -> Res {
    let recs = c.common.select(&c.input.recs());
    let t = c.template.clone().unwrap_or(
        if c.gzip { "{}.dat.gz" } else { "{}.dat" }.into(),
    );
    let o = c.common.opts();
    let mut want: BTreeMap<B, Vec<u8>> = BTreeMap::new();
    let mut total = 0;
    for r in &recs {
        let mut vs: Vec<B> = c.path.eval(r, &o);
        vs.sort();
        vs.dedup();
        for v in vs {
            // Only values that can be file names, and do not collide with
            // the directory itself, are in the domain.
            let n = t.as_bytes().replace("{}", &v.0);
            if n.contains(&b'/')
                || n.contains(&0)
                || n.len() >= 200
                || [&b""[..], b".", b".."].contains(&&n[..])
            {
                return Ok(false);
            }
            want.entry(B(n)).or_default().extend(r.bytes());
            total += 1;
        }
    }
    let cli = Cli::new(env)?;
    let mut a = args(&["partition"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    let (dir, d) = out_dir(&cli, c.outdir % 3, c.salt % 8 < 4)?;
    a.extend(d);
    if let Some(t) = &c.template {
        a.extend([
            if c.salt % 8 < 4 { "-t" } else { "--template" }.to_string(),
            t.clone(),
        ]);
    }
    if c.gzip {
        a.push(if c.salt % 8 < 4 { "-g" } else { "--gzip" }.into());
    }
    a.push(c.path.text(&mut Lay::new(&[])));
    let (files, stdin) = c.input.deliver_named(&cli, "src/in")?;
    a.extend(files);
    let out = cli.run(&a, stdin.as_deref())?;
    same("stdout", out.good()?, b"", &out)?;
    let mut got = tree(&cli.path(&dir));
    for (n, b) in got.iter_mut() {
        if c.gzip || n.0.ends_with(b".gz") {
            *b = super::gunzip_all(b)
                .map_err(|e| out.violation(format!("{n:?} is not gzip: {e}")))?;
        }
    }
    // A value that is not UTF-8 has a file of its own, too; how it is named
    // is left to the program.
    let names = |m: &BTreeMap<B, Vec<u8>>| -> Vec<B> {
        m.keys().filter(|k| k.is_utf8()).cloned().collect()
    };
    let raw = want.keys().any(|k| !k.is_utf8());
    let missing = names(&want).into_iter().find(|k| !got.contains_key(k));
    ensure!(
        missing.is_none() && got.len() == want.len() && (raw || names(&got) == names(&want)),
        "files {:?}, expected {:?}\n$ pica {}",
        got.keys(),
        want.keys(),
        out.cmd
    );
    for (n, b) in want.iter().filter(|(n, _)| n.is_utf8()) {
        same(&format!("file {n:?}"), &got[n], b, &out)?;
    }
    let rest = |m: &BTreeMap<B, Vec<u8>>| {
        let mut v: Vec<B> = m
            .iter()
            .filter(|(n, _)| !(n.is_utf8() && want.contains_key(n)))
            .map(|(_, b)| B(b.clone()))
            .collect();
        v.sort();
        v
    };
    let (g, w) = (rest(&got), rest(&want));
    ensure!(
        g == w,
        "files of values that are not UTF-8: {g:?}, expected {w:?}\n$ pica {}",
        out.cmd
    );
    env.label_if(raw, "value-not-utf8");
    env.label_if(total > recs.len(), "records-in-several-files");
    env.label_if(c.common.limit > 0, "limit");
    env.label_if(want.len() > 3, "more-than-three-files");
    Ok(want.len() > 1)
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "at least two files are expected",
        assumptions: &[
            "the reference models of records, expressions and paths",
            "values are usable as file names (no slash, no NUL, short)",
        ],
        subs: vec![
            sub("partition", 10_000, 200_000, part_case, partition),
            sub("volume", 120, 4_000, part_volume, partition),
        ],
    }
}

/// Many records for few values, or some hundred values.
fn part_volume() -> BoxedStrategy<PartCase> {
    (part_case(), volume(75_000, false), any::<bool>())
        .prop_map(|(mut c, v, many)| {
            v.blow(&mut c.input);
            c.input.spread = many;
            if many {
                // the number of files that can be open at a time is limited
                let n = 500 / c.input.lines.len().max(1);
                c.input.rep = c.input.rep.min(n as u32);
                c.path = pathq::plain("003@", '0');
                c.common = Common::none();
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SampleCase {
    input: Input,
    size: u32,
    seed: Option<u64>,
    common: Common,
    sink: Sink,
    salt: usize,
}

fn sample_case() -> BoxedStrategy<SampleCase> {
    use Sink::*;
    (
        input(false, true, 20),
        prop_oneof![20 => 1u32..8, 2 => Just(100), 1 => Just(u32::MAX)],
        option::weighted(0.7, prop_oneof![1 => 0u64..3, 1 => any::<u64>()]),
        prop_oneof![3 => Just(Common::none()), 1 => common()],
        select(&[Stdout, Stdout, File, GzFlag, GzName, GzStdout][..]),
        any::<u8>(),
    )
        .prop_map(|(input, size, seed, common, sink, salt)| SampleCase {
            common: common.sharp(&input),
            input,
            size,
            seed,
            sink,
            salt: salt as usize,
        })
        .boxed()
}

fn sampling(c: &SampleCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let run = |cli: &Cli, input: &Input| -> Result<(Vec<u8>, crate::cli::Out), Fail> {
        let mut a = args(&["sample"]);
        a.extend(skip_for(input, c.salt).args(cli)?);
        a.extend(c.common.args(cli)?);
        if let Some(s) = c.seed {
            a.extend(["--seed".to_string(), s.to_string()]);
        }
        a.extend(c.sink.args(cli)?);
        a.push(c.size.to_string());
        let (files, stdin) = input.deliver(cli)?;
        a.extend(files);
        let o = cli.run(&a, stdin.as_deref())?;
        let stdout = o.good()?;
        let raw = match c.sink {
            Sink::Stdout => stdout.to_vec(),
            Sink::GzStdout => super::gunzip_all(stdout)
                .map_err(|e| o.violation(format!("not gzip: {e}")))?,
            Sink::File => cli.read("out.dat")?,
            Sink::GzFlag => super::gunzip_all(&cli.read("out.dat")?)
                .map_err(|e| o.violation(format!("not gzip: {e}")))?,
            _ => super::gunzip_all(&cli.read("out.dat.gz")?)
                .map_err(|e| o.violation(format!("not gzip: {e}")))?,
        };
        Ok((raw, o))
    };
    let (raw, o) = run(&cli, &c.input)?;
    let accepted = c.common.select(&c.input.recs());
    let mut pool: Vec<Vec<u8>> = accepted.iter().map(|r| r.bytes()).collect();
    let got: Vec<&[u8]> = raw.split_inclusive(|b| *b == b'\n').collect();
    for g in &got {
        match pool.iter().position(|p| p == g) {
            Some(i) => {
                pool.swap_remove(i);
            }
            None => {
                return Err(o.violation(format!(
                    "sampled record is not an accepted record of the input (or \
                     too often): {}",
                    rec::esc(g)
                )));
            }
        }
    }
    let want = accepted.len().min(c.size as usize);
    if got.len() != want {
        return Err(o.violation(format!(
            "sample has {} records, expected {want}",
            got.len()
        )));
    }
    if c.seed.is_some() {
        // Deterministic, and independent of the input form.
        let mut other = c.input.clone();
        other.form = crate::cli::Form::Stdin;
        let (again, o) = run(&cli, &other)?;
        same("second sample with the same seed", &again, &raw, &o)?;
    }
    env.label_if(accepted.len() > c.size as usize, "more-than-size");
    env.label_if(c.seed.is_some(), "seeded");
    Ok(accepted.len() > c.size as usize)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReachCase {
    n: usize,
    size: u32,
    base: u64,
}

fn sample_volume() -> BoxedStrategy<SampleCase> {
    (sample_case(), volume(75_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            c.size = v.number(0).max(2) as u32;
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(2);
            }
            c
        })
        .boxed()
}

/// How often each of `n` records is in the samples of `runs` seeds.
fn hits(c: &ReachCase, n: usize, runs: usize, env: &mut Env) -> Result<Vec<usize>, Fail> {
    let cli = Cli::new(env)?;
    let recs: Vec<Rec> = (0..n)
        .map(|i| {
            Rec(vec![Fld {
                tag: "003@".into(),
                occ: None,
                subs: vec![('0', B::s(&format!("{i}")))],
            }])
        })
        .collect();
    cli.write("in.dat", sum(&recs))?;
    let mut hit = vec![0usize; n];
    for k in 0..runs {
        let seed = c.base.wrapping_add(k as u64).to_string();
        let size = c.size.to_string();
        let o = cli.run(&["sample", "--seed", &seed, &size, "in.dat"], None)?;
        for l in o.good()?.split_inclusive(|b| *b == b'\n') {
            match recs.iter().position(|r| r.bytes() == l) {
                Some(i) => hit[i] += 1,
                None => return Err(o.violation("foreign record in the sample")),
            }
        }
    }
    env.evals += runs as u64;
    Ok(hit)
}

/// Over many seeds, every record is selected.
fn reach(c: &ReachCase, env: &mut Env) -> Res {
    let n = c.n + c.size as usize;
    // With uniform sampling, the chance that a given record is in none of the
    // samples is below (1-size/n)^runs < e^-36; doubled to allow for the skew
    // of the implementation.
    let runs =
        2 * (36.0 / -(1.0 - c.size as f64 / n as f64).ln()).ceil() as usize;
    for (i, h) in hits(c, n, runs, env)?.into_iter().enumerate() {
        if h == 0 && i == 0 && c.size == 1 {
            env.known("C07-size-one-first-record", || {
                format!("record 0 of {n} was in none of {runs} samples of size 1")
            })?;
            continue;
        }
        ensure!(
            h > 0,
            "record {i} of {n} was in none of {runs} samples of size {} (seeds \
             from {})",
            c.size,
            c.base
        );
    }
    Ok(true)
}

/// No record is strongly preferred. The expected number of hits is 120 (about
/// 80 for the first ones because of the skew of the implementation), the
/// bounds are more than six standard deviations away.
fn even(c: &ReachCase, env: &mut Env) -> Res {
    let n = 3 * c.size as usize + c.n;
    let runs = 120 * n / c.size as usize;
    let h = hits(c, n, runs, env)?;
    for (i, k) in h.iter().enumerate() {
        ensure!(
            (25..=240).contains(k),
            "record {i} of {n} was in {k} of {runs} samples of size {} (seeds from \
             {}), expected about 120: {h:?}",
            c.size,
            c.base
        );
    }
    Ok(true)
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "more records are accepted than sampled",
        assumptions: ASSUME,
        subs: vec![
            sub("sample", 5_000, 100_000, sample_case, sampling),
            sub("volume", 120, 4_000, sample_volume, sampling),
            sub(
                "reachable",
                16,
                128,
                || {
                    (1usize..6, 1u32..5, any::<u64>())
                        .prop_map(|(n, size, base)| ReachCase { n, size, base })
                        .boxed()
                },
                reach,
            ),
            sub(
                "even",
                16,
                256,
                || {
                    (0usize..12, 3u32..7, any::<u64>())
                        .prop_map(|(n, size, base)| ReachCase { n, size, base })
                        .boxed()
                },
                even,
            ),
        ],
    }
}

// ------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    local: Vec<Fld>,
    /// Runs of copy fields of one occurrence each.
    copies: Vec<(Option<String>, Vec<Fld>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layered {
    main: Vec<Fld>,
    blocks: Vec<Block>,
}

impl Layered {
    fn rec(&self) -> Rec {
        let mut v = self.main.clone();
        for b in &self.blocks {
            v.extend(b.local.clone());
            for (o, fs) in &b.copies {
                v.extend(fs.iter().map(|f| Fld { occ: o.clone(), ..f.clone() }));
            }
        }
        Rec(v)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExplodeCase {
    recs: Vec<Layered>,
    level: u8,
    common: Common,
    discard: Option<Preds>,
    keep: Option<Preds>,
    sink: Sink,
    form: crate::cli::Form,
    cuts: Vec<u16>,
    salt: usize,
}

fn level_field(tags: &'static [&'static str]) -> BoxedStrategy<Fld> {
    (
        select(tags),
        vec(
            (select(&['0', 'a', 'b', 'x'][..]), rec::value_bytes()),
            0..4,
        ),
    )
        .prop_map(|(t, subs)| Fld { tag: t.into(), occ: None, subs })
        .boxed()
}

fn layered() -> BoxedStrategy<Layered> {
    let copy_occ = || {
        prop_oneof![
            8 => select(&["01", "02", "03", "10", "010"][..])
                .prop_map(|s| Some(s.to_string())),
            1 => Just(None),
        ]
    };
    let block = (
        vec(level_field(&["101@", "101@", "145Z", "144Z"]), 1..3),
        vec((copy_occ(), vec(level_field(&["203@", "209A", "245Z"]), 1..3)), 0..4),
    )
        .prop_map(|(local, mut copies)| {
            // neighbouring runs have different occurrences
            copies.dedup_by(|a, b| a.0 == b.0);
            Block { local, copies }
        });
    (
        vec(
            prop_oneof![
                1 => rec::ppn().prop_map(|p| Fld {
                    tag: "003@".into(),
                    occ: None,
                    subs: vec![('0', p)]
                }),
                3 => level_field(&["003@", "012A", "013A", "021A", "002@"])
            ],
            0..4,
        ),
        vec(block, 0..4),
    )
        .prop_map(|(main, mut blocks)| {
            // Only the last local part may lack copies: parts are told apart
            // by the copies in between.
            let n = blocks.len();
            let mut i = 0;
            blocks.retain(|b| {
                i += 1;
                i == n || !b.copies.is_empty()
            });
            Layered { main, blocks }
        })
        .prop_filter("not empty", |l| !l.rec().0.is_empty())
        .boxed()
}

/// Many records or many parts.
fn explode_volume() -> BoxedStrategy<ExplodeCase> {
    let n = select(&[127usize, 128, 129, 255, 256, 257, 300, 700][..]);
    (explode_case(), n, any::<bool>())
        .prop_map(|(mut c, n, wide)| {
            match c.recs.iter_mut().find(|r| r.blocks.len() > 1) {
                Some(r) if wide => {
                    let mut b = r.blocks.clone();
                    b.pop();
                    let last = r.blocks.pop();
                    r.blocks = b.into_iter().cycle().take(n).chain(last).collect();
                }
                _ => {
                    let v = std::mem::take(&mut c.recs);
                    c.recs = v.into_iter().cycle().take(n * 3).collect();
                }
            }
            if c.common.limit > 0 {
                c.common.limit = n;
            }
            c
        })
        .boxed()
}

fn explode_case() -> BoxedStrategy<ExplodeCase> {
    use Sink::*;
    (
        vec(layered(), 0..5),
        0u8..3,
        prop_oneof![1 => Just(Common::none()), 1 => common()],
        option::weighted(0.25, preds()),
        option::weighted(0.25, preds()),
        select(&[Stdout, Stdout, File, GzFlag, GzName, GzStdout, RawGzName][..]),
        crate::cli::form(),
        vec(any::<u16>(), 0..4),
        any::<u8>(),
    )
        .prop_map(
            |(recs, level, common, discard, keep, sink, form, cuts, salt)| {
                ExplodeCase {
                    common: common.sharp(&Input::of(recs.iter().map(|l| l.rec()).collect())),
                    recs,
                    level,
                    discard,
                    keep,
                    sink,
                    form,
                    cuts,
                    salt: salt as usize,
                }
            },
        )
        .boxed()
}

fn parts(l: &Layered, level: u8) -> Vec<Rec> {
    let copy = |(o, fs): &(Option<String>, Vec<Fld>)| -> Vec<Fld> {
        fs.iter().map(|f| Fld { occ: o.clone(), ..f.clone() }).collect()
    };
    match level {
        0 => vec![l.rec()],
        1 => l
            .blocks
            .iter()
            .map(|b| {
                let mut v = l.main.clone();
                v.extend(b.local.clone());
                v.extend(b.copies.iter().flat_map(copy));
                Rec(v)
            })
            .collect(),
        _ => l
            .blocks
            .iter()
            .flat_map(|b| {
                b.copies.iter().map(move |c| {
                    let mut v = l.main.clone();
                    v.extend(b.local.clone());
                    v.extend(copy(c));
                    Rec(v)
                })
            })
            .collect(),
    }
}

fn explode(c: &ExplodeCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let input = Input {
        lines: c.recs.iter().map(|l| crate::cli::Line::R(l.rec())).collect(),
        form: c.form,
        cuts: c.cuts.clone(),
        open: false,
        rep: 0,
        spread: false,
    };
    let mut a = args(&["explode"]);
    a.extend(skip_for(&input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    if let Some(p) = &c.discard {
        a.extend(["-d".to_string(), preds_text(p)]);
    }
    if let Some(p) = &c.keep {
        a.extend(["-k".to_string(), preds_text(p)]);
    }
    a.extend(c.sink.args(&cli)?);
    a.push(["main", "local", "copy"][c.level as usize % 3].into());
    let (files, stdin) = input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let all: Vec<Rec> =
        c.recs.iter().flat_map(|l| parts(l, c.level % 3)).collect();
    let want: Vec<Rec> = c
        .common
        .select(&all)
        .iter()
        .map(|r| thin(r, &c.discard, &c.keep))
        .filter(|r| !r.0.is_empty())
        .collect();
    c.sink.check(&cli, &o, &sum(&want))?;
    env.label(["main", "local", "copy"][c.level as usize % 3]);
    env.label_if(want.len() > c.recs.len(), "more-parts-than-records");
    Ok(!want.is_empty())
}

/// Fields in arbitrary order: nothing is lost or invented.
fn conserve(c: &(Input, u8), env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let (input, level) = c;
    let lv = *level % 2 + 1;
    let mut a = args(&["explode", ["local", "copy"][lv as usize - 1]]);
    a.extend(skip_for(input, 0).args(&cli)?);
    let (files, stdin) = input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let out = o.good()?;
    // The fields of the level occur exactly once, in order.
    let own = |f: &Fld| {
        if lv == 1 { f.level() >= 1 } else { f.level() == 2 }
    };
    let recs = input.recs();
    // Own field -> its record and the number of main fields before it.
    let mut at = vec![];
    let mut want: Vec<Fld> = vec![];
    for (i, r) in recs.iter().enumerate() {
        let mut n = 0;
        for f in &r.0 {
            n += (f.level() == 0) as usize;
            if own(f) {
                at.push((i, n));
                want.push(f.clone());
            }
        }
    }
    let mut got: Vec<Fld> = vec![];
    let mut mains = vec![];
    for l in out.split_inclusive(|b| *b == b'\n') {
        match rec::decode(l) {
            None => return Err(o.violation("output is not a record")),
            Some(r) => {
                let k = r.0.iter().filter(|f| own(f)).count();
                if k == 0 {
                    return Err(o.violation("part without a field of its level"));
                }
                got.extend(r.0.iter().filter(|f| own(f)).cloned());
                let m: Vec<Fld> =
                    r.0.into_iter().filter(|f| f.level() == 0).collect();
                mains.push((got.len(), k, m));
            }
        }
    }
    if got != want {
        return Err(o.violation("fields of the level were lost, moved or repeated"));
    }
    // A part has the main fields in front of its last own field, perhaps some
    // that follow, and the last local part of a record has all of them.
    let mut late = false;
    for (i, (end, k, m)) in mains.iter().enumerate() {
        let (rec, need) = at[end - 1];
        if at[end - k].0 != rec {
            return Err(o.violation("a part of two records"));
        }
        let all: Vec<&Fld> =
            recs[rec].0.iter().filter(|f| f.level() == 0).collect();
        late |= need < all.len();
        let last = mains.get(i + 1).is_none_or(|n| at[n.0 - 1].0 != rec);
        let min = if last && lv == 1 { all.len() } else { need };
        if m.len() < min
            || m.len() > all.len()
            || !m.iter().zip(&all).all(|(a, b)| a == *b)
        {
            return Err(o.violation(format!(
                "part {i} of record {rec} has the main fields {m:?} of {all:?}"
            )));
        }
    }
    env.label_if(late, "main-field-behind-parts");
    Ok(want.len() > 1)
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "at least one part is expected (parts); at least two fields of the level (conserve)",
        assumptions: &[
            "the reference models of records and expressions",
            "parts: records are main* (local+ copy*)*, only the last local part without copies",
        ],
        subs: vec![
            sub("parts", 7_000, 150_000, explode_case, explode),
            sub("volume", 120, 4_000, explode_volume, explode),
            sub(
                "conserve",
                2_000,
                40_000,
                || (input(false, true, 6), any::<u8>()).boxed(),
                conserve,
            ),
        ],
    }
}

// ------------------------------------------------------------------------ C15

fn invalid(c: &(Input, bool), env: &mut Env) -> Res {
    let (input, file) = c;
    let cli = Cli::new(env)?;
    let mut a = args(&["invalid"]);
    if *file {
        cli.write("out.dat", b"old")?;
        a.extend(args(&["-o", "out.dat"]));
    }
    let (files, stdin) = input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let lines = input.lines();
    let want: Vec<u8> = lines
        .iter()
        .filter(|(_, r)| r.is_none())
        .flat_map(|(b, _)| b.clone())
        .collect();
    let stdout = o.good()?.to_vec();
    let got = if *file { cli.read("out.dat")? } else { stdout };
    same("invalid lines", &got, &want, &o)?;

    // The complement: concat writes the other lines.
    let mut a = args(&["concat", "-s"]);
    let (files, stdin) = input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    let want: Vec<u8> = lines
        .iter()
        .filter(|(_, r)| r.is_some())
        .flat_map(|(b, _)| b.clone())
        .collect();
    same("valid lines", o.good()?, &want, &o)?;
    let n = lines.iter().filter(|(_, r)| r.is_none()).count();
    env.label_if(n > 1, "several-invalid-lines");
    env.label_if(input.open, "no-final-newline");
    Ok(n > 0)
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "the input has an undecodable line",
        assumptions: &["the hand-written decoder of harness/src/rec.rs is the PICA+ grammar"],
        subs: vec![sub(
            "invalid",
            6_000,
            150_000,
            || (input(false, true, 10), any::<bool>()).boxed(),
            invalid,
        ),
        sub(
            "volume",
            120,
            4_000,
            || {
                (input(false, true, 10), any::<bool>(), volume(75_000, true))
                    .prop_map(|(mut i, b, v)| {
                        v.blow(&mut i);
                        (i, b)
                    })
                    .boxed()
            },
            invalid,
        )],
    }
}

/// Lines of PICA+ as records.
pub fn decode_lines(b: &[u8]) -> Result<Vec<Rec>, String> {
    b.split_inclusive(|c| *c == b'\n')
        .map(|l| rec::decode(l).ok_or_else(|| rec::esc(l)))
        .collect()
}
