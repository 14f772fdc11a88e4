//! C16: the `check` command.

use std::collections::HashSet;
use std::sync::LazyLock;

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use super::tables::{Quote, csv_row, first_ppn, lossy, nf, nf_name};
use crate::cli::{
    Cli, Common, Input, List, ListKind, RAW, args, common, cond, input, input_of, list,
    same, skip_for, volume,
};
use crate::expr::{self, Codes, FldEx, Lay, OccPat, Opts, TagPat, layout};
use crate::pathq::{self, PathM, QOpts, QueryM};
use crate::rec::{self, B, Fld, Rec};
use crate::runner::{Env, Fail, Property, Res, sub};

static ISO639: LazyLock<HashSet<&'static str>> =
    LazyLock::new(|| include_str!("../../data/iso639.txt").lines().collect());
static JELC: LazyLock<HashSet<&'static str>> =
    LazyLock::new(|| include_str!("../../data/jelc.txt").lines().collect());

// ----------------------------------------------------------------- rule model

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Check {
    Allow { path: PathM, list: List },
    Iso(PathM),
    Jel(PathM),
    Date { path: PathM, format: Option<u8>, offset: Option<usize> },
    Dup { query: QueryM, thr: Option<usize>, sep: Option<String> },
    Filter { ex: FldEx, invert: Option<bool> },
    Isni { path: PathM, prefix: Option<String> },
    Link { source: PathM, target: PathM, filter: Option<FldEx>, inline: bool },
    Unicode { nf: Option<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rule {
    id: String,
    level: Option<u8>,
    text: Option<String>,
    tags: Option<Vec<String>>,
    case: Option<bool>,
    thr: Option<u8>,
    check: Check,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RuleSet {
    scope: Option<FldEx>,
    /// No, the default, or fast termination.
    term: u8,
    rules: Vec<Rule>,
    lay: Vec<u8>,
}

const LEVELS: [&str; 3] = ["error", "warning", "info"];
const FORMATS: [&str; 6] = [
    "%Y-%m-%d",
    "%d.%m.%Y",
    "%y-%m-%d",
    "%Y%m%d",
    "%Y-%m-%dT%H:%M:%S",
    "%d/%m/%y %H:%M",
];

/// A TOML string.
fn quoted(s: &str, style: u8) -> String {
    let ctl = s.chars().any(|c| c.is_control());
    if style % 3 == 0 && !ctl && !s.contains('\'') {
        return format!("'{s}'");
    }
    if style % 3 == 1 && !ctl && !s.contains("'''") && !s.ends_with('\'') {
        return format!("'''{s}'''");
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if c.is_control() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Rule {
    fn opts(&self) -> Opts {
        Opts { case: self.case.unwrap_or(false), thr: self.thr.unwrap_or(80) }
    }
    fn level(&self) -> &'static str {
        LEVELS[self.level.unwrap_or(0) as usize % 3]
    }
    fn is_link(&self) -> bool {
        matches!(self.check, Check::Link { .. })
    }

    /// The settings of this rule, one per line.
    fn lines(&self, cli: &Cli, l: &mut Lay) -> Result<Vec<String>, Fail> {
        let mut v = vec![];
        let kind = match &self.check {
            Check::Allow { .. } => "allow",
            Check::Iso(_) => "iso639-2b",
            Check::Jel(_) => "jelc",
            Check::Date { .. } => "datetime",
            Check::Dup { .. } => "duplicates",
            Check::Filter { .. } => "filter",
            Check::Isni { .. } => "isni",
            Check::Link { .. } => "link",
            Check::Unicode { .. } => "unicode",
        };
        v.push(format!("check = \"{kind}\""));
        let mut str = |k: &str, s: &str, l: &mut Lay| {
            v.push(format!("{k} = {}", quoted(s, l.next())))
        };
        match &self.check {
            Check::Allow { path, list } => {
                str("path", &path.text(l), l);
                let n = format!("{}{}", hex(&self.id), list.plain_name(false, 0));
                cli.write(&n, list.body("col"))?;
                let (f, c) = (quoted(&n, l.next()), quoted("col", l.next()));
                v.push(format!("list = {{ filename = {f}, column = {c} }}"));
            }
            Check::Iso(path) | Check::Jel(path) => str("path", &path.text(l), l),
            Check::Date { path, format, offset } => {
                str("path", &path.text(l), l);
                if let Some(f) = format {
                    str("format", FORMATS[*f as usize % FORMATS.len()], l);
                }
                if let Some(o) = offset {
                    v.push(format!("offset = {o}"));
                }
            }
            Check::Dup { query, thr, sep } => {
                str("query", &query.text(l), l);
                if let Some(s) = sep {
                    str("separator", s, l);
                }
                if let Some(t) = thr {
                    v.push(format!("threshold = {t}"));
                }
            }
            Check::Filter { ex, invert } => {
                str("filter", &ex.text(l), l);
                if let Some(i) = invert {
                    v.push(format!("invert-match = {i}"));
                }
            }
            Check::Isni { path, prefix } => {
                str("path", &path.text(l), l);
                if let Some(p) = prefix {
                    str("prefix", p, l);
                }
            }
            Check::Link { source, target, filter, inline } => {
                let s = quoted(&source.text(l), l.next());
                let t = quoted(&target.text(l), l.next());
                let f = filter.as_ref().map(|f| {
                    let f = f.text(l);
                    quoted(&f, l.next())
                });
                v.push(format!("source.path = {s}"));
                match (inline, f) {
                    (true, Some(f)) => {
                        v.push(format!("target = {{ path = {t}, filter = {f} }}"))
                    }
                    (true, None) => v.push(format!("target = {{ path = {t} }}")),
                    (false, f) => {
                        v.push(format!("target.path = {t}"));
                        if let Some(f) = f {
                            v.push(format!("target.filter = {f}"));
                        }
                    }
                }
            }
            Check::Unicode { nf } => {
                if let Some(n) = nf {
                    str("normalization", nf_name(*n), l);
                }
            }
        }
        if let Some(n) = self.level {
            v.push(format!("level = \"{}\"", LEVELS[n as usize % 3]));
        }
        if let Some(t) = &self.text {
            v.push(format!("description = {}", quoted(t, l.next())));
            v.push(format!("link = {}", quoted(t, l.next())));
        }
        if let Some(t) = &self.tags {
            let t: Vec<String> = t.iter().map(|s| quoted(s, 2)).collect();
            v.push(format!("tags = [{}]", t.join(", ")));
        }
        if !matches!(self.check, Check::Unicode { .. }) {
            if let Some(c) = self.case {
                v.push(format!("case-ignore = {c}"));
            }
            if let Some(t) = self.thr {
                v.push(format!("strsim-threshold = {:.2}", t as f64 / 100.0));
            }
        }
        Ok(v)
    }

    /// Whether the record violates the rule, and with which values.
    fn eval(&self, r: &Rec) -> Result<Option<Vec<String>>, Fail> {
        let o = self.opts();
        let wrong = |p: &PathM, bad: &dyn Fn(&[u8]) -> Result<bool, Fail>| {
            let mut v = vec![];
            for x in p.eval(r, &o) {
                if bad(&x.0)? {
                    v.push(lossy(&x.0));
                }
            }
            Ok(if v.is_empty() { None } else { Some(v) })
        };
        let known = |v: &[u8], set: &HashSet<&'static str>| {
            std::str::from_utf8(v).is_ok_and(|s| set.contains(s))
        };
        match &self.check {
            Check::Allow { path, list } => wrong(path, &|v| {
                // an empty cell of a list is no value
                Ok(v.is_empty()
                    || !list.values.iter().any(|x| x.as_bytes() == v))
            }),
            Check::Iso(path) => wrong(path, &|v| Ok(!known(v, &ISO639))),
            Check::Jel(path) => wrong(path, &|v| Ok(!known(v, &JELC))),
            Check::Date { path, format, offset } => wrong(path, &|v| {
                is_date(v, format.unwrap_or(0), offset.unwrap_or(0)).map(|x| !x)
            }),
            Check::Dup { query, thr, sep } => {
                let q = QOpts { m: o, squash: false, merge: false, sep: "|".into() };
                let sep = sep.as_deref().unwrap_or("|");
                // combinations of values, as they are
                let mut seen: Vec<(Vec<B>, usize)> = vec![];
                for row in query.eval(r, &q) {
                    if row.iter().all(|x| x.0.is_empty()) {
                        continue;
                    }
                    match seen.iter_mut().find(|(x, _)| *x == row) {
                        Some((_, n)) => *n += 1,
                        None => seen.push((row, 1)),
                    }
                }
                seen.retain(|(_, n)| *n >= thr.unwrap_or(2));
                let v: Vec<String> = seen
                    .iter()
                    .map(|(k, _)| {
                        let k: Vec<_> = k.iter().map(|x| lossy(&x.0)).collect();
                        k.join(sep)
                    })
                    .collect();
                Ok(if v.is_empty() { None } else { Some(v) })
            }
            Check::Filter { ex, invert } => {
                let hit = ex.eval(r, &o) != invert.unwrap_or(false);
                Ok(hit.then(Vec::new))
            }
            Check::Isni { path, prefix } => wrong(path, &|v| {
                let p = prefix.as_deref().unwrap_or("").as_bytes();
                match v.strip_prefix(p) {
                    None => Ok(false),
                    Some(v) => is_isni(v).map(|x| !x),
                }
            }),
            Check::Link { .. } => Ok(None),
            Check::Unicode { nf: form } => {
                if !r.is_utf8() {
                    return Ok(Some(vec![]));
                }
                let Some(n) = form else { return Ok(None) };
                let v: Vec<String> = r
                    .0
                    .iter()
                    .flat_map(|f| f.subs.iter())
                    .map(|(_, v)| lossy(&v.0))
                    .filter(|s| nf(Some(*n), s) != *s)
                    .collect();
                Ok(if v.is_empty() { None } else { Some(v) })
            }
        }
    }
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

/// Whether the value is a date of the format. Skips values where the laxness of the
/// format language (shorter or longer numbers, signs, blanks) would decide.
fn is_date(v: &[u8], format: u8, offset: usize) -> Result<bool, Fail> {
    let Ok(s) = std::str::from_utf8(v) else {
        // broken bytes never are part of a date; where they are skipped by the
        // offset, nothing is specified
        return if offset == 0 { Ok(false) } else { Err(Fail::Skip) };
    };
    let s: String = s.chars().skip(offset).collect();
    if s.is_empty() {
        return Ok(false);
    }
    let fmt = FORMATS[format as usize % FORMATS.len()];
    // the alphabet of all values of this format
    let seps: Vec<char> = fmt
        .chars()
        .filter(|c| !c.is_ascii_alphabetic() && *c != '%')
        .chain(fmt.chars().filter(|c| *c == 'T'))
        .collect();
    if s.chars().any(|c| {
        !(c.is_ascii_digit() || seps.contains(&c) || c.is_whitespace() || c == '+' || c == '-')
    }) {
        return Ok(false);
    }
    // canonical shape?
    let mut parts: Vec<(char, u32)> = vec![];
    let mut it = s.chars();
    let mut f = fmt.chars();
    let mut canonical = true;
    while let Some(c) = f.next() {
        if c == '%' {
            let k = f.next().unwrap();
            let n = if k == 'Y' { 4 } else { 2 };
            let d: String = it.by_ref().take(n).collect();
            if d.len() != n || !d.chars().all(|c| c.is_ascii_digit()) {
                canonical = false;
                break;
            }
            parts.push((k, d.parse().unwrap()));
        } else if it.next() != Some(c) {
            canonical = false;
            break;
        }
    }
    if !canonical || it.next().is_some() {
        // nothing but digits where separators are needed, or too few of them
        let digits = s.chars().filter(|c| c.is_ascii_digit()).count();
        let only = s.chars().all(|c| c.is_ascii_digit());
        let need = parts_of(fmt);
        if digits < need
            || (only && !seps.is_empty())
            || (only && digits > 8)
            || (only && digits < 5)
        {
            return Ok(false);
        }
        return Err(Fail::Skip);
    }
    let get = |k: char| parts.iter().find(|p| p.0 == k).map(|p| p.1);
    let y = match (get('Y'), get('y')) {
        (Some(y), _) => y,
        (_, Some(y)) => y + if y < 69 { 2000 } else { 1900 },
        _ => unreachable!(),
    };
    if y == 0 || get('S') == Some(60) {
        return Err(Fail::Skip);
    }
    let (m, d) = (get('m').unwrap(), get('d').unwrap());
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap => 29,
        2 => 28,
        _ => 0,
    };
    Ok((1..=days).contains(&d)
        && get('H').is_none_or(|x| x < 24)
        && get('M').is_none_or(|x| x < 60)
        && get('S').is_none_or(|x| x < 60))
}

fn parts_of(fmt: &str) -> usize {
    fmt.matches('%').count()
}

/// ISO 7064 mod 11-2 over 16 digits, hyphens and blanks ignored.
fn is_isni(v: &[u8]) -> Result<bool, Fail> {
    let valid = |v: &[u8]| {
        if v.len() != 16 {
            return false;
        }
        let mut sum = 0u32;
        for (i, c) in v.iter().enumerate() {
            let d = match c {
                b'0'..=b'9' => (c - b'0') as u32,
                b'X' if i == 15 => 10,
                _ => return false,
            };
            sum = (sum * 2 + d) % 11;
        }
        sum == 1
    };
    let plain: Vec<u8> =
        v.iter().copied().filter(|c| !b"- ".contains(c)).collect();
    if valid(&plain) {
        return Ok(true);
    }
    // further punctuation: whether it may separate digits is not specified
    let loose: Vec<u8> = plain.into_iter().filter(|c| *c >= b'0').collect();
    if valid(&loose) {
        return Err(Fail::Skip);
    }
    Ok(false)
}

impl RuleSet {
    fn text(&self, cli: &Cli) -> Result<String, Fail> {
        let mut l = Lay::new(&self.lay);
        let mut s = String::new();
        if let Some(e) = &self.scope {
            let t = e.text(&mut l);
            s.push_str(&format!("scope = {}\n", quoted(&t, l.next())));
        }
        match self.term {
            1 => s.push_str("termination = \"default\"\n"),
            2 => s.push_str("termination = 'fast'\n"),
            _ => {}
        }
        for r in &self.rules {
            let bare = r.id.chars().all(|c| c.is_ascii_alphanumeric() || "-_".contains(c));
            let k = if bare { r.id.clone() } else { quoted(&r.id, 2) };
            s.push_str(&format!("\n[rule.{k}]\n"));
            let mut lines = r.lines(cli, &mut l)?;
            let n = lines.len();
            lines.rotate_left(l.next() as usize % n);
            for x in lines {
                s.push_str(&x);
                s.push('\n');
            }
        }
        Ok(s)
    }
}

// ----------------------------------------------------------------- generators

fn isni() -> BoxedStrategy<String> {
    (vec(0u32..10, 15), 0u8..10, 0usize..15, 0u8..4, any::<bool>())
        .prop_map(|(d, kind, at, sep, full)| {
            let mut d = d;
            if !full {
                // the usual ones start with zeros
                d[..7].fill(0);
            }
            let sum = d.iter().fold(0, |s, x| (s + x) * 2) % 11;
            let c = (12 - sum) % 11;
            let last = |c: u32| {
                if c == 10 { 'X' } else { char::from_digit(c, 10).unwrap() }
            };
            let mut s: Vec<char> =
                d.iter().map(|x| char::from_digit(*x, 10).unwrap()).collect();
            s.push(last(c));
            match kind {
                0 => s[15] = last((c + 1) % 11),
                1 => s[at] = char::from_digit((d[at] + 1) % 10, 10).unwrap(),
                2 => {
                    // a letter at the same distance modulo 11
                    s[at] = (b'0' + d[at] as u8 + 22) as char;
                }
                3 if c == 10 => s[15] = 'x',
                3 => {
                    s.pop();
                }
                4 => s.insert(at, '0'),
                5 if at < 14 => s.swap(at, at + 1),
                _ => {}
            }
            let s: String = match sep {
                0 => s.iter().collect(),
                1 | 2 => s
                    .chunks(4)
                    .map(|c| c.iter().collect::<String>())
                    .collect::<Vec<_>>()
                    .join(if sep == 1 { "-" } else { " " }),
                _ => s.iter().map(|c| format!("{c}-")).collect(),
            };
            s
        })
        .boxed()
}

fn date() -> BoxedStrategy<String> {
    date_of(None)
}

fn date_of(format: Option<(u8, usize)>) -> BoxedStrategy<String> {
    (
        select(&[1900u32, 2000, 2023, 2024, 2100, 1969, 1968, 1582, 9999, 1, 2025][..]),
        0u32..14,
        select(&[0u32, 1, 2, 9, 15, 28, 29, 30, 31, 32][..]),
        (0u32..25, select(&[0u32, 1, 30, 59, 60, 61][..]), select(&[0u32, 59, 60, 61][..])),
        0u8..6,
        select(&["", "", "", "", "x", "äß", "abc", " "][..]),
        select(&["", "", "", "", "", "Z", "T", "0", "-"][..]),
    )
        .prop_map(move |(y, m, d, (h, mi, s), f, pre, post)| {
            let (f, pre) = match format {
                // as the rule wants it
                Some((f, n)) => (f, &"xäß-y"[..at(n)]),
                None => (f, pre),
            };
            let t = match f {
                0 => format!("{y:04}-{m:02}-{d:02}"),
                1 => format!("{d:02}.{m:02}.{y:04}"),
                2 => format!("{:02}-{m:02}-{d:02}", y % 100),
                3 => format!("{y:04}{m:02}{d:02}"),
                4 => format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}"),
                _ => format!("{d:02}/{m:02}/{:02} {h:02}:{mi:02}", y % 100),
            };
            format!("{pre}{t}{post}")
        })
        .boxed()
}

/// Where the n-th character of the prefix starts.
fn at(n: usize) -> usize {
    "xäß-y".char_indices().nth(n).map_or("xäß-y".len(), |(i, _)| i)
}

fn codes_like() -> BoxedStrategy<String> {
    let one = |s: &'static str| {
        let v: Vec<&'static str> = s.lines().collect();
        (select(v), 0u8..10).prop_map(|(s, k)| match k {
            0 => s.to_lowercase(),
            1 => s.to_uppercase(),
            2 => format!("{s} "),
            3 => s.chars().take(2).collect(),
            4 => format!("{s}0"),
            5 => s.chars().rev().collect(),
            _ => s.to_string(),
        })
    };
    prop_oneof![
        one(include_str!("../../data/iso639.txt")),
        one(include_str!("../../data/jelc.txt")),
        "[a-z]{3}",
        "[A-Z][0-9]{1,2}",
    ]
    .boxed()
}

fn value() -> BoxedStrategy<B> {
    let nf = select(
        &["ä", "a\u{308}", "ﬁ", "é", "e\u{301}", "\u{212b}", "Å", "A\u{30a}", "½",
            "q\u{323}\u{307}", "q\u{307}\u{323}", "가", "\u{1100}\u{1161}", "x"][..],
    )
    .prop_map(|s| format!("M{s}n"));
    prop_oneof![
        3 => codes_like().prop_map(|s| B::s(&s)),
        3 => date().prop_map(|s| B::s(&s)),
        2 => (isni(), select(&["", "(isni)", "(orcid)", "ISNI "][..]))
            .prop_map(|(s, p)| B::s(&format!("{p}{s}"))),
        2 => nf.prop_map(|s| B::s(&s)),
        2 => select(&["1", "2", "3", "4", "5", "10", "a", "b", "", "a|b", "a,b",
            "x\"y", "; "][..]).prop_map(B::s),
        1 => rec::value_utf8(),
    ]
    .boxed()
}

fn special(utf8: bool) -> BoxedStrategy<Rec> {
    let v = if utf8 {
        value()
    } else {
        prop_oneof![12 => value(), 1 => rec::value_bytes()].boxed()
    };
    let field = (
        select(&["012A", "012A", "012B", "013A"][..]),
        select(&[None, None, Some("01"), Some("02")][..]),
        vec((select(&['a', 'a', 'b', 'c'][..]), v), 0..4),
    )
        .prop_map(|(t, o, subs)| Fld {
            tag: t.into(),
            occ: o.map(|s| s.to_string()),
            subs,
        });
    (option::weighted(0.95, rec::ppn()), vec(field, 1..7))
        .prop_map(|(p, mut f)| {
            if let Some(p) = p {
                f.insert(
                    0,
                    Fld { tag: "003@".into(), occ: None, subs: vec![('0', p)] },
                );
            }
            Rec(f)
        })
        .boxed()
}

fn near_path() -> BoxedStrategy<PathM> {
    let p = (
        select(&["012A", "012A", "012B", "013A", "003@"][..]),
        select(&[OccPat::Any, OccPat::None][..]),
        select(&['a', 'a', 'b', 'c', '0'][..]),
    )
        .prop_map(|(t, occ, c)| PathM {
            tag: TagPat::exact(t),
            occ,
            groups: vec![Codes::One(if t == "003@" { '0' } else { c })],
            filter: None,
            curly: false,
            parens: false,
        });
    prop_oneof![2 => p, 1 => pathq::path()].boxed()
}

fn ppn_path() -> PathM {
    PathM {
        tag: TagPat::exact("003@"),
        occ: OccPat::None,
        groups: vec![Codes::One('0')],
        filter: None,
        curly: false,
        parens: false,
    }
}

fn check() -> BoxedStrategy<Check> {
    let csv = list().prop_map(|mut l| {
        l.kind = match l.kind {
            ListKind::Txt => ListKind::Csv,
            ListKind::TxtGz => ListKind::CsvGz,
            k => k,
        };
        l
    });
    prop_oneof![
        2 => (near_path(), csv).prop_map(|(path, list)| Check::Allow { path, list }),
        2 => near_path().prop_map(Check::Iso),
        2 => near_path().prop_map(Check::Jel),
        3 => (near_path(), option::weighted(0.6, 0u8..6), option::weighted(0.4, 0usize..5))
            .prop_map(|(path, format, offset)| Check::Date { path, format, offset }),
        3 => (
                prop_oneof![
                    2 => near_path().prop_map(|p| QueryM(vec![pathq::QFrag::Path(p)])),
                    1 => pathq::query(),
                ],
                option::weighted(0.3, 0usize..4),
                option::weighted(0.3, select(&["", "|", "--", ", ", "ä"][..])),
            )
            .prop_map(|(query, thr, sep)| Check::Dup {
                query,
                thr,
                sep: sep.map(|s| s.to_string()),
            }),
        3 => (cond(), option::weighted(0.5, any::<bool>()))
            .prop_map(|(ex, invert)| Check::Filter { ex, invert }),
        3 => (near_path(), option::weighted(0.5, select(&["(isni)", "(orcid)", "", "0"][..])))
            .prop_map(|(path, p)| Check::Isni { path, prefix: p.map(|s| s.to_string()) }),
        4 => (
                near_path(),
                prop_oneof![2 => Just(ppn_path()), 1 => near_path()],
                option::weighted(0.4, cond()),
                any::<bool>(),
            )
            .prop_map(|(source, target, filter, inline)| Check::Link {
                source, target, filter, inline,
            }),
        2 => option::of(0u8..4).prop_map(|nf| Check::Unicode { nf }),
    ]
    .boxed()
}

const TAGS: [&str; 5] = ["A", "FE", "IE", "a b", "ä"];

fn rule() -> BoxedStrategy<Rule> {
    (
        select(&["R", "R", "R0", "rule-", "x.y ", "Ä", "a,b", "q\"", "E_"][..]),
        option::weighted(0.5, 0u8..3),
        option::weighted(0.3, select(&["text", "Ä \"q\" 'x'", "", "a\\b"][..])),
        option::weighted(0.5, vec(select(&TAGS[..]), 0..3)),
        option::weighted(0.3, any::<bool>()),
        option::weighted(0.3, select(&[0u8, 25, 50, 66, 80, 99][..])),
        check(),
    )
        .prop_map(|(id, level, text, tags, case, thr, check)| Rule {
            id: id.into(),
            level,
            text: text.map(|s| s.to_string()),
            tags: tags.map(|t| t.iter().map(|s| s.to_string()).collect()),
            case,
            thr,
            check,
        })
        .boxed()
}

fn rule_sets() -> BoxedStrategy<Vec<RuleSet>> {
    let set = (
        option::weighted(0.3, cond()),
        select(&[0u8, 0, 1, 2][..]),
        vec(rule(), 0..5),
        layout(),
    )
        .prop_map(|(scope, term, rules, lay)| RuleSet { scope, term, rules, lay });
    vec(set, 1..4)
        .prop_map(|mut v| {
            let mut n = 0;
            for s in &mut v {
                for r in &mut s.rules {
                    // unique over all rule sets
                    n += 1;
                    r.id = format!("{}{n}", r.id);
                }
                if s.term == 2 {
                    // which rules run before the first violation is not specified,
                    // and links are found while rules run
                    s.rules.retain(|r| !r.is_link());
                }
            }
            v
        })
        .boxed()
}

// ---------------------------------------------------------------------- check

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum To {
    Stdout,
    Csv,
    Tsv,
    Txt,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CheckCase {
    input: Input,
    common: Common,
    sets: Vec<RuleSet>,
    ids: Vec<String>,
    tags: Option<Vec<String>>,
    to: To,
    salt: usize,
}

fn check_case() -> BoxedStrategy<CheckCase> {
    let recs = prop_oneof![
        4 => any::<bool>().prop_flat_map(|b| input_of(special(true), b, 9)),
        2 => any::<bool>().prop_flat_map(|b| input_of(special(false), b, 9)),
        1 => input(false, true, 9),
    ];
    (
        recs,
        prop_oneof![3 => Just(Common::none()), 1 => common()],
        rule_sets(),
        vec(select(&["R", "^R", "1", "[23]$", "rule", "^x.y", "Ä", "nothing"][..]), 0..3),
        option::weighted(0.3, vec(select(&TAGS[..]), 1..4)),
        prop_oneof![
            3 => Just(To::Stdout),
            1 => Just(To::Csv),
            1 => Just(To::Tsv),
            1 => Just(To::Txt),
            1 => Just(To::Other),
        ],
        any::<u8>(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(input, common, sets, ids, tags, to, salt, pick)| CheckCase {
            common: common.sharp(&input),
            input,
            sets,
            ids: if pick { ids.iter().map(|s| s.to_string()).collect() } else { vec![] },
            tags: tags.map(|t| t.iter().map(|s| s.to_string()).collect()),
            to,
            salt: salt as usize,
        })
        .boxed()
}

/// Thousands of records, or large ones.
fn check_volume() -> BoxedStrategy<CheckCase> {
    (prop_oneof![check_case(), value_case()], volume(9_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.is_wide() {
                // the rows of a query multiply
                for r in c.sets.iter_mut().flat_map(|s| s.rules.iter_mut()) {
                    if let Check::Dup { query, thr, .. } = &mut r.check {
                        query.0.truncate(1);
                        *thr = thr.map(|_| v.number(0));
                    }
                }
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

/// One rule, and values that are made for it.
fn value_case() -> BoxedStrategy<CheckCase> {
    let path = pathq::plain("012A", 'a');
    let p = path.clone();
    let dates = (0u8..6, option::of(0usize..6)).prop_flat_map(move |(f, o)| {
        let check = Check::Date {
            path: p.clone(),
            format: if f == 0 && o.is_some() { None } else { Some(f) },
            offset: o,
        };
        (Just(check), vec(vec(date_of(Some((f, o.unwrap_or(0)))), 1..4), 1..6))
    });
    let p = path.clone();
    let isnis = option::of(select(&["(isni)", "0", "ä"][..])).prop_flat_map(move |x| {
        let v = (isni(), select(&["", "(isni)", "0", "ä"][..]), any::<bool>());
        let v = v.prop_map(move |(s, y, same)| {
            format!("{}{s}", if same { x.unwrap_or("") } else { y })
        });
        let check =
            Check::Isni { path: p.clone(), prefix: x.map(|s| s.to_string()) };
        (Just(check), vec(vec(v, 1..4), 1..6))
    });
    let p = path.clone();
    let codes = any::<bool>().prop_flat_map(move |iso| {
        let check =
            if iso { Check::Iso(p.clone()) } else { Check::Jel(p.clone()) };
        (Just(check), vec(vec(codes_like(), 1..4), 1..6))
    });
    let p = path.clone();
    let links = option::weighted(0.3, cond()).prop_flat_map(move |f| {
        let check = Check::Link {
            source: p.clone(),
            target: ppn_path(),
            filter: f,
            inline: true,
        };
        let v = prop_oneof![
            4 => rec::ppn().prop_map(|b| b.lossy()),
            1 => Just(String::new()),
        ];
        (Just(check), vec(vec(v, 1..4), 1..8))
    });
    let dups = (0usize..4, any::<bool>()).prop_flat_map(move |(n, d)| {
        let check = Check::Dup {
            query: QueryM(vec![pathq::QFrag::Path(path.clone())]),
            thr: (!d).then_some(n),
            sep: None,
        };
        let v = select(&["a", "A", "b", "a ", ""][..]).prop_map(|s| s.to_string());
        (Just(check), vec(vec(v, 1..7), 1..6))
    });
    let which = prop_oneof![3 => dates, 3 => isnis, 3 => codes, 4 => links, 2 => dups];
    (
        which,
        vec(rec::ppn(), 8),
        vec(any::<u8>(), 8),
        any::<u8>(),
        option::of(0u8..3),
        option::weighted(0.4, any::<u64>()),
    )
        .prop_map(|((check, vals), ppns, how, salt, level, scope)| {
            let recs: Vec<Rec> = vals
                .into_iter()
                .zip(ppns.into_iter().zip(how))
                .map(|(v, (p, how))| {
                    let id = Fld {
                        tag: "003@".into(),
                        occ: None,
                        subs: vec![('0', p)],
                    };
                    let mut f: Vec<Fld> = vec![];
                    for x in v {
                        let sub = ('a', B::s(&x));
                        match f.last_mut() {
                            Some(l) if how % 2 == 0 => l.subs.push(sub),
                            _ => f.push(Fld {
                                tag: "012A".into(),
                                occ: (how % 3 == 0).then(|| "01".to_string()),
                                subs: vec![sub],
                            }),
                        }
                    }
                    f.insert(if how > 230 { f.len() } else { 0 }, id);
                    Rec(f)
                })
                .collect();
            let scope = scope.and_then(|mix| {
                if mix % 2 == 0 && matches!(check, Check::Link { .. }) {
                    // some of the records, by identifier
                    let ids: Vec<String> = recs
                        .iter()
                        .filter_map(first_ppn)
                        .map(|v| lossy(&v))
                        .enumerate()
                        .filter(|(i, _)| mix >> (i + 1) & 1 == 1)
                        .map(|(_, v)| v)
                        .collect();
                    return (!ids.is_empty()).then(|| {
                        use expr::{Codes, Ex, FldM, OccPat, Q, SubM, TagPat};
                        Ex::Atom(FldM::Dot(
                            Q::Default,
                            TagPat::exact("003@"),
                            OccPat::None,
                            SubM::In(Q::Default, Codes::One('0'), false, ids, true),
                            false,
                        ))
                    });
                }
                expr::sharp_ex(&recs, mix)
            });
            let lines = recs.into_iter().map(crate::cli::Line::R).collect();
            let rule = Rule {
                id: "R".into(),
                level,
                text: None,
                tags: None,
                case: None,
                thr: None,
                check,
            };
            CheckCase {
                input: Input {
                    lines,
                    form: crate::cli::Form::Files,
                    cuts: vec![salt as u16],
                    open: false,
                    rep: 0,
                    spread: false,
                },
                common: Common::none(),
                sets: vec![RuleSet {
                    scope,
                    term: 0,
                    rules: vec![rule],
                    lay: vec![],
                }],
                ids: vec![],
                tags: None,
                to: To::Stdout,
                salt: salt as usize,
            }
        })
        .boxed()
}

/// Rules whose result depends on their options: conditions and path filters
/// that are made from values of the records.
fn option_case() -> BoxedStrategy<CheckCase> {
    (
        vec(special(true), 1..7),
        vec(
            (
                rule(),
                option::weighted(0.8, prop::bool::weighted(0.7)),
                option::weighted(0.6, select(&[0u8, 25, 50, 66, 75, 80, 90, 99][..])),
                any::<u64>(),
                any::<bool>(),
            ),
            1..4,
        ),
        any::<u64>(),
        prop::bool::weighted(0.35),
        any::<u8>(),
        layout(),
    )
        .prop_map(|(recs, rules, mix, scoped, salt, lay)| {
            let rules = rules
                .into_iter()
                .enumerate()
                .map(|(i, (mut r, case, thr, mix, other))| {
                    r.id = format!("{}{i}", r.id);
                    r.case = case;
                    r.thr = thr;
                    let sub = expr::sharp(&recs, mix);
                    match &mut r.check {
                        Check::Filter { ex, invert } => {
                            if let Some(e) = expr::sharp_ex(&recs, mix) {
                                *ex = e;
                            }
                            *invert = other.then_some(true);
                        }
                        Check::Dup { query, thr, .. } => {
                            if let Some((t, o, m)) = sub {
                                let c = pathq::code_of(&m);
                                *query = QueryM(vec![pathq::QFrag::Path(pathq::only(t, o, c, m))]);
                                *thr = Some(mix as usize % 3);
                            }
                        }
                        Check::Link { source, filter, .. } => {
                            match expr::sharp_ex(&recs, mix) {
                                Some(e) if other => *filter = Some(e),
                                _ => {
                                    if let Some((t, o, m)) = sub {
                                        let c = pathq::code_of(&m);
                                        *source = pathq::only(t, o, c, m);
                                    }
                                }
                            }
                        }
                        Check::Allow { path, .. }
                        | Check::Iso(path)
                        | Check::Jel(path)
                        | Check::Date { path, .. }
                        | Check::Isni { path, .. } => {
                            if let Some((t, o, m)) = sub {
                                let c = pathq::code_of(&m);
                                *path = pathq::only(t, o, c, m);
                            }
                        }
                        Check::Unicode { .. } => {}
                    }
                    r
                })
                .collect();
            let scope = if scoped { expr::sharp_ex(&recs, mix) } else { None };
            CheckCase {
                input: Input::of(recs),
                common: Common::none(),
                sets: vec![RuleSet { scope, term: 0, rules, lay }],
                ids: vec![],
                tags: None,
                to: To::Stdout,
                salt: salt as usize,
            }
        })
        .boxed()
}

/// The whole code list (and some near misses) in one file.
fn list_case() -> BoxedStrategy<CheckCase> {
    let path = pathq::plain("012A", 'a');
    (any::<bool>(), vec(codes_like(), 0..8), any::<u64>(), 0usize..16)
        .prop_map(move |(iso, noise, mix, salt)| {
            let list: &HashSet<&'static str> = if iso { &ISO639 } else { &JELC };
            let mut v: Vec<String> = list.iter().map(|s| s.to_string()).collect();
            v.sort();
            let n = v.len();
            let turn = (mix % n as u64) as usize;
            v.rotate_left(turn);
            for (i, x) in noise.into_iter().enumerate() {
                let at = (mix >> (i * 7)) as usize % v.len();
                v.insert(at, x);
            }
            let fld = |tag: &str, code, v: &str| Fld {
                tag: tag.into(),
                occ: None,
                subs: vec![(code, B::s(v))],
            };
            let lines = v
                .chunks(1 + (mix % 90) as usize)
                .enumerate()
                .map(|(i, c)| {
                    let mut f = vec![fld("003@", '0', &format!("{}", i + 1))];
                    f.extend(c.iter().map(|x| fld("012A", 'a', x)));
                    crate::cli::Line::R(Rec(f))
                })
                .collect();
            let check =
                if iso { Check::Iso(path.clone()) } else { Check::Jel(path.clone()) };
            let rule = Rule {
                id: "R".into(),
                level: None,
                text: None,
                tags: None,
                case: None,
                thr: None,
                check,
            };
            CheckCase {
                input: Input {
                    lines,
                    form: crate::cli::Form::Files,
                    cuts: vec![salt as u16],
                    open: false,
                    rep: 0,
                    spread: false,
                },
                common: Common::none(),
                sets: vec![RuleSet {
                    scope: None,
                    term: 0,
                    rules: vec![rule],
                    lay: vec![],
                }],
                ids: vec![],
                tags: None,
                to: To::Stdout,
                salt,
            }
        })
        .boxed()
}

/// Identifier, rule, level and the values of the message.
type Row = (Vec<u8>, String, String, Vec<String>, bool);

/// A row as it is written; the values of a duplicates rule in canonical order.
fn cells(r: &Row) -> Vec<Vec<u8>> {
    let msg = if r.4 { sorted(&r.3.join("; ")) } else { r.3.join(", ") };
    vec![
        r.0.clone(),
        r.1.clone().into_bytes(),
        r.2.clone().into_bytes(),
        msg.into_bytes(),
    ]
}

fn sorted(s: &str) -> String {
    let mut v: Vec<&str> = s.split("; ").collect();
    v.sort();
    v.join("; ")
}

fn select_rules(c: &CheckCase) -> Vec<RuleSet> {
    let re: Vec<regex::Regex> =
        c.ids.iter().map(|s| regex::Regex::new(s).unwrap()).collect();
    c.sets
        .iter()
        .map(|s| {
            let mut s = s.clone();
            s.rules.retain(|r| {
                (re.is_empty() || re.iter().any(|x| x.is_match(&r.id)))
                    && c.tags.as_ref().is_none_or(|t| {
                        r.tags
                            .as_ref()
                            .is_some_and(|x| x.iter().any(|y| t.contains(y)))
                    })
            });
            s
        })
        .collect()
}

fn checking(c: &CheckCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["check"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    for (i, s) in c.sets.iter().enumerate() {
        let n = if c.salt % 7 == 3 {
            format!("r{RAW}/rules{i}.toml")
        } else {
            format!("rules{i}.toml")
        };
        cli.write(&n, s.text(&cli)?)?;
        a.push(if i % 2 == c.salt % 2 { "-R" } else { "--rule-set" }.into());
        a.push(n);
    }
    for (i, r) in c.ids.iter().enumerate() {
        a.push(if i % 2 == c.salt % 2 { "-r" } else { "--rule" }.into());
        a.push(r.clone());
    }
    if let Some(t) = &c.tags {
        a.push(if c.salt % 2 == 0 { "-t" } else { "--tags" }.into());
        a.push(t.join([",", ", ", " ,"][c.salt % 3]));
    }
    let file = match c.to {
        To::Stdout => None,
        To::Csv => Some("o.csv"),
        To::Tsv => Some("o.tsv"),
        To::Txt => Some("o.txt"),
        To::Other => Some("o.xyz"),
    };
    let file = file.map(|f| {
        if c.salt % 5 == 1 { format!("d{RAW}/{f}") } else { f.to_string() }
    });
    if let Some(f) = &file {
        cli.write(f, "old\n".repeat(50))?;
        a.extend(args(&[if c.salt % 2 == 0 { "-o" } else { "--output" }, f]));
    }
    a.push("--".into());
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);

    // expectation
    let sets = select_rules(c);
    let recs = c.common.select(&c.input.recs());
    let mut groups: Vec<(Vec<Row>, bool)> = vec![];
    for r in &recs {
        let ppn = first_ppn(r).unwrap_or_default();
        for s in &sets {
            if s.scope.as_ref().is_some_and(|e| !e.eval(r, &Opts { case: false, thr: 80 })) {
                continue;
            }
            let mut rows = vec![];
            for x in &s.rules {
                if let Some(v) = x.eval(r)? {
                    let dup = matches!(x.check, Check::Dup { .. });
                    env.label(match &x.check {
                        Check::Allow { .. } => "violates-allow",
                        Check::Iso(_) => "violates-iso639",
                        Check::Jel(_) => "violates-jelc",
                        Check::Date { .. } => "violates-datetime",
                        Check::Dup { .. } => "violates-duplicates",
                        Check::Filter { .. } => "violates-filter",
                        Check::Isni { .. } => "violates-isni",
                        Check::Link { .. } => "violates-link",
                        Check::Unicode { .. } => "violates-unicode",
                    });
                    rows.push((ppn.clone(), x.id.clone(), x.level().to_string(), v, dup));
                }
            }
            if !rows.is_empty() {
                groups.push((rows, s.term == 2));
            }
        }
    }
    for s in &sets {
        let mut rows: Vec<Row> = vec![];
        for x in &s.rules {
            let Check::Link { source, target, filter, .. } = &x.check else { continue };
            let o = x.opts();
            let targets: HashSet<B> = recs
                .iter()
                .filter(|r| filter.as_ref().is_none_or(|f| f.eval(r, &o)))
                .flat_map(|r| target.eval(r, &o))
                .collect();
            for r in &recs {
                if s.scope
                    .as_ref()
                    .is_some_and(|e| !e.eval(r, &Opts { case: false, thr: 80 }))
                {
                    continue;
                }
                let ppn = first_ppn(r).unwrap_or_default();
                let v: Vec<String> = source
                    .eval(r, &o)
                    .into_iter()
                    .filter(|v| !targets.contains(v))
                    .map(|v| lossy(&v.0))
                    .collect();
                if v.is_empty() {
                    continue;
                }
                env.label("violates-link");
                match rows.iter_mut().find(|w| w.0 == ppn && w.1 == x.id) {
                    Some(w) => w.3.extend(v),
                    None => {
                        rows.push((ppn, x.id.clone(), x.level().to_string(), v, false))
                    }
                }
            }
        }
        if !rows.is_empty() {
            groups.push((rows, false));
        }
    }

    let o = cli.run(&a, stdin.as_deref())?;
    o.good()?;
    let got = match file {
        None => o.out.clone(),
        Some(f) => {
            same("standard output", &o.out, b"", &o)?;
            cli.read(&f)?
        }
    };
    // the rows of the output, in order
    let (sep, width) = match c.to {
        To::Tsv => (b'\t', 4),
        To::Txt => (b',', 1),
        _ => (b',', 4),
    };
    let mut rd = csv::ReaderBuilder::new()
        .delimiter(sep)
        .has_headers(false)
        .flexible(true)
        .from_reader(&got[..]);
    let mut rows: Vec<Vec<Vec<u8>>> = vec![];
    for r in rd.byte_records() {
        let r = r.map_err(|e| o.violation(format!("output is no table: {e}")))?;
        rows.push(r.iter().map(|c| c.to_vec()).collect());
    }
    let again: Vec<u8> =
        rows.iter().flat_map(|r| csv_row(r, sep, Quote::Necessary)).collect();
    same("table syntax", &got, &again, &o)?;
    let total: usize = groups.iter().map(|g| if g.1 { 1 } else { g.0.len() }).sum();
    if width == 4 && !(rows.is_empty() && total == 0) {
        let head: Vec<Vec<u8>> = ["ppn", "rule", "level", "message"]
            .iter()
            .map(|s| s.as_bytes().to_vec())
            .collect();
        if rows.is_empty() || rows.remove(0) != head {
            return Err(o.violation("the table has no header"));
        }
    }
    let dups: HashSet<&[u8]> = sets
        .iter()
        .flat_map(|s| s.rules.iter())
        .filter(|r| matches!(r.check, Check::Dup { .. }))
        .map(|r| r.id.as_bytes())
        .collect();
    for r in &mut rows {
        if r.len() != width {
            return Err(o.violation(format!("row with {} columns", r.len())));
        }
        if width == 4 && dups.contains(&r[1][..]) {
            r[3] = sorted(&lossy(&r[3])).into_bytes();
        }
    }
    let mut at = 0;
    for (want, fast) in &groups {
        let mut want: Vec<Vec<Vec<u8>>> =
            want.iter().map(|w| cells(w)[..width].to_vec()).collect();
        let n = if *fast { 1 } else { want.len() };
        let mut have = rows[at.min(rows.len())..(at + n).min(rows.len())].to_vec();
        at += n;
        want.sort();
        have.sort();
        let ok = if *fast {
            have.len() == 1 && want.contains(&have[0])
        } else {
            have == want
        };
        if !ok {
            let show = |v: &[Vec<Vec<u8>>]| -> String {
                v.iter()
                    .map(|r| rec::esc(&csv_row(r, b',', Quote::Necessary)))
                    .collect::<Vec<_>>()
                    .join(" ")
            };
            return Err(o.violation(format!(
                "wrong rows\n  got: {}\n want{}: {}",
                show(&have),
                if *fast { " one of" } else { "" },
                show(&want)
            )));
        }
        env.label_if(*fast && want.len() > 1, "fast-termination-matters");
    }
    if at != rows.len() {
        return Err(o.violation(format!("{} rows more than expected", rows.len() - at)));
    }
    let all: usize = c.sets.iter().map(|s| s.rules.len()).sum();
    let some: usize = sets.iter().map(|s| s.rules.len()).sum();
    env.label_if(some < all, "rules-deselected");
    env.label_if(total == 0 && some > 0 && !recs.is_empty(), "all-rules-satisfied");
    Ok(total > 0 && !recs.is_empty())
}

// --------------------------------------------------------------- broken rules

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BrokenCase {
    case: CheckCase,
    how: usize,
}

fn broken_case() -> BoxedStrategy<BrokenCase> {
    (check_case(), any::<u8>())
        .prop_map(|(case, how)| BrokenCase { case, how: how as usize })
        .boxed()
}

/// Rule sets that mean nothing are rejected.
fn broken(c: &BrokenCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let set = &c.case.sets[0];
    let mut t = set.text(&cli)?;
    let extra = |s: &str| format!("{t}\n[rule.ZZZ]\n{s}\n");
    let mut more: Vec<String> = vec![];
    let bad = [
        "check = 'nothing'\npath = '003@.0'",
        "path = '003@.0'",
        "check = 'datetime'",
        "check = 'datetime'\npath = '003@'",
        "check = 'datetime'\npath = '003@.0'\noffset = 'a'",
        "check = 'filter'\nfilter = '003@.0 =='",
        "check = 'filter'",
        "check = 'filter'\nfilter = '003@?'\nlevel = 'fatal'",
        "check = 'allow'\npath = '003@.0'",
        "check = 'allow'\npath = '003@.0'\nlist = { filename = 'none.csv', column = 'x' }",
        "check = 'duplicates'\nquery = '003@{'",
        "check = 'duplicates'\nquery = '003@.0'\nthreshold = -1",
        "check = 'link'\nsource.path = '003@.0'",
        "check = 'unicode'\nnormalization = 'nfx'",
        "check = 'isni'\npath = '003@.'",
        "check = 'jelc'\npath = 7",
        "check = 'iso639-2b'\npath = '003@.0'\ncase-ignore = 'yes'",
        "check = ",
    ];
    match c.how % (bad.len() + 5) {
        n if n < bad.len() => t = extra(bad[n]),
        n if n == bad.len() => t = format!("scope = '003@ =='\n{}", text_only(&t)),
        n if n == bad.len() + 1 => {
            t = format!("termination = 'slow'\n{}", text_only(&t))
        }
        n if n == bad.len() + 2 => more.extend(args(&["-r", "("])),
        n if n == bad.len() + 3 => more.extend(args(&["-R", "missing.toml"])),
        _ => t = "rule".into(),
    }
    cli.write("rules.toml", &t)?;
    let mut a = args(&["check", "-s", "-R", "rules.toml"]);
    a.extend(more);
    let (files, stdin) = c.case.input.deliver(&cli)?;
    a.push("--".into());
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    o.fails("the rules are invalid")?;
    Ok(true)
}

/// The rules without the settings of the rule set.
fn text_only(t: &str) -> String {
    match t.find("\n[rule.") {
        Some(i) => t[i..].to_string(),
        None => String::new(),
    }
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "the records violate at least one of the selected rules (broken: always)",
        assumptions: &[
            "the reference models of records, expressions, paths and queries",
            "the lists of ISO 639-2/B and JEL codes in harness/data",
            "unicode-normalization implements the four normal forms",
        ],
        subs: vec![
            sub("rules", 12_000, 250_000, check_case, checking),
            sub("rule-options", 6_000, 120_000, option_case, checking),
            sub("values", 8_000, 150_000, value_case, checking),
            sub("volume", 120, 4_000, check_volume, checking),
            sub("code-lists", 64, 2_000, list_case, checking),
            sub("broken", 1_000, 8_000, broken_case, broken),
        ],
    }
}
