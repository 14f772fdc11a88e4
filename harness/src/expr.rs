//! Reference model of filter expressions: AST, concrete syntax, semantics,
//! generators. Nothing here uses the code under test.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::rec::{self, B, Fld, Rec};

// ------------------------------------------------------------------- options

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Opts {
    pub case: bool,
    /// Similarity threshold in percent.
    pub thr: u8,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { case: false, thr: 80 }
    }
}

impl Opts {
    pub fn lib(&self) -> pica_record::prelude::MatcherOptions {
        pica_record::prelude::MatcherOptions::new()
            .case_ignore(self.case)
            .strsim_threshold(self.thr as f64 / 100.0)
    }
}

pub fn opts() -> BoxedStrategy<Opts> {
    (any::<bool>(), select(&[0u8, 25, 50, 60, 66, 70, 75, 80, 90, 99][..]))
        .prop_map(|(case, thr)| Opts { case, thr })
        .boxed()
}

// ------------------------------------------------------------- layout choices

/// Stream of layout choices (whitespace, quote style, escapes); cyclic.
pub struct Lay<'a> {
    d: &'a [u8],
    i: usize,
}

impl<'a> Lay<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Lay { d, i: 0 }
    }
    pub fn next(&mut self) -> u8 {
        if self.d.is_empty() {
            return 0;
        }
        let x = self.d[self.i % self.d.len()];
        self.i += 1;
        x
    }
    /// Optional whitespace; a plain layout gives `def`.
    pub fn ws(&mut self, def: &'static str) -> &'static str {
        match self.next() {
            0..=3 => def,
            4 => "",
            5 => " ",
            6 => "  ",
            7 => "\n",
            8 => "\t",
            _ => " \r\n ",
        }
    }
    /// Mandatory whitespace.
    pub fn sp(&mut self) -> &'static str {
        match self.next() {
            0..=5 => " ",
            6 => "  ",
            7 => "\n",
            8 => "\t",
            _ => " \r\n ",
        }
    }
}

pub fn layout() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 1 => vec(0u8..10, 1..24)].boxed()
}

/// A string literal in concrete syntax.
pub fn lit(s: &str, l: &mut Lay) -> String {
    let style = l.next();
    let q = if style % 2 == 0 { '\'' } else { '"' };
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            c if c == q => {
                o.push('\\');
                o.push(c);
            }
            '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' | '/' => {
                let e = match c {
                    '\n' => 'n',
                    '\r' => 'r',
                    '\t' => 't',
                    '\u{8}' => 'b',
                    '\u{c}' => 'f',
                    _ => '/',
                };
                if l.next() % 3 == 2 {
                    o.push('\\');
                    o.push(e);
                } else {
                    o.push(c);
                }
            }
            c => o.push(c),
        }
        // A backslash followed by whitespace denotes nothing. It must not be
        // followed by literal whitespace, which would be swallowed as well.
        if l.next() == 9 {
            o.push_str("\\ \n");
            o.push_str("\u{0}END");
        }
    }
    o.push(q);
    // Resolve the markers: drop the escape if literal whitespace follows.
    while let Some(p) = o.find("\u{0}END") {
        let after = o[p + 4..].chars().next();
        let drop = after.is_some_and(|c| " \t\r\n".contains(c));
        o.replace_range(p..p + 4, "");
        if drop {
            o.replace_range(p - 3..p, "");
        }
    }
    o
}

// ------------------------------------------------------------ tag / occurrence

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Frag {
    Ch(char),
    Dot,
    List(Vec<(char, Option<char>)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TagPat(pub [Frag; 4]);

impl Frag {
    fn has(&self, c: char) -> bool {
        match self {
            Frag::Ch(x) => *x == c,
            Frag::Dot => true,
            Frag::List(v) => v.iter().any(|(a, b)| match b {
                None => *a == c,
                Some(b) => *a <= c && c <= *b,
            }),
        }
    }
    fn text(&self) -> String {
        match self {
            Frag::Ch(c) => c.to_string(),
            Frag::Dot => ".".into(),
            Frag::List(v) => {
                let mut s = String::from("[");
                for (a, b) in v {
                    s.push(*a);
                    if let Some(b) = b {
                        s.push('-');
                        s.push(*b);
                    }
                }
                s.push(']');
                s
            }
        }
    }
}

impl TagPat {
    pub fn exact(t: &str) -> Self {
        let c: Vec<char> = t.chars().collect();
        TagPat([Frag::Ch(c[0]), Frag::Ch(c[1]), Frag::Ch(c[2]), Frag::Ch(c[3])])
    }
    pub fn text(&self) -> String {
        self.0.iter().map(Frag::text).collect()
    }
    pub fn is_match(&self, tag: &str) -> bool {
        tag.chars().zip(self.0.iter()).all(|(c, f)| f.has(c))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum OccPat {
    None,
    ZeroZero,
    Any,
    Exact(String),
    Range(String, String),
}

impl OccPat {
    pub fn text(&self) -> String {
        match self {
            OccPat::None => "".into(),
            OccPat::ZeroZero => "/00".into(),
            OccPat::Any => "/*".into(),
            OccPat::Exact(s) => format!("/{s}"),
            OccPat::Range(a, b) => format!("/{a}-{b}"),
        }
    }
    pub fn is_match(&self, occ: Option<&str>) -> bool {
        match self {
            OccPat::None | OccPat::ZeroZero => occ.is_none_or(|o| o == "00"),
            OccPat::Any => true,
            OccPat::Exact(s) => occ == Some(s),
            OccPat::Range(a, b) => occ.is_some_and(|o| {
                o.len() == a.len() && {
                    let n = |s: &str| s.parse::<u32>().unwrap();
                    n(a) <= n(o) && n(o) <= n(b)
                }
            }),
        }
    }
}

fn frag(alpha: &'static str) -> BoxedStrategy<Frag> {
    let cs: Vec<char> = alpha.chars().collect();
    let mut sorted = cs.clone();
    sorted.sort();
    let one = select(cs.clone()).prop_map(|c| (c, None));
    let n = sorted.len();
    let range = (0..n - 1).prop_flat_map(move |a| {
        let s = sorted.clone();
        (a + 1..n).prop_map(move |b| (s[a], Some(s[b])))
    });
    prop_oneof![
        4 => select(cs).prop_map(Frag::Ch),
        2 => Just(Frag::Dot),
        3 => vec(prop_oneof![one, range], 1..4).prop_map(Frag::List),
    ]
    .boxed()
}

pub fn tag_pat() -> BoxedStrategy<TagPat> {
    let free = (
        frag("012"),
        frag("0123456789"),
        frag("0123456789"),
        frag("ABCDEFGHIJKLMNOPQRSTUVWXYZ@"),
    )
        .prop_map(|(a, b, c, d)| TagPat([a, b, c, d]));
    // Patterns derived from a known tag, with some positions generalised.
    let near = (rec::tag(), vec(0u8..6, 4)).prop_map(|(t, g)| {
        let c: Vec<char> = t.chars().collect();
        let f = |i: usize| match g[i] {
            0 => Frag::Dot,
            1 => Frag::List(vec![(c[i], None), ("2299"[i..].chars().next().unwrap(), None)])
                .fix(i),
            _ => Frag::Ch(c[i]),
        };
        TagPat([f(0), f(1), f(2), f(3)])
    });
    prop_oneof![
        8 => rec::tag().prop_map(|t| TagPat::exact(&t)),
        4 => near,
        1 => free,
    ]
    .boxed()
}

impl Frag {
    /// Keeps lists valid for their position (letters in the last one).
    fn fix(self, pos: usize) -> Self {
        match self {
            Frag::List(mut v) if pos == 3 => {
                v[1] = ('@', Some('B'));
                // `@-B` covers `@`, `A`, `B`.
                Frag::List(v)
            }
            f => f,
        }
    }
}

pub fn occ_pat() -> BoxedStrategy<OccPat> {
    prop_oneof![
        8 => Just(OccPat::None),
        1 => Just(OccPat::ZeroZero),
        4 => Just(OccPat::Any),
        3 => occ_str().prop_filter_map("00", |s| (s != "00")
            .then_some(OccPat::Exact(s))),
        3 => occ_range(),
    ]
    .boxed()
}

pub fn occ_str() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(rec::OCCS).prop_map(|s| s.to_string()),
        1 => "[0-9]{2,3}",
    ]
    .boxed()
}

pub fn occ_range() -> BoxedStrategy<OccPat> {
    let pool = |p: &'static [&'static str]| {
        (0..p.len() - 1).prop_flat_map(move |a| {
            (a + 1..p.len()).prop_map(move |b| {
                OccPat::Range(p[a].to_string(), p[b].to_string())
            })
        })
    };
    prop_oneof![
        3 => pool(&["00", "01", "02", "03", "09", "10", "11", "99"]),
        1 => pool(&["000", "001", "010", "021", "100", "999"]),
        1 => (0u32..99).prop_flat_map(|a| (a + 1..100).prop_map(move |b| {
            OccPat::Range(format!("{a:02}"), format!("{b:02}"))
        })),
        1 => (0u32..999).prop_flat_map(|a| (a + 1..1000).prop_map(move |b| {
            OccPat::Range(format!("{a:03}"), format!("{b:03}"))
        })),
    ]
    .boxed()
}

// --------------------------------------------------------------- subfield codes

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Codes {
    One(char),
    List(Vec<(char, Option<char>)>),
    Star,
    /// `$abc` (compat); only where the grammar has it.
    Compat(Vec<char>),
    CompatStar,
}

impl Codes {
    pub fn has(&self, c: char) -> bool {
        match self {
            Codes::One(x) => *x == c,
            Codes::List(v) => v.iter().any(|(a, b)| match b {
                None => *a == c,
                Some(b) => *a <= c && c <= *b,
            }),
            Codes::Star | Codes::CompatStar => true,
            Codes::Compat(v) => v.contains(&c),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Codes::One(c) => c.to_string(),
            Codes::List(v) => Frag::List(v.clone()).text(),
            Codes::Star => "*".into(),
            Codes::Compat(v) => format!("${}", v.iter().collect::<String>()),
            Codes::CompatStar => "$*".into(),
        }
    }
}

fn code_item() -> BoxedStrategy<(char, Option<char>)> {
    prop_oneof![
        4 => select(&['a', 'b', 'c', '0', 'x', 'A'][..]).prop_map(|c| (c, None)),
        1 => rec::code().prop_map(|c| (c, None)),
        2 => select(&[('a', 'c'), ('b', 'z'), ('A', 'Z'), ('0', '9'), ('b', 'c'),
                ('0', '1'), ('x', 'z')][..])
            .prop_map(|(a, b)| (a, Some(b))),
    ]
    .boxed()
}

/// Codes in the plain syntax.
pub fn codes() -> BoxedStrategy<Codes> {
    prop_oneof![
        6 => select(&['a', 'a', 'b', 'c', '0', 'x'][..]).prop_map(Codes::One),
        1 => rec::code().prop_map(Codes::One),
        3 => vec(code_item(), 1..4).prop_map(Codes::List),
        2 => Just(Codes::Star),
    ]
    .boxed()
}

/// Codes in the plain or the compat syntax.
pub fn codes_compat() -> BoxedStrategy<Codes> {
    prop_oneof![
        8 => codes(),
        1 => vec(select(&['a', 'b', 'c', '0', 'x'][..]), 1..4)
            .prop_map(Codes::Compat),
        1 => Just(Codes::CompatStar),
    ]
    .boxed()
}

// ------------------------------------------------------------- subfield matchers

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Q {
    Default,
    Any,
    All,
}

impl Q {
    pub fn text(&self, l: &mut Lay) -> String {
        match self {
            Q::Default => "".into(),
            Q::Any => format!("ANY{}", l.sp()),
            Q::All => format!("ALL{}", l.sp()),
        }
    }
    pub fn eval<T>(
        &self,
        items: impl Iterator<Item = T>,
        mut f: impl FnMut(T) -> bool,
    ) -> bool {
        let v: Vec<bool> = items.map(&mut f).collect();
        match self {
            Q::All => v.iter().all(|x| *x),
            _ => v.iter().any(|x| *x),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rel {
    Eq,
    Ne,
    Starts,
    NotStarts,
    Ends,
    NotEnds,
    Similar,
}

impl Rel {
    pub fn text(&self) -> &'static str {
        match self {
            Rel::Eq => "==",
            Rel::Ne => "!=",
            Rel::Starts => "=^",
            Rel::NotStarts => "!^",
            Rel::Ends => "=$",
            Rel::NotEnds => "!$",
            Rel::Similar => "=*",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cmp {
    Eq,
    Ne,
    Gt,
    Ge,
    Lt,
    Le,
}

impl Cmp {
    pub fn text(&self) -> &'static str {
        match self {
            Cmp::Eq => "==",
            Cmp::Ne => "!=",
            Cmp::Gt => ">",
            Cmp::Ge => ">=",
            Cmp::Lt => "<",
            Cmp::Le => "<=",
        }
    }
    pub fn eval(&self, a: usize, b: usize) -> bool {
        match self {
            Cmp::Eq => a == b,
            Cmp::Ne => a != b,
            Cmp::Gt => a > b,
            Cmp::Ge => a >= b,
            Cmp::Lt => a < b,
            Cmp::Le => a <= b,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SubM {
    Exists(Codes),
    Rel(Q, Codes, Rel, String),
    /// Values; brackets; trailing comma.
    Contains(Q, Codes, Vec<String>, bool, bool),
    Regex(Q, Codes, bool, String),
    RegexSet(Q, Codes, bool, Vec<String>, bool),
    In(Q, Codes, bool, Vec<String>, bool),
    /// `in "abc"`: one-character values.
    InChars(Q, Codes, bool, String),
    Card(Codes, Cmp, usize),
}

/// Lower-casing by code point; invalid bytes stay as they are.
pub fn lower(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for chunk in b.utf8_chunks() {
        for c in chunk.valid().chars() {
            o.extend(c.to_lowercase().collect::<String>().as_bytes());
        }
        o.extend_from_slice(chunk.invalid());
    }
    o
}

pub fn upper(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for chunk in b.utf8_chunks() {
        for c in chunk.valid().chars() {
            o.extend(c.to_uppercase().collect::<String>().as_bytes());
        }
        o.extend_from_slice(chunk.invalid());
    }
    o
}

fn fold(b: &[u8], o: &Opts) -> Vec<u8> {
    if o.case { lower(b) } else { b.to_vec() }
}

fn has_sub(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}

/// Textbook Levenshtein distance over characters.
pub fn lev(a: &[char], b: &[char]) -> usize {
    let mut prev: Vec<usize> = (0..=b.len()).collect();
    for (i, x) in a.iter().enumerate() {
        let mut cur = vec![i + 1];
        for (j, y) in b.iter().enumerate() {
            let c = (prev[j] + usize::from(x != y))
                .min(prev[j + 1] + 1)
                .min(cur[j] + 1);
            cur.push(c);
        }
        prev = cur;
    }
    prev[b.len()]
}

fn similar(a: &[u8], b: &[u8], o: &Opts) -> bool {
    let conv = |x: &[u8]| -> Vec<char> {
        let s = String::from_utf8_lossy(x).to_string();
        let s = if o.case { s.to_lowercase() } else { s };
        s.chars().collect()
    };
    let (a, b) = (conv(a), conv(b));
    let n = a.len().max(b.len());
    let score = if n == 0 {
        1.0
    } else {
        1.0 - (lev(&a, &b) as f64) / (n as f64)
    };
    score > o.thr as f64 / 100.0
}

pub fn regex_hit(re: &str, v: &[u8], case: bool) -> bool {
    regex::bytes::RegexBuilder::new(re)
        .case_insensitive(case)
        .build()
        .expect("generated regex is valid")
        .is_match(v)
}

impl SubM {
    pub fn text(&self, l: &mut Lay) -> String {
        let list = |v: &Vec<String>, trail: bool, l: &mut Lay| {
            let mut s = format!("[{}", l.ws(""));
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push_str(l.ws(""));
                    s.push(',');
                    s.push_str(l.ws(" "));
                }
                s.push_str(&lit(x, l));
            }
            if trail {
                s.push_str(l.ws(""));
                s.push(',');
            }
            s.push_str(l.ws(""));
            s.push(']');
            s
        };
        match self {
            SubM::Exists(c) => format!("{}?", c.text()),
            SubM::Rel(q, c, r, v) => format!(
                "{}{}{}{}{}{}",
                q.text(l),
                c.text(),
                l.ws(" "),
                r.text(),
                l.ws(" "),
                lit(v, l)
            ),
            SubM::Contains(q, c, v, br, tr) => format!(
                "{}{}{}=?{}{}",
                q.text(l),
                c.text(),
                l.ws(" "),
                l.ws(" "),
                if *br || v.len() > 1 { list(v, *tr, l) } else { lit(&v[0], l) }
            ),
            SubM::Regex(q, c, inv, re) => format!(
                "{}{}{}{}{}{}",
                q.text(l),
                c.text(),
                l.ws(" "),
                if *inv { "!~" } else { "=~" },
                l.ws(" "),
                lit(re, l)
            ),
            SubM::RegexSet(q, c, inv, re, tr) => format!(
                "{}{}{}{}{}{}",
                q.text(l),
                c.text(),
                l.ws(" "),
                if *inv { "!~" } else { "=~" },
                l.ws(" "),
                list(re, *tr, l)
            ),
            SubM::In(q, c, not, v, tr) => format!(
                "{}{}{}{}in{}{}",
                q.text(l),
                c.text(),
                l.sp(),
                if *not { format!("not{}", l.sp()) } else { "".into() },
                l.ws(" "),
                list(v, *tr, l)
            ),
            SubM::InChars(q, c, not, v) => format!(
                "{}{}{}{}in{}{}",
                q.text(l),
                c.text(),
                l.sp(),
                if *not { format!("not{}", l.sp()) } else { "".into() },
                l.ws(" "),
                lit(v, l)
            ),
            SubM::Card(c, o, n) => format!(
                "#{}{}{}{}{}{}",
                l.ws(""),
                c.text(),
                l.ws(" "),
                o.text(),
                l.ws(" "),
                n
            ),
        }
    }

    pub fn eval(&self, subs: &[(char, B)], o: &Opts) -> bool {
        let sel = |c: &Codes| -> Vec<&Vec<u8>> {
            subs.iter().filter(|(x, _)| c.has(*x)).map(|(_, v)| &v.0).collect()
        };
        match self {
            SubM::Exists(c) => !sel(c).is_empty(),
            SubM::Rel(q, c, r, s) => {
                let s = s.as_bytes();
                q.eval(sel(c).into_iter(), |v| {
                    let (fv, fs) = (fold(v, o), fold(s, o));
                    match r {
                        Rel::Eq => fv == fs,
                        Rel::Ne => fv != fs,
                        Rel::Starts => fv.starts_with(&fs),
                        Rel::NotStarts => !fv.starts_with(&fs),
                        Rel::Ends => fv.ends_with(&fs),
                        Rel::NotEnds => !fv.ends_with(&fs),
                        Rel::Similar => similar(s, v, o),
                    }
                })
            }
            SubM::Contains(q, c, ns, ..) => {
                q.eval(sel(c).into_iter(), |v| {
                    ns.iter()
                        .any(|n| has_sub(&fold(v, o), &fold(n.as_bytes(), o)))
                })
            }
            SubM::Regex(q, c, inv, re) => {
                q.eval(sel(c).into_iter(), |v| regex_hit(re, v, o.case) != *inv)
            }
            SubM::RegexSet(q, c, inv, res, _) => {
                q.eval(sel(c).into_iter(), |v| {
                    res.iter().any(|re| regex_hit(re, v, o.case)) != *inv
                })
            }
            SubM::In(q, c, not, vs, _) => q.eval(sel(c).into_iter(), |v| {
                vs.iter().any(|x| fold(v, o) == fold(x.as_bytes(), o)) != *not
            }),
            SubM::InChars(q, c, not, s) => q.eval(sel(c).into_iter(), |v| {
                s.chars()
                    .any(|x| fold(v, o) == fold(x.to_string().as_bytes(), o))
                    != *not
            }),
            SubM::Card(c, op, n) => op.eval(sel(c).len(), *n),
        }
    }

    fn is_exists(&self) -> bool {
        matches!(self, SubM::Exists(_))
    }
}

fn q() -> BoxedStrategy<Q> {
    prop_oneof![3 => Just(Q::Default), 1 => Just(Q::Any), 2 => Just(Q::All)]
        .boxed()
}

/// Text for a string literal: mostly from the pool of values.
pub fn needle() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(rec::VALUES).prop_map(|s| s.to_string()),
        1 => vec(select(&['a', 'b', 'c', 'A', ' ', 'ä', '\n', '\\', '\'', '"'][..]), 0..6)
            .prop_map(|v| v.into_iter().collect::<String>()),
        1 => "[ -~]{0,6}",
        1 => vec(any::<char>(), 0..4).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

fn regex_text() -> BoxedStrategy<String> {
    select(
        &[
            "a", "^a", "a$", "^abc$", "b.", "[ab]+", "^[A-Z]", "\\d+", "^$",
            "a|b", "(?i)ABC", "ä", "^.{3}$", "\\.", "x*", "^(abc)+$", "\\s",
            "[^a]", "\\w+ \\w+", "B(a|ä)um", "\"", "'", "\\$", "K", "ß", "\\bDer",
        ][..],
    )
    .prop_map(|s| s.to_string())
    .boxed()
}

fn rel() -> BoxedStrategy<Rel> {
    select(
        &[
            Rel::Eq,
            Rel::Eq,
            Rel::Ne,
            Rel::Starts,
            Rel::NotStarts,
            Rel::Ends,
            Rel::NotEnds,
            Rel::Similar,
        ][..],
    )
    .boxed()
}

pub const CMPS: [Cmp; 6] = [Cmp::Eq, Cmp::Ne, Cmp::Gt, Cmp::Ge, Cmp::Lt, Cmp::Le];

pub fn cmp() -> BoxedStrategy<Cmp> {
    select(&CMPS[..]).boxed()
}

pub fn sub_matcher() -> BoxedStrategy<SubM> {
    prop_oneof![
        2 => codes().prop_map(SubM::Exists),
        6 => (q(), codes_compat(), rel(), needle())
            .prop_map(|(q, c, r, s)| SubM::Rel(q, c, r, s)),
        2 => (q(), codes_compat(), vec(needle(), 1..4), any::<bool>(), any::<bool>())
            .prop_map(|(q, c, v, b, t)| SubM::Contains(q, c, v, b, t)),
        2 => (q(), codes(), any::<bool>(), regex_text())
            .prop_map(|(q, c, i, r)| SubM::Regex(q, c, i, r)),
        1 => (q(), codes(), any::<bool>(), vec(regex_text(), 1..4), any::<bool>())
            .prop_map(|(q, c, i, r, t)| SubM::RegexSet(q, c, i, r, t)),
        3 => (q(), codes(), any::<bool>(), vec(needle(), 1..4), any::<bool>())
            .prop_map(|(q, c, i, r, t)| SubM::In(q, c, i, r, t)),
        1 => (q(), codes(), any::<bool>(),
              vec(select(&['a', 'A', 'b', 'K', 'k', 'ß', 'ä', '0', '1', ' ', '$'][..]), 2..5))
            .prop_map(|(q, c, i, r)| SubM::InChars(q, c, i, r.into_iter().collect())),
        2 => (codes(), cmp(), 0usize..5).prop_map(|(c, o, n)| SubM::Card(c, o, n)),
    ]
    .boxed()
}

// ------------------------------------------------------- Boolean combinations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Bop {
    And,
    Xor,
    Or,
}

/// Boolean expression over atoms.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ex<A> {
    Atom(A),
    /// Redundant parentheses.
    Group(Box<Ex<A>>),
    Not(Box<Ex<A>>),
    Bin(Bop, Vec<Ex<A>>),
}

pub trait Atom: Clone {
    type Ctx;
    fn text(&self, l: &mut Lay) -> String;
    fn eval(&self, ctx: &Self::Ctx, o: &Opts) -> bool;
    /// May the negation sign be put in front of it directly?
    fn negatable(&self) -> bool;
}

impl Atom for SubM {
    type Ctx = Vec<(char, B)>;
    fn text(&self, l: &mut Lay) -> String {
        SubM::text(self, l)
    }
    fn eval(&self, ctx: &Self::Ctx, o: &Opts) -> bool {
        SubM::eval(self, ctx, o)
    }
    fn negatable(&self) -> bool {
        self.is_exists()
    }
}

impl<A: Atom> Ex<A> {
    fn prec(&self) -> u8 {
        match self {
            Ex::Bin(Bop::Or, _) => 0,
            Ex::Bin(Bop::Xor, _) => 1,
            Ex::Bin(Bop::And, _) => 2,
            _ => 3,
        }
    }

    pub fn text(&self, l: &mut Lay) -> String {
        match self {
            Ex::Atom(a) => a.text(l),
            Ex::Group(e) => {
                let (a, b) = (l.ws(""), l.ws(""));
                format!("({a}{}{b})", e.text(l))
            }
            Ex::Not(e) => {
                let direct = match &**e {
                    Ex::Atom(a) => a.negatable(),
                    Ex::Bin(..) => false,
                    _ => true,
                };
                let ws = l.ws("");
                if direct {
                    format!("!{ws}{}", e.text(l))
                } else {
                    format!("!{ws}({})", e.text(l))
                }
            }
            Ex::Bin(op, v) => {
                let me = self.prec();
                let mut s = String::new();
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        let o = match op {
                            Bop::And => "&&",
                            Bop::Or => "||",
                            Bop::Xor => {
                                if l.next() % 2 == 0 {
                                    "^"
                                } else {
                                    "XOR"
                                }
                            }
                        };
                        if o == "XOR" {
                            s.push_str(l.sp());
                            s.push_str(o);
                            s.push_str(l.sp());
                        } else {
                            s.push_str(l.ws(" "));
                            s.push_str(o);
                            s.push_str(l.ws(" "));
                        }
                    }
                    if e.prec() <= me {
                        s.push('(');
                        s.push_str(&e.text(l));
                        s.push(')');
                    } else {
                        s.push_str(&e.text(l));
                    }
                }
                s
            }
        }
    }

    pub fn eval(&self, ctx: &A::Ctx, o: &Opts) -> bool {
        match self {
            Ex::Atom(a) => a.eval(ctx, o),
            Ex::Group(e) => e.eval(ctx, o),
            Ex::Not(e) => !e.eval(ctx, o),
            Ex::Bin(op, v) => {
                let mut it = v.iter().map(|e| e.eval(ctx, o));
                let first = it.next().unwrap();
                it.fold(first, |acc, x| match op {
                    Bop::And => acc & x,
                    Bop::Or => acc | x,
                    Bop::Xor => acc ^ x,
                })
            }
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Ex::Atom(_) => 1,
            Ex::Group(e) | Ex::Not(e) => 1 + e.size(),
            Ex::Bin(_, v) => 1 + v.iter().map(|e| e.size()).sum::<usize>(),
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Ex::Atom(_) => 0,
            Ex::Group(e) | Ex::Not(e) => 1 + e.depth(),
            Ex::Bin(_, v) => 1 + v.iter().map(|e| e.depth()).max().unwrap(),
        }
    }

    pub fn each_atom(&mut self, f: &mut dyn FnMut(&mut A)) {
        match self {
            Ex::Atom(a) => f(a),
            Ex::Group(e) | Ex::Not(e) => e.each_atom(f),
            Ex::Bin(_, v) => v.iter_mut().for_each(|e| e.each_atom(f)),
        }
    }
    pub fn atoms<'a>(&'a self, out: &mut Vec<&'a A>) {
        match self {
            Ex::Atom(a) => out.push(a),
            Ex::Group(e) | Ex::Not(e) => e.atoms(out),
            Ex::Bin(_, v) => v.iter().for_each(|e| e.atoms(out)),
        }
    }
}

/// Cardinalities for records with hundreds of fields or subfields.
pub fn large_cards(e: &mut FldEx, mix: usize) {
    let num = |n: &mut usize, k: usize| {
        let s = crate::rec::SIZES[(mix + k) % 9];
        *n = s / [1, 1, 2, 3, 4][(mix / 9 + k) % 5];
    };
    let mut k = mix % 3;
    let sub = |e: &mut SubEx, k: usize| {
        e.each_atom(&mut |a| {
            if let SubM::Card(_, _, n) = a {
                num(n, k)
            }
        })
    };
    e.each_atom(&mut |a| {
        k += 1;
        match a {
            FldM::Card(_, _, e, _, n) => {
                num(n, k);
                if let Some(e) = e {
                    sub(e, k)
                }
            }
            FldM::Bracket(_, _, _, e) => sub(e, k),
            FldM::Dot(_, _, _, SubM::Card(_, _, n), _) => num(n, k),
            _ => {}
        }
    });
}

pub fn ex<A>(atom: BoxedStrategy<A>, depth: u32, size: u32) -> BoxedStrategy<Ex<A>>
where
    A: Clone + std::fmt::Debug + 'static,
{
    atom.prop_map(Ex::Atom)
        .prop_recursive(depth, size, 3, |inner| {
            prop_oneof![
                1 => inner.clone().prop_map(|e| Ex::Group(Box::new(e))),
                2 => inner.clone().prop_map(|e| Ex::Not(Box::new(e))),
                6 => (
                    select(&[Bop::And, Bop::Xor, Bop::Or][..]),
                    vec(inner, 2..4)
                )
                    .prop_map(|(o, v)| Ex::Bin(o, v)),
            ]
        })
        .boxed()
}

pub type SubEx = Ex<SubM>;

pub fn sub_ex() -> BoxedStrategy<SubEx> {
    prop_oneof![
        3 => sub_matcher().prop_map(Ex::Atom),
        2 => ex(sub_matcher(), 3, 6),
    ]
    .boxed()
}

// --------------------------------------------------------------- field matchers

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FldM {
    Exists(TagPat, OccPat),
    /// `TAG.a == 'x'` or, with the flag, `TAG$a == 'x'`.
    Dot(Q, TagPat, OccPat, SubM, bool),
    Bracket(Q, TagPat, OccPat, SubEx),
    Card(TagPat, OccPat, Option<SubEx>, Cmp, usize),
}

impl Atom for FldM {
    type Ctx = Rec;
    fn text(&self, l: &mut Lay) -> String {
        match self {
            FldM::Exists(t, o) => format!("{}{}{}?", t.text(), o.text(), l.ws("")),
            FldM::Dot(q, t, o, m, dollar) => format!(
                "{}{}{}{}{}",
                q.text(l),
                t.text(),
                o.text(),
                if *dollar { "$" } else { "." },
                m.text(l)
            ),
            FldM::Bracket(q, t, o, e) => format!(
                "{}{}{}{}{{{}{}{}}}",
                q.text(l),
                t.text(),
                o.text(),
                l.ws(""),
                l.ws(" "),
                e.text(l),
                l.ws(" ")
            ),
            FldM::Card(t, o, e, c, n) => format!(
                "#{}{}{}{}{}{}{}{}",
                l.ws(""),
                t.text(),
                o.text(),
                match e {
                    None => String::new(),
                    Some(e) => format!(
                        "{}{{{}{}{}}}",
                        l.ws(""),
                        l.ws(" "),
                        e.text(l),
                        l.ws(" ")
                    ),
                },
                l.ws(" "),
                c.text(),
                l.ws(" "),
                n
            ),
        }
    }
    fn eval(&self, r: &Rec, opt: &Opts) -> bool {
        let sel = |t: &TagPat, o: &OccPat| -> Vec<&Fld> {
            r.0.iter()
                .filter(|f| t.is_match(&f.tag) && o.is_match(f.occ.as_deref()))
                .collect()
        };
        match self {
            FldM::Exists(t, o) => !sel(t, o).is_empty(),
            FldM::Dot(q, t, o, m, _) => {
                q.eval(sel(t, o).into_iter(), |f| m.eval(&f.subs, opt))
            }
            FldM::Bracket(q, t, o, e) => {
                q.eval(sel(t, o).into_iter(), |f| e.eval(&f.subs, opt))
            }
            FldM::Card(t, o, e, c, n) => {
                let k = sel(t, o)
                    .into_iter()
                    .filter(|f| e.as_ref().is_none_or(|e| e.eval(&f.subs, opt)))
                    .count();
                c.eval(k, *n)
            }
        }
    }
    fn negatable(&self) -> bool {
        match self {
            FldM::Exists(..) => true,
            FldM::Dot(_, _, _, m, _) => m.is_exists(),
            FldM::Bracket(..) => true,
            FldM::Card(..) => false,
        }
    }
}

pub type FldEx = Ex<FldM>;

// ------------------------------------------------- conditions on real values

/// A matcher made from a value of one of the records, whose result depends on
/// the options: the letters' case is flipped, or a few characters are edited.
pub fn sharp(recs: &[Rec], mix: u64) -> Option<(TagPat, OccPat, SubM)> {
    let at = |k: u32, n: usize| (mix >> k) as usize % n;
    let vals: Vec<(&Fld, char, String)> = recs
        .iter()
        .flat_map(|r| r.0.iter())
        .flat_map(|f| {
            f.subs
                .iter()
                // not too large for a regular expression
                .filter(|(_, v)| (1..64).contains(&v.0.len()))
                .filter(|(_, v)| v.is_utf8() && !v.0.contains(&0))
                .map(move |(c, v)| (f, *c, v.lossy()))
        })
        .collect();
    if vals.is_empty() {
        return None;
    }
    let (f, code, v) = &vals[at(0, vals.len())];
    let flip = |c: char| -> String {
        if c.is_lowercase() {
            c.to_uppercase().collect()
        } else {
            c.to_lowercase().collect()
        }
    };
    let text: String = match at(16, 4) {
        0 => v.clone(),
        1 => v.chars().map(flip).collect(),
        2 => String::from_utf8(upper(v.as_bytes())).ok()?,
        _ => String::from_utf8(lower(v.as_bytes())).ok()?,
    };
    let chars: Vec<char> = text.chars().collect();
    let part = |from: usize, to: usize| chars[from..to].iter().collect::<String>();
    let n = chars.len();
    let q = [Q::Default, Q::Any, Q::All][at(20, 3)];
    let c = Codes::One(*code);
    let cut = 1 + at(24, n);
    let not = at(32, 3) == 0;
    let m = match at(36, 10) {
        0 => SubM::Rel(q, c, Rel::Eq, text),
        1 => SubM::Rel(q, c, Rel::Ne, text),
        2 => {
            let r = if not { Rel::NotStarts } else { Rel::Starts };
            SubM::Rel(q, c, r, part(0, cut))
        }
        3 => {
            let r = if not { Rel::NotEnds } else { Rel::Ends };
            SubM::Rel(q, c, r, part(n - cut, n))
        }
        4 => {
            let from = at(40, n);
            SubM::Contains(q, c, vec![part(from, n.min(from + cut))], false, false)
        }
        5 => SubM::Regex(q, c, not, format!("^{}", regex::escape(&part(0, cut)))),
        6 => {
            let re = regex::escape(&part(n - cut, n));
            SubM::RegexSet(q, c, not, vec!["^\u{1}$".into(), format!("{re}$")], false)
        }
        7 => SubM::In(q, c, not, vec!["x y".into(), text], false),
        _ => {
            // similar up to some edits
            let mut t = chars.clone();
            for k in 0..at(44, 4) {
                let i = at(48 + k as u32 * 3, t.len().max(1));
                match at(46 + k as u32, 3) {
                    0 if !t.is_empty() => t[i] = '_',
                    1 if !t.is_empty() => {
                        t.remove(i);
                    }
                    _ => t.insert(i, '_'),
                }
            }
            SubM::Rel(q, c, Rel::Similar, t.into_iter().collect())
        }
    };
    Some((TagPat::exact(&f.tag), OccPat::Any, m))
}

/// The same as an expression over records.
pub fn sharp_ex(recs: &[Rec], mix: u64) -> Option<FldEx> {
    let (t, o, m) = sharp(recs, mix)?;
    let q = [Q::Default, Q::Default, Q::Any, Q::All][(mix >> 60) as usize % 4];
    Some(if (mix >> 58) % 3 == 0 {
        Ex::Atom(FldM::Bracket(q, t, o, Ex::Atom(m)))
    } else {
        Ex::Atom(FldM::Dot(q, t, o, m, false))
    })
}


/// Tag pattern that often hits the dense record generator.
fn tag_hit() -> BoxedStrategy<TagPat> {
    prop_oneof![
        6 => select(&["012A", "012A", "012B", "013A", "003@", "145Z", "209A"][..])
            .prop_map(TagPat::exact),
        2 => select(&["012.", "01[2-3]A", "...@", "....", "[02]...", "012[AB]",
                "0..[A-C]"][..])
            .prop_map(|s| parse_tag_pat(s).expect("valid pattern")),
        1 => tag_pat(),
    ]
    .boxed()
}

pub fn parse_tag_pat(s: &str) -> Option<TagPat> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        match c[i] {
            '.' => {
                v.push(Frag::Dot);
                i += 1;
            }
            '[' => {
                let mut items = vec![];
                i += 1;
                while *c.get(i)? != ']' {
                    if c.get(i + 1) == Some(&'-') {
                        items.push((c[i], Some(*c.get(i + 2)?)));
                        i += 3;
                    } else {
                        items.push((c[i], None));
                        i += 1;
                    }
                }
                i += 1;
                v.push(Frag::List(items));
            }
            x => {
                v.push(Frag::Ch(x));
                i += 1;
            }
        }
    }
    v.try_into().ok().map(TagPat)
}

pub fn fld_matcher() -> BoxedStrategy<FldM> {
    let dot = (q(), tag_hit(), occ_pat(), sub_matcher(), 0u8..8).prop_map(
        |(q, t, o, m, d)| {
            FldM::Dot(q, t, o, m, d == 0)
        },
    );
    prop_oneof![
        2 => (tag_hit(), occ_pat()).prop_map(|(t, o)| FldM::Exists(t, o)),
        6 => dot,
        5 => (q(), tag_hit(), occ_pat(), sub_ex())
            .prop_map(|(q, t, o, e)| FldM::Bracket(q, t, o, e)),
        2 => (tag_hit(), occ_pat(), proptest::option::of(sub_ex()), cmp(), 0usize..4)
            .prop_map(|(t, o, e, c, n)| FldM::Card(t, o, e, c, n)),
    ]
    .boxed()
}

pub fn fld_ex() -> BoxedStrategy<FldEx> {
    prop_oneof![
        2 => fld_matcher().prop_map(Ex::Atom),
        3 => ex(fld_matcher(), 3, 8),
    ]
    .boxed()
}

/// Text in the plain layout.
pub fn plain<A: Atom>(e: &Ex<A>) -> String {
    e.text(&mut Lay::new(&[]))
}
