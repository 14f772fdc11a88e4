//! N01: arbitrary input never crashes the parsers or evaluators.

use pica_record::matcher::{field, subfield};
use pica_record::prelude::*;
use pica_record::primitives as p;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use super::matchers::{EXPR_TOKENS, texts};
use crate::expr::{self, Opts};
use crate::mutate;
use crate::rec::{self, B, Rec};
use crate::runner::{Env, Property, Res, bad, no_panic, sub};

/// Everything that was accepted, evaluated on one record.
fn exercise(r: &ByteRecord, ms: &Parsed, o: &Opts) -> usize {
    let lib = o.lib();
    let mut n = 0;
    for m in &ms.record {
        n += m.is_match(r, &lib) as usize;
        n += (!m.clone()).is_match(r, &lib) as usize;
        n += (m.clone() & m.clone() | !m.clone() ^ m.clone())
            .is_match(r, &lib) as usize;
    }
    for m in &ms.field {
        n += m.is_match(r.fields(), &lib) as usize;
    }
    for m in &ms.subfield {
        for f in r.fields() {
            n += m.is_match(f.subfields(), &lib) as usize;
        }
    }
    for x in &ms.path {
        n += r.path(x, &lib).count();
        n += r.first(x, &lib).is_some() as usize;
    }
    for x in &ms.query {
        // The result is a product; keep it small.
        if r.fields().len() <= 8 && ms.query.len() < 4 {
            for (squash, merge) in [(false, false), (true, false), (false, true)]
            {
                let q = QueryOptions::new()
                    .case_ignore(o.case)
                    .strsim_threshold(o.thr as f64 / 100.0)
                    .squash(squash)
                    .merge(merge)
                    // No warnings on stderr.
                    .separator("");
                n += r.query(x, &q).into_inner().len();
            }
        }
    }
    for x in &ms.format {
        for strip in [false, true] {
            let f = FormatOptions::new()
                .case_ignore(o.case)
                .strsim_threshold(o.thr as f64 / 100.0)
                .strip_overread_char(strip);
            n += r.format(x, &f).count();
        }
    }
    for f in r.fields() {
        for m in &ms.tag {
            n += m.is_match(f.tag()) as usize;
        }
        for m in &ms.occ {
            n += m.is_match(f.occurrence()) as usize;
        }
    }
    n
}

#[derive(Default)]
struct Parsed {
    record: Vec<RecordMatcher>,
    field: Vec<FieldMatcher>,
    subfield: Vec<SubfieldMatcher>,
    path: Vec<Path>,
    query: Vec<Query>,
    format: Vec<Format>,
    tag: Vec<TagMatcher>,
    occ: Vec<OccurrenceMatcher>,
    accepted: usize,
}

impl Parsed {
    /// Feeds the text to every parser.
    fn add(&mut self, t: &str) {
        macro_rules! take {
            ($v:expr, $e:expr) => {
                if let Ok(x) = $e {
                    self.accepted += 1;
                    let _ = x.to_string();
                    $v.push(x);
                }
            };
        }
        take!(self.record, RecordMatcher::new(t));
        take!(self.field, FieldMatcher::new(t));
        take!(self.subfield, SubfieldMatcher::new(t));
        take!(self.path, Path::new(t));
        take!(self.query, Query::new(t));
        take!(self.format, Format::new(t));
        take!(self.tag, TagMatcher::new(t));
        take!(self.occ, OccurrenceMatcher::new(t));
        let others = [
            subfield::ExistsMatcher::new(t).map(|m| m.to_string()),
            subfield::RelationMatcher::new(t).map(|m| m.to_string()),
            subfield::ContainsMatcher::new(t).map(|m| m.to_string()),
            subfield::RegexMatcher::new(t).map(|m| m.to_string()),
            subfield::RegexSetMatcher::new(t).map(|m| m.to_string()),
            subfield::InMatcher::new(t).map(|m| m.to_string()),
            subfield::CardinalityMatcher::new(t).map(|m| m.to_string()),
            subfield::SingletonMatcher::new(t).map(|m| m.to_string()),
            field::ExistsMatcher::new(t).map(|m| m.to_string()),
            field::SubfieldsMatcher::new(t).map(|m| m.to_string()),
            field::SingletonMatcher::new(t).map(|m| m.to_string()),
            field::CardinalityMatcher::new(t).map(|m| m.to_string()),
        ];
        self.accepted += others.iter().filter(|x| x.is_ok()).count();
        if let Ok(b) = RecordMatcherBuilder::new(t) {
            if let Ok(b) = b
                .and(vec![t])
                .and_then(|b| b.or(vec![t]))
                .and_then(|b| b.not(vec![t]))
            {
                self.record.push(b.build());
            }
        }
    }
}

// ---------------------------------------------------------------------- bytes

fn line() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => mutate::bytes(rec::rec(false).prop_map(|r| r.bytes()).boxed(), 4),
        1 => vec(any::<u8>(), 0..40),
        1 => vec(
            select(&[b'0', b'1', b'A', b'@', b' ', b'/', 0x1e, 0x1f, b'\n', b'a'][..]),
            0..30
        ),
    ]
    .boxed()
}

const FIXED: &[&str] = &[
    "012A.a == 'abc'",
    "012A.* =* 'Baum'",
    "..../*{ #a > 1 || b in ['x', 'y'] }",
    "ALL 012A/*.a =~ '^a'",
    "..../*.* =? ['a', 'B']",
    "..../*{*}",
    "..../*{(*, a) | a?}",
    "012A{ ?ltwo a.. <$> ' ' b }",
    "..../*{ ?u '(' *.. ')' }",
    "#..../* > 2",
    "....",
    "/01-03",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    line: B,
    opts: Opts,
}

fn bytes_check(c: &Bytes, env: &mut Env) -> Res {
    let b = &c.line.0;
    let r = no_panic(|| {
        let mut n = 0;
        n += p::TagRef::from_bytes(b).is_ok() as usize;
        n += p::OccurrenceRef::from_bytes(b).is_ok() as usize;
        n += p::SubfieldRef::from_bytes(b).is_ok() as usize;
        n += p::SubfieldValueRef::from_bytes(b).is_ok() as usize;
        n += p::FieldRef::from_bytes(b).is_ok() as usize;
        n += p::RecordRef::from_bytes(b).is_ok() as usize;
        if let Ok(mut r) = ByteRecord::from_bytes(b) {
            let mut ms = Parsed::default();
            for t in FIXED {
                ms.add(t);
            }
            n += exercise(&r, &ms, &c.opts);
            let _ = (r.ppn(), r.sha256().len(), r.validate().is_ok());
            let _ = StringRecord::try_from(ByteRecord::from_bytes(b).unwrap()).map(|s| {
                let lib = c.opts.lib();
                ms.path.iter().map(|x| s.path(x, &lib).count()).sum::<usize>()
            });
            let tag = TagMatcher::new("01..").unwrap();
            r.discard(&[(tag, OccurrenceMatcher::Any)]);
            let mut out = vec![];
            let _ = r.write_to(&mut out);
            n += out.len();
        }
        n
    });
    match r {
        Err(m) => bad(format!("{:?}: panic: {m}", c.line)),
        Ok(_) => {
            let ok = rec::decode(b).is_some();
            env.label(if ok { "record" } else { "no-record" });
            Ok(!b.is_empty())
        }
    }
}

// ---------------------------------------------------------------------- texts

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Texts {
    texts: Vec<String>,
    opts: Opts,
    recs: Vec<Rec>,
}

const SOUP: &[&str] = &[
    "012A", "....", "003@", "01[2-3]A", "/01", "/*", "/01-03", ".", "{", "}",
    "(", ")", "!", "#", "&&", "||", "^", "XOR", "ALL ", "ANY ", "?", "==",
    "!=", ">=", "<", "=^", "=$", "!^", "!$", "=*", "=?", "=~", "!~", "in",
    "not", "[", "]", ",", "'abc'", "\"x\"", "'", "\"", "\\", "'(a|b)*'",
    "'[a'", "a", "b", "*", "0", "[a-c]", "$a", "$ab", "$*", "|", "<*>", "<$>",
    "?ul ", "..", "..2", "1", "42", "99999999999999999999999", " ", "\n",
    "\u{e9}", "\u{0}", "\u{2028}", "-", "/",
];

fn soup() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(select(SOUP), 0..14).prop_map(|v| v.concat()),
        2 => vec(select(SOUP), 0..14).prop_map(|v| v.join(" ")),
        1 => any::<String>(),
    ]
    .boxed()
}

fn regex_soup() -> BoxedStrategy<String> {
    let piece = select(
        &[
            "a", "(", ")", "[", "]", "*", "+", "?", "{2,3}", "|", "^", "$", ".",
            "\\\\b", "\\\\w", "\\\\pL", "(?i)", "(?-u)", "\\\\xff", "(?-u:\\\\xff)",
            "[^a]", "(?x)", "(?s).", "\\\\d", "(?P<n>a)", "\\\\B", "\\\\z",
            "(?-u:\\\\b)", "(?R)", "(?m)^",
        ][..],
    );
    (
        vec(vec(piece, 0..6).prop_map(|v| v.concat()), 1..4),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(v, set, inv)| {
            let op = if inv { "!~" } else { "=~" };
            if set {
                let l: Vec<_> = v.iter().map(|x| format!("'{x}'")).collect();
                format!("..../*.* {op} [{}]", l.join(", "))
            } else {
                format!("..../*.* {op} '{}'", v[0])
            }
        })
        .boxed()
}

fn texts_case() -> BoxedStrategy<Texts> {
    let t = prop_oneof![
        5 => texts().prop_map(|x| x.1),
        3 => mutate::text(texts().prop_map(|x| x.1).boxed(), EXPR_TOKENS, 5),
        3 => soup(),
        1 => regex_soup(),
    ];
    (
        vec(t, 1..4),
        expr::opts(),
        vec(
            prop_oneof![
                4 => vec(rec::field_dense(false), 1..6).prop_map(Rec),
                1 => rec::rec(false),
            ],
            1..3,
        ),
    )
        .prop_map(|(texts, opts, recs)| Texts { texts, opts, recs })
        .boxed()
}

fn texts_check(c: &Texts, env: &mut Env) -> Res {
    let r = no_panic(|| {
        let mut ms = Parsed::default();
        for t in &c.texts {
            ms.add(t);
        }
        for r in &c.recs {
            let bytes = r.bytes();
            if let Ok(lr) = ByteRecord::from_bytes(&bytes) {
                exercise(&lr, &ms, &c.opts);
            }
        }
        ms.accepted
    });
    match r {
        Err(m) => bad(format!("{:?} on {:?}: panic: {m}", c.texts, c.recs)),
        Ok(n) => {
            env.label_if(n > 0, "accepted-by-some-parser");
            env.label_if(n == 0, "rejected-by-all");
            Ok(c.texts.iter().any(|t| t.len() > 2))
        }
    }
}

// ----------------------------------------------------------------------- deep

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    head: String,
    rep: String,
    n: usize,
    mid: String,
    close: String,
    m: usize,
    tail: String,
}

fn deep_case() -> BoxedStrategy<Deep> {
    let parts = select(
        &[
            ("", "(", "012A?", ")", ""),
            ("", "!", "012A?", "", ""),
            ("", "!(", "012A?", ")", ""),
            ("", "! ( ! ", "012A?", ")", ""),
            ("", "(012A? && ", "012A?", ")", ""),
            ("", "012A? && ", "012A?", "", ""),
            ("", "012A? || 012A? ^ ", "012A?", "", ""),
            ("", "(", "a?", ")", ""),
            ("", "!", "a?", "", ""),
            ("", "!(", "a?", ")", ""),
            ("", "a? || ", "a?", "", ""),
            ("", "a? XOR (", "a?", ")", ""),
            ("012A{", "(", "a?", ")", "}"),
            ("012A{", "!", "a?", "", "}"),
            ("!012A{", "!(b? ^ ", "a?", ")", "}"),
            ("(#012A{", "((", "a?", "))", "} > 1)"),
            ("012A{a | ", "(", "a?", ")", "}"),
            ("012A{a | ", "!", "a?", "", "}"),
            ("012A{", "(", "a", ")", "}"),
            ("012A{", "(b <*> ", "a", ")", "}"),
            ("012A{", "(?u b <$> ", "a", ")", "}"),
            ("012A{", "a <*> ", "a", "", "}"),
            ("012A{", "a <$> ", "a", "", "}"),
            ("012A{(", "a, ", "a", "", ")}"),
            ("012A{", "[a-z]", "", "", "}"),
            ("", "003@.0, ", "003@.0", "", ""),
            ("012A.a in [", "'a', ", "'b'", "", "]"),
            ("012A.a == '", "\\\\", "", "", "'"),
            ("012A.a =~ '", "(", "a", ")", "'"),
            ("012A.a =~ '", "(a*)*", "a", "", "'"),
            ("#012A > ", "9", "", "", ""),
            ("", "[", "a", "]", ""),
            ("", " ", "012A?", " ", ""),
            ("01[", "0-9", "", "", "]A?"),
        ][..],
    );
    let n = prop_oneof![1usize..300, 200usize..300, 300usize..3000,
        Just(20_000usize), Just(60_000)];
    (parts, n, -1i64..=1)
        .prop_map(|((h, r, mid, c, t), n, d)| Deep {
            head: h.into(),
            rep: r.into(),
            // A row with many columns takes quadratic time.
            n: if r.starts_with("003@") || r == "a, " { n.min(300) } else { n },
            mid: mid.into(),
            close: c.into(),
            m: (n as i64 + d) as usize,
            tail: t.into(),
        })
        .boxed()
}

fn deep_check(c: &Deep, env: &mut Env) -> Res {
    let text = format!(
        "{}{}{}{}{}",
        c.head,
        c.rep.repeat(c.n),
        c.mid,
        c.close.repeat(c.m),
        c.tail
    );
    let t = text.clone();
    // The usual stack size of a main thread. An overflow kills the process, which
    // the supervisor attributes to this case.
    let n = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ms = Parsed::default();
            ms.add(&t);
            let bytes = b"012A \x1faabc\x1fbx\x1e012A/01 \x1fcY\x1e003@ \x1f01\x1e\n";
            let r = ByteRecord::from_bytes(bytes).unwrap();
            exercise(&r, &ms, &Opts::default());
            ms.accepted
        })
        .map_err(|e| crate::runner::Fail::Harness(e.to_string()))?
        .join();
    let Ok(n) = n else {
        return bad(format!("panic on {} x {:?} ({c:?})", c.n, c.rep));
    };
    env.label(if n > 0 { "accepted" } else { "rejected" });
    env.label_if(c.n > 10_000, "very-long");
    Ok(c.n > 1)
}

// ------------------------------------------------------------------ big regex

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    res: Vec<(String, u32)>,
    set: bool,
    case: bool,
}

fn big_case() -> BoxedStrategy<Big> {
    let near = prop_oneof![
        (100u32..300).prop_map(|n| ("\\w".to_string(), n)),
        (250u32..500).prop_map(|n| ("[a-z]{100}".to_string(), n)),
    ];
    let one = (
        select(&["\\w", "\\pL", "[a-z]", "\\d", ".", "[^a]", "\\p{Lu}", "k"][..])
            .prop_map(|s| s.to_string()),
        prop_oneof![1u32..40, 40u32..150, 150u32..1500],
    );
    let one = prop_oneof![one, near];
    (vec(one, 1..5), any::<bool>(), any::<bool>())
        .prop_map(|(res, set, case)| Big { res, set, case })
        .boxed()
}

fn big_check(c: &Big, env: &mut Env) -> Res {
    let l: Vec<_> = c
        .res
        .iter()
        .map(|(x, n)| format!("'{}{{{n}}}'", x.replace('\\', "\\\\")))
        .collect();
    let text = if c.set {
        format!("a =~ [{}]", l.join(","))
    } else {
        format!("a =~ {}", l[0])
    };
    let r = no_panic(|| match SubfieldMatcher::new(&text) {
        Err(_) => false,
        Ok(m) => {
            let f = p::FieldRef::from_bytes(b"012A \x1faabc\x1e").unwrap();
            let o = MatcherOptions::new().case_ignore(c.case);
            m.is_match(f.subfields(), &o);
            true
        }
    });
    match r {
        Err(m) => bad(format!("{text:?} (ignore case: {}): panic: {m}", c.case)),
        Ok(ok) => {
            env.label(if ok { "accepted" } else { "rejected" });
            Ok(true)
        }
    }
}

pub fn n01() -> Property {
    Property {
        id: "N01",
        rule: "the input has more than one token",
        assumptions: &[
            "parsing and evaluation have the stack of a main thread (8 MiB); expressions have at most 60000 terms",
        ],
        subs: vec![
            sub(
                "bytes",
                60_000,
                20_000_000,
                || {
                    (line(), expr::opts())
                        .prop_map(|(l, opts)| Bytes { line: B(l), opts })
                        .boxed()
                },
                bytes_check,
            ),
            sub("texts", 100_000, 20_000_000, texts_case, texts_check),
            sub("deep", 1_500, 60_000, deep_case, deep_check),
            sub("big-regex", 160, 6_000, big_case, big_check),
        ],
    }
}
