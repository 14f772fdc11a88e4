//! M01 semantics, M02 patterns, M03 combination and text, M04 history.

use std::str::FromStr;

use pica_record::matcher::{ParseMatcherError, field, subfield};
use pica_record::prelude::*;
use pica_record::primitives as p;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::ensure;
use crate::expr::{
    self, Atom, Bop, Ex, FldEx, FldM, Lay, OccPat, Opts, SubEx, SubM, TagPat,
    lit,
};
use crate::mutate;
use crate::rec::{self, B, Fld, Rec};
use crate::runner::{Env, Fail, Property, Res, bad, sub};
use crate::{fmtm, pathq};

fn viol(what: &str, text: &str, e: impl std::fmt::Display) -> Fail {
    Fail::Violation(format!("{what} rejected: {text:?} ({e})"))
}

pub fn records() -> BoxedStrategy<Vec<Rec>> {
    vec(
        prop_oneof![
            5 => vec(rec::field_dense(false), 1..6).prop_map(Rec),
            1 => rec::rec(false),
        ],
        1..4,
    )
    .boxed()
}

// ------------------------------------------------------------------------ M01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RecCase {
    ex: FldEx,
    lay: Vec<u8>,
    opts: Opts,
    recs: Vec<Rec>,
}

fn rec_case() -> BoxedStrategy<RecCase> {
    (expr::fld_ex(), expr::layout(), expr::opts(), records())
        .prop_map(|(ex, lay, opts, recs)| RecCase { ex, lay, opts, recs })
        .boxed()
}

/// Records with hundreds of fields or subfields.
fn rec_large() -> BoxedStrategy<RecCase> {
    (rec_case(), rec::large(), any::<u32>())
        .prop_map(|(mut c, k, mix)| {
            let mix = mix as usize;
            for r in &mut c.recs {
                rec::enlarge(r, k, mix);
            }
            if mix % 5 < 3 {
                // a record that could decide by its number of fields
                let n = rec::SIZES[mix / 7 % 9];
                let f = |e: &Ex<FldM>| {
                    let mut v = vec![];
                    e.atoms(&mut v);
                    v.first().map(|a| (*a).clone())
                };
                if let Some(FldM::Exists(t, o)) = f(&c.ex) {
                    let cmp = expr::CMPS[mix / 63 % expr::CMPS.len()];
                    c.ex = Ex::Atom(FldM::Card(t, o, None, cmp, n));
                }
            }
            expr::large_cards(&mut c.ex, mix);
            c
        })
        .boxed()
}

fn label_fld(e: &FldEx, env: &mut Env) {
    let mut v = vec![];
    e.atoms(&mut v);
    for a in v {
        env.label(match a {
            FldM::Exists(..) => "field-exists",
            FldM::Dot(..) => "field-dot",
            FldM::Bracket(..) => "field-bracket",
            FldM::Card(..) => "field-cardinality",
        });
    }
}

fn label_sub(e: &SubEx, env: &mut Env) {
    let mut v = vec![];
    e.atoms(&mut v);
    for a in v {
        env.label(match a {
            SubM::Exists(..) => "exists",
            SubM::Rel(..) => "relation",
            SubM::Contains(..) => "contains",
            SubM::Regex(..) => "regex",
            SubM::RegexSet(..) => "regex-set",
            SubM::In(..) => "in",
            SubM::InChars(..) => "in-characters",
            SubM::Card(..) => "cardinality",
        });
    }
}

fn record_semantics(c: &RecCase, env: &mut Env) -> Res {
    let text = c.ex.text(&mut Lay::new(&c.lay));
    let m = RecordMatcher::new(&text).map_err(|e| viol("filter", &text, e))?;
    let f = FieldMatcher::new(&text).map_err(|e| viol("filter", &text, e))?;
    let lib = c.opts.lib();
    label_fld(&c.ex, env);
    let mut some = [false; 2];
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let want = c.ex.eval(r, &c.opts);
        some[want as usize] = true;
        env.label(if want { "accepted" } else { "rejected" });
        let got = m.is_match(&lr, &lib);
        ensure!(
            got == want,
            "filter {text:?} ({:?}) on {:?}: {got}, expected {want}",
            c.opts,
            B(bytes.clone())
        );
        let got = f.is_match(lr.fields(), &lib);
        ensure!(
            got == want,
            "field matcher {text:?} ({:?}) on {:?}: {got}, expected {want}",
            c.opts,
            B(bytes.clone())
        );
        // The same answer when asked again: matching has no side effect.
        ensure!(m.is_match(&lr, &lib) == want, "{text:?}: second answer differs");
    }
    env.label_if(some[0] && some[1], "both-answers");
    Ok(c.recs.iter().any(|r| r.0.iter().any(|f| !f.subs.is_empty())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SubCase {
    ex: SubEx,
    lay: Vec<u8>,
    opts: Opts,
    fields: Vec<Fld>,
}

fn sub_case() -> BoxedStrategy<SubCase> {
    (
        expr::sub_ex(),
        expr::layout(),
        expr::opts(),
        vec(rec::field_dense(false), 1..5),
    )
        .prop_map(|(ex, lay, opts, fields)| SubCase { ex, lay, opts, fields })
        .boxed()
}

fn subfield_semantics(c: &SubCase, env: &mut Env) -> Res {
    let text = c.ex.text(&mut Lay::new(&c.lay));
    let m = SubfieldMatcher::new(&text)
        .map_err(|e| viol("subfield matcher", &text, e))?;
    label_sub(&c.ex, env);
    let lib = c.opts.lib();
    let mut nt = false;
    for f in &c.fields {
        let bytes = f.bytes();
        let lf = p::FieldRef::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let want = c.ex.eval(&f.subs, &c.opts);
        env.label(if want { "accepted" } else { "rejected" });
        let got = m.is_match(lf.subfields(), &lib);
        ensure!(
            got == want,
            "{text:?} ({:?}) on {:?}: {got}, expected {want}",
            c.opts,
            B(bytes.clone())
        );
        nt |= !f.subs.is_empty();
        if let Ex::Atom(ref a) = c.ex {
            if let Some((got, ty)) =
                typed(a, &text, &lf, &lib).map_err(|e| viol("matcher", &text, e))?
            {
                ensure!(
                    got == want,
                    "{ty} {text:?} ({:?}) on {:?}: {got}, expected {want}",
                    c.opts,
                    B(bytes.clone())
                );
            }
        }
    }
    Ok(nt)
}

/// The same text through the type of its own kind.
fn typed(
    a: &SubM,
    text: &str,
    f: &p::FieldRef,
    o: &pica_record::matcher::MatcherOptions,
) -> Result<Option<(bool, &'static str)>, ParseMatcherError> {
    use subfield::*;
    let s = f.subfields();
    let single = SingletonMatcher::new(text)?.is_match(s, o);
    let (r, ty) = match a {
        SubM::Exists(_) => {
            (ExistsMatcher::new(text)?.is_match(s, o), "ExistsMatcher")
        }
        SubM::Rel(..) => {
            (RelationMatcher::new(text)?.is_match(s, o), "RelationMatcher")
        }
        SubM::Contains(..) => {
            (ContainsMatcher::new(text)?.is_match(s, o), "ContainsMatcher")
        }
        SubM::Regex(..) => {
            (RegexMatcher::new(text)?.is_match(s, o), "RegexMatcher")
        }
        SubM::RegexSet(..) => {
            (RegexSetMatcher::new(text)?.is_match(s, o), "RegexSetMatcher")
        }
        SubM::In(..) | SubM::InChars(..) => {
            (InMatcher::new(text)?.is_match(s, o), "InMatcher")
        }
        SubM::Card(..) => {
            (CardinalityMatcher::new(text)?.is_match(s, o), "CardinalityMatcher")
        }
    };
    if single != r {
        return Ok(Some((single, "SingletonMatcher")));
    }
    Ok(Some((r, ty)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FldCase {
    m: FldM,
    lay: Vec<u8>,
    opts: Opts,
    recs: Vec<Rec>,
}

fn fld_case() -> BoxedStrategy<FldCase> {
    (expr::fld_matcher(), expr::layout(), expr::opts(), records())
        .prop_map(|(m, lay, opts, recs)| FldCase { m, lay, opts, recs })
        .boxed()
}

fn field_semantics(c: &FldCase, env: &mut Env) -> Res {
    let text = Atom::text(&c.m, &mut Lay::new(&c.lay));
    let lib = c.opts.lib();
    label_fld(&Ex::Atom(c.m.clone()), env);
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes)
            .map_err(|e| Fail::Violation(e.to_string()))?;
        let fs = lr.fields();
        let want = c.m.eval(r, &c.opts);
        let e = |e: ParseMatcherError| viol("field matcher", &text, e);
        let got = match &c.m {
            FldM::Exists(..) => {
                field::ExistsMatcher::new(&text).map_err(e)?.is_match(fs, &lib)
            }
            FldM::Dot(..) | FldM::Bracket(..) => {
                field::SubfieldsMatcher::new(&text)
                    .map_err(e)?
                    .is_match(fs, &lib)
            }
            FldM::Card(..) => field::CardinalityMatcher::new(&text)
                .map_err(e)?
                .is_match(fs, &lib),
        };
        ensure!(
            got == want,
            "{text:?} ({:?}) on {:?}: {got}, expected {want}",
            c.opts,
            B(bytes.clone())
        );
        if !matches!(c.m, FldM::Card(..)) {
            let got = field::SingletonMatcher::new(&text)
                .map_err(e)?
                .is_match(fs, &lib);
            ensure!(
                got == want,
                "singleton {text:?} ({:?}) on {:?}: {got}, expected {want}",
                c.opts,
                B(bytes.clone())
            );
        }
    }
    Ok(true)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CaseCase {
    ex: FldEx,
    recs: Vec<Rec>,
    thr: u8,
}

fn lower_str(s: &str) -> String {
    String::from_utf8(expr::lower(s.as_bytes())).unwrap()
}

fn lower_sub(m: &SubM) -> Option<SubM> {
    Some(match m {
        SubM::Rel(q, c, r, s) => {
            SubM::Rel(*q, c.clone(), *r, lower_str(s))
        }
        SubM::Contains(q, c, v, a, b) => SubM::Contains(
            *q,
            c.clone(),
            v.iter().map(|s| lower_str(s)).collect(),
            *a,
            *b,
        ),
        SubM::In(q, c, n, v, t) => SubM::In(
            *q,
            c.clone(),
            *n,
            v.iter().map(|s| lower_str(s)).collect(),
            *t,
        ),
        SubM::Regex(..) | SubM::RegexSet(..) | SubM::InChars(..) => return None,
        m => m.clone(),
    })
}

fn map_sub(e: &SubEx) -> Option<SubEx> {
    Some(match e {
        Ex::Atom(a) => Ex::Atom(lower_sub(a)?),
        Ex::Group(e) => Ex::Group(Box::new(map_sub(e)?)),
        Ex::Not(e) => Ex::Not(Box::new(map_sub(e)?)),
        Ex::Bin(o, v) => {
            Ex::Bin(*o, v.iter().map(map_sub).collect::<Option<Vec<_>>>()?)
        }
    })
}

fn map_fld(e: &FldEx) -> Option<FldEx> {
    Some(match e {
        Ex::Atom(a) => Ex::Atom(match a {
            FldM::Dot(q, t, o, m, d) => {
                FldM::Dot(*q, t.clone(), o.clone(), lower_sub(m)?, *d)
            }
            FldM::Bracket(q, t, o, e) => {
                FldM::Bracket(*q, t.clone(), o.clone(), map_sub(e)?)
            }
            FldM::Card(t, o, Some(e), c, n) => {
                FldM::Card(t.clone(), o.clone(), Some(map_sub(e)?), *c, *n)
            }
            m => m.clone(),
        }),
        Ex::Group(e) => Ex::Group(Box::new(map_fld(e)?)),
        Ex::Not(e) => Ex::Not(Box::new(map_fld(e)?)),
        Ex::Bin(o, v) => {
            Ex::Bin(*o, v.iter().map(map_fld).collect::<Option<Vec<_>>>()?)
        }
    })
}

/// Metamorphic: ignoring case = lower-casing both the text and the record.
fn case_metamorphic(c: &CaseCase, env: &mut Env) -> Res {
    let Some(low) = map_fld(&c.ex) else { return Ok(false) };
    let (t1, t2) = (expr::plain(&c.ex), expr::plain(&low));
    let m1 = RecordMatcher::new(&t1).map_err(|e| viol("filter", &t1, e))?;
    let m2 = RecordMatcher::new(&t2).map_err(|e| viol("filter", &t2, e))?;
    let o1 = Opts { case: true, thr: c.thr }.lib();
    let o2 = Opts { case: false, thr: c.thr }.lib();
    for r in &c.recs {
        if !r.is_utf8() {
            continue;
        }
        let lowered = Rec(r
            .0
            .iter()
            .map(|f| Fld {
                subs: f
                    .subs
                    .iter()
                    .map(|(c, v)| (*c, B(expr::lower(&v.0))))
                    .collect(),
                ..f.clone()
            })
            .collect());
        let (b1, b2) = (r.bytes(), lowered.bytes());
        let r1 = ByteRecord::from_bytes(&b1).unwrap();
        let r2 = ByteRecord::from_bytes(&b2).unwrap();
        let (g1, g2) = (m1.is_match(&r1, &o1), m2.is_match(&r2, &o2));
        env.label_if(b1 != b2 || t1 != t2, "differs-by-case");
        ensure!(
            g1 == g2,
            "{t1:?} ignoring case on {:?}: {g1}; {t2:?} on lower-cased: {g2}",
            B(b1.clone())
        );
    }
    Ok(true)
}

fn case_case() -> BoxedStrategy<CaseCase> {
    (expr::fld_ex(), records(), select(&[50u8, 70, 80][..]))
        .prop_map(|(ex, recs, thr)| CaseCase { ex, recs, thr })
        .boxed()
}

pub fn m01() -> Property {
    Property {
        id: "M01",
        rule: "the records/fields matched against have at least one subfield",
        assumptions: &[
            "the evaluator of harness/src/expr.rs is the documented semantics",
            "the regex crate decides regular expressions",
            "similarity means a normalized Levenshtein score above the threshold",
        ],
        subs: vec![
            sub("record", 120_000, 12_000_000, rec_case, record_semantics),
            sub("field", 60_000, 6_000_000, fld_case, field_semantics),
            sub("subfield", 120_000, 12_000_000, sub_case, subfield_semantics),
            sub("large", 6_000, 600_000, rec_large, record_semantics),
            sub("case", 40_000, 4_000_000, case_case, case_metamorphic),
        ],
    }
}

// ------------------------------------------------------------------------ M02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PatCase {
    tag: TagPat,
    occ: OccPat,
    tags: Vec<String>,
    occs: Vec<Option<String>>,
}

fn pat_case() -> BoxedStrategy<PatCase> {
    let near = |t: &TagPat| -> Vec<String> {
        // Tags around the members of the pattern.
        let mut v = vec![String::new()];
        for f in &t.0 {
            let cs: Vec<char> = match f {
                expr::Frag::Ch(c) => vec![*c],
                expr::Frag::Dot => vec!['0', '1', '2', '@', 'A', 'Z'],
                expr::Frag::List(l) => l
                    .iter()
                    .flat_map(|(a, b)| {
                        let b = b.unwrap_or(*a);
                        let step = |c: char, d: i32| {
                            char::from_u32((c as i32 + d) as u32).unwrap()
                        };
                        vec![*a, b, step(*a, -1), step(b, 1), step(*a, 1)]
                    })
                    .collect(),
            };
            v = v
                .iter()
                .flat_map(|s| cs.iter().map(move |c| format!("{s}{c}")))
                .take(200)
                .collect();
        }
        v
    };
    (
        expr::tag_pat(),
        expr::occ_pat(),
        vec(rec::tag(), 1..8),
        vec(rec::occ(), 1..8),
        vec(expr::occ_str(), 1..6),
    )
        .prop_map(move |(tag, occ, mut tags, mut occs, more)| {
            tags.extend(near(&tag));
            tags.retain(|t| rec::is_tag(t.as_bytes()));
            occs.extend(more.into_iter().map(Some));
            if let OccPat::Range(a, b) = &occ {
                for s in [a, b] {
                    let n: i32 = s.parse().unwrap();
                    for d in -1..=1 {
                        for w in 2..=3usize {
                            let x = format!("{:0w$}", (n + d).max(0));
                            if x.len() == w {
                                occs.push(Some(x));
                            }
                        }
                    }
                }
            }
            occs.push(None);
            occs.push(Some("00".into()));
            occs.push(Some("000".into()));
            PatCase { tag, occ, tags, occs }
        })
        .boxed()
}

fn patterns(c: &PatCase, env: &mut Env) -> Res {
    let text = c.tag.text();
    let m = TagMatcher::new(&text).map_err(|e| viol("tag pattern", &text, e))?;
    let again = TagMatcher::new(&m.to_string())
        .map_err(|e| viol("text of tag pattern", &m.to_string(), e))?;
    let mut hits = 0;
    for t in &c.tags {
        let tr = p::TagRef::new(t).map_err(|e| viol("tag", t, e))?;
        let want = c.tag.is_match(t);
        hits += want as usize;
        let got = m.is_match(&tr);
        ensure!(got == want, "tag pattern {text} on {t}: {got}, expected {want}");
        ensure!(again.is_match(&tr) == want, "text form of {text} differs on {t}");
    }
    env.label(if hits > 0 { "tag-hit" } else { "tag-miss" });
    env.label_if(hits > 0 && hits < c.tags.len(), "tag-both");
    let text = c.occ.text();
    let m = OccurrenceMatcher::new(&text)
        .map_err(|e| viol("occurrence pattern", &text, e))?;
    let again = OccurrenceMatcher::new(&m.to_string())
        .map_err(|e| viol("text of pattern", &m.to_string(), e))?;
    for o in &c.occs {
        let or = match o {
            None => None,
            Some(s) => {
                Some(p::OccurrenceRef::new(s).map_err(|e| viol("occ", s, e))?)
            }
        };
        let want = c.occ.is_match(o.as_deref());
        env.label(if want { "occ-hit" } else { "occ-miss" });
        let got = m.is_match(or.as_ref());
        ensure!(
            got == want,
            "occurrence pattern {text:?} on {o:?}: {got}, expected {want}"
        );
        ensure!(
            again.is_match(or.as_ref()) == want,
            "text form of {text:?} differs on {o:?}"
        );
    }
    // The pattern in front of a field existence test.
    let full = format!("{}{}?", c.tag.text(), c.occ.text());
    let m = RecordMatcher::new(&full).map_err(|e| viol("filter", &full, e))?;
    for (t, o) in c.tags.iter().zip(c.occs.iter().cycle()).take(12) {
        let r = Rec(vec![Fld { tag: t.clone(), occ: o.clone(), subs: vec![] }]);
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes).unwrap();
        let want = c.tag.is_match(t) && c.occ.is_match(o.as_deref());
        let got = m.is_match(&lr, &MatcherOptions::default());
        ensure!(got == want, "{full} on {t}/{o:?}: {got}, expected {want}");
    }
    Ok(hits > 0)
}

pub const PAT_TOKENS: &[&str] = &[
    "0", "1", "2", "3", "9", "A", "Z", "@", "a", ".", "[", "]", "-", "/", "*",
    "01", "001", "00", " ", "?", "[0-2]", "[A-C]", "[]", "/01-03", "/03-01",
    "/01-001", "/1", "/0001", "[2-0]", "--", "é",
];

fn bad_pat() -> BoxedStrategy<(String, String)> {
    (
        mutate::text(
            expr::tag_pat().prop_map(|t| t.text()).boxed(),
            PAT_TOKENS,
            2,
        ),
        mutate::text(
            expr::occ_pat().prop_map(|t| t.text()).boxed(),
            PAT_TOKENS,
            2,
        ),
    )
        .boxed()
}

/// Reference acceptor of tag patterns.
pub fn tag_pat_ok(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let class = |pos: usize, x: char| match pos {
        0 => ('0'..='2').contains(&x),
        1 | 2 => x.is_ascii_digit(),
        _ => x.is_ascii_uppercase() || x == '@',
    };
    let mut i = 0;
    for pos in 0..4 {
        match c.get(i) {
            Some('.') => i += 1,
            Some('[') => {
                i += 1;
                let start = i;
                loop {
                    match c.get(i) {
                        Some(']') if i > start => {
                            i += 1;
                            break;
                        }
                        Some(&a) if class(pos, a) => {
                            if c.get(i + 1) == Some(&'-') {
                                let Some(&b) = c.get(i + 2) else {
                                    return false;
                                };
                                if !class(pos, b) || a >= b {
                                    return false;
                                }
                                i += 3;
                            } else {
                                i += 1;
                            }
                        }
                        _ => return false,
                    }
                }
            }
            Some(&x) if class(pos, x) => i += 1,
            _ => return false,
        }
    }
    i == c.len()
}

pub fn occ_pat_ok(s: &str) -> bool {
    if s.is_empty() || s == "/*" {
        return true;
    }
    let Some(s) = s.strip_prefix('/') else { return false };
    let num = |s: &str| {
        (2..=3).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_digit())
    };
    match s.split_once('-') {
        None => num(s),
        Some((a, b)) => num(a) && num(b) && a.len() == b.len() && a < b,
    }
}

fn rejects(c: &(String, String), env: &mut Env) -> Res {
    let want = tag_pat_ok(&c.0);
    env.label(if want { "tag-wellformed" } else { "tag-malformed" });
    ensure!(
        TagMatcher::new(&c.0).is_ok() == want,
        "tag pattern {:?}: accepted = {}, well-formed = {want}",
        c.0,
        !want
    );
    let want = occ_pat_ok(&c.1);
    env.label(if want { "occ-wellformed" } else { "occ-malformed" });
    ensure!(
        OccurrenceMatcher::new(&c.1).is_ok() == want,
        "occurrence pattern {:?}: accepted = {}, well-formed = {want}",
        c.1,
        !want
    );
    Ok(!c.0.is_empty())
}

pub fn m02() -> Property {
    Property {
        id: "M02",
        rule: "the pattern matches at least one of the tags / is not empty",
        assumptions: &["patterns mean what harness/src/expr.rs says"],
        subs: vec![
            sub("match", 60_000, 6_000_000, pat_case, patterns),
            sub("reject", 150_000, 15_000_000, bad_pat, rejects),
        ],
    }
}

// ------------------------------------------------------------------------ M03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Comb<A> {
    Leaf(Ex<A>, Vec<u8>),
    Bin(Bop, bool, Box<Comb<A>>, Box<Comb<A>>),
    Not(Box<Comb<A>>),
    /// Combined matcher that went through its text form.
    Text(Box<Comb<A>>),
}

impl<A: Atom> Comb<A> {
    fn eval(&self, c: &A::Ctx, o: &Opts) -> bool {
        match self {
            Comb::Leaf(e, _) => e.eval(c, o),
            Comb::Bin(op, _, a, b) => {
                let (a, b) = (a.eval(c, o), b.eval(c, o));
                match op {
                    Bop::And => a && b,
                    Bop::Or => a || b,
                    Bop::Xor => a != b,
                }
            }
            Comb::Not(a) => !a.eval(c, o),
            Comb::Text(a) => a.eval(c, o),
        }
    }

    fn build<M>(
        &self,
        new: &dyn Fn(&str) -> Result<M, ParseMatcherError>,
    ) -> Result<M, Fail>
    where
        M: std::ops::BitAnd<Output = M>
            + std::ops::BitOr<Output = M>
            + std::ops::BitXor<Output = M>
            + std::ops::BitAndAssign
            + std::ops::BitOrAssign
            + std::ops::BitXorAssign
            + std::ops::Not<Output = M>
            + std::fmt::Display,
    {
        Ok(match self {
            Comb::Leaf(e, l) => {
                let t = e.text(&mut Lay::new(l));
                new(&t).map_err(|e| viol("matcher", &t, e))?
            }
            Comb::Bin(op, assign, a, b) => {
                let (mut a, b) = (a.build(new)?, b.build(new)?);
                if *assign {
                    match op {
                        Bop::And => a &= b,
                        Bop::Or => a |= b,
                        Bop::Xor => a ^= b,
                    }
                    a
                } else {
                    match op {
                        Bop::And => a & b,
                        Bop::Or => a | b,
                        Bop::Xor => a ^ b,
                    }
                }
            }
            Comb::Not(a) => !a.build(new)?,
            Comb::Text(a) => {
                let t = a.build(new)?.to_string();
                new(&t).map_err(|e| viol("text form of matcher", &t, e))?
            }
        })
    }

    fn leaves(&self) -> usize {
        match self {
            Comb::Leaf(..) => 1,
            Comb::Bin(_, _, a, b) => a.leaves() + b.leaves(),
            Comb::Not(a) | Comb::Text(a) => a.leaves(),
        }
    }
}

fn comb<A>(leaf: BoxedStrategy<Ex<A>>) -> BoxedStrategy<Comb<A>>
where
    A: Clone + std::fmt::Debug + 'static,
{
    (leaf, expr::layout())
        .prop_map(|(e, l)| Comb::Leaf(e, l))
        .prop_recursive(4, 8, 2, |inner| {
            prop_oneof![
                6 => (
                    select(&[Bop::And, Bop::Or, Bop::Xor][..]),
                    any::<bool>(),
                    inner.clone(),
                    inner.clone()
                )
                    .prop_map(|(o, s, a, b)| Comb::Bin(
                        o,
                        s,
                        Box::new(a),
                        Box::new(b)
                    )),
                3 => inner.clone().prop_map(|a| Comb::Not(Box::new(a))),
                1 => inner.prop_map(|a| Comb::Text(Box::new(a))),
            ]
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CombRec {
    tree: Comb<FldM>,
    opts: Opts,
    recs: Vec<Rec>,
}

fn combine_records(c: &CombRec, env: &mut Env) -> Res {
    let m = c.tree.build::<RecordMatcher>(&|s| RecordMatcher::new(s))?;
    let f = c.tree.build::<FieldMatcher>(&|s| FieldMatcher::new(s))?;
    let text = m.to_string();
    let m2 = RecordMatcher::new(&text)
        .map_err(|e| viol("text form of combined filter", &text, e))?;
    let ftext = f.to_string();
    let f2 = FieldMatcher::new(&ftext)
        .map_err(|e| viol("text form of combined matcher", &ftext, e))?;
    let json = serde_json::to_string(&m)
        .map_err(|e| viol("serialising", &text, e))?;
    let m3: RecordMatcher = serde_json::from_str(&json)
        .map_err(|e| viol("serialised filter", &json, e))?;
    let json = serde_json::to_string(&f)
        .map_err(|e| viol("serialising", &ftext, e))?;
    let f3: FieldMatcher = serde_json::from_str(&json)
        .map_err(|e| viol("serialised matcher", &json, e))?;
    let (m4, f4) = (m.clone(), f.clone());
    let lib = c.opts.lib();
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes).unwrap();
        let want = c.tree.eval(r, &c.opts);
        env.label(if want { "accepted" } else { "rejected" });
        for (got, how) in [
            (m.is_match(&lr, &lib), "combined"),
            (m2.is_match(&lr, &lib), "re-parsed"),
            (m3.is_match(&lr, &lib), "deserialised"),
            (f.is_match(lr.fields(), &lib), "combined fields"),
            (f2.is_match(lr.fields(), &lib), "re-parsed fields"),
            (m4.is_match(&lr, &lib), "cloned"),
            (f3.is_match(lr.fields(), &lib), "deserialised fields"),
            (f4.is_match(lr.fields(), &lib), "cloned fields"),
        ] {
            ensure!(
                got == want,
                "{how} matcher {text:?} ({:?}) on {:?}: {got}, parts give {want}",
                c.opts,
                B(bytes.clone())
            );
        }
    }
    Ok(c.tree.leaves() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CombSub {
    tree: Comb<SubM>,
    opts: Opts,
    fields: Vec<Fld>,
}

fn combine_subfields(c: &CombSub, env: &mut Env) -> Res {
    let m = c.tree.build::<SubfieldMatcher>(&|s| SubfieldMatcher::new(s))?;
    let text = m.to_string();
    let m2 = SubfieldMatcher::new(&text)
        .map_err(|e| viol("text form of combined matcher", &text, e))?;
    let lib = c.opts.lib();
    for f in &c.fields {
        let bytes = f.bytes();
        let lf = p::FieldRef::from_bytes(&bytes).unwrap();
        let want = c.tree.eval(&f.subs, &c.opts);
        env.label(if want { "accepted" } else { "rejected" });
        for (got, how) in [
            (m.is_match(lf.subfields(), &lib), "combined"),
            (m2.is_match(lf.subfields(), &lib), "re-parsed"),
        ] {
            ensure!(
                got == want,
                "{how} matcher {text:?} ({:?}) on {:?}: {got}, parts give {want}",
                c.opts,
                B(bytes.clone())
            );
        }
    }
    Ok(c.tree.leaves() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    And(Vec<FldEx>),
    Or(Vec<FldEx>),
    Not(Vec<FldEx>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    first: FldEx,
    steps: Vec<Step>,
    transform: bool,
    opts: Opts,
    recs: Vec<Rec>,
}

fn build_case() -> BoxedStrategy<Build> {
    let v = || vec(expr::fld_ex(), 0..3);
    (
        expr::fld_ex(),
        vec(
            prop_oneof![
                v().prop_map(Step::And),
                v().prop_map(Step::Or),
                v().prop_map(Step::Not),
            ],
            0..4,
        ),
        any::<bool>(),
        expr::opts(),
        records(),
    )
        .prop_map(|(first, steps, transform, opts, recs)| Build {
            first,
            steps,
            transform,
            opts,
            recs,
        })
        .boxed()
}

fn builder(c: &Build, env: &mut Env) -> Res {
    let e = |e: ParseMatcherError| {
        Fail::Violation(format!("builder rejected a part: {e}"))
    };
    // The transformation undoes a marker that no expression contains.
    let enc = |x: &FldEx| {
        let t = expr::plain(x);
        if c.transform { t.replace('0', "\u{1}") } else { t }
    };
    let first = enc(&c.first);
    let mut b = if c.transform {
        RecordMatcherBuilder::with_transform(first, |s: String| {
            s.replace('\u{1}', "0")
        })
    } else {
        RecordMatcherBuilder::new(first)
    }
    .map_err(e)?;
    // A literal \u{1} in a needle would be transformed as well.
    let has = |x: &FldEx| expr::plain(x).contains('\u{1}');
    let mut parts = vec![&c.first];
    for s in &c.steps {
        let (Step::And(v) | Step::Or(v) | Step::Not(v)) = s;
        parts.extend(v.iter());
    }
    if c.transform && parts.iter().any(|x| has(x)) {
        return Ok(false);
    }
    for s in &c.steps {
        b = match s {
            Step::And(v) => b.and(v.iter().map(enc).collect()),
            Step::Or(v) => b.or(v.iter().map(enc).collect()),
            Step::Not(v) => b.not(v.iter().map(enc).collect()),
        }
        .map_err(e)?;
    }
    let m = b.build();
    let lib = c.opts.lib();
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes).unwrap();
        let mut want = c.first.eval(r, &c.opts);
        for s in &c.steps {
            match s {
                Step::And(v) => {
                    for x in v {
                        want &= x.eval(r, &c.opts)
                    }
                }
                Step::Or(v) => {
                    for x in v {
                        want |= x.eval(r, &c.opts)
                    }
                }
                Step::Not(v) => {
                    for x in v {
                        want &= !x.eval(r, &c.opts)
                    }
                }
            }
        }
        env.label(if want { "accepted" } else { "rejected" });
        let got = m.is_match(&lr, &lib);
        ensure!(
            got == want,
            "built matcher {m} on {:?}: {got}, expected {want}",
            B(bytes.clone())
        );
    }
    Ok(parts.len() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LayCase {
    ex: FldEx,
    a: Vec<u8>,
    b: Vec<u8>,
    lead: (String, String),
    opts: Opts,
    recs: Vec<Rec>,
}

fn lay_case() -> BoxedStrategy<LayCase> {
    let pad = || select(&["", " ", "\n\t", "  "][..]).prop_map(|s| s.to_string());
    (
        expr::fld_ex(),
        vec(0u8..10, 1..30),
        vec(0u8..10, 1..30),
        (pad(), pad()),
        expr::opts(),
        records(),
    )
        .prop_map(|(ex, a, b, lead, opts, recs)| LayCase {
            ex,
            a,
            b,
            lead,
            opts,
            recs,
        })
        .boxed()
}

fn layouts(c: &LayCase, env: &mut Env) -> Res {
    let a = c.ex.text(&mut Lay::new(&c.a));
    let b = c.ex.text(&mut Lay::new(&c.b));
    let d = format!("{}{}{}", c.lead.0, a, c.lead.1);
    let ma = RecordMatcher::new(&a).map_err(|e| viol("filter", &a, e))?;
    let mb = RecordMatcher::new(&b).map_err(|e| viol("filter", &b, e))?;
    let md = RecordMatcher::new(&d).map_err(|e| viol("filter", &d, e))?;
    for r in &c.recs {
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes).unwrap();
        let lib = c.opts.lib();
        let (x, y, z) = (
            ma.is_match(&lr, &lib),
            mb.is_match(&lr, &lib),
            md.is_match(&lr, &lib),
        );
        ensure!(
            x == y && x == z,
            "same expression, different layouts, different answers: {a:?} {x}, {b:?} {y}, {d:?} {z}"
        );
    }
    env.label_if(a != b, "layouts-differ");
    Ok(a != b)
}

fn lit_case() -> BoxedStrategy<(String, Vec<u8>, String)> {
    let text = prop_oneof![
        2 => expr::needle(),
        2 => vec(select(&['\'', '"', '\\', '\n', '\r', '\t', '\u{8}', '\u{c}',
            '/', 'n', 't', 'a', ' ', 'ä', '\u{2028}', '\u{0}'][..]), 0..8)
            .prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
    ];
    (text, vec(0u8..10, 1..12), expr::needle()).boxed()
}

fn literals(c: &(String, Vec<u8>, String), env: &mut Env) -> Res {
    let (s, lay, other) = c;
    if s.contains(['\u{1e}', '\u{1f}']) || other.contains(['\u{1e}', '\u{1f}']) {
        return Ok(false);
    }
    let l = lit(s, &mut Lay::new(lay));
    let text = format!("012A.a == {l}");
    let m = RecordMatcher::new(&text).map_err(|e| viol("literal", &text, e))?;
    let again = RecordMatcher::new(m.to_string())
        .map_err(|e| viol("text form", &m.to_string(), e))?;
    env.label_if(l.contains('\\'), "escapes");
    for v in [s.clone(), format!("{s}x"), other.clone(), String::new()] {
        let r = Rec(vec![Fld {
            tag: "012A".into(),
            occ: None,
            subs: vec![('a', B::s(&v))],
        }]);
        let bytes = r.bytes();
        let lr = ByteRecord::from_bytes(&bytes).unwrap();
        for (m, how) in [(&m, "parsed"), (&again, "re-parsed")] {
            let got = m.is_match(&lr, &MatcherOptions::default());
            ensure!(
                got == (v == *s),
                "{how} {text:?} ({:?}) on value {v:?}: {got}",
                m.to_string()
            );
        }
    }
    // The literal as a constant column of a query.
    let q = Query::new(format!("012A.a, {l}"))
        .map_err(|e| viol("literal in query", &l, e))?;
    let bytes = b"012A \x1faZ\x1e\n";
    let lr = ByteRecord::from_bytes(bytes).unwrap();
    let rows = lr.query(&q, &QueryOptions::default()).into_inner();
    ensure!(
        rows == vec![vec!["Z".into(), bstr::BString::from(s.as_str())]],
        "query with literal {l:?} gives {rows:?}"
    );
    Ok(!s.is_empty())
}

/// An operator written by its own text form, on one field with some values.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpCase {
    op: usize,
    values: Vec<String>,
    lit: String,
    n: usize,
    left: bool,
    right: bool,
}

fn op_case() -> BoxedStrategy<OpCase> {
    let v = || prop_oneof![4 => "[abc]{0,3}", 1 => "[a-cA-C ]{0,5}"];
    (0..11usize, vec(v(), 0..4), v(), 0..5usize, any::<bool>(), any::<bool>())
        .prop_map(|(op, values, lit, n, left, right)| OpCase {
            op,
            values,
            lit,
            n,
            left,
            right,
        })
        .boxed()
}

fn operators(c: &OpCase, env: &mut Env) -> Res {
    use pica_record::matcher::{BooleanOp, Quantifier, RelationalOp as O};
    type Txt = fn(&str, &str) -> bool;
    type Num = fn(usize, usize) -> bool;
    let (op, txt, num): (O, Option<Txt>, Option<Num>) = match c.op {
        0 => (O::Eq, Some(|a, b| a == b), Some(|a, b| a == b)),
        1 => (O::Ne, Some(|a, b| a != b), Some(|a, b| a != b)),
        2 => (O::Gt, None, Some(|a, b| a > b)),
        3 => (O::Ge, None, Some(|a, b| a >= b)),
        4 => (O::Lt, None, Some(|a, b| a < b)),
        5 => (O::Le, None, Some(|a, b| a <= b)),
        6 => (O::StartsWith, Some(|a, b| a.starts_with(b)), None),
        7 => (O::StartsNotWith, Some(|a, b| !a.starts_with(b)), None),
        8 => (O::EndsWith, Some(|a, b| a.ends_with(b)), None),
        9 => (O::EndsNotWith, Some(|a, b| !a.ends_with(b)), None),
        // With a threshold of 0.999 only the same text is similar.
        _ => (O::Similar, Some(|a, b| a == b), None),
    };
    env.label(if txt.is_some() { "text" } else { "count-only" });
    ensure!(op.is_str_applicable() == txt.is_some(), "{op:?} on text");
    ensure!(op.is_usize_applicable() == num.is_some(), "{op:?} on counts");
    let bytes = Rec(vec![Fld {
        tag: "012A".into(),
        occ: None,
        subs: c.values.iter().map(|v| ('a', B::s(v))).collect(),
    }])
    .bytes();
    let r = ByteRecord::from_bytes(&bytes).unwrap();
    let o = MatcherOptions::new().strsim_threshold(0.999);
    let check = |text: &str, want: Option<bool>| match (RecordMatcher::new(text), want) {
        (Ok(m), Some(w)) => {
            let g = m.is_match(&r, &o);
            ensure!(g == w, "{text} gives {g} on {:?}", c.values);
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (g, w) => Err(Fail::Violation(format!("{text}: {g:?}, expected {w:?}"))),
    };
    let any = txt.map(|f| c.values.iter().any(|v| f(v, &c.lit)));
    let all = txt.map(|f| c.values.iter().all(|v| f(v, &c.lit)));
    check(&format!("012A.a {op} '{}'", c.lit), any)?;
    check(&format!("012A{{a {op} '{}'}}", c.lit), any)?;
    check(&format!("012A{{{} a {op} '{}'}}", Quantifier::Any, c.lit), any)?;
    let n = c.values.len();
    if n > 0 {
        check(&format!("012A{{{} a {op} '{}'}}", Quantifier::All, c.lit), all)?;
    }
    check(&format!("012A{{#a {op} {}}}", c.n), num.map(|f| f(n, c.n)))?;
    check(&format!("#012A {op} {}", c.n), num.map(|f| f(1, c.n)))?;
    ensure!(Quantifier::default() == Quantifier::Any, "default quantifier");
    let side = |b| if b { "012A?" } else { "013A?" };
    for (b, want) in [
        (BooleanOp::And, c.left && c.right),
        (BooleanOp::Or, c.left || c.right),
        (BooleanOp::Xor, c.left != c.right),
    ] {
        check(
            &format!("{} {b} {}", side(c.left), side(c.right)),
            Some(want),
        )?;
    }
    Ok(n > 0)
}

pub fn m03() -> Property {
    Property {
        id: "M03",
        rule: "at least two matchers are combined / the two layouts differ / the literal is not empty / the field has values",
        assumptions: &["expr.rs evaluates the parts"],
        subs: vec![
            sub(
                "combine-records",
                30_000,
                3_000_000,
                || {
                    (comb(expr::fld_ex()), expr::opts(), records())
                        .prop_map(|(tree, opts, recs)| CombRec {
                            tree,
                            opts,
                            recs,
                        })
                        .boxed()
                },
                combine_records,
            ),
            sub(
                "combine-subfields",
                40_000,
                4_000_000,
                || {
                    (
                        comb(expr::sub_ex()),
                        expr::opts(),
                        vec(rec::field_dense(false), 1..4),
                    )
                        .prop_map(|(tree, opts, fields)| CombSub {
                            tree,
                            opts,
                            fields,
                        })
                        .boxed()
                },
                combine_subfields,
            ),
            sub("builder", 30_000, 3_000_000, build_case, builder),
            sub("layout", 60_000, 6_000_000, lay_case, layouts),
            sub("literal", 80_000, 8_000_000, lit_case, literals),
            sub("operators", 20_000, 2_000_000, op_case, operators),
        ],
    }
}

// ------------------------------------------------------------------------ M04

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Lang {
    Filter,
    Subfield,
    Path,
    Query,
    Format,
}

impl Lang {
    /// What the text means: its own text form and the result on a probe.
    fn meaning(&self, t: &str) -> Result<String, ()> {
        let bytes = b"012A \x1faabc\x1fbx\x1fabaum\x1e012A/01 \x1fcY\x1e013A \x1f01\x1e\n";
        let r = ByteRecord::from_bytes(bytes).unwrap();
        let o = MatcherOptions::default();
        Ok(match self {
            Lang::Filter => {
                let m = RecordMatcher::new(t).map_err(|_| ())?;
                format!("{m}\u{0}{}", m.is_match(&r, &o))
            }
            Lang::Subfield => {
                let m = SubfieldMatcher::new(t).map_err(|_| ())?;
                let f = &r.fields()[0];
                format!("{m}\u{0}{}", m.is_match(f.subfields(), &o))
            }
            Lang::Path => {
                let x = Path::from_str(t).map_err(|_| ())?;
                format!("{x}\u{0}{:?}", r.path(&x, &o).collect::<Vec<_>>())
            }
            Lang::Query => {
                let x = Query::new(t).map_err(|_| ())?;
                format!(
                    "{x}\u{0}{:?}",
                    r.query(&x, &QueryOptions::default()).into_inner()
                )
            }
            Lang::Format => {
                let x = Format::new(t).map_err(|_| ())?;
                let v: Vec<_> =
                    r.format(&x, &FormatOptions::default()).collect();
                format!("{x}\u{0}{v:?}")
            }
        })
    }
}

pub const EXPR_TOKENS: &[&str] = &[
    "(", ")", "((", "))", "{", "}", "!", "!!", "&&", "||", "^", "XOR", "?",
    "==", "=~", "=?", " in ", " not ", "'", "\"", "\\", "a", "012A", ".a", "/*",
    "/01", "[", "]", ",", "|", "..", "..2", "<*>", "<$>", "?u ", "#", "ALL ",
    "ANY ", "$a", "*", "0", "-", " ", "\n", "é", "\u{0}",
];

/// Texts of all five languages: valid, slightly broken, and unbalanced.
pub fn texts() -> BoxedStrategy<(Lang, String)> {
    let lay = |v: Vec<u8>| v;
    let filter = (expr::fld_ex(), expr::layout())
        .prop_map(move |(e, l)| e.text(&mut Lay::new(&lay(l))))
        .boxed();
    let sub = (expr::sub_ex(), expr::layout())
        .prop_map(|(e, l)| e.text(&mut Lay::new(&l)))
        .boxed();
    let path = (pathq::path(), expr::layout())
        .prop_map(|(e, l)| e.text(&mut Lay::new(&l)))
        .boxed();
    let query = (pathq::query(), expr::layout())
        .prop_map(|(e, l)| e.text(&mut Lay::new(&l)))
        .boxed();
    let fmt = (fmtm::fmt(true), expr::layout())
        .prop_map(|(e, l)| e.text(&mut Lay::new(&l)))
        .boxed();
    let nest = || (1usize..40, 0usize..42, select(&["(", "!(", "( !"][..]));
    let deep = |open: &str, inner: &str, n: usize, m: usize| {
        format!("{}{inner}{}", open.repeat(n), ")".repeat(m))
    };
    let one = |lang: Lang, s: BoxedStrategy<String>| {
        mutate::text(s, EXPR_TOKENS, 2).prop_map(move |t| (lang, t)).boxed()
    };
    prop_oneof![
        4 => one(Lang::Filter, filter),
        3 => one(Lang::Subfield, sub),
        2 => one(Lang::Path, path),
        2 => one(Lang::Query, query),
        3 => one(Lang::Format, fmt),
        2 => nest().prop_map(move |(n, m, o)| (
            Lang::Filter,
            deep(o, "012A.a == 'abc'", n, m)
        )),
        2 => nest().prop_map(move |(n, m, o)| (
            Lang::Subfield,
            deep(o, "a == 'abc'", n, m)
        )),
        2 => (1usize..12, 0usize..14).prop_map(|(n, m)| (
            Lang::Format,
            format!("012A{{{}a{}}}", "(b <*> ".repeat(n), ")".repeat(m))
        )),
        1 => nest().prop_map(move |(n, m, o)| (
            Lang::Path,
            format!("012A{{a | {}}}", deep(o, "a == 'abc'", n, m))
        )),
    ]
    .boxed()
}

fn history(c: &Vec<(Lang, String)>, env: &mut Env) -> Res {
    // All on one thread, one after the other; then each on a fresh thread.
    let seq = std::thread::scope(|s| {
        s.spawn(|| c.iter().map(|(l, t)| l.meaning(t)).collect::<Vec<_>>())
            .join()
    });
    let Ok(seq) = seq else {
        return bad("parsing or evaluating the texts panics");
    };
    let (mut ok, mut no) = (0, 0);
    for ((l, t), got) in c.iter().zip(&seq) {
        let fresh =
            std::thread::scope(|s| s.spawn(|| l.meaning(t)).join());
        let Ok(fresh) = fresh else {
            return bad(format!("{l:?} {t:?} panics"));
        };
        match &fresh {
            Ok(_) => ok += 1,
            Err(_) => no += 1,
        }
        ensure!(
            *got == fresh,
            "{l:?} {t:?} on a fresh thread: {fresh:?}; after {} other texts: {got:?}",
            c.len()
        );
    }
    env.label_if(ok > 0, "has-accepted");
    env.label_if(no > 0, "has-rejected");
    Ok(ok > 0 && no > 0)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    /// Wrappers from the inside to the outside.
    wrap: Vec<u8>,
    width: usize,
    opts: Opts,
    rec: Rec,
    inner: FldEx,
    sub: SubEx,
}

fn nest_case() -> BoxedStrategy<Nest> {
    (
        vec(0u8..6, 0..30),
        prop_oneof![Just(1usize), 1usize..6, 30usize..400],
        expr::opts(),
        vec(rec::field_dense(false), 1..4).prop_map(Rec),
        expr::fld_ex(),
        expr::sub_ex(),
    )
        .prop_map(|(wrap, width, opts, rec, inner, sub)| Nest {
            wrap: if width > 6 { wrap.into_iter().take(3).collect() } else { wrap },
            width,
            opts,
            rec,
            inner,
            sub,
        })
        .boxed()
}

fn wrap<A: Atom>(e: &Ex<A>, w: &[u8], width: usize) -> Ex<A> {
    let mut x = e.clone();
    for k in w {
        let b = Box::new(x.clone());
        x = match k {
            0 => Ex::Group(b),
            1 => Ex::Not(Box::new(Ex::Group(b))),
            2 => Ex::Bin(Bop::And, vec![x, e.clone()]),
            3 => Ex::Bin(Bop::Or, vec![e.clone(), x]),
            4 => Ex::Bin(Bop::Xor, vec![x, e.clone()]),
            _ => Ex::Group(Box::new(Ex::Bin(Bop::Or, vec![e.clone(), x]))),
        };
    }
    if width > 1 {
        x = Ex::Bin(
            Bop::Or,
            (0..width).map(|_| Ex::Group(Box::new(x.clone()))).collect(),
        );
    }
    x
}

fn nesting(c: &Nest, env: &mut Env) -> Res {
    let e = wrap(&c.inner, &c.wrap, c.width);
    let text = expr::plain(&e);
    let m = RecordMatcher::new(&text).map_err(|e| viol("filter", &text, e))?;
    let bytes = c.rec.bytes();
    let lr = ByteRecord::from_bytes(&bytes).unwrap();
    let want = e.eval(&c.rec, &c.opts);
    let got = m.is_match(&lr, &c.opts.lib());
    ensure!(got == want, "{text:?} on {:?}: {got}, expected {want}", B(bytes.clone()));

    let e = wrap(&c.sub, &c.wrap, c.width);
    let text = expr::plain(&e);
    let m = SubfieldMatcher::new(&text)
        .map_err(|e| viol("subfield matcher", &text, e))?;
    let f = &lr.fields()[0];
    let want = e.eval(&c.rec.0[0].subs, &c.opts);
    let got = m.is_match(f.subfields(), &c.opts.lib());
    ensure!(got == want, "{text:?} on {:?}: {got}, expected {want}", B(bytes.clone()));
    env.label_if(c.width > 30, "many-groups");
    env.label_if(c.wrap.len() > 15, "deep");
    Ok(c.wrap.len() > 2 || c.width > 2)
}

pub fn m04() -> Property {
    Property {
        id: "M04",
        rule: "the sequence has accepted and rejected texts / the expression has more than two groups",
        assumptions: &[
            "nesting up to 30 connectives is moderate",
        ],
        subs: vec![
            sub(
                "history",
                6_000,
                600_000,
                || vec(texts(), 1..24).boxed(),
                history,
            ),
            sub("nesting", 6_000, 600_000, nest_case, nesting),
        ],
    }
}
