//! Reference model of format expressions.

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::expr::{self, Codes, Lay, OccPat, Opts, SubEx, TagPat, lit};
use crate::rec::{B, Fld, Rec};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Val {
    pub mods: String,
    pub prefix: Option<String>,
    pub codes: Codes,
    /// None: default bound (1); Some(None): unlimited; Some(Some(n)).
    pub bound: Option<Option<usize>>,
    pub suffix: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Frags {
    Val(Val),
    Cons(Vec<Frags>),
    Then(Vec<Frags>),
    Group(String, Box<Frags>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fmt {
    pub tag: TagPat,
    pub occ: OccPat,
    pub frags: Frags,
    pub filter: Option<SubEx>,
}

fn strip_overread(v: &[u8]) -> Vec<u8> {
    match v.iter().position(|c| *c == b'@') {
        Some(p) => [&v[..p], &v[p + 1..]].concat(),
        None => v.to_vec(),
    }
}

fn trim(v: &[u8]) -> &[u8] {
    let mut s = 0;
    'a: while s < v.len() {
        for n in 1..=4 {
            if let Some(x) = v.get(s..s + n)
                && let Ok(t) = std::str::from_utf8(x)
            {
                if t.chars().all(char::is_whitespace) {
                    s += n;
                    continue 'a;
                }
                break 'a;
            }
        }
        break;
    }
    let mut e = v.len();
    'b: while e > s {
        for n in 1..=4 {
            if e - s >= n
                && let Ok(t) = std::str::from_utf8(&v[e - n..e])
            {
                if t.chars().all(char::is_whitespace) {
                    e -= n;
                    continue 'b;
                }
                break 'b;
            }
        }
        break;
    }
    &v[s..e]
}

fn modify(mut v: Vec<u8>, mods: &str) -> Vec<u8> {
    if mods.contains('o') {
        v = strip_overread(&v);
    }
    if mods.contains('t') {
        v = trim(&v).to_vec();
    }
    if mods.contains('w') {
        v.retain(|c| *c != b' ');
    }
    if mods.contains('l') {
        v = expr::lower(&v);
    }
    if mods.contains('u') {
        v = expr::upper(&v);
    }
    v
}

impl Frags {
    fn eval(&self, f: &Fld, strip: bool) -> Vec<u8> {
        match self {
            Frags::Val(v) => {
                let n = match v.bound {
                    None => 1,
                    Some(None) => usize::MAX,
                    Some(Some(n)) => n,
                };
                let mut o = vec![];
                for (_, x) in
                    f.subs.iter().filter(|(c, _)| v.codes.has(*c)).take(n)
                {
                    o.extend(v.prefix.as_deref().unwrap_or("").as_bytes());
                    if strip {
                        o.extend(strip_overread(&x.0));
                    } else {
                        o.extend_from_slice(&x.0);
                    }
                    o.extend(v.suffix.as_deref().unwrap_or("").as_bytes());
                }
                modify(o, &v.mods)
            }
            Frags::Cons(v) => v.iter().flat_map(|x| x.eval(f, strip)).collect(),
            Frags::Then(v) => {
                let mut o = vec![];
                for x in v {
                    let r = x.eval(f, strip);
                    if r.is_empty() {
                        break;
                    }
                    o.extend(r);
                }
                o
            }
            Frags::Group(m, x) => modify(x.eval(f, strip), m),
        }
    }

    pub fn text(&self, l: &mut Lay) -> String {
        let mods = |m: &str, l: &mut Lay| {
            if m.is_empty() {
                String::new()
            } else {
                format!("?{m}{}", l.sp())
            }
        };
        match self {
            Frags::Val(v) => {
                let mut s = mods(&v.mods, l);
                if let Some(ref p) = v.prefix {
                    s.push_str(&lit(p, l));
                    s.push_str(l.ws(" "));
                }
                s.push_str(&v.codes.text());
                match v.bound {
                    None => {}
                    Some(None) => s.push_str(".."),
                    Some(Some(n)) => s.push_str(&format!("..{n}")),
                }
                if let Some(ref p) = v.suffix {
                    s.push_str(l.ws(" "));
                    s.push_str(&lit(p, l));
                }
                s
            }
            Frags::Cons(v) | Frags::Then(v) => {
                let op = if matches!(self, Frags::Cons(_)) { "<*>" } else { "<$>" };
                let mut s = String::new();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(l.ws(" "));
                        s.push_str(op);
                        s.push_str(l.ws(" "));
                    }
                    s.push_str(&x.text(l));
                }
                s
            }
            Frags::Group(m, x) => {
                let m = mods(m, l);
                format!("({}{}{}{})", m, l.ws(""), x.text(l), l.ws(""))
            }
        }
    }

    fn bare(&self) -> bool {
        match self {
            Frags::Val(v) => {
                v.mods.is_empty()
                    && v.prefix.is_none()
                    && v.suffix.is_none()
                    && v.bound.is_none()
            }
            Frags::Group(m, x) => m.is_empty() && x.bare(),
            _ => false,
        }
    }
}

impl Fmt {
    pub fn text(&self, l: &mut Lay) -> String {
        format!(
            "{}{}{}{{{}{}{}}}",
            self.tag.text(),
            self.occ.text(),
            l.ws(""),
            l.ws(" "),
            match &self.filter {
                None => self.frags.text(l),
                Some(e) => format!(
                    "{}{}|{}{}",
                    self.frags.text(l),
                    l.ws(" "),
                    l.ws(" "),
                    e.text(l)
                ),
            },
            l.ws(" ")
        )
    }

    /// Is the text also a path expression (then a query reads it as such)?
    pub fn pathlike(&self) -> bool {
        self.frags.bare()
    }

    pub fn eval(&self, r: &Rec, o: &Opts, strip: bool) -> Vec<B> {
        r.0.iter()
            .filter(|f| {
                self.tag.is_match(&f.tag) && self.occ.is_match(f.occ.as_deref())
            })
            .filter(|f| self.filter.as_ref().is_none_or(|e| e.eval(&f.subs, o)))
            .map(|f| self.frags.eval(f, strip))
            .filter(|v| !v.is_empty())
            .map(B)
            .collect()
    }
}

/// A group without modifiers whose first value has some would be read as a
/// group with these modifiers; such a value gets none.
fn group(m: String, mut x: Frags) -> Frags {
    fn clear(x: &mut Frags) {
        match x {
            Frags::Val(v) => v.mods.clear(),
            Frags::Cons(v) | Frags::Then(v) => clear(&mut v[0]),
            Frags::Group(..) => {}
        }
    }
    if m.is_empty() {
        clear(&mut x);
    }
    Frags::Group(m, Box::new(x))
}

fn mods() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        2 => vec(select(&['l', 'u', 't', 'w', 'o'][..]), 1..4)
            .prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

fn affix() -> BoxedStrategy<Option<String>> {
    option::weighted(
        0.4,
        select(&["", " ", ", ", "(", ")", "ä", "@", "A", " @x ", "'", "\"", "\\", "/"][..])
            .prop_map(|s| s.to_string()),
    )
    .boxed()
}

fn val() -> BoxedStrategy<Frags> {
    (
        mods(),
        affix(),
        expr::codes(),
        prop_oneof![
            3 => Just(None),
            2 => Just(Some(None)),
            2 => (0usize..4).prop_map(|n| Some(Some(n))),
        ],
        affix(),
    )
        .prop_map(|(mods, prefix, codes, bound, suffix)| {
            Frags::Val(Val { mods, prefix, codes, bound, suffix })
        })
        .boxed()
}

fn frags(depth: u32) -> BoxedStrategy<Frags> {
    if depth == 0 {
        return val();
    }
    let inner = frags(depth - 1);
    // A group holds a list or a value, never directly a group.
    let body = prop_oneof![val(), list(inner.clone())];
    let group = (mods(), body).prop_map(|(m, b)| group(m, b));
    prop_oneof![2 => val(), 2 => group, 3 => list(inner)].boxed()
}

/// Lists whose items are what the grammar allows at this place.
fn list(inner: BoxedStrategy<Frags>) -> BoxedStrategy<Frags> {
    let item = inner.prop_map(|x| match x {
        Frags::Cons(_) | Frags::Then(_) => {
            group(String::new(), x)
        }
        x => x,
    });
    let then = vec(item.clone(), 2..4).prop_map(Frags::Then);
    let cons_item = prop_oneof![3 => item, 1 => then.clone()];
    prop_oneof![then, vec(cons_item, 2..4).prop_map(Frags::Cons)].boxed()
}

pub fn fmt(filter: bool) -> BoxedStrategy<Fmt> {
    let f = if filter {
        option::weighted(0.3, expr::sub_ex()).boxed()
    } else {
        Just(None).boxed()
    };
    (
        prop_oneof![
            5 => select(&["012A", "012B", "013A", "028A"][..]).prop_map(TagPat::exact),
            2 => select(&["012.", "0...", "....", "01[23]A"][..])
                .prop_map(|s| expr::parse_tag_pat(s).unwrap()),
        ],
        expr::occ_pat(),
        frags(2),
        f,
    )
        .prop_map(|(tag, occ, frags, filter)| Fmt { tag, occ, frags, filter })
        .boxed()
}
