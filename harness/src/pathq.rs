//! Reference model of paths and queries.

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::expr::{self, Codes, Lay, OccPat, Opts, SubEx, TagPat, lit};
use crate::fmtm::{self, Fmt};
use crate::rec::{B, Fld, Rec};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct PathM {
    pub tag: TagPat,
    pub occ: OccPat,
    /// One group per column.
    pub groups: Vec<Codes>,
    pub filter: Option<SubEx>,
    pub curly: bool,
    pub parens: bool,
}

impl PathM {
    pub fn text(&self, l: &mut Lay) -> String {
        let head = format!("{}{}", self.tag.text(), self.occ.text());
        if !self.curly {
            let c = &self.groups[0];
            return match c {
                Codes::Compat(_) | Codes::CompatStar => {
                    format!("{head}{}{}", l.ws(""), c.text())
                }
                _ => format!("{head}.{}", c.text()),
            };
        }
        let mut s = format!("{head}{}{{{}", l.ws(""), l.ws(""));
        if self.parens {
            s.push('(');
            s.push_str(l.ws(""));
        }
        for (i, c) in self.groups.iter().enumerate() {
            if i > 0 {
                s.push_str(l.ws(""));
                s.push(',');
                s.push_str(l.ws(" "));
            }
            s.push_str(&c.text());
        }
        if self.parens {
            s.push_str(l.ws(""));
            s.push(')');
        }
        if let Some(ref e) = self.filter {
            s.push_str(l.ws(" "));
            s.push('|');
            s.push_str(l.ws(" "));
            s.push_str(&e.text(l));
        }
        s.push_str(l.ws(""));
        s.push('}');
        s
    }

    fn fields<'a>(&self, r: &'a Rec, o: &Opts) -> Vec<&'a Fld> {
        r.0.iter()
            .filter(|f| {
                self.tag.is_match(&f.tag) && self.occ.is_match(f.occ.as_deref())
            })
            .filter(|f| self.filter.as_ref().is_none_or(|e| e.eval(&f.subs, o)))
            .collect()
    }

    pub fn eval(&self, r: &Rec, o: &Opts) -> Vec<B> {
        let mut out = vec![];
        for f in self.fields(r, o) {
            for (c, v) in &f.subs {
                if self.groups.iter().any(|g| g.has(*c)) {
                    out.push(v.clone());
                }
            }
        }
        out
    }
}

pub fn plain(tag: &str, code: char) -> PathM {
    PathM {
        tag: TagPat::exact(tag),
        occ: OccPat::Any,
        groups: vec![Codes::One(code)],
        filter: None,
        curly: false,
        parens: false,
    }
}

/// A path to the fields that satisfy a condition.
pub fn only(tag: TagPat, occ: OccPat, code: Codes, m: expr::SubM) -> PathM {
    PathM {
        tag,
        occ,
        groups: vec![code],
        filter: Some(expr::Ex::Atom(m)),
        curly: true,
        parens: false,
    }
}

/// The codes a matcher selects.
pub fn code_of(m: &expr::SubM) -> Codes {
    use expr::SubM::*;
    match m {
        Exists(c) | Card(c, ..) | Rel(_, c, ..) | Contains(_, c, ..) => c.clone(),
        Regex(_, c, ..) | RegexSet(_, c, ..) => c.clone(),
        In(_, c, ..) | InChars(_, c, ..) => c.clone(),
    }
}

pub fn hit_tag() -> BoxedStrategy<TagPat> {
    prop_oneof![
        6 => select(&["012A", "012A", "012B", "013A", "003@", "145Z", "209A"][..])
            .prop_map(TagPat::exact),
        1 => select(&["012.", "01[2-3]A", "...@", "....", "[02]..."][..])
            .prop_map(|s| expr::parse_tag_pat(s).unwrap()),
        1 => expr::tag_pat(),
    ]
    .boxed()
}

pub fn path() -> BoxedStrategy<PathM> {
    let simple = (hit_tag(), expr::occ_pat(), expr::codes_compat()).prop_map(
        |(tag, occ, c)| PathM {
            tag,
            occ,
            groups: vec![c],
            filter: None,
            curly: false,
            parens: false,
        },
    );
    let curly = (
        hit_tag(),
        expr::occ_pat(),
        vec(expr::codes_compat(), 1..4),
        option::weighted(0.4, expr::sub_ex()),
        any::<bool>(),
    )
        .prop_map(|(tag, occ, groups, filter, parens)| PathM {
            tag,
            occ,
            groups,
            filter,
            curly: true,
            parens,
        });
    prop_oneof![1 => simple, 1 => curly].boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum QFrag {
    Path(PathM),
    Lit(String),
    Fmt(Fmt),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct QueryM(pub Vec<QFrag>);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct QOpts {
    pub m: Opts,
    pub squash: bool,
    pub merge: bool,
    pub sep: String,
}

impl QueryM {
    pub fn text(&self, l: &mut Lay) -> String {
        let mut s = String::new();
        for (i, f) in self.0.iter().enumerate() {
            if i > 0 {
                s.push_str(l.ws(""));
                s.push(',');
                s.push_str(l.ws(" "));
            }
            match f {
                QFrag::Path(p) => s.push_str(&p.text(l)),
                QFrag::Lit(x) => s.push_str(&lit(x, l)),
                QFrag::Fmt(f) => s.push_str(&f.text(l)),
            }
        }
        s
    }

    pub fn columns(&self) -> usize {
        self.0
            .iter()
            .map(|f| match f {
                QFrag::Path(p) => p.groups.len(),
                _ => 1,
            })
            .sum()
    }

    pub fn eval(&self, r: &Rec, o: &QOpts) -> Vec<Vec<B>> {
        let mut rows: Vec<Vec<B>> = vec![vec![]];
        for f in &self.0 {
            let mut t = f.table(r, o);
            if o.merge {
                let n = t[0].len();
                let merged = (0..n)
                    .map(|i| {
                        let col: Vec<&[u8]> =
                            t.iter().map(|r| &r[i].0[..]).collect();
                        B(col.join(o.sep.as_bytes()))
                    })
                    .collect();
                t = vec![merged];
            }
            rows = cross(&rows, &t);
        }
        rows
    }
}

fn cross(a: &[Vec<B>], b: &[Vec<B>]) -> Vec<Vec<B>> {
    a.iter()
        .flat_map(|x| b.iter().map(move |y| [&x[..], &y[..]].concat()))
        .collect()
}

impl QFrag {
    fn table(&self, r: &Rec, o: &QOpts) -> Vec<Vec<B>> {
        match self {
            QFrag::Lit(s) => vec![vec![B::s(s)]],
            QFrag::Fmt(f) => {
                let v = f.eval(r, &o.m, false);
                if v.is_empty() {
                    vec![vec![B::s("")]]
                } else {
                    v.into_iter().map(|x| vec![x]).collect()
                }
            }
            QFrag::Path(p) => {
                let mut out = vec![];
                for f in p.fields(r, &o.m) {
                    let mut rows: Vec<Vec<B>> = vec![vec![]];
                    for g in &p.groups {
                        let mut vals: Vec<B> = f
                            .subs
                            .iter()
                            .filter(|(c, _)| g.has(*c))
                            .map(|(_, v)| v.clone())
                            .collect();
                        if vals.is_empty() {
                            vals.push(B::s(""));
                        }
                        if o.squash {
                            let x: Vec<&[u8]> =
                                vals.iter().map(|v| &v.0[..]).collect();
                            vals = vec![B(x.join(o.sep.as_bytes()))];
                        }
                        let col: Vec<Vec<B>> =
                            vals.into_iter().map(|v| vec![v]).collect();
                        rows = cross(&rows, &col);
                    }
                    out.extend(rows);
                }
                if out.is_empty() {
                    out.push(vec![B::s(""); p.groups.len()]);
                }
                out
            }
        }
    }
}

pub fn qfrag() -> BoxedStrategy<QFrag> {
    prop_oneof![
        7 => path().prop_map(QFrag::Path),
        1 => expr::needle().prop_map(QFrag::Lit),
        2 => fmtm::fmt(true)
            .prop_filter("path-like format", |f| !f.pathlike())
            .prop_map(QFrag::Fmt),
    ]
    .boxed()
}

pub fn query() -> BoxedStrategy<QueryM> {
    vec(qfrag(), 1..4).prop_map(QueryM).boxed()
}

pub fn qopts() -> BoxedStrategy<QOpts> {
    (
        expr::opts(),
        any::<bool>(),
        any::<bool>(),
        select(&["|", ";", "", "--", ", ", "ä"][..]),
    )
        .prop_map(|(m, squash, merge, sep)| QOpts {
            m,
            squash,
            merge,
            sep: sep.to_string(),
        })
        .boxed()
}
