//! Reference model of PICA+ records, their wire format and their generators.

use std::fmt;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Byte string with a readable, lossless JSON form.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct B(pub Vec<u8>);

impl B {
    pub fn s(s: &str) -> Self {
        B(s.as_bytes().to_vec())
    }
    pub fn is_utf8(&self) -> bool {
        std::str::from_utf8(&self.0).is_ok()
    }
    pub fn lossy(&self) -> String {
        String::from_utf8_lossy(&self.0).to_string()
    }
}

impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\"{}\"", esc(&self.0))
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for &c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}

fn unesc(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            match b.get(i + 1)? {
                b'\\' => {
                    out.push(b'\\');
                    i += 2;
                }
                b'x' => {
                    out.push(u8::from_str_radix(s.get(i + 2..i + 4)?, 16).ok()?);
                    i += 4;
                }
                _ => return None,
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(out)
}

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&esc(&self.0))
    }
}

impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unesc(&s).map(B).ok_or_else(|| serde::de::Error::custom("bad escape"))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fld {
    pub tag: String,
    pub occ: Option<String>,
    pub subs: Vec<(char, B)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Rec(pub Vec<Fld>);

impl Fld {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = self.tag.as_bytes().to_vec();
        if let Some(ref x) = self.occ {
            o.push(b'/');
            o.extend_from_slice(x.as_bytes());
        }
        o.push(b' ');
        for (c, v) in &self.subs {
            o.push(0x1f);
            o.push(*c as u8);
            o.extend_from_slice(&v.0);
        }
        o.push(0x1e);
        o
    }
    pub fn level(&self) -> u8 {
        self.tag.as_bytes()[0] - b'0'
    }
}

impl Rec {
    /// One line of normalized PICA+, including the newline.
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for f in &self.0 {
            o.extend(f.bytes());
        }
        o.push(b'\n');
        o
    }
    pub fn is_utf8(&self) -> bool {
        self.0.iter().all(|f| f.subs.iter().all(|(_, v)| v.is_utf8()))
    }
    pub fn ppn(&self) -> Option<&B> {
        self.0
            .iter()
            .filter(|f| {
                f.tag == "003@"
                    && (f.occ.is_none() || f.occ.as_deref() == Some("00"))
            })
            .flat_map(|f| f.subs.iter())
            .find(|(c, _)| *c == '0')
            .map(|(_, v)| v)
    }
}

/// Reference decoder, written by hand from the grammar. `None`: not a record.
pub fn decode(b: &[u8]) -> Option<Rec> {
    let mut fields = vec![];
    let mut i = 0;
    loop {
        if i < b.len() && b[i] == b'\n' && !fields.is_empty() {
            return (i + 1 == b.len()).then_some(Rec(fields));
        }
        let (f, n) = decode_field(&b[i..])?;
        fields.push(f);
        i += n;
    }
}

pub fn is_tag(t: &[u8]) -> bool {
    t.len() == 4
        && (b'0'..=b'2').contains(&t[0])
        && t[1].is_ascii_digit()
        && t[2].is_ascii_digit()
        && (t[3].is_ascii_uppercase() || t[3] == b'@')
}

/// Decodes one field at the start of `b`; returns it with its length.
pub fn decode_field(b: &[u8]) -> Option<(Fld, usize)> {
    let tag = b.get(..4)?;
    if !is_tag(tag) {
        return None;
    }
    let mut i = 4;
    let mut occ = None;
    if b.get(i) == Some(&b'/') {
        let start = i + 1;
        let mut e = start;
        while e < b.len() && b[e].is_ascii_digit() {
            e += 1;
        }
        if !(2..=3).contains(&(e - start)) {
            return None;
        }
        occ = Some(String::from_utf8(b[start..e].to_vec()).unwrap());
        i = e;
    }
    if b.get(i) != Some(&b' ') {
        return None;
    }
    i += 1;
    let mut subs = vec![];
    loop {
        match b.get(i)? {
            0x1e => {
                return Some((
                    Fld {
                        tag: String::from_utf8(tag.to_vec()).unwrap(),
                        occ,
                        subs,
                    },
                    i + 1,
                ));
            }
            0x1f => {
                let c = *b.get(i + 1)?;
                if !c.is_ascii_alphanumeric() {
                    return None;
                }
                let start = i + 2;
                let mut e = start;
                while e < b.len() && b[e] != 0x1e && b[e] != 0x1f {
                    e += 1;
                }
                subs.push((c as char, B(b[start..e].to_vec())));
                i = e;
            }
            _ => return None,
        }
    }
}

// ---------------------------------------------------------------- generators

pub const TAGS: &[&str] = &[
    "003@", "002@", "012A", "012B", "013A", "028A", "041A", "045E", "101@",
    "145Z", "146Z", "203@", "209A", "245Z",
];
pub const OCCS: &[&str] = &[
    "00", "01", "02", "03", "09", "10", "11", "99", "000", "001", "010", "021",
    "100", "999",
];
pub const CODES: &[char] = &['0', '9', 'a', 'b', 'c', 'x', 'z', 'A', 'B', 'Z'];

/// Values that share prefixes, suffixes, case variants and special bytes.
pub const VALUES: &[&str] = &[
    "", "a", "A", "ab", "abc", "abcd", "ABC", "Abc", "abd", "bc", "xabc",
    "abcabc", "Baum", "baum", "Baumm", "Bäume", "BÄUME", "Ba\u{308}ume",
    "Haus", "Haus am See", " trim me ", "x  y", "@Der Baum", "Der @Baum", "@",
    "ß", "ẞ", "SS", "K", "\u{212a}", "k", "İ", "i̇", "ſ", "s", "Ω", "ω", "é",
    "e\u{301}", "ﬁ", "fi", "日本", "0", "1", "10", "123", "0123456789", "118540238",
    "041274377", "2021-03-04", "gnd", "Ts1", "Tp1", "$", "a$b", "$$", "\"", "'",
    "a\"b", "a'b", "\\", "a\\nb", ",", "a,b", "|", "a|b", ";", "a;b", "<a>", "&",
    "a&b", "/", "\t", "a\tb", "\r", "\u{1}", "\u{85}", "\u{a0}", "[a]", "(a)",
    "{a}", ".*", "a.c", "^a", "a$", "?", "=", "#", "!", "TRUE", "null",
];

pub fn tag() -> BoxedStrategy<String> {
    prop_oneof![
        9 => select(TAGS).prop_map(|s| s.to_string()),
        1 => "[012][0-9]{2}[A-Z@]",
    ]
    .boxed()
}

pub fn occ() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        5 => Just(None),
        5 => select(OCCS).prop_map(|s| Some(s.to_string())),
        1 => "[0-9]{2,3}".prop_map(Some),
    ]
    .boxed()
}

pub fn code() -> BoxedStrategy<char> {
    prop_oneof![
        12 => select(CODES),
        1 => prop::char::range('a', 'z'),
        1 => prop::char::range('A', 'Z'),
        1 => prop::char::range('0', '9'),
    ]
    .boxed()
}

/// Removes bytes that end a value (and the newline, for line-based data).
fn clean(s: String) -> B {
    B(s.chars()
        .filter(|c| !matches!(c, '\u{1e}' | '\u{1f}' | '\n'))
        .collect::<String>()
        .into_bytes())
}

pub fn value_utf8() -> BoxedStrategy<B> {
    prop_oneof![
        10 => select(VALUES).prop_map(B::s),
        2 => vec(select(&['a', 'b', 'c', 'A', ' ', 'ä'][..]), 0..6)
            .prop_map(|v| B::s(&v.into_iter().collect::<String>())),
        1 => vec(any::<char>(), 0..6)
            .prop_map(|v| clean(v.into_iter().collect())),
        1 => "[ -~]{0,8}".prop_map(clean),
    ]
    .boxed()
}

const BROKEN: &[&[u8]] = &[
    b"\xff", b"ab\xffc", b"\xc3", b"\xc3\x28", b"\xed\xa0\x80", b"\xf0\x9f\x92",
];

pub fn value_bytes() -> BoxedStrategy<B> {
    prop_oneof![
        8 => value_utf8(),
        1 => vec(any::<u8>(), 0..6).prop_map(|v| B(v
            .into_iter()
            .filter(|c| !matches!(c, 0x1e | 0x1f | b'\n'))
            .collect())),
        1 => select(BROKEN)
        .prop_map(|b| B(b.to_vec())),
    ]
    .boxed()
}

pub fn field_with(value: BoxedStrategy<B>) -> BoxedStrategy<Fld> {
    (tag(), occ(), vec((code(), value), 0..5))
        .prop_map(|(tag, occ, subs)| Fld { tag, occ, subs })
        .boxed()
}

pub fn field_utf8() -> BoxedStrategy<Fld> {
    field_with(value_utf8())
}

pub fn field_bytes() -> BoxedStrategy<Fld> {
    field_with(value_bytes())
}

/// Few tags and codes, so that repetitions and matches are frequent.
pub fn field_dense(utf8: bool) -> BoxedStrategy<Fld> {
    let v = if utf8 { value_utf8() } else { value_bytes() };
    (
        select(&["012A", "012A", "012B", "013A", "003@", "145Z", "209A"][..]),
        prop_oneof![
            3 => Just(None),
            2 => select(&["00", "01", "02", "010"][..]).prop_map(Some)
        ],
        vec((select(&['a', 'b', 'c', '0', 'x'][..]), v), 0..5),
    )
        .prop_map(|(t, o, subs)| Fld {
            tag: t.to_string(),
            occ: o.map(|s| s.to_string()),
            subs,
        })
        .boxed()
}

/// A record of any shape. `utf8`: only valid UTF-8 values.
pub fn rec(utf8: bool) -> BoxedStrategy<Rec> {
    let v = if utf8 { field_utf8() } else { field_bytes() };
    prop_oneof![
        3 => vec(field_dense(utf8), 1..7),
        2 => vec(v, 1..6),
    ]
    .prop_map(Rec)
    .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Large {
    Fields,
    Subfields,
    Values,
}

/// Sizes around powers of two.
pub const SIZES: [usize; 9] = [127, 128, 129, 255, 256, 257, 300, 511, 700];

/// Repeats the fields, the subfields of one field, or its values.
pub fn enlarge(r: &mut Rec, kind: Large, mix: usize) {
    if r.0.is_empty() {
        return;
    }
    let n = SIZES[mix % SIZES.len()];
    let at = mix / SIZES.len() % r.0.len();
    match kind {
        Large::Fields => {
            let fs = r.0.clone();
            r.0 = fs.into_iter().cycle().take(n).collect();
        }
        Large::Subfields => {
            let s = std::mem::take(&mut r.0[at].subs);
            r.0[at].subs = s.into_iter().cycle().take(n).collect();
        }
        Large::Values => {
            for s in &mut r.0[at].subs {
                let n = [255, 256, 4_000, 8_191, 8_192, 65_535, 65_536, 66_000][mix % 8];
                s.1.0 = s.1.0.iter().copied().cycle().take(n).collect();
            }
        }
    }
}

pub fn large() -> BoxedStrategy<Large> {
    select(&[Large::Fields, Large::Subfields, Large::Values][..]).boxed()
}

pub fn ppn() -> BoxedStrategy<B> {
    prop_oneof![
        6 => select(&["1", "2", "3", "4", "5", "10", "118540238", "12345678X"][..])
            .prop_map(B::s),
        1 => "[0-9]{1,4}[0-9X]".prop_map(|s: String| B::s(&s)),
        // close to the other ones
        1 => select(&["12345678x", "12345678", "01", "1 ", " 1", "\u{661}", "+1", "1.0"][..])
            .prop_map(B::s),
    ]
    .boxed()
}

/// A record as the tool sees it: usually an identifier field first.
pub fn rec_ppn(utf8: bool) -> BoxedStrategy<Rec> {
    (
        prop_oneof![
            10 => ppn().prop_map(Some),
            1 => Just(None),
        ],
        rec(utf8),
    )
        .prop_map(|(p, mut r)| {
            if let Some(p) = p {
                r.0.insert(
                    0,
                    Fld {
                        tag: "003@".into(),
                        occ: None,
                        subs: vec![('0', p)],
                    },
                );
            }
            r
        })
        .boxed()
}

/// Applies the library's decoder to model bytes; panics if rejected.
pub fn lib_fields(r: &pica_record::primitives::RecordRef) -> Rec {
    Rec(r.fields()
        .iter()
        .map(|f| Fld {
            tag: f.tag().to_string(),
            occ: f
                .occurrence()
                .map(|o| String::from_utf8_lossy(o.as_bytes()).to_string()),
            subs: f
                .subfields()
                .iter()
                .map(|s| {
                    let v: &[u8] = s.value().as_ref();
                    (**s.code(), B(v.to_vec()))
                })
                .collect(),
        })
        .collect())
}
