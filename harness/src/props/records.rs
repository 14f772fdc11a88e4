//! R01 grammar and round-trip, R02 reader, R03 writer.

use std::collections::VecDeque;
use std::io::{Read, Write};
use std::str::FromStr;

use flate2::Compression;
use flate2::write::GzEncoder;
use pica_record::io::{ByteRecordWrite, GzipWriter, PlainWriter};
use pica_record::prelude::*;
use pica_record::primitives as p;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use sha2::Digest;

use crate::ensure;
use crate::expr::{self, OccPat, TagPat};
use crate::mutate;
use crate::rec::{self, B, Rec, decode, decode_field, esc, lib_fields};
use crate::runner::{Env, Fail, Property, Res, bad, no_panic, sub};

fn sha(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(b).to_vec()
}

// ------------------------------------------------------------------------ R01

fn grammar_case() -> BoxedStrategy<B> {
    // A newline inside a value is part of the grammar of `from_bytes`.
    let base = prop_oneof![
        6 => rec::rec(false).prop_map(|r| r.bytes()),
        1 => vec(select(&b"0123 @AZa/\x1e\x1f\n"[..]), 0..24),
        1 => vec(any::<u8>(), 0..12),
    ]
    .boxed();
    mutate::bytes(base, 3).prop_map(B).boxed()
}

/// Hundreds of fields or subfields, or long values.
fn grammar_large() -> BoxedStrategy<B> {
    let base = (rec::rec(false), rec::large(), any::<u32>()).prop_map(|(mut r, k, mix)| {
        rec::enlarge(&mut r, k, mix as usize);
        r.bytes()
    });
    mutate::bytes(base.boxed(), 1).prop_map(B).boxed()
}

fn grammar(b: &B, env: &mut Env) -> Res {
    let want = decode(&b.0);
    let got = ByteRecord::from_bytes(&b.0);
    env.label(if want.is_some() { "valid" } else { "invalid" });
    let refd = p::RecordRef::from_bytes(&b.0);
    ensure!(
        refd.is_ok() == want.is_some(),
        "RecordRef::from_bytes accepts = {}, grammar says {}",
        refd.is_ok(),
        want.is_some()
    );
    let want = match (want, got) {
        (None, Err(_)) => return Ok(b.0.len() > 4),
        (Some(_), Err(e)) => {
            return bad(format!("valid record rejected ({e})"));
        }
        (None, Ok(r)) => {
            return bad(format!("invalid bytes decoded as {:?}", lib_fields(&r)));
        }
        (Some(w), Ok(r)) => {
            check_record(&w, &r, &b.0)?;
            w
        }
    };
    env.label_if(!want.is_utf8(), "not-utf8");
    env.label_if(want.0.len() > 1, "several-fields");
    let r = refd.unwrap();
    check_ref(&want, &r)?;

    // owned conversion
    let owned = p::Record::from(r.clone());
    ensure!(r == owned, "owned record differs from the borrowed one");
    ensure!(owned == r, "owned record differs from the borrowed one (sym.)");
    let mut out = vec![];
    owned.write_to(&mut out).unwrap();
    ensure!(out == b.0, "owned record writes {}", esc(&out));
    let mut out = vec![];
    r.write_to(&mut out).unwrap();
    ensure!(out == b.0, "record reference writes {}", esc(&out));
    let back = ByteRecord::from(r.clone());
    let mut out = vec![];
    back.write_to(&mut out).unwrap();
    ensure!(out == b.0, "ByteRecord::from(ref) writes {}", esc(&out));
    ensure!(back.sha256() == sha(&b.0), "sha256 of ByteRecord::from(ref)");

    // UTF-8 view
    ensure!(
        r.validate().is_ok() == want.is_utf8(),
        "validate() = {:?}, all values UTF-8: {}",
        r.validate(),
        want.is_utf8()
    );
    let s = StringRecord::try_from(ByteRecord::from_bytes(&b.0).unwrap());
    match s {
        Ok(s) => {
            ensure!(want.is_utf8(), "StringRecord of invalid UTF-8");
            ensure!(lib_fields(&s) == want, "StringRecord fields differ");
            let mut out = vec![];
            s.write_to(&mut out).unwrap();
            ensure!(out == b.0, "string record writes {}", esc(&out));
        }
        Err(_) => ensure!(!want.is_utf8(), "valid UTF-8 rejected"),
    }
    Ok(true)
}

fn check_record(want: &Rec, r: &ByteRecord, bytes: &[u8]) -> Result<(), Fail> {
    let got = lib_fields(r);
    ensure!(got == *want, "decoded {got:?}, expected {want:?}");
    let mut out = vec![];
    r.write_to(&mut out).unwrap();
    ensure!(out == bytes, "written bytes differ: {}", esc(&out));
    ensure!(r.sha256() == sha(bytes), "sha256 differs");
    ensure!(!r.is_empty(), "non-empty record reports is_empty()");
    Ok(())
}

fn check_ref(want: &Rec, r: &p::RecordRef) -> Result<(), Fail> {
    ensure!(lib_fields(r) == *want, "RecordRef fields differ");
    for (f, w) in r.fields().iter().zip(&want.0) {
        let level = match w.level() {
            0 => p::Level::Main,
            1 => p::Level::Local,
            _ => p::Level::Copy,
        };
        ensure!(f.level() == level, "level of {}", w.tag);
        ensure!(f.tag().level() == level, "level of tag {}", w.tag);
        for c in ['a', '0', 'x', 'A'] {
            let n = w.subs.iter().position(|(k, _)| *k == c);
            ensure!(f.contains(c) == n.is_some(), "contains({c})");
            let found = f.find(|s| *s.code() == c);
            ensure!(
                found.map(|s| s.value().as_bytes().to_vec())
                    == n.map(|n| w.subs[n].1.0.clone()),
                "find({c}) is not the first one"
            );
        }
        ensure!(
            f.validate().is_ok() == w.subs.iter().all(|s| s.1.is_utf8()),
            "field validate()"
        );
        let bytes = w.bytes();
        let mut out = vec![];
        f.write_to(&mut out).unwrap();
        ensure!(out == bytes, "field writes {}", esc(&out));
        let of = p::Field::from(f.clone());
        ensure!(of == *f && *f == of, "owned field differs");
        let mut out = vec![];
        of.write_to(&mut out).unwrap();
        ensure!(out == bytes, "owned field writes {}", esc(&out));
        for (s, (c, v)) in f.subfields().iter().zip(&w.subs) {
            let mut bytes = vec![0x1f, *c as u8];
            bytes.extend(&v.0);
            let mut out = vec![];
            s.write_to(&mut out).unwrap();
            ensure!(out == bytes, "subfield writes {}", esc(&out));
            ensure!(s.validate().is_ok() == v.is_utf8(), "subfield validate()");
            let os = p::Subfield::from(s.clone());
            ensure!(*s == os, "owned subfield differs");
            let again = p::SubfieldRef::from_bytes(&bytes);
            ensure!(
                again.is_ok_and(|a| a == *s),
                "subfield does not decode from its own bytes"
            );
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prim {
    field: B,
    tag: B,
    occ: B,
    sub: B,
    value: B,
    code: char,
}

fn prim_case() -> BoxedStrategy<Prim> {
    let tag = mutate::bytes(
        rec::tag().prop_map(String::into_bytes).boxed(),
        1,
    );
    let occ = prop_oneof![
        "[0-9]{0,5}".prop_map(String::into_bytes),
        mutate::bytes(expr::occ_str().prop_map(String::into_bytes).boxed(), 1),
    ];
    let sub = mutate::bytes(
        (rec::code(), rec::value_bytes())
            .prop_map(|(c, v)| [&[0x1f, c as u8], &v.0[..]].concat())
            .boxed(),
        1,
    );
    let value = mutate::bytes(rec::value_bytes().prop_map(|b| b.0).boxed(), 1);
    let field =
        mutate::bytes(rec::field_bytes().prop_map(|f| f.bytes()).boxed(), 2);
    (field, tag, occ, sub, value, any::<char>().boxed())
        .prop_map(|(f, t, o, s, v, c)| Prim {
            field: B(f),
            tag: B(t),
            occ: B(o),
            sub: B(s),
            value: B(v),
            code: c,
        })
        .boxed()
}

fn prims(c: &Prim, env: &mut Env) -> Res {
    // fields
    let want = match decode_field(&c.field.0) {
        Some((f, n)) if n == c.field.0.len() => Some(f),
        _ => None,
    };
    match (p::FieldRef::from_bytes(&c.field.0), &want) {
        (Ok(f), Some(w)) => {
            env.label("field-valid");
            let mut out = vec![];
            f.write_to(&mut out).unwrap();
            ensure!(out == c.field.0, "field writes {}", esc(&out));
            ensure!(f.tag().to_string() == w.tag, "tag");
            ensure!(f.subfields().len() == w.subs.len(), "subfields");
        }
        (Err(_), None) => env.label("field-invalid"),
        (g, w) => return bad(format!("field: {g:?}, expected {w:?}")),
    }
    // tags
    let ok = rec::is_tag(&c.tag.0);
    env.label_if(ok, "tag-valid");
    ensure!(p::TagRef::from_bytes(&c.tag.0).is_ok() == ok, "TagRef::from_bytes");
    if let Ok(s) = std::str::from_utf8(&c.tag.0) {
        ensure!(p::TagRef::new(s).is_ok() == ok, "TagRef::new");
        ensure!(p::Tag::new(s).is_ok() == ok, "Tag::new");
        if ok {
            let t = p::TagRef::new(s).unwrap();
            ensure!(t == s && p::Tag::from(t.clone()) == t, "tag equality");
            ensure!(t.to_string() == s, "tag text");
        }
    }
    // occurrences
    let o = &c.occ.0;
    let ok = (2..=3).contains(&o.len()) && o.iter().all(u8::is_ascii_digit);
    env.label_if(ok, "occurrence-valid");
    ensure!(
        p::OccurrenceRef::from_bytes(o).is_ok() == ok,
        "OccurrenceRef::from_bytes"
    );
    if let Ok(s) = std::str::from_utf8(o) {
        ensure!(p::OccurrenceRef::new(s).is_ok() == ok, "OccurrenceRef::new");
        ensure!(p::Occurrence::new(s).is_ok() == ok, "Occurrence::new");
        if ok {
            let r = p::OccurrenceRef::new(s).unwrap();
            let w = p::Occurrence::from(r.clone());
            ensure!(r == w && r == s && w == s, "occurrence equality");
            let mut out = vec![];
            w.write_to(&mut out).unwrap();
            ensure!(out == [b"/", &o[..]].concat(), "occurrence bytes");
        }
    }
    // subfields
    let s = &c.sub.0;
    let clean = |v: &[u8]| !v.iter().any(|c| matches!(c, 0x1e | 0x1f));
    let ok = s.len() >= 2
        && s[0] == 0x1f
        && s[1].is_ascii_alphanumeric()
        && clean(&s[2..]);
    ensure!(
        p::SubfieldRef::from_bytes(s).is_ok() == ok,
        "SubfieldRef::from_bytes"
    );
    // values and codes
    let v = &c.value.0;
    ensure!(
        p::SubfieldValueRef::from_bytes(v).is_ok() == clean(v),
        "SubfieldValueRef::from_bytes"
    );
    if let Ok(t) = std::str::from_utf8(v) {
        ensure!(
            p::SubfieldValueRef::new(t).is_ok() == clean(v),
            "SubfieldValueRef::new"
        );
        ensure!(
            p::SubfieldValue::new(t).is_ok() == clean(v),
            "SubfieldValue::new"
        );
    }
    let ok = c.code.is_ascii_alphanumeric();
    ensure!(p::SubfieldCode::new(c.code).is_ok() == ok, "SubfieldCode::new");
    // levels
    for (s, l) in
        [("main", p::Level::Main), ("local", p::Level::Local), ("copy", p::Level::Copy)]
    {
        ensure!(p::Level::from_str(s).is_ok_and(|x| x == l), "level {s}");
    }
    Ok(true)
}

/// A record and another one that is the same or differs in one place.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Rec,
    b: Rec,
}

fn pair_case() -> BoxedStrategy<Pair> {
    (
        rec::rec(false),
        rec::field_bytes(),
        rec::code(),
        rec::value_bytes(),
        any::<u16>(),
        0..12u8,
    )
        .prop_map(|(a, f, c, v, at, how)| {
            let mut b = a.clone();
            let at = at as usize;
            let i = at % b.0.len();
            let j = at / 7;
            match how {
                0 | 1 => {}
                2 => b.0.push(f),
                3 => b.0.insert(i, f),
                4 if b.0.len() > 1 => {
                    b.0.remove(i);
                }
                5 if b.0.len() > 1 => {
                    b.0.pop();
                }
                6 => {
                    b.0[i].occ = match b.0[i].occ.clone() {
                        None => Some("00".into()),
                        Some(o) if o.len() == 2 => Some(format!("0{o}")),
                        Some(_) => None,
                    }
                }
                7 => b.0[i].tag = f.tag,
                8 => b.0[i].subs.push((c, v)),
                9 if !b.0[i].subs.is_empty() => {
                    let n = j % b.0[i].subs.len();
                    b.0[i].subs[n].0 = c;
                }
                10 if !b.0[i].subs.is_empty() => {
                    let n = j % b.0[i].subs.len();
                    let w = &mut b.0[i].subs[n].1.0;
                    match w.last_mut() {
                        Some(l) if at & 1 == 0 => {
                            *l = if *l == b'a' { b'b' } else { b'a' }
                        }
                        _ => w.push(b' '),
                    }
                }
                11 if b.0.len() > 1 => {
                    let n = b.0.len();
                    b.0.swap(i, (i + 1) % n);
                }
                _ => {
                    if !b.0[i].subs.is_empty() {
                        b.0[i].subs.pop();
                    }
                }
            }
            Pair { a, b }
        })
        .boxed()
}

fn hash_of(r: &ByteRecord) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

/// Views of two records are equal exactly if the records are.
fn pairs(c: &Pair, env: &mut Env) -> Res {
    let eq = c.a == c.b;
    env.label(if eq { "equal" } else { "different" });
    let (a, b) = (c.a.bytes(), c.b.bytes());
    let ra = p::RecordRef::from_bytes(&a).map_err(|_| Fail::Skip)?;
    let rb = p::RecordRef::from_bytes(&b).map_err(|_| Fail::Skip)?;
    let (oa, ob) = (p::Record::from(ra.clone()), p::Record::from(rb.clone()));
    ensure!((ra == rb) == eq, "RecordRef == RecordRef, records equal: {eq}");
    ensure!((ra == ob) == eq, "RecordRef == Record, records equal: {eq}");
    ensure!((oa == rb) == eq, "Record == RecordRef, records equal: {eq}");
    let (ba, bb) = (
        ByteRecord::from_bytes(&a).map_err(|_| Fail::Skip)?,
        ByteRecord::from_bytes(&b).map_err(|_| Fail::Skip)?,
    );
    let (na, nb) = (ByteRecord::from(ra.clone()), ByteRecord::from(rb.clone()));
    for (l, lt) in [(&ba, "raw"), (&na, "built")] {
        for (r, rt) in [(&bb, "raw"), (&nb, "built")] {
            ensure!(
                (l == r) == eq,
                "ByteRecord ({lt}) == ByteRecord ({rt}), records equal: {eq}"
            );
            if eq {
                ensure!(hash_of(l) == hash_of(r), "hash of {lt} and {rt}");
            }
            ensure!((l.sha256() == r.sha256()) == eq, "sha256 {lt} {rt}");
        }
    }
    for (f, w) in ra.fields().iter().zip(&c.a.0) {
        for (g, x) in rb.fields().iter().zip(&c.b.0) {
            let eq = w == x;
            let (of, og) =
                (p::Field::from(f.clone()), p::Field::from(g.clone()));
            ensure!((f == g) == eq, "FieldRef == FieldRef {w:?} {x:?}");
            ensure!((*f == og) == eq, "FieldRef == Field {w:?} {x:?}");
            ensure!((of == *g) == eq, "Field == FieldRef {w:?} {x:?}");
            ensure!((of == og) == eq, "Field == Field {w:?} {x:?}");
            let eq = w.tag == x.tag;
            let (tf, tg) = (f.tag(), g.tag());
            ensure!((tf == tg) == eq, "TagRef == TagRef {w:?} {x:?}");
            ensure!(
                (*tf == p::Tag::from(tg.clone())) == eq
                    && (p::Tag::from(tf.clone()) == *tg) == eq
                    && (*tf == x.tag.as_str()) == eq,
                "tag equality {w:?} {x:?}"
            );
            if let (Some(o), Some(q)) = (f.occurrence(), g.occurrence()) {
                let eq = w.occ == x.occ;
                ensure!(
                    (o == q) == eq
                        && (*o == p::Occurrence::from(q.clone())) == eq
                        && (*o == x.occ.as_deref().unwrap_or("")) == eq,
                    "occurrence equality {w:?} {x:?}"
                );
            }
            for (s, (c, v)) in f.subfields().iter().zip(&w.subs).take(4) {
                for (t, (d, u)) in g.subfields().iter().zip(&x.subs).take(4) {
                    let eq = c == d && v == u;
                    ensure!(
                        (s == t) == eq
                            && (*s == p::Subfield::from(t.clone())) == eq,
                        "subfield equality {c}{v:?} {d}{u:?}"
                    );
                    ensure!(
                        (s.code() == t.code()) == (c == d)
                            && (*s.code() == *d) == (c == d),
                        "subfield code equality"
                    );
                    let eq = v == u;
                    let ov = p::SubfieldValue::from(t.value().clone());
                    ensure!(
                        (s.value() == t.value()) == eq
                            && (*s.value() == ov) == eq
                            && (ov == *s.value()) == eq
                            && (*s.value() == u.0) == eq,
                        "value equality {v:?} {u:?}"
                    );
                }
            }
        }
    }
    Ok(true)
}

/// Parts from which a record is built, each valid or nearly so.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts(Vec<(String, Option<String>, Vec<(char, String)>)>);

fn parts_case() -> BoxedStrategy<Parts> {
    let tag = prop_oneof![
        20 => rec::tag(),
        1 => "[0-3][0-9]{2}[A-Za@]",
        1 => "[012]?[0-9]{1,3}[A-Z@]{0,2}",
        1 => Just("012\u{c4}".to_string()),
    ];
    let occ = prop_oneof![
        20 => rec::occ(),
        1 => "[0-9]{0,5}".prop_map(Some),
        1 => "[0-9/]?[0-9a ][0-9]".prop_map(Some),
        1 => Just(Some("\u{663}1".to_string())),
    ];
    let code = prop_oneof![
        40 => rec::code(),
        1 => any::<char>(),
        1 => select(&['_', ' ', '@', 'ä', '\u{661}', '\u{1f}', '{', '`', '/', ':'][..]),
    ];
    let value = prop_oneof![
        40 => rec::value_utf8().prop_map(|b| b.lossy()),
        1 => Just("a\u{1e}b".to_string()),
        1 => Just("\u{1f}".to_string()),
        1 => Just("a\nb".to_string()),
        1 => any::<String>(),
    ];
    vec((tag, occ, vec((code, value), 0..4)), 0..4)
        .prop_map(Parts)
        .boxed()
}

fn json_again<T>(v: &T) -> Result<T, Fail>
where
    T: Serialize + serde::de::DeserializeOwned,
{
    let text = serde_json::to_string(v)
        .map_err(|e| Fail::Violation(format!("not serializable: {e}")))?;
    serde_json::from_str(&text)
        .map_err(|e| Fail::Violation(format!("{text} does not read: {e}")))
}

/// Building from parts accepts exactly what the grammar accepts, and gives
/// the record that the bytes made of those parts decode to.
fn parts(c: &Parts, env: &mut Env) -> Res {
    let ok_tag = |t: &str| rec::is_tag(t.as_bytes());
    let ok_occ = |o: &str| {
        (2..=3).contains(&o.len()) && o.bytes().all(|c| c.is_ascii_digit())
    };
    let ok_sub = |(c, v): &(char, String)| {
        c.is_ascii_alphanumeric()
            && !v.bytes().any(|c| matches!(c, 0x1e | 0x1f))
    };
    let mut all = true;
    for (t, o, subs) in &c.0 {
        let o = o.as_deref();
        let mut ok = ok_tag(t) && o.is_none_or(ok_occ);
        for s in subs {
            let good = ok_sub(s);
            ok &= good;
            let (r, w) = (p::SubfieldRef::new(s.0, &s.1), p::Subfield::new(s.0, &s.1));
            ensure!(r.is_ok() == good, "SubfieldRef::new{s:?} = {r:?}");
            ensure!(w.is_ok() == good, "Subfield::new{s:?} = {w:?}");
            if let (Ok(r), Ok(w)) = (r, w) {
                let bytes = [&[0x1f, s.0 as u8], s.1.as_bytes()].concat();
                ensure!(
                    *r.code() == s.0 && *w.code() == s.0,
                    "code of subfield {s:?}"
                );
                ensure!(
                    *r.value() == *s.1.as_str() && *w.value() == *s.1.as_str(),
                    "value of subfield {s:?}"
                );
                ensure!(r == w, "SubfieldRef == Subfield {s:?}");
                let mut out = vec![];
                r.write_to(&mut out).unwrap();
                ensure!(out == bytes, "SubfieldRef {s:?} writes {}", esc(&out));
                let mut out = vec![];
                w.write_to(&mut out).unwrap();
                ensure!(out == bytes, "Subfield {s:?} writes {}", esc(&out));
                ensure!(r.code().as_byte() == s.0 as u8, "code byte");
                ensure!(r.code().to_string() == s.0.to_string(), "code text");
                ensure!(json_again(&w)? == w, "subfield {s:?} via JSON");
            }
        }
        all &= ok;
        let list = || subs.iter().map(|(c, v)| (*c, v.as_str()));
        let r = p::FieldRef::new(t, o, list());
        let w = p::Field::new(t, o, list());
        ensure!(r.is_ok() == ok, "FieldRef::new({t:?}, {o:?}, {subs:?}) = {r:?}");
        ensure!(w.is_ok() == ok, "Field::new({t:?}, {o:?}, {subs:?}) = {w:?}");
        if let (Ok(r), Ok(w)) = (r, w) {
            let f = rec::Fld {
                tag: t.clone(),
                occ: o.map(String::from),
                subs: subs.iter().map(|(c, v)| (*c, B::s(v))).collect(),
            };
            let bytes = f.bytes();
            let mut out = vec![];
            r.write_to(&mut out).unwrap();
            ensure!(out == bytes, "FieldRef writes {}", esc(&out));
            let mut out = vec![];
            w.write_to(&mut out).unwrap();
            ensure!(out == bytes, "Field writes {}", esc(&out));
            ensure!(r == w && w == r, "FieldRef == Field");
            let d = p::FieldRef::from_bytes(&bytes);
            ensure!(
                d.as_ref().is_ok_and(|d| *d == r),
                "built {r:?}, its bytes decode as {d:?}"
            );
            ensure!(r.tag().to_string() == *t, "tag text");
            for (i, b) in t.bytes().enumerate() {
                ensure!(r.tag()[i] == b, "byte {i} of the tag");
            }
            let level = match t.as_bytes()[0] {
                b'0' => p::Level::Main,
                b'1' => p::Level::Local,
                _ => p::Level::Copy,
            };
            ensure!(r.level() == level, "level of {t}");
            ensure!(
                r.occurrence().map(|o| o.to_string()) == f.occ.as_ref().map(|o| format!("/{o}"))
                    || r.occurrence().map(|o| o.to_string()) == f.occ,
                "occurrence text"
            );
            ensure!(
                (&r).into_iter().eq([&r]),
                "a field iterates over anything but itself"
            );
            ensure!(json_again(&w)? == w, "field via JSON");
        }
    }
    env.label(if all { "valid" } else { "invalid" });
    let list = c
        .0
        .iter()
        .map(|(t, o, s)| {
            (
                t.as_str(),
                o.as_deref(),
                s.iter().map(|(c, v)| (*c, v.as_str())).collect::<Vec<_>>(),
            )
        })
        .collect();
    let r = p::RecordRef::new(list);
    ensure!(r.is_ok() == all, "RecordRef::new = {r:?}, parts valid: {all}");
    let Ok(mut r) = r else {
        return Ok(true);
    };
    let want = Rec(c
        .0
        .iter()
        .map(|(t, o, s)| rec::Fld {
            tag: t.clone(),
            occ: o.clone(),
            subs: s.iter().map(|(c, v)| (*c, B::s(v))).collect(),
        })
        .collect());
    ensure!(lib_fields(&r) == want, "built record has other fields: {r:?}");
    ensure!(r.is_empty() == want.0.is_empty(), "is_empty()");
    ensure!(r.validate().is_ok(), "validate() of text");
    // A record without fields has no line of its own.
    let line = |w: &Rec| if w.0.is_empty() { vec![] } else { w.bytes() };
    let bytes = line(&want);
    let mut out = vec![];
    r.write_to(&mut out).unwrap();
    ensure!(out == bytes, "built record writes {}", esc(&out));
    let own = p::Record::from(r.clone());
    let again = json_again(&own)?;
    ensure!(again == r && r == again, "record via JSON");
    let mut out = vec![];
    again.write_to(&mut out).unwrap();
    ensure!(out == bytes, "record read from JSON writes {}", esc(&out));
    // every second field
    let mut n = 0;
    r.retain(|_| {
        n += 1;
        n % 2 == 1
    });
    let half = Rec(want.0.iter().step_by(2).cloned().collect());
    ensure!(lib_fields(&r) == half, "retain() of every second field");
    let mut out = vec![];
    r.write_to(&mut out).unwrap();
    ensure!(out == line(&half), "after retain(): {}", esc(&out));
    Ok(want.0.len() > 1)
}

pub fn r01() -> Property {
    Property {
        id: "R01",
        rule: "the input is a valid record/component, or an invalid one of more than four bytes; parts: two or more fields or an invalid part",
        assumptions: &[
            "the hand-written decoder of harness/src/rec.rs is the PICA+ grammar",
            "sha2 computes SHA-256",
        ],
        subs: vec![
            sub("grammar", 200_000, 20_000_000, grammar_case, grammar),
            sub("large", 4_000, 200_000, grammar_large, grammar),
            sub("primitives", 100_000, 10_000_000, prim_case, prims),
            sub("equality", 40_000, 4_000_000, pair_case, pairs),
            sub("parts", 60_000, 6_000_000, parts_case, parts),
        ],
    }
}

// ------------------------------------------------------------------------ R02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    /// Lines without their newline.
    lines: Vec<B>,
    /// The last line lacks its newline.
    open: bool,
    chunks: Vec<usize>,
    /// Where new gzip members start.
    members: Vec<u16>,
    source: Option<String>,
    string: bool,
    /// So many further copies of the lines.
    #[serde(default)]
    rep: u32,
}

fn line() -> BoxedStrategy<B> {
    let cut = |mut b: Vec<u8>| {
        b.retain(|c| *c != b'\n');
        B(b)
    };
    prop_oneof![
        6 => rec::rec_ppn(false).prop_map(move |r| cut(r.bytes())),
        2 => mutate::bytes(rec::rec(false).prop_map(|r| r.bytes()).boxed(), 2)
            .prop_map(cut),
        1 => Just(B(vec![])),
        // longer than any buffer
        1 => (rec::rec(true), 1usize..40).prop_map(move |(r, n)| {
            let mut f = r.0[0].clone();
            f.subs.push(('a', B(b"0123456789abcdef".repeat(n * 32))));
            cut(f.bytes())
        }),
    ]
    .boxed()
}

/// Many lines; lines of the size of a buffer.
fn stream_volume() -> BoxedStrategy<Stream> {
    let rep = prop_oneof![
        3 => select(&[130u32, 260, 600][..]),
        1 => select(&[4_096, 9_000][..]),
        1 => select(&[66_000][..]),
    ];
    let long = vec((0u8..8, 0usize..9, 0usize..9), 0..3);
    (stream(), rep, long)
        .prop_map(|(mut c, rep, long)| {
            c.lines.truncate(5);
            c.rep = rep / c.lines.len().max(1) as u32;
            if !long.is_empty() {
                c.rep = 0;
            }
            for (at, n, d) in long {
                // the length of the line with its end is near the size
                let n = [511, 1024, 4096, 8192, 8192, 16_384, 32_768, 65_536, 70_000][n];
                let n = (n + d - 4).saturating_sub(8);
                let mut b = b"012A \x1fa".to_vec();
                b.resize(n + 7, b'x');
                b.push(b'\x1e');
                let at = at as usize % (c.lines.len() + 1);
                c.lines.insert(at, B(b));
            }
            c
        })
        .boxed()
}

fn stream() -> BoxedStrategy<Stream> {
    (
        vec(line(), 0..8),
        prop::bool::weighted(0.2),
        vec(prop_oneof![1usize..20, 1usize..9000], 1..4),
        vec(any::<u16>(), 0..4),
        prop::option::of(select(&["-", "x.dat", "a b/c.dat.gz"][..])),
        any::<bool>(),
    )
        .prop_map(|(lines, open, chunks, members, source, string)| Stream {
            lines,
            open,
            chunks,
            members,
            source: source.map(|s| s.to_string()),
            string,
            rep: 0,
        })
        .boxed()
}

/// Delivers its data in prescribed portions, with interruptions.
struct Chunky {
    data: Vec<u8>,
    pos: usize,
    chunks: VecDeque<usize>,
    intr: bool,
}

impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.intr = !self.intr;
        if self.intr && self.pos % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = self.chunks[0];
        self.chunks.rotate_left(1);
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// What an iteration step gives.
#[derive(PartialEq)]
enum Item {
    Rec(Rec, Vec<u8>),
    Err(String),
}

impl std::fmt::Debug for Item {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Item::Rec(_, b) => {
                let n = b.len().min(200);
                write!(f, "record {}", esc(&b[..n]))
            }
            Item::Err(e) => write!(f, "error {e}"),
        }
    }
}

macro_rules! drain {
    ($r:expr, $string:expr, $max:expr) => {{
    let (mut r, string, max) = ($r, $string, $max);
    let mut v: Vec<Item> = vec![];
    loop {
        let item = if string {
            r.next_string_record().map(|x| {
                x.map(|x| {
                    let mut b = vec![];
                    x.write_to(&mut b).unwrap();
                    Item::Rec(lib_fields(&x), b)
                })
            })
        } else {
            r.next_byte_record().map(|x| {
                x.map(|x| {
                    let mut b = vec![];
                    x.write_to(&mut b).unwrap();
                    Item::Rec(lib_fields(&x), b)
                })
            })
        };
        match item {
            None => break v,
            Some(Ok(i)) => v.push(i),
            Some(Err(e)) => v.push(Item::Err(e.to_string())),
        }
        if v.len() > max {
            break v;
        }
    }
    }};
}

fn number_in(msg: &str) -> Option<usize> {
    let p = msg.find("line ")? + 5;
    let d: String = msg[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn same_items(
    got: &[Item],
    lines: &[Vec<u8>],
    string: bool,
    source: Option<&str>,
    how: &str,
) -> Result<(), Fail> {
    for (i, l) in lines.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return bad(format!(
                "{how}: {} items for {} lines",
                got.len(),
                lines.len()
            ));
        };
        let want = decode(l).filter(|r| !string || r.is_utf8());
        match (g, want) {
            (Item::Rec(r, b), Some(w)) => {
                ensure!(*r == w && b == l, "{how}: line {}: got {g:?}", i + 1)
            }
            (Item::Err(m), None) => {
                ensure!(
                    number_in(m) == Some(i + 1),
                    "{how}: error of line {} says: {m}",
                    i + 1
                );
                if let Some(s) = source
                    && decode(l).is_none()
                {
                    let s = if s == "-" { "<stdin>" } else { s };
                    ensure!(
                        m.contains(s),
                        "{how}: error does not name source {s}: {m}"
                    );
                }
            }
            (g, w) => {
                return bad(format!(
                    "{how}: line {}: got {g:?}, valid: {}",
                    i + 1,
                    w.is_some()
                ));
            }
        }
    }
    ensure!(
        got.len() == lines.len(),
        "{how}: {} items for {} lines",
        got.len(),
        lines.len()
    );
    Ok(())
}

pub fn gzip_members(data: &[u8], cuts: &[u16]) -> Vec<u8> {
    let mut at: Vec<usize> = cuts
        .iter()
        .map(|c| (*c as usize) % (data.len() + 1))
        .collect();
    at.sort();
    at.insert(0, 0);
    at.push(data.len());
    let mut out = vec![];
    for w in at.windows(2) {
        let mut e = GzEncoder::new(vec![], Compression::fast());
        e.write_all(&data[w[0]..w[1]]).unwrap();
        out.extend(e.finish().unwrap());
    }
    out
}

fn reading(c: &Stream, env: &mut Env) -> Res {
    let mut lines: Vec<Vec<u8>> = c
        .lines
        .iter()
        .map(|l| [&l.0[..], b"\n"].concat())
        .collect();
    for _ in 0..c.rep {
        for l in &c.lines {
            lines.push([&l.0[..], b"\n"].concat());
        }
    }
    if c.open
        && let Some(l) = lines.last_mut()
    {
        l.pop();
        if l.is_empty() {
            lines.pop();
        }
    }
    let data = lines.concat();
    let max = lines.len() + 5;
    let src = c.source.as_deref();

    let chunky = Chunky {
        data: data.clone(),
        pos: 0,
        chunks: c.chunks.iter().copied().collect(),
        intr: false,
    };
    let r = ReaderBuilder::new().from_reader(chunky, c.source.clone());
    same_items(&drain!(r, c.string, max), &lines, c.string, src, "chunked")?;

    let dir = env.fresh_dir()?;
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let plain = dir.join("in.dat");
    std::fs::write(&plain, &data).map_err(io)?;
    let r = ReaderBuilder::new()
        .from_path(&plain)
        .map_err(|e| Fail::Violation(e.to_string()))?;
    same_items(
        &drain!(r, c.string, max),
        &lines,
        c.string,
        plain.to_str(),
        "plain file",
    )?;
    let gz = dir.join("in.dat.gz");
    std::fs::write(&gz, gzip_members(&data, &c.members)).map_err(io)?;
    let r = ReaderBuilder::new()
        .from_path(&gz)
        .map_err(|e| Fail::Violation(e.to_string()))?;
    same_items(
        &drain!(r, c.string, max),
        &lines,
        c.string,
        gz.to_str(),
        &format!("gzip file of {} members", c.members.len() + 1),
    )?;
    let missing = ReaderBuilder::new().from_path(dir.join("missing"));
    ensure!(missing.is_err(), "missing file opened");
    env.clean();

    let invalid = lines.iter().filter(|l| decode(l).is_none()).count();
    env.label_if(invalid > 0, "with-invalid-line");
    env.label_if(!c.members.is_empty(), "several-gzip-members");
    env.label_if(data.len() > 8192, "larger-than-buffer");
    env.label_if(c.string, "string-records");
    Ok(lines.len() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    stream: Stream,
    /// The source fails behind this part of the data.
    at: u16,
    kind: u8,
}

fn broken() -> BoxedStrategy<Broken> {
    (stream(), any::<u16>(), 0u8..4)
        .prop_map(|(stream, at, kind)| Broken { stream, at, kind })
        .boxed()
}

/// Fails for good behind its data.
struct Failing(Chunky, std::io::ErrorKind);

impl Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.0.read(buf)? {
            0 => Err(self.1.into()),
            n => Ok(n),
        }
    }
}

/// A source that breaks off with an error never looks like a complete one.
fn breaking(c: &Broken, env: &mut Env) -> Res {
    use std::io::ErrorKind::*;
    let data: Vec<u8> =
        c.stream.lines.iter().flat_map(|l| [&l.0[..], b"\n"].concat()).collect();
    let n = c.at as usize * (data.len() + 1) >> 16;
    let data = data[..n].to_vec();
    let lines: Vec<Vec<u8>> = data
        .split_inclusive(|b| *b == b'\n')
        .filter(|l| l.ends_with(b"\n"))
        .map(|l| l.to_vec())
        .collect();
    let open = !data.is_empty() && !data.ends_with(b"\n");
    let chunky = Chunky {
        data,
        pos: 0,
        chunks: c.stream.chunks.iter().copied().collect(),
        intr: false,
    };
    let kind = [UnexpectedEof, InvalidInput, BrokenPipe, Other][c.kind as usize % 4];
    let mut r = ReaderBuilder::new()
        .from_reader(Failing(chunky, kind), c.stream.source.clone());
    let string = c.stream.string;
    for (i, l) in lines.iter().enumerate() {
        let want = decode(l).filter(|r| !string || r.is_utf8());
        let got = if string {
            r.next_string_record().map(|x| x.map(|x| lib_fields(&x)))
        } else {
            r.next_byte_record().map(|x| x.map(|x| lib_fields(&x)))
        };
        match (got, want) {
            (Some(Ok(g)), Some(w)) => ensure!(g == w, "line {}: {g:?}", i + 1),
            (Some(Err(ReadPicaError::IO(e))), _) => {
                return bad(format!("line {}: I/O error {e} too early", i + 1));
            }
            (Some(Err(_)), None) => {}
            (g, w) => {
                return bad(format!(
                    "line {}: got {:?}, valid: {}",
                    i + 1,
                    g.map(|g| g.is_ok()),
                    w.is_some()
                ));
            }
        }
    }
    // the error is reported as such, once or as long as it lasts
    let got = if string {
        r.next_string_record().map(|x| x.map(|x| lib_fields(&x)))
    } else {
        r.next_byte_record().map(|x| x.map(|x| lib_fields(&x)))
    };
    match got {
        Some(Err(ReadPicaError::IO(e))) => {
            ensure!(e.kind() == kind, "error {e} instead of {kind:?}")
        }
        Some(Err(e)) => return bad(format!("I/O error reported as: {e}")),
        Some(Ok(r)) => return bad(format!("I/O error hidden by record {r:?}")),
        None => return bad("I/O error looks like the end of the data"),
    }
    env.label_if(open, "within-line");
    Ok(!lines.is_empty())
}

pub fn r02() -> Property {
    Property {
        id: "R02",
        rule: "the stream has at least two lines; broken-source: at least one complete line",
        assumptions: &["flate2 writes correct gzip members"],
        subs: vec![
            sub("reader", 120_000, 1_500_000, stream, reading),
            sub("volume", 300, 6_000, stream_volume, reading),
            sub("broken-source", 60_000, 1_000_000, broken, breaking),
        ],
    }
}

// ------------------------------------------------------------------------ R03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    None,
    Keep(Vec<(TagPat, OccPat)>),
    Discard(Vec<(TagPat, OccPat)>),
    /// Discard, then keep.
    Both(Vec<(TagPat, OccPat)>, Vec<(TagPat, OccPat)>),
    /// Keep the fields at these positions.
    Retain(Vec<bool>),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Mode {
    Trunc,
    Append,
    Gzip,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    mode: Mode,
    file: u8,
    recs: Vec<(Rec, Edit)>,
}

fn preds() -> BoxedStrategy<Vec<(TagPat, OccPat)>> {
    vec(
        (
            prop_oneof![
                select(&["012A", "012B", "013A", "003@", "209A"][..])
                    .prop_map(TagPat::exact),
                select(&["012.", "0...", "....", "[12]..."][..])
                    .prop_map(|s| expr::parse_tag_pat(s).unwrap()),
                expr::tag_pat(),
            ],
            expr::occ_pat(),
        ),
        0..3,
    )
    .boxed()
}

fn sessions() -> BoxedStrategy<Vec<Session>> {
    let edit = prop_oneof![
        3 => Just(Edit::None),
        2 => preds().prop_map(Edit::Keep),
        2 => preds().prop_map(Edit::Discard),
        2 => (preds(), preds()).prop_map(|(a, b)| Edit::Both(a, b)),
        1 => vec(any::<bool>(), 1..6).prop_map(Edit::Retain),
    ];
    vec(
        (
            select(&[Mode::Trunc, Mode::Append, Mode::Append, Mode::Gzip][..]),
            0u8..4,
            vec((rec::rec(false), edit), 0..5),
        )
            .prop_map(|(mode, file, recs)| Session { mode, file, recs }),
        1..5,
    )
    .boxed()
}

/// Hundreds of records, or large ones.
fn sessions_volume() -> BoxedStrategy<Vec<Session>> {
    (sessions(), prop::option::of(rec::large()), any::<u32>())
        .prop_map(|(mut v, k, mix)| {
            for s in &mut v {
                match k {
                    Some(k) => {
                        for (r, _) in &mut s.recs {
                            rec::enlarge(r, k, mix as usize);
                        }
                    }
                    None => {
                        let n = [130, 260, 700, 1_200][mix as usize % 4];
                        let r = std::mem::take(&mut s.recs);
                        s.recs = r.into_iter().cycle().take(n).collect();
                    }
                }
            }
            v
        })
        .boxed()
}

fn hit(ps: &[(TagPat, OccPat)], f: &rec::Fld) -> bool {
    ps.iter()
        .any(|(t, o)| t.is_match(&f.tag) && o.is_match(f.occ.as_deref()))
}

fn edit_model(r: &Rec, e: &Edit) -> Rec {
    let keep = |v: Vec<rec::Fld>, ps: &[(TagPat, OccPat)]| {
        v.into_iter().filter(|f| ps.is_empty() || hit(ps, f)).collect()
    };
    let drop = |v: Vec<rec::Fld>, ps: &[(TagPat, OccPat)]| -> Vec<rec::Fld> {
        v.into_iter().filter(|f| !hit(ps, f)).collect()
    };
    let v = r.0.clone();
    Rec(match e {
        Edit::None => v,
        Edit::Keep(p) => keep(v, p),
        Edit::Discard(p) => drop(v, p),
        Edit::Both(d, k) => keep(drop(v, d), k),
        Edit::Retain(m) => v
            .into_iter()
            .enumerate()
            .filter(|(i, _)| m[i % m.len()])
            .map(|(_, f)| f)
            .collect(),
    })
}

fn lib_preds(
    ps: &[(TagPat, OccPat)],
) -> Result<Vec<(TagMatcher, OccurrenceMatcher)>, Fail> {
    ps.iter()
        .map(|(t, o)| {
            let text = t.text();
            let tm = TagMatcher::new(&text).map_err(|e| {
                Fail::Violation(format!("tag pattern {text} rejected: {e}"))
            })?;
            let text = o.text();
            let om = if text.is_empty() {
                OccurrenceMatcher::None
            } else {
                OccurrenceMatcher::new(&text).map_err(|e| {
                    Fail::Violation(format!(
                        "occurrence pattern {text} rejected: {e}"
                    ))
                })?
            };
            Ok((tm, om))
        })
        .collect()
}

fn edit_lib(r: &mut ByteRecord, e: &Edit) -> Result<(), Fail> {
    match e {
        Edit::None => {}
        Edit::Keep(p) => r.keep(&lib_preds(p)?),
        Edit::Discard(p) => r.discard(&lib_preds(p)?),
        Edit::Both(d, k) => {
            r.discard(&lib_preds(d)?);
            r.keep(&lib_preds(k)?);
        }
        Edit::Retain(m) => {
            let mut i = 0;
            r.retain(|_| {
                i += 1;
                m[(i - 1) % m.len()]
            });
        }
    }
    Ok(())
}

pub fn gunzip_all(data: &[u8]) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    flate2::read::MultiGzDecoder::new(data).read_to_end(&mut out)?;
    Ok(out)
}

fn written(c: &Vec<Session>, env: &mut Env) -> Res {
    let dir = env.fresh_dir()?;
    let names = ["a.dat", "b.dat.gz", "c", "d.gz"];
    let mut model: [Vec<Vec<u8>>; 4] = Default::default();
    let mut zipped = [false, true, false, true];
    let mut exists = [false; 4];
    let mut multi = false;
    for s in c {
        let k = s.file as usize;
        let path = dir.join(names[k]);
        // Appending plain records to gzip data is the caller's mistake.
        let is_gz_name = names[k].ends_with("gz");
        let gz = is_gz_name || s.mode == Mode::Gzip;
        if s.mode == Mode::Append && exists[k] && zipped[k] != gz {
            continue;
        }
        let b = match s.mode {
            Mode::Trunc => WriterBuilder::new(),
            Mode::Append => WriterBuilder::new().append(true),
            Mode::Gzip => WriterBuilder::new().gzip(true),
        };
        let mut w = match k % 2 {
            0 => b.from_path(&path),
            _ => b.from_path_or_stdout(Some(&path)),
        }
        .map_err(|e| Fail::Violation(format!("cannot open writer: {e}")))?;
        if s.mode != Mode::Append {
            model[k].clear();
        } else {
            multi |= exists[k];
        }
        zipped[k] = gz;
        exists[k] = true;
        for (r, e) in &s.recs {
            let bytes = r.bytes();
            let mut lib = ByteRecord::from_bytes(&bytes)
                .map_err(|e| Fail::Violation(format!("{e}")))?;
            edit_lib(&mut lib, e)?;
            let want = edit_model(r, e);
            let wb = if want.0.is_empty() { vec![] } else { want.bytes() };
            ensure!(
                lib_fields(&lib) == want,
                "after {e:?}: {:?}, expected {want:?}",
                lib_fields(&lib)
            );
            ensure!(lib.is_empty() == want.0.is_empty(), "is_empty()");
            let mut one = vec![];
            lib.write_to(&mut one).unwrap();
            ensure!(one == wb, "after {e:?}: writes {}", esc(&one));
            ensure!(lib.sha256() == sha(&wb), "sha256 after {e:?}");
            w.write_byte_record(&lib)
                .map_err(|e| Fail::Violation(e.to_string()))?;
            model[k].push(wb);
        }
        w.finish().map_err(|e| Fail::Violation(e.to_string()))?;
        drop(w);
    }
    for k in 0..4 {
        let path = dir.join(names[k]);
        if !exists[k] {
            ensure!(!path.exists(), "{} was created", names[k]);
            continue;
        }
        let raw =
            std::fs::read(&path).map_err(|e| Fail::Harness(e.to_string()))?;
        let data = if zipped[k] {
            match gunzip_all(&raw) {
                Ok(d) => d,
                Err(e) => return bad(format!("{}: not gzip: {e}", names[k])),
            }
        } else {
            raw
        };
        let want = model[k].concat();
        ensure!(
            data == want,
            "{}: contains {}, expected {}",
            names[k],
            esc(&data),
            esc(&want)
        );
        // And the library reads back what it wrote.
        if !zipped[k] || names[k].ends_with("gz") {
            let r = ReaderBuilder::new()
                .from_path(&path)
                .map_err(|e| Fail::Violation(e.to_string()))?;
            let n = model[k].iter().filter(|b| !b.is_empty()).count();
            let items = drain!(r, false, n + 5);
            let lines: Vec<Vec<u8>> =
                model[k].iter().filter(|b| !b.is_empty()).cloned().collect();
            same_items(&items, &lines, false, None, "read back")?;
        }
    }
    // In-memory writers.
    let mut want = vec![];
    let (mut a, mut z) = (Shared::default(), Shared::default());
    {
        let mut pw = PlainWriter::new(a.clone());
        let mut gw = GzipWriter::new(z.clone());
        for (r, e) in c.iter().flat_map(|s| &s.recs) {
            let bytes = r.bytes();
            let mut lib = ByteRecord::from_bytes(&bytes).unwrap();
            edit_lib(&mut lib, e)?;
            let m = edit_model(r, e);
            if !m.0.is_empty() {
                want.extend(m.bytes());
            }
            pw.write_byte_record(&lib).unwrap();
            gw.write_byte_record(&lib).unwrap();
        }
        pw.finish().unwrap();
        gw.finish().unwrap();
        ensure!(a.take() == want, "PlainWriter content after finish");
        match gunzip_all(&z.take()) {
            Ok(d) => ensure!(d == want, "GzipWriter content after finish"),
            Err(e) => return bad(format!("GzipWriter: {e}")),
        }
    }
    // gzip and append exclude each other, whatever the order.
    for f in [
        || WriterBuilder::new().gzip(true).append(true),
        || WriterBuilder::new().append(true).gzip(true),
    ] {
        ensure!(no_panic(f).is_err(), "gzip together with append accepted");
    }
    env.clean();
    env.label_if(multi, "appended-to-existing");
    env.label_if(want.is_empty(), "nothing-written");
    Ok(!want.is_empty())
}

#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);

impl Shared {
    fn take(&mut self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}

impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        // Accepts data in small portions, as a pipe may do.
        let n = buf.len().min(1000);
        self.0.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SinkCase {
    recs: Vec<Rec>,
    gzip: bool,
    /// The sink takes this part of the output; all if none.
    space: Option<u16>,
    /// The sink keeps what it gets until it is flushed.
    lazy: bool,
    rep: u16,
}

fn sink_case() -> BoxedStrategy<SinkCase> {
    (
        vec(rec::rec(false), 1..5),
        any::<bool>(),
        prop::option::weighted(0.6, any::<u16>()),
        any::<bool>(),
        select(&[1u16, 1, 1, 2, 30, 200][..]),
    )
        .prop_map(|(recs, gzip, space, lazy, rep)| SinkCase {
            recs,
            gzip,
            space,
            lazy,
            rep,
        })
        .boxed()
}

#[derive(Default)]
struct SinkState {
    kept: Vec<u8>,
    done: Vec<u8>,
    space: usize,
    lazy: bool,
}

#[derive(Clone, Default)]
struct Sink(std::rc::Rc<std::cell::RefCell<SinkState>>);

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = buf.len().min(999);
        if s.lazy {
            s.kept.extend_from_slice(&buf[..n]);
            return Ok(n);
        }
        let n = n.min(s.space - s.done.len());
        if n == 0 && !buf.is_empty() {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        s.done.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.0.borrow_mut();
        let n = s.kept.len().min(s.space - s.done.len());
        let part: Vec<u8> = s.kept.drain(..n).collect();
        s.done.extend(part);
        if s.kept.is_empty() {
            Ok(())
        } else {
            Err(std::io::ErrorKind::StorageFull.into())
        }
    }
}

/// Finishing a writer delivers everything or fails.
fn sinks(c: &SinkCase, env: &mut Env) -> Res {
    let bytes: Vec<Vec<u8>> = c.recs.iter().map(|r| r.bytes()).collect();
    let want = bytes.concat().repeat(c.rep as usize);
    let run = |space: usize| -> (std::io::Result<()>, Vec<u8>) {
        let sink = Sink::default();
        {
            let mut s = sink.0.borrow_mut();
            (s.space, s.lazy) = (space, c.lazy);
        }
        let mut w: Box<dyn ByteRecordWrite> = if c.gzip {
            Box::new(GzipWriter::new(sink.clone()))
        } else {
            Box::new(PlainWriter::new(sink.clone()))
        };
        let mut go = || {
            for b in (0..c.rep).flat_map(|_| &bytes) {
                w.write_byte_record(&ByteRecord::from_bytes(b).unwrap())?;
            }
            w.finish()
        };
        let res = go();
        let done = sink.0.borrow().done.clone();
        // what a dropped writer still does is of no interest
        (res, done)
    };
    let (res, done) = run(usize::MAX);
    ensure!(res.is_ok(), "writing failed: {res:?}");
    let size = done.len();
    let plain = if c.gzip {
        gunzip_all(&done).map_err(|e| Fail::Violation(format!("no gzip: {e}")))?
    } else {
        done
    };
    ensure!(
        plain == want,
        "{} of {} bytes are there after finish",
        plain.len(),
        want.len()
    );
    env.label_if(c.lazy, "flush-needed");
    env.label_if(c.gzip, "gzip");
    if let Some(part) = c.space {
        let space = part as usize * size >> 16;
        let (res, _) = run(space);
        ensure!(
            res.is_err(),
            "no error although the sink has room for {space} of {size} bytes"
        );
        env.label("sink-full");
    }
    Ok(c.lazy || c.space.is_some())
}

pub fn r03() -> Property {
    Property {
        id: "R03",
        rule: "at least one non-empty record was written; sinks: the sink needs a flush or is full",
        assumptions: &["flate2's multi-member decoder is correct"],
        subs: vec![
            sub("writer", 100_000, 1_000_000, sessions, written),
            sub("volume", 300, 6_000, sessions_volume, written),
            sub("sinks", 40_000, 800_000, sink_case, sinks),
        ],
    }
}
