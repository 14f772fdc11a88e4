//! C12, C13: rendering and conversion.

use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::cli::{Cli, Common, Input, Skip, args, common, input, same, skip_for, volume};
use crate::ensure;
use crate::props::tables::{lossy, nf, nf_name};
use crate::rec::{B, Rec};
use crate::runner::{Env, Property, Res, sub};

// ------------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PrintCase {
    input: Input,
    common: Common,
    nf: Option<u8>,
    out: bool,
    salt: usize,
}

fn print_case() -> BoxedStrategy<PrintCase> {
    (
        (any::<bool>(), any::<bool>())
            .prop_flat_map(|(utf8, bad)| input(utf8, bad, 10)),
        prop_oneof![1 => Just(Common::none()), 1 => common()],
        option::weighted(0.6, 0u8..4),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(input, common, nf, out, salt)| PrintCase {
            common: common.sharp(&input),
            input,
            nf,
            out,
            salt: salt as usize,
        })
        .boxed()
}

fn utf8(r: &Rec) -> bool {
    r.0.iter().flat_map(|f| &f.subs).all(|(_, v)| {
        std::str::from_utf8(&v.0).is_ok()
    })
}

fn printing(c: &PrintCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["print"]);
    a.extend(skip_for(&c.input, c.salt).args(&cli)?);
    a.extend(c.common.args(&cli)?);
    if let Some(n) = c.nf {
        a.extend(args(&["--translit", nf_name(n)]));
    }
    if c.out {
        cli.write("t.txt", "old\n".repeat(300))?;
        a.extend(args(&["-o", "t.txt"]));
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let recs = c.common.select(&c.input.recs());
    let mut want: Vec<u8> = vec![];
    let mut changed = false;
    for r in &recs {
        for f in &r.0 {
            want.extend(f.tag.as_bytes());
            if let Some(o) = &f.occ {
                want.push(b'/');
                want.extend(o.as_bytes());
            }
            for (code, v) in &f.subs {
                want.extend(format!(" ${code} ").as_bytes());
                match c.nf {
                    None => want.extend(&v.0),
                    n => {
                        let t = nf(n, &lossy(&v.0));
                        changed |= t.as_bytes() != &v.0[..];
                        want.extend(t.as_bytes());
                    }
                }
            }
            want.push(b'\n');
        }
        want.push(b'\n');
    }
    let o = cli.run(&a, stdin.as_deref())?;
    let out = o.good()?;
    if c.out {
        same("stdout", out, b"", &o)?;
        same("output file", &cli.read("t.txt")?, &want, &o)?;
    } else {
        same("stdout", out, &want, &o)?;
    }
    env.label_if(changed, "translit-matters");
    env.label_if(recs.iter().any(|r| !utf8(r)), "invalid-utf8");
    Ok(recs.iter().map(|r| r.0.len()).sum::<usize>() > 1)
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "at least two fields are printed",
        assumptions: &[
            "the reference models of records and expressions",
            "unicode-normalization implements the four normal forms",
        ],
        subs: vec![
            sub("print", 10_000, 200_000, print_case, printing),
            sub("volume", 120, 4_000, print_volume, printing),
        ],
    }
}

fn print_volume() -> BoxedStrategy<PrintCase> {
    (print_case(), volume(33_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            if v.bare() {
                c.common = Common::none();
            }
            if c.common.limit > 0 {
                c.common.limit = v.number(0);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------------------ C13

fn conv_volume() -> BoxedStrategy<ConvCase> {
    (conv_case(), volume(33_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            c
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fmt {
    Plus,
    Binary,
    Import,
    Plain,
    Json,
    Xml,
}

impl Fmt {
    fn name(&self) -> &'static str {
        match self {
            Fmt::Plus => "plus",
            Fmt::Binary => "binary",
            Fmt::Import => "import",
            Fmt::Plain => "plain",
            Fmt::Json => "json",
            Fmt::Xml => "xml",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConvCase {
    input: Input,
    to: Fmt,
    from: Option<Fmt>,
    out: bool,
    salt: usize,
}

fn conv_case() -> BoxedStrategy<ConvCase> {
    use Fmt::*;
    (
        (any::<bool>(), any::<bool>())
            .prop_flat_map(|(utf8, bad)| input(utf8, bad, 8)),
        select(&[Plus, Binary, Import, Plain, Json, Xml, Xml][..]),
        option::weighted(
            0.3,
            select(&[Plus, Plus, Plus, Plus, Plus, Binary, Xml, Json][..]),
        ),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(input, to, from, out, salt)| ConvCase {
            input,
            to,
            from,
            out,
            salt: salt as usize,
        })
        .boxed()
}

type Dec = Result<Vec<Rec>, String>;

fn field(b: &[u8]) -> Result<crate::rec::Fld, String> {
    // `tag[/occ] (\x1f code value)*`
    let sp = b.iter().position(|c| *c == b' ').ok_or("no space in field")?;
    let (h, rest) = (lossy(&b[..sp]), &b[sp + 1..]);
    let (tag, occ) = match h.split_once('/') {
        Some((t, o)) => (t.to_string(), Some(o.to_string())),
        None => (h, None),
    };
    let mut subs = vec![];
    if !rest.is_empty() {
        if rest[0] != 0x1f {
            return Err("field content without subfield separator".into());
        }
        for s in rest[1..].split(|c| *c == 0x1f) {
            let code = *s.first().ok_or("empty subfield")? as char;
            subs.push((code, B(s[1..].to_vec())));
        }
    }
    Ok(crate::rec::Fld { tag, occ, subs })
}

fn dec_binary(mut b: &[u8]) -> Dec {
    let mut out = vec![];
    let mut rec = vec![];
    while !b.is_empty() {
        if b[0] == 0x1d {
            out.push(Rec(std::mem::take(&mut rec)));
            b = &b[1..];
            continue;
        }
        let e = b.iter().position(|c| *c == 0x1e).ok_or("open field")?;
        rec.push(field(&b[..e])?);
        b = &b[e + 1..];
    }
    if !rec.is_empty() {
        return Err("open record".into());
    }
    Ok(out)
}

fn dec_import(b: &[u8]) -> Dec {
    let mut out: Vec<Rec> = vec![];
    for l in b.split_inclusive(|c| *c == b'\n') {
        let l = l.strip_suffix(b"\n").ok_or("open line")?;
        if l == b"'\x1d" {
            out.push(Rec(vec![]));
        } else if l.first() == Some(&0x1e) {
            out.last_mut().ok_or("field before record")?.0.push(field(&l[1..])?);
        } else {
            return Err(format!("unexpected line {}", lossy(l)));
        }
    }
    Ok(out)
}

fn dec_plain(b: &[u8]) -> Dec {
    let mut out: Vec<Rec> = vec![];
    let mut open = false;
    for l in b.split_inclusive(|c| *c == b'\n') {
        let l = l.strip_suffix(b"\n").ok_or("open line")?;
        if l.is_empty() {
            open = false;
            continue;
        }
        if !open {
            out.push(Rec(vec![]));
            open = true;
        }
        let sp = l.iter().position(|c| *c == b' ').ok_or("no space")?;
        let mut f = field(&l[..sp + 1])?;
        let mut rest = &l[sp + 1..];
        while !rest.is_empty() {
            if rest[0] != b'$' || rest.len() < 2 {
                return Err("missing subfield".into());
            }
            let code = rest[1] as char;
            rest = &rest[2..];
            let mut v = vec![];
            while !rest.is_empty() {
                if rest[0] == b'$' {
                    if rest.get(1) == Some(&b'$') {
                        v.push(b'$');
                        rest = &rest[2..];
                        continue;
                    }
                    break;
                }
                v.push(rest[0]);
                rest = &rest[1..];
            }
            f.subs.push((code, B(v)));
        }
        out.last_mut().unwrap().0.push(f);
    }
    Ok(out)
}

fn dec_json(b: &[u8]) -> Dec {
    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let v: Vec<Vec<Vec<Option<String>>>> =
        serde_json::from_str(t).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for r in v {
        let mut rec = vec![];
        for f in r {
            if f.len() < 2 || f.len() % 2 != 0 {
                return Err(format!("field of {} items", f.len()));
            }
            let mut it = f.into_iter();
            let tag = it.next().flatten().ok_or("tag is null")?;
            // Written with its leading slash by the tool.
            let occ = it
                .next()
                .flatten()
                .map(|o| o.strip_prefix('/').unwrap_or(&o).to_string());
            let mut subs = vec![];
            while let (Some(c), Some(v)) = (it.next(), it.next()) {
                let c = c.ok_or("code is null")?;
                let mut cs = c.chars();
                match (cs.next(), cs.next()) {
                    (Some(c), None) => {
                        subs.push((c, B::s(&v.ok_or("value is null")?)))
                    }
                    _ => return Err("code is not one character".into()),
                }
            }
            rec.push(crate::rec::Fld { tag, occ, subs });
        }
        out.push(Rec(rec));
    }
    Ok(out)
}

// A small conforming reader for XML without DTD.

#[derive(Debug, Default)]
struct El {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<El>,
    text: String,
}

struct Xml<'a> {
    s: &'a str,
}

impl<'a> Xml<'a> {
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\t', '\n', '\r']);
    }
    fn eat(&mut self, p: &str) -> bool {
        match self.s.strip_prefix(p) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn until(&mut self, p: &str) -> Result<&'a str, String> {
        let (a, b) = self.s.split_once(p).ok_or(format!("missing {p}"))?;
        self.s = b;
        Ok(a)
    }
    fn name(&mut self) -> Result<String, String> {
        let e = self
            .s
            .find(|c: char| !(c.is_alphanumeric() || "_-.:".contains(c)))
            .unwrap_or(self.s.len());
        if e == 0 {
            return Err("name expected".into());
        }
        let (a, b) = self.s.split_at(e);
        self.s = b;
        Ok(a.to_string())
    }
    fn text(raw: &str, attr: bool) -> Result<String, String> {
        // line-end normalisation comes before references are resolved
        let raw = raw.replace("\r\n", "\n").replace('\r', "\n");
        let mut out = String::new();
        let mut s = &raw[..];
        while let Some(c) = s.chars().next() {
            if c != '&' {
                if c == '<' {
                    return Err("`<` in text".into());
                }
                if !xml_char(c) {
                    return Err(format!("character {c:?} not allowed"));
                }
                out.push(if attr && c.is_whitespace() { ' ' } else { c });
                s = &s[c.len_utf8()..];
                continue;
            }
            let (r, rest) = s[1..].split_once(';').ok_or("open reference")?;
            s = rest;
            out.push(match r {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let n = if let Some(h) = r.strip_prefix("#x") {
                        u32::from_str_radix(h, 16)
                    } else if let Some(d) = r.strip_prefix('#') {
                        d.parse()
                    } else {
                        return Err(format!("unknown entity {r}"));
                    };
                    let c = n.ok().and_then(char::from_u32).ok_or("bad number")?;
                    if !xml_char(c) {
                        return Err(format!("reference to {c:?} not allowed"));
                    }
                    c
                }
            });
        }
        Ok(out)
    }
    fn element(&mut self) -> Result<El, String> {
        if !self.eat("<") {
            return Err("element expected".into());
        }
        let mut e = El { name: self.name()?, ..El::default() };
        loop {
            self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err("= expected".into());
            }
            self.ws();
            let q = if self.eat("\"") {
                "\""
            } else if self.eat("'") {
                "'"
            } else {
                return Err("quote expected".into());
            };
            let v = Self::text(self.until(q)?, true)?;
            if e.attrs.iter().any(|(m, _)| *m == n) {
                return Err(format!("attribute {n} twice"));
            }
            e.attrs.push((n, v));
        }
        loop {
            let p = self.s.find('<').ok_or("open element")?;
            let (t, r) = self.s.split_at(p);
            if t.contains("]]>") {
                return Err("]]> in text".into());
            }
            e.text.push_str(&Self::text(t, false)?);
            self.s = r;
            if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.eat(">") {
                    return Err(format!("end tag {n} for {}", e.name));
                }
                return Ok(e);
            }
            if self.eat("<!--") {
                self.until("-->")?;
                continue;
            }
            e.kids.push(self.element()?);
        }
    }
}

fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

impl El {
    fn only(&self, name: &str) -> Result<&Vec<El>, String> {
        if !self.text.trim().is_empty() {
            return Err(format!("text in {}", self.name));
        }
        match self.kids.iter().find(|k| k.name != name) {
            Some(k) => Err(format!("{} in {}", k.name, self.name)),
            None => Ok(&self.kids),
        }
    }
    fn attr(&self, n: &str) -> Option<String> {
        self.attrs.iter().find(|(m, _)| m == n).map(|(_, v)| v.clone())
    }
}

fn dec_xml(b: &[u8]) -> Dec {
    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let mut x = Xml { s: t };
    if x.eat("<?xml") {
        x.until("?>")?;
    }
    x.ws();
    let root = x.element()?;
    x.ws();
    if !x.s.is_empty() || root.name != "collection" {
        return Err("not one collection".into());
    }
    if root.attr("xmlns").as_deref() != Some("info:srw/schema/5/picaXML-v1.0") {
        return Err("wrong namespace".into());
    }
    let mut out = vec![];
    for r in root.only("record")? {
        let mut rec = vec![];
        for f in r.only("datafield")? {
            let mut subs = vec![];
            for s in f.only("subfield")? {
                let c = s.attr("code").ok_or("no code")?;
                let mut it = c.chars();
                match (it.next(), it.next(), s.kids.is_empty()) {
                    (Some(c), None, true) => subs.push((c, B::s(&s.text))),
                    _ => return Err("bad subfield".into()),
                }
            }
            rec.push(crate::rec::Fld {
                tag: f.attr("tag").ok_or("no tag")?,
                occ: f.attr("occurrence"),
                subs,
            });
        }
        out.push(Rec(rec));
    }
    Ok(out)
}

fn converting(c: &ConvCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut a = args(&["convert"]);
    let skip = skip_for(&c.input, c.salt);
    a.extend(skip.args(&cli)?);
    if skip == Skip::Option && c.salt % 2 == 0 {
        a.pop();
        a.push("--skip-invalid".into());
    }
    if let Some(f) = c.from {
        a.extend(args(&["-f", f.name()]));
    }
    if c.to != Fmt::Plus || c.salt % 3 > 0 {
        a.push(if c.salt % 2 == 0 { "-t" } else { "--to" }.into());
        a.push(c.to.name().into());
    }
    if c.out {
        cli.write("out.x", "old\n".repeat(3000))?;
        a.extend(args(&["-o", "out.x"]));
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    if let Some(f) = c.from
        && f != Fmt::Plus
    {
        o.fails("input format is not supported")?;
        env.label("unsupported-input-format");
        return Ok(false);
    }
    let mut got = o.good()?.to_vec();
    if c.out {
        same("stdout", &got, b"", &o)?;
        got = cli.read("out.x")?;
    }
    let mut want = c.input.recs();
    let n = want.iter().map(|r| r.0.len()).sum::<usize>();
    let text = matches!(c.to, Fmt::Json | Fmt::Xml);
    if text {
        // JSON and XML are text: other bytes become replacement characters.
        for (_, v) in want.iter_mut().flat_map(|r| &mut r.0).flat_map(|f| &mut f.subs)
        {
            *v = B::s(&lossy(&v.0));
        }
    }
    if c.to == Fmt::Xml
        && want
            .iter()
            .flat_map(|r| &r.0)
            .flat_map(|f| &f.subs)
            .any(|(_, v)| lossy(&v.0).chars().any(|c| !xml_char(c)))
    {
        // XML 1.0 cannot represent such a value at all.
        env.label("not-representable-in-xml");
        return Ok(false);
    }
    let dec = match c.to {
        Fmt::Plus => crate::props::stream::decode_lines(&got),
        Fmt::Binary => dec_binary(&got),
        Fmt::Import => dec_import(&got),
        Fmt::Plain => dec_plain(&got),
        Fmt::Json => dec_json(&got),
        Fmt::Xml => dec_xml(&got),
    };
    let mut dec = match dec {
        Ok(d) => d,
        Err(e) => {
            return Err(o.violation(format!(
                "output is not PICA {}: {e}\noutput: {}",
                c.to.name(),
                crate::rec::esc(&got[..got.len().min(2000)])
            )));
        }
    };
    if c.to == Fmt::Xml
        && dec != want
        && dec.iter().flat_map(|r| &r.0).all(|f| f.occ.is_none())
    {
        // Exactly the occurrences are missing: a listed finding.
        let mut bare = want.clone();
        bare.iter_mut().flat_map(|r| &mut r.0).for_each(|f| f.occ = None);
        if dec == bare {
            env.known("C13-xml-without-occurrence", || {
                o.violation("occurrences are missing in PICA XML").text()
            })?;
            dec = want.clone();
        }
    }
    if dec != want {
        return Err(o.violation(format!(
            "decoded {} differs\n got: {dec:?}\nwant: {want:?}",
            c.to.name()
        )));
    }
    env.label(c.to.name());
    ensure!(
        c.to != Fmt::Plus || got == c.input.recs().iter().flat_map(|r| r.bytes()).collect::<Vec<u8>>(),
        "PICA+ is not byte-identical"
    );
    Ok(n > 1)
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "at least two fields are converted",
        assumptions: &[
            "the decoders of the six formats in harness/src/props/convert.rs (serde_json for JSON)",
            "values that XML 1.0 cannot represent are outside the property for XML",
        ],
        subs: vec![
            sub("convert", 12_000, 250_000, conv_case, converting),
            sub("volume", 120, 4_000, conv_volume, converting),
        ],
    }
}
