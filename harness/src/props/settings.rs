//! C18: the configuration; C19: normalization.

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use unicode_normalization::UnicodeNormalization;

use super::faults::{CMDS, Files, which, wipe};
use super::tables::{nf, nf_name};
use crate::cli::{Cli, Input, Out, args, cond, input_of, io};
use crate::expr::{self, FldEx, Lay, plain};
use crate::pathq;
use crate::rec::{self, B, Fld, Rec, esc};
use crate::runner::{Env, Fail, Property, Res, sub};

// ------------------------------------------------------------------------ C18

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Key {
    Skip,
    Norm,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Set(Key, u8),
    /// A value that the key does not have.
    SetBad(Key, u8),
    Get(Key),
    Unset(Key),
    BadKey(u8),
    /// The user writes the file: values of the keys, layout.
    Write(Option<bool>, Option<u8>, u8),
    /// The user writes something else into the file.
    Spoil(u8),
    Delete,
    /// A command reads two records and, maybe, an invalid line.
    Read { cmd: u8, bad: bool, option: bool },
    /// A command has a condition.
    Match { cmd: u8, lit: u8, val: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    /// Steps, each with one of the three configuration files.
    steps: Vec<(u8, u8, Step)>,
}

const BADVAL: [&[&str]; 2] = [
    &["yes", "1", "True", "FALSE", "", "nfc", "0"],
    &["NFC", "nf", "true", "", "none", "utf8", "nfkcd"],
];
const BADKEY: [&str; 6] =
    ["skip_invalid", "normalisation", "", "Skip-Invalid", "path", "skip-invalid "];
const SPOILT: [&str; 9] = [
    "skip-invalid",
    "skip-invalid = ",
    "skip-invalid = 'true'",
    "skip-invalid = 1",
    "normalization = nfc",
    "normalization = 'NFC'",
    "normalization = true",
    "skip-invalid = true\nskip-invalid = false\n",
    "\u{0}\u{1}",
];
const WORDS: [&str; 9] = [
    "Bäume",
    "Ba\u{308}ume",
    "ﬁn",
    "fin",
    "\u{212b}",
    "Å",
    "A\u{30a}",
    "x",
    "ﬁä",
];

fn history() -> BoxedStrategy<History> {
    let key = || select(&[Key::Skip, Key::Norm][..]);
    let step = prop_oneof![
        4 => (key(), any::<u8>()).prop_map(|(k, v)| Step::Set(k, v)),
        1 => (key(), any::<u8>()).prop_map(|(k, v)| Step::SetBad(k, v)),
        3 => key().prop_map(Step::Get),
        2 => key().prop_map(Step::Unset),
        1 => any::<u8>().prop_map(Step::BadKey),
        2 => (option::of(any::<bool>()), option::of(0u8..4), any::<u8>())
            .prop_map(|(a, b, l)| Step::Write(a, b, l)),
        1 => any::<u8>().prop_map(Step::Spoil),
        1 => Just(Step::Delete),
        3 => (any::<u8>(), any::<bool>(), prop::bool::weighted(0.2))
            .prop_map(|(cmd, bad, option)| Step::Read { cmd, bad, option }),
        5 => (any::<u8>(), any::<u8>(), any::<u8>())
            .prop_map(|(cmd, lit, val)| Step::Match { cmd, lit, val }),
    ];
    vec((0u8..6, any::<u8>(), step), 1..12)
        .prop_map(|steps| History { steps })
        .boxed()
}

#[derive(Clone, Debug, PartialEq)]
enum State {
    Fine { skip: bool, norm: Option<u8> },
    Spoilt(String),
}

const DEFAULT: State = State::Fine { skip: false, norm: None };

fn configure(c: &History, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    // the default location, and two others
    let names = ["home/.config/pica/config.toml", "conf1.toml", "some dir/x/conf"];
    let mut state = [DEFAULT, DEFAULT, DEFAULT];
    let (mut sets, mut uses) = (0, 0);
    cli.write("good.dat", two(b"Haus"))?;
    cli.write("bad.dat", [&two(b"Haus")[..], b"invalid\n"].concat())?;
    for (which, salt, step) in &c.steps {
        let f = [0usize, 0, 0, 1, 1, 2][*which as usize % 6];
        let odd = salt % 2 == 1;
        let mut pre: Vec<String> = vec![];
        if f > 0 {
            pre.push(if odd { "-c" } else { "--config" }.into());
            pre.push(names[f].into());
        }
        let conf = |more: &[&str]| {
            let mut a = pre.clone();
            a.push("config".into());
            a.extend(args(more));
            a
        };
        let key = |k: &Key| match k {
            Key::Skip => "skip-invalid",
            Key::Norm => "normalization",
        };
        let spoilt = matches!(state[f], State::Spoilt(_));
        match step {
            Step::Set(k, v) => {
                let val = match k {
                    Key::Skip => ["true", "false"][*v as usize % 2],
                    Key::Norm => nf_name(*v % 4),
                };
                let o = if odd {
                    cli.run(&conf(&["--set", key(k), val]), None)?
                } else {
                    cli.run(&conf(&[key(k), val]), None)?
                };
                if let State::Fine { skip, norm } = &mut state[f] {
                    o.good()?;
                    sets += 1;
                    match k {
                        Key::Skip => *skip = val == "true",
                        Key::Norm => *norm = Some(*v % 4),
                    }
                } else {
                    o.fails("the configuration is malformed")?;
                }
            }
            Step::SetBad(k, v) => {
                let l = BADVAL[*k as usize];
                let val = l[*v as usize % l.len()];
                let o = cli.run(&conf(&[key(k), val]), None)?;
                o.fails("the option has no such value")?;
            }
            Step::Get(k) => {
                let o = if odd {
                    cli.run(&conf(&["--get", key(k)]), None)?
                } else {
                    cli.run(&conf(&[key(k)]), None)?
                };
                if let State::Fine { skip, norm } = &state[f] {
                    let want = match k {
                        Key::Skip => skip.to_string(),
                        Key::Norm => norm.map_or("None", nf_name).to_string(),
                    };
                    let got = o.good()?;
                    if got != format!("{want}\n").as_bytes() {
                        return Err(o.violation(format!(
                            "{} should be {want}",
                            key(k)
                        )));
                    }
                    uses += 1;
                } else {
                    o.fails("the configuration is malformed")?;
                }
            }
            Step::Unset(k) => {
                let o = cli.run(&conf(&["--unset", key(k)]), None)?;
                if let State::Fine { skip, norm } = &mut state[f] {
                    o.good()?;
                    match k {
                        Key::Skip => *skip = false,
                        Key::Norm => *norm = None,
                    }
                } else {
                    o.fails("the configuration is malformed")?;
                }
            }
            Step::BadKey(v) => {
                let k = BADKEY[*v as usize % BADKEY.len()];
                let o = match salt % 3 {
                    0 => cli.run(&conf(&["--get", k]), None)?,
                    1 => cli.run(&conf(&["--unset", k]), None)?,
                    _ => cli.run(&conf(&[k, "true"]), None)?,
                };
                o.fails("there is no such option")?;
            }
            Step::Write(s, n, l) => {
                let mut lines = vec![];
                if let Some(s) = s {
                    lines.push(format!("skip-invalid = {s}"));
                }
                if let Some(n) = n {
                    let q = if l & 1 == 0 { '"' } else { '\'' };
                    lines.push(format!("normalization={q}{}{q}  # x", nf_name(*n)));
                }
                if l & 2 != 0 {
                    lines.reverse();
                }
                if l & 4 != 0 {
                    lines.insert(0, "# skip-invalid = true".into());
                    lines.push(String::new());
                }
                let mut t = lines.join(if l & 8 == 0 { "\n" } else { "\r\n" });
                if l & 16 == 0 {
                    t.push('\n');
                }
                cli.write(names[f], t)?;
                state[f] = State::Fine { skip: s.unwrap_or(false), norm: *n };
                env.label_if(s.is_none() || n.is_none(), "partial-file");
            }
            Step::Spoil(v) => {
                let t = SPOILT[*v as usize % SPOILT.len()];
                cli.write(names[f], t)?;
                state[f] = State::Spoilt(t.into());
                env.label("malformed-file");
            }
            Step::Delete => {
                if cli.exists(names[f]) {
                    io(std::fs::remove_file(cli.path(names[f])))?;
                }
                state[f] = DEFAULT;
            }
            Step::Read { cmd, bad, option } => {
                let cmds: Vec<_> =
                    CMDS.iter().filter(|c| c.skips).collect();
                let cmd = cmds[*cmd as usize % cmds.len()];
                if cmd.args.contains(&"--length") {
                    continue;
                }
                cmd.setup(&cli)?;
                let opt = if *option { args(&["-s"]) } else { vec![] };
                let file = if *bad { "bad.dat" } else { "good.dat" };
                let mut a = pre.clone();
                a.extend(cmd.line(&opt, &args(&[file])));
                wipe(&cli)?;
                let o = cli.run(&a, None)?;
                match &state[f] {
                    State::Spoilt(_) => o.fails("the configuration is malformed")?,
                    State::Fine { skip, .. } if *bad && !skip && !option => {
                        o.fails("invalid lines are not skipped")?
                    }
                    _ => {
                        o.good()?;
                        // as with the option
                        let here = cmd.effect(&cli, &o)?;
                        if matches!(state[0], State::Fine { .. }) {
                            wipe(&cli)?;
                            let b = cli
                                .run(&cmd.line(&args(&["-s"]), &args(&[file])), None)?;
                            let there = cmd.effect(&cli, &b)?;
                            if here != there && cmd.args[0] != "check" {
                                return Err(o.violation(format!(
                                    "other result than with --skip-invalid: {} {:?}",
                                    esc(&there.0),
                                    there.1.keys()
                                )));
                            }
                        }
                        env.label_if(*bad, "skip-applied");
                    }
                }
                uses += 1;
            }
            Step::Match { cmd, lit, val } => {
                let l = WORDS[*lit as usize % WORDS.len()];
                let v = match val % 8 {
                    7 => WORDS[*val as usize / 8 % WORDS.len()].to_string(),
                    v => nf((v < 4).then_some(v), l),
                };
                cli.write("m.dat", two(v.as_bytes()))?;
                let e = format!("012A.a == '{l}'");
                let mut a = pre.clone();
                match cmd % 3 {
                    0 => a.extend(args(&["filter", &e, "m.dat"])),
                    1 => a.extend(args(&["count", "--records", "--where", &e, "m.dat"])),
                    _ => a.extend(args(&[
                        "select",
                        &format!("012A{{a | a == '{l}'}}"),
                        "m.dat",
                    ])),
                }
                let o = cli.run(&a, None)?;
                if let State::Fine { norm, .. } = &state[f] {
                    let hit = nf(*norm, l) == v;
                    env.label_if(!hit && l == v, "normalization-prevents");
                    let out = o.good()?;
                    let got = match cmd % 3 {
                        1 => out == b"1\n",
                        _ => !out.is_empty(),
                    };
                    if hit != got {
                        return Err(o.violation(format!(
                            "with normalization {norm:?}, {l:?} should {}match {v:?}",
                            if hit { "" } else { "not " }
                        )));
                    }
                    env.label_if(hit && l != v, "normalization-applied");
                    uses += 1;
                } else {
                    o.fails("the configuration is malformed")?;
                }
            }
        }
        // nothing else changes a file that is no configuration
        if let State::Spoilt(t) = &state[f] {
            if cli.read(names[f])? != t.as_bytes() {
                return Err(Fail::Violation(
                    "a malformed configuration was overwritten".into(),
                ));
            }
            env.label_if(spoilt, "malformed-file-used");
        }
    }
    Ok(sets > 0 && uses > 0)
}

/// A record with the value, and one with another.
fn two(v: &[u8]) -> Vec<u8> {
    let r = |p: &str, v: &[u8]| {
        Rec(vec![
            Fld { tag: "003@".into(), occ: None, subs: vec![('0', B::s(p))] },
            Fld { tag: "012A".into(), occ: None, subs: vec![('a', B(v.to_vec()))] },
        ])
        .bytes()
    };
    let a = r("1", v);
    let b = Rec(vec![Fld {
        tag: "003@".into(),
        occ: None,
        subs: vec![('0', B::s("2"))],
    }])
    .bytes();
    [a, b].concat()
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "the history sets an option and reads or uses one",
        assumptions: &["unicode-normalization implements the four normal forms"],
        subs: vec![sub("history", 3_000, 60_000, history, configure)],
    }
}

// ------------------------------------------------------------------------ C19

const MARKED: [&str; 24] = [
    "ä", "a\u{308}", "é", "e\u{301}", "ﬁ", "fi", "\u{212b}", "Å", "A\u{30a}", "½",
    "ệ", "e\u{323}\u{302}", "e\u{302}\u{323}", "가", "\u{1100}\u{1161}", "각",
    "²", "2", "Ⅳ", "IV", "ｱ", "ア", "ǆ", "\u{1e9b}\u{323}",
];

fn marked() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(
            prop_oneof![3 => select(&MARKED[..]), 1 => select(&["a", "B", "M", "n"][..])],
            1..3
        )
        .prop_map(|v| v.concat()),
        1 => vec(
            prop_oneof![
                prop::char::range('\u{c0}', '\u{24f}'),
                prop::char::range('\u{300}', '\u{345}'),
                prop::char::range('\u{1e00}', '\u{1fff}'),
                prop::char::range('\u{ac00}', '\u{ac40}'),
                prop::char::range('\u{f900}', '\u{fa2d}'),
                prop::char::range('\u{fb00}', '\u{fb40}'),
            ],
            1..4
        )
        .prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

/// Values in any form; mostly variants of few words.
fn marked_recs(norm: Option<u8>) -> BoxedStrategy<Rec> {
    let form = match norm {
        Some(n) => prop_oneof![3 => Just(n), 2 => 0u8..5].boxed(),
        None => (0u8..5).boxed(),
    };
    let v = (marked(), form).prop_map(|(s, f)| B::s(&nf((f < 4).then_some(f), &s)));
    let v = prop_oneof![5 => v, 1 => select(&["a", "b", ""][..]).prop_map(B::s)];
    let f = (
        select(&["012A", "012A", "012B", "013A"][..]),
        vec((select(&['a', 'a', 'b', 'c'][..]), v), 1..4),
    )
        .prop_map(|(t, subs)| Fld { tag: t.into(), occ: None, subs });
    (rec::ppn(), vec(f, 1..5))
        .prop_map(|(p, mut f)| {
            f.insert(0, Fld { tag: "003@".into(), occ: None, subs: vec![('0', p)] });
            Rec(f)
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Slot {
    Where,
    And,
    Or,
    Not,
    Filter,
    File,
    Query,
    Freq,
    Rule,
    Scope,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NormCase {
    slot: Slot,
    cmd: usize,
    norm: u8,
    typed: u8,
    /// With quotation marks that are not syntax.
    text: String,
    input: Input,
    via: bool,
}

/// Conditions and queries whose literals are the given words.
fn worded(w: BoxedStrategy<(String, String)>, query: bool) -> BoxedStrategy<String> {
    let rel = prop_oneof![
        3 => Just("=="),
        4 => select(&["!=", "=^", "!^", "=$", "!$", "=?", "=~", "=*"][..]),
    ];
    let q = |s: &str| expr::lit(s, &mut Lay::new(&[]));
    if query {
        let part = prop_oneof![
            3 => (rel, w.clone()).prop_map(move |(r, (t, s))| format!(
                "{t}{{a | a {r} {}}}",
                q(&s)
            )),
            1 => w.clone().prop_map(move |(_, s)| q(&s)),
            1 => w.prop_map(move |(t, s)| format!("{t}{{{} <$> a}}", q(&s))),
            1 => Just("003@.0".to_string()),
        ];
        return vec(part, 1..3).prop_map(|v| v.join(", ")).boxed();
    }
    let atom = prop_oneof![
        4 => (rel, w.clone()).prop_map(move |(r, (t, s))| format!("{t}.a {r} {}", q(&s))),
        1 => (vec(w.clone(), 1..4), any::<bool>()).prop_map(move |(s, n)| {
            let l: Vec<String> = s.iter().map(|s| q(&s.1)).collect();
            format!("{}.a {}in [{}]", s[0].0, if n { "not " } else { "" }, l.join(", "))
        }),
        1 => w.prop_map(move |(t, s)| format!("{t}{{ a == {} && a? }}", q(&s))),
    ];
    let atom = (atom, prop::bool::weighted(0.2))
        .prop_map(|(a, n)| if n { format!("!({a})") } else { a });
    (prop_oneof![3 => vec(atom.clone(), 1), 2 => vec(atom, 2)], vec(select(&["&&", "||"][..]), 3))
        .prop_map(|(a, c)| {
            let mut s = String::new();
            for (i, a) in a.iter().enumerate() {
                if i > 0 {
                    s.push_str(&format!(" {} ", c[i - 1]));
                }
                s.push_str(a);
            }
            s
        })
        .boxed()
}

fn norm_case() -> BoxedStrategy<NormCase> {
    use Slot::*;
    let slot =
        select(&[Where, And, Or, Not, Filter, File, Query, Freq, Rule, Rule, Scope, Scope][..]);
    let recs = (0u8..4).prop_flat_map(|n| (Just(n), vec(marked_recs(Some(n)), 1..5)));
    (slot, recs)
        .prop_flat_map(|(slot, (norm, recs))| {
            // words of the records
            let mut words: Vec<(String, String)> = recs
                .iter()
                .flat_map(|r| r.0.iter().skip(1))
                .flat_map(|f| f.subs.iter().map(|s| (f.tag.clone(), s)))
                .filter(|(_, s)| s.0 == 'a' && !s.1.lossy().is_ascii())
                .map(|(t, s)| (t, s.1.lossy()))
                .collect();
            words.push(("012A".into(), "ä".into()));
            let other = (select(&["012A", "012B", "013A", "012."][..]), marked());
            let other = other.prop_map(|(t, w)| (t.to_string(), w));
            let w = prop_oneof![4 => select(words), 1 => other].boxed();
            let q = matches!(slot, Query | Freq);
            let free = if q {
                pathq::query().prop_map(|q| q.text(&mut Lay::new(&[]))).boxed()
            } else {
                cond().prop_map(|e: FldEx| plain(&e)).boxed()
            };
            let text = prop_oneof![5 => worded(w, q), 1 => free];
            (
                Just(slot),
                which(),
                Just(norm),
                // mostly composed for a decomposing form and vice versa
                prop_oneof![
                    3 => (0u8..2).prop_map(move |k| if norm < 2 { 2 + k } else { k }),
                    2 => 0u8..5
                ],
                text,
                any_input(recs),
                any::<bool>(),
            )
        })
        .prop_map(|(slot, cmd, norm, typed, text, input, via)| NormCase {
            slot,
            cmd,
            norm,
            typed,
            text,
            input,
            via,
        })
        .boxed()
}

fn any_input(recs: Vec<Rec>) -> BoxedStrategy<Input> {
    Just(Input::of(recs)).boxed()
}

/// Syntax must not come out of the normalization.
fn syntax(s: &str) -> Vec<char> {
    s.chars().filter(|c| c.is_ascii_punctuation() || c.is_control()).collect()
}

/// A rule-set with the expression.
fn rule_text(slot: Slot, e: &str) -> String {
    let q = format!("'''{e}'''");
    match slot {
        Slot::Rule => format!("[rule.R]\ncheck = 'filter'\nfilter = {q}\n"),
        _ => format!("scope = {q}\n[rule.R]\ncheck = 'filter'\nfilter = '003@?'\n"),
    }
}

fn normalized(c: &NormCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    // what the user types
    let typed = nf((c.typed < 4).then_some(c.typed), &c.text);
    let want = nf(Some(c.norm), &typed);
    if syntax(&typed) != syntax(&want) || typed.contains("'''") || typed.contains('\0') {
        return Err(Fail::Skip);
    }
    if matches!(c.slot, Slot::Rule | Slot::Scope)
        && (typed.contains("'''")
            || typed.ends_with('\'')
            || typed.chars().any(|c| c.is_control()))
    {
        return Err(Fail::Skip);
    }
    let mut cmd = &CMDS[c.cmd % CMDS.len()];
    if !cmd.filters || (c.slot == Slot::Where && cmd.args[0] == "filter") {
        cmd = CMDS.iter().find(|c| c.args == ["hash"]).unwrap();
    }
    cmd.setup(&cli)?;
    let (files, stdin) = c.input.deliver(&cli)?;
    let go = |text: &str, pre: &[String]| -> Result<(Out, Vec<u8>, Files), Fail> {
        wipe(&cli)?;
        let at = |k: &str| format!("{k}={text}");
        let fixed = |a: &[&str]| {
            let mut a = args(a);
            a.push("--".into());
            a.push(text.to_string());
            a.extend(files.iter().cloned());
            a
        };
        let mut a = pre.to_vec();
        a.extend(match c.slot {
            Slot::Where => cmd.line(&[at("--where")], &files),
            Slot::And | Slot::Or | Slot::Not => {
                let k = match c.slot {
                    Slot::And => "--and",
                    Slot::Or => "--or",
                    _ => "--not",
                };
                let w = if c.slot == Slot::Or { "--where=013A?" } else { "--where=003@?" };
                let mut m =
                    if cmd.args[0] == "filter" { vec![] } else { args(&[w]) };
                m.push(at(k));
                cmd.line(&m, &files)
            }
            Slot::Filter => fixed(&["filter"]),
            Slot::File => {
                // as editors write it, also on several lines
                let end = ["", "\n", "\n", "\r\n", " \n\n"][c.text.len() % 5];
                let mut text = format!("{text}{end}");
                if c.text.len() % 2 == 0 {
                    text = text.replace(" && ", "\n  && ").replace(" || ", " ||\n");
                }
                cli.write("expr.txt", text)?;
                let mut a = args(&["filter", "-F", "expr.txt", "--"]);
                a.extend(files.iter().cloned());
                a
            }
            Slot::Query => fixed(&["select"]),
            Slot::Freq => fixed(&["frequency"]),
            Slot::Rule | Slot::Scope => {
                cli.write("r.toml", rule_text(c.slot, text))?;
                let mut a = args(&["check", "-R", "r.toml"]);
                a.extend(files.iter().cloned());
                a
            }
        });
        let o = cli.run(&a, stdin.as_deref())?;
        if o.code != Some(0) {
            o.fails("no success")?;
            return Ok((o, vec![], Files::new()));
        }
        let uses = !matches!(
            c.slot,
            Slot::Filter | Slot::File | Slot::Query | Slot::Freq | Slot::Rule | Slot::Scope
        );
        let (out, files) = if uses {
            if cmd.dir && !cli.exists("out") {
                io(std::fs::create_dir(cli.path("out")))?;
            }
            cmd.effect(&cli, &o)?
        } else {
            (o.out.clone(), Files::new())
        };
        Ok((o, out, files))
    };
    let (a, b, d) = go(&want, &[])?;
    // does it matter?
    let plain = go(&typed, &[])?;
    let matters = plain.1 != b || plain.2 != d;
    let conf = format!("skip-invalid = false\nnormalization = '{}'\n", nf_name(c.norm));
    let pre = if c.via {
        cli.write("conf.toml", conf)?;
        args(&["-c", "conf.toml"])
    } else {
        cli.set_config(&conf)?;
        vec![]
    };
    let (o, x, y) = go(&typed, &pre)?;
    if o.code != a.code || x != b || y != d {
        return Err(o.violation(format!(
            "with normalization {}, {typed:?} does not mean {want:?}\n  got: {:?} {} {:?}\n want: {:?} {} {:?}",
            nf_name(c.norm),
            o.code,
            esc(&x),
            y.keys(),
            a.code,
            esc(&b),
            d.keys()
        )));
    }
    env.label(&format!("{:?}", c.slot));
    env.label_if(matters, &format!("{:?}-matters", c.slot));
    Ok(matters)
}

// -------------------------------------------------------------------- translit

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TransCase {
    cmd: u8,
    nf: u8,
    conf: Option<u8>,
    input: Input,
}

fn trans_case() -> BoxedStrategy<TransCase> {
    (0u8..6, 0u8..4, option::weighted(0.3, 0u8..4), input_of(marked_recs(None), false, 6))
        .prop_map(|(cmd, nf, conf, input)| TransCase { cmd, nf, conf, input })
        .boxed()
}

fn transliterated(c: &TransCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    for r in c.input.recs() {
        for v in r.0.iter().flat_map(|f| f.subs.iter().map(|s| s.1.lossy())) {
            let k: String = v.nfkd().collect();
            if k.chars().any(|c| ",\"\n\r\t=<>".contains(c)) {
                return Err(Fail::Skip);
            }
        }
    }
    if let Some(n) = c.conf {
        cli.set_config(&format!("normalization = '{}'\n", nf_name(n)))?;
    }
    let cmd: &[&str] = match c.cmd {
        0 => &["print"],
        1 => &["print", "--color=never"],
        2 => &["select", "003@.0, 012A{a, b}"],
        3 => &["select", "--tsv", "01../*.a"],
        4 => &["frequency", "012A.a"],
        _ => &["frequency", "--reverse", "01..{a, b}"],
    };
    let mut cmd = args(cmd);
    if cmd.last().is_some_and(|s| s.starts_with("--color")) {
        cmd.pop();
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    let mut a = cmd.clone();
    a.extend(files.iter().cloned());
    let plain = cli.run(&a, stdin.as_deref())?;
    let plain = String::from_utf8_lossy(plain.good()?).to_string();
    cmd.splice(1..1, args(&["--translit", nf_name(c.nf)]));
    cmd.extend(files);
    let o = cli.run(&cmd, stdin.as_deref())?;
    let got = o.good()?;
    let want = nf(Some(c.nf), &plain);
    crate::cli::same("transliterated output", got, want.as_bytes(), &o)?;
    env.label(&cmd[0]);
    env.label(nf_name(c.nf));
    Ok(want != plain)
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "expressions: normalizing the typed expression changes the result; \
               translit: normalizing changes the output",
        assumptions: &["unicode-normalization implements the four normal forms"],
        subs: vec![
            sub("expressions", 6_000, 120_000, norm_case, normalized),
            sub("translit", 3_000, 60_000, trans_case, transliterated),
        ],
    }
}
