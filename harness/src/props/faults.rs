//! C17: all input forms, invalid lines, I/O faults, malformed options.

use std::collections::BTreeMap;
use std::os::fd::OwnedFd;
use std::process::Stdio;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use super::{gunzip_all, gzip_members};
use crate::cli::{
    RAW,
    Cli, Common, Form, Input, Line, Out, args, common, cond, form, input, io, junk,
    preds, preds_text, skip_for, volume,
};
use crate::expr::{self, plain};
use crate::rec::{B, Fld, Rec, decode, esc};
use crate::runner::{Env, Fail, Property, Res, sub};
use crate::{mutate, pathq};

/// A command with fixed arguments.
pub struct Cmd {
    pub args: &'static [&'static str],
    /// Writes into a directory.
    pub dir: bool,
    /// The order of the lines is not specified.
    pub unordered: bool,
    /// Has the option to skip invalid lines.
    pub skips: bool,
    /// Has the common filter options.
    pub filters: bool,
    /// Has `--keep` and `--discard`.
    pub keeps: bool,
}

const fn cmd(args: &'static [&'static str]) -> Cmd {
    Cmd { args, dir: false, unordered: false, skips: true, filters: true, keeps: false }
}

const PART: &str = "003@{0 | 0 in ['1', '2', '3', '4', '5', '10', '118540238']}";

pub const CMDS: &[Cmd] = &[
    Cmd {
        unordered: true,
        ..cmd(&["check", "-R", "a.toml", "-R", "b.toml", "-R", "c.toml"])
    },
    Cmd { filters: false, keeps: true, ..cmd(&["concat"]) },
    Cmd { filters: false, keeps: true, ..cmd(&["concat", "--unique"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "binary"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "json"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "import"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "plain"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "plus"]) },
    Cmd { filters: false, ..cmd(&["convert", "-f", "plus", "-t", "xml"]) },
    cmd(&["count"]),
    cmd(&["count", "--csv"]),
    cmd(&["count", "--subfields"]),
    Cmd { keeps: true, ..cmd(&["describe"]) },
    Cmd { keeps: true, ..cmd(&["explode", "main"]) },
    Cmd { keeps: true, ..cmd(&["filter", "012A?"]) },
    Cmd { keeps: true, ..cmd(&["filter", "-v", "012A.a =^ 'a'"]) },
    cmd(&["frequency", "012A{a, b}"]),
    cmd(&["hash"]),
    Cmd { skips: false, filters: false, ..cmd(&["invalid"]) },
    Cmd { dir: true, ..cmd(&["partition", "-o", "out", PART]) },
    Cmd { dir: true, ..cmd(&["partition", "-g", "-o", "out", PART]) },
    cmd(&["print"]),
    cmd(&["sample", "--seed", "3", "3"]),
    cmd(&["select", "003@.0, 012A{a, b}"]),
    cmd(&["select", "012A.*"]),
    cmd(&["slice"]),
    cmd(&["slice", "--start", "1", "--length", "4"]),
    Cmd { dir: true, ..cmd(&["split", "-o", "out", "2"]) },
    Cmd { dir: true, ..cmd(&["split", "--gzip", "-o", "out", "3"]) },
];

pub fn which() -> BoxedStrategy<usize> {
    (0..CMDS.len()).boxed()
}

pub type Files = BTreeMap<String, Vec<u8>>;

impl Cmd {
    pub fn setup(&self, cli: &Cli) -> Result<(), Fail> {
        if self.args[0] == "check" {
            cli.write("a.toml", "[rule.A]\ncheck = 'filter'\nfilter = '012A?'\n")?;
            cli.write("b.toml", "[rule.B]\ncheck = 'duplicates'\nquery = '012A.a'\n")?;
            cli.write(
                "c.toml",
                "[rule.C]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\n",
            )?;
        }
        Ok(())
    }

    pub fn line(&self, more: &[String], files: &[String]) -> Vec<String> {
        let mut a = args(self.args);
        a.splice(1..1, more.iter().cloned());
        a.push("--".into());
        // arguments before the files must stay before them
        a.extend(files.iter().cloned());
        a
    }

    /// Standard output, and the files in the output directory.
    pub fn effect(&self, cli: &Cli, o: &Out) -> Result<(Vec<u8>, Files), Fail> {
        let mut out = o.out.clone();
        if self.unordered {
            let mut l: Vec<&[u8]> = out.split_inclusive(|b| *b == b'\n').collect();
            l.sort();
            out = l.concat();
        }
        let mut files = Files::new();
        if self.dir {
            for e in io(std::fs::read_dir(cli.path("out")))? {
                let p = io(e)?.path();
                let data = io(std::fs::read(&p))?;
                let name = p.file_name().unwrap().to_string_lossy().to_string();
                let data = if name.ends_with(".gz") {
                    gunzip_all(&data).map_err(|e| o.violation(format!("{name}: {e}")))?
                } else {
                    data
                };
                files.insert(name, data);
            }
        }
        Ok((out, files))
    }
}

pub fn wipe(cli: &Cli) -> Result<(), Fail> {
    let p = cli.path("out");
    if p.exists() { io(std::fs::remove_dir_all(p)) } else { Ok(()) }
}

// ---------------------------------------------------------------------- forms

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FormCase {
    cmd: usize,
    input: Input,
    form: Form,
    salt: usize,
}

fn form_case() -> BoxedStrategy<FormCase> {
    (which(), any::<bool>().prop_flat_map(|b| input(true, b, 9)), form(), any::<u8>())
        .prop_map(|(cmd, input, form, salt)| FormCase {
            cmd,
            input,
            form,
            salt: salt as usize,
        })
        .boxed()
}

/// Thousands of records, or large ones.
fn form_volume() -> BoxedStrategy<FormCase> {
    (form_case(), volume(9_000, true))
        .prop_map(|(mut c, v)| {
            v.blow(&mut c.input);
            c.input.spread = false;
            if CMDS[c.cmd % CMDS.len()].dir {
                c.input.rep = c.input.rep.min(400);
            }
            c
        })
        .boxed()
}

fn forms(c: &FormCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let cmd = &CMDS[c.cmd % CMDS.len()];
    cmd.setup(&cli)?;
    let skip = if cmd.skips {
        skip_for(&c.input, c.salt).args(&cli)?
    } else {
        vec![]
    };
    let run = |i: &Input| -> Result<(Out, (Vec<u8>, Files)), Fail> {
        wipe(&cli)?;
        let (files, stdin) = i.deliver(&cli)?;
        let o = cli.run(&cmd.line(&skip, &files), stdin.as_deref())?;
        o.good()?;
        let e = cmd.effect(&cli, &o)?;
        Ok((o, e))
    };
    // everything in one plain file
    let one = Input { form: Form::File, ..c.input.clone() };
    let (_, want) = run(&one)?;
    let other = Input { form: c.form, ..c.input.clone() };
    let (o, got) = run(&other)?;
    if got != want {
        return Err(o.violation(format!(
            "{:?} gives another result than one plain file\n  got: {} {:?}\n want: {} {:?}",
            c.form,
            esc(&got.0),
            got.1.keys(),
            esc(&want.0),
            want.1.keys()
        )));
    }
    // invalid lines do not matter
    let valid: Vec<Line> = c.input.recs().into_iter().map(Line::R).collect();
    let bad = valid.len() < c.input.raw().len();
    if cmd.skips && bad && cmd.args[0] != "slice" {
        let pure = Input { lines: valid, open: false, form: Form::File, cuts: vec![], rep: 0, spread: false };
        let (o, got) = run(&pure)?;
        if got != want {
            return Err(o.violation(format!(
                "without the invalid lines the result is another one\n  got: {} {:?}\n want: {} {:?}",
                esc(&got.0),
                got.1.keys(),
                esc(&want.0),
                want.1.keys()
            )));
        }
        env.label("invalid-lines-skipped");
    }
    env.label(cmd.args[0]);
    Ok((!want.0.is_empty() || !want.1.is_empty())
        && c.form != Form::File
        && c.input.lines.len() > 1)
}

// -------------------------------------------------------------- invalid lines

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadLine {
    cmd: usize,
    before: Vec<Rec>,
    line: B,
    after: Vec<Line>,
    form: Form,
    cuts: Vec<u16>,
    off: bool,
    /// So many further records at the beginning.
    #[serde(default)]
    pad: u32,
}

/// Behind thousands of records.
fn bad_line_far() -> BoxedStrategy<BadLine> {
    let n = select(&[250u32, 254, 255, 256, 1_000, 4_095, 32_767, 65_535, 66_000][..]);
    (bad_line(), n).prop_map(|(mut c, n)| {
        let cmd = &CMDS[c.cmd % CMDS.len()];
        c.pad = if cmd.dir { n.min(1_000) } else { n };
        c
    }).boxed()
}

fn bad_line() -> BoxedStrategy<BadLine> {
    let rec = || crate::rec::rec_ppn(true);
    (
        which(),
        vec(rec(), 0..6),
        junk().prop_filter("decodable", |b| decode(&[&b.0[..], b"\n"].concat()).is_none()),
        vec(
            prop_oneof![3 => rec().prop_map(Line::R), 1 => junk().prop_map(Line::X)],
            0..4,
        ),
        form(),
        vec(any::<u16>(), 0..4),
        any::<bool>(),
    )
        .prop_map(|(cmd, before, line, after, form, cuts, off)| BadLine {
            cmd,
            before,
            line,
            after,
            form,
            cuts,
            off,
            pad: 0,
        })
        .boxed()
}

fn bad_lines(c: &BadLine, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let cmd = &CMDS[c.cmd % CMDS.len()];
    cmd.setup(&cli)?;
    let pad = (0..c.pad).map(|n| {
        Rec(vec![Fld {
            tag: "001@".into(),
            occ: None,
            subs: vec![('a', B::s(&n.to_string()))],
        }])
    });
    let mut lines: Vec<Line> =
        pad.chain(c.before.iter().cloned()).map(Line::R).collect();
    let before = lines.len();
    lines.push(Line::X(c.line.clone()));
    lines.extend(c.after.iter().cloned());
    let i = Input { lines, form: c.form, cuts: c.cuts.clone(), open: false, rep: 0, spread: false };
    if c.off {
        cli.set_config("skip-invalid = false\n")?;
    }
    let (files, stdin) = i.deliver(&cli)?;
    // Where the line is: its number within its file.
    let mut at = before + 1;
    let mut file = files.first().cloned().unwrap_or("-".into());
    if c.form == Form::Files {
        for (n, p) in i.pieces().0.iter().enumerate() {
            let k = p.iter().filter(|b| **b == b'\n').count();
            if at <= k {
                file = files[n].clone();
                break;
            }
            at -= k;
        }
    }
    let o = cli.run(&cmd.line(&[], &files), stdin.as_deref())?;
    if cmd.args[0] == "invalid" {
        o.good()?;
        return Ok(false);
    }
    // These commands may be done before they come to the line.
    if cmd.args[0] == "slice" && cmd.args.len() > 1 && before >= 5 {
        return Ok(false);
    }
    o.fails("the input has an invalid line")?;
    let names = |n: usize| {
        o.err.contains(&format!("line {n}.")) || o.err.contains(&format!("line {n} "))
    };
    if !names(at) {
        return Err(o.violation(format!("the error does not name line {at}")));
    }
    if file != "-" && !file.contains(RAW) && !o.err.contains(&file) {
        return Err(o.violation(format!("the error does not name the file {file}")));
    }
    env.label(cmd.args[0]);
    Ok(before > 0 || c.form == Form::Files)
}

// ----------------------------------------------------------------- i/o faults

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    Missing,
    Directory,
    Truncated,
    Checksum,
    Flipped,
    NoGzip,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    cmd: usize,
    fault: Fault,
    recs: Vec<Vec<Rec>>,
    pos: usize,
    cut: u16,
    skip: bool,
}

fn fault_case() -> BoxedStrategy<FaultCase> {
    use Fault::*;
    (
        which(),
        select(&[Missing, Directory, Truncated, Truncated, Checksum, Flipped, NoGzip][..]),
        vec(vec(crate::rec::rec_ppn(true), 1..5), 1..4),
        any::<u8>(),
        any::<u16>(),
        any::<bool>(),
    )
        .prop_map(|(cmd, fault, recs, pos, cut, skip)| FaultCase {
            cmd,
            fault,
            recs,
            pos: pos as usize,
            cut,
            skip,
        })
        .boxed()
}

fn faulty(c: &FaultCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let cmd = &CMDS[c.cmd % CMDS.len()];
    if cmd.args.contains(&"--length") {
        return Err(Fail::Skip);
    }
    cmd.setup(&cli)?;
    let skip = if c.skip && cmd.skips { args(&["-s"]) } else { vec![] };
    let mut files = vec![];
    let bad = c.pos % c.recs.len();
    for (i, r) in c.recs.iter().enumerate() {
        let data: Vec<u8> = r.iter().flat_map(|r| r.bytes()).collect();
        if i != bad {
            let n = format!("in{i}.dat");
            cli.write(&n, data)?;
            files.push(n);
            continue;
        }
        let mut zip = gzip_members(&data, &[]);
        let n = match c.fault {
            Fault::Missing => MISSING[c.cut as usize % MISSING.len()],
            Fault::Directory => {
                let n = ["dir.dat", "dir", "d.gz"][c.cut as usize % 3];
                io(std::fs::create_dir(cli.path(n)))?;
                n
            }
            Fault::Truncated => {
                // at least one byte missing, at least one left
                zip.truncate(1 + c.cut as usize % (zip.len() - 1));
                cli.write("bad.dat.gz", &zip)?;
                "bad.dat.gz"
            }
            Fault::Checksum => {
                let k = zip.len() - 8 + c.cut as usize % 8;
                zip[k] ^= 1 << (c.cut % 8);
                cli.write("bad.dat.gz", &zip)?;
                "bad.dat.gz"
            }
            Fault::Flipped => {
                // magic number or method
                let k = c.cut as usize % 3;
                zip[k] ^= 0x55;
                cli.write("bad.dat.gz", &zip)?;
                "bad.dat.gz"
            }
            Fault::NoGzip => {
                cli.write("bad.dat.gz", &data)?;
                "bad.dat.gz"
            }
        };
        files.push(n.to_string());
    }
    let o = cli.run(&cmd.line(&skip, &files), None)?;
    o.fails(&format!("{:?}", c.fault))?;
    env.label(cmd.args[0]);
    env.label(&format!("{:?}", c.fault));
    Ok(true)
}

/// Names of files that do not exist.
const MISSING: [&str; 14] = [
    "missing.dat",
    "x",
    "missing.dat.gz",
    "m.gz",
    "no such file",
    "./-",
    "-x",
    "--",
    ".gz",
    "IN0.DAT",
    "in0",
    "nowhere/in0.dat",
    "*.dat",
    "",
];

// --------------------------------------------------------------- write faults

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Hole {
    /// Standard output is full.
    Full,
    /// Nobody reads the standard output.
    Closed,
    /// `-o` names a full device.
    FileFull,
    /// `-o` names something in a directory that does not exist.
    NoDir,
    /// `-o` names a directory.
    IsDir,
    /// `--tee` names a full device.
    TeeFull,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HoleCase {
    cmd: usize,
    hole: Hole,
    recs: Vec<Rec>,
    times: usize,
    /// Compressed output, if the command has the option.
    #[serde(default)]
    gzip: bool,
}

fn hole_case() -> BoxedStrategy<HoleCase> {
    use Hole::*;
    (
        0..CMDS.len() + 3,
        select(&[Full, Full, Closed, FileFull, FileFull, NoDir, IsDir, TeeFull][..]),
        vec(crate::rec::rec_ppn(true), 1..8),
        // more than one buffer of output
        select(&[1usize, 1, 3, 400][..]),
        any::<bool>(),
    )
        .prop_map(|(cmd, hole, recs, times, gzip)| HoleCase { cmd, hole, recs, times, gzip })
        .boxed()
}

/// Commands with the option `--gzip`.
const GZIPS: [&str; 4] = ["explode", "filter", "sample", "slice"];

const SELF: [&[&str]; 3] =
    [&["completions", "bash"], &["completions", "fish"], &["config", "skip-invalid"]];

fn holes(c: &HoleCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    if c.cmd >= CMDS.len() {
        // commands without input
        let a = args(SELF[c.cmd - CMDS.len()]);
        let to = stdout_for(c.hole)?;
        let Some(to) = to else { return Err(Fail::Skip) };
        let o = cli.run_to(&a, None, to)?;
        return verdict(c.hole, &o, true, env);
    }
    let cmd = &CMDS[c.cmd];
    cmd.setup(&cli)?;
    let one: Vec<u8> = c
        .recs
        .iter()
        .flat_map(|r| r.bytes())
        .chain(if cmd.skips { vec![] } else { b"invalid\n".to_vec() })
        .collect();
    cli.write("in.dat", one.repeat(c.times))?;
    let files = args(&["in.dat"]);
    let gzip = c.gzip && GZIPS.contains(&cmd.args[0]);
    let zip = if gzip { args(&["--gzip"]) } else { vec![] };
    env.label_if(gzip, "gzip");
    if cmd.dir {
        let o = cli.run(&cmd.line(&zip, &files), None)?;
        o.good()?;
        if cmd.effect(&cli, &o)?.1.is_empty() {
            return Ok(false);
        }
        if let Hole::FileFull | Hole::Full | Hole::TeeFull = c.hole {
            // one of the files cannot be written
            let all = cmd.effect(&cli, &o)?.1;
            let name = all.keys().nth(c.times * 7 % all.len()).expect("a file");
            wipe(&cli)?;
            io(std::fs::create_dir(cli.path("out")))?;
            io(std::os::unix::fs::symlink("/dev/full", cli.path("out").join(name)))?;
            let o = cli.run(&cmd.line(&zip, &files), None)?;
            o.fails("a file of the output directory cannot be written")?;
            env.label("directory-file");
            return Ok(true);
        }
        wipe(&cli)?;
        // the output directory is a file
        cli.write("out", "")?;
        let o = cli.run(&cmd.line(&zip, &files), None)?;
        o.fails("the output directory is a file")?;
        env.label("directory");
        return Ok(true);
    }
    // is there any output?
    let o = cli.run(&cmd.line(&zip, &files), None)?;
    o.good()?;
    let some = !o.out.is_empty();
    if let Some(to) = stdout_for(c.hole)? {
        let o = cli.run_to(&cmd.line(&zip, &files), None, to)?;
        return verdict(c.hole, &o, some, env);
    }
    let more = match c.hole {
        Hole::FileFull if c.gzip && c.times > 1 => {
            // compressed (by commands that write records) for its name
            io(std::os::unix::fs::symlink("/dev/full", cli.path("full.gz")))?;
            args(&["-o", "full.gz"])
        }
        Hole::FileFull => args(&["-o", "/dev/full"]),
        Hole::NoDir => args(&["-o", "none/x"]),
        Hole::IsDir => {
            io(std::fs::create_dir(cli.path("dir")))?;
            args(&["-o", "dir"])
        }
        _ if matches!(cmd.args[0], "filter" | "concat") => {
            args(&["--tee", "/dev/full"])
        }
        _ => return Err(Fail::Skip),
    };
    let more = [more, zip].concat();
    let o = cli.run(&cmd.line(&more, &files), None)?;
    verdict(c.hole, &o, some, env)
}

fn stdout_for(h: Hole) -> Result<Option<Stdio>, Fail> {
    Ok(match h {
        Hole::Full => {
            Some(io(std::fs::OpenOptions::new().write(true).open("/dev/full"))?.into())
        }
        Hole::Closed => {
            let (r, w) = io(std::io::pipe())?;
            drop(r);
            Some(OwnedFd::from(w).into())
        }
        _ => None,
    })
}

fn verdict(h: Hole, o: &Out, some: bool, env: &mut Env) -> Res {
    env.label(&format!("{h:?}"));
    match h {
        Hole::Closed => {
            if o.code != Some(0) && o.code != Some(2) {
                return Err(o.violation("no orderly end without a reader"));
            }
        }
        Hole::NoDir | Hole::IsDir => o.fails("the output cannot be created")?,
        _ if some => o.fails("the output cannot be written")?,
        _ => {
            if o.code != Some(0) && o.code != Some(2) {
                return Err(o.violation("no orderly end"));
            }
        }
    }
    Ok(some)
}

// ----------------------------------------------------------- malformed options

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Slot {
    Where,
    And,
    Or,
    Not,
    Filter,
    File,
    Query,
    Freq,
    Part,
    Source,
    Keep,
    Discard,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    slot: Slot,
    text: String,
    cmd: usize,
    input: Input,
}

const TOKENS: &[&str] = &[
    "==", "!=", "=^", "=$", "=~", "=?", "=*", "!", "&&", "||", "^", "(", ")", "{", "}",
    "[", "]", "'", "\"", "|", ",", ".", "?", "*", "#", "/", "/01", "/*", "$", "0", "9",
    "a", "in", "not", "ANY", "ALL", "003@", "012A", ">=", "< 3", " ", "\\", "ä", "<$>",
    "@", "[0-9", "a-z", "..", "&", "-", "=",
];

fn text_case() -> BoxedStrategy<TextCase> {
    use Slot::*;
    let slot = select(
        &[Where, And, Or, Not, Filter, File, Query, Freq, Part, Source, Keep, Discard][..],
    );
    slot.prop_flat_map(|s| {
        let base: BoxedStrategy<String> = match s {
            Query | Freq => {
                pathq::query().prop_map(|q| q.text(&mut expr::Lay::new(&[]))).boxed()
            }
            Part | Source => {
                pathq::path().prop_map(|q| q.text(&mut expr::Lay::new(&[]))).boxed()
            }
            Keep | Discard => preds().prop_map(|p| preds_text(&p)).boxed(),
            _ => cond().prop_map(|e| plain(&e)).boxed(),
        };
        let text = mutate::text(base, TOKENS, 4);
        (Just(s), text, which(), input(true, false, 5))
    })
    .prop_map(|(slot, text, cmd, mut input)| {
        // values become file names in partition
        if slot == Slot::Part {
            input = Input::of(
                (0..3)
                    .map(|i| {
                        let f = |t: &str| Fld {
                            tag: t.into(),
                            occ: None,
                            subs: vec![('0', B::s(&format!("v{i}"))), ('a', B::s("w"))],
                        };
                        Rec(vec![f("003@"), f("012A")])
                    })
                    .collect(),
            );
        }
        TextCase { slot, text, cmd, input }
    })
    .boxed()
}

fn texts(c: &TextCase, env: &mut Env) -> Res {
    use pica_record::prelude::*;
    let cli = Cli::new(env)?;
    let t = &c.text;
    if t.contains('\0') {
        return Err(Fail::Skip);
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    let at = |k: &str| format!("{k}={t}");
    let mut cmd = &CMDS[c.cmd % CMDS.len()];
    if cmd.dir || !cmd.filters {
        cmd = CMDS.iter().find(|c| c.args == ["hash"]).unwrap();
    }
    if matches!(c.slot, Slot::Keep | Slot::Discard) && !cmd.keeps {
        cmd = CMDS.iter().find(|c| c.args == ["concat"]).unwrap();
    }
    cmd.setup(&cli)?;
    // what the library says about the text
    let ok = match c.slot {
        Slot::Where | Slot::And | Slot::Or | Slot::Not | Slot::Filter | Slot::File => {
            Some(RecordMatcher::new(t).is_ok())
        }
        Slot::Query | Slot::Freq => Some(Query::new(t).is_ok()),
        Slot::Part | Slot::Source => Some(Path::new(t).is_ok()),
        Slot::Keep | Slot::Discard => None,
    };
    let fixed = |a: &[&str]| {
        let mut a = args(a);
        a.push("--".into());
        a.push(t.clone());
        a.extend(files.iter().cloned());
        a
    };
    let w = ["--where=003@?".to_string()];
    let a = match c.slot {
        Slot::Where => cmd.line(&[at("--where")], &files),
        Slot::And | Slot::Or | Slot::Not => {
            let k = match c.slot {
                Slot::And => "--and",
                Slot::Or => "--or",
                _ => "--not",
            };
            let mut m = if cmd.args[0] == "filter" { vec![] } else { w.to_vec() };
            m.push(at(k));
            cmd.line(&m, &files)
        }
        Slot::Filter => fixed(&["filter"]),
        Slot::File => {
            cli.write("expr.txt", t)?;
            let mut a = args(&["filter", "-F", "expr.txt", "--"]);
            a.extend(files.iter().cloned());
            a
        }
        Slot::Query => fixed(&["select"]),
        Slot::Freq => fixed(&["frequency"]),
        Slot::Part => fixed(&["partition", "-o", "out"]),
        Slot::Source => {
            cli.write("l.csv", "ppn\n1\n")?;
            let mut m = args(&["-A", "l.csv"]);
            m.push(at("--filter-set-source"));
            cmd.line(&m, &files)
        }
        Slot::Keep => cmd.line(&[at("--keep")], &files),
        Slot::Discard => cmd.line(&[at("--discard")], &files),
    };
    if c.slot == Slot::Where && cmd.args[0] == "filter" {
        return Err(Fail::Skip);
    }
    let o = cli.run(&a, stdin.as_deref())?;
    match (o.code, ok) {
        (Some(0), Some(false)) => {
            return Err(o.violation(format!("malformed text accepted: {t:?}")));
        }
        (Some(0), _) => env.label("accepted"),
        (_, Some(true)) => {
            return Err(o.violation(format!("well-formed text rejected: {t:?}")));
        }
        _ => {
            o.fails("malformed text")?;
            env.label("rejected");
        }
    }
    env.label(&format!("{:?}", c.slot));
    Ok(o.code != Some(0))
}

// -------------------------------------------------------------------- numbers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArgCase {
    cmd: usize,
    common: Common,
    input: Input,
    kind: usize,
    first: bool,
}

/// Options with values that are none of the allowed ones.
const BAD: &[&[&str]] = &[
    &["--limit", "x"],
    &["--limit=-1"],
    &["--limit", "99999999999999999999999"],
    &["--strsim-threshold", "101"],
    &["--strsim-threshold", "a"],
    &["-A", "missing.csv"],
    &["-D", "missing.txt"],
    &["-A", "wrong.csv"],
    &["--nothing"],
    &["--where", ""],
    &["--filter-set-source", "003@"],
];

fn arg_case() -> BoxedStrategy<ArgCase> {
    (which(), common(), input(true, false, 4), 0..BAD.len(), any::<bool>())
        .prop_map(|(cmd, common, input, kind, first)| ArgCase {
            cmd,
            common,
            input,
            kind,
            first,
        })
        .boxed()
}

fn bad_args(c: &ArgCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let cmd = &CMDS[c.cmd % CMDS.len()];
    if !cmd.filters {
        return Err(Fail::Skip);
    }
    let bad = BAD[c.kind % BAD.len()];
    if bad[0] == "--where" && cmd.args[0] == "filter" {
        return Err(Fail::Skip);
    }
    cmd.setup(&cli)?;
    cli.write("wrong.csv", "x,y\n1,2\n")?;
    // no option twice
    let mut k = c.common.clone();
    if bad[0].starts_with("--limit") {
        k.limit = 0;
    }
    if bad[0] == "--where" || cmd.args[0] == "filter" {
        k.cond = None;
        (k.and, k.or, k.not) = (vec![], vec![], vec![]);
    }
    if bad[0].starts_with("--strsim") {
        k.thr = None;
    }
    if bad[0].starts_with("-A") || bad[0].starts_with("-D") || bad[0].contains("source") {
        k.sets = crate::cli::Sets::none();
    }
    let mut more: Vec<Vec<String>> = vec![k.args(&cli)?, args(bad)];
    if c.first {
        more.swap(0, 1);
    }
    let (files, stdin) = c.input.deliver(&cli)?;
    let o = cli.run(&cmd.line(&more.concat(), &files), stdin.as_deref())?;
    o.fails(&bad.join(" "))?;
    env.label(&bad.join(" "));
    Ok(true)
}

// -------------------------------------------------------------------- options

/// (command, positional arguments, options)
type Optioned = (&'static str, &'static [&'static [&'static str]], &'static [&'static [&'static str]]);

const OUT: [&[&str]; 8] = [
    &["-o", "o.dat"], &["-o", "o.dat.gz"], &["-o", "o.csv"], &["-o", "o.tsv"],
    &["-o", "o.txt"], &["--output", "o.arrow"], &["-o", "o.ipc"], &["-o", "old.dat"],
];

const FILTERS: &[&[&str]] = &[
    &["--limit", "1"], &["-l", "2"], &["--limit", "0"],
    &["--limit", "18446744073709551615"], &["-i"], &["--strsim-threshold", "0"],
    &["--strsim-threshold", "100"], &["-A", "a.csv"], &["-A", "a.tsv"],
    &["-A", "a.txt"], &["-D", "b.csv"], &["-D", "b.txt"], &["-D", "empty.csv"],
    &["-A", "empty.txt"], &["--filter-set-column", "idn"],
    &["--filter-set-column", "x"], &["--filter-set-source", "012A.a"],
    &["--filter-set-source", "003@.0"], &["--where", "012A?"],
    &["--where", "003@.0 == '1' || ..../*.a =? 'abc'"], &["--and", "012A.a =^ 'a'"],
    &["--or", "013A?"], &["--not", "021A?"],
];

const OPTIONED: &[Optioned] = &[
    ("filter", &[&["012A?"], &["003@{0 =~ '^1'}"], &["..../*.* =* 'a'"]], &[
        &["-v"], &["-k", "012A,003@"], &["-d", "012A/*"], &["--keep", ""],
        &["--discard", "...."], &["-g"], &["--append"], &["--tee", "t.dat"],
        &["--tee", "t.dat.gz"], &["-F", "expr.txt"],
    ]),
    ("concat", &[&[]], &[
        &["--unique"], &["--unique-strategy", "hash"], &["--unique-strategy", "idn"],
        &["--append"], &["--tee", "t.dat"], &["--tee", "t.dat.gz"],
    ]),
    ("slice", &[&[]], &[
        &["--start", "0"], &["--start", "1"], &["--end", "2"], &["--end", "0"],
        &["--length", "1"], &["--length", "18446744073709551615"],
        &["--start", "18446744073709551615"], &["-g"], &["-a"], &["--append"],
    ]),
    ("split", &[&["1"], &["2"], &["4294967295"], &["0"]], &[
        &["-g"], &["--outdir", "dir"], &["--template", "c-{}.dat"],
        &["--template", "{}{}.gz"], &["--template", "one"],
    ]),
    ("partition", &[&["012A{c | c in ['1', '2']}"], &["..../*{9 | 9 =~ '^[0-9A-Za-z]+$'}"]], &[
        &["-g"], &["--outdir", "dir"], &["-t", "p-{}.dat"], &["-t", "{}.gz"],
    ]),
    ("sample", &[&["1"], &["3"], &["0"], &["65535"], &["4294967295"]], &[
        &["--seed", "0"], &["--seed", "18446744073709551615"], &["-g"],
    ]),
    ("explode", &[&["main"], &["local"], &["copy"]], &[
        &["-g"], &["-k", "012A,203@/*"], &["-d", "101@"], &["-d", "..../*"],
    ]),
    ("count", &[&[]], &[
        &["--records"], &["--fields"], &["--subfields"], &["--csv"], &["--tsv"],
        &["--no-header"], &["--append"],
    ]),
    ("describe", &[&[]], &[
        &["-k", "012A,003@"], &["-d", "012A"], &["-d", "..../*"], &["--csv"],
        &["-t"],
    ]),
    ("frequency", &[&["012A.a"], &["012A{a, b}, 003@.0"], &["012A{(a, b) | a?}"]], &[
        &["--squash"], &["--merge"], &["--separator", ""], &["--separator", "|"],
        &["--unique"], &["-r"], &["-n", "0"], &["-n", "2"], &["--threshold", "0"],
        &["--threshold", "2"], &["--header", "a,b"], &["-H", ""], &["-t"],
        &["--translit", "nfd"], &["--translit", "nfkc"],
    ]),
    ("select", &[&["012A.a"], &["003@.0, 012A{a, b}"], &["'x', 012A.*"], &["003@<$0>"]], &[
        &["--squash"], &["--merge"], &["--separator", ""], &["--separator", "|"],
        &["--no-empty-columns"], &["--unique"], &["--tsv"],
        &["--quote-style", "always"], &["--quote-style", "never"],
        &["--quote-style", "non-numeric"], &["--quote-style", "necessary"],
        &["--translit", "nfc"], &["--translit", "nfkd"], &["-H", "a, b"],
        &["--header", ""], &["--append"],
    ]),
    ("print", &[&[]], &[&["--translit", "nfc"], &["--translit", "nfkd"]]),
    ("convert", &[&[]], &[
        &["--from", "plus"], &["-f", "plus"], &["--from", "json"], &["-f", "xml"],
        &["-f", "plain"], &["--to", "plus"], &["-t", "binary"], &["-t", "import"],
        &["-t", "json"], &["-t", "xml"], &["-t", "plain"],
    ]),
    ("hash", &[&[]], &[&["-H", "a,b"], &["--header", ""], &["-H", "x"], &["--tsv"]]),
    ("invalid", &[&[]], &[]),
    ("check", &[&["-R", "rules.toml"], &["-R", "rules.toml", "-R", "more.toml"]], &[
        &["-r", "A"], &["--rule", "^[BC]"], &["-r", ""], &["-r", "("],
        &["--tags", "x"], &["-t", "x, y"], &["--tags", ""],
    ]),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OptCase {
    cmd: usize,
    pos: usize,
    /// Positions in the list of options of the command, each option once.
    opts: Vec<u16>,
    out: Option<usize>,
    skip: bool,
    /// How often the arguments are rotated in the second call.
    turn: usize,
    config: usize,
    input: Input,
}

fn opt_case() -> BoxedStrategy<OptCase> {
    let inputs = prop_oneof![
        3 => input(true, false, 7),
        1 => input(false, false, 7),
        1 => input(false, true, 7),
        1 => Just(Input::of(vec![])),
    ];
    (
        0..OPTIONED.len(),
        any::<u8>(),
        vec(any::<u16>(), 0..7),
        proptest::option::weighted(0.6, 0..OUT.len()),
        prop::bool::weighted(0.7),
        1usize..6,
        0usize..6,
        inputs,
    )
        .prop_map(|(cmd, pos, opts, out, skip, turn, config, input)| OptCase {
            cmd,
            pos: pos as usize,
            opts,
            out,
            skip,
            turn,
            config,
            input,
        })
        .boxed()
}

/// Any options together: an orderly end, the same for any order of the options.
fn any_options(c: &OptCase, env: &mut Env) -> Res {
    let (name, pos, own) = OPTIONED[c.cmd % OPTIONED.len()];
    let filters = !matches!(name, "concat" | "convert" | "invalid");
    let dirs = matches!(name, "split" | "partition");
    let mut pool: Vec<&[&str]> = own.to_vec();
    if filters {
        pool.extend(FILTERS.iter().filter(|o| name != "filter" || o[0] != "--where"));
    }
    let mut opts: Vec<&[&str]> = vec![];
    for i in &c.opts {
        if pool.is_empty() {
            break;
        }
        let half = own.len().min(pool.len());
        // own options as frequent as the common ones
        let k = if half > 0 && i % 2 == 0 {
            (*i as usize / 2) % half
        } else {
            (*i as usize / 2) % pool.len()
        };
        let o = pool[k];
        let short = |x: &str| x.trim_start_matches('-').chars().next();
        if !opts.iter().any(|p| p[0] == o[0] || (p[0].len() == 2 || o[0].len() == 2) && short(p[0]) == short(o[0])) {
            opts.push(o);
        }
    }
    if name == "convert" {
        if !opts.iter().any(|o| ["-f", "--from"].contains(&o[0])) {
            opts.insert(0, &["-f", "plus"]);
        }
        if !opts.iter().any(|o| ["-t", "--to"].contains(&o[0])) {
            opts.push(&["-t", "binary"]);
        }
    }
    if !dirs && let Some(o) = c.out {
        opts.push(OUT[o % OUT.len()]);
    }
    if c.skip && name != "invalid" {
        opts.push(&["-s"]);
    }
    let random = name == "sample" && !opts.iter().any(|o| o[0] == "--seed");

    let mut seen: Option<(Option<i32>, Vec<u8>, BTreeMap<String, Vec<u8>>)> = None;
    let mut ok = false;
    for round in 0..2 {
        let cli = Cli::new(env)?;
        cli.write("a.csv", "ppn,x\n1,a\n118540238,b\n2,\n")?;
        cli.write("a.tsv", "idn\tx\n1\ta\n")?;
        cli.write("a.txt", "1\n2\n")?;
        cli.write("b.csv", "idn,ppn\n3,4\n")?;
        cli.write("b.txt", "5\n")?;
        cli.write("empty.csv", "ppn\n")?;
        cli.write("empty.txt", "")?;
        cli.write("expr.txt", "012A?\n")?;
        cli.write("old.dat", crate::cli::OLD)?;
        cli.write(
            "rules.toml",
            "[rule.A]\ncheck = 'filter'\nfilter = '012A?'\ntags = ['x']\n\
             [rule.B]\ncheck = 'unicode'\nnormalization = 'nfc'\nlevel = 'info'\n\
             [rule.C]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\n",
        )?;
        cli.write(
            "more.toml",
            "scope = '012A?'\n[rule.D]\ncheck = 'isni'\npath = '012A.a'\n\
             [rule.E]\ncheck = 'datetime'\npath = '012A.b'\ntags = ['y']\n",
        )?;
        match c.config {
            4 => cli.set_config("skip-invalid = true\n")?,
            5 => cli.set_config("normalization = 'nfd'\n")?,
            _ => {}
        }
        let mut o = opts.clone();
        if round == 1 && !o.is_empty() {
            let n = c.turn % o.len();
            o.rotate_left(n);
            if c.turn % 2 == 0 {
                o.reverse();
            }
        }
        let mut a = args(&[name]);
        a.extend(o.iter().flat_map(|x| args(x)));
        a.extend(args(pos[c.pos % pos.len()]));
        let (files, stdin) = c.input.deliver_named(&cli, "src/in")?;
        a.extend(files);
        let out = cli.run(&a, stdin.as_deref())?;
        match out.code {
            Some(0) => ok = true,
            Some(1..=2) if !out.err.trim().is_empty() => {}
            _ => return Err(out.violation("no orderly end")),
        }
        if random {
            continue;
        }
        let mut text = out.out.clone();
        let mut files = all_files(&cli.dir);
        if name == "check" {
            let sorted = |b: &[u8]| {
                let mut l: Vec<&[u8]> = b.split_inclusive(|b| *b == b'\n').collect();
                l.sort();
                l.concat()
            };
            text = sorted(&text);
            files.values_mut().for_each(|v| *v = sorted(v));
        }
        // The output of a command that fails is not specified.
        if out.code != Some(0) {
            text.clear();
            files.clear();
        }
        let now = (out.code, text, files);
        match &seen {
            None => seen = Some(now),
            Some(x) if *x != now => {
                let show = |f: &BTreeMap<String, Vec<u8>>| {
                    f.iter().map(|(k, v)| format!("{k}: {}", esc(v))).collect::<Vec<_>>()
                };
                return Err(out.violation(format!(
                    "another result in another order of the options {opts:?}: exit {:?}, \
                     {}, {:?} against {:?}, {}, {:?}",
                    x.0, esc(&x.1), show(&x.2), now.0, esc(&now.1), show(&now.2)
                )));
            }
            _ => {}
        }
    }
    env.label(name);
    env.label_if(ok, "success");
    env.label_if(!ok, "failure");
    Ok(opts.len() > 1)
}

// ---------------------------------------------------------------- other files

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Rules,
    List,
    Config,
    Expr,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    kind: Kind,
    text: B,
    name: usize,
    cmd: usize,
    input: Input,
}

const RULES: &[&str] = &[
    "[rule.A]\ncheck = 'allow'\npath = '012A.a'\nlist = { filename = 'l.csv', column = 'ppn' }\n",
    "scope = '012A?'\ntermination = 'fast'\n[rule.B]\ncheck = 'datetime'\npath = '012A.a'\noffset = 1\nformat = '%Y-%m'\n",
    "[rule.C]\ncheck = 'duplicates'\nquery = '012A{ a, b }'\nthreshold = 2\nseparator = '|'\n",
    "[rule.D]\nlevel = 'warning'\ntags = ['x', 'y']\ncheck = 'filter'\nfilter = \"012A.a == 'a'\"\ninvert = true\n",
    "[rule.E]\ncheck = 'isni'\npath = '..../*.a'\ncase-ignore = true\n[rule.F]\ncheck = 'jelc'\npath = '012A.a'\n",
    "[rule.G]\ncheck = 'iso639-2b'\npath = '012A.a'\nstrsim-threshold = 0.5\n",
    "[rule.H]\ncheck = 'link'\nsource.path = '012A.a'\ntarget.path = '003@.0'\ntarget.filter = '012A?'\n",
    "[rule.I]\ncheck = 'unicode'\nnormalization = 'nfc'\n[rule.J]\ncheck = 'unicode'\nnormalization = 'nfkd'\n",
];

const RULE_TOKENS: &[&str] = &[
    "[rule.A]\n", "check = 'datetime'\n", "path = '003@.0'\n", "format = '%'\n", "%Y", "%", "%9",
    "offset = 9223372036854775807\n", "threshold = 0\n", "-1", "nan", "inf", "''", "\"", "'", "=",
    "\n", "[", "]", "{", "}", ".", ",", "a", "column = 'x'\n", "strsim-threshold = 7.5\n", "#",
    "'''", "level = 'info'\n", "level = 'x'\n", "tags = []\n", "[[rule]]\n", "é", "\u{0}",
    "termination = 'default'\n", "separator = ''\n", "0x10", "1e400", "1979-05-27", "\\u0000",
];

const LISTS: &[&str] = &[
    "ppn\n1\n2\n", "ppn,idn\n1,2\n3,4\n", "idn\tx\n1\ta\n", "1\n2\n3\n", "\"ppn\",\"x\"\n\"1\",\"a,b\"\n",
    "", "x\n1\n",
];

const LIST_TOKENS: &[&str] = &[
    "\n", ",", "\t", "\"", "\r\n", "\r", "ppn", "idn", "1", "\u{feff}", "\u{0}", ";", "\n\n", "é", "null",
    "99999999999999999999", "1.5", "true", "column_1", " ", "'", "#",
];

const CONFIGS: &[&str] = &[
    "skip-invalid = true\n", "normalization = 'nfc'\nskip-invalid = false\n", "", "normalization = 'nfkd'\n",
];

const CONFIG_TOKENS: &[&str] = &[
    "skip-invalid", "normalization", " = ", "true", "'nfd'", "\n", "[", "]", "{", "}", "\"", "#", "1", ".", "x",
    "\u{0}", "é", "path = 'x'\n",
];

const LIST_NAMES: [&str; 10] = [
    "l.csv", "l.tsv", "l.txt", "l.csv.gz", "l.tsv.gz", "l.txt.gz", "l.ipc", "l", "l.arrow", "l.gz",
];

fn file_case() -> BoxedStrategy<FileCase> {
    let of = |texts: &'static [&'static str], tokens| {
        let base = select(texts).prop_map(str::to_string).boxed();
        mutate::text(base, tokens, 4)
    };
    use Kind::*;
    let kind = select(&[Rules, Rules, Rules, List, List, Config, Expr][..]);
    kind.prop_flat_map(move |kind| {
        let text = match kind {
            Rules => of(RULES, RULE_TOKENS),
            List => of(LISTS, LIST_TOKENS),
            Config => of(CONFIGS, CONFIG_TOKENS),
            Expr => mutate::text(cond().prop_map(|e| plain(&e)).boxed(), TOKENS, 2),
        };
        let raw = vec((any::<u16>(), any::<u8>()), 1..4);
        let text = (text, proptest::option::weighted(0.2, raw)).prop_map(|(t, raw)| {
            let mut b = t.into_bytes();
            for (at, c) in raw.into_iter().flatten() {
                let n = b.len();
                b.insert(at as usize % (n + 1), c);
            }
            B(b)
        });
        (Just(kind), text, any::<u8>(), which(), input(true, false, 5))
    })
    .prop_map(|(kind, text, name, cmd, input)| FileCase {
        kind,
        text,
        name: name as usize,
        cmd,
        input,
    })
    .boxed()
}

/// Whatever is in the other files: an orderly end.
fn other_files(c: &FileCase, env: &mut Env) -> Res {
    let cli = Cli::new(env)?;
    let mut cmd = &CMDS[c.cmd % CMDS.len()];
    if cmd.dir || !cmd.filters {
        cmd = CMDS.iter().find(|c| c.args == ["hash"]).unwrap();
    }
    cmd.setup(&cli)?;
    let (files, stdin) = c.input.deliver(&cli)?;
    let mut a = match c.kind {
        Kind::Rules => {
            cli.write("l.csv", "ppn\n1\n")?;
            cli.write("r.toml", &c.text.0)?;
            args(&["check", "-s", "-R", "r.toml", "--"])
        }
        Kind::List => {
            let n = LIST_NAMES[c.name % LIST_NAMES.len()];
            let zip = n.ends_with("gz") && c.name % 4 != 0;
            let data = &c.text.0;
            cli.write(n, if zip { gzip_members(data, &[]) } else { data.clone() })?;
            if c.name % 3 == 0 {
                let t = format!(
                    "[rule.A]\ncheck = 'allow'\npath = '012A.a'\n\
                     list = {{ filename = '{n}', column = 'ppn' }}\n"
                );
                cli.write("r.toml", t)?;
                args(&["check", "-s", "-R", "r.toml", "--"])
            } else {
                cmd.line(&args(&["-s", ["-A", "-D"][c.name % 2], n]), &[])
            }
        }
        Kind::Config => {
            cli.write("c.toml", &c.text.0)?;
            [args(&["-c", "c.toml"]), cmd.line(&args(&["-s"]), &[])].concat()
        }
        Kind::Expr => {
            cli.write("expr.txt", &c.text.0)?;
            args(&["filter", "-s", "-F", "expr.txt", "--"])
        }
    };
    a.extend(files);
    let o = cli.run(&a, stdin.as_deref())?;
    if o.code == Some(0) {
        env.label("accepted");
    } else {
        o.fails("a malformed file")?;
        env.label("rejected");
    }
    env.label(&format!("{:?}", c.kind));
    Ok(true)
}

fn all_files(dir: &std::path::Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n == "home" || n == "src" || n == ".stdin" {
            continue;
        }
        if e.path().is_dir() {
            for (k, v) in all_files(&e.path()) {
                m.insert(format!("{n}/{k}"), v);
            }
        } else if let Ok(b) = std::fs::read(e.path()) {
            m.insert(n, b);
        }
    }
    m
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "forms: several lines in another form than one plain file, with output; \
               invalid: the line is not the first one of a single file; holes: there is \
               something to write; texts: the text is malformed; faults, arguments, files: always; options: at least two",
        assumptions: &[
            "the reference decoder of records (harness/src/rec.rs)",
            "texts: the library's parsers decide what is malformed (they are judged by M01, M03, M04, P01, Q01)",
        ],
        subs: vec![
            sub("forms", 5_000, 120_000, form_case, forms),
            sub("invalid", 4_000, 80_000, bad_line, bad_lines),
            sub("forms-volume", 120, 4_000, form_volume, forms),
            sub("invalid-far", 120, 4_000, bad_line_far, bad_lines),
            sub("faults", 3_000, 50_000, fault_case, faulty),
            sub("holes", 3_000, 40_000, hole_case, holes),
            sub("texts", 6_000, 150_000, text_case, texts),
            sub("arguments", 1_500, 20_000, arg_case, bad_args),
            sub("files", 3_000, 60_000, file_case, other_files),
            sub("options", 4_000, 100_000, opt_case, any_options),
        ],
    }
}
