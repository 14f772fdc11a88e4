//! Running the `pica` binary on generated inputs.

use std::collections::HashMap;
use std::ffi::OsString;
use std::fs::File;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{LazyLock, Mutex, Once};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::expr::{self, FldEx, Lay, Opts, plain};
use crate::mutate;
use crate::pathq::{self, PathM};
use crate::props::gzip_members;
use crate::rec::{self, B, Rec, decode, esc};
use crate::runner::{Env, Fail, bad};

fn pica_bin() -> PathBuf {
    std::env::var_os("VERIF_PICA")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/repo/target/debug/pica"))
}

// ------------------------------------------------------------------- watchdog

static RUNNING: LazyLock<Mutex<HashMap<u32, (Instant, bool)>>> =
    LazyLock::new(|| Mutex::new(HashMap::new()));
static WATCH: Once = Once::new();
const LIMIT: Duration = Duration::from_secs(60);
/// Set as soon as a command was seen twice not to end.
static ENDLESS: AtomicBool = AtomicBool::new(false);

/// Ends children that run far too long (a run takes some ten milliseconds).
fn limit() -> Duration {
    // while shrinking a case that does not end
    if ENDLESS.load(Ordering::Relaxed) { LIMIT / 4 } else { LIMIT }
}

fn watch() {
    WATCH.call_once(|| {
        std::thread::spawn(|| {
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let mut m = RUNNING.lock().unwrap();
                for (pid, (t, killed)) in m.iter_mut() {
                    if !*killed && t.elapsed() > limit() {
                        *killed = true;
                        let _ = Command::new("kill")
                            .args(["-9", &pid.to_string()])
                            .status();
                    }
                }
            }
        });
    });
}

// --------------------------------------------------------------------- runner

const TIME_OUT: &str = "time-out";

pub struct Out {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub cmd: String,
}

impl Out {
    fn show(&self) -> String {
        let cut = |s: &str| -> String { s.chars().take(1200).collect() };
        format!(
            "$ pica {}\nexit code {:?}\nstdout: {}\nstderr: {}",
            self.cmd,
            self.code,
            cut(&esc(&self.out)),
            cut(&self.err)
        )
    }
    /// The command must have succeeded.
    pub fn good(&self) -> Result<&[u8], Fail> {
        if self.code != Some(0) {
            return bad(format!("command failed\n{}", self.show()));
        }
        Ok(&self.out)
    }
    /// The command must have failed in an orderly way.
    pub fn fails(&self, why: &str) -> Result<(), Fail> {
        if self.code != Some(2) || !self.err.contains("error: ") {
            return bad(format!("expected an error: {why}\n{}", self.show()));
        }
        Ok(())
    }
    pub fn violation(&self, msg: impl std::fmt::Display) -> Fail {
        Fail::Violation(format!("{msg}\n{}", self.show()))
    }
}

/// One case's private world: working directory, home, configuration.
pub struct Cli {
    pub dir: PathBuf,
}

pub fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Harness(format!("harness i/o: {e}")))
}

/// In file names stands for a byte that is not UTF-8.
pub const RAW: &str = "\u{10fa7e}ff\u{10fa7e}";

/// The name as the system gets it.
pub fn os(name: &str) -> OsString {
    let parts: Vec<&[u8]> = name.split(RAW).map(|s| s.as_bytes()).collect();
    OsString::from_vec(parts.join(&0xff))
}

impl Cli {
    pub fn new(env: &mut Env) -> Result<Cli, Fail> {
        watch();
        Ok(Cli { dir: env.fresh_dir()? })
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(os(name))
    }
    pub fn write(&self, name: &str, data: impl AsRef<[u8]>) -> Result<(), Fail> {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            io(std::fs::create_dir_all(d))?;
        }
        io(std::fs::write(p, data))
    }
    pub fn exists(&self, name: &str) -> bool {
        self.path(name).exists()
    }
    /// Content of a file that the program must have written.
    pub fn read(&self, name: &str) -> Result<Vec<u8>, Fail> {
        std::fs::read(self.path(name)).map_err(|e| {
            Fail::Violation(format!("expected output file {name}: {e}"))
        })
    }
    pub fn set_config(&self, text: &str) -> Result<(), Fail> {
        self.write("home/.config/pica/config.toml", text)
    }
    pub fn run<S: AsRef<str>>(
        &self,
        args: &[S],
        stdin: Option<&[u8]>,
    ) -> Result<Out, Fail> {
        match self.run_to(args, stdin, Stdio::piped()) {
            Err(Fail::Harness(m)) if m.starts_with(TIME_OUT) => {}
            r => return r,
        }
        if !ENDLESS.load(Ordering::Relaxed) {
            match self.run_to(args, stdin, Stdio::piped()) {
                Err(Fail::Harness(m)) if m.starts_with(TIME_OUT) => {}
                r => return r,
            }
        }
        ENDLESS.store(true, Ordering::Relaxed);
        bad(format!(
            "the command does not end\n$ pica {}",
            args.iter()
                .map(|a| format!("{:?}", a.as_ref()))
                .collect::<Vec<_>>()
                .join(" ")
        ))
    }
    /// Like `run`, but with another standard output.
    pub fn run_to<S: AsRef<str>>(
        &self,
        args: &[S],
        stdin: Option<&[u8]>,
        stdout: Stdio,
    ) -> Result<Out, Fail> {
        if args.iter().any(|a| a.as_ref().contains('\0')) {
            return Err(Fail::Skip);
        }
        let args = with_progress(args);
        let stdin = match stdin {
            None => Stdio::null(),
            Some(b) => {
                self.write(".stdin", b)?;
                Stdio::from(io(File::open(self.path(".stdin")))?)
            }
        };
        let spawn = || {
            Command::new(pica_bin())
                .args(args.iter().map(|a| os(a)))
                .current_dir(&self.dir)
                .env_clear()
                .env("PATH", "/usr/bin:/bin")
                .env("HOME", self.path("home"))
                .env("TZ", "UTC")
                .env("TMPDIR", &self.dir)
                .env("POLARS_MAX_THREADS", "2")
                .env("RAYON_NUM_THREADS", "2")
                .stdin(stdin)
                .stdout(stdout)
                .stderr(Stdio::piped())
                .spawn()
        };
        let child = spawn()
            .map_err(|e| Fail::Harness(format!("cannot start pica: {e}")))?;
        let pid = child.id();
        RUNNING.lock().unwrap().insert(pid, (Instant::now(), false));
        let o = child.wait_with_output();
        let (_, killed) =
            RUNNING.lock().unwrap().remove(&pid).unwrap_or((Instant::now(), false));
        let o = o.map_err(|e| Fail::Harness(format!("wait: {e}")))?;
        let cmd = args
            .iter()
            .map(|a| format!("{a:?}"))
            .collect::<Vec<_>>()
            .join(" ");
        if killed {
            return Err(Fail::Harness(format!("{TIME_OUT}: pica {cmd}")));
        }
        let sig = o.status.signal();
        if sig == Some(9) || sig == Some(15) {
            return Err(Fail::Harness(format!("killed ({sig:?}): pica {cmd}")));
        }
        let out = Out {
            code: o.status.code(),
            out: o.stdout,
            err: String::from_utf8_lossy(&o.stderr).to_string(),
            cmd,
        };
        if let Some(s) = sig {
            return Err(out.violation(format!("process died by signal {s}")));
        }
        if out.code == Some(101) || out.err.contains("panicked at") {
            return Err(out.violation("process panicked"));
        }
        Ok(out)
    }
}

pub fn args<S: AsRef<str>>(v: &[S]) -> Vec<String> {
    v.iter().map(|s| s.as_ref().to_string()).collect()
}

pub fn sum(recs: &[Rec]) -> Vec<u8> {
    recs.iter().flat_map(|r| r.bytes()).collect()
}

/// Sometimes asks for a progress bar, which must not change anything.
fn with_progress<S: AsRef<str>>(args: &[S]) -> Vec<String> {
    let mut a: Vec<String> = args.iter().map(|a| a.as_ref().to_string()).collect();
    let all = ["count", "describe", "explode", "filter", "frequency", "hash", "invalid",
        "print", "sample", "select", "slice", "check", "convert", "concat", "cat"];
    let sum: usize = a.iter().flat_map(|a| a.bytes()).map(|b| b as usize).sum();
    let out = a.iter().take_while(|a| *a != "--").any(|a| a == "-o" || a == "--output");
    let can = match a.first().map(|s| s.as_str()) {
        Some("partition" | "split") => true,
        Some(c) => out && all.contains(&c),
        None => false,
    };
    if can && sum % 11 < 3 {
        a.insert(1, if sum % 11 == 0 { "-p" } else { "--progress" }.into());
    }
    a
}

/// Equality of byte outputs with a readable message.
pub fn same(what: &str, got: &[u8], want: &[u8], o: &Out) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    Err(o.violation(format!(
        "{what} differs\n  got: {}\n want: {}",
        esc(&got[..got.len().min(3000)]),
        esc(&want[..want.len().min(3000)])
    )))
}

// --------------------------------------------------------------------- inputs

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Line {
    R(Rec),
    /// Raw line without newline; usually not decodable.
    X(B),
}

impl Line {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Line::R(r) => r.bytes(),
            Line::X(b) => [&b.0[..], b"\n"].concat(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Form {
    Stdin,
    Dash,
    File,
    Gzip,
    Files,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    pub lines: Vec<Line>,
    pub form: Form,
    pub cuts: Vec<u16>,
    /// The last line lacks its newline.
    pub open: bool,
    /// Further copies of all lines, whose records have an additional field.
    #[serde(default)]
    pub rep: u32,
    /// The additional field is an identifier of its own.
    #[serde(default)]
    pub spread: bool,
}

/// How a small input becomes a large one.
#[derive(Clone, Copy, Debug)]
pub struct Volume {
    lines: u32,
    kind: u8,
    near: u32,
}

/// `wide`: not only many records, but also large ones.
pub fn volume(max: u32, wide: bool) -> BoxedStrategy<Volume> {
    let lines = prop_oneof![
        3 => select(&[250u32, 300, 520, 1_100][..]),
        2 => select(&[2_100, 4_200, 9_000][..]),
        1 => select(&[33_000, 66_000, 75_000][..]),
    ];
    (lines, 0u8..if wide { 10 } else { 6 }, any::<u32>())
        .prop_map(move |(l, kind, near)| Volume { lines: l.min(max), kind, near })
        .boxed()
}

/// More than 65 536 records with as many identifiers, some of which return.
pub fn long() -> BoxedStrategy<Volume> {
    (72_000u32..110_000, any::<u32>())
        .prop_map(|(lines, near)| Volume { lines, kind: 1, near })
        .boxed()
}

impl Volume {
    /// Without options that restrict the input.
    pub fn bare(&self) -> bool {
        self.near % 7 < 4
    }
    pub fn is_wide(&self) -> bool {
        self.kind >= 6
    }
    pub fn blow(&self, i: &mut Input) {
        i.rep = 0;
        if self.is_wide() {
            if let Some(Line::R(r)) =
                i.lines.iter_mut().find(|l| matches!(l, Line::R(_)))
            {
                let kind = [rec::Large::Fields, rec::Large::Fields, rec::Large::Subfields,
                    rec::Large::Values][self.kind as usize % 4];
                rec::enlarge(r, kind, self.near as usize);
            }
            return;
        }
        i.lines.truncate(5);
        for l in &mut i.lines {
            if let Line::R(r) = l {
                r.0.truncate(6);
                for f in &mut r.0 {
                    f.subs.truncate(4);
                    for s in &mut f.subs {
                        if s.1.0.len() > 40 {
                            s.1 = B::s("short");
                        }
                    }
                }
            }
        }
        i.rep = self.lines / i.lines.len().max(1) as u32;
        i.spread = self.kind % 2 == 1;
    }
    /// A number where something could happen.
    pub fn number(&self, salt: u32) -> usize {
        let n = self.lines as usize;
        let all = [
            1, 2, 100, 127, 128, 200, 254, 255, 256, 257, 500, 512, 1000, 1024, 4095,
            4096, 32_767, 32_768, 65_535, 65_536, 65_537, n / 3, n / 2, n.max(3) - 2,
            n - 1, n, n + 1, n + 2, n + 5,
        ];
        let fit: Vec<usize> = all.into_iter().filter(|x| *x <= n + 5).collect();
        fit[(self.near.rotate_left(salt * 5) as usize) % fit.len()]
    }
}

/// Mostly 0, rarely such that there are about some hundred lines.
pub fn bulk(lines: usize) -> BoxedStrategy<u32> {
    prop_oneof![
        60 => Just(0u32),
        1 => select(&[40usize, 130, 280, 520][..])
            .prop_map(move |n| (n / lines.max(1)) as u32),
    ]
    .boxed()
}

pub fn junk() -> BoxedStrategy<B> {
    let cut = |mut b: Vec<u8>| {
        b.retain(|c| *c != b'\n');
        B(b)
    };
    prop_oneof![
        3 => mutate::bytes(rec::rec_ppn(false).prop_map(|r| r.bytes()).boxed(), 2)
            .prop_map(cut),
        1 => Just(B(vec![])),
        1 => select(&["003@ \x1f0123", "003@ \x1f0123\x1e012A", "abc", " ",
            "012A/1 \x1fa1\x1e", "003@ \x1f01\x1e\r", "\x1e", "03@ \x1f0123\x1e"][..])
            .prop_map(B::s),
    ]
    .boxed()
}

pub fn form() -> BoxedStrategy<Form> {
    select(&[Form::Stdin, Form::Dash, Form::File, Form::Gzip, Form::Files][..])
        .boxed()
}

/// `bad`: with undecodable lines.
pub fn input_of(
    rec: BoxedStrategy<Rec>,
    bad: bool,
    max: usize,
) -> BoxedStrategy<Input> {
    let rec = rec.boxed();
    // Several copies of a record are frequent.
    let dup = (vec(rec.clone(), 1..4), vec(any::<u16>(), 1..max)).prop_map(
        |(pool, ix)| {
            ix.into_iter()
                .map(|i| Line::R(pool[i as usize % pool.len()].clone()))
                .collect::<Vec<_>>()
        },
    );
    let mixed = move |rec: BoxedStrategy<Rec>| {
        if bad {
            vec(
                prop_oneof![
                    5 => rec.prop_map(Line::R),
                    1 => junk().prop_map(Line::X)
                ],
                0..max,
            )
            .boxed()
        } else {
            vec(rec.prop_map(Line::R), 0..max).boxed()
        }
    };
    let lines = prop_oneof![1 => dup, 5 => mixed(rec)];
    (
        lines,
        form(),
        vec(any::<u16>(), 0..4),
        prop::bool::weighted(if bad { 0.05 } else { 0.0 }),
        bulk(max / 2),
    )
        .prop_map(|(lines, form, cuts, open, rep)| Input {
            lines,
            form,
            cuts,
            open,
            rep,
            spread: false,
        })
        .boxed()
}

pub fn input(utf8: bool, bad: bool, max: usize) -> BoxedStrategy<Input> {
    input_of(rec::rec_ppn(utf8), bad, max)
}

impl Input {
    pub fn of(recs: Vec<Rec>) -> Input {
        Input {
            lines: recs.into_iter().map(Line::R).collect(),
            form: Form::File,
            cuts: vec![],
            open: false,
            rep: 0,
            spread: false,
        }
    }
    /// The records, without the copies.
    pub fn small(&self) -> Vec<Rec> {
        let r = |l: &Line| match l {
            Line::R(r) => Some(r.clone()),
            Line::X(_) => None,
        };
        self.lines.iter().filter_map(r).collect()
    }
    /// The raw lines.
    pub fn raw(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<_> = self.lines.iter().map(|l| l.bytes()).collect();
        // the last ones of many repeat the first ones
        let again = if self.rep > 15 { self.rep / 16 } else { 0 };
        for k in (1..=self.rep - again).chain(1..=again) {
            v.extend(self.lines.iter().enumerate().map(|(i, l)| match l {
                Line::R(r) if self.spread => {
                    let mark = format!("003@ \x1f0{k}{}\x1e", ["X", "Y", "Z", "W", "V"][i % 5]);
                    [mark.into_bytes(), r.bytes()].concat()
                }
                Line::R(r) => {
                    [format!("001@ \x1fa{k}\x1e").into_bytes(), r.bytes()].concat()
                }
                Line::X(_) => l.bytes(),
            }));
        }
        if self.open
            && let Some(l) = v.last_mut()
        {
            l.pop();
            if l.is_empty() {
                v.pop();
            }
        }
        v
    }
    pub fn lines(&self) -> Vec<(Vec<u8>, Option<Rec>)> {
        self.raw()
            .into_iter()
            .map(|b| {
                let r = decode(&b);
                (b, r)
            })
            .collect()
    }
    pub fn recs(&self) -> Vec<Rec> {
        self.lines().into_iter().filter_map(|(_, r)| r).collect()
    }
    pub fn all_valid(&self) -> bool {
        self.lines().iter().all(|(_, r)| r.is_some())
    }
    pub fn data(&self) -> Vec<u8> {
        self.raw().concat()
    }
    /// Lays the input out; gives the file arguments and the standard input.
    pub fn deliver(
        &self,
        cli: &Cli,
    ) -> Result<(Vec<String>, Option<Vec<u8>>), Fail> {
        let n = self.lines.len() + self.cuts.iter().map(|c| *c as usize).sum::<usize>()
            + self.lines.first().map_or(0, |l| l.bytes().len());
        let raw = [format!("d{RAW}/in"), format!("in{RAW}")];
        let base = match n % 16 {
            0 => &raw[0],
            1 => &raw[1],
            2 => "dir.gz/in",
            3 => "in.gz",
            4 => "ä ö/./in",
            _ => "in",
        };
        self.deliver_named(cli, base)
    }
    pub fn deliver_named(
        &self,
        cli: &Cli,
        base: &str,
    ) -> Result<(Vec<String>, Option<Vec<u8>>), Fail> {
        match self.form {
            Form::Stdin => Ok((vec![], Some(self.data()))),
            Form::Dash => Ok((args(&["-"]), Some(self.data()))),
            Form::File => {
                let n = format!("{base}.dat");
                cli.write(&n, self.data())?;
                Ok((vec![n], None))
            }
            Form::Gzip => {
                let n = format!("{base} x.dat.gz");
                cli.write(&n, gzip_members(&self.data(), &self.cuts))?;
                Ok((vec![n], None))
            }
            Form::Files => {
                let (files, dash) = self.pieces();
                let mut names = vec![];
                let mut stdin = None;
                for (i, d) in files.into_iter().enumerate() {
                    if Some(i) == dash {
                        names.push("-".to_string());
                        stdin = Some(d);
                    } else if i % 2 == 1 {
                        let n = format!("{base}{i}.gz");
                        cli.write(&n, gzip_members(&d, &[1]))?;
                        names.push(n);
                    } else {
                        let n = format!("{base}{i}.dat");
                        cli.write(&n, d)?;
                        names.push(n);
                    }
                }
                Ok((names, stdin))
            }
        }
    }
    /// The contents of the single files, and which of them is standard input.
    pub fn pieces(&self) -> (Vec<Vec<u8>>, Option<usize>) {
        let raw = self.raw();
        let mut at: Vec<usize> =
            self.cuts.iter().map(|c| *c as usize % (raw.len() + 1)).collect();
        let dash = self.cuts.first().map(|c| *c as usize % (at.len() + 3));
        at.sort();
        at.insert(0, 0);
        at.push(raw.len());
        let files: Vec<Vec<u8>> =
            at.windows(2).map(|w| raw[w[0]..w[1]].concat()).collect();
        let dash = dash.filter(|d| *d < files.len());
        (files, dash)
    }
}

// ------------------------------------------------------------- common options

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum ListKind {
    Csv,
    Tsv,
    Txt,
    CsvGz,
    TsvGz,
    TxtGz,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct List {
    pub kind: ListKind,
    pub values: Vec<String>,
    /// With a further column before (1) or after (2) the one that counts.
    pub extra: u8,
}

impl List {
    pub fn name(&self, deny: bool, i: usize) -> String {
        let n = self.plain_name(deny, i);
        if self.values.len() % 4 == 3 { format!("l{RAW}/{n}") } else { n }
    }
    pub fn plain_name(&self, deny: bool, i: usize) -> String {
        let b = if deny { "deny" } else { "allow" };
        let e = match self.kind {
            ListKind::Csv => "csv",
            ListKind::Tsv => "tsv",
            ListKind::Txt => "txt",
            ListKind::CsvGz => "csv.gz",
            ListKind::TsvGz => "tsv.gz",
            ListKind::TxtGz => "txt.gz",
        };
        format!("{b}{i}.{e}")
    }
    pub fn body(&self, col: &str) -> Vec<u8> {
        let cell = |s: &str| {
            if s.contains(['"', ',', '\t', ';', ' ', '\'']) {
                format!("\"{}\"", s.replace('"', "\"\""))
            } else {
                s.to_string()
            }
        };
        let sep = match self.kind {
            ListKind::Csv | ListKind::CsvGz => ',',
            ListKind::Tsv | ListKind::TsvGz => '\t',
            _ => '\0',
        };
        let mut s = String::new();
        let mut row = |a: String, b: String| {
            if sep == '\0' || self.extra == 0 {
                s.push_str(&a);
            } else if self.extra == 1 {
                s.push_str(&format!("{b}{sep}{a}"));
            } else {
                s.push_str(&format!("{a}{sep}{b}"));
            }
            s.push('\n');
        };
        if sep != '\0' {
            row(col.to_string(), "other".into());
        }
        for (i, v) in self.values.iter().enumerate() {
            row(cell(v), format!("{}", i + 1));
        }
        match self.kind {
            ListKind::CsvGz | ListKind::TsvGz | ListKind::TxtGz => {
                gzip_members(s.as_bytes(), &[])
            }
            _ => s.into_bytes(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sets {
    pub allow: Vec<List>,
    pub deny: Vec<List>,
    pub column: Option<String>,
    pub idn: bool,
    pub source: Option<PathM>,
}

impl Sets {
    pub fn none() -> Self {
        Sets { allow: vec![], deny: vec![], column: None, idn: false, source: None }
    }
    pub fn args(&self, cli: &Cli) -> Result<Vec<String>, Fail> {
        let mut a = vec![];
        let col = match &self.column {
            Some(c) => c.as_str(),
            None if self.idn => "idn",
            None => "ppn",
        };
        for (deny, lists) in [(false, &self.allow), (true, &self.deny)] {
            for (i, l) in lists.iter().enumerate() {
                let n = l.name(deny, i);
                cli.write(&n, l.body(col))?;
                a.push(match (deny, i % 2) {
                    (false, 0) => "-A".to_string(),
                    (false, _) => "--allow-list".to_string(),
                    (true, 0) => "-D".to_string(),
                    (true, _) => "--deny-list".to_string(),
                });
                a.push(n);
            }
        }
        if let Some(c) = &self.column {
            a.push("--filter-set-column".into());
            a.push(c.clone());
        }
        if let Some(p) = &self.source {
            a.push("--filter-set-source".into());
            a.push(p.text(&mut Lay::new(&[])));
        }
        Ok(a)
    }
    pub fn accepts(&self, r: &Rec) -> bool {
        let values: Vec<Vec<u8>> = match &self.source {
            Some(p) => {
                p.eval(r, &Opts::default()).into_iter().map(|b| b.0).collect()
            }
            None => {
                r.0.iter()
                    .filter(|f| {
                        f.tag == "003@"
                            && (f.occ.is_none() || f.occ.as_deref() == Some("00"))
                    })
                    .flat_map(|f| f.subs.iter())
                    .filter(|(c, _)| *c == '0')
                    .map(|(_, v)| v.0.clone())
                    .collect()
            }
        };
        let hit = |ls: &[List]| {
            values.iter().any(|v| {
                !v.is_empty()
                    && ls
                        .iter()
                        .any(|l| l.values.iter().any(|x| x.as_bytes() == &v[..]))
            })
        };
        !hit(&self.deny) && (self.allow.is_empty() || hit(&self.allow))
    }
    pub fn active(&self) -> bool {
        !self.allow.is_empty() || !self.deny.is_empty()
    }
}

pub fn list() -> BoxedStrategy<List> {
    use ListKind::*;
    let v = prop_oneof![
        6 => select(&["1", "2", "3", "4", "5", "10", "118540238", "12345678X"][..]),
        2 => select(&["a", "ab", "abc", "Baum", "123", "0123456789", "01",
            "Bäume", "Ts1", "gnd", "A", "ABC"][..]),
        1 => Just(""),
        1 => select(&["a,b", "a\"b", "a;b", "x  y", "Haus am See", "TRUE",
            "null", "a|b"][..]),
    ]
    .prop_map(|s| s.to_string());
    (
        select(&[Csv, Csv, Csv, Tsv, Tsv, Txt, CsvGz, TsvGz, TxtGz][..]),
        vec(v, 0..7),
        0u8..3,
    )
        .prop_map(|(kind, mut values, extra)| {
            if matches!(kind, Txt | TxtGz) {
                // an empty text file is no list at all
                values.retain(|v| !v.contains(',') && !v.is_empty());
                if values.is_empty() {
                    values.push("1".into());
                }
            }
            if extra == 0 {
                // an empty line is no row
                values.retain(|v| !v.is_empty());
            }
            List { kind, values, extra }
        })
        .boxed()
}

pub fn sets() -> BoxedStrategy<Sets> {
    (
        vec(list(), 0..3),
        vec(list(), 0..3),
        option::weighted(0.3, select(&["col", "other name", "PPN", "id"][..])),
        any::<bool>(),
        option::weighted(0.4, pathq::path()),
    )
        .prop_map(|(mut allow, mut deny, column, idn, source)| {
            if column.is_some() {
                // text files have no column names
                for l in allow.iter_mut().chain(deny.iter_mut()) {
                    l.kind = match l.kind {
                        ListKind::Txt => ListKind::Csv,
                        ListKind::TxtGz => ListKind::CsvGz,
                        k => k,
                    };
                }
            }
            Sets {
                allow,
                deny,
                column: column.map(|s| s.to_string()),
                idn,
                source,
            }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Common {
    pub limit: usize,
    pub case: bool,
    pub thr: Option<u8>,
    pub sets: Sets,
    pub cond: Option<FldEx>,
    pub and: Vec<FldEx>,
    pub or: Vec<FldEx>,
    pub not: Vec<FldEx>,
    /// Whether and how conditions are made from values of the input.
    #[serde(skip)]
    pub mix: u64,
}

/// Conjunction, disjunction and negation options in terms of the model.
pub fn combined(
    cond: &FldEx,
    and: &[FldEx],
    or: &[FldEx],
    not: &[FldEx],
    r: &Rec,
    o: &Opts,
) -> bool {
    let mut ok = cond.eval(r, o) && and.iter().all(|e| e.eval(r, o));
    ok = ok || or.iter().any(|e| e.eval(r, o));
    ok && !not.iter().any(|e| e.eval(r, o))
}

impl Common {
    pub fn none() -> Self {
        Common {
            limit: 0,
            case: false,
            thr: None,
            sets: Sets::none(),
            cond: None,
            and: vec![],
            or: vec![],
            not: vec![],
            mix: 0,
        }
    }
    /// A query whose result depends on the options.
    pub fn sharp_query(&self, input: &Input, mut q: pathq::QueryM) -> pathq::QueryM {
        if self.mix % 5 == 2
            && let Some((t, o, m)) = expr::sharp(&input.small(), self.mix / 5)
        {
            let c = pathq::code_of(&m);
            let p = pathq::QFrag::Path(pathq::only(t, o, c, m));
            match q.0.first_mut() {
                Some(f) if self.mix % 2 == 0 => *f = p,
                _ => q.0.push(p),
            }
        }
        q
    }
    /// Conditions whose result depends on the options.
    pub fn sharp(mut self, input: &Input) -> Self {
        if self.mix % 3 == 1 {
            let recs = input.small();
            let mut mix = self.mix / 3;
            if self.cond.is_some() {
                self.case |= mix % 2 == 0;
            }
            let all = self.cond.iter_mut();
            let all = all.chain(&mut self.and).chain(&mut self.or);
            for e in all.chain(&mut self.not) {
                if mix % 8 < 6
                    && let Some(x) = expr::sharp_ex(&recs, mix)
                {
                    *e = x;
                }
                mix = mix.rotate_left(23).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            }
        }
        self.mix = 0;
        self
    }
    pub fn opts(&self) -> Opts {
        Opts { case: self.case, thr: self.thr.unwrap_or(75) }
    }
    pub fn flags(&self, cli: &Cli) -> Result<Vec<String>, Fail> {
        let mut a = vec![];
        if self.limit > 0 {
            a.push(if self.limit % 2 == 0 { "--limit" } else { "-l" }.into());
            a.push(self.limit.to_string());
        }
        if self.case {
            a.push(if self.limit % 2 == 0 { "--ignore-case" } else { "-i" }.into());
        }
        if let Some(t) = self.thr {
            a.push("--strsim-threshold".into());
            a.push(t.to_string());
        }
        a.extend(self.sets.args(cli)?);
        for (n, v) in [("--and", &self.and), ("--or", &self.or), ("--not", &self.not)]
        {
            for e in v {
                a.push(n.into());
                a.push(plain(e));
            }
        }
        Ok(a)
    }
    /// Command line of a command that has the common options.
    pub fn args(&self, cli: &Cli) -> Result<Vec<String>, Fail> {
        let mut a = self.flags(cli)?;
        if let Some(e) = &self.cond {
            a.push("--where".into());
            a.push(plain(e));
        }
        Ok(a)
    }
    pub fn accepts(&self, r: &Rec) -> bool {
        self.sets.accepts(r)
            && self.cond.as_ref().is_none_or(|c| {
                combined(c, &self.and, &self.or, &self.not, r, &self.opts())
            })
    }
    pub fn select(&self, recs: &[Rec]) -> Vec<Rec> {
        let n = if self.limit == 0 { usize::MAX } else { self.limit };
        recs.iter().filter(|r| self.accepts(r)).take(n).cloned().collect()
    }
}

/// A condition that tells the generated records apart more often than not.
fn telling() -> BoxedStrategy<FldEx> {
    use expr::{Cmp, Codes, Ex, FldM, OccPat, Q, Rel, SubM, TagPat};
    let tag = || select(&["012A", "012B", "013A", "145Z", "209A"][..]);
    prop_oneof![
        3 => tag().prop_map(|t| FldM::Exists(TagPat::exact(t), OccPat::Any)),
        2 => (tag(), select(&['a', 'b', 'c', 'x'][..])).prop_map(|(t, c)| {
            FldM::Dot(
                Q::Default,
                TagPat::exact(t),
                OccPat::Any,
                SubM::Exists(Codes::One(c)),
                false,
            )
        }),
        3 => (vec(select(&["1", "2", "3", "4", "5", "10"][..]), 1..4), any::<bool>())
            .prop_map(|(v, not)| {
                FldM::Dot(
                    Q::Default,
                    expr::parse_tag_pat("....").unwrap(),
                    OccPat::None,
                    SubM::In(
                        Q::Default,
                        Codes::One('0'),
                        not,
                        v.into_iter().map(|s| s.to_string()).collect(),
                        true,
                    ),
                    false,
                )
            }),
        2 => (select(&["1", "b", "B", "Baum", "abc", "a"][..]),
              select(&[Rel::Starts, Rel::Eq, Rel::NotStarts, Rel::Similar][..]))
            .prop_map(|(v, r)| {
                FldM::Dot(
                    Q::Any,
                    expr::parse_tag_pat("....").unwrap(),
                    OccPat::Any,
                    SubM::Rel(Q::Default, Codes::Star, r, v.to_string()),
                    false,
                )
            }),
        2 => (tag(), 0usize..3).prop_map(|(t, n)| {
            FldM::Card(TagPat::exact(t), OccPat::Any, None, Cmp::Gt, n)
        }),
    ]
    .prop_map(Ex::Atom)
    .boxed()
}

pub fn cond() -> BoxedStrategy<FldEx> {
    prop_oneof![1 => telling(), 1 => expr::fld_ex()].boxed()
}

pub fn common() -> BoxedStrategy<Common> {
    let exs = || vec(cond(), 1..3);
    let conn = prop_oneof![
        6 => Just((vec![], vec![], vec![])),
        1 => exs().prop_map(|v| (v, vec![], vec![])),
        1 => exs().prop_map(|v| (vec![], v, vec![])),
        1 => exs().prop_map(|v| (vec![], vec![], v)),
        1 => (exs(), exs()).prop_map(|(a, n)| (a, vec![], n)),
    ];
    (
        prop_oneof![3 => Just(0usize), 1 => 1usize..6],
        prop::bool::weighted(0.25),
        option::weighted(0.2, select(&[0u8, 25, 50, 66, 75, 80, 99][..])),
        prop_oneof![3 => Just(Sets::none()), 1 => sets()],
        option::weighted(0.7, cond()),
        conn,
        any::<u64>(),
    )
        .prop_map(|(limit, case, thr, sets, cond, (and, or, not), mix)| {
            let c = cond.is_some();
            let k = |v: Vec<FldEx>| if c { v } else { vec![] };
            Common {
                limit,
                case,
                thr,
                sets,
                cond,
                and: k(and),
                or: k(or),
                not: k(not),
                mix,
            }
        })
        .boxed()
}

/// A list of field predicates for `--keep` and `--discard`.
pub type Preds = Vec<(expr::TagPat, expr::OccPat)>;

pub fn preds() -> BoxedStrategy<Preds> {
    vec((pathq::hit_tag(), expr::occ_pat()), 1..4).boxed()
}

pub fn preds_text(p: &Preds) -> String {
    p.iter()
        .map(|(t, o)| format!("{}{}", t.text(), o.text()))
        .collect::<Vec<_>>()
        .join(if p.len() % 2 == 0 { ", " } else { "," })
}

pub fn selected(p: &Preds, f: &rec::Fld) -> bool {
    p.iter().any(|(t, o)| t.is_match(&f.tag) && o.is_match(f.occ.as_deref()))
}

/// The effect of `--discard` and `--keep`.
pub fn thin(r: &Rec, discard: &Option<Preds>, keep: &Option<Preds>) -> Rec {
    Rec(r
        .0
        .iter()
        .filter(|f| discard.as_ref().is_none_or(|d| !selected(d, f)))
        .filter(|f| keep.as_ref().is_none_or(|k| selected(k, f)))
        .cloned()
        .collect())
}

/// Where records go.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sink {
    Stdout,
    File,
    GzFlag,
    GzName,
    GzStdout,
    Append,
    AppendGz,
    AppendGzFlag,
    TeeOut,
    Tee,
    TeeAppend,
    TeeAppendGz,
    TeeAppendOut,
    TeeGzFlag,
    RawGzName,
}

pub const OLD: &[u8] = b"003@ \x1f0old\x1e\n";

impl Sink {
    /// Options of the sink; creates what it appends to.
    pub fn args(&self, cli: &Cli) -> Result<Vec<String>, Fail> {
        cli.write("out.dat", OLD)?;
        cli.write("out.dat.gz", gzip_members(OLD, &[]))?;
        cli.write("tee.dat.gz", gzip_members(OLD, &[]))?;
        if let Sink::AppendGzFlag = self {
            cli.write("out.dat", gzip_members(OLD, &[]))?;
        }
        Ok(match self {
            Sink::Stdout => vec![],
            Sink::File => args(&["-o", "out.dat"]),
            Sink::GzFlag => args(&["--gzip", "--output", "out.dat"]),
            Sink::GzName => args(&["--output", "out.dat.gz"]),
            Sink::GzStdout => args(&["-g"]),
            Sink::RawGzName => {
                let name = format!("d{RAW}.dat/out.gz");
                cli.write(&name, OLD)?;
                vec!["-o".into(), name]
            }
            Sink::Append => args(&["--append", "-o", "out.dat"]),
            Sink::AppendGz => args(&["-o", "out.dat.gz", "--append"]),
            Sink::TeeOut => args(&["-o", "out.dat", "--tee", "tee.dat.gz"]),
            Sink::Tee => args(&["--tee", "out.dat"]),
            Sink::TeeAppend => args(&["--tee", "out.dat", "--append"]),
            Sink::AppendGzFlag => args(&["--append", "-g", "-o", "out.dat"]),
            Sink::TeeGzFlag => args(&["--tee", "out.dat", "-g"]),
            Sink::TeeAppendGz => args(&["--tee", "tee.dat.gz", "--append"]),
            Sink::TeeAppendOut => {
                args(&["--append", "--tee", "tee.dat.gz", "-o", "out.dat"])
            }
        })
    }
    /// The outputs must carry exactly `want`.
    pub fn check(&self, cli: &Cli, o: &Out, want: &[u8]) -> Result<(), Fail> {
        let stdout = o.good()?;
        let unzip = |b: &[u8]| {
            crate::props::gunzip_all(b)
                .map_err(|e| o.violation(format!("output is not gzip: {e}")))
        };
        match self {
            Sink::Stdout => same("stdout", stdout, want, o),
            Sink::File => {
                same("stdout", stdout, b"", o)?;
                same("output file", &cli.read("out.dat")?, want, o)
            }
            Sink::GzFlag => {
                same("output file", &unzip(&cli.read("out.dat")?)?, want, o)
            }
            Sink::GzName => {
                same("output file", &unzip(&cli.read("out.dat.gz")?)?, want, o)
            }
            Sink::RawGzName => {
                let name = format!("d{RAW}.dat/out.gz");
                same("output file", &unzip(&cli.read(&name)?)?, want, o)
            }
            Sink::GzStdout => same("stdout", &unzip(stdout)?, want, o),
            Sink::Append => {
                let all = [OLD, want].concat();
                same("output file", &cli.read("out.dat")?, &all, o)
            }
            Sink::AppendGz => {
                let all = [OLD, want].concat();
                let got = unzip(&cli.read("out.dat.gz")?)?;
                same("output file", &got, &all, o)
            }
            Sink::AppendGzFlag => {
                let all = [OLD, want].concat();
                same("output file", &unzip(&cli.read("out.dat")?)?, &all, o)
            }
            Sink::TeeGzFlag => {
                same("stdout", &unzip(stdout)?, want, o)?;
                same("tee file", &unzip(&cli.read("out.dat")?)?, want, o)
            }
            Sink::TeeAppendGz | Sink::TeeAppendOut => {
                let all = [OLD, want].concat();
                if let Sink::TeeAppendGz = self {
                    same("stdout", stdout, want, o)?;
                } else {
                    same("stdout", stdout, b"", o)?;
                    same("output file", &cli.read("out.dat")?, &all, o)?;
                }
                let got = unzip(&cli.read("tee.dat.gz")?)?;
                same("tee file", &got, &all, o)
            }
            Sink::TeeOut => {
                same("output file", &cli.read("out.dat")?, want, o)?;
                same("tee file", &unzip(&cli.read("tee.dat.gz")?)?, want, o)
            }
            Sink::Tee => {
                same("stdout", stdout, want, o)?;
                same("tee file", &cli.read("out.dat")?, want, o)
            }
            Sink::TeeAppend => {
                let all = [OLD, want].concat();
                same("stdout", stdout, want, o)?;
                same("tee file", &cli.read("out.dat")?, &all, o)
            }
        }
    }
}

pub fn sink(of: &'static [Sink]) -> BoxedStrategy<Sink> {
    select(of).boxed()
}

/// How invalid lines are skipped: by option or by configuration.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Skip {
    No,
    Option,
    Config,
}

impl Skip {
    pub fn args(&self, cli: &Cli) -> Result<Vec<String>, Fail> {
        match self {
            Skip::No => Ok(vec![]),
            Skip::Option => Ok(args(&["-s"])),
            Skip::Config => {
                cli.set_config("skip-invalid = true\n")?;
                Ok(vec![])
            }
        }
    }
}

/// Skips whenever the input has invalid lines.
pub fn skip_for(i: &Input, salt: usize) -> Skip {
    match (i.all_valid(), salt % 4) {
        (true, 0..=1) => Skip::No,
        (_, 3) => Skip::Config,
        _ => Skip::Option,
    }
}

pub fn rel(p: &Path) -> String {
    p.display().to_string()
}
