//! Coverage-guided runs: libFuzzer mutates the raw input of a sub-check that
//! accepts arbitrary bytes; the oracle is that of the sub-check. `bin/fuzz`
//! builds pica-record with coverage counters and runs one process per
//! sub-check.

use std::ffi::{CString, c_char, c_int};
use std::io::Write;
use std::path::Path;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::rec::{self, B, Rec};
use crate::runner::{Env, Fail, Property};

unsafe extern "C" {
    fn LLVMFuzzerRunDriver(
        argc: *mut c_int,
        argv: *mut *mut *mut c_char,
        callback: extern "C" fn(*const u8, usize) -> c_int,
    ) -> c_int;
}

// Keeps the archive with libFuzzer on the link line.
use libfuzzer_sys as _;

#[unsafe(no_mangle)]
pub extern "C" fn rust_fuzzer_test_input(_: *const u8, _: usize) -> c_int {
    0
}

struct State {
    p: Property,
    sub: usize,
    env: std::sync::Mutex<(Env, Tally)>,
    end: Instant,
    out: std::path::PathBuf,
}

#[derive(Default)]
struct Tally {
    calls: u64,
    nontrivial: u64,
}

static STATE: OnceLock<State> = OnceLock::new();

fn finish(t: &Tally, code: i32) -> ! {
    let st = STATE.get().unwrap();
    println!(
        "FUZZ property={} sub={} cases={} nontrivial={}",
        st.p.id, st.p.subs[st.sub].name, t.calls, t.nontrivial
    );
    let _ = std::io::stdout().flush();
    // libFuzzer registers exit handlers; the run is over.
    unsafe extern "C" {
        fn _exit(code: c_int) -> !;
    }
    unsafe { _exit(code) }
}

/// The case the bytes stand for; every byte string is one.
fn case_of(id: &str, sub: &str, data: &[u8]) -> Value {
    let opts = |b: u8| json!({"case": b & 1 == 1, "thr": ((b >> 1) % 101)});
    let (first, rest) = match data {
        [] => (0, data),
        [a, r @ ..] => (*a, r),
    };
    match (id, sub) {
        ("R01", "grammar") => json!(B(data.to_vec())),
        ("N01", "bytes") => json!({"line": B(rest.to_vec()), "opts": opts(first)}),
        // Texts, separated by a zero byte; they are evaluated on fixed records.
        ("N01", "texts") => {
            let texts: Vec<_> = rest
                .split(|b| *b == 0)
                .take(3)
                .map(|t| String::from_utf8_lossy(t).to_string())
                .collect();
            let recs: Vec<Rec> = RECORDS.iter().filter_map(|r| rec::decode(r)).collect();
            json!({"texts": texts, "opts": opts(first), "recs": recs})
        }
        _ => panic!("no raw form of {id}/{sub}"),
    }
}

const RECORDS: &[&[u8]] = &[
    b"003@ \x1f0123456789X\x1e012A/01 \x1faabc\x1fbx\x1fa\xc3\xa9\x1e012A/02 \x1fa1\x1fa2\x1f0ab\x1e021A \x1fa\xff\x1fh\x1f9a@b\x1e\n",
    b"002@ \x1f0Oaf\x1e101@ \x1fa1\x1e203@/01 \x1f042\x1e209A/01 \x1faa\x1fxb\x1e203@/02 \x1f043\x1e\n",
    b"012A/00 \x1faabc\x1e013D/100 \x1e\n",
];

fn run(st: &State, env: &mut Env, data: &[u8]) -> Option<Result<bool, (Value, String)>> {
    let s = &st.p.subs[st.sub];
    let case = case_of(st.p.id, s.name, data);
    match (s.replay)(case.clone(), env) {
        Ok(Ok(nt)) => Some(Ok(nt)),
        Ok(Err(Fail::Violation(m))) => Some(Err((case, m))),
        Ok(Err(_)) => None,
        Err(m) => panic!("{m}"),
    }
}

/// Removes parts of the input as long as it fails.
fn shrink(st: &State, env: &mut Env, mut data: Vec<u8>) -> (Value, String) {
    let mut best = run(st, env, &data).and_then(|r| r.err()).expect("fails again");
    let end = Instant::now() + Duration::from_secs(60);
    let mut n = data.len() / 2;
    while n > 0 {
        let mut i = 0;
        while i + n <= data.len() && Instant::now() < end {
            let mut d = data.clone();
            d.drain(i..i + n);
            match run(st, env, &d) {
                Some(Err(f)) => (best, data) = (f, d),
                _ => i += n,
            }
        }
        n /= 2;
    }
    best
}

extern "C" fn one(data: *const u8, n: usize) -> c_int {
    let st = STATE.get().unwrap();
    let data = if n == 0 {
        &[][..]
    } else {
        unsafe { std::slice::from_raw_parts(data, n) }
    };
    let mut g = st.env.lock().unwrap_or_else(|e| e.into_inner());
    let (env, tally) = &mut *g;
    if tally.calls == 0 {
        // libfuzzer-sys has installed a hook that aborts.
        crate::runner::install_panic_hook();
    }
    tally.calls += 1;
    match run(st, env, data) {
        None => return -1,
        Some(Ok(nt)) => tally.nontrivial += nt as u64,
        Some(Err(_)) => {
            let (case, msg) = shrink(st, env, data.to_vec());
            let s = &st.p.subs[st.sub];
            let v = json!({
                "property": st.p.id, "check": s.name, "case": case, "message": msg,
            });
            let _ = std::fs::create_dir_all(&st.out);
            let f = st.out.join(format!("{}-{}-fuzz.json", st.p.id, s.name));
            let _ = std::fs::write(&f, serde_json::to_vec_pretty(&v).unwrap());
            println!("{msg}");
            println!("VIOLATION property={} replay={}", st.p.id, f.display());
            finish(tally, 1);
        }
    }
    if Instant::now() > st.end {
        finish(tally, 0);
    }
    0
}

/// `harness fuzz ID SUB SECONDS CORPUS [libFuzzer options]`
pub fn main(p: Property, args: &[String]) -> i32 {
    let sub = match p.subs.iter().position(|s| s.name == args[0]) {
        Some(i) => i,
        None => {
            eprintln!("no sub-check {}", args[0]);
            return 3;
        }
    };
    let secs: u64 = args[1].parse().expect("seconds");
    let scratch = std::env::temp_dir().join(format!("pica-fuzz-{}", std::process::id()));
    let st = State {
        p,
        sub,
        env: std::sync::Mutex::new((Env::new(scratch), Tally::default())),
        end: Instant::now() + Duration::from_secs(secs),
        out: crate::runner::root().join("replays"),
    };
    STATE.set(st).ok().unwrap();
    let _ = std::fs::create_dir_all(Path::new(&args[2]));
    let mut v: Vec<*mut c_char> = std::iter::once("fuzz".to_string())
        .chain(args[2..].iter().cloned())
        .map(|s| CString::new(s).unwrap().into_raw())
        .collect();
    let mut argc = v.len() as c_int;
    v.push(std::ptr::null_mut());
    let mut argv = v.as_mut_ptr();
    let r = unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, one) };
    finish(&STATE.get().unwrap().env.lock().unwrap().1, r)
}

/// `harness fuzz-case ID SUB FILE`: the replay file of a saved input.
pub fn print_case(id: &str, sub: &str, file: &str) -> i32 {
    let data = std::fs::read(file).expect("input file");
    let v = json!({
        "property": id, "check": sub, "case": case_of(id, sub, &data),
        "message": "the process crashes, does not end or uses up the memory",
    });
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
    0
}
