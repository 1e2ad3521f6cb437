//! A check runs in a process of its own: code under test that brings the whole process down is a finding like any
//! other. The run is repeated with the cases written down, and the one that does it is made smaller.

use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::runner::{write_replay, Failure};

pub const INNER: &str = "VERIF_INNER";
pub const TRACE: &str = "VERIF_TRACE";

fn inner(args: &[&str], trace: Option<&Path>, quiet: bool) -> std::io::Result<ExitStatus> {
    let mut c = Command::new(std::env::current_exe()?);
    c.args(args).env(INNER, "1");
    if let Some(t) = trace {
        c.env(TRACE, t);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    // SAFETY: one plain system call
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.status()
}

/// Brought down by itself, not by somebody else.
fn crashed(s: &ExitStatus) -> Option<i32> {
    // AddressSanitizer, finding something while it reports something else
    if cfg!(asan) && s.code() == Some(97) {
        return Some(libc::SIGABRT);
    }
    s.signal().filter(|s| [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(s))
}

fn file_crashes(dir: &Path, v: &Value) -> bool {
    let f = dir.join("try.json");
    std::fs::write(&f, v.to_string()).is_ok() && inner(&["replay", &f.to_string_lossy()], None, true).is_ok_and(|s| crashed(&s).is_some())
}

/// All ways to leave something out of an array inside of `v`, bigger parts first.
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let mut n = a.len().div_ceil(2);
            while n > 0 {
                for at in (0..a.len()).step_by(n) {
                    let mut b = a.clone();
                    b.drain(at..(at + n).min(a.len()));
                    out.push(Value::Array(b));
                }
                n /= 2;
            }
            for (i, x) in a.iter().enumerate().take(64) {
                for y in smaller(x) {
                    let mut b = a.clone();
                    b[i] = y;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                for y in smaller(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    out.push(Value::Object(b));
                }
            }
        }
        _ => {}
    }
    out
}

pub fn supervise(id: &str) -> i32 {
    let first = match inner(&["check", id], None, false) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    if let Some(c) = first.code() {
        return c;
    }
    let Some(signal) = crashed(&first) else {
        eprintln!("the check was ended by somebody else ({first}): no answer");
        return 3;
    };
    println!("{id}: the process died of signal {signal}, trying again");
    let dir = std::env::temp_dir().join(format!("verif-crash-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let code = again(id, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn replay(path: &str) -> i32 {
    match inner(&["replay", path], None, false) {
        Ok(s) => match (s.code(), crashed(&s)) {
            (Some(c), _) => c,
            (None, Some(signal)) => {
                let v: Value = std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
                println!("the process died of signal {signal}");
                println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or("?"));
                1
            }
            _ => 3,
        },
        Err(e) => {
            eprintln!("cannot start: {e}");
            2
        }
    }
}

fn again(id: &str, dir: &Path) -> i32 {
    let second = match inner(&["check", id], Some(dir), false) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    let Some(signal) = crashed(&second) else {
        eprintln!("it did not happen again ({second}): no answer");
        return second.code().filter(|c| *c == 1).unwrap_or(3);
    };
    let mut cases: Vec<Value> = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Some(v) = std::fs::read_to_string(e.path()).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            cases.push(v);
        }
    }
    let mut culprit = cases.iter().find(|v| file_crashes(dir, v)).cloned();
    let alone = culprit.is_some();
    if let Some(c) = &mut culprit {
        let start = Instant::now();
        'smaller: while start.elapsed() < Duration::from_secs(45) {
            for case in smaller(&c["case"]) {
                if start.elapsed() > Duration::from_secs(45) {
                    break 'smaller;
                }
                let mut v = c.clone();
                v["case"] = case;
                if file_crashes(dir, &v) {
                    *c = v;
                    continue 'smaller;
                }
            }
            break;
        }
    }
    let c = culprit.or_else(|| cases.first().cloned()).unwrap_or_else(|| json!({"suite": "unknown"}));
    let message = format!(
        "the process died of signal {signal}, twice{}",
        if alone { "; this case alone does it" } else { "; no case does it alone, this is one of those that were running" }
    );
    let f = Failure { suite: c["suite"].as_str().unwrap_or("unknown").to_string(), case: c["case"].clone(), message };
    let path = write_replay(id, &f);
    let evidence = json!({
        "property": id,
        "tier": if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1),
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run did not survive", "samples": [f.case], "exhaustive": false},
        "assumptions": [f.message],
        "wall_s": 0.0,
        "violations": 1,
    });
    let to = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or_else(|_| "/verif/evidence".to_string());
    let _ = std::fs::create_dir_all(&to);
    let _ = std::fs::write(format!("{to}/{id}.json"), serde_json::to_string_pretty(&evidence).unwrap_or_default() + "\n");
    println!("{id}/{}: {}", f.suite, f.message);
    println!("VIOLATION property={id} replay={path}");
    1
}
