#![allow(dead_code)]
#![allow(dropping_copy_types)]
#[cfg(feature = "sets")]
mod alloc;
mod anyset;
#[cfg(feature = "disk")]
mod disk;
mod elem;
mod gen;
#[cfg(any(feature = "iters", feature = "sets"))]
mod erase;
#[cfg(feature = "iters")]
mod iters;
#[cfg(feature = "repl")]
mod log;
#[cfg(feature = "mem")]
mod mem;
#[cfg(feature = "mixed")]
mod mixed;
mod model;
#[cfg(feature = "net")]
mod net;
mod rt;
mod sched;
#[cfg(feature = "sets")]
mod sets;

use rt::{Recorder, Res, Rng, Source, Viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

fn workload(prop: &str) -> fn() -> Res {
    match prop {
        #[cfg(feature = "iters")]
        "C01" => iters::c01,
        #[cfg(feature = "iters")]
        "C02" => iters::c02,
        #[cfg(feature = "iters")]
        "C03" => iters::c03,
        #[cfg(feature = "iters")]
        "C04" => iters::c04,
        #[cfg(feature = "sets")]
        "C05" => sets::c05,
        #[cfg(feature = "sets")]
        "C06" => sets::c06,
        #[cfg(feature = "disk")]
        "C07" => disk::c07,
        #[cfg(feature = "disk")]
        "C08" => disk::c08,
        #[cfg(feature = "iters")]
        "C09" => iters::c09,
        #[cfg(feature = "sets")]
        "C10" => sets::c10,
        #[cfg(feature = "mem")]
        "C18" => mem::c18,
        #[cfg(feature = "net")]
        "C19" => net::c19,
        #[cfg(feature = "mixed")]
        "C20" => mixed::c20,
        #[cfg(feature = "repl")]
        "C21" => log::c21,
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        }
    }
}

fn stream(prop: &str) -> u64 {
    prop.bytes().fold(7, |h, b| h * 131 + b as u64)
}

fn shared_recorder() -> Recorder {
    unsafe {
        let first = (rt::MAX_CHOICES + 2) * 4;
        let n = first + std::mem::size_of::<rt::Shared>() + 64;
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let more = (p as *mut u8).add(first.next_multiple_of(16)) as *mut rt::Shared;
        let p = p as *mut u32;
        Recorder { len: p, buf: p.add(1), more }
    }
}

pub struct RunResult {
    pub viol: Option<Viol2>,
    pub choices: Vec<u32>,
    pub info: Value,
}
pub struct Viol2 {
    pub class: String,
    pub msg: String,
}

/// Executes one run in a process of its own: no run sees what another left behind, and a crash or
/// a hang is an outcome like any other.
fn run_one(prop: &str, src: Source, trace: bool, sample: bool, rec: &Recorder) -> RunResult {
    unsafe {
        *rec.len = 0;
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let mut out = std::fs::File::from_raw_fd(fds[1]);
            let lim = libc::rlimit { rlim_cur: 25, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm(150);
            // Silence the message std prints when it aborts.
            if std::env::var_os("SIM_STDERR").is_none() {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
            }
            rt::install(src, *rec, trace);
            if sample {
                rt::want_sample();
            }
            rt::silence_panics();
            let w = workload(prop);
            // A thread of its own: thread-local state of the code under test starts afresh.
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || w())
                .expect("thread");
            let r: Result<Res, _> = h.join();
            let s = rt::sim();
            let viol: Option<Viol> = match r {
                Ok(Ok(())) => s.first.take(),
                Ok(Err(v)) => Some(s.first.take().unwrap_or(v)),
                Err(_) => {
                    let _ = out.write_all(b"{\"harness\":true}");
                    libc::_exit(0)
                }
            };
            let v = json!({
                "viol": viol.map(|v| json!({"class": v.class, "msg": v.msg})),
                "hash": format!("{:016x}", s.hash),
                "events": s.events,
                "episodes": s.n_episodes,
                "ep": s.episodes,
                "stats": s.stats,
                "max": s.max,
                "trace": s.trace,
                "spans": s.spans,
                "sample": s.sample,
            });
            let _ = out.write_all(v.to_string().as_bytes());
            let _ = out.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut buf);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let n = (*rec.len as usize).min(rt::MAX_CHOICES);
        let choices = std::slice::from_raw_parts(rec.buf, n).to_vec();
        let mut info: Value = serde_json::from_slice(&buf).unwrap_or(Value::Null);
        let viol = if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            let m = &*rec.more;
            let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
            let trace = text(&m.trace[..m.trace_len as usize]);
            info = json!({"hash": format!("{:016x}", m.hash), "trace": trace.lines().collect::<Vec<_>>()});
            let reason = text(&m.reason[..m.reason_len as usize]);
            let (class, msg) = match sig {
                _ if !reason.is_empty() => ("gave-up", reason),
                libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL => {
                    ("hang", format!("a call never returned (killed by signal {sig})"))
                }
                libc::SIGSEGV | libc::SIGBUS => {
                    ("crash", format!("the process crashed (signal {sig}): stack overflow or bad memory access"))
                }
                _ => ("crash", format!("the process was aborted (signal {sig})")),
            };
            Some(Viol2 { class: class.into(), msg })
        } else if info.get("harness").is_some() || info.is_null() {
            Some(Viol2 { class: "HARNESS".into(), msg: "the harness panicked".into() })
        } else {
            info["viol"].as_object().map(|o| Viol2 {
                class: o["class"].as_str().unwrap_or("").into(),
                msg: o["msg"].as_str().unwrap_or("").into(),
            })
        };
        RunResult { viol, choices, info }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map(|s| s.parse().expect("number")).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = arg(&args, "--prop").unwrap_or_default();
    let rec = shared_recorder();
    match args.get(1).map(|s| s.as_str()) {
        // Runs `--from`..`--to`; stops at the first violation.
        Some("search") => {
            let seed = num(&args, "--seed", 1);
            let (from, to) = (num(&args, "--from", 0), num(&args, "--to", 100));
            let keep_hashes = args.iter().any(|a| a == "--hashes");
            let mut stats: BTreeMap<String, u64> = BTreeMap::new();
            let mut max: BTreeMap<String, u64> = BTreeMap::new();
            let mut seen: HashSet<u64> = HashSet::new();
            let (mut runs, mut events, mut episodes, mut nontrivial, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
            let mut samples = vec![];
            let mut viol = Value::Null;
            let mut hashes = vec![];
            for run in from..to {
                let src = Source::Random(Rng::new(seed, stream(&prop), run));
                let r = run_one(&prop, src, false, run < from + 3, &rec);
                runs += 1;
                choices += r.choices.len() as u64;
                if let Some(v) = r.viol {
                    viol = json!({"seed": seed, "run": run, "class": v.class, "msg": v.msg, "choices": r.choices});
                    break;
                }
                events += r.info["events"].as_u64().unwrap_or(0);
                episodes += r.info["episodes"].as_u64().unwrap_or(0);
                for e in r.info["ep"].as_array().into_iter().flatten() {
                    nontrivial += 1;
                    seen.insert(e.as_u64().unwrap_or(0));
                }
                for (k, v) in r.info["stats"].as_object().into_iter().flatten() {
                    *stats.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
                for (k, v) in r.info["max"].as_object().into_iter().flatten() {
                    let e = max.entry(k.clone()).or_insert(0);
                    *e = (*e).max(v.as_u64().unwrap_or(0));
                }
                if let Some(s) = r.info["sample"].as_array() {
                    if !s.is_empty() {
                        samples.push(json!({"seed": seed, "run": run, "events": s}));
                    }
                }
                if keep_hashes {
                    hashes.push(json!([run, r.info["hash"], r.choices.len()]));
                }
            }
            if let Some(f) = arg(&args, "--seen") {
                let mut b = Vec::with_capacity(seen.len() * 8);
                for h in &seen {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(f, b).expect("write");
            }
            println!(
                "{}",
                json!({"runs": runs, "events": events, "episodes": episodes, "nontrivial": nontrivial,
                       "choices": choices, "stats": stats, "max": max, "samples": samples,
                       "violation": viol, "hashes": hashes})
            );
        }
        // Reads lines `{"choices": [...], "trace": bool}` and answers each with the outcome.
        Some("serve") => {
            let stdin = std::io::stdin();
            let mut line = String::new();
            loop {
                line.clear();
                if stdin.read_line(&mut line).unwrap_or(0) == 0 {
                    break;
                }
                let v: Value = serde_json::from_str(&line).expect("request");
                let list: Vec<u32> = v["choices"]
                    .as_array()
                    .expect("choices")
                    .iter()
                    .map(|x| x.as_u64().unwrap_or(0) as u32)
                    .collect();
                let trace = v["trace"].as_bool().unwrap_or(false);
                let r = run_one(&prop, Source::Replay(list), trace, false, &rec);
                let viol = r.viol.map(|v| json!({"class": v.class, "msg": v.msg}));
                println!(
                    "{}",
                    json!({"viol": viol, "choices": r.choices, "hash": r.info["hash"],
                           "trace": if trace { r.info["trace"].clone() } else { Value::Null },
                           "spans": if trace { r.info["spans"].clone() } else { Value::Null }})
                );
                let _ = std::io::stdout().flush();
            }
        }
        _ => {
            eprintln!("usage: sim search|serve --prop ID ...");
            std::process::exit(3);
        }
    }
}
