//! vh: generated-input checks for datenlord/s3-server. See /verif/DESIGN.md.
#![allow(dead_code)]

mod daemon;
mod engine;
mod exec;
mod fsmodel;
mod http;
mod inject;
mod mock;
mod ops;
mod props;
mod sigv4;
mod xmlmini;

use engine::{Env, Outcome, Tier};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

const UID: u32 = 61234;

fn has_created(dir: &Path) -> bool {
    let d = dir.join("probe");
    let ok = std::fs::create_dir(&d).and_then(|_| std::fs::metadata(&d)).and_then(|m| m.created()).is_ok();
    let _ = std::fs::remove_dir(&d);
    ok
}

fn make_base() -> PathBuf {
    for root in ["/dev/shm", "/tmp", "/var/tmp"] {
        let b = PathBuf::from(format!("{root}/vh-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0)));
        if std::fs::create_dir(&b).is_ok() {
            if has_created(&b) {
                return b;
            }
            let _ = std::fs::remove_dir_all(&b);
        }
    }
    eprintln!("no usable scratch directory");
    exit(3);
}

fn usage() -> ! {
    eprintln!("usage: vh run PROP | vh replay FILE | vh show PROP N");
    exit(3)
}

enum End {
    Code(i32),
    Signal(i32),
    Late,
}

/// runs the judged part and ends everything it started
fn judged(base: &Path, args: &[String], root: bool, limit: Duration, quiet: bool) -> End {
    let work = base.join("work");
    let mut cmd = Command::new(base.join("bin").join("vh"));
    cmd.args(args).current_dir(base).env("VH_BASE", base).env("HOME", &work).env("TMPDIR", &work);
    if root {
        cmd.uid(UID).gid(UID);
    }
    if quiet {
        cmd.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    cmd.process_group(0);
    unsafe {
        cmd.pre_exec(|| {
            // endless allocation ends in an abort here instead of in the machine's memory guard
            let l = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("spawn");
    let pgid = child.id() as i32;
    let t0 = Instant::now();
    let end = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break st.code().map_or_else(|| End::Signal(st.signal().unwrap_or(0)), End::Code);
        }
        if t0.elapsed() > limit {
            unsafe { libc::kill(-pgid, libc::SIGKILL) };
            let _ = child.wait();
            break End::Late;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    unsafe { libc::kill(-pgid, libc::SIGKILL) };
    end
}

fn save(out: &Path, id: &str, sig: &str, message: &str, seed: u64, case_json: &str) {
    let d = out.join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let case: serde_json::Value = serde_json::from_str(case_json).unwrap_or_default();
    let doc = serde_json::json!({"property": id, "sig": sig, "message": message, "seed": seed, "case": case});
    let name = format!("{id}-{}.json", &sigv4::sha_hex(case_json.as_bytes())[..12]);
    std::fs::write(d.join(&name), serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
    let msg: String = message.chars().take(6000).collect();
    std::fs::write(out.join("violation"), format!("{id}\n{name}\nfailure [{sig}]: {msg}\ncase: {}", case_json.chars().take(3000).collect::<String>())).unwrap();
}

/// The judged process did not end by itself. A case that hangs it or kills it is a violation.
fn blame(base: &Path, out: &Path, args: &[String], root: bool, end: &End) -> bool {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let work = base.join("work");
    let slot = |w: usize| std::fs::read_to_string(work.join(format!("slot-{w}.json"))).ok();
    let replayed = args[0] == "replay";
    let id = if replayed {
        let b = std::fs::read(base.join("replay.json")).unwrap_or_default();
        let v: serde_json::Value = serde_json::from_slice(&b).unwrap_or_default();
        v["property"].as_str().unwrap_or("").to_owned()
    } else {
        args[1].clone()
    };
    match end {
        End::Code(engine::HANG) => {
            let w = std::fs::read_to_string(work.join("hang")).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            save(out, &id, "hang", "the case did not end: a request is not answered", seed, &slot(w).unwrap_or_default());
            true
        }
        End::Signal(s) => {
            let mut cases: Vec<String> = (0..64).filter_map(slot).collect();
            if !replayed {
                cases.retain(|c| {
                    let _ = std::fs::write(base.join("replay.json"), format!("{{\"property\":\"{id}\",\"case\":{c}}}"));
                    matches!(judged(base, &["--child".into(), "replay".into(), "replay.json".into()], root, Duration::from_secs(60), true), End::Signal(_))
                });
                cases.sort_by_key(String::len);
            }
            match cases.first() {
                Some(c) => {
                    save(out, &id, "crash", &format!("the process was ended by signal {s} (out of memory or stack, or aborted)"), seed, c);
                    true
                }
                None => false,
            }
        }
        _ => false,
    }
}

/// Privileged front: prepares a scratch directory, runs the judged part in it as an unprivileged user,
/// copies its results out.
fn parent(args: &[String]) -> ! {
    let home = PathBuf::from(std::env::var("VH_HOME").unwrap_or_else(|_| "/verif".into()));
    let base = make_base();
    let bin = base.join("bin");
    let out = base.join("out");
    let work = base.join("work");
    for d in [&bin, &out, &work] {
        std::fs::create_dir(d).expect("scratch");
    }
    let me = std::env::current_exe().expect("exe");
    std::fs::copy(&me, bin.join("vh")).expect("copy");
    let s3d = me.with_file_name("s3d");
    if s3d.exists() {
        std::fs::copy(&s3d, bin.join("s3d")).expect("copy");
    }
    let copy_dir = |from: &Path, to: &Path| {
        fn rec(from: &Path, to: &Path) {
            if std::fs::create_dir_all(to).is_err() {
                return;
            }
            for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    rec(&p, &to.join(e.file_name()));
                } else {
                    let _ = std::fs::copy(&p, to.join(e.file_name()));
                }
            }
        }
        if from.exists() {
            rec(from, to);
        }
    };
    copy_dir(&home.join("corpus"), &base.join("corpus"));
    let _ = std::fs::copy(home.join("known_findings.txt"), base.join("known_findings.txt"));
    let mut child_args: Vec<String> = vec!["--child".into()];
    if args[0] == "replay" {
        if std::fs::copy(&args[1], base.join("replay.json")).is_err() {
            eprintln!("cannot read {}", args[1]);
            let _ = std::fs::remove_dir_all(&base);
            exit(3);
        }
        child_args.extend(["replay".into(), "replay.json".into()]);
    } else {
        child_args.extend(args.iter().cloned());
    }
    let root = unsafe { libc::geteuid() } == 0;
    if root {
        let chown = |p: &Path| {
            let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            unsafe { libc::chown(c.as_ptr(), UID, UID) };
        };
        for d in [&base, &out, &work] {
            chown(d);
        }
    }
    let limit = Duration::from_secs(std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(800));
    let end = judged(&base, &child_args, root, limit, false);
    let mut code = match end {
        End::Code(c) if c != engine::HANG => c,
        End::Late => {
            eprintln!("time limit of {} s reached: no verdict", limit.as_secs());
            3
        }
        ref end => {
            if !blame(&base, &out, args, root, end) {
                eprintln!("the judged process was ended by a signal and no case does so again: no verdict");
            }
            3
        }
    };
    for (sub, dst) in [("evidence", "evidence"), ("replays", "replays")] {
        let from = out.join(sub);
        if from.exists() {
            let to = home.join(dst);
            let _ = std::fs::create_dir_all(&to);
            for e in std::fs::read_dir(&from).into_iter().flatten().flatten() {
                let _ = std::fs::copy(e.path(), to.join(e.file_name()));
            }
        }
    }
    if let Ok(v) = std::fs::read_to_string(out.join("violation")) {
        let (id, rest) = v.split_once('\n').unwrap_or((&v, ""));
        let (name, msg) = rest.split_once('\n').unwrap_or((rest, ""));
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", home.join("replays").join(name).display());
        code = 1;
    } else if code == 1 {
        code = 3;
    }
    let _ = std::fs::remove_dir_all(&base);
    exit(code)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        usage();
    }
    if args[0] != "--child" {
        if args.len() < 2 {
            usage();
        }
        parent(&args);
    }
    let args = &args[1..];
    let base = PathBuf::from(std::env::var("VH_BASE").expect("VH_BASE"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let env = Env {
        seed,
        tier,
        corpus: base.join("corpus"),
        known: base.join("known_findings.txt"),
        scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        base: base.join("work"),
    };
    let out = base.join("out");
    let outcome: (String, Outcome) = match args[0].as_str() {
        "run" => {
            let id = args[1].clone();
            let (o, ev) = props::dispatch_run(&id, &env).unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                exit(3)
            });
            let d = out.join("evidence");
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
            let c = &ev["coverage"];
            eprintln!("{id}: {} evaluations, {} distinct non-trivial, {:.1} s", c["evaluations"], c["distinct_nontrivial"], ev["wall_s"].as_f64().unwrap_or(0.0));
            if std::env::var("VH_CLASSES").is_ok() {
                eprintln!("{}", serde_json::to_string_pretty(&c["classes"]).unwrap());
            }
            (id, o)
        }
        "replay" => {
            let b = std::fs::read(base.join(&args[1])).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_slice(&b).unwrap_or_default();
            let id = v["property"].as_str().unwrap_or("").to_owned();
            let o = props::dispatch_replay(&id, &env, &b).unwrap_or_else(|| {
                eprintln!("unknown property {id:?} in replay file");
                exit(3)
            });
            (id, o)
        }
        "show" => {
            props::dispatch_show(&args[1], &env, args.get(2).and_then(|s| s.parse().ok()).unwrap_or(10));
            exit(0)
        }
        _ => usage(),
    };
    let (id, o) = outcome;
    match o {
        Outcome::Held => exit(0),
        Outcome::Error(e) => {
            eprintln!("ERROR in check {id}: {e}");
            exit(3)
        }
        Outcome::Violated(f) => {
            save(&out, &id, &f.sig, &f.msg, seed, &f.case_json);
            exit(1)
        }
    }
}
