//! C35: after any history, with uploads that fail and requests that are dropped anywhere in between, deleting through
//! the service all that it shows leaves the storage directory as it was at the start, and no file open.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, Instant};

use super::c34_faults::{bucket, ops, Op, Side, BUCKETS};
use crate::engine::*;
use crate::exec::Stepper;
use crate::fsmodel::object_target;
use crate::http::*;
use crate::inject::{self, Plan};
use crate::xmlmini;
use futures::StreamExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Do(Op),
    /// the body of the request errors after so many permille
    Fail(Op, u16),
    /// it ends there
    Short(Op, u16),
    /// the request is dropped after so many polls
    Drop(Op, u8),
    /// a copy of something that does not exist, a completion with a part that does not exist
    CopyMissing(u8, u8),
    CompleteMissing(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub events: Vec<Ev>,
    /// file-system calls take up to so many microseconds longer
    pub delay_us: u32,
    /// the buckets themselves are deleted as well
    pub buckets: bool,
}

pub struct C35;

impl Prop for C35 {
    type Case = Case;
    const ID: &'static str = "C35";
    const RULE: &'static str = "a request that writes failed or was dropped midway, or an upload was completed";
    const SHRINK_ITERS: u32 = 500;
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let at = || prop_oneof![3 => 0_u16..=1000, 1 => Just(1000_u16)];
        let n = || prop_oneof![4 => 0_u8..6, 3 => 0_u8..60];
        let ev = prop_oneof![
            8 => ops(1).prop_map(Ev::Do),
            3 => (ops(1), at()).prop_map(|(o, a)| Ev::Fail(o, a)),
            2 => (ops(1), at()).prop_map(|(o, a)| Ev::Short(o, a)),
            6 => (ops(1), n()).prop_map(|(o, n)| Ev::Drop(o, n)),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(b, k)| Ev::CopyMissing(b, k)),
            1 => any::<u8>().prop_map(Ev::CompleteMissing),
        ];
        let delay = prop_oneof![3 => Just(0_u32), 1 => Just(100_u32), 1 => Just(600_u32)];
        let upload = prop_oneof![1 => Just(0_u8), 2 => 1_u8..4];
        (upload, prop::collection::vec(ev, 1..14), delay, any::<bool>())
            .prop_map(|(parts, more, delay_us, buckets)| {
                let mut events = vec![];
                if parts > 0 {
                    events.push(Ev::Do(Op::Initiate { b: 0, k: parts, meta: parts == 1 }));
                    events.extend((0..parts).map(|n| Ev::Do(Op::Part { u: 0, n, how: crate::fsmodel::How::Plain, size: 40 })));
                }
                events.extend(more);
                Case { events, delay_us, buckets }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 120_000 } else { 12_000 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("l{}", cx.case_no));
        let res = go(c, &top.join("root"), cx);
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn tree(dir: &Path) -> BTreeSet<String> {
    fn walk(d: &Path, top: &Path, out: &mut BTreeSet<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            let is_dir = e.file_type().map_or(false, |t| t.is_dir());
            out.insert(format!("{}{}", p.strip_prefix(top).unwrap_or(&p).display(), if is_dir { "/" } else { "" }));
            if is_dir {
                walk(&p, top, out);
            }
        }
    }
    let mut out = BTreeSet::new();
    walk(dir, dir, &mut out);
    out
}

fn open_files(dir: &Path) -> Vec<String> {
    let d = dir.display().to_string();
    std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|p| p.display().to_string()).filter(|p| p.starts_with(&format!("{d}/")) || *p == d).collect()
}

/// the request with everything that belongs to it, given up after some polls
fn dropped(s: &Side, q: &ReqSpec, polls: u8) -> Result<bool, Fail> {
    let signed = q.get("authorization").is_some() || q.method == "POST" && q.get("content-type").map_or(false, |t| t.starts_with("multipart/form-data"));
    let svc = Arc::clone(if signed { &s.auth } else { &s.svc });
    let req = q.build().map_err(Fail::Harness)?;
    let mut st = Stepper::new(async move {
        let r = svc.hyper_call(req).await;
        if let Ok(r) = r {
            let mut body = r.into_body();
            while let Some(x) = body.next().await {
                if x.is_err() {
                    break;
                }
            }
        }
    });
    for _ in 0..polls {
        let _ = st.wait_woken(Duration::from_millis(100));
        if st.poll_if_woken().is_some() {
            return Ok(false);
        }
    }
    drop(st);
    Ok(true)
}

fn go(c: &Case, root: &Path, cx: &mut Cx) -> PResult {
    let mut s = Side::new(root)?;
    let start = tree(root);
    let mut log = vec![];
    for b in 0..2 {
        if !s.send(&ReqSpec::new("PUT", &format!("/{}", bucket(b))))?.ok() {
            cx.label("setup failed");
            return Ok(());
        }
    }
    let empty = tree(root);
    let slow = (c.delay_us > 0).then(|| inject::arm(root, Plan { delay_us: c.delay_us, ..Plan::default() }, 77));
    for (i, ev) in c.events.iter().enumerate() {
        let salt = i as u32 + 1;
        let (op, how) = match ev {
            Ev::Do(o) => (o.clone(), "done"),
            Ev::Fail(o, _) => (o.clone(), "failed"),
            Ev::Short(o, _) => (o.clone(), "cut short"),
            Ev::Drop(o, _) => (o.clone(), "dropped"),
            Ev::CopyMissing(b, k) => {
                let q = ReqSpec::new("PUT", &object_target(bucket(*b), super::c34_faults::key(*k))).header("x-amz-copy-source", format!("{}/no-such-key", bucket(*b)));
                let r = s.send(&q)?;
                log.push(format!("{ev:?} -> {}", r.status));
                continue;
            }
            Ev::CompleteMissing(u) => {
                if let Some((id, b, k, parts, _)) = (!s.uploads.is_empty()).then(|| s.uploads[usize::from(*u) % s.uploads.len()].clone()) {
                    let mut nums: Vec<i32> = parts.keys().map(|n| i32::from(*n)).collect();
                    nums.push(4711);
                    let r = s.send(&ReqSpec::new("POST", &format!("{}?uploadId={id}", object_target(b, k))).body(crate::fsmodel::complete_xml(&nums, |_| None)))?;
                    log.push(format!("{ev:?} -> {}", r.status));
                }
                continue;
            }
        };
        // deleting a bucket ends the uploads to it in ways that nobody has defined; an upload whose start is given
        // up cannot be named afterwards
        let gone = matches!(op, Op::DeleteBucket(_));
        if gone || (how == "dropped" && matches!(op, Op::Initiate { .. })) {
            continue;
        }
        let Some(mut q) = s.request(&op, salt) else { continue };
        let writes = matches!(op, Op::Put { .. } | Op::Part { .. } | Op::Copy { .. } | Op::Complete { .. });
        match ev {
            Ev::Drop(_, n) => {
                let mid = dropped(&s, &q, *n)?;
                log.push(format!("{ev:?}{}", if mid { "" } else { " (it was done)" }));
                if mid && writes {
                    cx.nontrivial();
                    cx.label("dropped");
                }
                continue;
            }
            Ev::Fail(_, a) => q.fail_after = Some(q.body.len() * usize::from(*a) / 1000),
            Ev::Short(_, a) => {
                let n = q.body.len() * usize::from(*a) / 1000;
                q.body.truncate(n);
            }
            _ => {}
        }
        let r = s.send(&q)?;
        log.push(format!("{op:?} {how} -> {}", r.status));
        s.done(&op, &r, salt);
        if writes && !r.ok() && how != "done" {
            cx.nontrivial();
            cx.label(how);
        }
        if r.ok() && matches!(op, Op::Complete { .. }) {
            cx.nontrivial();
            cx.label("completed");
        }
    }
    drop(slow);

    // the end of the uploads: all parts there are, or one for the purpose
    for u in 0..s.uploads.len() {
        let (id, b, k, parts, done) = s.uploads[u].clone();
        if done {
            continue;
        }
        let target = object_target(b, k);
        let mut nums: Vec<i32> = parts.keys().map(|n| i32::from(*n)).collect();
        if nums.is_empty() {
            nums.push(1);
            let r = s.send(&ReqSpec::new("PUT", &format!("{target}?partNumber=1&uploadId={id}")).body("x"))?;
            log.push(format!("a part for upload {u} -> {}", r.status));
        }
        let r = s.send(&ReqSpec::new("POST", &format!("{target}?uploadId={id}")).body(crate::fsmodel::complete_xml(&nums, |_| None)))?;
        log.push(format!("completion of upload {u} -> {}", r.status));
        // it may have been completed by a request that was dropped
        if !r.ok() && r.error_code().as_deref() != Some("NoSuchUpload") {
            cx.label("not completed");
            return Ok(());
        }
    }
    // a bucket with objects: refused, or everything goes with it
    let full = c.buckets && c.delay_us == 0 && c.events.len() % 2 == 0;
    if full {
        for b in BUCKETS {
            let r = s.send(&ReqSpec::new("DELETE", &format!("/{b}")))?;
            log.push(format!("delete bucket {b} as it is -> {}", r.status));
        }
    }
    for (n, b) in BUCKETS.iter().enumerate() {
        let r = s.send(&ReqSpec::new("GET", &format!("/{b}")))?;
        let Ok(x) = xmlmini::parse(&r.body) else { return Ok(()) };
        let keys: Vec<String> = x.all("Contents").filter_map(|e| e.text_of("Key").map(str::to_owned)).collect();
        if n == 0 {
            for k in &keys {
                let r = s.send(&ReqSpec::new("DELETE", &object_target(b, k)))?;
                log.push(format!("delete {k:?} -> {}", r.status));
            }
        } else if !keys.is_empty() {
            let list: String = keys.iter().map(|k| format!("<Object><Key>{}</Key></Object>", xmlmini::escape_text(k))).collect();
            let r = s.send(&ReqSpec::new("POST", &format!("/{b}?delete")).body(format!("<Delete>{list}</Delete>")))?;
            log.push(format!("delete {keys:?} -> {}", r.status));
        }
    }
    if !full {
        settle(root, &empty, "deleting all objects and completing all uploads", &log)?;
    }
    if c.buckets {
        for b in BUCKETS {
            let r = s.send(&ReqSpec::new("DELETE", &format!("/{b}")))?;
            log.push(format!("delete bucket {b} -> {}", r.status));
        }
        settle(root, &start, "deleting all buckets", &log)?;
    }
    Ok(())
}

fn settle(root: &Path, want: &BTreeSet<String>, what: &str, log: &[String]) -> PResult {
    // what was dropped may still be on its way in some thread
    let until = Instant::now() + Duration::from_secs(5);
    loop {
        let now = tree(root);
        let open = open_files(root);
        if now == *want && open.is_empty() {
            return Ok(());
        }
        if Instant::now() > until {
            let extra: Vec<_> = now.difference(want).collect();
            let missing: Vec<_> = want.difference(&now).collect();
            let sig = if !extra.is_empty() { "left-behind" } else if !missing.is_empty() { "missing" } else { "open-files" };
            return viol(sig, format!("after {what}\nleft behind: {extra:?}\nmissing: {missing:?}\nopen files: {open:?}\nhistory:\n  {}", log.join("\n  ")));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
