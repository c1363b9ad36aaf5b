//! C28: overlapping writers and readers of the same keys, on one service. Two kinds of schedule: bodies and
//! responses handed over fragment by fragment in a generated interleaving (single thread, deterministic up
//! to file-system latency), and free-running threads. Every read must be one single write, whole.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

use crate::engine::*;
use crate::exec::{block_on, Stepper};
use crate::fsmodel::*;
use crate::http::*;
use crate::inject;
use crate::sigv4::md5_hex;
use crate::xmlmini;
use futures::StreamExt;
use proptest::prelude::*;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// size of the body, metadata or none, how many fragments
    Put { key: u8, size: u32, meta: bool, frags: u8 },
    Form { key: u8, size: u32, meta: bool, frags: u8 },
    Copy { from: u8, to: u8 },
    /// an upload whose parts are there already; only the completion takes part
    Complete { key: u8, sizes: Vec<u32>, meta: bool },
    Delete { key: u8 },
    MultiDelete { keys: Vec<u8> },
    Get { key: u8 },
    Head { key: u8 },
    List,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub initial: Vec<(u8, u32, bool)>,
    pub acts: Vec<Act>,
    /// actor, and whether it runs until it waits for more (or only one step)
    pub schedule: Vec<(u8, bool)>,
    /// > 0: threads instead of the schedule, each running its share of the acts so many times
    pub rounds: u16,
    /// with threads: file-system calls are held up by up to so many microseconds
    #[serde(default)]
    pub delay_us: u32,
}

pub struct C28;

const KEYS: &[&str] = &["k", "dir/k", "dir/sub/k"];

fn kname(k: u8) -> &'static str {
    KEYS[usize::from(k) % KEYS.len()]
}

/// one value that a write may leave under a key
#[derive(Clone, Debug)]
struct Val {
    content: Arc<Vec<u8>>,
    md5: String,
    meta: Meta,
    what: String,
}

struct Shared {
    /// per key, everything ever written there or on its way; copies join the keys
    vals: Mutex<Vec<(String, Val)>>,
    next: AtomicU32,
    copies: bool,
    deletes: bool,
    reads: AtomicU32,
    overlapped: AtomicU32,
}

impl Shared {
    /// a new distinct value; lengths differ as well, so that HEAD can be judged
    fn fresh(&self, key: &str, size: u32, meta: bool, what: &str) -> Val {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let size = (size.min(30_000 + size / 20) / 64) * 64 + id % 64;
        let content = Content::Gen { len: size, seed: id + 1 }.bytes();
        let meta: Meta = if meta { [("id".to_owned(), format!("m{id}"))].into_iter().collect() } else { Meta::new() };
        let v = Val { md5: md5_hex(&content), content: Arc::new(content), meta, what: format!("{what} {id} of {size} bytes") };
        self.vals.lock().unwrap().push((key.to_owned(), v.clone()));
        v
    }
    fn candidates(&self, key: &str) -> Vec<Val> {
        self.vals.lock().unwrap().iter().filter(|(k, _)| self.copies || k == key).map(|(_, v)| v.clone()).collect()
    }
    fn judge_read(&self, key: &str, r: &Resp, head: bool) -> PResult {
        if r.status == 404 {
            return Ok(());
        }
        if !r.ok() || r.body_err.is_some() {
            return Ok(());
        }
        self.reads.fetch_add(1, Ordering::Relaxed);
        let c = self.candidates(key);
        let m = meta_of(r);
        let len = r.get("content-length").unwrap_or("");
        let all = || c.iter().map(|v| format!("  {} md5 {} meta {:?}", v.what, v.md5, v.meta)).take(40).collect::<Vec<_>>().join("\n");
        let shown = || {
            let mut r = r.clone();
            r.body.truncate(64);
            format!("{}{} body bytes with md5 {}", r.show(), if head { 0 } else { r.body.len() }, "-")
        };
        if head {
            if !c.iter().any(|v| v.content.len().to_string() == len && v.meta == m) {
                return viol("head-mixed", format!("HEAD {key} matches no write: {}\nwrites:\n{}", shown(), all()));
            }
            return Ok(());
        }
        let Some(v) = c.iter().find(|v| *v.content == r.body && v.meta == m) else {
            let sig = if c.iter().any(|v| *v.content == r.body) { "meta-mixed" } else { "content-mixed" };
            return viol(sig, format!("GET {key} ({} bytes, md5 {}) matches no write: {}\nwrites:\n{}", r.body.len(), md5_hex(&r.body), shown(), all()));
        };
        if len != v.content.len().to_string() {
            return viol("length", format!("GET {key} gave {} whole, but reported: {}", v.what, shown()));
        }
        if r.get("etag") != Some(format!("\"{}\"", v.md5).as_str()) {
            return viol("etag", format!("GET {key} gave {} (md5 {}), but reported: {}", v.what, v.md5, shown()));
        }
        Ok(())
    }
    fn judge_list(&self, r: &Resp) -> PResult {
        if !r.ok() {
            return Ok(());
        }
        let Ok(n) = xmlmini::parse(&r.body) else { return viol("list-xml", r.show()) };
        for c in n.all("Contents") {
            let k = c.text_of("Key").unwrap_or("");
            let s = c.text_of("Size").unwrap_or("");
            if !KEYS.contains(&k) {
                return viol("list-stray", format!("the listing shows {k:?}: {}", r.show()));
            }
            if !self.candidates(k).iter().any(|v| v.content.len().to_string() == s) {
                return viol("list-size", format!("the listing shows {k:?} with size {s}, which no write had: {}", r.show()));
            }
        }
        Ok(())
    }
}

/// what an actor does, prepared
struct Job {
    act: Act,
    req: ReqSpec,
    frags: Vec<Vec<u8>>,
}

fn job(s: &Shared, svc: &S3Service, act: &Act) -> Result<Option<Job>, Fail> {
    let cut = |body: &[u8], frags: u8| -> Vec<Vec<u8>> {
        let n = usize::from(frags.max(1));
        body.chunks((body.len() / n).max(1) + 1).map(<[u8]>::to_vec).collect()
    };
    let (req, frags) = match act {
        Act::Put { key, size, meta, frags } => {
            let v = s.fresh(kname(*key), *size, *meta, "put");
            let q = put_request(How::Plain, "bkt", kname(*key), &v.content, &v.meta, &Frag::whole());
            let f = cut(&q.body, *frags);
            (q, f)
        }
        Act::Form { key, size, meta, frags } => {
            let v = s.fresh(kname(*key), *size, *meta, "form");
            let q = put_request(How::Form, "bkt", kname(*key), &v.content, &v.meta, &Frag::whole());
            let f = cut(&q.body, *frags);
            (q, f)
        }
        Act::Copy { from, to } => (ReqSpec::new("PUT", &object_target("bkt", kname(*to))).header("x-amz-copy-source", format!("bkt/{}", kname(*from))), vec![]),
        Act::Complete { key, sizes, meta } => {
            let k = kname(*key);
            // parts first
            let total: u32 = sizes.iter().sum();
            let v = s.fresh(k, total, *meta, "upload");
            let mut q = ReqSpec::new("POST", &format!("{}?uploads", object_target("bkt", k)));
            for (n, x) in &v.meta {
                q = q.header(&format!("x-amz-meta-{n}"), x.clone());
            }
            let r = send(svc, &q)?;
            let Some(id) = xmlmini::parse(&r.body).ok().filter(|_| r.ok()).and_then(|n| n.text_of("UploadId").map(str::to_owned)) else { return Ok(None) };
            let n = sizes.len().max(1);
            let step = v.content.len() / n;
            for i in 0..n {
                let part = if i + 1 == n { &v.content[i * step..] } else { &v.content[i * step..(i + 1) * step] };
                let r = send(svc, &ReqSpec::new("PUT", &format!("{}?partNumber={}&uploadId={id}", object_target("bkt", k), i + 1)).body(part.to_vec()))?;
                if !r.ok() {
                    return Ok(None);
                }
            }
            let nums: Vec<i32> = (1..=n as i32).collect();
            (ReqSpec::new("POST", &format!("{}?uploadId={id}", object_target("bkt", k))).body(complete_xml(&nums, |_| None)), vec![])
        }
        Act::Delete { key } => (ReqSpec::new("DELETE", &object_target("bkt", kname(*key))), vec![]),
        Act::MultiDelete { keys } => (ReqSpec::new("POST", "/bkt?delete").body(format!("<Delete>{}</Delete>", keys.iter().map(|k| format!("<Object><Key>{}</Key></Object>", kname(*k))).collect::<String>())), vec![]),
        Act::Get { key } => (ReqSpec::new("GET", &object_target("bkt", kname(*key))), vec![]),
        Act::Head { key } => (ReqSpec::new("HEAD", &object_target("bkt", kname(*key))), vec![]),
        Act::List => (ReqSpec::new("GET", "/bkt?list-type=2"), vec![]),
    };
    let frags = if frags.is_empty() { vec![req.body.clone()] } else { frags };
    Ok(Some(Job { act: act.clone(), req, frags }))
}

fn send(svc: &S3Service, q: &ReqSpec) -> Result<Resp, Fail> {
    let h = q.build().map_err(Fail::Harness)?;
    block_on(call(svc, h)).or_else(|e| viol("service-error", e))
}

fn judge(s: &Shared, act: &Act, r: &Resp) -> PResult {
    match act {
        Act::Get { key } => s.judge_read(kname(*key), r, false),
        Act::Head { key } => s.judge_read(kname(*key), r, true),
        Act::List => s.judge_list(r),
        _ => Ok(()),
    }
}

/// a request whose response body is also read step by step
async fn stepwise(svc: &S3Service, req: HReq, more: GateBody) -> Result<Resp, String> {
    let res = svc.hyper_call(req).await.map_err(|e| format!("hyper_call returned Err: {e}"))?;
    let (parts, mut body) = res.into_parts();
    let headers = parts.headers.iter().map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().iter().map(|&b| b as char).collect())).collect();
    let mut data = vec![];
    let mut body_err = None;
    let mut go = more.clone();
    loop {
        // wait for leave to read on; a closed gate lets everything through
        let _ = go.next().await;
        match body.next().await {
            None => break,
            Some(Ok(b)) => data.extend_from_slice(&b),
            Some(Err(e)) => {
                body_err = Some(e.to_string());
                break;
            }
        }
    }
    Ok(Resp { status: parts.status.as_u16(), headers, body: data, body_err })
}

fn writes(a: &Act) -> bool {
    !matches!(a, Act::Get { .. } | Act::Head { .. } | Act::List)
}

impl Prop for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "a write and another request of the same key were under way at the same time (threads: at least ten reads succeeded while writes were running)";
    const SHRINK_ITERS: u32 = 300;
    const WORKERS: usize = 6;
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let size = || prop_oneof![3 => 0_u32..300, 3 => 3000_u32..30_000, 1 => 30_000_u32..200_000];
        // mostly one key, so that they meet
        let k = || prop_oneof![6 => Just(0_u8), 2 => Just(1_u8), 1 => Just(2_u8)];
        let act = move |del: u32, copy: u32| {
            prop_oneof![
                5 => (k(), size(), any::<bool>(), 1_u8..6).prop_map(|(key, size, meta, frags)| Act::Put { key, size, meta, frags }),
                1 => (k(), size(), any::<bool>(), 1_u8..6).prop_map(|(key, size, meta, frags)| Act::Form { key, size, meta, frags }),
                copy => (k(), k()).prop_map(|(from, to)| Act::Copy { from, to: if from == to { to + 1 } else { to } }),
                1 => (k(), prop::collection::vec(size(), 1..4), any::<bool>()).prop_map(|(key, sizes, meta)| Act::Complete { key, sizes, meta }),
                del => k().prop_map(|key| Act::Delete { key }),
                del => prop::collection::vec(k(), 1..3).prop_map(|keys| Act::MultiDelete { keys }),
                5 => k().prop_map(|key| Act::Get { key }),
                2 => k().prop_map(|key| Act::Head { key }),
                1 => Just(Act::List),
            ]
        };
        let acts = move |n: usize| prop_oneof![3 => (Just(0_u32), Just(0_u32)), 1 => (Just(2_u32), Just(0_u32)), 1 => (Just(0_u32), Just(2_u32)), 1 => (Just(1_u32), Just(1_u32))].prop_flat_map(move |(d, c)| prop::collection::vec(act(d, c), 2..n));
        let initial = prop_oneof![
            1 => Just(vec![]),
            4 => (size(), any::<bool>()).prop_map(|(s, m)| vec![(0_u8, s, m)]),
            2 => (size(), any::<bool>(), size()).prop_map(|(s, m, s2)| vec![(0_u8, s, m), (1, s2, true)]),
        ];
        let (rounds, weight) = if t == Tier::Thorough { (200_u16, 3) } else { (60, 2) };
        let stepped = (initial.clone(), acts(7), prop::collection::vec((any::<u8>(), prop::bool::weighted(0.6)), 0..60)).prop_map(|(initial, acts, schedule)| Case { initial, acts, schedule, rounds: 0, delay_us: 0 });
        let delay = prop_oneof![1 => Just(0_u32), 2 => Just(60_u32), 1 => Just(400_u32)];
        let threads = (initial, acts(7), 20_u16..rounds, delay).prop_map(|(initial, acts, rounds, delay_us)| Case { initial, acts, schedule: vec![], rounds: if delay_us > 0 { rounds / 2 } else { rounds }, delay_us });
        prop_oneof![40 => stepped, weight => threads].boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 60_000 } else { 8000 }
    }
    fn directed(&self, t: Tier) -> Vec<Case> {
        let rounds = if t == Tier::Thorough { 4000 } else { 400 };
        let put = |key, size, meta| Act::Put { key, size, meta, frags: 1 };
        let get = |key| Act::Get { key };
        let mut v = vec![
            Case { initial: vec![(0, 100, true)], acts: vec![put(0, 64, true), put(0, 64, false), get(0), get(0), Act::Head { key: 0 }, put(0, 9000, true)], schedule: vec![], rounds, delay_us: 0 },
            Case { initial: vec![(1, 100, true)], acts: vec![put(1, 64, true), put(1, 20_000, false), get(1), get(1), Act::Delete { key: 1 }, Act::Head { key: 1 }], schedule: vec![], rounds, delay_us: 0 },
            Case { initial: vec![(0, 100, true), (1, 7000, false)], acts: vec![put(0, 640, true), Act::Copy { from: 0, to: 1 }, get(1), Act::Head { key: 1 }, put(1, 128, false), Act::Head { key: 0 }], schedule: vec![], rounds, delay_us: 0 },
            Case { initial: vec![(0, 100, true)], acts: vec![Act::Complete { key: 0, sizes: vec![100, 200], meta: true }, put(0, 64, false), get(0), Act::Head { key: 0 }, Act::Complete { key: 0, sizes: vec![50], meta: false }], schedule: vec![], rounds: rounds / 2, delay_us: 0 },
            // removal next to writes that all carry metadata: content and metadata go together, or not at all
            Case { initial: vec![(0, 100, true)], acts: vec![put(0, 64, true), put(0, 200, true), Act::Delete { key: 0 }, Act::Delete { key: 0 }, get(0), get(0)], schedule: vec![], rounds: rounds * 4, delay_us: 0 },
            Case { initial: vec![(0, 100, true)], acts: vec![put(0, 64, true), put(0, 200, true), put(0, 7, true), Act::MultiDelete { keys: vec![0, 1] }, Act::MultiDelete { keys: vec![0] }, get(0)], schedule: vec![], rounds: rounds * 4, delay_us: 0 },
        ];
        // the same once more with wider windows between the file-system calls
        let slow: Vec<Case> = v.iter().map(|c| Case { rounds: c.rounds.min(400) / 3, delay_us: 150, ..c.clone() }).collect();
        v.extend(slow);
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("c{}", cx.case_no));
        let res = go(c, &top.join("root"), cx);
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, root: &Path, cx: &mut Cx) -> PResult {
    std::fs::create_dir_all(root).map_err(|e| Fail::Harness(e.to_string()))?;
    let svc = services(root)?.1;
    // forms need the credentials, everything else is sent unsigned to a service without
    let form = c.acts.iter().any(|a| matches!(a, Act::Form { .. }));
    let open = services(root)?.0;
    let svc = if form && c.acts.iter().all(|a| matches!(a, Act::Form { .. })) { svc } else { open };
    let mut acts = c.acts.clone();
    for a in &mut acts {
        // on the open service a form is a put
        if let Act::Form { key, size, meta, frags } = a.clone() {
            if c.acts.iter().any(|a| !matches!(a, Act::Form { .. })) {
                *a = Act::Put { key, size, meta, frags };
            }
        }
    }
    let s = Arc::new(Shared {
        vals: Mutex::default(),
        next: AtomicU32::new(0),
        copies: acts.iter().any(|a| matches!(a, Act::Copy { .. })),
        deletes: acts.iter().any(|a| matches!(a, Act::Delete { .. } | Act::MultiDelete { .. })),
        reads: AtomicU32::new(0),
        overlapped: AtomicU32::new(0),
    });
    let plain = services(root)?.0;
    if !send(&plain, &ReqSpec::new("PUT", "/bkt"))?.ok() {
        cx.label("setup failed");
        return Ok(());
    }
    let mut initial: BTreeMap<&str, Val> = BTreeMap::new();
    for (k, size, meta) in &c.initial {
        let v = s.fresh(kname(*k), *size, *meta, "initial put");
        if !send(&plain, &put_request(How::Plain, "bkt", kname(*k), &v.content, &v.meta, &Frag::whole()))?.ok() {
            cx.label("setup failed");
            return Ok(());
        }
        initial.insert(kname(*k), v);
    }
    drop(plain);
    let done: Vec<(Act, u16)> = if c.rounds > 0 { threads(c, &acts, &svc, &s, root)? } else { stepped(c, &acts, &svc, &s, cx)? };

    // afterwards: the content of one of the writes, if any succeeded and none deleted
    for k in KEYS {
        for head in [false, true] {
            let r = send(&*svc_plain(root)?, &ReqSpec::new(if head { "HEAD" } else { "GET" }, &object_target("bkt", k)))?;
            if let Err(Fail::Violation { sig, msg }) = s.judge_read(k, &r, head) {
                return viol(format!("final-{sig}"), format!("after all requests have ended: {msg}"));
            }
            let written = done.iter().any(|(a, st)| (200..300).contains(st) && matches!(a, Act::Put { key, .. } | Act::Form { key, .. } | Act::Complete { key, .. } if kname(*key) == *k)) || initial.contains_key(k);
            if !r.ok() && written && !s.deletes {
                return viol("final-lost", format!("after all requests have ended, {k} was written and never deleted: {}", r.show()));
            }
            // a key that was written by several must not show the initial object once a write has succeeded
            if !head && r.ok() && !s.copies && done.iter().any(|(a, st)| (200..300).contains(st) && writes(a) && matches!(a, Act::Put { key, .. } | Act::Form { key, .. } | Act::Complete { key, .. } if kname(*key) == *k)) {
                if let Some(v) = initial.get(k) {
                    if *v.content == r.body && !v.content.is_empty() {
                        return viol("final-stale", format!("after a successful write, {k} still is the object from before: {}", r.show()));
                    }
                }
            }
        }
    }
    let r = send(&*svc_plain(root)?, &ReqSpec::new("GET", "/bkt"))?;
    s.judge_list(&r)?;
    let reads = s.reads.load(Ordering::Relaxed);
    if c.rounds > 0 && reads >= 10 || s.overlapped.load(Ordering::Relaxed) > 0 {
        cx.nontrivial();
    }
    cx.label(if c.rounds > 0 { "threads" } else { "stepped" });
    Ok(())
}

fn svc_plain(root: &Path) -> Result<Arc<S3Service>, Fail> {
    Ok(services(root)?.0)
}

fn threads(c: &Case, acts: &[Act], svc: &Arc<S3Service>, s: &Arc<Shared>, root: &Path) -> Result<Vec<(Act, u16)>, Fail> {
    let _slow = (c.delay_us > 0).then(|| inject::arm(root, inject::Plan { delay_us: c.delay_us, ..Default::default() }, u64::from(c.rounds) * 7919));
    let barrier = Arc::new(Barrier::new(acts.len()));
    let fail: Arc<Mutex<Option<Fail>>> = Arc::default();
    let done: Arc<Mutex<Vec<(Act, u16)>>> = Arc::default();
    std::thread::scope(|sc| {
        for a in acts {
            let (barrier, fail, done) = (Arc::clone(&barrier), Arc::clone(&fail), Arc::clone(&done));
            sc.spawn(move || {
                barrier.wait();
                for _ in 0..c.rounds {
                    if fail.lock().unwrap().is_some() {
                        return;
                    }
                    let r = guarded(|| {
                        let Some(j) = job(s, svc, a)? else { return Ok(()) };
                        let mut q = j.req.clone();
                        if j.frags.len() > 1 {
                            q.frag = Frag { sizes: j.frags.iter().map(|f| f.len() as u32).collect(), pend: true };
                        }
                        let r = send(svc, &q)?;
                        if writes(a) {
                            done.lock().unwrap().push((a.clone(), r.status));
                        }
                        judge(s, a, &r)
                    });
                    if let Err(e) = r {
                        fail.lock().unwrap().get_or_insert(e);
                        return;
                    }
                }
            });
        }
    });
    if let Some(f) = fail.lock().unwrap().take() {
        return Err(f);
    }
    let d = done.lock().unwrap().clone();
    Ok(d)
}

fn stepped(c: &Case, acts: &[Act], svc: &Arc<S3Service>, s: &Arc<Shared>, cx: &mut Cx) -> Result<Vec<(Act, u16)>, Fail> {
    struct Actor<'a> {
        job: Job,
        body: GateBody,
        next: usize,
        read: GateBody,
        st: Option<Stepper<'a, Result<Resp, String>>>,
        out: Option<Resp>,
        trace: Vec<String>,
    }
    let svc: &S3Service = svc;
    let mut actors = vec![];
    for a in acts {
        if let Some(job) = job(s, svc, a)? {
            actors.push(Actor { job, body: GateBody::default(), next: 0, read: GateBody::default(), st: None, out: None, trace: vec![] });
        }
    }
    if actors.is_empty() {
        return Ok(vec![]);
    }
    let mut order = vec![];
    let stuck = |a: &Act| Fail::Violation { sig: "stuck".into(), msg: format!("{a:?} makes no progress although its body does not wait") };
    let end = actors.len();
    // the schedule, and then everybody to the end
    let rest = (0..end).map(|i| (i as u8, true, true));
    let steps: Vec<(u8, bool, bool)> = c.schedule.iter().map(|(i, r)| (*i, *r, false)).chain(rest).collect();
    for (i, run, finish) in steps {
        let i = usize::from(i) % end;
        let busy: Vec<(usize, bool, String)> = actors.iter().enumerate().filter(|(j, b)| *j != i && b.st.is_some()).map(|(j, b)| (j, writes(&b.job.act), b.job.req.target.clone())).collect();
        let a = &mut actors[i];
        if a.out.is_some() {
            continue;
        }
        if a.st.is_none() {
            let req = a.job.req.build_with(a.body.body()).map_err(Fail::Harness)?;
            a.st = Some(Stepper::new(stepwise(svc, req, a.read.clone())));
            order.push(format!("start {:?}", a.job.act));
        }
        let path = |t: &str| t.split('?').next().unwrap_or("").to_owned();
        if busy.iter().any(|(_, w, t)| (*w || writes(&a.job.act)) && path(t) == path(&a.job.req.target)) {
            s.overlapped.fetch_add(1, Ordering::Relaxed);
        }
        // hand over one more fragment, or leave to read one more piece
        let give = |a: &mut Actor<'_>| {
            if a.next < a.job.frags.len() {
                a.body.push(Item::Data(a.job.frags[a.next].clone()));
                a.next += 1;
                if a.next == a.job.frags.len() {
                    a.body.close();
                }
            } else {
                a.read.push(Item::Data(vec![]));
            }
        };
        give(a);
        if finish {
            while a.next < a.job.frags.len() {
                give(a);
            }
            a.read.close();
        }
        let mut quiet = 0;
        loop {
            let st = a.st.as_mut().unwrap();
            if let Some(r) = st.poll_if_woken() {
                let r = r.or_else(|e| viol("service-error", e))?;
                order.push(format!("end {:?} -> {}", a.job.act, r.status));
                a.trace.push(String::new());
                a.st = None;
                a.out = Some(r);
                break;
            }
            if !run && !finish {
                // one step; what it waits for happens meanwhile
                let _ = st.wait_woken(Duration::from_millis(5));
                break;
            }
            if (a.body.starving() || a.read.starving()) && !st.woken() {
                break;
            }
            if !st.wait_woken(Duration::from_millis(500)) {
                quiet += 1;
                if quiet > 60 {
                    return Err(stuck(&a.job.act));
                }
            }
        }
        order.push(format!("step {i}"));
        if let Some(r) = &a.out {
            if let Err(Fail::Violation { sig, msg }) = judge(s, &a.job.act, r) {
                return viol(sig, format!("{msg}\norder: {}", order.join("; ")));
            }
        }
    }
    for a in &actors {
        cx.label(format!("{:?}", a.job.act).split([' ', '{']).next().unwrap_or("").to_owned());
    }
    Ok(actors.iter().filter_map(|a| a.out.as_ref().map(|r| (a.job.act.clone(), r.status))).filter(|(a, _)| writes(a)).collect())
}
