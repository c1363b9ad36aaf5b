//! C36: overlapping requests on the file-system storage. Threads run generated scripts, file-system calls are held up
//! at random; every request is recorded with its start, its end and its answer. Then for each key (and for the
//! bucket) an order is searched in which each request takes effect at one moment between its start and its end
//! (linearizability, after Wing and Gong). Values are unique in content and in length.

use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

use crate::engine::*;
use crate::exec::{block_on, Stepper};
use crate::fsmodel::*;
use crate::http::*;
use crate::inject;
use crate::sigv4::md5_hex;
use crate::xmlmini;
use proptest::prelude::*;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Put { key: u8, size: u16, meta: bool, frags: u8 },
    Copy { from: u8, to: u8 },
    /// the parts are sent at the same time; `twice`: the first part is sent twice, with different content
    Upload { key: u8, sizes: Vec<u16>, meta: bool, twice: bool },
    /// a put whose client goes away after so many steps of the service
    Abandon { key: u8, size: u16, meta: bool, polls: u8 },
    /// a put whose body fails after so many per mille
    Broken { key: u8, size: u16, at: u16 },
    Delete { key: u8 },
    MultiDelete { keys: Vec<u8> },
    Get { key: u8 },
    Head { key: u8 },
    List { v2: bool },
    CreateBucket,
    DeleteBucket,
    HeadBucket,
    ListBuckets,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub initial: Vec<(u8, u16, bool)>,
    /// what each of the threads does
    pub threads: Vec<Vec<Act>>,
    pub delay_us: u32,
    pub seed: u64,
    /// the same again in a fresh storage, so many times
    pub rounds: u8,
}

pub struct C36;

const KEYS: &[&str] = &["k", "dir/k", "dir/sub/k", "dir/l", "e/k", "w/k", "dir/", "w/"];
/// so many of them name objects with content, the others directories
const FILES: u8 = 6;

fn kname(k: u8) -> &'static str {
    KEYS[usize::from(k) % KEYS.len()]
}

#[derive(Clone, Debug)]
struct Val {
    content: Vec<u8>,
    md5: String,
    meta: Meta,
}

/// what a request says about, or does to, one register (a key, or the bucket)
#[derive(Clone, Debug, PartialEq, Eq)]
enum K {
    /// one of these values is written
    Write(Vec<u32>),
    Del,
    /// it has one of these values
    Is(Vec<u32>),
    Missing,
    /// for buckets: must have been missing, exists from now on
    Make,
    Unmake,
    Exists,
}

#[derive(Clone, Debug)]
struct Op {
    reg: &'static str,
    from: u64,
    to: u64,
    k: K,
    what: String,
    /// it may have had its effect, or not
    maybe: bool,
}

const BUCKET: &str = "(the bucket)";

/// can the operations have taken effect one after another, each between its start and its end?
fn in_order(start: Option<u32>, ops: &[&Op]) -> bool {
    fn go(done: u64, state: Option<u32>, ops: &[&Op], seen: &mut HashSet<(u64, Option<u32>)>) -> bool {
        if ops.iter().enumerate().all(|(i, o)| o.maybe || done & (1 << i) != 0) {
            return true;
        }
        if !seen.insert((done, state)) {
            return false;
        }
        let first_end = ops.iter().enumerate().filter(|(i, o)| done & (1 << i) == 0 && !o.maybe).map(|(_, o)| o.to).min().unwrap_or(0);
        for (i, o) in ops.iter().enumerate() {
            if done & (1 << i) != 0 || o.from > first_end {
                continue;
            }
            let next: Vec<Option<u32>> = match &o.k {
                K::Write(v) => v.iter().map(|x| Some(*x)).collect(),
                K::Del => vec![None],
                K::Is(x) if state.is_some_and(|s| x.contains(&s)) => vec![state],
                K::Missing if state.is_none() => vec![state],
                K::Make if state.is_none() => vec![Some(0)],
                K::Unmake if state.is_some() => vec![None],
                K::Exists if state.is_some() => vec![state],
                _ => vec![],
            };
            if next.into_iter().any(|s| go(done | 1 << i, s, ops, seen)) {
                return true;
            }
        }
        false
    }
    go(0, start, ops, &mut HashSet::new())
}

struct Rec<'a> {
    svc: &'a S3Service,
    clock: AtomicU64,
    next: AtomicU32,
    vals: Mutex<BTreeMap<u32, Val>>,
    ops: Mutex<Vec<Op>>,
    /// listings: start, end, key -> how often it was shown
    lists: Mutex<Vec<(u64, u64, Vec<&'static str>, String)>>,
    /// the case deletes the bucket
    void: bool,
}

impl Rec<'_> {
    fn fresh(&self, size: usize, meta: bool) -> u32 {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let content = Content::Gen { len: (size as u32 / 64) * 64 + id % 64 + 1, seed: id + 1 }.bytes();
        self.add(id, content, meta);
        id
    }
    /// what is put under this key
    fn value_for(&self, key: &str, size: u16, meta: bool) -> u32 {
        if key.ends_with('/') {
            let id = self.next.fetch_add(1, Ordering::SeqCst);
            self.add(id, vec![], true);
            return id;
        }
        self.fresh(usize::from(size), meta)
    }
    fn add(&self, id: u32, content: Vec<u8>, meta: bool) {
        let meta: Meta = if meta { [("id".to_owned(), format!("m{id}"))].into_iter().collect() } else { Meta::new() };
        self.vals.lock().unwrap().insert(id, Val { md5: md5_hex(&content), content, meta });
    }
    fn val(&self, id: u32) -> Val {
        self.vals.lock().unwrap()[&id].clone()
    }
    fn find(&self, f: impl Fn(&Val) -> bool) -> Vec<u32> {
        self.vals.lock().unwrap().iter().filter(|(_, v)| f(v)).map(|(i, _)| *i).collect()
    }
    fn send(&self, q: &ReqSpec) -> Result<(u64, u64, Resp), Fail> {
        let h = q.build().map_err(Fail::Harness)?;
        let from = self.clock.fetch_add(1, Ordering::SeqCst);
        let r = block_on(call(self.svc, h)).or_else(|e| viol("service-error", e))?;
        let to = self.clock.fetch_add(1, Ordering::SeqCst);
        if r.status >= 500 {
            return viol("internal-error", format!("{} {} failed because of what other requests did at the same time: {}", q.method, q.target, r.show()));
        }
        Ok((from, to, r))
    }
    fn op(&self, reg: &'static str, from: u64, to: u64, k: K, what: impl Into<String>) {
        self.ops.lock().unwrap().push(Op { reg, from, to, k, what: what.into(), maybe: false });
    }
    /// a request that needs the bucket was refused
    fn refused(&self, from: u64, to: u64, r: &Resp, what: String) -> PResult {
        let code = r.error_code().unwrap_or_default();
        if self.void && ["NoSuchBucket", "NoSuchUpload"].contains(&code.as_str()) {
            if code == "NoSuchBucket" {
                self.op(BUCKET, from, to, K::Missing, what);
            }
            return Ok(());
        }
        viol("refused", format!("{what} was refused: {}", r.show()))
    }
    fn wrote(&self, key: &'static str, from: u64, to: u64, r: &Resp, ids: Vec<u32>, what: String) -> PResult {
        if !r.ok() {
            return self.refused(from, to, r, what);
        }
        self.op(BUCKET, from, to, K::Exists, what.clone());
        self.op(key, from, to, K::Write(ids), what);
        Ok(())
    }
    fn act(&self, a: &Act) -> PResult {
        match a {
            Act::Put { key, size, meta, frags } => {
                let id = self.value_for(kname(*key), *size, *meta);
                let v = self.val(id);
                let frag = Frag { sizes: vec![(v.content.len() / usize::from(*frags).max(1) + 1) as u32], pend: *frags > 1 };
                let (from, to, r) = self.send(&put_request(How::Plain, "bkt", kname(*key), &v.content, &v.meta, &frag))?;
                self.wrote(kname(*key), from, to, &r, vec![id], format!("put of v{id}"))
            }
            Act::Abandon { key, size, meta, polls } => {
                let id = self.fresh(usize::from(*size), *meta);
                let v = self.val(id);
                let frag = Frag { sizes: vec![(v.content.len() / 3) as u32 + 1], pend: true };
                let h = put_request(How::Plain, "bkt", kname(*key), &v.content, &v.meta, &frag).build().map_err(Fail::Harness)?;
                let from = self.clock.fetch_add(1, Ordering::SeqCst);
                let mut st = Stepper::new(call(self.svc, h));
                let mut out = None;
                for _ in 0..*polls {
                    if !st.wait_woken(Duration::from_secs(60)) {
                        return viol("stuck", "an upload makes no progress");
                    }
                    out = st.poll_if_woken();
                    if out.is_some() {
                        break;
                    }
                }
                drop(st);
                let to = self.clock.fetch_add(1, Ordering::SeqCst);
                match out {
                    Some(Ok(r)) if r.status < 500 => self.wrote(kname(*key), from, to, &r, vec![id], format!("put of v{id}")),
                    Some(Ok(r)) => viol("internal-error", format!("a put failed because of what other requests did at the same time: {}", r.show())),
                    Some(Err(e)) => viol("service-error", e),
                    None => {
                        // it may be under way in another thread for some time
                        self.ops.lock().unwrap().push(Op { reg: kname(*key), from, to: u64::MAX, k: K::Write(vec![id]), what: format!("put of v{id}, abandoned"), maybe: true });
                        Ok(())
                    }
                }
            }
            Act::Broken { key, size, at } => {
                let id = self.fresh(usize::from(*size), true);
                let v = self.val(id);
                let mut q = put_request(How::Plain, "bkt", kname(*key), &v.content, &v.meta, &Frag { sizes: vec![64], pend: false });
                q.fail_after = Some(v.content.len() * usize::from(*at) / 1001);
                let h = q.build().map_err(Fail::Harness)?;
                let r = block_on(call(self.svc, h)).or_else(|e| viol("service-error", e))?;
                // nobody writes v, so that nobody may read it
                if r.ok() { viol("broken-accepted", format!("an upload whose body failed: {}", r.show())) } else { Ok(()) }
            }
            Act::Upload { key, sizes, meta, twice } => {
                let k = kname(*key);
                let mut parts: Vec<Vec<u8>> = sizes.iter().map(|s| self.val(self.fresh(usize::from(*s), false)).content).collect();
                if parts.is_empty() {
                    parts.push(vec![1]);
                }
                let mut id = self.next.fetch_add(1, Ordering::SeqCst);
                parts.last_mut().unwrap().extend(vec![7_u8; 64 * id as usize]);
                self.add(id, parts.concat(), *meta);
                let v = self.val(id);
                let mut ids = vec![id];
                let mut sends: Vec<(usize, Vec<u8>)> = parts.iter().cloned().enumerate().collect();
                if *twice {
                    id = self.next.fetch_add(1, Ordering::SeqCst);
                    let other = vec![9_u8; parts[0].len() + 1];
                    let mut content = other.clone();
                    content.extend(parts[1..].concat());
                    // with the metadata of the upload
                    self.vals.lock().unwrap().insert(id, Val { md5: md5_hex(&content), content, meta: v.meta.clone() });
                    ids.push(id);
                    sends.push((0, other));
                }
                let mut q = ReqSpec::new("POST", &format!("{}?uploads", object_target("bkt", k)));
                for (n, x) in &v.meta {
                    q = q.header(&format!("x-amz-meta-{n}"), x.clone());
                }
                let (from, to, r) = self.send(&q)?;
                let Some(up) = xmlmini::parse(&r.body).ok().filter(|_| r.ok()).and_then(|n| n.text_of("UploadId").map(str::to_owned)) else {
                    return self.refused(from, to, &r, "start of an upload".into());
                };
                self.op(BUCKET, from, to, K::Exists, "start of an upload");
                let fail: Mutex<Option<Fail>> = Mutex::default();
                let lost = AtomicU32::new(0);
                std::thread::scope(|sc| {
                    for (n, body) in &sends {
                        let (up, fail, lost) = (&up, &fail, &lost);
                        sc.spawn(move || {
                            let frag = Frag { sizes: vec![100, 1], pend: true };
                            let mut q = ReqSpec::new("PUT", &format!("{}?partNumber={}&uploadId={up}", object_target("bkt", k), n + 1)).body(body.clone());
                            q.frag = if body.len() < 400 { frag } else { Frag::whole() };
                            let r = guarded(|| {
                                let (from, to, r) = self.send(&q)?;
                                if !r.ok() {
                                    lost.fetch_add(1, Ordering::SeqCst);
                                    return self.refused(from, to, &r, format!("part {}", n + 1));
                                }
                                if r.get("etag").is_some_and(|e| e.trim_matches('"') != md5_hex(body)) {
                                    return viol("part-etag", format!("part {} with md5 {}: {}", n + 1, md5_hex(body), r.show()));
                                }
                                Ok(())
                            });
                            if let Err(e) = r {
                                fail.lock().unwrap().get_or_insert(e);
                            }
                        });
                    }
                });
                if let Some(f) = fail.into_inner().unwrap() {
                    return Err(f);
                }
                if lost.into_inner() > 0 {
                    return Ok(());
                }
                let nums: Vec<i32> = (1..=parts.len() as i32).collect();
                let (from, to, r) = self.send(&ReqSpec::new("POST", &format!("{}?uploadId={up}", object_target("bkt", k))).body(complete_xml(&nums, |_| None)))?;
                self.wrote(k, from, to, &r, ids.clone(), format!("completion of {ids:?}"))
            }
            Act::Copy { from: src, to: dst } => {
                let (sk, dk) = (kname(*src), kname(*dst));
                let (from, to, r) = self.send(&ReqSpec::new("PUT", &object_target("bkt", dk)).header("x-amz-copy-source", format!("bkt/{sk}")))?;
                if r.ok() {
                    let tag = xmlmini::parse(&r.body).ok().and_then(|n| n.text_of("ETag").map(|t| t.trim_matches('"').to_owned()));
                    let Some(id) = self.find(|v| Some(&v.md5) == tag.as_ref()).first().copied() else { return viol("copy-torn", format!("the copy of {sk} has an ETag that nothing written has: {}", r.show())) };
                    self.op(sk, from, to, K::Is(vec![id]), format!("copy to {dk} of v{id}"));
                    return self.wrote(dk, from, to, &r, vec![id], format!("copy from {sk} of v{id}"));
                }
                if r.error_code().as_deref() == Some("NoSuchKey") {
                    self.op(sk, from, to, K::Missing, format!("copy to {dk}: not found"));
                    return Ok(());
                }
                self.refused(from, to, &r, format!("copy {sk} to {dk}"))
            }
            Act::Delete { key } => {
                let (from, to, r) = self.send(&ReqSpec::new("DELETE", &object_target("bkt", kname(*key))))?;
                if !r.ok() {
                    return self.refused(from, to, &r, format!("delete {}", kname(*key)));
                }
                self.op(kname(*key), from, to, K::Del, "delete");
                Ok(())
            }
            Act::MultiDelete { keys } => {
                let xml = keys.iter().map(|k| format!("<Object><Key>{}</Key></Object>", kname(*k))).collect::<String>();
                let (from, to, r) = self.send(&ReqSpec::new("POST", "/bkt?delete").body(format!("<Delete>{xml}</Delete>")))?;
                if !r.ok() {
                    return self.refused(from, to, &r, "multi-delete".into());
                }
                let keys: HashSet<&str> = keys.iter().map(|k| kname(*k)).collect();
                for k in KEYS.iter().filter(|k| keys.contains(*k)) {
                    self.op(k, from, to, K::Del, "multi-delete");
                }
                Ok(())
            }
            Act::Get { key } | Act::Head { key } => {
                let head = matches!(a, Act::Head { .. });
                let k = kname(*key);
                let (from, to, r) = self.send(&ReqSpec::new(if head { "HEAD" } else { "GET" }, &object_target("bkt", k)))?;
                let what = if head { "head" } else { "get" };
                if r.status == 404 {
                    self.op(k, from, to, K::Missing, format!("{what}: not found"));
                    return Ok(());
                }
                if !r.ok() || r.body_err.is_some() {
                    return viol("read-failed", format!("{what} of {k}: {}", r.show()));
                }
                let len = r.get("content-length").unwrap_or("").to_owned();
                let m = meta_of(&r);
                let tag = r.get("etag").map(|t| t.trim_matches('"').to_owned());
                let fits = |v: &Val| v.content.len().to_string() == len && (head || v.content == r.body);
                // a copy takes the metadata along, so content and metadata belong together everywhere
                let ids = self.find(|v| fits(v) && v.meta == m && tag.as_ref().map_or(head, |t| *t == v.md5));
                if ids.is_empty() {
                    return viol("torn", format!("{what} of {k} gives {} bytes, which with this length, ETag and metadata nobody wrote: {}", r.body.len(), Resp { body: vec![], ..r.clone() }.show()));
                }
                let text = format!("{what} of v{ids:?}");
                self.op(k, from, to, K::Is(ids), text);
                self.op(BUCKET, from, to, K::Exists, what);
                Ok(())
            }
            Act::List { v2 } => {
                let (from, to, r) = self.send(&ReqSpec::new("GET", if *v2 { "/bkt?list-type=2" } else { "/bkt" }))?;
                if r.status == 404 {
                    return self.refused(from, to, &r, "list".into());
                }
                if !r.ok() {
                    return viol("refused", format!("listing: {}", r.show()));
                }
                let Ok(n) = xmlmini::parse(&r.body) else { return viol("list-xml", r.show()) };
                self.op(BUCKET, from, to, K::Exists, "list");
                let mut shown = vec![];
                for c in n.all("Contents") {
                    let (k, s) = (c.text_of("Key").unwrap_or(""), c.text_of("Size").unwrap_or(""));
                    let Some(k) = KEYS.iter().find(|x| **x == k) else { return viol("list-stray", format!("the listing shows {k:?}: {}", r.show())) };
                    let ids = self.find(|v| v.content.len().to_string() == s);
                    if ids.is_empty() {
                        return viol("list-size", format!("the listing shows {k:?} with size {s}, which nobody wrote"));
                    }
                    let what = format!("listed with the size of v{ids:?}");
                    self.op(k, from, to, K::Is(ids), what);
                    shown.push(*k);
                }
                self.lists.lock().unwrap().push((from, to, shown, r.show()));
                Ok(())
            }
            Act::CreateBucket => {
                let (from, to, r) = self.send(&ReqSpec::new("PUT", "/bkt"))?;
                match r.status {
                    200 => self.op(BUCKET, from, to, K::Make, "create"),
                    409 => self.op(BUCKET, from, to, K::Exists, "create: exists"),
                    _ => return viol("refused", format!("create bucket: {}", r.show())),
                }
                Ok(())
            }
            Act::DeleteBucket => {
                let (from, to, r) = self.send(&ReqSpec::new("DELETE", "/bkt"))?;
                if r.ok() {
                    self.op(BUCKET, from, to, K::Unmake, "delete bucket");
                    for k in KEYS {
                        self.op(k, from, to, K::Del, "delete bucket");
                    }
                    return Ok(());
                }
                if r.status == 404 {
                    self.op(BUCKET, from, to, K::Missing, "delete bucket: not found");
                    return Ok(());
                }
                // a bucket with objects may be refused
                if r.status == 409 { Ok(()) } else { viol("refused", format!("delete bucket: {}", r.show())) }
            }
            Act::HeadBucket => {
                let (from, to, r) = self.send(&ReqSpec::new("HEAD", "/bkt"))?;
                match r.status {
                    200 => self.op(BUCKET, from, to, K::Exists, "head bucket"),
                    404 => self.op(BUCKET, from, to, K::Missing, "head bucket: not found"),
                    _ => return viol("refused", format!("head bucket: {}", r.show())),
                }
                Ok(())
            }
            Act::ListBuckets => {
                let (from, to, r) = self.send(&ReqSpec::new("GET", "/"))?;
                if !r.ok() {
                    return viol("refused", format!("list buckets: {}", r.show()));
                }
                let Ok(n) = xmlmini::parse(&r.body) else { return viol("list-xml", r.show()) };
                let names: Vec<String> = n.child("Buckets").map(|b| b.all("Bucket").filter_map(|b| b.text_of("Name").map(str::to_owned)).collect()).unwrap_or_default();
                if names.iter().any(|n| n != "bkt" && n != "other") || !names.iter().any(|n| n == "other") {
                    return viol("buckets", format!("there are bkt (perhaps) and other: {}", r.show()));
                }
                if names.iter().any(|n| n == "bkt") {
                    self.op(BUCKET, from, to, K::Exists, "list buckets");
                } else {
                    self.op(BUCKET, from, to, K::Missing, "list buckets: not shown");
                }
                Ok(())
            }
        }
    }
}

impl Prop for C36 {
    type Case = Case;
    const ID: &'static str = "C36";
    const RULE: &'static str = "two requests overlapped in time of which one changed what the other reads or changes";
    const SHRINK_ITERS: u32 = 400;
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let size = || prop_oneof![4 => 0_u16..300, 1 => 3000_u16..20_000];
        let k = || prop_oneof![4 => Just(0_u8), 4 => Just(1_u8), 1 => Just(2_u8), 1 => 3_u8..6];
        let kd = move || prop_oneof![5 => k(), 1 => FILES..KEYS.len() as u8];
        let act = move |w: [u32; 5]| {
            let [put, del, copy, read, bucket] = w;
            let all: Vec<(u32, BoxedStrategy<Act>)> = vec![
                (put * 3, (kd(), size(), any::<bool>(), 1_u8..4).prop_map(|(key, size, meta, frags)| Act::Put { key, size, meta, frags }).boxed()),
                (put, (k(), size(), any::<bool>(), 1_u8..14).prop_map(|(key, size, meta, polls)| Act::Abandon { key, size, meta, polls }).boxed()),
                (put, (k(), size(), 0_u16..1000).prop_map(|(key, size, at)| Act::Broken { key, size, at }).boxed()),
                (put, (k(), prop::collection::vec(size(), 1..4), any::<bool>(), prop::bool::weighted(0.3)).prop_map(|(key, sizes, meta, twice)| Act::Upload { key, sizes, meta, twice }).boxed()),
                (copy * 2, (k(), k()).prop_map(|(from, to)| Act::Copy { from, to: if from == to { (to + 1) % FILES } else { to } }).boxed()),
                (del * 2, kd().prop_map(|key| Act::Delete { key }).boxed()),
                (del, prop::collection::vec(kd(), 1..4).prop_map(|keys| Act::MultiDelete { keys }).boxed()),
                (read * 3, kd().prop_map(|key| Act::Get { key }).boxed()),
                (read * 2, kd().prop_map(|key| Act::Head { key }).boxed()),
                (read * 2, any::<bool>().prop_map(|v2| Act::List { v2 }).boxed()),
                (bucket, Just(Act::CreateBucket).boxed()),
                (bucket, Just(Act::DeleteBucket).boxed()),
                (bucket, Just(Act::HeadBucket).boxed()),
                (bucket, Just(Act::ListBuckets).boxed()),
            ];
            proptest::strategy::Union::new_weighted(all.into_iter().filter(|(w, _)| *w > 0).collect())
        };
        let weights = prop_oneof![3 => Just([2_u32, 2, 0, 2, 0]), 2 => Just([2, 0, 1, 2, 0]), 2 => Just([2, 1, 1, 2, 0]), 2 => Just([2, 0, 0, 3, 0]), 2 => Just([1, 1, 0, 1, 3])];
        let max = if t == Tier::Thorough { 6 } else { 5 };
        let threads = weights.prop_flat_map(move |w| prop::collection::vec(prop::collection::vec(act(w), 1..max), 2..5));
        let initial = prop::collection::vec((kd(), size(), any::<bool>()), 0..3);
        let delay = prop_oneof![1 => Just(0_u32), 2 => Just(30_u32), 2 => Just(150_u32), 1 => Just(600_u32)];
        (initial, threads, delay, any::<u64>()).prop_map(|(initial, threads, delay_us, seed)| Case { initial, threads, delay_us, seed, rounds: 1 }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 120_000 } else { 10_000 }
    }
    fn directed(&self, t: Tier) -> Vec<Case> {
        let rounds = if t == Tier::Thorough { 200 } else { 30 };
        let put = |key, size| Act::Put { key, size, meta: true, frags: 1 };
        let get = |key| Act::Get { key };
        let list = |v2| Act::List { v2 };
        let del = |key| Act::Delete { key };
        let scripts: Vec<Vec<Vec<Act>>> = vec![
            // an object that is replaced all the time is never missing
            vec![vec![put(0, 100), put(0, 200), put(0, 300)], vec![get(0), Act::Head { key: 0 }, get(0), list(true)], vec![get(0), list(false), get(0)]],
            // listings of directories that come and go, next to an object that stays
            vec![vec![put(1, 1), del(1), put(2, 1), del(2)], vec![del(2), put(1, 5), del(1)], vec![list(true), list(true)], vec![list(false), list(false)]],
            vec![vec![put(2, 1), del(2), put(2, 1), del(2)], vec![list(true), list(true), list(true)], vec![list(false), list(false), list(false)]],
            vec![vec![del(4), put(4, 1), del(4)], vec![del(5), put(5, 1), del(5)], vec![list(true), list(true)], vec![list(false), list(false)]],
            // buckets that come and go
            vec![vec![Act::CreateBucket, Act::DeleteBucket], vec![Act::CreateBucket, put(1, 9), Act::HeadBucket], vec![Act::ListBuckets, list(true), Act::CreateBucket], vec![Act::DeleteBucket, list(false), Act::ListBuckets]],
            vec![vec![Act::CreateBucket, put(7, 0)], vec![Act::DeleteBucket, Act::HeadBucket, Act::CreateBucket, Act::DeleteBucket, Act::HeadBucket], vec![put(6, 0), del(6), put(6, 0)], vec![list(false), Act::ListBuckets, get(6)]],
            // objects that are directories of others
            vec![vec![put(6, 0), del(6), put(6, 0)], vec![put(1, 5), del(1), put(2, 5), del(2)], vec![get(6), list(true), Act::Head { key: 6 }], vec![list(false), get(1)]],
            vec![vec![put(7, 0), del(7)], vec![put(7, 0), get(7)], vec![put(5, 0), del(5), get(7)], vec![list(false), list(true), del(7)]],
            // parts at the same time
            vec![vec![Act::Upload { key: 0, sizes: vec![300, 200, 100], meta: true, twice: true }], vec![Act::Upload { key: 0, sizes: vec![20, 200], meta: false, twice: false }], vec![get(0), get(0)]],
            // copies of an object that is replaced
            vec![vec![put(0, 10), put(0, 20_000)], vec![Act::Copy { from: 0, to: 1 }, get(1)], vec![Act::Copy { from: 0, to: 1 }, del(1), get(1)]],
        ];
        let mut v = vec![];
        for threads in scripts {
            for delay_us in [0, 50, 300] {
                v.push(Case { initial: vec![(4, 7, true), (0, 64, true), (3, 640, false), (5, 8, true)], threads: threads.clone(), delay_us, seed: 7, rounds });
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("c{}", cx.case_no));
        let mut res = Ok(());
        for round in 0..c.rounds.max(1) {
            res = go(c, u64::from(round), &top.join(format!("r{round}")), cx);
            if res.is_err() {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, round: u64, root: &Path, cx: &mut Cx) -> PResult {
    std::fs::create_dir_all(root).map_err(|e| Fail::Harness(e.to_string()))?;
    let svc = services(root)?.0;
    let void = c.threads.iter().flatten().any(|a| matches!(a, Act::DeleteBucket));
    let rec = Rec { svc: &svc, clock: AtomicU64::new(0), next: AtomicU32::new(0), vals: Mutex::default(), ops: Mutex::default(), lists: Mutex::default(), void };
    for b in ["/bkt", "/other"] {
        if !rec.send(&ReqSpec::new("PUT", b))?.2.ok() {
            cx.label("setup failed");
            return Ok(());
        }
    }
    let mut start: BTreeMap<&str, u32> = BTreeMap::new();
    for (k, size, meta) in &c.initial {
        let id = rec.value_for(kname(*k), *size, *meta);
        let v = rec.val(id);
        if !rec.send(&put_request(How::Plain, "bkt", kname(*k), &v.content, &v.meta, &Frag::whole()))?.2.ok() {
            cx.label("setup failed");
            return Ok(());
        }
        start.insert(kname(*k), id);
    }
    start.insert(BUCKET, 0);
    let slow = (c.delay_us > 0).then(|| inject::arm(root, inject::Plan { delay_us: c.delay_us, ..Default::default() }, c.seed.wrapping_add(round)));
    let barrier = Barrier::new(c.threads.len());
    let fail: Mutex<Option<Fail>> = Mutex::default();
    std::thread::scope(|sc| {
        for script in &c.threads {
            let (rec, barrier, fail) = (&rec, &barrier, &fail);
            sc.spawn(move || {
                barrier.wait();
                for a in script {
                    if let Err(e) = guarded(|| rec.act(a)) {
                        fail.lock().unwrap().get_or_insert(e);
                        return;
                    }
                }
            });
        }
    });
    drop(slow);
    if let Some(f) = fail.into_inner().unwrap() {
        return Err(f);
    }
    // what is there in the end
    for k in 0..KEYS.len() as u8 {
        rec.act(&Act::Get { key: k })?;
        rec.act(&Act::Head { key: k })?;
    }
    rec.act(&Act::HeadBucket)?;
    rec.act(&Act::ListBuckets)?;
    rec.act(&Act::List { v2: true })?;
    rec.act(&Act::List { v2: false })?;

    let mut ops = rec.ops.into_inner().unwrap();
    // listings: what nobody touched meanwhile is there exactly once, or not at all
    for (from, to, shown, text) in rec.lists.into_inner().unwrap() {
        for k in KEYS {
            let n = shown.iter().filter(|x| *x == k).count();
            let touched = ops.iter().any(|o| o.reg == *k && o.from < to && o.to > from && matches!(o.k, K::Write(_) | K::Del));
            if touched {
                continue;
            }
            if n > 1 {
                return viol("listed-twice", format!("{k} is listed {n} times, although nothing changed it meanwhile: {text}"));
            }
            if n == 0 {
                ops.push(Op { reg: k, from, to, k: K::Missing, what: "not listed".into(), maybe: false });
            }
        }
    }
    for reg in KEYS.iter().copied().chain([BUCKET]) {
        let mut mine: Vec<&Op> = ops.iter().filter(|o| o.reg == reg).collect();
        mine.sort_by_key(|o| o.from);
        let changes = |o: &Op| matches!(o.k, K::Write(_) | K::Del | K::Make | K::Unmake);
        if mine.iter().enumerate().any(|(i, a)| mine[i + 1..].iter().any(|b| b.from < a.to && (changes(a) || changes(b)))) {
            cx.nontrivial();
        }
        if mine.len() > 64 {
            cx.label("too long");
            continue;
        }
        if !in_order(start.get(reg).copied(), &mine) {
            let text = mine.iter().map(|o| format!("  {:>4} to {:>4}: {}", o.from, o.to, o.what)).collect::<Vec<_>>().join("\n");
            return viol(
                if reg == BUCKET { "bucket-order" } else { "key-order" },
                format!("there is no order of these requests, each at one moment between its start and its end, that explains the answers; {reg} was {} at first\n{text}", start.get(reg).map_or("missing".into(), |v| format!("v{v}"))),
            );
        }
    }
    for a in c.threads.iter().flatten() {
        cx.label(format!("{a:?}").split([' ', '{']).next().unwrap_or("").to_owned());
    }
    Ok(())
}
