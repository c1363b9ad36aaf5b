//! C34: file-system calls that fail, or transfer less than asked for, while one operation runs. Two storages get the
//! same history; on one of them (the twin) nothing fails, which gives the answer and the state to expect, and the
//! number of calls among which the failing one is chosen.

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::Ordering;
use std::sync::{Arc, OnceLock};

use crate::engine::*;
use crate::exec::block_on;
use crate::fsmodel::*;
use crate::http::*;
use crate::inject::{self, arm, Plan};
use crate::sigv4::md5_hex;
use crate::xmlmini;
use proptest::prelude::*;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    CreateBucket(u8),
    DeleteBucket(u8),
    Put { b: u8, k: u8, how: How, size: u32, meta: bool },
    /// a folder object
    Marker { b: u8 },
    Copy { sb: u8, sk: u8, b: u8, k: u8 },
    Delete { b: u8, k: u8 },
    MultiDelete { b: u8, ks: Vec<u8> },
    Initiate { b: u8, k: u8, meta: bool },
    Part { u: u8, n: u8, how: How, size: u32 },
    Complete { u: u8 },
    Get { b: u8, k: u8, range: Option<(u32, u32)> },
    Head { b: u8, k: u8 },
    List { b: u8, v2: bool },
    ListBuckets,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// kinds of calls it concerns
    pub kinds: u32,
    /// the call that fails, as a share of those that are made
    pub at: u16,
    /// and all after it
    pub lasting: bool,
    pub errno: i32,
    /// instead: no failure, but reads and writes of at most so many bytes
    pub short: Option<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Vec<Op>,
    pub op: Op,
    pub fault: Fault,
}

pub struct C34;

pub(super) const BUCKETS: &[&str] = &["bkt", "other-bucket"];
const KEYS: &[&str] = &["k", "d/k", "d/e/k2", "x y/é+&.txt"];
const MARKER: &str = "folder/";

pub(super) fn bucket(b: u8) -> &'static str {
    BUCKETS[usize::from(b) % 2]
}
pub(super) fn key(k: u8) -> &'static str {
    KEYS[usize::from(k) % KEYS.len()]
}

pub(super) struct Side {
    pub svc: Arc<S3Service>,
    pub auth: Arc<S3Service>,
    /// id, bucket, key, parts, completed
    pub uploads: Vec<(String, &'static str, &'static str, BTreeMap<u8, Vec<u8>>, bool)>,
}

/// (bucket, key) -> md5 and metadata; (bucket, "") for the bucket itself
type Snap = BTreeMap<(String, String), (String, Meta)>;

/// what matters of an answer
type Answer = (u16, BTreeMap<String, String>, String);

impl Side {
    pub fn new(root: &Path) -> Result<Side, Fail> {
        std::fs::create_dir_all(root).map_err(|e| Fail::Harness(e.to_string()))?;
        let (svc, auth) = services(root)?;
        Ok(Side { svc, auth, uploads: vec![] })
    }
    pub fn send(&self, q: &ReqSpec) -> Result<Resp, Fail> {
        let signed = q.get("authorization").is_some() || q.method == "POST" && q.get("content-type").map_or(false, |t| t.starts_with("multipart/form-data"));
        let h = q.build().map_err(Fail::Harness)?;
        block_on(call(if signed { &self.auth } else { &self.svc }, h)).or_else(|e| viol("service-error", e))
    }
    /// None: the operation makes no sense here
    pub fn request(&self, op: &Op, salt: u32) -> Option<ReqSpec> {
        let content = |size: u32| Content::Gen { len: size, seed: salt }.bytes();
        let metadata = |on: bool| -> Meta { if on { [("id".to_owned(), format!("v{salt}")), (format!("n{}", salt % 3), "x".to_owned())].into_iter().collect() } else { Meta::new() } };
        let upload = |u: u8| if self.uploads.is_empty() { None } else { self.uploads.get(usize::from(u) % self.uploads.len()) };
        Some(match op {
            Op::CreateBucket(b) => ReqSpec::new("PUT", &format!("/{}", bucket(*b))),
            Op::DeleteBucket(b) => ReqSpec::new("DELETE", &format!("/{}", bucket(*b))),
            Op::Put { b, k, how, size, meta } => put_request(*how, bucket(*b), key(*k), &content(*size), &metadata(*meta), &Frag { sizes: vec![(*size / 3).max(1)], pend: false }),
            Op::Marker { b } => put_request(How::Plain, bucket(*b), MARKER, b"", &Meta::new(), &Frag::whole()),
            Op::Copy { sb, sk, b, k } => ReqSpec::new("PUT", &object_target(bucket(*b), key(*k))).header("x-amz-copy-source", format!("{}/{}", bucket(*sb), uri_encode(key(*sk).as_bytes(), false))),
            Op::Delete { b, k } => ReqSpec::new("DELETE", &object_target(bucket(*b), key(*k))),
            Op::MultiDelete { b, ks } => {
                let list: String = ks.iter().map(|k| format!("<Object><Key>{}</Key></Object>", xmlmini::escape_text(key(*k)))).collect();
                ReqSpec::new("POST", &format!("/{}?delete", bucket(*b))).body(format!("<Delete>{list}</Delete>"))
            }
            Op::Initiate { b, k, meta } => {
                let mut q = ReqSpec::new("POST", &format!("{}?uploads", object_target(bucket(*b), key(*k))));
                for (n, v) in metadata(*meta) {
                    q = q.header(&format!("x-amz-meta-{n}"), v);
                }
                q
            }
            Op::Part { u, n, how, size } => {
                let (id, b, k, _, _) = upload(*u)?;
                let how = if *how == How::Form { How::Plain } else { *how };
                upload_request(how, &format!("{}?partNumber={}&uploadId={id}", object_target(b, k), n % 5 + 1), b, k, &content(*size), &Meta::new(), &Frag::whole())
            }
            Op::Complete { u } => {
                let (id, b, k, parts, _) = upload(*u)?;
                let nums: Vec<i32> = parts.keys().map(|n| i32::from(*n)).collect();
                ReqSpec::new("POST", &format!("{}?uploadId={id}", object_target(b, k))).body(complete_xml(&nums, |_| None))
            }
            Op::Get { b, k, range } => {
                let q = ReqSpec::new("GET", &object_target(bucket(*b), key(*k)));
                match range {
                    Some((a, n)) => q.header("range", format!("bytes={a}-{}", a + n)),
                    None => q,
                }
            }
            Op::Head { b, k } => ReqSpec::new("HEAD", &object_target(bucket(*b), key(*k))),
            Op::List { b, v2 } => ReqSpec::new("GET", &format!("/{}{}", bucket(*b), if *v2 { "?list-type=2" } else { "" })),
            Op::ListBuckets => ReqSpec::new("GET", "/"),
        })
    }
    pub fn done(&mut self, op: &Op, r: &Resp, salt: u32) {
        if !r.ok() {
            return;
        }
        let n = self.uploads.len();
        match op {
            Op::Initiate { b, k, .. } => {
                if let Some(id) = xmlmini::parse(&r.body).ok().and_then(|n| n.text_of("UploadId").map(str::to_owned)) {
                    self.uploads.push((id, bucket(*b), key(*k), BTreeMap::new(), false));
                }
            }
            Op::Part { u, n: number, size, .. } if n > 0 => {
                self.uploads[usize::from(*u) % n].3.insert(number % 5 + 1, Content::Gen { len: *size, seed: salt }.bytes());
            }
            Op::Complete { u } if n > 0 => self.uploads[usize::from(*u) % n].4 = true,
            _ => {}
        }
    }
    pub fn exec(&mut self, op: &Op, salt: u32) -> Result<Option<Resp>, Fail> {
        let Some(q) = self.request(op, salt) else { return Ok(None) };
        let r = self.send(&q)?;
        self.done(op, &r, salt);
        Ok(Some(r))
    }
    fn snap(&self) -> Result<Snap, Fail> {
        let mut s = Snap::new();
        for b in BUCKETS {
            let r = self.send(&ReqSpec::new("GET", &format!("/{b}?list-type=2")))?;
            let mut listed = BTreeSet::new();
            if r.ok() {
                s.insert(((*b).to_owned(), String::new()), Default::default());
                let n = xmlmini::parse(&r.body).map_err(|e| Fail::Violation { sig: "list-xml".into(), msg: format!("{e:?} {}", r.show()) })?;
                listed = n.all("Contents").filter_map(|c| c.text_of("Key").map(str::to_owned)).collect();
            }
            for k in KEYS.iter().chain([&MARKER]) {
                let r = self.send(&ReqSpec::new("GET", &object_target(b, k)))?;
                if r.ok() && r.body_err.is_none() {
                    s.insert(((*b).to_owned(), (*k).to_owned()), (md5_hex(&r.body), meta_of(&r)));
                } else if r.status != 404 {
                    return viol("unreadable", format!("GET {b}/{k}: {}", r.show()));
                }
                if listed.remove(*k) != s.contains_key(&((*b).to_owned(), (*k).to_owned())) {
                    return viol("listing", format!("{b}/{k} is in the listing or can be read, but not both"));
                }
            }
            if let Some(k) = listed.iter().next() {
                return viol("stray", format!("the listing of {b} shows {k:?}"));
            }
        }
        Ok(s)
    }
}

fn answer(op: &Op, r: &Resp) -> Answer {
    let mut h: BTreeMap<String, String> = BTreeMap::new();
    if matches!(op, Op::Get { .. } | Op::Head { .. } | Op::Put { .. } | Op::Part { .. }) && r.ok() {
        for (n, v) in &r.headers {
            if n == "etag" || n == "content-length" || n == "content-range" || n.starts_with("x-amz-meta-") {
                h.insert(n.clone(), v.clone());
            }
        }
    }
    let body = match op {
        Op::Get { .. } if r.ok() => md5_hex(&r.body),
        Op::List { .. } | Op::ListBuckets | Op::MultiDelete { .. } | Op::Copy { .. } | Op::Complete { .. } if r.ok() => match xmlmini::parse(&r.body) {
            Ok(n) => {
                let mut v = vec![];
                for e in n.all("Contents") {
                    v.push(format!("{:?} {:?}", e.text_of("Key"), e.text_of("Size")));
                }
                for e in n.all("Deleted").chain(n.all("Error")) {
                    v.push(format!("{} {:?}", e.name, e.text_of("Key")));
                }
                for b in n.all("Buckets") {
                    v.extend(b.all("Bucket").map(|e| format!("{:?}", e.text_of("Name"))));
                }
                v.push(format!("{:?}", n.text_of("ETag")));
                v.sort();
                v.join("; ")
            }
            Err(_) => "not XML".to_owned(),
        },
        _ => String::new(),
    };
    (r.status, h, body)
}

pub(super) fn ops(read: u32) -> BoxedStrategy<Op> {
    let size = || prop_oneof![1 => Just(0_u32), 3 => 1_u32..300, 3 => 300_u32..20_000, 1 => 20_000_u32..200_000];
    let how = || prop_oneof![4 => Just(How::Plain), 2 => Just(How::Signed), 2 => Just(How::Chunked), 2 => Just(How::Form)];
    let b = || prop_oneof![5 => Just(0_u8), 1 => Just(1_u8)];
    let k = || 0_u8..4;
    prop_oneof![
        1 => b().prop_map(Op::CreateBucket),
        1 => b().prop_map(Op::DeleteBucket),
        8 => (b(), k(), how(), size(), any::<bool>()).prop_map(|(b, k, how, size, meta)| Op::Put { b, k, how, size, meta }),
        1 => b().prop_map(|b| Op::Marker { b }),
        4 => (b(), k(), b(), k()).prop_map(|(sb, sk, b, k)| Op::Copy { sb, sk, b, k: if (sb, sk) == (b, k) { (k + 1) % 4 } else { k } }),
        2 => (b(), k()).prop_map(|(b, k)| Op::Delete { b, k }),
        2 => (b(), prop::collection::vec(k(), 1..5)).prop_map(|(b, ks)| Op::MultiDelete { b, ks }),
        2 => (b(), k(), any::<bool>()).prop_map(|(b, k, meta)| Op::Initiate { b, k, meta }),
        4 => (any::<u8>(), any::<u8>(), how(), size()).prop_map(|(u, n, how, size)| Op::Part { u, n, how, size }),
        4 => any::<u8>().prop_map(|u| Op::Complete { u }),
        3 * read => (b(), k(), prop::option::of((0_u32..400, 0_u32..6000))).prop_map(|(b, k, range)| Op::Get { b, k, range }),
        read => (b(), k()).prop_map(|(b, k)| Op::Head { b, k }),
        read => (b(), any::<bool>()).prop_map(|(b, v2)| Op::List { b, v2 }),
        read => Just(Op::ListBuckets),
    ]
    .boxed()
}

impl Prop for C34 {
    type Case = Case;
    const ID: &'static str = "C34";
    const RULE: &'static str = "a file-system call of the operation was made to fail, or to transfer less than asked for";
    const SHRINK_ITERS: u32 = 800;
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let kinds = prop_oneof![
            4 => Just(inject::ALL),
            2 => Just(inject::WRITE),
            2 => Just(inject::READ),
            1 => Just(inject::OPEN),
            2 => Just(inject::RENAME),
            1 => Just(inject::UNLINK | inject::RMDIR),
            1 => Just(inject::MKDIR),
            1 => Just(inject::READDIR),
        ];
        let errno = prop_oneof![4 => Just(libc::EIO), 3 => Just(libc::ENOSPC), 1 => Just(libc::EMFILE), 1 => Just(libc::EDQUOT)];
        let short = prop_oneof![5 => Just(None), 1 => prop_oneof![1_u16..4, 4_u16..100, 100_u16..5000].prop_map(Some)];
        let fault = (kinds, any::<u16>(), prop::bool::weighted(0.3), errno, short).prop_map(|(kinds, at, lasting, errno, short)| Fault { kinds, at, lasting, errno, short });
        // most have something to work on
        let start = (any::<bool>(), 0_u32..9000, 0_u32..9000).prop_map(|(m, s, t)| {
            vec![
                Op::CreateBucket(0),
                Op::Put { b: 0, k: 0, how: How::Plain, size: s, meta: m },
                Op::Put { b: 0, k: 2, how: How::Plain, size: t, meta: !m },
                Op::Put { b: 0, k: 3, how: How::Plain, size: 100, meta: m },
                Op::Initiate { b: 0, k: 1, meta: m },
                Op::Part { u: 0, n: 0, how: How::Plain, size: s },
                Op::Part { u: 0, n: 2, how: How::Plain, size: t },
            ]
        });
        (start, prop::collection::vec(ops(1), 0..6), ops(1), fault, prop::bool::weighted(0.85))
            .prop_map(|(mut setup, more, op, fault, plenty)| {
                if !plenty {
                    setup.truncate(1);
                }
                setup.extend(more);
                Case { setup, op, fault }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 200_000 } else { 8000 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        static WORKS: OnceLock<Result<(), String>> = OnceLock::new();
        if let Err(e) = WORKS.get_or_init(|| inject::works(&cx.dir)) {
            return harness(e.clone());
        }
        let top = cx.dir.join(format!("e{}", cx.case_no));
        let res = go(c, &top, cx);
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, top: &Path, cx: &mut Cx) -> PResult {
    let (root, twin_root) = (top.join("root"), top.join("twin"));
    let mut a = Side::new(&root)?;
    let mut t = Side::new(&twin_root)?;
    for (i, op) in c.setup.iter().enumerate() {
        let x = a.exec(op, i as u32 + 1)?;
        let y = t.exec(op, i as u32 + 1)?;
        // what these do is the business of other properties
        if x.as_ref().map(|r| answer(op, r)) != y.as_ref().map(|r| answer(op, r)) {
            cx.label("setup differs");
            return Ok(());
        }
    }
    let salt = 1000;
    let name = format!("{:?}", c.op).split([' ', '{', '(']).next().unwrap_or("").to_owned();
    let before = t.snap()?;
    if a.snap()? != before {
        cx.label("setup differs");
        return Ok(());
    }

    let counted = arm(&twin_root, Plan { kinds: c.fault.kinds, first: u32::MAX, ..Plan::default() }, 1);
    let expected = t.exec(&c.op, salt)?;
    let calls = counted.0.calls.load(Ordering::SeqCst);
    drop(counted);
    let Some(expected) = expected else { return Ok(()) };
    if expected.body_err.is_some() {
        return Ok(());
    }
    let after = t.snap()?;
    if calls == 0 {
        return Ok(());
    }

    let first = u32::from(c.fault.at) * calls / 65536;
    let plan = match c.fault.short {
        Some(n) => Plan { kinds: inject::ALL, first: u32::MAX, short: usize::from(n), ..Plan::default() },
        None => Plan { kinds: c.fault.kinds, first, many: if c.fault.lasting { u32::MAX } else { 1 }, errno: c.fault.errno, ..Plan::default() },
    };
    let armed = arm(&root, plan, 1);
    let got = a.exec(&c.op, salt)?;
    let plan = Arc::clone(&armed.0);
    drop(armed);
    let Some(got) = got else { return harness("no request") };
    let hits = plan.hits.load(Ordering::SeqCst);
    let trace = || plan.trace.lock().unwrap().join("\n  ");
    let detail = |r: &Resp| format!("{:?}\nfault: {:?}\ncalls:\n  {}\nanswer: {}without the fault: {}", c.op, c.fault, trace(), r.show(), expected.show());
    if hits == 0 && c.fault.short.is_none() {
        cx.label("missed");
    } else {
        cx.nontrivial();
        cx.label(format!("{name}{}", if c.fault.short.is_some() { " short" } else { "" }));
    }

    let same = |r: &Resp| r.body_err.is_none() && answer(&c.op, r) == answer(&c.op, &expected);
    let state = a.snap();
    if same(&got) {
        cx.label("took effect");
        let state = state?;
        if state != after {
            return viol("lost", format!("the operation is answered as if nothing had failed, but has not had its effect\nstate:    {state:?}\nexpected: {after:?}\n{}", detail(&got)));
        }
    } else {
        let partial = matches!(c.op, Op::MultiDelete { .. }) && got.ok() && xmlmini::parse(&got.body).map_or(false, |n| n.all("Error").next().is_some());
        if c.fault.short.is_some() || hits == 0 {
            return viol("short", format!("reads and writes that transfer less than asked for change the outcome\n{}", detail(&got)));
        }
        if got.status < 500 && got.body_err.is_none() && !partial {
            return viol(if got.ok() { "unreported" } else { "wrong-error" }, format!("a failure of the file system is not reported as one\n{}", detail(&got)));
        }
        cx.label("reported");
        let state = state.map_err(|f| match f {
            Fail::Violation { sig, msg } => Fail::Violation { sig: format!("after-{sig}"), msg: format!("{msg}\n{}", detail(&got)) },
            f => f,
        })?;
        let names: BTreeSet<_> = before.keys().chain(after.keys()).chain(state.keys()).collect();
        for n in names {
            let (x, y, z) = (before.get(n), after.get(n), state.get(n));
            // content and metadata are in two files: after a reported failure they may be of different writes
            let content = |v: Option<&(String, Meta)>| v.map(|v| v.0.clone());
            let meta = |v: Option<&(String, Meta)>| v.map_or(Meta::new(), |v| v.1.clone());
            let whole = content(z) == content(x) || content(z) == content(y);
            if !whole || z.is_some() && meta(z) != meta(x) && meta(z) != meta(y) {
                return viol("damaged", format!("{n:?} is neither as before nor as the operation would have left it\nbefore: {x:?}\nnow:    {z:?}\nwould be: {y:?}\n{}", detail(&got)));
            }
        }
        if let (Op::Part { u, n: number, .. }, true) = (&c.op, c.fault.at % 2 == 1) {
            // not once more: the part is the one from before, or the new one
            let u = usize::from(*u) % a.uploads.len();
            let (_, b, k, old, done) = a.uploads[u].clone();
            let new = &t.uploads[u].3;
            if done || old.is_empty() || !after.contains_key(&(b.to_owned(), String::new())) {
                return Ok(());
            }
            let Some(r) = a.exec(&Op::Complete { u: u as u8 }, 0)? else { return harness("no request") };
            let all: Vec<u8> = old.values().flatten().copied().collect();
            let with: Vec<u8> = old.keys().filter_map(|n| if *n == number % 5 + 1 { new.get(n) } else { old.get(n) }).flatten().copied().collect();
            let now = a.snap()?;
            let md5 = now.get(&(b.to_owned(), k.to_owned())).map(|v| v.0.clone());
            cx.label("part left");
            if !r.ok() || ![Some(md5_hex(&all)), Some(md5_hex(&with))].contains(&md5) {
                return viol("part-lost", format!("after a failed upload of a part, the upload cannot be completed from the parts it had: {}the object: {md5:?}\nthe failure: {}", r.show(), detail(&got)));
            }
            return Ok(());
        }
        // the failure has gone: once more
        let again = a.exec(&c.op, salt)?;
        let Some(again) = again else { return harness("no request") };
        let now = a.snap().map_err(|f| match f {
            Fail::Violation { sig, msg } => Fail::Violation { sig: format!("again-{sig}"), msg: format!("{msg}\n{}", detail(&got)) },
            f => f,
        })?;
        let visible = before != after && state == after;
        if !same(&again) && !visible {
            return viol("again", format!("the operation still fails after the failure has gone: {}\nthe failure: {}", again.show(), detail(&got)));
        }
        if now != after {
            return viol("again-state", format!("the operation done again after the failure has gone does not leave what it should\nstate:    {now:?}\nexpected: {after:?}\nanswer: {}\nthe failure: {}", again.show(), detail(&got)));
        }
    }

    // what the uploads consist of shows when they are completed
    for u in 0..t.uploads.len() {
        let (_, b, k, parts, done) = &t.uploads[u];
        if *done || parts.is_empty() || !after.contains_key(&((*b).to_owned(), String::new())) {
            continue;
        }
        if u >= a.uploads.len() {
            break;
        }
        let what = format!("{b}/{k} parts {:?}", parts.keys());
        a.uploads[u].3 = parts.clone();
        let op = Op::Complete { u: u as u8 };
        let y = t.exec(&op, 0)?;
        let x = a.exec(&op, 0)?;
        if let (Some(x), Some(y)) = (x, y) {
            if answer(&op, &x) != answer(&op, &y) {
                return viol("upload", format!("completing {what} afterwards: {}without the fault: {}\nthe failure: {}", x.show(), y.show(), detail(&got)));
            }
        }
    }
    let (x, y) = (a.snap()?, t.snap()?);
    if x != y {
        return viol("upload-state", format!("after completing the open uploads\nstate:    {x:?}\nexpected: {y:?}\nthe failure: {}", detail(&got)));
    }
    Ok(())
}
