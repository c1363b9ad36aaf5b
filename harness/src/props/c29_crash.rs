//! C29: the server program is killed with requests under way and started again on the same root. Everything
//! it had acknowledged is compared with the model; what was under way may be old or new, whole.

use std::io::Write;
use std::net::SocketAddr;
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

use crate::daemon::{self, Daemon, Started};
use crate::engine::*;
use crate::fsmodel::*;
use crate::http::*;
use crate::xmlmini;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Flight {
    Put { k: u8, content: Content, meta: Meta, sent: u16 },
    Delete { k: u8 },
    MultiDelete { ks: Vec<u8> },
    Copy { from: u8, to: u8 },
    /// an upload of its own; its parts are acknowledged before
    Complete { k: u8, parts: Vec<Content>, meta: Meta },
    /// a part of an upload of its own, replacing one
    Part { k: u8, content: Content, sent: u16 },
    CreateBucket,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crash {
    pub flights: Vec<Flight>,
    pub delay_us: u32,
    /// the steps before it
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub history: History,
    pub crashes: Vec<Crash>,
}

pub struct C29;

fn plain(steps: Vec<Step>) -> Vec<Step> {
    steps
        .into_iter()
        .filter_map(|s| match s {
            Step::Put { b, k, content, meta, frag, .. } => Some(Step::Put { b, k, how: How::Plain, content, meta, frag }),
            Step::Part { u, n, content, elsewhere, .. } => Some(Step::Part { u, n, how: How::Plain, content, elsewhere }),
            Step::Restart | Step::HeadBucket(_) | Step::Location(_) => None,
            s => Some(s),
        })
        .collect()
}

impl Prop for C29 {
    type Case = Case;
    const ID: &'static str = "C29";
    const RULE: &'static str = "the server was killed after acknowledging at least one write, and the state after the restart was compared";
    const SHRINK_ITERS: u32 = 120;
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let profile = Profile { odd_keys: false, steps: 3, restart: 0, age: 0, ..PROFILE };
        let content = || {
            prop_oneof![
                3 => body_content(),
                1 => (100_000_u32..3_000_000, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
            ]
        };
        let sent = || prop_oneof![3 => Just(1000_u16), 1 => 0_u16..1000];
        let flight = prop_oneof![
            4 => (any::<u8>(), content(), small_meta(), sent()).prop_map(|(k, content, meta, sent)| Flight::Put { k, content, meta, sent }),
            1 => any::<u8>().prop_map(|k| Flight::Delete { k }),
            1 => prop::collection::vec(any::<u8>(), 1..4).prop_map(|ks| Flight::MultiDelete { ks }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(from, to)| Flight::Copy { from, to }),
            2 => (any::<u8>(), prop::collection::vec(content(), 1..3), small_meta()).prop_map(|(k, parts, meta)| Flight::Complete { k, parts, meta }),
            1 => (any::<u8>(), content(), sent()).prop_map(|(k, content, sent)| Flight::Part { k, content, sent }),
            1 => Just(Flight::CreateBucket),
        ];
        let n = if t == Tier::Thorough { 5 } else { 3 };
        let crash = (prop::collection::vec(flight, 0..4), prop_oneof![1 => Just(0_u32), 3 => 0_u32..1500, 2 => 1500_u32..12_000], prop::collection::vec(step(profile), 1..4))
            .prop_map(|(flights, delay_us, steps)| Crash { flights, delay_us, steps: plain(steps.into_iter().flatten().collect()) });
        (history(profile), prop::collection::vec(crash, 1..n))
            .prop_map(|(mut history, crashes)| {
                history.steps.clear();
                Case { history, crashes }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 12_000 } else { 1200 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("k{}", cx.case_no));
        let res = match go(c, &top.join("root"), cx) {
            Err(Stop::Fail(f)) => Err(f),
            Err(Stop::Div(_, sig, msg)) => {
                let _ = msg;
                cx.label(format!("ended by {sig}"));
                Ok(())
            }
            Ok(()) => Ok(()),
        };
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn up(root: &Path, addr: SocketAddr) -> Result<Daemon, Fail> {
    let args: Vec<String> = vec!["--fs-root".into(), root.to_string_lossy().into_owned(), "--host".into(), addr.ip().to_string(), "--port".into(), addr.port().to_string()];
    match daemon::start(&args, root, addr)? {
        Started::Up(d) => Ok(d),
        Started::Exited { code, stderr } => Err(Fail::Violation { sig: "no-restart".into(), msg: format!("the server does not start on {}: exit {code:?}\n{stderr}", root.display()) }),
    }
}

/// a request under way
struct Air {
    what: String,
    req: ReqSpec,
    sent: u16,
    /// keys of "bkt" it may change, and to what
    effects: Vec<(String, Option<Obj>)>,
    bucket: bool,
    /// upload whose part 1 it replaces, and the parts that are sure
    part: Option<(usize, Arc<Vec<u8>>)>,
    upload: Option<usize>,
}

fn go(c: &Case, root: &Path, cx: &mut Cx) -> R<()> {
    let addr = daemon::fresh_addr();
    let mut w = World::new(root)?;
    let mut d = Some(up(root, addr)?);
    w.remote = Some(addr);
    let h = &c.history;
    for b in 0..h.buckets.len() as u8 {
        w.step(h, &Step::CreateBucket(b))?;
    }
    for (round, crash) in c.crashes.iter().enumerate() {
        for s in &crash.steps {
            w.step(h, s)?;
        }
        let b = "bkt".to_owned();
        if !w.model.contains_key(&b) {
            w.step(h, &Step::CreateBucket(0))?;
        }
        // prepare what will be under way, on different keys
        let mut airs: Vec<Air> = vec![];
        let used = std::cell::RefCell::new(Vec::<String>::new());
        for f in &crash.flights {
            let key = |k: &u8| h.keys[usize::from(*k) % h.keys.len()].clone();
            let free = |w: &World, k: &str| {
                let ok = !w.may_refuse("bkt", k) && !used.borrow().iter().any(|u| u == k || conflict(u, k));
                if ok {
                    used.borrow_mut().push(k.to_owned());
                }
                ok
            };
            match f {
                Flight::Put { k, content, meta, sent } => {
                    let k = key(k);
                    if free(&w, &k) {
                        let bytes = content.bytes();
                        let req = put_request(How::Plain, "bkt", &k, &bytes, meta, &Frag::whole());
                        airs.push(Air { what: format!("put {k:?} of {} bytes", bytes.len()), req, sent: *sent, effects: vec![(k, Some(Obj { content: Arc::new(bytes), meta: meta.clone() }))], bucket: false, part: None, upload: None });
                    }
                }
                Flight::Delete { k } => {
                    let k = key(k);
                    if free(&w, &k) {
                        airs.push(Air { what: format!("delete {k:?}"), req: ReqSpec::new("DELETE", &object_target("bkt", &k)), sent: 1000, effects: vec![(k, None)], bucket: false, part: None, upload: None });
                    }
                }
                Flight::MultiDelete { ks } => {
                    let mut ks: Vec<String> = ks.iter().map(key).collect();
                    ks.retain(|k| free(&w, k));
                    if !ks.is_empty() {
                        let x = format!("<Delete>{}</Delete>", ks.iter().map(|k| format!("<Object><Key>{}</Key></Object>", xmlmini::escape_text(k))).collect::<String>());
                        airs.push(Air { what: format!("multi-delete {ks:?}"), req: ReqSpec::new("POST", "/bkt?delete").body(x), sent: 1000, effects: ks.into_iter().map(|k| (k, None)).collect(), bucket: false, part: None, upload: None });
                    }
                }
                Flight::Copy { from, to } => {
                    let (from, to) = (key(from), key(to));
                    // the source must not be changing itself
                    if from == to || used.borrow().contains(&from) {
                        continue;
                    }
                    let Some(o) = w.model["bkt"].get(&from).cloned() else { continue };
                    if free(&w, &to) {
                        used.borrow_mut().push(from.clone());
                        let req = ReqSpec::new("PUT", &object_target("bkt", &to)).header("x-amz-copy-source", format!("bkt/{}", uri_encode(from.as_bytes(), false)));
                        airs.push(Air { what: format!("copy {from:?} to {to:?}"), req, sent: 1000, effects: vec![(to, Some(o))], bucket: false, part: None, upload: None });
                    }
                }
                Flight::Complete { k, parts, meta } => {
                    let k = key(k);
                    if free(&w, &k) {
                        w.initiate("bkt", &k, meta)?;
                        let u = w.uploads.len() - 1;
                        for (i, p) in parts.iter().enumerate() {
                            w.part(u, i as u16 + 1, How::Plain, p, None)?;
                        }
                        let nums: Vec<i32> = (1..=parts.len() as i32).collect();
                        let req = ReqSpec::new("POST", &format!("{}?uploadId={}", object_target("bkt", &k), w.uploads[u].id)).body(complete_xml(&nums, |_| None));
                        let content: Vec<u8> = parts.iter().flat_map(Content::bytes).collect();
                        airs.push(Air { what: format!("complete upload {u} for {k:?}"), req, sent: 1000, effects: vec![(k, Some(Obj { content: Arc::new(content), meta: meta.clone() }))], bucket: false, part: None, upload: Some(u) });
                    }
                }
                Flight::Part { k, content, sent } => {
                    let k = key(k);
                    if free(&w, &k) {
                        w.initiate("bkt", &k, &Meta::new())?;
                        let u = w.uploads.len() - 1;
                        w.part(u, 1, How::Plain, &Content::Gen { len: 50, seed: 3 }, None)?;
                        let bytes = content.bytes();
                        let target = format!("{}?partNumber=1&uploadId={}", object_target("bkt", &k), w.uploads[u].id);
                        let mut req = ReqSpec::new("PUT", &target).body(bytes.clone());
                        req.set("content-length", bytes.len().to_string());
                        airs.push(Air { what: format!("part of {} bytes for upload {u}", bytes.len()), req, sent: *sent, effects: vec![], bucket: false, part: Some((u, Arc::new(bytes))), upload: None });
                    }
                }
                Flight::CreateBucket => {
                    if !airs.iter().any(|a| a.bucket) && !w.model.contains_key("new-bucket") {
                        airs.push(Air { what: "create bucket new-bucket".into(), req: ReqSpec::new("PUT", "/new-bucket"), sent: 1000, effects: vec![], bucket: true, part: None, upload: None });
                    }
                }
            }
        }
        // off they go
        let mut handles = vec![];
        for a in &airs {
            let mut bytes = daemon::encode(&a.req, &addr, false);
            if a.sent < 1000 {
                let head = bytes.len() - a.req.body.len();
                let n = a.req.body.len() * usize::from(a.sent) / 1000;
                bytes.truncate(head + n.min(a.req.body.len().saturating_sub(1)));
            }
            handles.push(std::thread::spawn(move || -> Option<Resp> {
                let mut s = daemon::connect(&addr).ok()?;
                s.write_all(&bytes).ok()?;
                daemon::read_response(&mut s, false).ok()
            }));
        }
        std::thread::sleep(Duration::from_micros(crash.delay_us.into()));
        d.take().unwrap().kill();
        let answers: Vec<Option<Resp>> = handles.into_iter().map(|h| h.join().unwrap_or(None)).collect();
        w.log(format!("killed, round {round}"));
        d = Some(up(root, addr)?);

        // what was under way is old or new
        for (a, r) in airs.iter().zip(&answers) {
            let acked = r.as_ref().map_or(false, Resp::ok) && a.sent == 1000 || r.as_ref().map_or(false, |r| r.ok() && a.req.body.is_empty());
            let refused = r.as_ref().map_or(false, |r| !r.ok());
            let whole = a.sent == 1000 || a.req.body.is_empty();
            w.log(format!("under way: {} -> {}", a.what, if acked { "acknowledged" } else if refused { "refused" } else if whole { "no answer" } else { "body not finished" }));
            cx.label(if acked { "acknowledged at the end" } else if refused { "refused at the end" } else if whole { "no answer" } else { "body not finished" });
            for (k, new) in &a.effects {
                let get = w.req(&ReqSpec::new("GET", &object_target("bkt", k)))?;
                let old = w.model["bkt"].get(k).cloned();
                let is = |o: &Option<Obj>| match o {
                    None => get.error_code().as_deref() == Some("NoSuchKey"),
                    Some(o) => get.ok() && get.body_err.is_none() && get.body == *o.content,
                };
                let (may_old, may_new) = (!acked, whole && !refused);
                if may_new && is(new) {
                    // the metadata of a write cut short may be either
                    let meta = meta_of(&get);
                    if acked {
                        if let Some(n) = new {
                            if n.meta != meta {
                                return bad(&w, "lost-metadata", format!("{} was acknowledged, but after the restart {}", a.what, get.show()));
                            }
                        }
                    } else if let Some(n) = new {
                        let allowed = [Some(&n.meta), old.as_ref().map(|o| &o.meta)];
                        if !meta.is_empty() && !allowed.contains(&Some(&meta)) {
                            return bad(&w, "strange-metadata", format!("{} was under way, and after the restart {}", a.what, get.show()));
                        }
                    }
                    let o = w.model.get_mut("bkt").unwrap();
                    match new {
                        None => {
                            o.remove(k);
                        }
                        Some(n) => {
                            o.insert(k.clone(), Obj { content: Arc::clone(&n.content), meta });
                        }
                    }
                } else if !(may_old && is(&old)) {
                    let old = old.map(|o| format!("{} bytes", o.content.len()));
                    return bad(&w, if acked { "lost-acknowledged" } else { "torn" }, format!("{} was {}, the object was {old:?} before; after the restart: {}", a.what, if acked { "acknowledged" } else { "under way" }, get.show()));
                } else if let Some(o) = old {
                    // a deletion or write cut short: content as before, metadata of either
                    let meta = meta_of(&get);
                    let news = new.as_ref().map(|n| &n.meta);
                    if meta != o.meta && !meta.is_empty() && news != Some(&meta) {
                        return bad(&w, "strange-metadata", format!("{} was under way, and after the restart {}", a.what, get.show()));
                    }
                    w.model.get_mut("bkt").unwrap().insert(k.clone(), Obj { content: o.content, meta });
                }
            }
            if a.bucket {
                let r = w.req(&ReqSpec::new("HEAD", "/new-bucket"))?;
                if r.ok() {
                    w.model.insert("new-bucket".into(), Default::default());
                } else if acked {
                    return bad(&w, "lost-bucket", format!("{} was acknowledged, after the restart {}", a.what, r.show()));
                }
            }
            if let Some(u) = a.upload {
                w.uploads[u].void = true;
            }
        }
        // everything else is as acknowledged
        if !w.trace.is_empty() && w.stats.values().sum::<u32>() > 0 {
            cx.nontrivial();
        }
        w.log("compare".into());
        w.sweep(h, &[]).map_err(|s| own(&w, s))?;
        // uploads go on where they were
        for (a, r) in airs.iter().zip(&answers) {
            let Some((u, new)) = &a.part else { continue };
            let acked = r.as_ref().map_or(false, Resp::ok);
            let up = w.uploads[*u].clone();
            let q = ReqSpec::new("POST", &format!("{}?uploadId={}", object_target("bkt", &up.key), up.id)).body(complete_xml(&[1], |_| None));
            let r = w.req(&q)?;
            if !r.ok() {
                return bad(&w, "lost-upload", format!("completing upload {u} after the restart gave {}", r.show()));
            }
            let get = w.req(&ReqSpec::new("GET", &object_target("bkt", &up.key)))?;
            let is_new = get.body == **new;
            let is_old = get.body == *up.parts[&1];
            let whole = a.sent == 1000 || a.req.body.is_empty();
            if !get.ok() || !(is_new && whole || is_old && !acked) {
                return bad(&w, if acked { "lost-part" } else { "torn-part" }, format!("{} was {}; the completed object is {}", a.what, if acked { "acknowledged" } else { "under way" }, get.show()));
            }
            w.uploads[*u].done = true;
            w.model.get_mut("bkt").unwrap().insert(up.key.clone(), Obj { content: Arc::new(get.body.clone()), meta: up.meta });
        }
        // acknowledged uploads can be completed
        let open: Vec<usize> = (0..w.uploads.len()).filter(|&i| {
            let u = &w.uploads[i];
            !u.void && !u.done && !u.parts.is_empty() && w.model.contains_key(&u.bucket) && !w.may_refuse(&u.bucket, &u.key)
        }).collect();
        if round % 2 == 0 {
            for i in open.into_iter().take(2) {
                let (b, k) = (w.uploads[i].bucket.clone(), w.uploads[i].key.clone());
                if w.may_refuse(&b, &k) {
                    continue;
                }
                w.complete(i, Listed::All, None, false).map_err(|s| own(&w, s))?;
                w.sweep(h, &[]).map_err(|s| own(&w, s))?;
                cx.label("upload completed after the restart");
            }
        }
    }
    drop(d);
    Ok(())
}

fn bad<T>(w: &World, sig: &str, msg: String) -> R<T> {
    Err(Stop::Fail(Fail::Violation { sig: sig.into(), msg: format!("{msg}\nhistory:\n  {}", w.trace.join("\n  ")) }))
}

/// a difference right after a restart belongs to this property
fn own(w: &World, s: Stop) -> Stop {
    match s {
        Stop::Div(_, sig, msg) => Stop::Fail(Fail::Violation { sig: format!("restart-{sig}"), msg: format!("after the server was killed and started again: {msg}\nhistory:\n  {}", w.trace.join("\n  ")) }),
        s => s,
    }
}
