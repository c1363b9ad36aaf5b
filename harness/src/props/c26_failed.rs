//! C26: uploads that do not complete. The body is handed over fragment by fragment and then errors, ends
//! early, turns out corrupt, or the request is dropped; what was there before must still be there, at every
//! point in between and afterwards, and a proper upload must then work.

use std::time::Duration;

use crate::engine::*;
use crate::exec::Stepper;
use crate::fsmodel::*;
use crate::http::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the body errors after so many permille
    Error(u16),
    /// the body ends there as if it were complete
    Truncate(u16),
    /// a byte of the content is altered on the way
    Corrupt(u16),
    /// the request is dropped there, after some more polls
    Cancel(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// object (and part) that exist before
    pub prior: Option<(Content, Meta)>,
    pub part: bool,
    pub how: How,
    pub key: u8,
    pub content: Content,
    pub meta: Meta,
    pub sizes: Vec<u32>,
    pub fault: Fault,
    /// look at the storage between the fragments
    pub watch: bool,
    pub restart: bool,
}

pub struct C26;

const KEYS: &[&str] = &["k", "dir/k", "a/b/c d+é", "other"];

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        1 => Just(Content::Lit(vec![])),
        4 => (1_u32..100, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
        4 => (100_u32..40_000, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
        1 => (40_000_u32..300_000, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
    ]
    .boxed()
}

fn at() -> BoxedStrategy<u16> {
    prop_oneof![4 => 0_u16..=1000, 1 => Just(0_u16), 2 => 950_u16..=1000, 1 => Just(1000_u16)].boxed()
}

impl Prop for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "the upload failed or was dropped after the service had taken some of its body, or at a point where an object or part of that name existed before";
    const SHRINK_ITERS: u32 = 600;
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let how = prop_oneof![3 => Just(How::Plain), 2 => Just(How::Signed), 3 => Just(How::Chunked), 3 => Just(How::Form)];
        let fault = prop_oneof![
            3 => at().prop_map(Fault::Error),
            3 => at().prop_map(Fault::Truncate),
            2 => at().prop_map(Fault::Corrupt),
            4 => (at(), 0_u8..6).prop_map(|(a, n)| Fault::Cancel(a, n)),
        ];
        let sizes = prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec(1_u32..200, 1..4), 3 => prop::collection::vec(1000_u32..20_000, 1..4)];
        (prop::option::weighted(0.7, (content(), small_meta())), prop::bool::weighted(0.3), how, 0_u8..3, content(), small_meta(), sizes, fault, (any::<bool>(), prop::bool::weighted(0.2)))
            .prop_map(|(prior, part, how, key, content, meta, sizes, fault, (watch, restart))| {
                let how = if part && how == How::Form { How::Plain } else { how };
                // without a signature over the content nobody can tell
                let fault = match fault {
                    Fault::Corrupt(a) if matches!(how, How::Plain | How::Form) => Fault::Error(a),
                    Fault::Truncate(a) if how == How::Plain => Fault::Error(a),
                    f => f,
                };
                Case { prior, part, how, key, content, meta, sizes, fault, watch, restart }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 60_000 } else { 5000 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("f{}", cx.case_no));
        let res = match go(c, &top.join("root"), cx) {
            Ok(()) => Ok(()),
            Err(Stop::Fail(f)) => Err(f),
            Err(Stop::Div(_, sig, msg)) => viol(sig, msg),
        };
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, root: &std::path::Path, cx: &mut Cx) -> R<()> {
    let mut w = World::new(root)?;
    w.heads = true;
    let key = KEYS[usize::from(c.key) % 3];
    let h = History { buckets: vec!["bkt".into()], keys: vec![key.to_owned(), "other".into()], precreate: 1, steps: vec![] };
    // whatever goes wrong up to here is not this property's business
    let setup = (|| -> R<()> {
        w.step(&h, &Step::CreateBucket(0))?;
        w.put("bkt", "other", How::Plain, &Content::Lit(b"other content".to_vec()), &Meta::new(), &Frag::whole())?;
        if c.part {
            w.initiate("bkt", key, &c.meta)?;
        }
        if let Some((content, meta)) = &c.prior {
            w.put("bkt", key, How::Plain, content, meta, &Frag::whole())?;
            if c.part {
                w.part(0, 1, How::Plain, content, None)?;
            }
        }
        w.sweep(&h, &[])
    })();
    match setup {
        Err(Stop::Div(_, sig, _)) => {
            cx.label(format!("setup ended by {sig}"));
            return Ok(());
        }
        r => r?,
    }

    let bytes = c.content.bytes();
    let target = if c.part { format!("{}?partNumber=1&uploadId={}", object_target("bkt", key), uri_encode(w.uploads[0].id.as_bytes(), true)) } else { object_target("bkt", key) };
    let meta = if c.part { Meta::new() } else { c.meta.clone() };
    let mut q = upload_request(c.how, &target, "bkt", key, &bytes, &meta, &Frag::whole());
    let whole = q.body.clone();
    let len = whole.len();
    let permille = match c.fault {
        Fault::Error(a) | Fault::Truncate(a) | Fault::Corrupt(a) | Fault::Cancel(a, _) => usize::from(a),
    };
    let mut cut = len * permille / 1000;
    // bytes at the end of the body that a reader may do without
    let spare = match c.how {
        How::Chunked => 4,
        How::Form => 6,
        _ => 0,
    };
    let mut all_sent = cut + spare >= len;
    match c.fault {
        Fault::Truncate(_) if c.how == How::Signed && all_sent => {
            // nothing is missing then
            cut = len.saturating_sub(1);
            all_sent = len == 0;
        }
        Fault::Corrupt(_) => {
            // a byte of the content; in a chunked body the content of some chunk
            let n = bytes.len();
            if n == 0 {
                cx.label("nothing to corrupt");
                return Ok(());
            }
            let p = (n - 1) * permille / 1000;
            if c.how == How::Chunked {
                // positions of content: walk the framing
                let mut pos = 0;
                let mut content_at = vec![];
                while pos < len {
                    let eol = pos + q.body[pos..].windows(2).position(|w| w == b"\r\n").unwrap_or(0);
                    let head = String::from_utf8_lossy(&q.body[pos..eol]).into_owned();
                    let size = usize::from_str_radix(head.split(';').next().unwrap_or("0"), 16).unwrap_or(0);
                    content_at.extend(eol + 2..eol + 2 + size);
                    pos = eol + 2 + size + 2;
                    if size == 0 {
                        break;
                    }
                }
                q.body[content_at[p]] ^= 1;
            } else {
                q.body[p] ^= 1;
            }
            cut = len;
            all_sent = false;
        }
        _ => {}
    }
    let sent = q.body[..cut].to_vec();
    let error_at_end = matches!(c.fault, Fault::Error(_)) && matches!(c.how, How::Plain | How::Signed);
    if error_at_end {
        // the end of these bodies is only known when the stream ends
        all_sent = false;
    }
    if matches!(c.fault, Fault::Truncate(_)) && all_sent && cut == len {
        cx.label("complete");
    }

    let mut frags: Vec<Vec<u8>> = Frag { sizes: c.sizes.clone(), pend: false }.cut(&sent);
    if frags.len() > 40 {
        let rest: Vec<u8> = frags.split_off(39).concat();
        frags.push(rest);
    }
    let signed = q.get("authorization").is_some() || c.how == How::Form;
    let gate = GateBody::default();
    let req = q.build_with(gate.body()).map_err(|e| Fail::Harness(e))?;
    // the same service object as the requests in between
    let svc = std::sync::Arc::clone(if signed { &w.auth } else { &w.svc });
    let mut out: Option<Result<Resp, String>> = None;
    let mut taken = 0_usize;
    let mut watched = 0;
    {
        let mut st = Stepper::new(call(&svc, req));
        let drive = |st: &mut Stepper<Result<Resp, String>>| -> R<Option<Result<Resp, String>>> {
            let mut quiet = 0;
            loop {
                if let Some(r) = st.poll_if_woken() {
                    return Ok(Some(r));
                }
                if gate.starving() && !st.woken() {
                    return Ok(None);
                }
                if !st.wait_woken(Duration::from_millis(500)) {
                    quiet += 1;
                    if quiet > 60 {
                        return Err(Stop::Fail(Fail::Violation { sig: "stuck".into(), msg: "the request makes no progress although its body does not either end or wait".into() }));
                    }
                }
            }
        };
        for f in &frags {
            if let Some(r) = drive(&mut st)? {
                out = Some(r);
                break;
            }
            taken += f.len();
            gate.push(Item::Data(f.clone()));
            if c.watch && watched < 4 {
                if let Some(r) = drive(&mut st)? {
                    out = Some(r);
                    break;
                }
                watched += 1;
                look(&mut w, &h, c, "while the upload is under way")?;
            }
        }
        if out.is_none() {
            match c.fault {
                Fault::Cancel(_, n) => {
                    out = drive(&mut st)?;
                    for _ in 0..n {
                        if out.is_none() {
                            out = st.poll_now();
                        }
                    }
                }
                Fault::Error(_) => {
                    out = drive(&mut st)?;
                    if out.is_none() {
                        gate.push(Item::Fail);
                        out = drive(&mut st)?;
                    }
                }
                _ => {
                    gate.close();
                    out = drive(&mut st)?;
                }
            }
        }
        // dropped here
    }
    let what = format!("{:?} upload of {} bytes ({} bytes of {len} sent, fault {:?}{})", c.how, bytes.len(), cut, c.fault, if c.part { ", a part" } else { "" });
    let answer = match &out {
        None => "dropped".to_owned(),
        Some(Err(e)) => format!("error {e}"),
        Some(Ok(r)) => r.show(),
    };
    w.log(format!("{what} -> {answer}"));
    let said_yes = matches!(&out, Some(Ok(r)) if r.ok());
    if said_yes && !all_sent {
        return div(&[], "told-success", format!("{what} was answered {answer}"));
    }
    cx.label(match (c.fault, &out) {
        (_, None) => "dropped",
        (_, Some(Ok(r))) if r.ok() => "accepted",
        (Fault::Error(_), _) => "error refused",
        (Fault::Truncate(_), _) => "truncation refused",
        (Fault::Corrupt(_), _) => "corruption refused",
        _ => "refused early",
    });
    if said_yes {
        // it was complete
        if !c.part {
            w.model.get_mut("bkt").unwrap().insert(key.to_owned(), Obj { content: std::sync::Arc::new(bytes.clone()), meta: c.meta.clone() });
        } else {
            w.uploads[0].parts.insert(1, std::sync::Arc::new(bytes.clone()));
        }
    } else if all_sent && matches!(c.fault, Fault::Cancel(..)) {
        // everything had arrived: either is right, and the rest of the case would depend on timing
        cx.label("dropped after the end");
        let r = w.req(&ReqSpec::new("GET", &object_target("bkt", key)))?;
        let old = w.model["bkt"].get(key).map(|o| (o.content.to_vec(), o.meta.clone()));
        let new = Some((bytes.clone(), c.meta.clone()));
        let got = r.ok().then(|| (r.body.clone(), meta_of(&r)));
        if got != old && (c.part || got != new) {
            return div(&[], "neither", format!("{what}, dropped: GET is neither the former object nor the new one: {}", r.show()));
        }
        return Ok(());
    } else {
        if taken > 0 || c.prior.is_some() {
            cx.nontrivial();
        }
    }
    if c.restart {
        let (s, a) = services(root)?;
        w.svc = s;
        w.auth = a;
    }
    look(&mut w, &h, c, "afterwards")?;
    // and now properly
    let again = Content::Gen { len: 77, seed: 9 };
    if c.part {
        if w.uploads[0].parts.is_empty() {
            w.complete(0, Listed::Absent(1), None, false)?;
            w.part(0, 1, How::Plain, &again, None)?;
        } else if c.watch {
            w.part(0, 2, How::Plain, &again, None)?;
        }
        w.complete(0, Listed::All, None, false)?;
    } else {
        let how = if c.how == How::Signed { How::Plain } else { c.how };
        w.put("bkt", key, how, &again, &Meta::new(), &Frag::whole())?;
    }
    look(&mut w, &h, c, "after a proper upload")
}

fn look(w: &mut World, h: &History, c: &Case, when: &str) -> R<()> {
    match w.sweep(h, &[]) {
        Err(Stop::Div(a, sig, msg)) => Err(Stop::Div(a, sig, format!("{when}: {msg}\ncase {:?} {:?}\n  {}", c.how, c.fault, w.trace.join("\n  ")))),
        r => r,
    }
}
