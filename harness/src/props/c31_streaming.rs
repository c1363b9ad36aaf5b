//! C31: bodies are passed on as they arrive. The harness hands over one piece at a time, lets the request run until
//! it waits for more, and compares what has come out with what has gone in.

use super::c04_chunked::{upload, Upload};
use super::form::{form, Form};
use crate::engine::*;
use crate::exec::Stepper;
use crate::http::{content_any, content_small, frag, pct, Content, Frag, GateBody, Item, ReqSpec};
use crate::mock::{self, Out};
use crate::ops::proto_key;
use crate::sigv4::{presign, sign_header, Cred, EncChunk, PayloadMode};
use futures::StreamExt;
use proptest::prelude::*;
use s3_server::dto::{ByteStream, GetObjectOutput};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// no authentication
    Plain,
    Presigned,
    /// header signature over UNSIGNED-PAYLOAD
    Unsigned,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Put { how: How, part: bool, key: String, content: Content, frag: Frag, length: bool, stop: Option<u16> },
    Chunked(Upload, Option<u16>),
    Form(Form, Option<u16>),
    /// the pieces as the storage produces them; whether it fails in the end
    Get { pieces: Vec<Content>, length: bool, range: bool, fail: bool, meta: BTreeMap<String, String> },
}

pub struct C31;

fn cred() -> Cred {
    Cred { access: "AKIA1".into(), secret: "secret".into(), region: "us-east-1".into(), date: chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string() }
}

/// Feeds the fragments; after each one, `least(fed)` bytes of `want` must be at the storage.
/// `stop`: the connection fails instead of fragment number so.
fn feed(keys: Option<&[(String, String)]>, r: &ReqSpec, stop: Option<u16>, want: &[u8], least: &dyn Fn(usize) -> usize, done: usize, cx: &mut Cx) -> PResult {
    let (svc, m) = mock::service(keys);
    let gate = GateBody::default();
    let req = r.build_with(gate.body()).map_err(Fail::Harness)?;
    let mut st = Stepper::new(crate::http::call(&svc, req));
    let mut out = None;
    let run = |st: &mut Stepper<Result<crate::http::Resp, String>>, out: &mut Option<_>, fed: usize| -> PResult {
        for _ in 0..1_000_000_u32 {
            if out.is_some() {
                return Ok(());
            }
            if let Some(x) = st.poll_if_woken() {
                *out = Some(x);
                return Ok(());
            }
            if !st.woken() {
                if !gate.starving() {
                    return viol("stall", format!("after {fed} bytes the request waits for something else than its body\n{}", r.show()));
                }
                return Ok(());
            }
        }
        viol("spin", format!("after {fed} bytes the request does not come to rest\n{}", r.show()))
    };
    let mut fed = 0;
    let mut late = 0;
    let pieces = r.frag.cut(&r.body);
    let stop = stop.map(|s| usize::from(s) % (pieces.len() + 1));
    for (i, p) in pieces.iter().enumerate() {
        run(&mut st, &mut out, fed)?;
        if out.is_some() || stop == Some(i) {
            break;
        }
        fed += p.len();
        gate.push(Item::Data(p.clone()));
        run(&mut st, &mut out, fed)?;
        let n = least(fed);
        let live = m.0.live.lock().unwrap();
        if live.len() > want.len() || live[..] != want[..live.len()] {
            return viol("content", format!("after {fed} of {} bytes the storage has {} bytes that do not begin the payload of {}\n{}", r.body.len(), live.len(), want.len(), r.show()));
        }
        if live.len() < n {
            return viol("held-back", format!("after {fed} of {} bytes the storage has only {} bytes of the payload, {n} could be passed on\n{}", r.body.len(), live.len(), r.show()));
        }
        if n > 0 && n < want.len() {
            late += 1;
        }
    }
    if late > 0 {
        cx.nontrivial();
    }
    if let (Some(_), None) = (stop, &out) {
        cx.label("connection fails");
        gate.push(Item::Fail);
        run(&mut st, &mut out, fed)?;
        let calls = m.take();
        return match out {
            Some(Ok(x)) if x.ok() && fed < done => viol("told-success", format!("a body that failed after {fed} of {} bytes was answered {}\n{}", r.body.len(), x.show(), r.show())),
            Some(Ok(_)) => {
                if fed < done && calls.iter().any(|c| c.body.as_ref().map_or(false, |b| b.err.is_none())) {
                    return viol("complete", format!("a body that failed after {fed} of {} bytes was passed on as complete\n{}", r.body.len(), mock::show_calls(&calls)));
                }
                Ok(())
            }
            Some(Err(e)) => viol("service-error", format!("{e}\n{}", r.show())),
            None => viol("stall", format!("no answer after the failure of the body\n{}", r.show())),
        };
    }
    gate.close();
    run(&mut st, &mut out, fed)?;
    let calls = m.take();
    match out {
        Some(Ok(x)) if x.ok() && calls.len() == 1 && calls[0].body.as_ref().map_or(false, |b| b.err.is_none() && b.bytes == want) => Ok(()),
        Some(Ok(x)) => viol("result", format!("the upload ended as {}\n{}\n{}", x.show(), mock::show_calls(&calls), r.show())),
        Some(Err(e)) => viol("service-error", format!("{e}\n{}", r.show())),
        None => viol("stall", format!("no answer after the end of the body\n{}", r.show())),
    }
}

impl Prop for C31 {
    type Case = Case;
    const ID: &'static str = "C31";
    const RULE: &'static str = "uploads (unauthenticated, presigned, UNSIGNED-PAYLOAD, signed chunks, forms) of up to 140 KiB whose fragments arrive one by one, the request running to rest in between, optionally a connection failure at a generated fragment; downloads whose pieces the storage produces one by one, ending or failing; non-trivial = at some point in the middle part of the payload could be, and had to be, passed on";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a body signed by one hash over all of it may be collected (it must be verified as a whole)",
        "a signed chunk may be held until it has arrived with its line break; of a form as many bytes as its delimiter has may be held",
        "observed at the storage trait; what the file system storage does with the pieces is the subject of C16, C26 and C28",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let stop = || prop::option::weighted(0.2, any::<u16>());
        let content = || prop_oneof![6 => content_small(), 1 => content_any()].boxed();
        let put = (prop_oneof![Just(How::Plain), Just(How::Presigned), Just(How::Unsigned)], any::<bool>(), proto_key(), content(), frag(), any::<bool>(), stop())
            .prop_map(|(how, part, key, content, frag, length, stop)| Case::Put { how, part, key, content, frag, length, stop });
        let get = (prop::collection::vec(content(), 0..8), any::<bool>(), any::<bool>(), any::<bool>(), prop::collection::btree_map("[a-z]{1,4}", "[a-z]{0,4}", 0..2)).prop_map(|(pieces, length, range, fail, meta)| Case::Get { pieces, length, range, fail, meta });
        prop_oneof![
            3 => put,
            3 => (upload(content(), 3000), stop()).prop_map(|(u, s)| Case::Chunked(u, s)),
            3 => (form(), stop()).prop_map(|(f, s)| Case::Form(f, s)),
            2 => get,
        ]
        .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        match c {
            Case::Put { how, part, key, content, frag, length, stop } => {
                cx.label(format!("put {how:?}"));
                let body = content.bytes();
                let path = pct(key.as_bytes(), 0, false);
                let mut r = ReqSpec::new("PUT", &if *part { format!("/bkt/{path}?partNumber=3&uploadId=u1") } else { format!("/bkt/{path}") }).header("host", "s3.amazonaws.com");
                if *length {
                    r.set("content-length", body.len().to_string());
                }
                r.body = body.clone();
                r.frag = frag.clone();
                let keys = vec![("AKIA1".to_owned(), "secret".to_owned())];
                match how {
                    How::Plain => {}
                    How::Presigned => {
                        presign(&mut r, &cred(), "3600", &["host".to_owned()], 0);
                    }
                    How::Unsigned => {
                        let n: Vec<String> = ["host", "x-amz-content-sha256", "x-amz-date"].iter().map(|s| (*s).to_owned()).collect();
                        sign_header(&mut r, &cred(), PayloadMode::Unsigned, &n, 0);
                    }
                }
                let keys = (*how != How::Plain).then_some(&keys[..]);
                feed(keys, &r, *stop, &body, &|fed| fed, usize::MAX, cx)
            }
            Case::Chunked(u, stop) => {
                cx.label("chunked");
                let (mut r, seed) = u.request("k");
                let chunks = u.chunks(&seed);
                r.body = chunks.iter().flat_map(EncChunk::bytes).collect();
                r.frag = u.fragments(&chunks, r.body.len());
                // (end of the encoded chunk, end of its data)
                let mut ends = vec![];
                let (mut e, mut d) = (0, 0);
                for c in &chunks {
                    e += c.bytes().len();
                    d += c.data.len();
                    ends.push((e, d));
                }
                let least = |fed: usize| ends.iter().rev().find(|(e, _)| *e <= fed).map_or(0, |x| x.1);
                feed(Some(&u.keys()), &r, *stop, &u.content.bytes(), &least, r.body.len(), cx)
            }
            Case::Form(f, stop) => {
                let policy = super::form::b64(&f.policy());
                let fields = f.shuffled([f.fields(), f.auth_fields(&policy, &f.cred())].concat());
                let bad = |v: &str| v.starts_with(&format!("--{}", f.boundary)) || v.contains(&format!("\r\n--{}", f.boundary));
                if fields.iter().any(|(_, v)| bad(v)) {
                    return Ok(());
                }
                cx.label("form");
                let (r, marks) = f.request(&fields);
                let (file, d) = (marks[0], f.delim().len());
                let content = f.content();
                let least = |fed: usize| fed.saturating_sub(file + d).min(content.len());
                feed(Some(&f.keys), &r, *stop, &content, &least, marks[2], cx)
            }
            Case::Get { pieces, length, range, fail, meta } => {
                cx.label(if *fail { "download that fails" } else { "download" });
                let total: usize = pieces.iter().map(Content::len).sum();
                let (svc, m) = mock::service(None);
                let gate = GateBody::default();
                let mut o = GetObjectOutput { body: Some(ByteStream::new(gate.clone())), ..GetObjectOutput::default() };
                if *length {
                    o.content_length = Some(total as i64);
                }
                if *range {
                    o.content_range = Some(format!("bytes 0-{}/{}", total.max(1) - 1, total + 7));
                }
                if !meta.is_empty() {
                    o.metadata = Some(meta.clone().into_iter().collect());
                }
                m.script(Out::Get(Box::new(o)));
                let req = ReqSpec::new("GET", "/bkt/k").build().map_err(Fail::Harness)?;
                let head = RefCell::new(None);
                let got = RefCell::new(Vec::new());
                let mut st = Stepper::new(async {
                    let mut res = svc.hyper_call(req).await.map_err(|e| e.to_string())?;
                    *head.borrow_mut() = Some(res.status().as_u16());
                    while let Some(x) = res.body_mut().next().await {
                        match x {
                            Ok(b) => got.borrow_mut().extend_from_slice(&b),
                            Err(e) => return Ok(Some(e.to_string())),
                        }
                    }
                    Ok::<Option<String>, String>(None)
                });
                let mut out = None;
                let rest = |st: &mut Stepper<_>, out: &mut Option<_>| -> PResult {
                    for _ in 0..1_000_000_u32 {
                        if let Some(x) = st.poll_if_woken() {
                            *out = Some(x);
                            return Ok(());
                        }
                        if !st.woken() {
                            return Ok(());
                        }
                    }
                    viol("spin", "the download does not come to rest")
                };
                rest(&mut st, &mut out)?;
                if *head.borrow() != Some(if *range { 206 } else { 200 }) {
                    return viol("head", format!("the response does not begin before the first piece: status {:?}", head.borrow()));
                }
                let mut want = vec![];
                for (i, p) in pieces.iter().enumerate() {
                    let b = p.bytes();
                    want.extend_from_slice(&b);
                    gate.push(Item::Data(b));
                    rest(&mut st, &mut out)?;
                    if i + 1 < pieces.len() && !want.is_empty() {
                        cx.nontrivial();
                    }
                    if *got.borrow() != want {
                        return viol("held-back", format!("after piece {i}: the storage produced {} bytes, the client has {}", want.len(), got.borrow().len()));
                    }
                }
                if *fail {
                    gate.push(Item::Fail);
                } else {
                    gate.close();
                }
                rest(&mut st, &mut out)?;
                match (out, *fail) {
                    (Some(Ok(Some(_))), true) | (Some(Ok(None)), false) if *got.borrow() == want => Ok(()),
                    (o, _) => viol("end", format!("the storage's stream {}, the response body ended as {o:?} after {} of {} bytes", if *fail { "failed" } else { "ended" }, got.borrow().len(), want.len())),
                }
            }
        }
    }
}
