//! C02: a correctly signed request has exactly the effect and answer of its unsigned twin on a service without
//! authentication. The signature comes from the reference in sigv4.rs.

use super::auth_gen::*;
use crate::engine::*;
use crate::mock::{one_shot, show_calls};
use crate::sigv4::{verify_header, PayloadMode, Verdict};
use proptest::prelude::*;

pub struct C02;

pub fn classify(b: &Base, cx: &mut Cx) {
    let r = b.unsigned();
    cx.label(format!("{:?}", b.mode));
    if crate::http::uri_encode(&crate::http::pct_decode(r.path()), false) != r.path() {
        cx.label("path not in canonical encoding");
    }
    if r.path().contains('%') {
        cx.label("path with escapes");
    }
    if r.query().map_or(false, |q| q.contains(['%', '+'])) {
        cx.label("query with escapes");
    }
    if b.user_agent.is_some() {
        cx.label("user agent");
    }
}

impl Prop for C02 {
    type Case = Base;
    const ID: &'static str = "C02";
    const RULE: &'static str = "requests for all 16 operations (generated parameters, Unicode keys, spellings, extra parameters and headers), signed by the reference signer with one of 1-4 registered keys, any date and region, any choice of optional signed headers, signed / unsigned / chunked payload; non-trivial = the path or the query contains an escape, or an optional header is signed, or the payload is not the plain signed one";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "host and all x-amz-* headers are signed, as AWS requires; header values have no runs of inner spaces; no duplicate headers",
        "access key ids have no '/'; the date of a header signature is not compared with the clock",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 50_000 } else { 1_200_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Base> {
        base(true)
    }
    fn run(&self, b: &Base, cx: &mut Cx) -> PResult {
        classify(b, cx);
        let signed = b.signed();
        match verify_header(&signed, &b.keys) {
            Verdict::Valid => {}
            v => return harness(format!("reference signer and verifier disagree: {v:?}\n{}", signed.show())),
        }
        let mut twin = b.unsigned();
        if twin.get("content-length").is_some() || b.mode == PayloadMode::Streaming {
            twin.set("content-length", twin.body.len().to_string());
        }
        let opt = signed.get("authorization").map_or(0, |a| a.matches(';').count());
        if b.mode != PayloadMode::Signed || signed.path().contains('%') || signed.query().map_or(false, |q| q.contains('%')) || opt > 2 {
            cx.nontrivial();
        }
        let (pr, pc) = one_shot(None, &twin)?;
        let (sr, sc) = one_shot(Some(&b.keys), &signed)?;
        if !pc.is_empty() {
            cx.label("effect");
        }
        if let (true, false) = (pc.len() == 1, sc.len() == 1) {
            return viol(format!("refused:{:?}:{}", b.mode, sr.error_code().unwrap_or_default()), format!("correctly signed request not executed\n{}\nanswer {}\nunsigned twin: {}", signed.show(), sr.show(), show_calls(&pc)));
        }
        if let Some(d) = crate::ops::diff_calls(&pc, &sc) {
            return viol(format!("effect:{:?}", b.mode), format!("the signed request runs something else than its unsigned twin: {d}\n{}", signed.show()));
        }
        if pr.status != sr.status || pr.error_code() != sr.error_code() {
            return viol(format!("answer:{:?}", b.mode), format!("signed request answered {} instead of {}\n{}", sr.show(), pr.show(), signed.show()));
        }
        Ok(())
    }
}
