//! C01: signed requests altered in any way; whatever the reference verifier calls unsigned must be refused
//! before the storage is touched.

use super::auth_gen::*;
use crate::engine::*;
use crate::mock::{one_shot, show_calls};
use crate::sigv4::{verify_header, verify_presigned, PayloadMode, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub base: Base,
    /// sign with a secret that is not the registered one
    pub wrong_secret: Option<String>,
    /// which key is dropped from the server's registry
    pub unregister: bool,
    pub alts: Vec<Alt>,
    /// a server without authentication provider
    pub no_provider: bool,
}

pub struct C01;

fn is_form(r: &crate::http::ReqSpec) -> bool {
    r.method == "POST" && r.get("content-type").map_or(false, |t| t.to_ascii_lowercase().contains("multipart/"))
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "correctly signed requests for all 16 operations with up to three alterations (method, path, query, headers, body, every member of the authorization, date, payload hash, stripped or foreign signature), signed with a wrong secret, or by an unregistered key; also against a server without provider. Non-trivial = the reference verifier says the request carries no valid signature (or the server has no provider and the request is signed)";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "not judged: requests whose signature is right but whose presentation is irregular (scope date, service or algorithm text differing, listed headers that are absent, duplicate headers)",
        "bodies of chunked uploads are altered in C05, forms in C06, presigned URLs in C03",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 90_000 } else { 2_500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let alts = prop_oneof![6 => prop::collection::vec(alt(), 1..2), 3 => prop::collection::vec(alt(), 2..4), 1 => Just(vec![])];
        (base(true), prop::option::weighted(0.08, prop_oneof![Just(String::new()), "[A-Za-z0-9/+]{0,40}".boxed()]), prop::bool::weighted(0.08), alts, prop::bool::weighted(0.1))
            .prop_map(|(base, wrong_secret, unregister, alts, no_provider)| Case { base, wrong_secret, unregister, alts, no_provider })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let mut signer = c.base.clone();
        let who = usize::from(signer.who) % signer.keys.len();
        let mut keys = signer.keys.clone();
        if let Some(w) = &c.wrong_secret {
            signer.keys[who].1 = w.clone();
        }
        if c.unregister {
            keys.remove(who);
        }
        let mut r = signer.signed();
        for a in &c.alts {
            let body = matches!(a, Alt::BodyFlip(..) | Alt::BodyPush(_) | Alt::BodyCut(_) | Alt::BodyClear);
            if body && c.base.mode == PayloadMode::Streaming {
                continue;
            }
            alter(&mut r, a, &c.base.keys);
        }
        if !buildable(&r) {
            cx.label("not representable");
            return Ok(());
        }
        let presigned = r.query().map_or(false, |q| crate::sigv4::parse_query(q).iter().any(|(n, _)| n == b"X-Amz-Signature"));
        if c.no_provider {
            let signed = r.get("authorization").is_some() || presigned || is_form(&r);
            let (resp, calls) = one_shot(None, &r)?;
            if signed {
                cx.nontrivial();
                cx.label("no provider");
                if resp.ok() || !calls.is_empty() {
                    return viol("no-provider", format!("a server without authentication provider served a signed request\n{}\nanswer {}\n{}", r.show(), resp.show(), show_calls(&calls)));
                }
            }
            return Ok(());
        }
        let verdict = if is_form(&r) {
            Verdict::Invalid("a form without signed policy".into())
        } else if presigned {
            verify_presigned(&r, &keys, chrono::Utc::now().timestamp())
        } else {
            verify_header(&r, &keys)
        };
        match &verdict {
            Verdict::Valid => cx.label("still valid"),
            Verdict::Unjudged(w) => cx.label(format!("unjudged: {w}")),
            Verdict::Invalid(w) => {
                cx.nontrivial();
                cx.label(format!("invalid: {w}"));
            }
        }
        for a in &c.alts {
            let n = format!("{a:?}");
            cx.label(format!("alt {}", n.split(['(', ' ']).next().unwrap_or("")));
        }
        let (resp, calls) = one_shot(Some(&keys), &r)?;
        if let Verdict::Invalid(why) = verdict {
            if !calls.is_empty() {
                return viol("executed", format!("executed although {why}\n{}\nanswer {}\n{}\nregistered {:?}\nalterations {:?}", r.show(), resp.show(), show_calls(&calls), keys, c.alts));
            }
            if resp.status < 400 {
                return viol("answered", format!("answered with success although {why}\n{}\nanswer {}\nalterations {:?}", r.show(), resp.show(), c.alts));
            }
        }
        Ok(())
    }
}
