//! C03: presigned URLs: accepted as issued inside the validity window, refused when altered or expired.

use super::auth_gen::*;
use crate::engine::*;
use crate::mock::{one_shot, show_calls};
use crate::sigv4::{verify_presigned, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub base: Base,
    /// issued this many seconds ago
    pub age: i64,
    pub expires: String,
    pub alts: Vec<Alt>,
    pub wrong_secret: Option<String>,
    pub no_provider: bool,
}

pub struct C03;

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "URLs for all 16 operations presigned by the reference signer with age and lifetime around the present (fresh, valid for a while, expired by minutes to years, boundary lifetimes), as issued or with one to three alterations; non-trivial = the verdict of the reference is accept or refuse (margins of 2 to 10 minutes around the clock are left open)";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "ages and lifetimes are relative to the clock at the time of the run; verdicts leave 120 s after expiry and 600 s before it open",
        "left open: lifetimes above 604800 s or below 1 s, dates in the future, irregular but correctly signed presentations, repeated presign parameters",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 70_000 } else { 2_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let alts = prop_oneof![6 => Just(vec![]), 6 => prop::collection::vec(alt(), 1..2), 2 => prop::collection::vec(alt(), 2..4)];
        let exp = prop_oneof![3 => (1_u32..604_801).prop_map(|n| n.to_string()), 2 => Just("604800".to_owned()), 1 => Just("86400".to_owned()), 1 => Just("1".to_owned()), 1 => (604_801_u32..).prop_map(|n| n.to_string())];
        let age = prop_oneof![3 => 0_i64..1000, 3 => 0_i64..604_800, 2 => 0_i64..5_000_000, 1 => 0_i64..1_000_000_000];
        // one case in two is shaped so that it is certainly still valid
        (base(false), age, exp, alts, prop::option::weighted(0.05, "[A-Za-z0-9/+]{0,40}"), prop::bool::weighted(0.05), any::<bool>(), 1000_i64..500_000)
            .prop_map(|(base, mut age, mut expires, alts, wrong_secret, no_provider, fresh, life)| {
                if fresh {
                    age = 60 + age % (life - 800);
                    expires = life.to_string();
                }
                Case { base, age, expires, alts, wrong_secret, no_provider }
            })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let now = chrono::Utc::now();
        let date = (now - chrono::Duration::seconds(c.age)).format("%Y%m%dT%H%M%SZ").to_string();
        let mut signer = c.base.clone();
        if let Some(w) = &c.wrong_secret {
            let who = usize::from(signer.who) % signer.keys.len();
            signer.keys[who].1 = w.clone();
        }
        let keys = &c.base.keys;
        let mut r = signer.presigned(date, &c.expires);
        for a in &c.alts {
            alter(&mut r, a, keys);
        }
        if !buildable(&r) {
            return Ok(());
        }
        let presigned = r.query().map_or(false, |q| crate::sigv4::parse_query(q).iter().any(|(n, _)| n == b"X-Amz-Signature"));
        let form = r.method == "POST" && r.get("content-type").map_or(false, |t| t.to_ascii_lowercase().contains("multipart/"));
        let verdict = if presigned && !form { verify_presigned(&r, keys, now.timestamp()) } else { Verdict::Invalid("no signature".into()) };
        if c.no_provider {
            let (resp, calls) = one_shot(None, &r)?;
            if presigned && (resp.ok() || !calls.is_empty()) {
                return viol("no-provider", format!("a server without provider served a presigned request\n{}\n{}", r.show(), show_calls(&calls)));
            }
            return Ok(());
        }
        let (resp, calls) = one_shot(Some(keys), &r)?;
        match verdict {
            Verdict::Unjudged(w) => cx.label(format!("unjudged: {w}")),
            Verdict::Invalid(why) => {
                cx.nontrivial();
                cx.label(format!("refuse: {why}"));
                if !calls.is_empty() || resp.status < 400 {
                    return viol(format!("executed:{}", if why == "expired" { "expired" } else { "altered" }), format!("served although {why} (age {} s)\n{}\nanswer {}\n{}\nalterations {:?}", c.age, r.show(), resp.show(), show_calls(&calls), c.alts));
                }
            }
            Verdict::Valid => {
                cx.nontrivial();
                cx.label(if c.alts.is_empty() { "accept: as issued" } else { "accept: harmless alteration" });
                // the same request without the presign parameters, on a server without authentication
                let mut twin = r.clone();
                let keep: Vec<&str> = r.query().unwrap_or("").split('&').filter(|p| !p.is_empty() && !["X-Amz-Algorithm=", "X-Amz-Credential=", "X-Amz-Date=", "X-Amz-Expires=", "X-Amz-SignedHeaders=", "X-Amz-Signature="].iter().any(|n| p.starts_with(n))).collect();
                twin.target = if keep.is_empty() { r.path().to_owned() } else { format!("{}?{}", r.path(), keep.join("&")) };
                if twin.get("authorization").is_some() {
                    return Ok(());
                }
                let (tr, tc) = one_shot(None, &twin)?;
                if let (1, false) = (tc.len(), calls.len() == 1) {
                    return viol("refused", format!("valid presigned URL refused (age {} s)\n{}\nanswer {}\ntwin: {}", c.age, r.show(), resp.show(), show_calls(&tc)));
                }
                if let Some(d) = crate::ops::diff_calls(&tc, &calls) {
                    return viol("effect", format!("presigned request runs something else than its plain twin: {d}\n{}", r.show()));
                }
                if tr.status != resp.status || tr.error_code() != resp.error_code() {
                    return viol("answer", format!("presigned request answered {} instead of {}\n{}", resp.show(), tr.show(), r.show()));
                }
            }
        }
        Ok(())
    }
}
