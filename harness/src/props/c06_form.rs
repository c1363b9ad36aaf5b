//! C06: browser form uploads: exact content and attributes, only under a valid signature.

use super::form::b64;
use super::form::*;
use crate::engine::*;
use crate::http::Content;
use crate::mock::{one_shot, show_calls};
use crate::sigv4::{hex, hmac, signing_key};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// replace the policy by that of another key
    OtherPolicy,
    FlipPolicy(u16, u8),
    FlipSig(u8, u8),
    EmptySig,
    Set(u8, String),
    Drop(u8),
    UnknownKey,
    WrongSecret(String),
    /// sign with one region or date, present another
    Region(String),
    Date(String),
    /// body ends here
    Truncate(u32),
    Fail(u32),
    /// the header names another boundary
    OtherBoundary(String),
    NoBoundary,
    DropKey,
    EmptyKey,
    DropFile,
    /// removes the CR LF in front of a delimiter
    GlueDelim(u16),
    NoProvider,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub form: Form,
    pub damage: Option<Damage>,
}


pub struct C06;

const AUTH: &[&str] = &["policy", "x-amz-algorithm", "x-amz-credential", "x-amz-date", "x-amz-signature"];

/// is the form signed, judged from the fields on the wire
fn signed(fields: &Fields, keys: &[(String, String)]) -> bool {
    let get = |n: &str| fields.iter().rev().find(|(m, _)| m.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str());
    let v: Vec<&str> = match AUTH.iter().map(|n| get(n)).collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => return false,
    };
    if v[1] != "AWS4-HMAC-SHA256" || v[3].len() != 16 {
        return false;
    }
    let c: Vec<&str> = v[2].split('/').collect();
    if c.len() != 5 {
        return false;
    }
    let secret = match keys.iter().find(|(a, _)| a == c[0]) {
        Some((_, s)) => s,
        None => return false,
    };
    hex(&hmac(&signing_key(secret, &v[3][..8], c[2], "s3"), v[0].as_bytes())) == v[4]
}

impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "forms with random fields (order, letter case, values with line breaks and Unicode), file contents assembled from random bytes and pieces of the delimiter, boundaries of 1 to 70 characters, fragmented at random or within 3 bytes of structural positions, intact or with one damage (policy, signature, algorithm, key, date, region, missing field, other boundary, truncation or connection failure at any byte); non-trivial = the reference says the form must be stored and it has two or more fragments, or it says it must be refused";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "left open: truncation behind the delimiter that ends the file, repeated fields, a file name in the key, the content length reported to the storage (absent or exact), the default content type (absent or that of the file part)",
        "every form carries a JSON policy that covers its fields and has not expired",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 90_000 } else { 3_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let d = prop_oneof![
            1 => Just(Damage::OtherPolicy),
            2 => (any::<u16>(), 1_u8..255).prop_map(|(a, b)| Damage::FlipPolicy(a, b)),
            2 => (any::<u8>(), 1_u8..16).prop_map(|(a, b)| Damage::FlipSig(a, b)),
            1 => Just(Damage::EmptySig),
            2 => (any::<u8>(), prop_oneof![Just(String::new()), "[ -~]{1,20}", Just("AWS4-HMAC-SHA1".to_owned()), Just("20300101T000000Z".to_owned()), "[0-9a-f]{64}"]).prop_map(|(a, b)| Damage::Set(a, b)),
            2 => any::<u8>().prop_map(Damage::Drop),
            1 => Just(Damage::UnknownKey),
            2 => "[A-Za-z0-9]{0,20}".prop_map(Damage::WrongSecret),
            1 => "[a-z0-9-]{1,12}".prop_map(Damage::Region),
            1 => super::auth_gen::any_date().prop_map(Damage::Date),
            5 => any::<u32>().prop_map(Damage::Truncate),
            3 => any::<u32>().prop_map(Damage::Fail),
            1 => "[a-z0-9-]{1,12}".prop_map(Damage::OtherBoundary),
            1 => Just(Damage::NoBoundary),
            1 => Just(Damage::DropKey),
            1 => Just(Damage::EmptyKey),
            1 => Just(Damage::DropFile),
            1 => any::<u16>().prop_map(Damage::GlueDelim),
            1 => Just(Damage::NoProvider),
        ];
        (form(), prop::option::weighted(0.5, d)).prop_map(|(form, damage)| Case { form, damage }).boxed()
    }
    fn directed(&self, _: Tier) -> Vec<Case> {
        // one form cut at every single position, and byte by byte, whole and truncated there
        let base = super::form::plain();
        let mut v = vec![];
        for leading_crlf in [true, false] {
            let f = Form { leading_crlf, ..base.clone() };
            let n = f.request(&f.shuffled([f.fields(), f.auth_fields(&b64(&f.policy()), &f.cred())].concat())).0.body.len();
            for k in 0..n {
                v.push(Case { form: Form { cuts: FormCuts::Frag(crate::http::Frag { sizes: vec![k as u32, (n - k) as u32], pend: k % 2 == 0 }), ..f.clone() }, damage: None });
                v.push(Case { form: Form { cuts: FormCuts::Frag(crate::http::Frag { sizes: vec![64], pend: false }), ..f.clone() }, damage: Some(Damage::Truncate(k as u32)) });
            }
        }
        // large files, long lines, long and many fields
        let big = |content, cut: u32| Form { pieces: vec![Piece::Raw(content), Piece::Almost, Piece::Delim(5)], cuts: FormCuts::Frag(crate::http::Frag { sizes: vec![cut], pend: false }), ..base.clone() };
        for (len, cut) in [(65_536, 8192), (1 << 20, 65_536), ((17 << 20) + 1, 1 << 20), (3 << 20, 4 << 20)] {
            v.push(Case { form: big(Content::Gen { len, seed: 4 }, cut), damage: None });
        }
        v.push(Case { form: big(Content::Lit(vec![b'-'; 200_000]), 7000), damage: None });
        v.push(Case { form: big(Content::Lit(b"\r\n".repeat(50_000)), 999), damage: None });
        for cut in [64, 3000, 100_000] {
            let f = big(Content::Lit(b"x".to_vec()), cut);
            v.push(Case { form: Form { meta: (0..80).map(|i| (format!("m-{i}"), format!("v {i}"))).collect(), ..f.clone() }, damage: None });
            v.push(Case { form: Form { key: "k".repeat(1024), meta: [("long".to_owned(), "v".repeat(1900))].into(), ignored: [("submit".to_owned(), "s".repeat(15_000))].into(), ..f.clone() }, damage: None });
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let f = &c.form;
        let mut cred = f.cred();
        let policy_b64 = b64(&f.policy());
        match &c.damage {
            Some(Damage::WrongSecret(s)) => cred.secret = s.clone(),
            Some(Damage::UnknownKey) => cred.access.push_str("ZZ"),
            _ => {}
        }
        let mut auth = f.auth_fields(&policy_b64, &cred);
        let mut own = f.fields();
        let mut refuse: Option<&str> = None;
        let mut damaged = vec![];
        match &c.damage {
            Some(Damage::OtherPolicy) => {
                let g = Form { key: format!("{}x", f.key), ..f.clone() };
                auth[0].1 = b64(&g.policy());
            }
            Some(Damage::FlipPolicy(i, x)) => {
                let mut b = auth[0].1.clone().into_bytes();
                let i = usize::from(*i) % b.len();
                b[i] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[usize::from(*x) % 64];
                auth[0].1 = String::from_utf8(b).unwrap();
            }
            Some(Damage::FlipSig(i, x)) => {
                let mut b = auth[4].1.clone().into_bytes();
                let i = usize::from(*i) % b.len();
                let old = (b[i] as char).to_digit(16).unwrap();
                b[i] = std::char::from_digit(old ^ u32::from(*x), 16).unwrap() as u8;
                auth[4].1 = String::from_utf8(b).unwrap();
            }
            Some(Damage::EmptySig) => auth[4].1 = String::new(),
            Some(Damage::Set(i, v)) => auth[usize::from(*i) % 5].1 = v.clone(),
            Some(Damage::Drop(i)) => {
                auth.remove(usize::from(*i) % 5);
            }
            Some(Damage::Region(r)) => auth[2].1 = format!("{}/{}/{r}/s3/aws4_request", cred.access, &cred.date[..8]),
            Some(Damage::Date(d)) => auth[3].1 = d.clone(),
            Some(Damage::DropKey) => {
                own.remove(0);
                refuse = Some("no key field");
            }
            Some(Damage::EmptyKey) => {
                own[0].1 = String::new();
                refuse = Some("empty key");
            }
            _ => {}
        }
        let fields = f.shuffled([own, auth].concat());
        let (mut r, marks) = f.request(&fields);
        let bad = |v: &str| v.starts_with(&format!("--{}", f.boundary)) || v.contains(&format!("\r\n--{}", f.boundary));
        if fields.iter().any(|(_, v)| bad(v)) {
            // a short boundary that occurs in the signature or the policy
            cx.label("skipped: boundary occurs in a field");
            return Ok(());
        }
        if !signed(&fields, &f.keys) {
            refuse = Some("not signed");
        } else if unsatisfied(&f.conds(), &f.bucket, &fields, f.content().len()).is_some() {
            // e.g. a time of the same day
            refuse = Some("policy");
        }
        let (file, done) = (marks[0], marks[2]);
        match &c.damage {
            Some(Damage::Truncate(n)) => {
                let n = *n as usize % r.body.len();
                r.body.truncate(n);
                if f.length_header {
                    r.set("content-length", n.to_string());
                }
                damaged.push(n);
            }
            Some(Damage::Fail(n)) => {
                let n = *n as usize % r.body.len();
                r.fail_after = Some(n);
                damaged.push(n);
            }
            Some(Damage::OtherBoundary(b)) => {
                if *b != f.boundary {
                    r.set("content-type", format!("multipart/form-data; boundary={b}"));
                    refuse = Some("other boundary");
                }
            }
            Some(Damage::NoBoundary) => {
                r.set("content-type", "multipart/form-data");
                refuse = Some("no boundary");
            }
            Some(Damage::DropFile) => {
                r.body.truncate(file);
                let cut = r.body.windows(f.delim().len()).rposition(|w| w == f.delim()).unwrap_or(0);
                r.body.truncate(cut + f.delim().len());
                r.body.extend(b"--\r\n");
                refuse = Some("no file");
            }
            Some(Damage::GlueDelim(i)) => {
                // joins a field to the next part, so that one of them is lost; judged by what is still there
                let d = f.delim();
                let at: Vec<usize> = r.body[..file].windows(d.len()).enumerate().filter(|(_, w)| *w == d).map(|(i, _)| i).collect();
                if at.is_empty() {
                    return Ok(());
                }
                let p = at[usize::from(*i) % at.len()];
                r.body.drain(p..p + 2);
                let (_, calls) = one_shot(Some(&f.keys), &r)?;
                if calls.iter().any(|x| x.body.as_ref().map_or(false, |b| b.err.is_none() && b.bytes != f.content())) {
                    return viol("glued-content", format!("a form without a delimiter stored something else\n{}\n{}", r.show(), show_calls(&calls)));
                }
                cx.label("unjudged: glued delimiter");
                return Ok(());
            }
            _ => {}
        }
        if let Some(Damage::NoProvider) = c.damage {
            refuse = Some("no provider");
        }
        if let Some(n) = damaged.first() {
            if *n >= done {
                cx.label("unjudged: cut behind the file");
                let (_, calls) = one_shot(Some(&f.keys), &r)?;
                if calls.iter().any(|x| x.body.as_ref().map_or(false, |b| b.err.is_none() && b.bytes != f.content())) {
                    return viol("late-content", format!("a form cut behind its file stored something else\n{}\n{}", r.show(), show_calls(&calls)));
                }
                return Ok(());
            }
        }
        let (resp, calls) = one_shot(if refuse == Some("no provider") { None } else { Some(&f.keys) }, &r)?;
        if refuse.is_some() || !damaged.is_empty() {
            cx.nontrivial();
            let why = refuse.unwrap_or_else(|| if damaged[0] < file { "ends before the file" } else { "ends inside the file" });
            cx.label(format!("refuse: {why}"));
            if resp.ok() {
                return viol(format!("accepted:{why}"), format!("answered {} although {why}\n{}\n{}", resp.show(), r.show(), show_calls(&calls)));
            }
            let complete = calls.iter().any(|x| x.body.as_ref().map_or(true, |b| b.err.is_none()));
            if complete || (refuse.is_some() && !calls.is_empty()) {
                return viol(format!("stored:{why}"), format!("storage called although {why}\n{}\n{}", r.show(), show_calls(&calls)));
            }
            return Ok(());
        }
        let frags = r.frag.cut(&r.body).len();
        if frags > 1 {
            cx.nontrivial();
        }
        cx.label(format!("accept, fragments {}", match frags { 1 => "1", 2..=9 => "2-9", 10..=99 => "10-99", _ => "100+" }));
        if !resp.ok() {
            return viol("refused", format!("correct form refused: {}\n{}", resp.show(), r.show()));
        }
        let want = f.expected();
        if calls.len() != 1 || !want.contains(&calls[0]) {
            let what = if calls.len() != 1 {
                "calls"
            } else if calls[0].body != want[0].body {
                "content"
            } else if calls[0].meta != want[0].meta {
                "metadata"
            } else {
                "attributes"
            };
            return viol(what, format!("the storage received\n{}\ninstead of\n{}\n{}", show_calls(&calls), want[0].show(), r.show()));
        }
        Ok(())
    }
}
