//! C07: browser form uploads obey the conditions and the expiration of their policy.

use super::form::*;
use crate::engine::*;
use crate::mock::{one_shot, show_calls};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Malformed {
    NotJson,
    Cut(u16),
    NoExpiration,
    NoConditions,
    NotAList,
    BadExpiration(u8),
    UnknownOperator,
    ShortCondition,
    NoDollar,
    BadRange,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tweak {
    /// changes the value of a condition
    Value(u8, Change),
    /// changes the value of a field that was signed for
    Field(u8, Change),
    /// conditions lost
    Drop(u8),
    /// a further field
    Extra(String, String),
    /// a condition on a field that is not there
    Missing(String, String),
    /// length range relative to the content
    Length(i64, i64),
    /// an absolute one
    LengthAbs(u64, u64),
    /// a condition repeated with another operator and this many bytes of the value
    Again(u8, u8, u8),
    Malformed(Malformed),
    /// the bucket of the URL is another
    Bucket(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Append(char),
    DropLast,
    DropFirst,
    SwapCase,
    Empty,
    Set(String),
}

impl Change {
    fn apply(&self, s: &mut String) {
        match self {
            Change::Append(c) => s.push(*c),
            Change::DropLast => {
                s.pop();
            }
            Change::DropFirst => {
                *s = s.chars().skip(1).collect();
            }
            Change::SwapCase => *s = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            Change::Empty => s.clear(),
            Change::Set(v) => *s = v.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub form: Form,
    /// operator and prefix length for each field in turn
    pub ops: Vec<(u8, u8)>,
    /// seconds from now
    pub expires: i64,
    pub millis: bool,
    pub style: u8,
    pub cond_case: u8,
    pub tweaks: Vec<Tweak>,
}

pub struct C07;

fn prefix(v: &str, n: u8) -> String {
    let mut n = usize::from(n).min(v.len());
    while !v.is_char_boundary(n) {
        n -= 1;
    }
    v[..n].to_owned()
}

fn cond(op: u8, n: String, v: &str, k: u8) -> Cond {
    match op % 5 {
        0 => Cond::Exact(n, v.to_owned()),
        1 => Cond::Eq(n, v.to_owned()),
        2 => Cond::Starts(n, String::new()),
        3 => Cond::Starts(n, prefix(v, k)),
        _ => Cond::Starts(n, v.to_owned()),
    }
}

/// JSON with every character outside [a-z] of the strings escaped
fn escaped(s: &str) -> String {
    let mut out = String::new();
    let mut in_str = false;
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        match c {
            '"' => {
                in_str = !in_str;
                out.push(c);
            }
            '\\' => {
                out.push(c);
                out.extend(chars.next());
            }
            c if in_str && !c.is_ascii_lowercase() => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    out.push_str(&format!("\\u{u:04X}"));
                }
            }
            c => out.push(c),
        }
    }
    out
}

impl Case {
    fn document(&self, conds: &[Cond]) -> String {
        let at = chrono::Utc::now() + chrono::Duration::seconds(self.expires);
        let exp = at.format(if self.millis { "%Y-%m-%dT%H:%M:%S.000Z" } else { "%Y-%m-%dT%H:%M:%SZ" }).to_string();
        let list: Vec<_> = conds.iter().map(Cond::json).collect();
        let v = serde_json::json!({ "expiration": exp, "conditions": list });
        let bad = self.tweaks.iter().find_map(|t| if let Tweak::Malformed(m) = t { Some(*m) } else { None });
        let mut v = match bad {
            None | Some(Malformed::Cut(_)) => v,
            Some(Malformed::NotJson) => return "no JSON".into(),
            Some(Malformed::Empty) => return String::new(),
            Some(Malformed::NoExpiration) => serde_json::json!({ "conditions": list }),
            Some(Malformed::NoConditions) => serde_json::json!({ "expiration": exp }),
            Some(Malformed::NotAList) => serde_json::json!({ "expiration": exp, "conditions": "all" }),
            Some(Malformed::BadExpiration(k)) => {
                let e = ["", "never", "2199-13-01T00:00:00Z", "4102444800", "2199-02-30T00:00:00Z", "2199-01-01T25:00:00Z"];
                serde_json::json!({ "expiration": e[usize::from(k) % e.len()], "conditions": list })
            }
            Some(m) => {
                let mut l = list;
                l.push(match m {
                    Malformed::UnknownOperator => serde_json::json!(["contains", "$key", ""]),
                    Malformed::ShortCondition => serde_json::json!(["eq", "$key"]),
                    Malformed::NoDollar => serde_json::json!(["starts-with", "key", ""]),
                    _ => serde_json::json!(["content-length-range", "x", "y"]),
                });
                serde_json::json!({ "expiration": exp, "conditions": l })
            }
        };
        if let Some(Malformed::Cut(n)) = bad {
            let s = v.to_string();
            let mut n = usize::from(n) % s.len();
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            return s[..n].to_owned();
        }
        match self.style % 4 {
            0 => v.to_string(),
            1 => serde_json::to_string_pretty(&v).unwrap(),
            2 => escaped(&v.to_string()),
            _ => {
                let c = v["conditions"].take();
                format!("{{ \"conditions\":\n{c} ,\t\"expiration\" :{}}}\r\n", v["expiration"])
            }
        }
    }
}

impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "signed forms with a policy of exact, eq, starts-with and content-length-range conditions over their fields, in several JSON spellings, expiring before or after now, then 0-3 tweaks of the conditions, fields, bucket, lengths or document; non-trivial = the reference refuses, or accepts a policy with at least one condition beside plain equality";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "left open: 30 s after and 300 s before expiration, a policy without a condition on the bucket, comma separated content types under starts-with, empty conditions on absent fields, repeated fields",
    ];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 2_500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let change = prop_oneof![
            3 => prop_oneof![Just('x'), Just('/'), Just(' '), Just('\u{e9}'), any::<char>().prop_filter("control", |c| !c.is_control())].prop_map(Change::Append),
            3 => Just(Change::DropLast),
            1 => Just(Change::DropFirst),
            2 => Just(Change::SwapCase),
            1 => Just(Change::Empty),
            2 => "[a-zA-Z0-9/ .-]{0,12}".prop_map(Change::Set),
        ];
        let name = prop_oneof![
            3 => prop::sample::select(vec!["acl", "Content-Type", "x-amz-meta-q", "X-Amz-Meta-Tag", "tagging", "success_action_status", "success_action_redirect", "submit", "x-ignore-q", "X-Ignore-Me", "x-amz-security-token", "x-amz-storage-class", "redirect", "AWSAccessKeyId2"]).prop_map(str::to_owned),
            1 => "[a-z][a-z0-9-]{0,9}",
        ];
        let off = prop_oneof![4 => -2_i64..3, 1 => -100_i64..100, 1 => Just(i64::MIN / 4), 1 => Just(i64::MAX / 4)];
        let bad = prop_oneof![
            Just(Malformed::NotJson),
            any::<u16>().prop_map(Malformed::Cut),
            Just(Malformed::NoExpiration),
            Just(Malformed::NoConditions),
            Just(Malformed::NotAList),
            any::<u8>().prop_map(Malformed::BadExpiration),
            Just(Malformed::UnknownOperator),
            Just(Malformed::ShortCondition),
            Just(Malformed::NoDollar),
            Just(Malformed::BadRange),
            Just(Malformed::Empty),
        ];
        let tweak = prop_oneof![
            6 => (any::<u8>(), change.clone()).prop_map(|(i, c)| Tweak::Value(i, c)),
            4 => (any::<u8>(), change).prop_map(|(i, c)| Tweak::Field(i, c)),
            2 => any::<u8>().prop_map(Tweak::Drop),
            3 => (name.clone(), "[a-z ]{0,9}").prop_map(|(n, v)| Tweak::Extra(n, v)),
            2 => (name, "[a-z]{1,9}").prop_map(|(n, v)| Tweak::Missing(n, v)),
            7 => (off.clone(), off).prop_map(|(a, b)| Tweak::Length(a, b)),
            2 => (prop_oneof![Just(0_u64), Just(1), 0_u64..100], prop_oneof![Just(0_u64), Just(5 << 30), Just(u64::MAX), 0_u64..10_000]).prop_map(|(a, b)| Tweak::LengthAbs(a, b)),
            2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(i, o, n)| Tweak::Again(i, o, n)),
            1 => bad.prop_map(Tweak::Malformed),
            1 => "[a-z0-9]{3,9}".prop_map(Tweak::Bucket),
        ];
        let expires = prop_oneof![6 => 300_i64..100_000, 1 => Just(3_000_000_000), 1 => -200_000_i64..-30, 1 => Just(-1_500_000_000)];
        (form(), prop::collection::vec((any::<u8>(), any::<u8>()), 1..8), expires, any::<bool>(), any::<u8>(), 0_u8..3, prop::collection::vec(tweak, 0..4))
            .prop_map(|(form, ops, expires, millis, style, cond_case, tweaks)| Case { form, ops, expires, millis, style, cond_case, tweaks })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let mut f = c.form.clone();
        let content = f.content();
        let cred = f.cred();
        let case = |n: &str| crate::ops::recase(n, c.cond_case);
        // the policy of the form as it was meant
        let mut own = f.fields();
        let mut conds = vec![];
        let auth: Vec<(String, String)> = f.auth_fields("", &cred).drain(1..4).collect();
        let bucket = ("bucket".to_owned(), f.bucket.clone());
        for (i, (n, v)) in std::iter::once(&bucket).chain(&own).chain(&auth).enumerate() {
            let (op, k) = c.ops[i % c.ops.len()];
            conds.push(cond(op.wrapping_add(i as u8), case(n), v, k));
        }
        for t in &c.tweaks {
            match t {
                Tweak::Value(i, how) => {
                    let n = conds.len();
                    if n > 0 {
                        if let Cond::Exact(_, v) | Cond::Eq(_, v) | Cond::Starts(_, v) = &mut conds[usize::from(*i) % n] {
                            how.apply(v);
                        }
                    }
                }
                Tweak::Field(i, how) => {
                    let n = own.len();
                    how.apply(&mut own[usize::from(*i) % n].1);
                }
                Tweak::Drop(i) => {
                    // the condition on the bucket is left open
                    if conds.len() > 1 {
                        let at = 1 + usize::from(*i) % (conds.len() - 1);
                        conds.remove(at);
                    }
                }
                Tweak::Extra(n, v) => {
                    if !own.iter().any(|(m, _)| m.eq_ignore_ascii_case(n)) {
                        own.push((n.clone(), v.clone()));
                    }
                }
                Tweak::Missing(n, v) => {
                    conds.push(if v.len() % 2 == 0 { Cond::Eq(n.clone(), v.clone()) } else { Cond::Starts(n.clone(), v.clone()) });
                }
                Tweak::Length(a, b) => {
                    let at = |o: i64| (content.len() as i64).saturating_add(o).max(0) as u64;
                    conds.push(Cond::Length(at(*a), at(*b)));
                }
                Tweak::LengthAbs(a, b) => conds.push(Cond::Length(*a, *b)),
                Tweak::Again(i, op, k) => {
                    let all: Vec<&(String, String)> = std::iter::once(&bucket).chain(&own).chain(&auth).collect();
                    let (n, v) = all[usize::from(*i) % all.len()];
                    conds.push(cond(*op, case(n), v, *k));
                }
                Tweak::Malformed(_) => {}
                Tweak::Bucket(b) => f.bucket = b.clone(),
            }
        }
        let document = c.document(&conds);
        let b64 = base64_simd::STANDARD.encode_to_string(&document);
        let fields = f.shuffled([own.clone(), f.auth_fields(&b64, &cred)].concat());
        let delim = f.delim();
        let clash = |v: &str| v.as_bytes().starts_with(&delim[2..]) || v.as_bytes().windows(delim.len()).any(|w| w == delim);
        if fields.iter().any(|(_, v)| clash(v)) {
            cx.label("skipped: boundary occurs in a field");
            return Ok(());
        }
        let key = &own[0].1;
        if key.len() > 1024 {
            cx.label("skipped: key too long");
            return Ok(());
        }
        let malformed = c.tweaks.iter().any(|t| matches!(t, Tweak::Malformed(_)));
        let why = if malformed {
            Some("malformed document".to_owned())
        } else if c.expires < 0 {
            Some("expired".to_owned())
        } else if key.is_empty() {
            Some("empty key".to_owned())
        } else {
            unsatisfied(&conds, &f.bucket, &fields, content.len())
        };
        // attributes with values that cannot be used, and what is left open
        let get = |n: &str| own.iter().find(|(m, _)| m.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str());
        let open = get("x-amz-server-side-encryption-bucket-key-enabled").map_or(false, |v| v != "true" && v != "false")
            || get("content-type").map_or(false, |v| v.contains(','))
            || conds.iter().any(|c| matches!(c, Cond::Eq(n, v) | Cond::Exact(n, v) | Cond::Starts(n, v) if v.is_empty() && get(n).is_none() && !n.to_lowercase().starts_with("x-amz-")))
            || key.contains("${");
        let (r, _) = f.request(&fields);
        let (resp, calls) = one_shot(Some(&f.keys), &r)?;
        let shown = || format!("policy {document}\nanswered {}\n{}\n{}", resp.show(), r.show(), show_calls(&calls));
        match why {
            Some(w) => {
                cx.nontrivial();
                cx.label(format!("refuse: {w}"));
                if resp.ok() {
                    return viol(format!("accepted:{w}"), format!("accepted although: {w}\n{}", shown()));
                }
                let complete = calls.iter().any(|x| x.body.as_ref().map_or(true, |b| b.err.is_none()));
                if complete || (!w.starts_with("length") && !calls.is_empty()) {
                    return viol(format!("stored:{w}"), format!("storage called although: {w}\n{}", shown()));
                }
            }
            None if open => cx.label("unjudged"),
            None => {
                cx.label(format!("accept, {}", if c.tweaks.is_empty() { "as meant" } else { "tweaked" }));
                if conds.iter().any(|c| matches!(c, Cond::Starts(..) | Cond::Length(..))) {
                    cx.nontrivial();
                }
                if !resp.ok() {
                    return viol("refused", format!("a form that satisfies its policy was refused\n{}", shown()));
                }
                if calls.len() != 1 || calls[0].body.as_ref().map_or(true, |b| b.err.is_some() || b.bytes != content) {
                    return viol("content", format!("the file of the form was not stored\n{}", shown()));
                }
            }
        }
        Ok(())
    }
}
