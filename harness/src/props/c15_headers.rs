//! C15: header-value parsers against independent recognisers. Values are drawn from each grammar and from
//! near-misses (a valid value with a few edits); where the documentation leaves a spelling open the verdict is
//! `Open` and nothing is asked beyond not panicking.

use super::c13_paths::bucket_ok;
use crate::engine::*;
use proptest::prelude::*;
use s3_server::headers::{AmzContentSha256, AmzCopySource, AmzDate, AuthorizationV4, Range};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    Range,
    Date,
    Auth,
    CopySource,
    Sha,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub text: String,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Want {
    Refuse,
    Open,
    /// accepted, with exactly these components
    Parts(Vec<String>),
    /// either refused or accepted with exactly these components
    OpenParts(Vec<String>),
}
use Want::{Open, OpenParts, Parts, Refuse};

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn number(s: &str) -> Option<u64> {
    if !digits(s) {
        return None;
    }
    let mut n: u64 = 0;
    for b in s.bytes() {
        n = n.checked_mul(10)?.checked_add(u64::from(b - b'0'))?;
    }
    Some(n)
}

pub fn want_range(s: &str) -> Want {
    let rest = match s.strip_prefix("bytes=") {
        Some(r) => r,
        // range units are case-insensitive in RFC 9110, other units are refused
        None if s.len() > 6 && s.is_char_boundary(6) && s[..6].eq_ignore_ascii_case("bytes=") => return Open,
        None => return Refuse,
    };
    let (a, b) = match rest.find('-') {
        None => return Refuse,
        Some(i) => (&rest[..i], &rest[i + 1..]),
    };
    match (a, b) {
        ("", "") => Refuse,
        ("", n) => number(n).map_or(Refuse, |n| Parts(vec!["suffix".into(), n.to_string()])),
        (f, "") => number(f).map_or(Refuse, |f| Parts(vec!["from".into(), f.to_string()])),
        (f, l) => match (number(f), number(l)) {
            (Some(f), Some(l)) if f <= l => Parts(vec!["between".into(), f.to_string(), l.to_string()]),
            _ => Refuse,
        },
    }
}

fn days(y: u32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

/// Some(true) a calendar date, Some(false) not one, None: not eight digits
fn calendar(s: &str) -> Option<bool> {
    if s.len() != 8 || !digits(s) {
        return None;
    }
    let n = |a: usize, b: usize| number(&s[a..b]).unwrap_or(0) as u32;
    let (y, m, d) = (n(0, 4), n(4, 6), n(6, 8));
    Some(d >= 1 && d <= days(y, m))
}

pub fn want_date(s: &str) -> Want {
    let b = s.as_bytes();
    if b.len() != 16 || b[8] != b'T' || b[15] != b'Z' || !s.is_ascii() || !digits(&s[..8]) || !digits(&s[9..15]) {
        return Refuse;
    }
    let n = |i: usize| number(&s[i..i + 2]).unwrap_or(99);
    let parts = vec![s.to_owned(), s[..8].to_owned()];
    if calendar(&s[..8]) == Some(true) && n(9) < 24 && n(11) < 60 && n(13) < 60 && &s[..4] != "0000" {
        Parts(parts)
    } else {
        // the right shape but no point in time: the grammar is silent
        OpenParts(parts)
    }
}

pub fn want_sha(s: &str) -> Want {
    match s {
        "UNSIGNED-PAYLOAD" => Parts(vec!["unsigned".into()]),
        "STREAMING-AWS4-HMAC-SHA256-PAYLOAD" => Parts(vec!["chunks".into()]),
        _ => {
            let hex = s.len() == 64 && s.bytes().all(|b| b.is_ascii_hexdigit());
            if hex && s.bytes().all(|b| !b.is_ascii_uppercase()) {
                Parts(vec!["single".into(), s.into()])
            } else if hex {
                OpenParts(vec!["single".into(), s.into()])
            } else {
                Refuse
            }
        }
    }
}

pub fn want_copy(s: &str) -> Want {
    let (rest, lead) = s.strip_prefix('/').map_or((s, false), |r| (r, true));
    let (b, k) = match rest.find('/') {
        None => return Refuse,
        Some(i) => (&rest[..i], &rest[i + 1..]),
    };
    if k.is_empty() || k.len() > 1024 {
        return Refuse;
    }
    match bucket_ok(b) {
        Some(false) => Refuse,
        None => Open,
        Some(true) if k.contains("?versionId=") => Open,
        Some(true) if lead => OpenParts(vec![b.into(), k.into()]),
        Some(true) => Parts(vec![b.into(), k.into()]),
    }
}

fn token(s: &str, extra: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || extra.contains(c))
}

/// The documented form: `ALG Credential=AK/DATE/REGION/SERVICE/aws4_request, SignedHeaders=a;b, Signature=hex`,
/// with optional white space after the commas and around the value.
pub fn want_auth(s: &str) -> Want {
    let ws: &[char] = &[' ', '\t', '\r', '\n'];
    let (alg, rest) = match s.find(ws) {
        None => return Refuse,
        Some(0) => return Open,
        Some(i) => (&s[..i], s[i..].trim_start_matches(ws)),
    };
    let rest = match rest.strip_prefix("Credential=") {
        None => return maybe(s),
        Some(r) => r,
    };
    // credential: up to the first comma
    let (cred, rest) = match rest.find(',') {
        None => return maybe(s),
        Some(i) => (&rest[..i], rest[i + 1..].trim_start_matches(ws)),
    };
    let c: Vec<&str> = cred.split('/').collect();
    if c.len() < 5 {
        // a comma inside a component: not excluded in so many words
        let upto = s.find("SignedHeaders=").unwrap_or(0);
        return if s[..upto].matches(',').count() > 1 { Open } else { Refuse };
    }
    if c.len() > 5 {
        // an access key id with a slash would be ambiguous; everything after the fifth component is foreign text
        return if c[4] == "aws4_request" { Refuse } else { maybe(s) };
    }
    if c[4] != "aws4_request" {
        return if c[4].trim_end_matches(ws) == "aws4_request" { Open } else { Refuse };
    }
    if c[0].is_empty() || c[1].is_empty() || c[3].is_empty() {
        return Refuse;
    }
    match calendar(c[1]) {
        None | Some(false) => return Refuse,
        Some(true) => {}
    }
    let rest = match rest.strip_prefix("SignedHeaders=") {
        None => return maybe(s),
        Some(r) => r,
    };
    let (hs, rest) = match rest.find(',') {
        None => return maybe(s),
        Some(i) => (&rest[..i], rest[i + 1..].trim_start_matches(ws)),
    };
    let sig = match rest.strip_prefix("Signature=") {
        None => return maybe(s),
        Some(r) => r.trim_end_matches(ws),
    };
    if sig.contains(ws) {
        return Refuse;
    }
    let headers: Vec<&str> = hs.split(';').collect();
    let mut parts: Vec<String> = vec![alg.into(), c[0].into(), c[1].into(), c[2].into(), c[3].into(), sig.into()];
    parts.extend(headers.iter().map(|h| (*h).to_owned()));
    let strict = alg == "AWS4-HMAC-SHA256"
        && token(c[0], "_.-=+")
        && token(c[2], "-")
        && token(c[3], "-")
        && !c[1].starts_with("0000")
        && headers.iter().all(|h| token(h, "-_.!#$%&'*+^`|~") && !h.bytes().any(|b| b.is_ascii_uppercase()))
        && sig.len() == 64
        && sig.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b));
    if strict {
        Parts(parts)
    } else {
        // recognisable, with a component of unusual shape: refuse it or report it as written
        OpenParts(parts)
    }
}

/// A value where one of the three members is missing must be refused; another order or spelling of the member
/// names is not.
fn maybe(s: &str) -> Want {
    let l = s.to_ascii_lowercase();
    if ["credential", "signedheaders", "signature"].iter().all(|m| l.contains(m)) {
        Open
    } else {
        Refuse
    }
}

fn want(c: &Case) -> Want {
    match c.kind {
        Kind::Range => want_range(&c.text),
        Kind::Date => want_date(&c.text),
        Kind::Auth => want_auth(&c.text),
        Kind::CopySource => want_copy(&c.text),
        Kind::Sha => want_sha(&c.text),
    }
}

fn got(c: &Case) -> Result<Vec<String>, String> {
    let t = c.text.as_str();
    match c.kind {
        Kind::Range => Range::from_header_str(t).map_err(|e| e.to_string()).map(|r| match r {
            Range::Normal { first, last: Some(l) } => vec!["between".into(), first.to_string(), l.to_string()],
            Range::Normal { first, last: None } => vec!["from".into(), first.to_string()],
            Range::Suffix { last } => vec!["suffix".into(), last.to_string()],
        }),
        Kind::Date => AmzDate::from_header_str(t).map_err(|e| e.to_string()).map(|d| vec![d.to_iso8601(), d.to_date()]),
        Kind::Auth => AuthorizationV4::from_header_str(t).map_err(|e| e.to_string()).map(|a| {
            let c = a.credential;
            let mut v: Vec<String> = vec![a.algorithm.into(), c.access_key_id.into(), c.date.into(), c.aws_region.into(), c.aws_service.into(), a.signature.into()];
            v.extend(a.signed_headers.iter().map(|h| (*h).to_owned()));
            v
        }),
        Kind::CopySource => AmzCopySource::from_header_str(t).map_err(|e| e.to_string()).map(|s| match s {
            AmzCopySource::Bucket { bucket, key } => vec![bucket.into(), key.into()],
            AmzCopySource::AccessPoint { region, account_id, access_point_name, key } => vec![region.into(), account_id.into(), access_point_name.into(), key.into()],
        }),
        Kind::Sha => AmzContentSha256::from_header_str(t).map_err(|e| e.to_string()).map(|s| match s {
            AmzContentSha256::MultipleChunks => vec!["chunks".into()],
            AmzContentSha256::UnsignedPayload => vec!["unsigned".into()],
            AmzContentSha256::SingleChunk { payload_checksum } => vec!["single".into(), payload_checksum.into()],
        }),
    }
}

fn num() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0_u64..2000).prop_map(|n| n.to_string()),
        2 => any::<u64>().prop_map(|n| n.to_string()),
        1 => Just(u64::MAX.to_string()),
        1 => Just("18446744073709551616".to_owned()),
        1 => "[0-9]{19,24}",
        1 => "0{1,4}[0-9]{0,3}",
    ]
    .boxed()
}

fn range() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (num(), num()).prop_map(|(a, b)| format!("bytes={a}-{b}")),
        2 => (0_u64..3000, 0_u64..50).prop_map(|(a, d)| format!("bytes={a}-{}", a + d)),
        1 => any::<u64>().prop_map(|a| format!("bytes={a}-{a}")),
        2 => num().prop_map(|a| format!("bytes={a}-")),
        2 => num().prop_map(|a| format!("bytes=-{a}")),
        1 => (num(), num(), num()).prop_map(|(a, b, c)| format!("bytes={a}-{b},{c}-")),
    ]
    .boxed()
}

fn day() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (1970_u32..2100, 1_u32..13, 1_u32..32).prop_map(|(y, m, d)| format!("{y:04}{m:02}{d:02}")),
        2 => (prop_oneof![Just(1900), Just(2000), Just(2004), Just(2023), Just(2024), Just(2100)], prop_oneof![Just((2, 28)), Just((2, 29)), Just((2, 30)), Just((4, 30)), Just((4, 31)), Just((9, 31)), Just((12, 31)), Just((12, 32)), Just((0, 1)), Just((13, 1)), Just((1, 0))]).prop_map(|(y, (m, d)): (u32, (u32, u32))| format!("{y:04}{m:02}{d:02}")),
        1 => "[0-9]{8}",
        1 => "[0-9]{7}|[0-9]{9}",
        1 => "[+]?[0-9]{3}[+]?[0-9][+]?[1-9]|[+]20[0-9][+]1[+]1",
        1 => (1970_u32..2100, 1_u32..10, 1_u32..10).prop_map(|(y, m, d)| format!("{y:04}+{m}+{d}")),
    ]
    .boxed()
}

fn date() -> BoxedStrategy<String> {
    (day(), prop_oneof![6 => (0_u32..24, 0_u32..60, 0_u32..60).prop_map(|(h, m, s)| format!("{h:02}{m:02}{s:02}")), 1 => "[0-9]{6}", 1 => "[0-9]{5}|[0-9]{7}"], prop_oneof![8 => Just("T"), 1 => Just("t"), 1 => Just(" "), 1 => Just("")], prop_oneof![8 => Just("Z"), 1 => Just("z"), 1 => Just(""), 1 => Just("Z ")])
        .prop_map(|(d, t, a, b)| format!("{d}{a}{t}{b}"))
        .boxed()
}

fn auth() -> BoxedStrategy<String> {
    let alg = prop_oneof![8 => Just("AWS4-HMAC-SHA256".to_owned()), 1 => "[A-Z0-9-]{1,12}"];
    let ak = prop_oneof![6 => "[A-Za-z0-9_.-]{1,24}", 1 => "", 1 => "\\PC{1,8}"];
    let region = prop_oneof![6 => "[a-z]{2}-[a-z]{4,9}-[0-9]", 1 => "", 1 => "[A-Za-z0-9-]{1,40}"];
    let service = prop_oneof![8 => Just("s3".to_owned()), 1 => "[a-z0-9-]{0,8}"];
    let term = prop_oneof![10 => Just("aws4_request".to_owned()), 1 => Just("AWS4_REQUEST".to_owned()), 1 => Just("aws4_reques".to_owned()), 1 => Just("aws4_requestx".to_owned()), 1 => Just("aws4_request/x".to_owned()), 1 => Just(String::new())];
    let hs = prop::collection::vec(prop_oneof![8 => "[a-z0-9-]{1,20}", 1 => Just("x-amz-meta-a_b".to_owned()), 1 => "[A-Za-z]{0,6}"], 1..24).prop_map(|v| v.join(";"));
    let sig = prop_oneof![8 => "[0-9a-f]{64}", 1 => "[0-9a-f]{63}|[0-9a-f]{65}", 1 => "[0-9A-F]{64}", 1 => "[0-9a-f]{0,3}"];
    let sp = || prop_oneof![4 => Just(" ".to_owned()), 4 => Just(String::new()), 1 => "[ \t]{1,4}"];
    let sp1 = prop_oneof![8 => Just(" ".to_owned()), 1 => "[ \t]{1,4}", 1 => Just(String::new())];
    let tail = prop_oneof![10 => Just(String::new()), 1 => "[ \t]{1,3}", 1 => Just(", Extra=1".to_owned()), 1 => Just(" x".to_owned())];
    ((alg, sp1, ak, day(), region, service), (term, sp(), hs, sp(), sig, tail))
        .prop_map(|((alg, s1, ak, d, r, sv), (t, s2, hs, s3, sig, tail))| format!("{alg}{s1}Credential={ak}/{d}/{r}/{sv}/{t},{s2}SignedHeaders={hs},{s3}Signature={sig}{tail}"))
        .boxed()
}

fn copy() -> BoxedStrategy<String> {
    let b = prop_oneof![6 => "[a-z0-9][a-z0-9.-]{1,12}[a-z0-9]", 1 => "[a-z0-9.-]{0,3}", 1 => "[a-z]{62,65}", 1 => "[A-Za-z_%é]{3,8}", 1 => Just("192.168.0.1".to_owned()), 1 => Just("arn:aws:s3:us-west-2:123456789012:accesspoint".to_owned())];
    let k = prop_oneof![6 => "[a-zA-Z0-9/._ %+&=?#-]{0,24}", 2 => "\\PC{1,12}", 1 => "[/]{1,3}[a-z]{0,2}[/]{0,2}", 1 => "[ab\n\t]{1,6}", 1 => (1018_usize..1030, any::<bool>()).prop_map(|(n, two)| if two { let mut s = "é".repeat(n / 2); if n % 2 == 1 { s.push('x') } s } else { "k".repeat(n) })];
    (prop_oneof![5 => Just(""), 1 => Just("/"), 1 => Just("//")], b, prop_oneof![9 => Just("/"), 1 => Just("")], k).prop_map(|(l, b, s, k)| format!("{l}{b}{s}{k}")).boxed()
}

fn sha() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[0-9a-f]{64}",
        2 => "[0-9a-f]{60,68}",
        1 => "[0-9a-fA-F]{64}",
        1 => "[0-9a-h]{64}",
        2 => Just("UNSIGNED-PAYLOAD".to_owned()),
        2 => Just("STREAMING-AWS4-HMAC-SHA256-PAYLOAD".to_owned()),
        1 => Just("STREAMING-UNSIGNED-PAYLOAD-TRAILER".to_owned()),
        1 => Just("STREAMING-AWS4-HMAC-SHA256-PAYLOAD-TRAILER".to_owned()),
        1 => "\\PC{0,20}",
    ]
    .boxed()
}

#[derive(Clone, Debug)]
enum Edit {
    Delete(u16),
    Insert(u16, char),
    Replace(u16, char),
    Swap(u16),
    Dup(u16, u8),
    Cut(u16),
    Case(u16),
}

fn edit(s: &str, e: &Edit) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    let at = |i: u16, n: usize| if n == 0 { 0 } else { usize::from(i) % n };
    match e {
        Edit::Delete(i) if n > 0 => {
            v.remove(at(*i, n));
        }
        Edit::Insert(i, c) => v.insert(at(*i, n + 1), *c),
        Edit::Replace(i, c) if n > 0 => v[at(*i, n)] = *c,
        Edit::Swap(i) if n > 1 => {
            let k = at(*i, n - 1);
            v.swap(k, k + 1);
        }
        Edit::Dup(i, l) if n > 0 => {
            let k = at(*i, n);
            let m = (k + 1 + usize::from(*l)).min(n);
            let part: Vec<char> = v[k..m].to_vec();
            let tail = v.split_off(m);
            v.extend(part);
            v.extend(tail);
        }
        Edit::Cut(i) if n > 0 => v.truncate(at(*i, n)),
        Edit::Case(i) if n > 0 => {
            let k = at(*i, n);
            v[k] = if v[k].is_ascii_uppercase() { v[k].to_ascii_lowercase() } else { v[k].to_ascii_uppercase() };
        }
        _ => {}
    }
    v.into_iter().collect()
}

fn edits() -> BoxedStrategy<Edit> {
    let c = prop_oneof![
        6 => prop::sample::select(" \t,;=/-+.:TZbytes0123456789aAfF%_?\"é٣".chars().collect::<Vec<_>>()),
        1 => any::<char>(),
    ];
    prop_oneof![
        3 => any::<u16>().prop_map(Edit::Delete),
        3 => (any::<u16>(), c.clone()).prop_map(|(i, c)| Edit::Insert(i, c)),
        3 => (any::<u16>(), c).prop_map(|(i, c)| Edit::Replace(i, c)),
        1 => any::<u16>().prop_map(Edit::Swap),
        1 => (any::<u16>(), 0_u8..20).prop_map(|(i, l)| Edit::Dup(i, l)),
        1 => any::<u16>().prop_map(Edit::Cut),
        1 => any::<u16>().prop_map(Edit::Case),
    ]
    .boxed()
}

pub struct C15;

impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "values of the six grammars (boundary numbers and calendar dates, 1..23 signed headers, optional white space, key lengths around 1024) with up to three random edits (delete, insert, replace, swap, duplicate a span, cut, change case); non-trivial = the reference recogniser gives a verdict (accept with components, or refuse) and the value is longer than eight characters";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "left open: upper-case hex checksums, case of the range unit, a timestamp of the right shape that is no calendar time, member order in Authorization, components of unusual characters in Authorization (then either refused or reported as written), a leading '/' and ?versionId= in a copy source",
        "the credential scope is observed through AuthorizationV4; its use in presigned URLs is exercised by C03",
    ];
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 160_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let base = prop_oneof![
            2 => range().prop_map(|t| (Kind::Range, t)),
            2 => date().prop_map(|t| (Kind::Date, t)),
            4 => auth().prop_map(|t| (Kind::Auth, t)),
            2 => copy().prop_map(|t| (Kind::CopySource, t)),
            1 => sha().prop_map(|t| (Kind::Sha, t)),
        ];
        (base, prop_oneof![4 => Just(Vec::new()), 5 => prop::collection::vec(edits(), 1..4)])
            .prop_map(|((kind, mut text), es)| {
                for e in &es {
                    text = edit(&text, e);
                }
                Case { kind, text }
            })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let w = want(c);
        let k = format!("{:?}", c.kind);
        let verdict = match w {
            Refuse => "refuse",
            Open => "open",
            Parts(_) => "accept",
            OpenParts(_) => "open-parts",
        };
        cx.label(&format!("{k}:{verdict}"));
        if !matches!(w, Open) && c.text.len() > 8 {
            cx.nontrivial();
        }
        if c.kind == Kind::CopySource {
            let m = AmzCopySource::try_match(&c.text).is_ok();
            // this one looks at the encoded text, where a line break cannot occur
            if !m && !c.text.contains('\n') && matches!(w, Parts(_)) {
                return viol("copy:pattern", format!("try_match refuses the copy source {:?}, which is of the form bucket/key", c.text));
            }
        }
        let g = got(c);
        match (w, g) {
            (Open, _) | (Refuse, Err(_)) | (OpenParts(_), Err(_)) => Ok(()),
            (Refuse, Ok(p)) => viol(&format!("{k}:accepted"), format!("{k} parser accepts {:?} as {:?}; it is not a value of the grammar", c.text, p)),
            (Parts(p), Err(e)) => viol(&format!("{k}:refused"), format!("{k} parser refuses {:?} ({e}); it means {:?}", c.text, p)),
            (Parts(p) | OpenParts(p), Ok(q)) => {
                if p == q {
                    Ok(())
                } else {
                    viol(&format!("{k}:components"), format!("{k} parser reads {:?} as {:?}; written there: {:?}", c.text, q, p))
                }
            }
        }
    }
}
