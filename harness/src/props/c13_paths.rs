//! C13: path splitting and bucket/key naming, against an independent predicate; once on `S3Path` itself and
//! once through the service (percent-encoded), where refusals must be the matching errors.

use crate::engine::*;
use crate::http::{pct, ReqSpec};
use proptest::prelude::*;
use s3_server::path::{S3Path, S3PathErrorKind};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub path: String,
    pub style: u8,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Want {
    Root,
    Bucket(String),
    Object(String, String),
    BadPath,
    BadBucket,
    LongKey,
}

fn dec_octet(s: &str) -> bool {
    // strict dotted-quad as in RFC 3986: no leading zeros, 0..255
    !s.is_empty() && s.len() <= 3 && s.bytes().all(|b| b.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0')) && s.parse::<u32>().map_or(false, |n| n <= 255)
}

/// None = the rules leave it open (dotted quads with leading zeros or out-of-range numbers are formatted like
/// an address but are not one)
pub fn bucket_ok(b: &str) -> Option<bool> {
    let ok_char = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '.' || c == '-';
    let ends = |c: Option<char>| c.map_or(false, |c| c.is_ascii_lowercase() || c.is_ascii_digit());
    if b.len() < 3 || b.len() > 63 || !b.chars().all(ok_char) || !ends(b.chars().next()) || !ends(b.chars().last()) {
        return Some(false);
    }
    if b.starts_with("xn--") {
        return Some(false);
    }
    let parts: Vec<&str> = b.split('.').collect();
    if parts.len() == 4 {
        if parts.iter().all(|p| dec_octet(p)) {
            return Some(false);
        }
        if parts.iter().all(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())) {
            return None;
        }
    }
    Some(true)
}

pub fn want(path: &str) -> Option<Want> {
    let mut it = path.char_indices();
    if it.next().map(|x| x.1) != Some('/') {
        return Some(Want::BadPath);
    }
    let rest = &path[1..];
    if rest.is_empty() {
        return Some(Want::Root);
    }
    let (b, key) = match rest.find('/') {
        None => (rest, ""),
        Some(i) => (&rest[..i], &rest[i + 1..]),
    };
    if !bucket_ok(b)? {
        return Some(Want::BadBucket);
    }
    if key.is_empty() {
        return Some(Want::Bucket(b.into()));
    }
    if key.len() > 1024 {
        return Some(Want::LongKey);
    }
    Some(Want::Object(b.into(), key.into()))
}

fn bucket() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-z0-9][a-z0-9.-]{1,30}[a-z0-9]",
        2 => "[a-z0-9.-]{0,6}",
        2 => (0_usize..4, prop_oneof![Just(2_usize), Just(3), Just(62), Just(63), Just(64), Just(65), Just(1)], any::<u8>()).prop_map(|(k, n, c)| {
            let ch = (b'a' + c % 26) as char;
            let mut s: String = std::iter::repeat(ch).take(n).collect();
            if k == 1 && n > 2 { s.replace_range(n - 1..n, "-"); }
            if k == 2 && n > 2 { s.replace_range(0..1, "."); }
            s
        }),
        2 => prop::collection::vec(prop_oneof![4 => 0_u32..256, 1 => 250_u32..300], 4).prop_map(|v| v.iter().map(u32::to_string).collect::<Vec<_>>().join(".")),
        1 => prop::collection::vec("[0-9]{1,3}", 3..6).prop_map(|v| v.join(".")),
        1 => "xn-{0,3}[a-z0-9]{1,8}",
        1 => "[0-9a-f:]{2,12}|::1|fe80::1",
        2 => ("[a-z0-9.-]{1,20}", prop_oneof![Just("A"), Just("_"), Just("é"), Just("%"), Just(" "), Just("\u{7f}"), Just("`"), Just("{"), Just(":"), Just("@"), Just("+"), Just("Z"), Just("ß"), Just("٣")], "[a-z0-9.-]{0,20}").prop_map(|(a, b, c)| format!("{a}{b}{c}")),
    ]
    .boxed()
}

fn key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z0-9/._ %+&=?#-]{0,30}",
        3 => "\\PC{0,20}",
        2 => "/{0,3}[a-z]{0,3}/{0,3}[a-z.]{0,3}/{0,2}",
        3 => (1015_usize..1035, any::<u8>()).prop_map(|(n, c)| match c % 4 {
            0 => "k".repeat(n),
            1 => { let mut s = "é".repeat(n / 2); if n % 2 == 1 { s.push('x') }; s }
            2 => { let mut s = "a/".repeat(n / 2); if n % 2 == 1 { s.push('x') }; s }
            _ => { let mut s = "中".repeat(n / 3); for _ in 0..n % 3 { s.push('x') }; s }
        }),
        1 => (400_usize..2200).prop_map(|n| "é".repeat(n)),
    ]
    .boxed()
}

pub struct C13;

impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "paths built from generated bucket names (valid, boundary lengths, dotted quads, reserved prefixes, foreign characters) and keys (Unicode, slashes, lengths around 1024 bytes); non-trivial = the path has a bucket segment whose verdict depends on a rule other than plain lower-case letters, or a key within 10 bytes of the limit, or a key with '/', '%' or non-ASCII";
    const ASSUMPTIONS: &'static [&'static str] = &["dotted quads that are not valid IPv4 addresses (out-of-range or zero-padded numbers) are not judged"];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 2_000_000 } else { 30_000_000 }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let path = prop_oneof![
            1 => Just("/".to_owned()),
            3 => bucket().prop_map(|b| format!("/{b}")),
            1 => bucket().prop_map(|b| format!("/{b}/")),
            6 => (bucket(), key()).prop_map(|(b, k)| format!("/{b}/{k}")),
            1 => (bucket(), key()).prop_map(|(b, k)| format!("{b}/{k}")),
            1 => (bucket(), key()).prop_map(|(b, k)| format!("//{b}/{k}")),
            1 => "\\PC{0,12}",
            1 => Just(String::new()),
        ];
        (path, 0_u8..8).prop_map(|(path, style)| Case { path, style }).boxed()
    }
    fn directed(&self, _t: Tier) -> Vec<Case> {
        // all two- and three-character buckets over the interesting alphabet, alone and with a key
        let al = ['a', 'z', '0', '9', '.', '-', 'A', '_', '/', 'é'];
        let mut v = vec![];
        for a in al {
            for b in al {
                v.push(format!("/{a}{b}"));
                for c in al {
                    v.push(format!("/{a}{b}{c}"));
                    v.push(format!("/{a}{b}{c}/k"));
                }
            }
        }
        for n in 0..70 {
            v.push(format!("/{}", "b".repeat(n)));
            v.push(format!("/{}/k", "b".repeat(n)));
        }
        for n in 1000..1100 {
            v.push(format!("/abc/{}", "b".repeat(n)));
        }
        v.into_iter().map(|path| Case { path, style: 0 }).collect()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let Some(w) = want(&c.path) else {
            cx.label("not judged");
            return Ok(());
        };
        cx.label(match &w {
            Want::Root => "root",
            Want::Bucket(_) => "bucket",
            Want::Object(..) => "object",
            Want::BadPath => "bad path",
            Want::BadBucket => "bad bucket",
            Want::LongKey => "long key",
        });
        let key_len = match &w {
            Want::Object(_, k) => k.len(),
            Want::LongKey => 1024,
            _ => 0,
        };
        let special = match &w {
            Want::Object(b, k) => k.bytes().any(|b| b == b'/' || b == b'%' || b >= 128) || !b.bytes().all(|b| b.is_ascii_lowercase()),
            Want::Bucket(b) => !b.bytes().all(|b| b.is_ascii_lowercase()),
            Want::BadBucket => true,
            _ => false,
        };
        if special || (1014..=1034).contains(&key_len) {
            cx.nontrivial();
        }
        // the parser itself
        let got = match S3Path::try_from_path(&c.path) {
            Ok(S3Path::Root) => Want::Root,
            Ok(S3Path::Bucket { bucket }) => Want::Bucket(bucket.into()),
            Ok(S3Path::Object { bucket, key }) => Want::Object(bucket.into(), key.into()),
            Err(e) => match e.kind() {
                S3PathErrorKind::InvalidPath => Want::BadPath,
                S3PathErrorKind::InvalidBucketName => Want::BadBucket,
                S3PathErrorKind::KeyTooLong => Want::LongKey,
                k => return viol("kind", format!("unexpected error kind {k:?} for {:?}", c.path)),
            },
        };
        if got != w {
            return viol("parse", format!("S3Path::try_from_path({:?}) = {got:?}, the naming rules say {w:?}", c.path));
        }
        // the same through the service
        if !c.path.starts_with('/') {
            return Ok(());
        }
        let req = ReqSpec::new("GET", &pct(c.path.as_bytes(), c.style, false));
        let (res, calls) = crate::mock::one_shot(None, &req)?;
        let (op, code): (&str, &str) = match &w {
            Want::Root => ("ListBuckets", ""),
            Want::Bucket(_) => ("ListObjects", ""),
            Want::Object(..) => ("GetObject", ""),
            Want::BadPath => ("", "InvalidURI"),
            Want::BadBucket => ("", "InvalidBucketName"),
            Want::LongKey => ("", "KeyTooLongError"),
        };
        if op.is_empty() {
            if !calls.is_empty() || res.error_code().as_deref() != Some(code) || res.status != 400 {
                return viol("refusal", format!("GET {:?} must be refused as {code}, got\n{}{}", c.path, res.show(), crate::mock::show_calls(&calls)));
            }
        } else {
            let (b, k) = match &w {
                Want::Bucket(b) => (Some(b.clone()), None),
                Want::Object(b, k) => (Some(b.clone()), Some(k.clone())),
                _ => (None, None),
            };
            let ok = calls.len() == 1
                && calls[0].op == op
                && b.map_or(true, |b| calls[0].input.contains(&format!("bucket: {b:?}")))
                && k.map_or(true, |k| calls[0].input.contains(&format!(" key: {k:?}")));
            if !ok || !res.ok() {
                return viol("accept", format!("GET {:?} must reach {op}, got\n{}{}", c.path, res.show(), crate::mock::show_calls(&calls)));
            }
        }
        Ok(())
    }
}
