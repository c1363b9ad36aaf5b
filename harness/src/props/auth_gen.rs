//! Generator of correctly signed requests shared by C01, C02 and C03.

use crate::http::ReqSpec;
use crate::ops::*;
use crate::sigv4::{encode_chunks, presign, sign_header, Cred, PayloadMode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Base {
    pub intent: Intent,
    pub spelling: Spelling,
    /// registered (access key, secret)
    pub keys: Vec<(String, String)>,
    pub who: u8,
    pub region: String,
    pub date: String,
    pub mode: PayloadMode,
    /// which of the optional headers are signed
    pub sign_mask: u32,
    pub host: String,
    pub user_agent: Option<String>,
    /// chunk sizes of a streaming upload, used cyclically
    pub chunks: Vec<u32>,
    pub spacing: u8,
}

pub fn keys() -> BoxedStrategy<Vec<(String, String)>> {
    let secret = prop_oneof![3 => "[A-Za-z0-9/+]{40}", 1 => "[!-~]{1,70}", 1 => Just(String::new()), 1 => "\\PC{1,20}"];
    let id = prop_oneof![3 => "AKIA[A-Z0-9]{4,16}", 2 => "[A-Za-z0-9_.-]{1,20}"];
    (prop::collection::vec((id, secret), 1..4), 0_u8..5)
        .prop_map(|(mut v, k)| {
            // related keys: one the prefix of the other, a shared secret
            if k == 1 {
                let (a, s) = v[0].clone();
                v.push((format!("{a}X"), format!("{s}y")));
            }
            if k == 2 {
                let (a, s) = v[0].clone();
                v.push((format!("{a}2"), s));
            }
            let mut seen = std::collections::BTreeSet::new();
            v.retain(|(a, _)| seen.insert(a.clone()));
            v
        })
        .boxed()
}

pub fn region() -> BoxedStrategy<String> {
    prop_oneof![3 => Just("us-east-1".to_owned()), 2 => "[a-z]{2}-[a-z]{4,9}-[1-9]", 1 => "[a-z0-9-]{1,20}"].boxed()
}

pub fn any_date() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just("20130524T000000Z".to_owned()),
        3 => (1970_u32..2100, 1_u32..13, 1_u32..29, 0_u32..24, 0_u32..60, 0_u32..60).prop_map(|(y, m, d, h, mi, s)| format!("{y:04}{m:02}{d:02}T{h:02}{mi:02}{s:02}Z")),
    ]
    .boxed()
}

fn host() -> BoxedStrategy<String> {
    prop_oneof![2 => Just("s3.amazonaws.com".to_owned()), 1 => "[a-z]{1,8}(\\.[a-z]{2,5})?(:[1-9][0-9]{1,3})?"].boxed()
}

pub fn base(streaming: bool) -> BoxedStrategy<Base> {
    let mode = if streaming { prop_oneof![3 => Just(PayloadMode::Signed), 1 => Just(PayloadMode::Unsigned), 1 => Just(PayloadMode::Streaming)].boxed() } else { prop_oneof![Just(PayloadMode::Signed), Just(PayloadMode::Unsigned)].boxed() };
    let small = crate::http::content_small();
    let big = crate::http::content_any();
    let it = prop_oneof![6 => intent(), 1 => intent_of(op_index("PutObject"), small), 1 => intent_of(op_index("UploadPart"), big)];
    ((it, spelling(), keys(), any::<u8>(), region(), any_date()), (mode, any::<u32>(), host(), prop::option::weighted(0.3, header_text()), prop::collection::vec(prop_oneof![4 => 1_u32..40, 4 => 40_u32..9000, 1 => Just(65536_u32)], 1..4), any::<u8>()))
        .prop_map(|((intent, mut spelling, keys, who, region, date), (mode, sign_mask, host, user_agent, chunks, spacing))| {
            spelling.pad = 0;
            let mut names = std::collections::BTreeSet::new();
            spelling.extra_h.retain(|(n, _)| names.insert(n.to_ascii_lowercase()));
            let mode = if mode == PayloadMode::Streaming && intent.op().body != BodyKind::Raw { PayloadMode::Signed } else { mode };
            Base { intent, spelling, keys, who, region, date, mode, sign_mask, host, user_agent, chunks, spacing }
        })
        .boxed()
}

impl Base {
    pub fn cred(&self) -> Cred {
        let (a, s) = &self.keys[usize::from(self.who) % self.keys.len()];
        Cred { access: a.clone(), secret: s.clone(), region: self.region.clone(), date: self.date.clone() }
    }

    /// the request without any authentication
    pub fn unsigned(&self) -> ReqSpec {
        let mut r = spell(&self.intent, &self.spelling);
        r.headers.push(("host".into(), self.host.clone()));
        if let Some(ua) = &self.user_agent {
            r.headers.push(("User-Agent".into(), ua.clone()));
        }
        r
    }

    /// AWS requires `host` and every x-amz-* header to be signed; the others are optional.
    pub fn names_to_sign(&self, r: &ReqSpec, also: &[&str]) -> Vec<String> {
        let mut v: Vec<String> = r
            .headers
            .iter()
            .enumerate()
            .filter(|(i, (n, _))| {
                let n = n.to_ascii_lowercase();
                n == "host" || n.starts_with("x-amz-") || self.sign_mask >> (i % 32) & 1 == 1
            })
            .map(|(_, (n, _))| n.to_ascii_lowercase())
            .collect();
        v.extend(also.iter().map(|s| (*s).to_owned()));
        v.sort();
        v.dedup();
        v
    }

    pub fn signed(&self) -> ReqSpec {
        let mut r = self.unsigned();
        if self.mode == PayloadMode::Streaming {
            r.set("x-amz-decoded-content-length", r.body.len().to_string());
        }
        let names = self.names_to_sign(&r, &["x-amz-date", "x-amz-content-sha256"]);
        if self.mode != PayloadMode::Streaming {
            sign_header(&mut r, &self.cred(), self.mode, &names, self.spacing);
            return r;
        }
        let chunks = split(&r.body, &self.chunks);
        let c = self.cred();
        let encoded_len: usize = encode_chunks(&c, &"0".repeat(64), &chunks, false).iter().map(|c| c.bytes().len()).sum();
        if r.get("content-length").is_some() {
            r.set("content-length", encoded_len.to_string());
        }
        let seed = sign_header(&mut r, &c, self.mode, &names, self.spacing);
        r.body = encode_chunks(&c, &seed, &chunks, self.spacing % 2 == 1).iter().flat_map(|c| c.bytes()).collect();
        r
    }

    pub fn presigned(&self, date: String, expires: &str) -> ReqSpec {
        let mut r = self.unsigned();
        let names = self.names_to_sign(&r, &[]);
        let mut c = self.cred();
        c.date = date;
        presign(&mut r, &c, expires, &names, self.spacing);
        r
    }
}

pub fn split(body: &[u8], sizes: &[u32]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut pos = 0;
    let mut i = 0;
    while pos < body.len() {
        let n = (sizes[i % sizes.len()] as usize).max(1).min(body.len() - pos);
        out.push(body[pos..pos + n].to_vec());
        pos += n;
        i += 1;
    }
    out
}

/// Alterations of a finished (signed) request. Positions are reduced modulo the actual length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Alt {
    Method(String),
    PathInsert(u16, char),
    PathDelete(u16),
    /// append a segment, possibly one a file system would resolve
    PathTail(String),
    PathReplace(String),
    /// respell the path without changing what it means
    PathRecode(u8),
    QueryAdd(String, String),
    QueryDrop(u8),
    QueryValue(u8, String),
    QueryName(u8, String),
    QueryRotate(u8),
    HeaderValue(u8, String),
    HeaderAppend(u8, char),
    HeaderDrop(u8),
    HeaderAdd(String, String),
    HeaderCase(u8),
    BodyFlip(u16, u8),
    BodyPush(u8),
    BodyCut(u16),
    BodyClear,
    /// headers of the authentication itself
    Strip,
    SigFlip(u8, u8),
    SigText(String),
    SignedDrop(u8),
    SignedAdd(String),
    AccessKey(String),
    OtherKey(u8),
    ScopeRegion(String),
    ScopeDate(String),
    Date(String),
    DateShift(i32),
    Sha(String),
    Algorithm(String),
    BogusPresign(String),
    Expires(String),
    ExpiresShift(i32),
}

fn ch() -> BoxedStrategy<char> {
    prop_oneof![5 => prop::sample::select("abz09-._~/x".chars().collect::<Vec<_>>()), 1 => prop::char::range('!', '~').prop_filter("raw", |c| !"?#%\"<>\\^`{|}".contains(*c))].boxed()
}

pub fn alt() -> BoxedStrategy<Alt> {
    let text = || "[a-zA-Z0-9/:;=._-]{0,12}";
    let qtext = || "[a-zA-Z0-9/._-]{0,8}";
    let name = || prop_oneof![1 => "[a-z]{1,8}", 3 => prop::sample::select(vec!["uploadId", "partNumber", "uploads", "delete", "versionId", "location", "list-type", "prefix", "response-content-type", "max-keys", "x-id", "acl", "X-Amz-Date", "X-Amz-Expires"]).prop_map(str::to_owned)];
    let hname = || {
        prop_oneof![
            1 => "x-[a-z]{1,6}",
            3 => prop::sample::select(vec!["x-amz-acl", "x-amz-meta-a", "range", "x-amz-copy-source", "content-type", "x-amz-storage-class", "if-match", "content-md5", "x-amz-tagging", "x-amz-security-token", "x-forwarded-host", "host"]).prop_map(str::to_owned)
        ]
    };
    let meth = prop::sample::select(vec!["GET", "PUT", "DELETE", "POST", "HEAD", "OPTIONS", "PATCH"]).prop_map(|s| Alt::Method(s.to_owned()));
    let dates = prop_oneof![any_date(), Just(String::new()), Just("20130524T000000Z".to_owned()), text()];
    prop_oneof![
        2 => meth,
        3 => prop_oneof![
            (any::<u16>(), ch()).prop_map(|(i, c)| Alt::PathInsert(i, c)),
            any::<u16>().prop_map(Alt::PathDelete),
            prop_oneof!["/[a-z]{1,4}", Just("/..".to_owned()), Just("/.".to_owned()), Just("/".to_owned()), Just("%00".to_owned()), Just("%2F..%2Fx".to_owned()), Just("%20".to_owned()), Just("+".to_owned())].prop_map(Alt::PathTail),
            "/[a-z0-9]{3,8}(/[a-z]{1,5})?".prop_map(Alt::PathReplace),
            any::<u8>().prop_map(Alt::PathRecode),
        ],
        3 => prop_oneof![
            (name(), qtext()).prop_map(|(a, b)| Alt::QueryAdd(a, b)),
            any::<u8>().prop_map(Alt::QueryDrop),
            (any::<u8>(), qtext()).prop_map(|(a, b)| Alt::QueryValue(a, b)),
            (any::<u8>(), name()).prop_map(|(a, b)| Alt::QueryName(a, b)),
            any::<u8>().prop_map(Alt::QueryRotate),
        ],
        3 => prop_oneof![
            (any::<u8>(), text()).prop_map(|(a, b)| Alt::HeaderValue(a, b)),
            (any::<u8>(), ch()).prop_map(|(a, b)| Alt::HeaderAppend(a, b)),
            any::<u8>().prop_map(Alt::HeaderDrop),
            (hname(), text()).prop_map(|(a, b)| Alt::HeaderAdd(a, b)),
            any::<u8>().prop_map(Alt::HeaderCase),
        ],
        3 => prop_oneof![
            (any::<u16>(), 1_u8..=255).prop_map(|(a, b)| Alt::BodyFlip(a, b)),
            any::<u8>().prop_map(Alt::BodyPush),
            any::<u16>().prop_map(Alt::BodyCut),
            Just(Alt::BodyClear),
        ],
        5 => prop_oneof![
            1 => Just(Alt::Strip),
            2 => (0_u8..64, 1_u8..16).prop_map(|(a, b)| Alt::SigFlip(a, b)),
            1 => prop_oneof![Just(String::new()), Just("0".repeat(64)), "[0-9a-f]{64}", "[0-9a-f]{1,70}"].prop_map(Alt::SigText),
            1 => any::<u8>().prop_map(Alt::SignedDrop),
            1 => hname().prop_map(Alt::SignedAdd),
            1 => prop_oneof!["[A-Za-z0-9]{1,20}", Just(String::new())].prop_map(Alt::AccessKey),
            1 => any::<u8>().prop_map(Alt::OtherKey),
            1 => region().prop_map(Alt::ScopeRegion),
            1 => prop_oneof!["20[0-9]{6}", "[0-9]{1,9}"].prop_map(Alt::ScopeDate),
            1 => dates.prop_map(Alt::Date),
            1 => any::<i32>().prop_map(Alt::DateShift),
            1 => prop_oneof![Just("UNSIGNED-PAYLOAD".to_owned()), Just("STREAMING-AWS4-HMAC-SHA256-PAYLOAD".to_owned()), "[0-9a-f]{64}", Just(crate::sigv4::sha_hex(b"")), Just(String::new())].prop_map(Alt::Sha),
            1 => prop_oneof![Just("AWS4-HMAC-SHA1".to_owned()), Just("AWS4-ECDSA-P256-SHA256".to_owned()), Just("AWS".to_owned())].prop_map(Alt::Algorithm),
            1 => prop_oneof!["[0-9a-f]{64}", Just(String::new())].prop_map(Alt::BogusPresign),
            1 => "[0-9]{1,7}".prop_map(Alt::Expires),
            1 => prop_oneof![Just(1), Just(-1), any::<i32>()].prop_map(Alt::ExpiresShift),
        ],
    ]
    .boxed()
}

fn edit_query(r: &mut ReqSpec, f: impl FnOnce(&mut Vec<String>)) {
    let mut q: Vec<String> = r.query().map(|q| q.split('&').map(str::to_owned).collect()).unwrap_or_default();
    f(&mut q);
    let p = r.path().to_owned();
    r.target = if q.is_empty() { p } else { format!("{p}?{}", q.join("&")) };
}

fn edit_path(r: &mut ReqSpec, f: impl FnOnce(String) -> String) {
    let q = r.query().map(str::to_owned);
    let p = f(r.path().to_owned());
    r.target = match q {
        Some(q) => format!("{p}?{q}"),
        None => p,
    };
}

/// replaces the text of one member (`Credential=`, ...) of the Authorization header or of the presign query
fn edit_member(r: &mut ReqSpec, header: &str, query: &str, f: impl FnOnce(String) -> String) {
    let pre = format!("{query}=");
    if r.query().map_or(false, |q| q.split('&').any(|p| p.starts_with(&pre))) {
        edit_query(r, |q| {
            if let Some(p) = q.iter_mut().find(|p| p.starts_with(&pre)) {
                let v = String::from_utf8_lossy(&crate::http::pct_decode(&p[pre.len()..])).into_owned();
                *p = format!("{pre}{}", crate::http::uri_encode(f(v).as_bytes(), true));
            }
        });
        return;
    }
    if header.is_empty() {
        return;
    }
    if let Some(a) = r.get("authorization").map(str::to_owned) {
        let h = format!("{header}=");
        if let Some(i) = a.find(&h) {
            let from = i + h.len();
            let to = a[from..].find([',', ' ']).map_or(a.len(), |k| from + k);
            let new = f(a[from..to].to_owned());
            r.set("authorization", format!("{}{}{}", &a[..from], new, &a[to..]));
        }
    }
}

fn shift_date(d: &str, by: i32) -> String {
    match chrono::NaiveDateTime::parse_from_str(d, "%Y%m%dT%H%M%SZ") {
        Ok(t) => (t + chrono::Duration::seconds(i64::from(by % 100_000_000))).format("%Y%m%dT%H%M%SZ").to_string(),
        Err(_) => d.to_owned(),
    }
}

pub fn alter(r: &mut ReqSpec, a: &Alt, keys: &[(String, String)]) {
    let hdr = |r: &ReqSpec, i: u8| -> Option<usize> { if r.headers.is_empty() { None } else { Some(usize::from(i) % r.headers.len()) } };
    match a {
        Alt::Method(m) => r.method = m.clone(),
        Alt::PathInsert(i, c) => edit_path(r, |mut p| {
            let n = p.len();
            p.insert(1 + usize::from(*i) % n, *c);
            p
        }),
        Alt::PathDelete(i) => edit_path(r, |mut p| {
            let n = p.len();
            if n > 1 {
                p.remove(1 + usize::from(*i) % (n - 1));
            }
            p
        }),
        Alt::PathTail(t) => edit_path(r, |p| p + t),
        Alt::PathReplace(t) => edit_path(r, |_| t.clone()),
        Alt::PathRecode(s) => edit_path(r, |p| crate::http::pct(&crate::http::pct_decode(&p), *s, false)),
        Alt::QueryAdd(n, v) => edit_query(r, |q| q.push(format!("{n}={v}"))),
        Alt::QueryDrop(i) => edit_query(r, |q| {
            if !q.is_empty() {
                let k = usize::from(*i) % q.len();
                q.remove(k);
            }
        }),
        Alt::QueryValue(i, v) => edit_query(r, |q| {
            if !q.is_empty() {
                let k = usize::from(*i) % q.len();
                let n = q[k].split('=').next().unwrap_or("").to_owned();
                q[k] = format!("{n}={v}");
            }
        }),
        Alt::QueryName(i, n) => edit_query(r, |q| {
            if !q.is_empty() {
                let k = usize::from(*i) % q.len();
                let v = q[k].split_once('=').map_or("", |x| x.1).to_owned();
                q[k] = format!("{n}={v}");
            }
        }),
        Alt::QueryRotate(i) => edit_query(r, |q| {
            if !q.is_empty() {
                let k = usize::from(*i) % q.len();
                q.rotate_left(k);
            }
        }),
        Alt::HeaderValue(i, v) => {
            if let Some(k) = hdr(r, *i) {
                r.headers[k].1 = v.clone();
            }
        }
        Alt::HeaderAppend(i, c) => {
            if let Some(k) = hdr(r, *i) {
                r.headers[k].1.push(*c);
            }
        }
        Alt::HeaderDrop(i) => {
            if let Some(k) = hdr(r, *i) {
                r.headers.remove(k);
            }
        }
        Alt::HeaderAdd(n, v) => r.set(n, v.clone()),
        Alt::HeaderCase(i) => {
            if let Some(k) = hdr(r, *i) {
                r.headers[k].0 = r.headers[k].0.to_ascii_uppercase();
            }
        }
        Alt::BodyFlip(i, x) => {
            let n = r.body.len();
            if n > 0 {
                r.body[usize::from(*i) % n] ^= *x;
            }
        }
        Alt::BodyPush(b) => r.body.push(*b),
        Alt::BodyCut(i) => {
            let n = r.body.len();
            if n > 0 {
                r.body.truncate(usize::from(*i) % n);
            }
        }
        Alt::BodyClear => r.body.clear(),
        Alt::Strip => {
            r.remove("authorization");
            edit_query(r, |q| q.retain(|p| !p.starts_with("X-Amz-Signature")));
        }
        Alt::SigFlip(i, x) => edit_member(r, "Signature", "X-Amz-Signature", |s| {
            let mut b = s.into_bytes();
            let n = b.len();
            if n > 0 {
                let k = usize::from(*i) % n;
                let d = (b[k] as char).to_digit(16).unwrap_or(0) as u8 ^ *x;
                b[k] = b"0123456789abcdef"[usize::from(d & 15)];
            }
            String::from_utf8(b).unwrap_or_default()
        }),
        Alt::SigText(t) => edit_member(r, "Signature", "X-Amz-Signature", |_| t.clone()),
        Alt::SignedDrop(i) => edit_member(r, "SignedHeaders", "X-Amz-SignedHeaders", |s| {
            let mut v: Vec<&str> = s.split(';').collect();
            let k = usize::from(*i) % v.len();
            v.remove(k);
            v.join(";")
        }),
        Alt::SignedAdd(n) => edit_member(r, "SignedHeaders", "X-Amz-SignedHeaders", |s| {
            let mut v: Vec<&str> = s.split(';').collect();
            v.push(n);
            v.sort_unstable();
            v.dedup();
            v.join(";")
        }),
        Alt::AccessKey(t) => edit_member(r, "Credential", "X-Amz-Credential", |s| format!("{t}{}", s.find('/').map_or("", |i| &s[i..]))),
        Alt::OtherKey(i) => {
            let k = keys[usize::from(*i) % keys.len()].0.clone();
            edit_member(r, "Credential", "X-Amz-Credential", |s| format!("{k}{}", s.find('/').map_or("", |i| &s[i..])));
        }
        Alt::ScopeRegion(t) => edit_member(r, "Credential", "X-Amz-Credential", |s| edit_scope(&s, 2, t)),
        Alt::ScopeDate(t) => edit_member(r, "Credential", "X-Amz-Credential", |s| edit_scope(&s, 1, t)),
        Alt::Date(d) => {
            if r.get("authorization").is_some() {
                r.set("x-amz-date", d.clone());
            } else {
                edit_member(r, "", "X-Amz-Date", |_| d.clone());
            }
        }
        Alt::DateShift(by) => {
            if r.get("authorization").is_some() {
                let d = shift_date(r.get("x-amz-date").unwrap_or(""), *by);
                r.set("x-amz-date", d);
            } else {
                edit_member(r, "", "X-Amz-Date", |d| shift_date(&d, *by));
            }
        }
        Alt::Sha(t) => r.set("x-amz-content-sha256", t.clone()),
        Alt::Algorithm(t) => {
            if let Some(a) = r.get("authorization").map(str::to_owned) {
                let rest = a.find(' ').map_or("", |i| &a[i..]);
                r.set("authorization", format!("{t}{rest}"));
            } else {
                edit_member(r, "", "X-Amz-Algorithm", |_| t.clone());
            }
        }
        Alt::BogusPresign(t) => {
            if r.get("authorization").is_some() {
                edit_query(r, |q| q.push(format!("X-Amz-Signature={t}")));
            }
        }
        Alt::Expires(t) => edit_member(r, "", "X-Amz-Expires", |_| t.clone()),
        Alt::ExpiresShift(by) => edit_member(r, "", "X-Amz-Expires", |s| s.parse::<i64>().map_or(s, |n| (n + i64::from(*by)).to_string())),
    }
}

fn edit_scope(s: &str, i: usize, t: &str) -> String {
    let mut v: Vec<&str> = s.split('/').collect();
    if v.len() > i {
        v[i] = t;
    }
    v.join("/")
}

/// a request hyper can represent, with text the service can read
pub fn buildable(r: &ReqSpec) -> bool {
    r.build().is_ok() && r.target.is_ascii()
}
