//! C08: which operation a request runs, against a routing table written from the S3 API reference.

use crate::engine::*;
use crate::http::ReqSpec;
use crate::mock;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub method: String,
    /// 0 service, 1 bucket, 2 object
    pub level: u8,
    pub bucket: String,
    pub key: String,
    /// None: no '='
    pub params: Vec<(String, Option<String>)>,
    pub copy_source: Option<String>,
    pub body: u8,
    /// query escapes in parameter names
    pub escape: bool,
}

pub struct C08;

/// sub-resources of the S3 API per method and level which this server does not offer
const UNSUPPORTED: &[(&str, u8, &[&str])] = &[
    ("GET", 1, &["accelerate", "acl", "analytics", "cors", "encryption", "intelligent-tiering", "inventory", "lifecycle", "logging", "metrics", "notification", "object-lock", "ownershipControls", "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment", "tagging", "uploads", "versioning", "versions", "website"]),
    ("PUT", 1, &["accelerate", "acl", "analytics", "cors", "encryption", "intelligent-tiering", "inventory", "lifecycle", "logging", "metrics", "notification", "object-lock", "ownershipControls", "policy", "publicAccessBlock", "replication", "requestPayment", "tagging", "versioning", "website"]),
    ("DELETE", 1, &["analytics", "cors", "encryption", "intelligent-tiering", "inventory", "lifecycle", "metrics", "ownershipControls", "policy", "publicAccessBlock", "replication", "tagging", "website"]),
    ("GET", 2, &["acl", "attributes", "legal-hold", "retention", "tagging", "torrent", "uploadId"]),
    ("PUT", 2, &["acl", "legal-hold", "retention", "tagging"]),
    ("DELETE", 2, &["tagging", "uploadId"]),
    ("POST", 2, &["restore", "select"]),
];

fn unsupported(method: &str, level: u8) -> &'static [&'static str] {
    UNSUPPORTED.iter().find(|(m, l, _)| *m == method && *l == level).map_or(&[], |(_, _, v)| v)
}

/// every parameter name that selects an operation anywhere
fn selectors() -> Vec<&'static str> {
    let mut v: Vec<&str> = UNSUPPORTED.iter().flat_map(|(_, _, v)| v.iter().copied()).collect();
    v.extend(["location", "delete", "uploads", "uploadId", "partNumber", "list-type", "select-type"]);
    v.sort_unstable();
    v.dedup();
    v
}

#[derive(Debug, PartialEq)]
enum Want {
    /// this operation, exactly once
    One(&'static str),
    Refuse,
    /// refusal, or one of these exactly once
    May(Vec<&'static str>),
}

fn want(c: &Case) -> Want {
    let m = c.method.as_str();
    let has = |n: &str| c.params.iter().any(|(k, _)| k == n);
    let val = |n: &str| c.params.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone().unwrap_or_default());
    let uns = unsupported(m, c.level);
    let n_uns = c.params.iter().filter(|(k, _)| uns.contains(&k.as_str())).count();
    let mut named: Vec<&'static str> = vec![];
    let base: Option<&'static str> = match (m, c.level) {
        ("GET", 0) => Some("ListBuckets"),
        ("PUT", 1) => Some("CreateBucket"),
        ("DELETE", 1) => Some("DeleteBucket"),
        ("HEAD", 1) => Some("HeadBucket"),
        ("GET", 1) => {
            if has("location") {
                named.push("GetBucketLocation");
            }
            match val("list-type").as_deref() {
                Some("2") => named.push("ListObjectsV2"),
                Some(_) if named.is_empty() => return Want::Refuse,
                Some(_) => return Want::May(named),
                None => {}
            }
            Some("ListObjects")
        }
        ("POST", 1) => {
            if has("delete") {
                named.push("DeleteObjects");
            }
            None
        }
        ("GET", 2) => Some("GetObject"),
        ("HEAD", 2) => Some("HeadObject"),
        ("DELETE", 2) => Some("DeleteObject"),
        ("PUT", 2) => {
            let part = has("partNumber");
            if has("uploadId") {
                if part && c.copy_source.is_none() {
                    named.push("UploadPart");
                } else {
                    // UploadPartCopy, or a part without number
                    return Want::Refuse;
                }
                None
            } else {
                let b = if c.copy_source.is_some() { "CopyObject" } else { "PutObject" };
                if part && n_uns == 0 {
                    return Want::May(vec![b]);
                }
                Some(b)
            }
        }
        ("POST", 2) => {
            if has("uploads") {
                named.push("CreateMultipartUpload");
            }
            if has("uploadId") {
                named.push("CompleteMultipartUpload");
            }
            None
        }
        _ => None,
    };
    match (named.len(), n_uns) {
        (0, 0) => match base {
            None => Want::Refuse,
            Some(b) => {
                // selectors that mean nothing here may be ignored or refused
                let s = selectors();
                if c.params.iter().any(|(k, _)| s.contains(&k.as_str())) {
                    Want::May(vec![b])
                } else {
                    Want::One(b)
                }
            }
        },
        (0, _) => Want::Refuse,
        (1, 0) => {
            let s = selectors();
            let own: &[&str] = match named[0] {
                "GetBucketLocation" => &["location"],
                "ListObjectsV2" => &["list-type"],
                "DeleteObjects" => &["delete"],
                "UploadPart" => &["partNumber", "uploadId"],
                "CreateMultipartUpload" => &["uploads"],
                _ => &["uploadId"],
            };
            if c.params.iter().any(|(k, _)| s.contains(&k.as_str()) && !own.contains(&k.as_str())) {
                Want::May(named)
            } else {
                Want::One(named[0])
            }
        }
        _ => Want::May(named),
    }
}

fn param() -> BoxedStrategy<(String, Option<String>)> {
    let v = prop_oneof![3 => Just(None), 2 => Just(Some(String::new())), 1 => prop_oneof![Just("1"), Just("true"), Just("2"), Just("x")].prop_map(|s| Some(s.to_owned()))];
    let named = (prop::sample::select(selectors()), v).prop_map(|(n, v)| match n {
        "uploadId" => (n.to_owned(), Some("up-1".into())),
        "partNumber" => (n.to_owned(), Some("1".into())),
        "list-type" => (n.to_owned(), v),
        _ => (n.to_owned(), v),
    });
    prop_oneof![
        5 => named,
        1 => Just(("list-type".to_string(), Some("2".to_string()))),
        1 => Just(("uploadId".to_string(), Some("up-1".to_string()))),
        1 => Just(("partNumber".to_string(), Some("7".to_string()))),
        // what real clients add, and near misses of selectors
        2 => prop::sample::select(vec![("x-id", "GetObject"), ("x-id", "PutObject"), ("prefix", "a"), ("delimiter", "/"), ("max-keys", "3"), ("encoding-type", "url"), ("versionId", "v1"), ("response-content-type", "text/plain"), ("ACL", ""), ("Acl", "1"), ("uploadid", "u"), ("UploadId", "u"), ("upload", ""), ("deletes", ""), ("list_type", "2"), ("locations", ""), ("fetch-owner", "true"), ("aclx", "1"), ("acl ", "1"), ("foo", "acl")]).prop_map(|(a, b)| (a.to_owned(), Some(b.to_owned()))),
    ]
    .boxed()
}

fn method() -> BoxedStrategy<String> {
    prop_oneof![
        10 => prop::sample::select(vec!["GET", "PUT", "POST", "DELETE", "HEAD"]).prop_map(str::to_owned),
        1 => prop::sample::select(vec!["PATCH", "OPTIONS", "TRACE", "LINK", "get", "Put", "DELET", "COPY", "MOVE", "PROPFIND"]).prop_map(str::to_owned),
    ]
    .boxed()
}

impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "the request carries a parameter or header that selects an operation, or must be refused";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "parameters that select an operation at another level or method may be ignored or refused",
        "requests that name two operations may run either or be refused, but nothing else",
        "each parameter occurs once",
    ];
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let params = prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(param(), 1..2), 4 => prop::collection::vec(param(), 2..4)];
        (method(), prop_oneof![1 => Just(0_u8), 4 => Just(1), 4 => Just(2)], bucket_name(), proto_key(), params, prop::option::weighted(0.2, Just("src-bucket/some/key".to_string())), 0_u8..6, any::<bool>())
            .prop_map(|(method, level, bucket, key, mut params, copy_source, body, escape)| {
                let mut seen = std::collections::BTreeSet::new();
                params.retain(|(k, _)| seen.insert(k.clone()));
                Case { method, level, bucket, key, params, copy_source, body, escape }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick {
            60_000
        } else {
            2_000_000
        }
    }
    /// every method, level and single selector; every pair of selectors
    fn directed(&self, _t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let value = |n: &str| match n {
            "uploadId" => Some("up-1".to_owned()),
            "partNumber" => Some("1".to_owned()),
            "list-type" => Some("2".to_owned()),
            _ => None,
        };
        let s = selectors();
        for m in ["GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH"] {
            for level in 0..3 {
                for cs in [None, Some("b-src/k".to_owned())] {
                    let base = Case { method: m.into(), level, bucket: "bucket".into(), key: "a/key".into(), params: vec![], copy_source: cs, body: 0, escape: false };
                    v.push(base.clone());
                    for a in &s {
                        for body in [0, 1, 4] {
                            v.push(Case { params: vec![((*a).into(), value(a))], body, ..base.clone() });
                        }
                        for b in &s {
                            if a != b {
                                v.push(Case { params: vec![((*a).into(), value(a)), ((*b).into(), value(b))], ..base.clone() });
                            }
                        }
                    }
                }
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let want = want(c);
        let path = target_path([Level::Root, Level::Bucket, Level::Object][c.level as usize], &c.bucket, &c.key, 0);
        let mut t = path;
        for (i, (k, v)) in c.params.iter().enumerate() {
            t.push(if i == 0 { '?' } else { '&' });
            t.push_str(&crate::http::pct(k.as_bytes(), u8::from(c.escape), true));
            if let Some(v) = v {
                t.push('=');
                t.push_str(&crate::http::uri_encode(v.as_bytes(), true));
            }
        }
        let mut r = ReqSpec::new(&c.method, &t);
        if let Some(s) = &c.copy_source {
            r = r.header("x-amz-copy-source", s.clone());
        }
        let names: Vec<&str> = match &want {
            Want::One(o) => vec![*o],
            Want::May(v) => v.clone(),
            Want::Refuse => vec![],
        };
        let delete = b"<Delete><Object><Key>k</Key></Object></Delete>".to_vec();
        let complete = b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>\"e\"</ETag></Part></CompleteMultipartUpload>".to_vec();
        let body = if names.contains(&"DeleteObjects") {
            delete
        } else if names.contains(&"CompleteMultipartUpload") {
            complete
        } else if names.contains(&"CreateBucket") || names.contains(&"DeleteBucket") {
            vec![]
        } else {
            match c.body {
                0 | 5 => vec![],
                1 => delete,
                2 => complete,
                3 => b"{\"Version\":\"2012-10-17\"}".to_vec(),
                _ => b"<CreateBucketConfiguration><LocationConstraint>eu</LocationConstraint></CreateBucketConfiguration>".to_vec(),
            }
        };
        if !body.is_empty() && c.method != "GET" && c.method != "HEAD" {
            r = r.body(body);
        }
        let (resp, calls) = mock::one_shot(None, &r)?;
        let got: Vec<&str> = calls.iter().map(|c| c.op).collect();
        let refused = got.is_empty() && !resp.ok();
        match &want {
            Want::One(o) => cx.label(*o),
            Want::Refuse => cx.label("refuse"),
            Want::May(_) => cx.label("ambiguous"),
        }
        if want == Want::Refuse || !c.params.is_empty() || c.copy_source.is_some() {
            cx.nontrivial();
        }
        let right = match &want {
            Want::One(o) => got == [*o] && resp.ok(),
            Want::Refuse => refused,
            Want::May(v) => refused || (got.len() == 1 && v.contains(&got[0]) && resp.ok()),
        };
        if right {
            return Ok(());
        }
        let sel: Vec<&str> = c.params.iter().map(|(k, _)| k.as_str()).filter(|k| selectors().contains(k)).collect();
        viol(format!("{}:{}:{}{}", c.method, c.level, sel.join("+"), if c.copy_source.is_some() { "+copy-source" } else { "" }), format!("expected {want:?}, got calls {got:?} and status {}\n{}{}", resp.status, r.show(), resp.show()))
    }
}
