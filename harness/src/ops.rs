//! The S3 operations as the AWS API reference describes them: how each request member travels on the wire and
//! what the storage must be given for it.

use crate::http::{bin, esc, frag, pct, Content, Frag, ReqSpec};
use crate::mock::{BodySeen, Call};
use proptest::prelude::*;
use s3_server::dto::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    H,
    Q,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Str,
    /// content type (must be a media type)
    Mime,
    I64,
    Bool,
    /// the members that decide which operation the request is
    NeedStr,
    NeedI64,
    /// taken from the body length
    Len,
    CopySource,
}
#[derive(Clone, Copy, Debug)]
pub struct Param {
    pub name: &'static str,
    pub loc: Loc,
    pub ty: Ty,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Level {
    Root,
    Bucket,
    Object,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BodyKind {
    None,
    Raw,
    Delete,
    Complete,
    Config,
}

pub struct Op {
    pub name: &'static str,
    pub method: &'static str,
    pub level: Level,
    pub fixed: &'static [(&'static str, &'static str)],
    pub body: BodyKind,
    pub meta: bool,
    pub params: &'static [Param],
    pub build: fn(&Intent, &Op) -> String,
}

macro_rules! setf {
    ($d:ident, $f:ident, Str, $v:expr) => { $d.$f = Some($v.clone()) };
    ($d:ident, $f:ident, Mime, $v:expr) => { $d.$f = Some($v.clone()) };
    ($d:ident, $f:ident, I64, $v:expr) => { $d.$f = Some($v.parse().unwrap()) };
    ($d:ident, $f:ident, Len, $v:expr) => { $d.$f = Some($v.parse().unwrap()) };
    ($d:ident, $f:ident, Bool, $v:expr) => { $d.$f = Some($v == "true") };
    ($d:ident, $f:ident, NeedStr, $v:expr) => { $d.$f = $v.clone() };
    ($d:ident, $f:ident, CopySource, $v:expr) => { $d.$f = $v.clone() };
    ($d:ident, $f:ident, NeedI64, $v:expr) => { $d.$f = $v.parse().unwrap() };
}
macro_rules! level {
    (Root, $d:ident, $i:ident) => {};
    (Bucket, $d:ident, $i:ident) => { $d.bucket = $i.bucket.clone(); };
    (Object, $d:ident, $i:ident) => { $d.bucket = $i.bucket.clone(); $d.key = $i.key.clone(); };
}
macro_rules! bodyf {
    (None, $d:ident, $i:ident) => {};
    (Raw, $d:ident, $i:ident) => {};
    (Delete, $d:ident, $i:ident) => { $d.delete = $i.xml.delete(); };
    (Complete, $d:ident, $i:ident) => { $d.multipart_upload = Some($i.xml.complete()); };
    (Config, $d:ident, $i:ident) => { $d.create_bucket_configuration = $i.xml.config(); };
}

macro_rules! blank {
    (Root, $t:ident) => { $t };
    ($l:ident, $t:ident) => { <$t as Default>::default() };
}

macro_rules! ops {
    ($( $name:ident($dto:ident) $method:literal $level:ident [$($fq:literal = $fv:literal),*] $body:ident $meta:literal {
        $( $f:ident : $ty:ident = $loc:ident $wire:literal ),* $(,)?
    } )*) => {
        pub static OPS: &[Op] = &[$(
            Op {
                name: stringify!($name), method: $method, level: Level::$level, fixed: &[$(($fq, $fv)),*],
                body: BodyKind::$body, meta: $meta,
                params: &[$(Param { name: $wire, loc: Loc::$loc, ty: Ty::$ty }),*],
                build: |i, op| {
                    #[allow(unused_mut)]
                    let mut d: $dto = blank!($level, $dto);
                    let _ = (i, op);
                    level!($level, d, i);
                    bodyf!($body, d, i);
                    let mut _n = 0_usize;
                    $(
                        if let Some(v) = i.vals.get(&_n) { let _ = v; setf!(d, $f, $ty, v); }
                        _n += 1;
                    )*
                    format!("{d:?}")
                },
            },
        )*];
    };
}

ops! {
    ListBuckets(ListBucketsRequest) "GET" Root [] None false {}
    CreateBucket(CreateBucketRequest) "PUT" Bucket [] Config false {
        acl: Str = H "x-amz-acl",
        grant_full_control: Str = H "x-amz-grant-full-control",
        grant_read: Str = H "x-amz-grant-read",
        grant_read_acp: Str = H "x-amz-grant-read-acp",
        grant_write: Str = H "x-amz-grant-write",
        grant_write_acp: Str = H "x-amz-grant-write-acp",
        object_lock_enabled_for_bucket: Bool = H "x-amz-bucket-object-lock-enabled",
    }
    DeleteBucket(DeleteBucketRequest) "DELETE" Bucket [] None false {
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    HeadBucket(HeadBucketRequest) "HEAD" Bucket [] None false {
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    GetBucketLocation(GetBucketLocationRequest) "GET" Bucket ["location" = ""] None false {
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    ListObjects(ListObjectsRequest) "GET" Bucket [] None false {
        delimiter: Str = Q "delimiter",
        encoding_type: Str = Q "encoding-type",
        marker: Str = Q "marker",
        max_keys: I64 = Q "max-keys",
        prefix: Str = Q "prefix",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    ListObjectsV2(ListObjectsV2Request) "GET" Bucket ["list-type" = "2"] None false {
        continuation_token: Str = Q "continuation-token",
        delimiter: Str = Q "delimiter",
        encoding_type: Str = Q "encoding-type",
        fetch_owner: Bool = Q "fetch-owner",
        max_keys: I64 = Q "max-keys",
        prefix: Str = Q "prefix",
        start_after: Str = Q "start-after",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    DeleteObjects(DeleteObjectsRequest) "POST" Bucket ["delete" = ""] Delete false {
        mfa: Str = H "x-amz-mfa",
        request_payer: Str = H "x-amz-request-payer",
        bypass_governance_retention: Bool = H "x-amz-bypass-governance-retention",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    GetObject(GetObjectRequest) "GET" Object [] None false {
        if_match: Str = H "if-match",
        if_modified_since: Str = H "if-modified-since",
        if_none_match: Str = H "if-none-match",
        if_unmodified_since: Str = H "if-unmodified-since",
        range: Str = H "range",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
        version_id: Str = Q "versionId",
        part_number: I64 = Q "partNumber",
        response_cache_control: Str = Q "response-cache-control",
        response_content_disposition: Str = Q "response-content-disposition",
        response_content_encoding: Str = Q "response-content-encoding",
        response_content_language: Str = Q "response-content-language",
        response_content_type: Str = Q "response-content-type",
        response_expires: Str = Q "response-expires",
    }
    HeadObject(HeadObjectRequest) "HEAD" Object [] None false {
        if_match: Str = H "if-match",
        if_modified_since: Str = H "if-modified-since",
        if_none_match: Str = H "if-none-match",
        if_unmodified_since: Str = H "if-unmodified-since",
        range: Str = H "range",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
        version_id: Str = Q "versionId",
        part_number: I64 = Q "partNumber",
    }
    PutObject(PutObjectRequest) "PUT" Object [] Raw true {
        acl: Str = H "x-amz-acl",
        cache_control: Str = H "cache-control",
        content_disposition: Str = H "content-disposition",
        content_encoding: Str = H "content-encoding",
        content_language: Str = H "content-language",
        content_length: Len = H "content-length",
        content_md5: Str = H "content-md5",
        content_type: Mime = H "content-type",
        expires: Str = H "expires",
        grant_full_control: Str = H "x-amz-grant-full-control",
        grant_read: Str = H "x-amz-grant-read",
        grant_read_acp: Str = H "x-amz-grant-read-acp",
        grant_write_acp: Str = H "x-amz-grant-write-acp",
        server_side_encryption: Str = H "x-amz-server-side-encryption",
        storage_class: Str = H "x-amz-storage-class",
        website_redirect_location: Str = H "x-amz-website-redirect-location",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        ssekms_key_id: Str = H "x-amz-server-side-encryption-aws-kms-key-id",
        ssekms_encryption_context: Str = H "x-amz-server-side-encryption-context",
        bucket_key_enabled: Bool = H "x-amz-server-side-encryption-bucket-key-enabled",
        request_payer: Str = H "x-amz-request-payer",
        tagging: Str = H "x-amz-tagging",
        object_lock_mode: Str = H "x-amz-object-lock-mode",
        object_lock_retain_until_date: Str = H "x-amz-object-lock-retain-until-date",
        object_lock_legal_hold_status: Str = H "x-amz-object-lock-legal-hold",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    CopyObject(CopyObjectRequest) "PUT" Object [] None true {
        copy_source: CopySource = H "x-amz-copy-source",
        acl: Str = H "x-amz-acl",
        cache_control: Str = H "cache-control",
        content_disposition: Str = H "content-disposition",
        content_encoding: Str = H "content-encoding",
        content_language: Str = H "content-language",
        content_type: Mime = H "content-type",
        copy_source_if_match: Str = H "x-amz-copy-source-if-match",
        copy_source_if_modified_since: Str = H "x-amz-copy-source-if-modified-since",
        copy_source_if_none_match: Str = H "x-amz-copy-source-if-none-match",
        copy_source_if_unmodified_since: Str = H "x-amz-copy-source-if-unmodified-since",
        expires: Str = H "expires",
        grant_full_control: Str = H "x-amz-grant-full-control",
        grant_read: Str = H "x-amz-grant-read",
        grant_read_acp: Str = H "x-amz-grant-read-acp",
        grant_write_acp: Str = H "x-amz-grant-write-acp",
        metadata_directive: Str = H "x-amz-metadata-directive",
        tagging_directive: Str = H "x-amz-tagging-directive",
        server_side_encryption: Str = H "x-amz-server-side-encryption",
        storage_class: Str = H "x-amz-storage-class",
        website_redirect_location: Str = H "x-amz-website-redirect-location",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        ssekms_key_id: Str = H "x-amz-server-side-encryption-aws-kms-key-id",
        ssekms_encryption_context: Str = H "x-amz-server-side-encryption-context",
        bucket_key_enabled: Bool = H "x-amz-server-side-encryption-bucket-key-enabled",
        copy_source_sse_customer_algorithm: Str = H "x-amz-copy-source-server-side-encryption-customer-algorithm",
        copy_source_sse_customer_key: Str = H "x-amz-copy-source-server-side-encryption-customer-key",
        copy_source_sse_customer_key_md5: Str = H "x-amz-copy-source-server-side-encryption-customer-key-md5",
        request_payer: Str = H "x-amz-request-payer",
        tagging: Str = H "x-amz-tagging",
        object_lock_mode: Str = H "x-amz-object-lock-mode",
        object_lock_retain_until_date: Str = H "x-amz-object-lock-retain-until-date",
        object_lock_legal_hold_status: Str = H "x-amz-object-lock-legal-hold",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
        expected_source_bucket_owner: Str = H "x-amz-source-expected-bucket-owner",
    }
    DeleteObject(DeleteObjectRequest) "DELETE" Object [] None false {
        bypass_governance_retention: Bool = H "x-amz-bypass-governance-retention",
        mfa: Str = H "x-amz-mfa",
        request_payer: Str = H "x-amz-request-payer",
        version_id: Str = Q "versionId",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    CreateMultipartUpload(CreateMultipartUploadRequest) "POST" Object ["uploads" = ""] None true {
        acl: Str = H "x-amz-acl",
        cache_control: Str = H "cache-control",
        content_disposition: Str = H "content-disposition",
        content_encoding: Str = H "content-encoding",
        content_language: Str = H "content-language",
        content_type: Mime = H "content-type",
        expires: Str = H "expires",
        grant_full_control: Str = H "x-amz-grant-full-control",
        grant_read: Str = H "x-amz-grant-read",
        grant_read_acp: Str = H "x-amz-grant-read-acp",
        grant_write_acp: Str = H "x-amz-grant-write-acp",
        server_side_encryption: Str = H "x-amz-server-side-encryption",
        storage_class: Str = H "x-amz-storage-class",
        website_redirect_location: Str = H "x-amz-website-redirect-location",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        ssekms_key_id: Str = H "x-amz-server-side-encryption-aws-kms-key-id",
        ssekms_encryption_context: Str = H "x-amz-server-side-encryption-context",
        bucket_key_enabled: Bool = H "x-amz-server-side-encryption-bucket-key-enabled",
        request_payer: Str = H "x-amz-request-payer",
        tagging: Str = H "x-amz-tagging",
        object_lock_mode: Str = H "x-amz-object-lock-mode",
        object_lock_retain_until_date: Str = H "x-amz-object-lock-retain-until-date",
        object_lock_legal_hold_status: Str = H "x-amz-object-lock-legal-hold",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    UploadPart(UploadPartRequest) "PUT" Object [] Raw false {
        part_number: NeedI64 = Q "partNumber",
        upload_id: NeedStr = Q "uploadId",
        content_length: Len = H "content-length",
        content_md5: Str = H "content-md5",
        sse_customer_algorithm: Str = H "x-amz-server-side-encryption-customer-algorithm",
        sse_customer_key: Str = H "x-amz-server-side-encryption-customer-key",
        sse_customer_key_md5: Str = H "x-amz-server-side-encryption-customer-key-md5",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
    CompleteMultipartUpload(CompleteMultipartUploadRequest) "POST" Object [] Complete false {
        upload_id: NeedStr = Q "uploadId",
        request_payer: Str = H "x-amz-request-payer",
        expected_bucket_owner: Str = H "x-amz-expected-bucket-owner",
    }
}

pub fn op_index(name: &str) -> usize {
    OPS.iter().position(|o| o.name == name).unwrap()
}

/// content of an XML request body
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum XmlVal {
    None,
    Delete { objects: Vec<(String, Option<String>)>, quiet: Option<bool> },
    Complete { parts: Vec<(Option<String>, Option<i64>)> },
    Config { loc: Option<String> },
}

impl XmlVal {
    fn delete(&self) -> Delete {
        match self {
            XmlVal::Delete { objects, quiet } => Delete {
                objects: objects.iter().map(|(k, v)| ObjectIdentifier { key: k.clone(), version_id: v.clone() }).collect(),
                quiet: *quiet,
            },
            _ => Default::default(),
        }
    }
    fn complete(&self) -> CompletedMultipartUpload {
        match self {
            XmlVal::Complete { parts } => CompletedMultipartUpload {
                parts: Some(parts.iter().map(|(e, n)| CompletedPart { e_tag: e.clone(), part_number: *n }).collect()),
            },
            _ => Default::default(),
        }
    }
    fn config(&self) -> Option<CreateBucketConfiguration> {
        match self {
            XmlVal::Config { loc } => Some(CreateBucketConfiguration { location_constraint: loc.clone() }),
            _ => None,
        }
    }
}

/// What a client wants, independent of how it is spelled.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Intent {
    pub op: usize,
    pub bucket: String,
    pub key: String,
    pub vals: BTreeMap<usize, String>,
    pub meta: BTreeMap<String, String>,
    pub content: Content,
    pub xml: XmlVal,
}

impl Intent {
    pub fn op(&self) -> &'static Op {
        &OPS[self.op]
    }
    /// the storage call this request must cause
    pub fn expected(&self) -> Call {
        let op = self.op();
        let body = (op.body == BodyKind::Raw).then(|| BodySeen { bytes: self.content.bytes(), err: None });
        Call {
            op: op.name,
            input: (op.build)(self, op),
            meta: (op.meta && !self.meta.is_empty()).then(|| self.meta.clone()),
            body,
        }
    }
}

/// How a request is spelled on the wire.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spelling {
    pub path_style: u8,
    pub query_style: u8,
    /// permutation seed of headers and of query parameters
    pub order: u32,
    pub header_case: u8,
    /// spaces around header values
    pub pad: u8,
    /// `name` instead of `name=` for valueless parameters
    pub bare: bool,
    /// space as '+' in the query
    pub plus: bool,
    pub xml_style: u8,
    pub frag: Frag,
    /// additional query parameters and headers without meaning
    pub extra_q: Vec<(String, String)>,
    pub extra_h: Vec<(String, String)>,
}

impl Spelling {
    pub fn plain() -> Self {
        Spelling { path_style: 0, query_style: 0, order: 0, header_case: 0, pad: 0, bare: true, plus: false, xml_style: 0, frag: Frag::whole(), extra_q: vec![], extra_h: vec![] }
    }
}

pub fn spelling() -> BoxedStrategy<Spelling> {
    let eq = prop_oneof![
        3 => Just(vec![]),
        1 => Just(vec![("x-id".to_string(), "Op".to_string())]),
        2 => prop::collection::vec((prop_oneof![2 => "[a-z]{1,6}-q", 1 => "[a-zA-Z]{0,2}[ /+=%&~é!*'()_.:-]{0,2}[a-zA-Z]{0,3}-q"], "[a-zA-Z0-9 %&=+/~é!*'();:@,_.-]{0,8}"), 1..4),
    ];
    let eh = prop_oneof![
        3 => Just(vec![]),
        1 => Just(vec![("accept".to_string(), "*/*".to_string())]),
        1 => prop::collection::vec(("x-[a-z]{1,6}-h", "[a-zA-Z0-9=;,/]{1,8}"), 1..3),
    ];
    ((0_u8..8, 0_u8..8, any::<u32>(), 0_u8..4, 0_u8..3, any::<bool>()), (any::<bool>(), any::<u8>(), frag(), eq, eh))
        .prop_map(|((path_style, query_style, order, header_case, pad, bare), (plus, xml_style, frag, mut extra_q, mut extra_h))| {
            let mut seen = std::collections::BTreeSet::new();
            extra_q.retain(|a| seen.insert(a.0.clone()));
            extra_h.dedup_by(|a, b| a.0 == b.0);
            Spelling { path_style, query_style, order, header_case, pad, bare, plus, xml_style, frag, extra_q, extra_h }
        })
        .boxed()
}

fn shuffle<T>(v: &mut [T], seed: u32) {
    if seed == 0 {
        return;
    }
    let mut x = u64::from(seed) | 0x1_0000_0001;
    for i in (1..v.len()).rev() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.swap(i, (x % (i as u64 + 1)) as usize);
    }
}

pub fn recase(n: &str, mode: u8) -> String {
    match mode {
        1 => n.to_ascii_uppercase(),
        2 => n
            .split('-')
            .map(|p| {
                let mut c = p.chars();
                c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()
            })
            .collect::<Vec<_>>()
            .join("-"),
        3 => n.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => n.into(),
    }
}

/// request target path of a bucket and key
pub fn target_path(level: Level, bucket: &str, key: &str, style: u8) -> String {
    match level {
        Level::Root => "/".into(),
        Level::Bucket => format!("/{}", pct(bucket.as_bytes(), if style & 2 != 0 { style } else { 0 }, true)),
        Level::Object => format!("/{}/{}", bucket, pct(key.as_bytes(), style, style & 2 != 0)),
    }
}

pub fn spell(i: &Intent, s: &Spelling) -> ReqSpec {
    let op = i.op();
    let mut q: Vec<(String, String)> = op.fixed.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut h: Vec<(String, String)> = vec![];
    let body = match op.body {
        BodyKind::None => vec![],
        BodyKind::Raw => i.content.bytes(),
        _ => xml_body(&i.xml, s.xml_style),
    };
    for (n, v) in &i.vals {
        let p = &op.params[*n];
        match p.loc {
            Loc::H => h.push((p.name.into(), v.clone())),
            Loc::Q => q.push((p.name.into(), v.clone())),
        }
    }
    if op.meta {
        for (n, v) in &i.meta {
            h.push((format!("x-amz-meta-{n}"), v.clone()));
        }
    }
    q.extend(s.extra_q.iter().cloned());
    h.extend(s.extra_h.iter().cloned());
    shuffle(&mut q, s.order);
    shuffle(&mut h, s.order);
    let enc = |t: &str| {
        let mut o = pct(t.as_bytes(), s.query_style & 3, true);
        if s.plus {
            o = o.replace("%20", "+");
        }
        o
    };
    let qs = q
        .iter()
        .map(|(n, v)| {
            let n = pct(n.as_bytes(), s.query_style & 1, true);
            if v.is_empty() && s.bare {
                n
            } else {
                format!("{n}={}", enc(v))
            }
        })
        .collect::<Vec<_>>()
        .join("&");
    let path = target_path(op.level, &i.bucket, &i.key, s.path_style);
    let target = if qs.is_empty() { path } else { format!("{path}?{qs}") };
    let mut r = ReqSpec::new(op.method, &target).body(body);
    for (n, v) in h {
        r.headers.push((recase(&n, s.header_case), v));
    }
    r.frag = s.frag.clone();
    r
}

fn xml_text(t: &str, style: u8) -> String {
    let mut o = String::new();
    if style & 8 != 0 && !t.contains("]]>") && !t.contains('\r') && !t.is_empty() {
        return format!("<![CDATA[{t}]]>");
    }
    for (i, c) in t.chars().enumerate() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '>' => o.push_str("&gt;"),
            '\r' => o.push_str("&#13;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            '"' if style & 16 != 0 => o.push_str("&quot;"),
            '\'' if style & 16 != 0 => o.push_str("&apos;"),
            c if style & 32 != 0 && i % 3 == 0 => o.push_str(&format!("&#x{:X};", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// style bits: 1 declaration, 2 xmlns, 4 whitespace, 8 CDATA, 16 quote entities, 32 numeric references, 64 comments
pub fn xml_body(x: &XmlVal, style: u8) -> Vec<u8> {
    let nl = if style & 4 != 0 { "\n  " } else { "" };
    let cm = if style & 64 != 0 { "<!-- note -->" } else { "" };
    let ns = if style & 2 != 0 { " xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"" } else { "" };
    let el = |n: &str, t: &str| format!("{nl}<{n}>{}</{n}>", xml_text(t, style));
    let inner = match x {
        XmlVal::None => return vec![],
        XmlVal::Delete { objects, quiet } => {
            let mut b = String::new();
            let q = quiet.map(|q| format!("{nl}<Quiet>{q}</Quiet>")).unwrap_or_default();
            if style & 128 == 0 {
                b.push_str(&q);
            }
            for (k, v) in objects {
                b.push_str(&format!("{nl}<Object>{cm}{}{}{nl}</Object>", el("Key", k), v.as_ref().map(|v| el("VersionId", v)).unwrap_or_default()));
            }
            if style & 128 != 0 {
                b.push_str(&q);
            }
            format!("<Delete{ns}>{cm}{b}{nl}</Delete>")
        }
        XmlVal::Complete { parts } => {
            let mut b = String::new();
            for (e, n) in parts {
                let e = e.as_ref().map(|e| el("ETag", e)).unwrap_or_default();
                let n = n.map(|n| format!("{nl}<PartNumber>{n}</PartNumber>")).unwrap_or_default();
                let (x, y) = if style & 128 != 0 { (n, e) } else { (e, n) };
                b.push_str(&format!("{nl}<Part>{cm}{x}{y}{nl}</Part>"));
            }
            format!("<CompleteMultipartUpload{ns}>{cm}{b}{nl}</CompleteMultipartUpload>")
        }
        XmlVal::Config { loc } => {
            format!("<CreateBucketConfiguration{ns}>{cm}{}{nl}</CreateBucketConfiguration>", loc.as_ref().map(|l| el("LocationConstraint", l)).unwrap_or_default())
        }
    };
    let decl = if style & 1 != 0 { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" } else { "" };
    format!("{decl}{inner}").into_bytes()
}

// ---------------------------------------------------------------------------------------------- generators

pub fn bucket_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z0-9][a-z0-9-]{1,14}[a-z0-9]",
        1 => "[a-z0-9]{2,6}\\.[a-z][a-z0-9-]{1,6}[a-z0-9]",
        1 => "[a-z0-9][a-z0-9-]{61}[a-z0-9]",
    ]
    .prop_filter("aws-reserved", |s| !s.starts_with("xn--") && !s.ends_with("-s3alias"))
    .boxed()
}

/// any legal key of the protocol (no control characters), including ones a file system would not like
pub fn proto_key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z0-9._~-]{1,12}",
        3 => "[a-z/ ]{1,10}".prop_map(|s| s.trim_start_matches('/').to_string()),
        3 => "[!-~ ]{1,12}",
        2 => prop::collection::vec(prop_oneof![Just("a"), Just("+"), Just("%"), Just("%20"), Just("é"), Just("日本"), Just("😀"), Just("?"), Just("#"), Just("&"), Just("="), Just("."), Just(".."), Just("//"), Just("\\"), Just(" "), Just("%2F"), Just("%zz"), Just(";"), Just(",")], 1..8)
            .prop_map(|v| v.concat()),
        1 => "\\PC{1,8}",
        1 => (1_usize..1025).prop_map(|n| "k".repeat(n)),
    ]
    .prop_map(|s| s.trim_start_matches('/').to_string())
    .prop_map(|s| if s.is_empty() { "k".into() } else { s })
    .prop_filter("key length", |s: &String| s.len() <= 1024)
    .boxed()
}

/// printable header text without leading, trailing or repeated spaces
pub fn header_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9=;,/:._-]{1,16}",
        2 => "[!-~]{1,6}( [!-~]{1,6}){0,2}",
        1 => "\"[a-f0-9]{8}\"",
        1 => "[!-~]{40,90}",
    ]
    .boxed()
}

pub fn query_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9/._-]{1,12}",
        2 => "[!-~ ]{1,12}",
        1 => "[\\PC ]{1,6}",
        1 => prop::collection::vec(prop_oneof![Just("&"), Just("="), Just("+"), Just("%"), Just("/"), Just("é"), Just("%2F"), Just("a"), Just(" ")], 1..6).prop_map(|v| v.concat()),
    ]
    .boxed()
}

pub fn media_type() -> BoxedStrategy<String> {
    prop_oneof![
        Just("text/plain".to_string()),
        Just("application/octet-stream".to_string()),
        Just("text/html; charset=utf-8".to_string()),
        Just("image/svg+xml".to_string()),
        Just("application/x-www-form-urlencoded".to_string()),
        "application/x-[a-z]{1,6}",
    ]
    .boxed()
}

fn int_text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => (0_i64..10_001).prop_map(|n| n.to_string()),
        1 => any::<i64>().prop_map(|n| n.to_string()),
        1 => prop_oneof![Just(i64::MAX), Just(i64::MIN), Just(0), Just(-1), Just(1 << 32)].prop_map(|n| n.to_string()),
        1 => (0_i64..1000).prop_map(|n| format!("000{n}")),
    ]
    .boxed()
}

pub fn param_value(p: &Param) -> BoxedStrategy<String> {
    match p.ty {
        Ty::Str => match p.loc {
            Loc::H => header_text(),
            Loc::Q => query_text(),
        },
        Ty::Mime => media_type(),
        Ty::I64 | Ty::NeedI64 => int_text(),
        Ty::Bool => prop_oneof![Just("true".to_string()), Just("false".to_string())].boxed(),
        Ty::NeedStr => prop_oneof![2 => "[0-9a-f]{8}-[0-9a-f]{4}".boxed(), 1 => query_text()].boxed(),
        Ty::Len => Just(String::new()).boxed(),
        Ty::CopySource => (any::<bool>(), bucket_name(), "[a-zA-Z0-9._-]{1,10}(/[a-z0-9]{1,5}){0,2}")
            .prop_map(|(s, b, k)| format!("{}{b}/{k}", if s { "/" } else { "" }))
            .boxed(),
    }
}

pub fn xml_val(k: BodyKind) -> BoxedStrategy<XmlVal> {
    match k {
        BodyKind::Delete => {
            let key = proto_key().prop_filter("xml", |k| k.chars().all(crate::xmlmini::xml_char));
            (prop::collection::vec((key, prop::option::of("[a-zA-Z0-9._-]{1,10}")), 1..5), any::<Option<bool>>())
                .prop_map(|(objects, quiet)| XmlVal::Delete { objects, quiet })
                .boxed()
        }
        BodyKind::Complete => prop::collection::vec((prop::option::of(prop_oneof!["\"[a-f0-9]{32}\"", "[a-f0-9]{32}(-[0-9]{1,3})?"]), prop::option::weighted(0.9, prop_oneof![4 => 1_i64..10_001, 1 => any::<i64>()])), 1..6)
            .prop_map(|parts| XmlVal::Complete { parts })
            .boxed(),
        BodyKind::Config => prop_oneof![1 => Just(XmlVal::None), 2 => prop::option::weighted(0.8, "[a-z]{2}-[a-z]{4,9}-[1-4]").prop_map(|loc| XmlVal::Config { loc })].boxed(),
        _ => Just(XmlVal::None).boxed(),
    }
}

pub fn metadata() -> BoxedStrategy<BTreeMap<String, String>> {
    prop_oneof![
        2 => Just(BTreeMap::new()),
        3 => prop::collection::btree_map("[a-z0-9][a-z0-9_.-]{0,8}", header_text(), 1..5),
    ]
    .boxed()
}

pub fn intent_of(op: usize, content: BoxedStrategy<Content>) -> BoxedStrategy<Intent> {
    let o = &OPS[op];
    let n = o.params.len();
    // each optional member with probability 1/4, or all, or exactly one
    let pick = prop_oneof![
        4 => prop::collection::vec(prop::bool::weighted(0.25), n),
        1 => Just(vec![true; n]),
        1 => Just(vec![false; n]),
        3 => (0..n.max(1)).prop_map(move |k| (0..n).map(|i| i == k).collect::<Vec<_>>()),
    ];
    let vals: Vec<BoxedStrategy<String>> = o.params.iter().map(param_value).collect();
    (bucket_name(), proto_key(), pick, vals, metadata(), content, xml_val(o.body))
        .prop_map(move |(bucket, key, pick, vals, meta, content, xml)| {
            let o = &OPS[op];
            let mut m = BTreeMap::new();
            for (k, p) in o.params.iter().enumerate() {
                let need = matches!(p.ty, Ty::NeedStr | Ty::NeedI64 | Ty::CopySource);
                if need || pick[k] {
                    let v = if p.ty == Ty::Len { content.len().to_string() } else { vals[k].clone() };
                    m.insert(k, v);
                }
            }
            let raw = o.body == BodyKind::Raw;
            Intent {
                op,
                bucket: if o.level == Level::Root { String::new() } else { bucket },
                key: if o.level == Level::Object { key } else { String::new() },
                vals: m,
                meta: if o.meta { meta } else { BTreeMap::new() },
                content: if raw { content } else { Content::Lit(vec![]) },
                xml,
            }
        })
        .boxed()
}

pub fn intent() -> BoxedStrategy<Intent> {
    let ops: Vec<(u32, BoxedStrategy<Intent>)> = (0..OPS.len())
        .map(|i| {
            let w = if OPS[i].params.len() > 12 { 3 } else if OPS[i].params.is_empty() { 1 } else { 2 };
            (w, intent_of(i, crate::http::content_small()))
        })
        .collect();
    prop::strategy::Union::new_weighted(ops).boxed()
}

pub fn diff_calls(want: &[Call], got: &[Call]) -> Option<String> {
    if want == got {
        return None;
    }
    Some(format!("expected storage call(s):\n{}\nactual storage call(s):\n{}", crate::mock::show_calls(want), crate::mock::show_calls(got)))
}

#[allow(dead_code)]
pub fn show_bytes(b: &[u8]) -> String {
    format!("{} [{}]", bin::to_text(b), esc(b))
}
