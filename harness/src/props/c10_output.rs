//! C10: the response to a successful storage call, compared with the one the API reference prescribes for the
//! scripted result. The tables below list wire names per operation.

use crate::engine::*;
use crate::http::{Content, Frag, Item};
use crate::mock::{self, Out};
use crate::ops::*;
use crate::xmlmini::{self, Node};
use futures::StreamExt;
use proptest::prelude::*;
use s3_server::dto::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    /// text
    S,
    Bool,
    Int,
    /// RFC 3339 instant given, HTTP date on the wire
    Date,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    H,
    X,
}

struct F {
    wire: &'static str,
    loc: L,
    ty: T,
    set: fn(&mut AnyOut, &str),
}

#[derive(Default)]
struct AnyOut {
    complete: CompleteMultipartUploadOutput,
    copy: CopyObjectOutput,
    create_bucket: CreateBucketOutput,
    create_upload: CreateMultipartUploadOutput,
    delete: DeleteObjectOutput,
    delete_many: DeleteObjectsOutput,
    location: GetBucketLocationOutput,
    get: GetObjectOutput,
    head: HeadObjectOutput,
    buckets: ListBucketsOutput,
    list: ListObjectsOutput,
    list2: ListObjectsV2Output,
    put: PutObjectOutput,
    part: UploadPartOutput,
}

macro_rules! set {
    ($m:ident, $f:ident, S) => {
        |o: &mut AnyOut, v: &str| o.$m.$f = Some(v.to_owned())
    };
    ($m:ident, $f:ident, Date) => {
        |o: &mut AnyOut, v: &str| o.$m.$f = Some(v.to_owned())
    };
    ($m:ident, $f:ident, Bool) => {
        |o: &mut AnyOut, v: &str| o.$m.$f = Some(v.parse().unwrap())
    };
    ($m:ident, $f:ident, Int) => {
        |o: &mut AnyOut, v: &str| o.$m.$f = Some(v.parse().unwrap())
    };
}
macro_rules! fields {
    ($m:ident; $($loc:ident $wire:literal $f:ident $ty:ident),* $(,)?) => {
        &[$(F { wire: $wire, loc: L::$loc, ty: T::$ty, set: set!($m, $f, $ty) }),*]
    };
}

const SSE: &str = "x-amz-server-side-encryption";

struct OutOp {
    name: &'static str,
    status: u16,
    root: Option<&'static str>,
    fields: &'static [F],
}

static OUTS: &[OutOp] = &[
    OutOp {
        name: "CompleteMultipartUpload",
        status: 200,
        root: Some("CompleteMultipartUploadResult"),
        fields: fields![complete;
            X "Location" location S, X "Bucket" bucket S, X "Key" key S, X "ETag" e_tag S,
            H "x-amz-expiration" expiration S, H "x-amz-server-side-encryption" server_side_encryption S, H "x-amz-version-id" version_id S,
            H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S, H "x-amz-request-charged" request_charged S,
            H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp {
        name: "CopyObject",
        status: 200,
        root: Some("CopyObjectResult"),
        fields: fields![copy;
            H "x-amz-expiration" expiration S, H "x-amz-copy-source-version-id" copy_source_version_id S, H "x-amz-version-id" version_id S,
            H "x-amz-server-side-encryption" server_side_encryption S, H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S,
            H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S, H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S,
            H "x-amz-server-side-encryption-context" ssekms_encryption_context S, H "x-amz-request-charged" request_charged S,
            H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp { name: "CreateBucket", status: 200, root: None, fields: fields![create_bucket; H "location" location S] },
    OutOp {
        name: "CreateMultipartUpload",
        status: 200,
        root: Some("InitiateMultipartUploadResult"),
        fields: fields![create_upload;
            X "Bucket" bucket S, X "Key" key S, X "UploadId" upload_id S,
            H "x-amz-abort-date" abort_date S, H "x-amz-abort-rule-id" abort_rule_id S, H "x-amz-server-side-encryption" server_side_encryption S,
            H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S, H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S,
            H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S, H "x-amz-server-side-encryption-context" ssekms_encryption_context S,
            H "x-amz-request-charged" request_charged S, H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp { name: "DeleteBucket", status: 204, root: None, fields: &[] },
    OutOp {
        name: "DeleteObject",
        status: 204,
        root: None,
        fields: fields![delete; H "x-amz-delete-marker" delete_marker Bool, H "x-amz-version-id" version_id S, H "x-amz-request-charged" request_charged S],
    },
    OutOp { name: "DeleteObjects", status: 200, root: Some("DeleteResult"), fields: fields![delete_many; H "x-amz-request-charged" request_charged S] },
    OutOp { name: "GetBucketLocation", status: 200, root: Some("LocationConstraint"), fields: &[] },
    OutOp {
        name: "GetObject",
        status: 200,
        root: None,
        fields: fields![get;
            H "x-amz-delete-marker" delete_marker Bool, H "accept-ranges" accept_ranges S, H "x-amz-expiration" expiration S, H "x-amz-restore" restore S,
            H "last-modified" last_modified Date, H "etag" e_tag S, H "x-amz-missing-meta" missing_meta Int, H "x-amz-version-id" version_id S,
            H "cache-control" cache_control S, H "content-disposition" content_disposition S, H "content-encoding" content_encoding S,
            H "content-language" content_language S, H "content-range" content_range S, H "content-type" content_type S, H "expires" expires S,
            H "x-amz-website-redirect-location" website_redirect_location S, H "x-amz-server-side-encryption" server_side_encryption S,
            H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S, H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S,
            H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S, H "x-amz-storage-class" storage_class S, H "x-amz-request-charged" request_charged S,
            H "x-amz-replication-status" replication_status S, H "x-amz-mp-parts-count" parts_count Int, H "x-amz-tagging-count" tag_count Int,
            H "x-amz-object-lock-mode" object_lock_mode S, H "x-amz-object-lock-retain-until-date" object_lock_retain_until_date S,
            H "x-amz-object-lock-legal-hold" object_lock_legal_hold_status S, H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp { name: "HeadBucket", status: 200, root: None, fields: &[] },
    OutOp {
        name: "HeadObject",
        status: 200,
        root: None,
        fields: fields![head;
            H "x-amz-delete-marker" delete_marker Bool, H "accept-ranges" accept_ranges S, H "x-amz-expiration" expiration S, H "x-amz-restore" restore S,
            H "x-amz-archive-status" archive_status S, H "content-length" content_length Int,
            H "last-modified" last_modified Date, H "etag" e_tag S, H "x-amz-missing-meta" missing_meta Int, H "x-amz-version-id" version_id S,
            H "cache-control" cache_control S, H "content-disposition" content_disposition S, H "content-encoding" content_encoding S,
            H "content-language" content_language S, H "content-type" content_type S, H "expires" expires S,
            H "x-amz-website-redirect-location" website_redirect_location S, H "x-amz-server-side-encryption" server_side_encryption S,
            H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S, H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S,
            H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S, H "x-amz-storage-class" storage_class S, H "x-amz-request-charged" request_charged S,
            H "x-amz-replication-status" replication_status S, H "x-amz-mp-parts-count" parts_count Int,
            H "x-amz-object-lock-mode" object_lock_mode S, H "x-amz-object-lock-retain-until-date" object_lock_retain_until_date S,
            H "x-amz-object-lock-legal-hold" object_lock_legal_hold_status S, H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp { name: "ListBuckets", status: 200, root: Some("ListAllMyBucketsResult"), fields: &[] },
    OutOp {
        name: "ListObjects",
        status: 200,
        root: Some("ListBucketResult"),
        fields: fields![list;
            X "IsTruncated" is_truncated Bool, X "Marker" marker S, X "NextMarker" next_marker S, X "Name" name S, X "Prefix" prefix S,
            X "Delimiter" delimiter S, X "MaxKeys" max_keys Int, X "EncodingType" encoding_type S],
    },
    OutOp {
        name: "ListObjectsV2",
        status: 200,
        root: Some("ListBucketResult"),
        fields: fields![list2;
            X "IsTruncated" is_truncated Bool, X "Name" name S, X "Prefix" prefix S, X "Delimiter" delimiter S, X "MaxKeys" max_keys Int,
            X "EncodingType" encoding_type S, X "KeyCount" key_count Int, X "ContinuationToken" continuation_token S,
            X "NextContinuationToken" next_continuation_token S, X "StartAfter" start_after S],
    },
    OutOp {
        name: "PutObject",
        status: 200,
        root: None,
        fields: fields![put;
            H "x-amz-expiration" expiration S, H "etag" e_tag S, H "x-amz-server-side-encryption" server_side_encryption S, H "x-amz-version-id" version_id S,
            H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S, H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S,
            H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S, H "x-amz-server-side-encryption-context" ssekms_encryption_context S,
            H "x-amz-request-charged" request_charged S, H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
    OutOp {
        name: "UploadPart",
        status: 200,
        root: None,
        fields: fields![part;
            H "etag" e_tag S, H "x-amz-server-side-encryption" server_side_encryption S, H "x-amz-server-side-encryption-customer-algorithm" sse_customer_algorithm S,
            H "x-amz-server-side-encryption-customer-key-md5" sse_customer_key_md5 S, H "x-amz-server-side-encryption-aws-kms-key-id" ssekms_key_id S,
            H "x-amz-request-charged" request_charged S, H "x-amz-server-side-encryption-bucket-key-enabled" bucket_key_enabled Bool],
    },
];

/// one repeated item: texts of its members by element name; "Owner" members as "Owner.ID"
type Row = BTreeMap<String, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: String,
    /// by index into the field table
    pub vals: BTreeMap<usize, String>,
    pub meta: Option<BTreeMap<String, String>>,
    /// repeated element -> rows; absent key: the list is None
    pub lists: BTreeMap<String, Vec<Row>>,
    pub single: Option<Row>,
    pub body: Option<Content>,
    pub body_len: bool,
    pub frag: Frag,
    /// the storage's stream fails after this many bytes
    pub fail_after: Option<usize>,
}

pub struct C10;

fn xml_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ -~]{0,16}",
        3 => "[<>&\"'\\]\\[!;#a-z \t\r\n/?-]{0,12}",
        1 => Just("]]>".to_string()),
        1 => Just("&amp;".to_string()),
        1 => Just("<![CDATA[x]]>".to_string()),
        1 => Just(" lead and trail ".to_string()),
        2 => prop::collection::vec(any::<char>().prop_filter("xml", |c| crate::xmlmini::xml_char(*c)), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}
fn out_header_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => header_text(),
        1 => "[a-z]{0,3}[é漢ü]{1,3}",
        // no header value at all
        1 => prop::sample::select(vec!["\n", "a\r\nx-injected: 1", "\0", "a\u{7f}"]).prop_map(str::to_owned),
    ]
    .boxed()
}
fn date_text() -> BoxedStrategy<String> {
    let z = prop_oneof![3 => Just("Z".to_string()), 1 => Just("+00:00".to_string()), 2 => (0_i32..14, prop::sample::select(vec![0, 30, 45]), any::<bool>()).prop_map(|(h, m, n)| format!("{}{h:02}:{m:02}", if n { '-' } else { '+' }))];
    prop_oneof![
        12 => (1971_i32..2100, 1_u32..13, 1_u32..29, 0_u32..24, 0_u32..60, 0_u32..60, prop_oneof![Just(String::new()), "\\.[0-9]{1,9}"], z).prop_map(|(y, m, d, h, mi, s, f, z)| format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{f}{z}")),
        1 => prop::sample::select(vec!["yesterday", "2020-13-01T00:00:00Z", "2020-01-01", ""]).prop_map(str::to_owned),
    ]
    .boxed()
}
fn value(f: &F) -> BoxedStrategy<String> {
    match (f.ty, f.loc) {
        (T::Bool, _) => prop_oneof![Just("true"), Just("false")].prop_map(str::to_owned).boxed(),
        (T::Int, _) if f.wire == "content-length" => (0_i64..1 << 40).prop_map(|i| i.to_string()).boxed(),
        (T::Int, _) => prop_oneof![3 => (0_i64..10_000), 1 => any::<i64>()].prop_map(|i| i.to_string()).boxed(),
        (T::Date, _) => date_text(),
        (T::S, L::H) => out_header_text(),
        (T::S, L::X) => xml_text(),
    }
}

/// civil date of an RFC 3339 text as an HTTP date; None: not RFC 3339
fn http_date(s: &str) -> Option<String> {
    let b = s.as_bytes();
    if b.len() < 20 || b[4] != b'-' || b[10] != b'T' {
        return None;
    }
    let n = |a: usize, z: usize| s.get(a..z)?.parse::<i64>().ok();
    let (y, mo, d, h, mi, sec) = (n(0, 4)?, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    if !(1..=12).contains(&mo) {
        return None;
    }
    let z = s[19..].trim_start_matches(|c: char| c == '.' || c.is_ascii_digit());
    let off = if z == "Z" {
        0
    } else {
        let sign = if z.starts_with('-') { -1 } else { 1 };
        sign * (z.get(1..3)?.parse::<i64>().ok()? * 3600 + z.get(4..6)?.parse::<i64>().ok()? * 60)
    };
    // days from civil
    let (yy, m2) = if mo <= 2 { (y - 1, mo + 9) } else { (y, mo - 3) };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * m2 + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146_097 + doe - 719_468;
    let t = days * 86400 + h * 3600 + mi * 60 + sec - off;
    Some(fmt_http(t))
}

/// seconds since 1970 as an HTTP date
pub fn fmt_http(t: i64) -> String {
    let (days, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    format!("{wd}, {d:02} {mn} {y:04} {:02}:{:02}:{:02} GMT", sec / 3600, sec / 60 % 60, sec % 60)
}

struct RowF {
    wire: &'static str,
    ty: T,
}
const fn s(wire: &'static str) -> RowF {
    RowF { wire, ty: T::S }
}
const DELETED: &[RowF] = &[RowF { wire: "DeleteMarker", ty: T::Bool }, s("DeleteMarkerVersionId"), s("Key"), s("VersionId")];
const ERRORS: &[RowF] = &[s("Code"), s("Key"), s("Message"), s("VersionId")];
const CONTENTS: &[RowF] = &[s("Key"), s("LastModified"), s("ETag"), RowF { wire: "Size", ty: T::Int }, s("StorageClass"), s("Owner.ID"), s("Owner.DisplayName")];
const PREFIXES: &[RowF] = &[s("Prefix")];
const BUCKETS: &[RowF] = &[s("CreationDate"), s("Name")];
const OWNER: &[RowF] = &[s("DisplayName"), s("ID")];
const COPY: &[RowF] = &[s("ETag"), s("LastModified")];
const LOC: &[RowF] = &[s("LocationConstraint")];

fn lists_of(op: &str) -> Vec<(&'static str, &'static [RowF])> {
    match op {
        "DeleteObjects" => vec![("Deleted", DELETED), ("Error", ERRORS)],
        "ListObjects" | "ListObjectsV2" => vec![("Contents", CONTENTS), ("CommonPrefixes", PREFIXES)],
        "ListBuckets" => vec![("Bucket", BUCKETS)],
        _ => vec![],
    }
}
fn single_of(op: &str) -> Option<&'static [RowF]> {
    match op {
        "ListBuckets" => Some(OWNER),
        "CopyObject" => Some(COPY),
        "GetBucketLocation" => Some(LOC),
        _ => None,
    }
}

fn row(fs: &'static [RowF]) -> BoxedStrategy<Row> {
    let each: Vec<BoxedStrategy<Option<(String, String)>>> = fs
        .iter()
        .map(|f| {
            let v: BoxedStrategy<String> = match f.ty {
                T::Bool => any::<bool>().prop_map(|b| b.to_string()).boxed(),
                T::Int => prop_oneof![3 => (0_i64..1 << 34), 1 => any::<i64>()].prop_map(|i| i.to_string()).boxed(),
                _ => xml_text(),
            };
            prop::option::weighted(0.7, v).prop_map(move |v| v.map(|v| (f.wire.to_owned(), v))).boxed()
        })
        .collect();
    each.prop_map(|v| v.into_iter().flatten().collect::<Row>()).boxed()
}

fn case_of(i: usize) -> BoxedStrategy<Case> {
    let o = &OUTS[i];
    let n = o.fields.len();
    let vals: BoxedStrategy<BTreeMap<usize, String>> = if n == 0 {
        Just(BTreeMap::new()).boxed()
    } else {
        let each: Vec<BoxedStrategy<Option<String>>> = o.fields.iter().map(|f| prop::option::weighted(0.5, value(f)).boxed()).collect();
        (each, 0_u8..8)
            .prop_map(move |(v, keep)| {
                let mut m: BTreeMap<usize, String> = v.into_iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
                // most cases hold no value that cannot be represented
                if keep > 0 {
                    m.retain(|k, v| representable(&OUTS[i].fields[*k], v));
                }
                m
            })
            .boxed()
    };
    let mut lists: BoxedStrategy<BTreeMap<String, Vec<Row>>> = Just(BTreeMap::new()).boxed();
    for (name, fs) in lists_of(o.name) {
        let l = prop_oneof![2 => Just(None), 1 => Just(Some(vec![])), 8 => prop::collection::vec(row(fs), 1..6).prop_map(Some), 1 => prop::collection::vec(row(fs), 6..40).prop_map(Some)];
        lists = (lists, l).prop_map(move |(mut m, l)| {
            if let Some(l) = l {
                m.insert(name.to_owned(), l);
            }
            m
        })
        .boxed();
    }
    let single = match single_of(o.name) {
        Some(fs) => prop::option::weighted(0.8, row(fs)).boxed(),
        None => Just(None).boxed(),
    };
    let has_meta = matches!(o.name, "GetObject" | "HeadObject");
    let meta = if has_meta { prop::option::weighted(0.6, metadata()).boxed() } else { Just(None).boxed() };
    let body: BoxedStrategy<(Option<Content>, bool, Option<usize>)> = if o.name == "GetObject" {
        (prop::option::weighted(0.85, crate::http::content_any()), any::<bool>(), prop::option::weighted(0.1, prop_oneof![Just(0_usize), 0_usize..40, 0_usize..5000])).boxed()
    } else {
        Just((None, false, None)).boxed()
    };
    (vals, meta, lists, single, body, crate::http::frag())
        .prop_map(move |(vals, meta, lists, single, (body, body_len, fail_after), frag)| Case { op: OUTS[i].name.into(), vals, meta, lists, single, body, body_len, frag, fail_after })
        .boxed()
}

fn header_ok(v: &str) -> bool {
    v.bytes().all(|b| (b >= 32 && b != 127) || b == b'\t')
}
fn representable(f: &F, v: &str) -> bool {
    match (f.loc, f.ty) {
        (_, T::Date) => http_date(v).is_some(),
        (L::H, T::S) => header_ok(v),
        _ => true,
    }
}

fn fill(c: &Case, o: &OutOp) -> AnyOut {
    let mut a = AnyOut::default();
    for (k, v) in &c.vals {
        (o.fields[*k].set)(&mut a, v);
    }
    let g = |r: &Row, n: &str| r.get(n).cloned();
    let objs = |rows: &Vec<Row>| -> Vec<Object> {
        rows.iter()
            .map(|r| {
                let owner = (r.contains_key("Owner.ID") || r.contains_key("Owner.DisplayName")).then(|| Owner { id: g(r, "Owner.ID"), display_name: g(r, "Owner.DisplayName") });
                Object { key: g(r, "Key"), last_modified: g(r, "LastModified"), e_tag: g(r, "ETag"), size: g(r, "Size").map(|v| v.parse().unwrap()), storage_class: g(r, "StorageClass"), owner }
            })
            .collect()
    };
    let l = |n: &str| c.lists.get(n);
    match o.name {
        "ListObjects" => {
            a.list.contents = l("Contents").map(objs);
            a.list.common_prefixes = l("CommonPrefixes").map(|rows| rows.iter().map(|_| Default::default()).collect());
            if let Some(v) = a.list.common_prefixes.as_mut() {
                for (p, r) in v.iter_mut().zip(l("CommonPrefixes").unwrap()) {
                    p.prefix = g(r, "Prefix");
                }
            }
        }
        "ListObjectsV2" => {
            a.list2.contents = l("Contents").map(objs);
            a.list2.common_prefixes = l("CommonPrefixes").map(|rows| rows.iter().map(|_| Default::default()).collect());
            if let Some(v) = a.list2.common_prefixes.as_mut() {
                for (p, r) in v.iter_mut().zip(l("CommonPrefixes").unwrap()) {
                    p.prefix = g(r, "Prefix");
                }
            }
        }
        "ListBuckets" => {
            a.buckets.buckets = l("Bucket").map(|rows| rows.iter().map(|r| Bucket { creation_date: g(r, "CreationDate"), name: g(r, "Name") }).collect());
            a.buckets.owner = c.single.as_ref().map(|r| Owner { id: g(r, "ID"), display_name: g(r, "DisplayName") });
        }
        "CopyObject" => a.copy.copy_object_result = c.single.as_ref().map(|r| CopyObjectResult { e_tag: g(r, "ETag"), last_modified: g(r, "LastModified") }),
        "GetBucketLocation" => a.location.location_constraint = c.single.as_ref().and_then(|r| g(r, "LocationConstraint")),
        "DeleteObjects" => {
            a.delete_many.deleted = l("Deleted").map(|rows| rows.iter().map(|r| DeletedObject { delete_marker: g(r, "DeleteMarker").map(|v| v.parse().unwrap()), delete_marker_version_id: g(r, "DeleteMarkerVersionId"), key: g(r, "Key"), version_id: g(r, "VersionId") }).collect());
            a.delete_many.errors = l("Error").map(|rows| rows.iter().map(|_| Default::default()).collect());
            if let Some(v) = a.delete_many.errors.as_mut() {
                for (e, r) in v.iter_mut().zip(l("Error").unwrap()) {
                    e.code = g(r, "Code");
                    e.key = g(r, "Key");
                    e.message = g(r, "Message");
                    e.version_id = g(r, "VersionId");
                }
            }
        }
        _ => {}
    }
    let meta = c.meta.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::HashMap<_, _>>());
    a.get.metadata = meta.clone();
    a.head.metadata = meta;
    if let Some(b) = &c.body {
        let items = crate::http::body_items(&b.bytes(), &c.frag, c.fail_after);
        a.get.body = Some(ByteStream::new(storage_stream(items)));
        if c.body_len {
            a.get.content_length = Some(b.len() as i64);
        }
    }
    a
}

fn storage_stream(items: std::collections::VecDeque<Item>) -> impl futures::Stream<Item = std::io::Result<hyper::body::Bytes>> + Send + 'static {
    crate::http::BodyStream::of(items).map(|r| r.map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string())))
}

fn to_out(op: &str, a: AnyOut) -> Option<Out> {
    Some(match op {
        "CompleteMultipartUpload" => Out::Complete(a.complete),
        "CopyObject" => Out::Copy(a.copy),
        "CreateBucket" => Out::CreateBucket(a.create_bucket),
        "CreateMultipartUpload" => Out::CreateUpload(a.create_upload),
        "DeleteObject" => Out::Delete(a.delete),
        "DeleteObjects" => Out::DeleteMany(a.delete_many),
        "GetBucketLocation" => Out::Location(a.location),
        "GetObject" => Out::Get(Box::new(a.get)),
        "HeadObject" => Out::Head(Box::new(a.head)),
        "ListBuckets" => Out::ListBuckets(a.buckets),
        "ListObjects" => Out::List(a.list),
        "ListObjectsV2" => Out::List2(a.list2),
        "PutObject" => Out::Put(a.put),
        "UploadPart" => Out::Part(a.part),
        _ => return None,
    })
}

fn leaf(n: &str, t: &str) -> Node {
    Node { name: n.into(), text: t.into(), children: vec![] }
}
fn row_node(name: &str, r: &Row) -> Node {
    let mut n = Node { name: name.into(), text: String::new(), children: vec![] };
    let mut owner = Node { name: "Owner".into(), text: String::new(), children: vec![] };
    for (k, v) in r {
        match k.strip_prefix("Owner.") {
            Some(k) => owner.children.push(leaf(k, v)),
            None => n.children.push(leaf(k, v)),
        }
    }
    if !owner.children.is_empty() {
        n.children.push(owner);
    }
    n
}
/// the order of differently named members carries no meaning; empty containers are the same as none
fn canon(mut n: Node) -> Node {
    n.children = n.children.into_iter().map(canon).filter(|c| !(c.children.is_empty() && c.text.is_empty() && matches!(c.name.as_str(), "Buckets" | "Owner"))).collect();
    n.children.sort_by(|a, b| a.name.cmp(&b.name));
    n
}
fn ws_only(n: &Node) -> bool {
    (n.children.is_empty() || n.text.chars().all(|c| c.is_ascii_whitespace())) && n.children.iter().all(ws_only)
}
fn strip(mut n: Node) -> Node {
    if !n.children.is_empty() {
        n.text.clear();
    }
    n.children = n.children.into_iter().map(strip).collect();
    n
}

fn expected_doc(c: &Case, o: &OutOp) -> Option<Node> {
    let root = o.root?;
    let mut n = Node { name: root.into(), text: String::new(), children: vec![] };
    for (k, v) in &c.vals {
        if o.fields[*k].loc == L::X {
            n.children.push(leaf(o.fields[*k].wire, v));
        }
    }
    match o.name {
        "ListBuckets" => {
            if let Some(rows) = c.lists.get("Bucket") {
                n.children.push(Node { name: "Buckets".into(), text: String::new(), children: rows.iter().map(|r| row_node("Bucket", r)).collect() });
            }
            if let Some(r) = &c.single {
                n.children.push(row_node("Owner", r));
            }
        }
        "CopyObject" => {
            if let Some(r) = &c.single {
                n.children = row_node("", r).children;
            }
        }
        "GetBucketLocation" => n.text = c.single.as_ref().and_then(|r| r.get("LocationConstraint").cloned()).unwrap_or_default(),
        _ => {
            for (name, rows) in &c.lists {
                for r in rows {
                    n.children.push(row_node(name, r));
                }
            }
        }
    }
    Some(canon(n))
}

/// headers a server may add on its own
const FREE: &[&str] = &["date", "server", "x-amz-request-id", "x-amz-id-2", "content-length", "connection", "transfer-encoding", "keep-alive"];

fn first_diff(a: &Node, b: &Node) -> String {
    if a.name != b.name {
        return format!("element {} instead of {}", b.name, a.name);
    }
    if a.text != b.text {
        return format!("{}: {:?} instead of {:?}", a.name, b.text, a.text);
    }
    for i in 0..a.children.len().max(b.children.len()) {
        match (a.children.get(i), b.children.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => return format!("{} > {}", a.name, first_diff(x, y)),
            (Some(x), None) => return format!("{} lacks {}", a.name, x.show()),
            (None, Some(y)) => return format!("{} has {}", a.name, y.show()),
            _ => {}
        }
    }
    "?".into()
}
fn diff_sig(a: &Node, b: &Node) -> String {
    // the name of the element at which the documents part
    if a.name != b.name {
        return format!("name:{}", a.name);
    }
    if a.text != b.text {
        return a.name.clone();
    }
    for i in 0..a.children.len().max(b.children.len()) {
        match (a.children.get(i), b.children.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) if x.name == y.name => return diff_sig(x, y),
            (Some(x), _) => return format!("missing:{}", x.name),
            (None, Some(y)) => return format!("extra:{}", y.name),
            _ => {}
        }
    }
    "?".into()
}

impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "the result carries at least one field, list item or body byte";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "text that XML 1.0 cannot represent is not generated",
        "headers a server may add on its own (date, request ids, content-length, connection) are not judged, and neither is the order of XML elements with different names",
        "content-length given by the storage agrees with the body",
    ];
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let all: Vec<(u32, BoxedStrategy<Case>)> = (0..OUTS.len()).map(|i| (if OUTS[i].fields.is_empty() && OUTS[i].root.is_none() { 1 } else { 4 + (OUTS[i].fields.len() / 8) as u32 }, case_of(i))).collect();
        proptest::strategy::Union::new_weighted(all).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick {
            60_000
        } else {
            2_000_000
        }
    }
    /// every field of every operation alone, and all together
    fn directed(&self, _t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for o in OUTS {
            let base = Case { op: o.name.into(), vals: BTreeMap::new(), meta: None, lists: BTreeMap::new(), single: None, body: None, body_len: false, frag: Frag::whole(), fail_after: None };
            let sample = |f: &F| match f.ty {
                T::S => format!("v-{}", f.wire),
                T::Bool => "true".into(),
                T::Int => "7".into(),
                T::Date => "2021-03-04T05:06:07.000Z".to_owned(),
            };
            v.push(base.clone());
            let mut all = base.clone();
            for (i, f) in o.fields.iter().enumerate() {
                let mut c = base.clone();
                c.vals.insert(i, sample(f));
                all.vals.insert(i, sample(f));
                v.push(c);
            }
            v.push(all);
            // long lists and bodies
            for n in [1000_usize, 1001, 2500] {
                let mut c = base.clone();
                for (name, fs) in lists_of(o.name) {
                    c.lists.insert(name.to_owned(), (0..n).map(|i| fs.iter().map(|f| (f.wire.to_owned(), match f.ty {
                        T::Bool => "true".to_owned(),
                        T::Int => i.to_string(),
                        _ => format!("{}<{i}>", f.wire),
                    })).collect()).collect());
                }
                if o.name == "GetObject" {
                    c.body = Some(Content::Gen { len: n as u32 * 5000, seed: 3 });
                    c.body_len = n == 1000;
                    c.frag = Frag { sizes: vec![1 << 20, 3], pend: false };
                }
                if !c.lists.is_empty() || c.body.is_some() {
                    v.push(c);
                }
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let o = match OUTS.iter().find(|o| o.name == c.op) {
            Some(o) => o,
            None => return harness("unknown operation"),
        };
        if !c.vals.is_empty() || !c.lists.is_empty() || c.single.is_some() || c.body.is_some() || c.meta.is_some() {
            cx.nontrivial();
        }
        cx.label(o.name);
        let (svc, m) = mock::service(None);
        let a = fill(c, o);
        if let Some(out) = to_out(o.name, a) {
            m.script(out);
        }
        let req = request_for(o.name);
        let r = mock::send(&svc, &req)?;
        let calls = m.take();
        if calls.len() != 1 || calls[0].op != o.name {
            return harness(format!("{} did not reach the storage once\n{}{}{}", o.name, req.show(), mock::show_calls(&calls), r.show()));
        }
        let show = || format!("result: {c:?}\nresponse: {}", r.show());
        let rep = c.vals.iter().all(|(k, v)| representable(&o.fields[*k], v)) && c.meta.iter().flatten().all(|(_, v)| header_ok(v));
        if !rep {
            cx.label("unrepresentable");
            if r.status < 500 {
                return viol(format!("unrepresentable:{}", o.name), format!("a result that no response can carry was answered {}\n{}", r.status, show()));
            }
            return Ok(());
        }
        let want = if o.name == "GetObject" && c.vals.keys().any(|k| o.fields[*k].wire == "content-range") { 206 } else { o.status };
        if r.status != want {
            return viol(format!("status:{}:{}", o.name, r.status), format!("status {} instead of {want}\n{}", r.status, show()));
        }
        // headers
        let mut exp: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (k, v) in &c.vals {
            let f = &o.fields[*k];
            if f.loc == L::H {
                let v = if f.ty == T::Date { http_date(v).unwrap_or_default() } else { v.clone() };
                exp.insert(f.wire.into(), v.into_bytes());
            }
        }
        for (k, v) in c.meta.iter().flatten() {
            exp.insert(format!("x-amz-meta-{k}"), v.clone().into_bytes());
        }
        if c.body_len {
            if let Some(b) = &c.body {
                exp.insert("content-length".into(), b.len().to_string().into_bytes());
            }
        }
        let mut got: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (n, v) in &r.headers {
            got.entry(n.to_ascii_lowercase()).or_default().push(v.chars().map(|c| c as u8).collect());
        }
        for (n, v) in &exp {
            let g = got.get(n).cloned().unwrap_or_default();
            if g != vec![v.clone()] {
                return viol(format!("header:{}:{n}", o.name), format!("header {n}: {:?} instead of {:?}\n{}", g.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>(), String::from_utf8_lossy(v), show()));
            }
        }
        for n in got.keys() {
            let free = FREE.contains(&n.as_str()) || (n == "content-type" && o.root.is_some());
            if !exp.contains_key(n) && !free {
                return viol(format!("extra-header:{}:{n}", o.name), format!("header {n} without a result field\n{}", show()));
            }
        }
        // body
        match expected_doc(c, o) {
            Some(want) => {
                if !r.get("content-type").map_or(false, |t| t.contains("xml")) {
                    return viol(format!("xml-type:{}", o.name), format!("XML body without XML media type\n{}", show()));
                }
                let doc = match xmlmini::parse(&r.body) {
                    Ok(d) => d,
                    Err(e) => return viol(format!("xml:{}", o.name), format!("not well-formed XML: {e}\n{}", show())),
                };
                if !ws_only(&doc) {
                    return viol(format!("xml-mixed:{}", o.name), format!("text between elements\n{}", show()));
                }
                let got = canon(strip(doc));
                if got != want {
                    return viol(format!("xml:{}:{}", o.name, diff_sig(&want, &got)), format!("{}\nexpected {}\ngot      {}\n{}", first_diff(&want, &got), want.show(), got.show(), show()));
                }
            }
            None => {
                let want = c.body.as_ref().map(|b| b.bytes()).unwrap_or_default();
                let failing = c.body.is_some() && c.fail_after.is_some();
                if failing {
                    cx.label("storage stream fails");
                    // the failure must not look like a normal end
                    if r.body_err.is_none() {
                        return viol("lost-stream-error", format!("the storage's stream failed, the response ended normally\n{}", show()));
                    }
                    if !want.starts_with(&r.body) {
                        return viol("body", format!("bytes before the failure differ\n{}", show()));
                    }
                } else {
                    if r.body != want || r.body_err.is_some() {
                        return viol(format!("body:{}", o.name), format!("body of {} bytes instead of {}, error {:?}\n{}", r.body.len(), want.len(), r.body_err, show()));
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn request_for(op: &str) -> crate::http::ReqSpec {
    let i = op_index(op);
    let mut it = Intent { op: i, bucket: "bucket".into(), key: "key".into(), vals: BTreeMap::new(), meta: BTreeMap::new(), content: Content::Lit(b"data".to_vec()), xml: XmlVal::None };
    for (k, p) in OPS[i].params.iter().enumerate() {
        match p.ty {
            Ty::NeedI64 => {
                it.vals.insert(k, "1".into());
            }
            Ty::NeedStr => {
                it.vals.insert(k, "up".into());
            }
            Ty::CopySource => {
                it.vals.insert(k, "src/obj".into());
            }
            _ => {}
        }
    }
    it.xml = match OPS[i].body {
        BodyKind::Delete => XmlVal::Delete { objects: vec![("a".into(), None)], quiet: None },
        BodyKind::Complete => XmlVal::Complete { parts: vec![(Some("\"e\"".into()), Some(1))] },
        _ => XmlVal::None,
    };
    spell(&it, &Spelling::plain())
}
