//! Browser form uploads (multipart/form-data POST): generator, reference encoder and reference expectation.

use super::auth_gen::{any_date, keys, region};
use crate::http::{content_any, content_small, frag, Content, Frag, ReqSpec};
use crate::mock::{BodySeen, Call};
use crate::ops::{bucket_name, header_text, media_type, proto_key, query_text, recase};
use crate::sigv4::{post_signature, Cred};
use proptest::prelude::*;
use s3_server::dto::PutObjectRequest;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// fields of the form that are attributes of the object
pub const ATTRS: &[&str] = &[
    "acl",
    "Cache-Control",
    "Content-Type",
    "Content-Disposition",
    "Content-Encoding",
    "Expires",
    "x-amz-storage-class",
    "x-amz-website-redirect-location",
    "x-amz-server-side-encryption",
    "x-amz-server-side-encryption-aws-kms-key-id",
    "x-amz-server-side-encryption-context",
    "x-amz-server-side-encryption-customer-algorithm",
    "x-amz-server-side-encryption-customer-key",
    "x-amz-server-side-encryption-customer-key-MD5",
    "x-amz-server-side-encryption-bucket-key-enabled",
];

/// a piece of the file content
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Raw(Content),
    /// the first n bytes of the delimiter `CR LF -- boundary`
    Delim(u8),
    /// `-- boundary` without CR LF in front
    Boundary,
    /// CR LF -- boundary with its last byte changed
    Almost,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FormCuts {
    Frag(Frag),
    Near { at: Vec<(u16, i8)>, empties: bool, pend: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Form {
    pub bucket: String,
    pub key: String,
    /// index into ATTRS -> value
    pub attrs: BTreeMap<usize, String>,
    pub meta: BTreeMap<String, String>,
    /// further fields that S3 ignores
    pub ignored: BTreeMap<String, String>,
    pub pieces: Vec<Piece>,
    pub boundary: String,
    pub quoted: bool,
    pub leading_crlf: bool,
    pub filename: String,
    pub part_type: Option<String>,
    /// a Content-Type header on the text parts too
    pub text_types: bool,
    pub part_header_case: u8,
    pub name_case: u8,
    pub order: u32,
    /// 0 nothing, 1 CR LF, 2 CR LF and an epilogue, 3 and more: another part, then the end
    pub tail: u8,
    pub keys: Vec<(String, String)>,
    pub who: u8,
    pub region: String,
    pub date: String,
    /// unsigned request headers which are not part of the form
    pub noise: Vec<(String, String)>,
    pub length_header: bool,
    pub cuts: FormCuts,
    /// further headers of every part: how many, and starting with which
    #[serde(default)]
    pub part_headers: (u8, u8),
}

/// the text fields of the form in the order of the wire, without the policy's and the signature's
pub type Fields = Vec<(String, String)>;

pub fn form() -> BoxedStrategy<Form> {
    let attr = (0..ATTRS.len()).prop_flat_map(|i| {
        let v = match ATTRS[i] {
            "Content-Type" => media_type(),
            "x-amz-server-side-encryption-bucket-key-enabled" => prop_oneof![Just("true".to_owned()), Just("false".to_owned())].boxed(),
            _ => header_text(),
        };
        v.prop_map(move |v| (i, v))
    });
    let text = prop_oneof![3 => query_text(), 2 => header_text(), 2 => "[a-z\r\n -]{0,16}", 1 => Just(String::new()), 1 => "\r\n-{0,3}[a-z]{0,3}"];
    let meta = prop::collection::btree_map("[a-z0-9-]{1,12}", text.clone(), 0..4);
    let ignored = prop::collection::btree_map(prop_oneof![Just("submit".to_owned()), Just("x-ignore-a".to_owned()), Just("x-ignore-meta".to_owned())], text, 0..2);
    let piece = prop_oneof![
        4 => content_small().prop_map(Piece::Raw),
        3 => any::<u8>().prop_map(Piece::Delim),
        1 => Just(Piece::Boundary),
        2 => Just(Piece::Almost),
        1 => prop_oneof![Just("\r"), Just("\n"), Just("\r\n"), Just("\r\r\n"), Just("\r\n--"), Just("--\r\n")].prop_map(|s| Piece::Raw(Content::Lit(s.as_bytes().to_vec()))),
    ];
    let pieces = prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(piece, 1..7), 1 => content_any().prop_map(|c| vec![Piece::Raw(c)])];
    let boundary = prop_oneof![3 => "[0-9]{6,20}", 2 => "-{4,28}[0-9a-f]{16}", 2 => "[0-9A-Za-z'+_.-]{1,70}", 1 => "[0-9A-Za-z'()+_,./:=?-]{1,30}", 1 => "-{1,6}", 1 => "[a-b]"];
    let cuts = prop_oneof![
        2 => frag().prop_map(FormCuts::Frag),
        3 => (prop::collection::vec((any::<u16>(), -3_i8..4), 1..8), any::<bool>(), any::<bool>()).prop_map(|(at, empties, pend)| FormCuts::Near { at, empties, pend }),
    ];
    let noise = prop::collection::vec(
        prop_oneof![
            ("x-amz-meta-[a-z]{1,5}", header_text()),
            (Just("x-amz-acl".to_owned()), header_text()),
            (Just("x-amz-storage-class".to_owned()), header_text()),
            (Just("cache-control".to_owned()), header_text()),
            (Just("user-agent".to_owned()), header_text()),
            (Just("x-amz-tagging".to_owned()), header_text()),
        ],
        0..3,
    );
    (
        (bucket_name(), proto_key(), prop::collection::btree_map(0..ATTRS.len(), Just(()), 0..1), prop::collection::vec(attr, 0..6), meta, ignored),
        (pieces, boundary, any::<bool>(), any::<bool>(), prop_oneof![Just("a.txt".to_owned()), "[a-zA-Z0-9 ._é-]{1,20}"], prop::option::weighted(0.8, prop_oneof![media_type(), Just("application/octet-stream".to_owned())])),
        (any::<bool>(), 0_u8..3, 0_u8..4, any::<u32>(), 0_u8..4, prop_oneof![3 => Just((0, 0)), 1 => (1_u8..4, 0_u8..4)]),
        (keys(), any::<u8>(), region(), any_date(), noise, any::<bool>(), cuts),
    )
        .prop_map(|((bucket, key, _, attrs, meta, ignored), (pieces, boundary, quoted, leading_crlf, filename, part_type), (text_types, part_header_case, name_case, order, tail, part_headers), (keys, who, region, date, noise, length_header, cuts))| {
            let mut f = Form { bucket, key, attrs: attrs.into_iter().collect(), meta, ignored, pieces, boundary, quoted, leading_crlf, filename, part_type, text_types, part_header_case, name_case, order, tail, keys, who, region, date, noise, length_header, cuts, part_headers };
            f.sanitise();
            f
        })
        .boxed()
}

/// a condition of a policy; names without the dollar sign
#[derive(Clone, Debug)]
pub enum Cond {
    /// as an object
    Exact(String, String),
    Eq(String, String),
    Starts(String, String),
    Length(u64, u64),
}

impl Cond {
    pub fn json(&self) -> serde_json::Value {
        match self {
            Cond::Exact(n, v) => serde_json::json!({ n: v }),
            Cond::Eq(n, v) => serde_json::json!(["eq", format!("${n}"), v]),
            Cond::Starts(n, v) => serde_json::json!(["starts-with", format!("${n}"), v]),
            Cond::Length(a, b) => serde_json::json!(["content-length-range", a, b]),
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            Cond::Exact(n, _) | Cond::Eq(n, _) | Cond::Starts(n, _) => Some(n),
            Cond::Length(..) => None,
        }
    }
}

/// the reference: why the fields (all of the wire) do not satisfy the conditions
pub fn unsatisfied(conds: &[Cond], bucket: &str, fields: &Fields, len: usize) -> Option<String> {
    let get = |n: &str| if n.eq_ignore_ascii_case("bucket") { Some(bucket) } else { fields.iter().rev().find(|(m, _)| m.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str()) };
    for c in conds {
        match c {
            Cond::Exact(n, v) | Cond::Eq(n, v) => {
                if get(n) != Some(v) {
                    return Some("equality".into());
                }
            }
            Cond::Starts(n, v) => {
                if !get(n).map_or(false, |x| x.as_bytes().len() >= v.len() && x.as_bytes()[..v.len()] == *v.as_bytes()) {
                    return Some("prefix".into());
                }
            }
            Cond::Length(a, b) => {
                if (len as u64) < *a {
                    return Some("length below".into());
                }
                if len as u64 > *b {
                    return Some("length above".into());
                }
            }
        }
    }
    for (n, _) in fields {
        let l = n.to_lowercase();
        let free = l == "policy" || l == "x-amz-signature" || l.starts_with("x-ignore-");
        if !free && !conds.iter().any(|c| c.name().map_or(false, |m| m.eq_ignore_ascii_case(n))) {
            return Some("field without condition".into());
        }
    }
    None
}

pub fn b64(s: &str) -> String {
    base64_simd::STANDARD.encode_to_string(s)
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

impl Form {
    /// no text may contain the delimiter of the form
    fn sanitise(&mut self) {
        let b = format!("--{}", self.boundary);
        let bad = |v: &str| v.starts_with(&b) || v.contains(&format!("\r\n{b}"));
        if bad(&self.key) {
            self.key = "k".into();
        }
        for v in self.attrs.values_mut().chain(self.meta.values_mut()).chain(self.ignored.values_mut()) {
            if bad(v) {
                *v = "v".into();
            }
        }
    }
    pub fn delim(&self) -> Vec<u8> {
        format!("\r\n--{}", self.boundary).into_bytes()
    }
    pub fn content(&self) -> Vec<u8> {
        let d = self.delim();
        let mut out: Vec<u8> = vec![];
        for p in &self.pieces {
            let add = match p {
                Piece::Raw(c) => c.bytes(),
                Piece::Delim(n) => d[..usize::from(*n) % d.len()].to_vec(),
                Piece::Boundary => d[2..].to_vec(),
                Piece::Almost => {
                    let mut v = d.clone();
                    let l = v.len() - 1;
                    v[l] = if v[l] == b'x' { b'y' } else { b'x' };
                    v
                }
            };
            let mut try_ = out.clone();
            try_.extend(add);
            // the delimiter must not arise, not even together with the CR LF before the content
            let mut with = b"\r\n".to_vec();
            with.extend(&try_);
            if !contains(&with, &d) {
                out = try_;
            }
        }
        // nor together with the delimiter at the end
        let mut with = b"\r\n".to_vec();
        with.extend(&out);
        with.extend(&d);
        if with.windows(d.len()).position(|w| w == d) == Some(with.len() - d.len()) {
            out
        } else {
            b"x".to_vec()
        }
    }
    pub fn cred(&self) -> Cred {
        let (a, s) = &self.keys[usize::from(self.who) % self.keys.len()];
        Cred { access: a.clone(), secret: s.clone(), region: self.region.clone(), date: self.date.clone() }
    }
    pub fn fields(&self) -> Fields {
        let case = |n: &str| recase(n, self.name_case);
        let mut v: Fields = vec![(case("key"), self.key.clone())];
        v.extend(self.attrs.iter().map(|(i, x)| (if self.name_case == 0 { ATTRS[*i].to_owned() } else { case(ATTRS[*i]) }, x.clone())));
        v.extend(self.meta.iter().map(|(n, x)| (case(&format!("x-amz-meta-{n}")), x.clone())));
        v.extend(self.ignored.iter().map(|(n, x)| (n.clone(), x.clone())));
        v
    }
    /// the fields that the signature needs
    pub fn auth_fields(&self, policy_b64: &str, cred: &Cred) -> Fields {
        vec![
            ("policy".into(), policy_b64.to_owned()),
            ("x-amz-algorithm".into(), "AWS4-HMAC-SHA256".into()),
            ("x-amz-credential".into(), format!("{}/{}", cred.access, cred.scope())),
            ("x-amz-date".into(), cred.date.clone()),
            ("x-amz-signature".into(), post_signature(cred, policy_b64)),
        ]
    }
    /// conditions that allow exactly this form
    pub fn conds(&self) -> Vec<Cond> {
        let mut conds = vec![Cond::Exact("bucket".into(), self.bucket.clone())];
        let c = self.cred();
        for (i, (n, v)) in self.fields().into_iter().chain(self.auth_fields("", &c).into_iter().skip(1).take(3)).enumerate() {
            conds.push(match (self.order as usize + i) % 3 {
                0 => Cond::Eq(n, v),
                1 => Cond::Starts(n, String::new()),
                _ => Cond::Exact(n, v),
            });
        }
        conds
    }
    /// a policy that allows exactly this form
    pub fn policy(&self) -> String {
        let conds: Vec<_> = self.conds().iter().map(Cond::json).collect();
        serde_json::json!({ "expiration": "2199-12-30T12:00:00.000Z", "conditions": conds }).to_string()
    }
    pub fn shuffled(&self, mut v: Fields) -> Fields {
        let mut x = u64::from(self.order) | 1;
        for i in (1..v.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (x >> 33) as usize % (i + 1));
        }
        v
    }
    /// headers that clients add to parts (RFC 7578 4.8: to be ignored)
    fn more_part_headers(&self, len: usize) -> String {
        let (n, from) = self.part_headers;
        let all = ["Content-Transfer-Encoding: binary\r\n".to_owned(), format!("Content-Length: {len}\r\n"), "X-Part: name=\"key\"; filename=\"no\"\r\n".to_owned(), "Content-ID: <file>\r\n".to_owned()];
        (0..n).map(|i| all[usize::from(from + i) % all.len()].clone()).collect()
    }
    /// the request; also the structural positions of its body
    pub fn request(&self, fields: &Fields) -> (ReqSpec, Vec<usize>) {
        let hc = |n: &str| recase(n, self.part_header_case);
        let mut b: Vec<u8> = vec![];
        let mut marks = vec![];
        if self.leading_crlf {
            b.extend(b"\r\n");
        }
        b.extend(format!("--{}\r\n", self.boundary).as_bytes());
        for (n, v) in fields {
            marks.push(b.len());
            let disp = format!("{}: form-data; name=\"{n}\"\r\n", hc("Content-Disposition"));
            let ty = if self.text_types { format!("{}: text/plain; charset=utf-8\r\n", hc("Content-Type")) } else { String::new() };
            let ty = ty + &self.more_part_headers(v.len());
            b.extend(if self.part_header_case == 1 { format!("{ty}{disp}") } else { format!("{disp}{ty}") }.as_bytes());
            marks.push(b.len());
            b.extend(b"\r\n");
            marks.push(b.len());
            b.extend(v.as_bytes());
            marks.push(b.len());
            b.extend(self.delim());
            marks.push(b.len());
            b.extend(b"\r\n");
        }
        marks.push(b.len());
        let disp = format!("{}: form-data; name=\"file\"; filename=\"{}\"\r\n", hc("Content-Disposition"), self.filename);
        let ty = self.part_type.as_ref().map_or(String::new(), |t| format!("{}: {t}\r\n", hc("Content-Type")));
        let ty = ty + &self.more_part_headers(self.content().len());
        b.extend(if self.part_header_case == 1 { format!("{ty}{disp}\r\n") } else { format!("{disp}{ty}\r\n") }.as_bytes());
        let file = b.len();
        marks.extend([file, file]);
        b.extend(self.content());
        let end = b.len();
        marks.extend([end, end, end]);
        b.extend(self.delim());
        let done = b.len();
        marks.extend([done, done]);
        match self.tail {
            0 => b.extend(b"--"),
            1 => b.extend(b"--\r\n"),
            2 => b.extend(b"--\r\nepilogue\r\nmore"),
            _ => {
                b.extend(b"\r\nContent-Disposition: form-data; name=\"acl\"\r\n\r\nlate");
                b.extend(self.delim());
                b.extend(b"--\r\n");
            }
        }
        let token = self.boundary.bytes().all(|c| c.is_ascii_alphanumeric() || b"'+_.-".contains(&c));
        let ct = if self.quoted || !token { format!("multipart/form-data; boundary=\"{}\"", self.boundary) } else { format!("multipart/form-data; boundary={}", self.boundary) };
        let mut r = ReqSpec::new("POST", &format!("/{}", self.bucket)).header("host", "s3.amazonaws.com").header("content-type", ct);
        let mut seen = std::collections::BTreeSet::new();
        for (n, v) in &self.noise {
            if seen.insert(n.clone()) {
                r.headers.push((n.clone(), v.clone()));
            }
        }
        if self.length_header {
            r.set("content-length", b.len().to_string());
        }
        r.frag = match &self.cuts {
            FormCuts::Frag(f) => f.clone(),
            FormCuts::Near { at, empties, pend } => {
                let mut cuts: Vec<usize> = at.iter().map(|(i, d)| (marks[usize::from(*i) % marks.len()] as i64 + i64::from(*d)).clamp(0, b.len() as i64) as usize).collect();
                cuts.push(b.len());
                cuts.sort_unstable();
                let mut sizes = vec![];
                let mut last = 0;
                for c in cuts {
                    if c > last {
                        sizes.push((c - last) as u32);
                        if *empties {
                            sizes.push(0);
                        }
                        last = c;
                    }
                }
                Frag { sizes, pend: *pend }
            }
        };
        r.body = b;
        (r, vec![file, end, done])
    }
    /// the storage calls of which this form must cause exactly one (members on which S3 leaves room differ)
    pub fn expected(&self) -> Vec<Call> {
        let content = self.content();
        let mut out = vec![];
        for length in [None, Some(content.len() as i64)] {
            for part_type in [false, true] {
                let mut d = PutObjectRequest { bucket: self.bucket.clone(), key: self.key.clone(), content_length: length, ..PutObjectRequest::default() };
                if part_type {
                    d.content_type = self.part_type.clone();
                }
                for (i, v) in &self.attrs {
                    let v = Some(v.clone());
                    match ATTRS[*i] {
                        "acl" => d.acl = v,
                        "Cache-Control" => d.cache_control = v,
                        "Content-Type" => d.content_type = v,
                        "Content-Disposition" => d.content_disposition = v,
                        "Content-Encoding" => d.content_encoding = v,
                        "Expires" => d.expires = v,
                        "x-amz-storage-class" => d.storage_class = v,
                        "x-amz-website-redirect-location" => d.website_redirect_location = v,
                        "x-amz-server-side-encryption" => d.server_side_encryption = v,
                        "x-amz-server-side-encryption-aws-kms-key-id" => d.ssekms_key_id = v,
                        "x-amz-server-side-encryption-context" => d.ssekms_encryption_context = v,
                        "x-amz-server-side-encryption-customer-algorithm" => d.sse_customer_algorithm = v,
                        "x-amz-server-side-encryption-customer-key" => d.sse_customer_key = v,
                        "x-amz-server-side-encryption-customer-key-MD5" => d.sse_customer_key_md5 = v,
                        "x-amz-server-side-encryption-bucket-key-enabled" => d.bucket_key_enabled = v.map(|v| v == "true"),
                        _ => unreachable!(),
                    }
                }
                out.push(Call {
                    op: "PutObject",
                    input: format!("{d:?}"),
                    meta: (!self.meta.is_empty()).then(|| self.meta.clone()),
                    body: Some(BodySeen { bytes: content.clone(), err: None }),
                });
            }
        }
        out
    }
}

/// a small form with contents close to its delimiter
pub fn plain() -> Form {
    Form {
            bucket: "bkt".into(),
            key: "k".into(),
            attrs: [(0, "private".to_owned())].into(),
            meta: [("a".to_owned(), "\r\nx\r\n".to_owned())].into(),
            ignored: Default::default(),
            pieces: vec![Piece::Raw(Content::Lit(b"ab\r".to_vec())), Piece::Delim(250), Piece::Almost, Piece::Delim(3)],
            boundary: "-b-".into(),
            quoted: false,
            leading_crlf: true,
            filename: "f".into(),
            part_type: Some("text/plain".into()),
            text_types: false,
            part_header_case: 0,
            name_case: 0,
            order: 5,
            tail: 1,
            keys: vec![("AKIA1".into(), "secret".into())],
            who: 0,
            region: "us-east-1".into(),
            date: "20240102T030405Z".into(),
            noise: vec![],
            length_header: true,
            cuts: FormCuts::Frag(crate::http::Frag::whole()),
            part_headers: (0, 0),
    }
}
