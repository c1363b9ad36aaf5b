//! C14: every request gets a well-formed answer, whatever it contains and however its body ends.

use super::auth_gen::*;
use super::c04_chunked::{upload, Upload};
use super::form::{form, Form};
use crate::engine::*;
use crate::http::{call, content_small, frag, Content, Frag, ReqSpec, Resp};
use crate::mock::{service, show_calls, simple_auth, Out, OP_ERRORS};
use crate::ops::{recase, OPS};
use crate::sigv4::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    Plain(Base),
    Signed(Base),
    Presigned(Base),
    Form(Form),
    Chunked(Upload),
    Wild { method: String, target: String, headers: Vec<(String, String)>, body: Content },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Target(u16, u8, String),
    Method(String),
    HeaderValue(u8, u16, u8, String),
    HeaderSet(String, String),
    HeaderAdd(String, String),
    HeaderDup(u8),
    HeaderDrop(u8),
    ManyHeaders(u16),
    QueryAdd(String, String),
    QueryDrop(u8),
    BodyReplace(u16, u16, Content),
    BodyDup(u16, u16),
    BodyTruncate(u16),
    BodyIs(Body),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Content(Content),
    Deep(u16),
    Text(String),
    Utf16(String),
    Long(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Store {
    Mock,
    /// the storage fails with the n-th operation error
    Fails(u8),
    Fs,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub start: Start,
    pub muts: Vec<Mut>,
    /// sign the altered request so that it passes the authentication
    pub resign: bool,
    pub auth: bool,
    pub fail_after: Option<u32>,
    pub frag: Option<Frag>,
    pub store: Store,
}

pub struct C14;

const NAMES: &[&str] = &[
    "range", "content-type", "content-length", "content-md5", "x-amz-copy-source", "x-amz-content-sha256", "x-amz-date", "authorization", "x-amz-decoded-content-length", "x-amz-meta-a", "x-amz-meta-", "x-amz-acl", "x-amz-tagging", "x-amz-storage-class", "x-amz-metadata-directive", "x-amz-mfa", "expires", "if-match", "if-modified-since", "transfer-encoding", "host", "cookie", "x-amz-server-side-encryption-bucket-key-enabled", "x-amz-object-lock-retain-until-date", "expect", "content-encoding", "x-amz-bypass-governance-retention", "x-amz-object-lock-enabled-for-bucket", "x-amz-security-token",
];
const QNAMES: &[&str] = &[
    "uploadId", "partNumber", "uploads", "delete", "location", "list-type", "prefix", "marker", "max-keys", "delimiter", "continuation-token", "start-after", "fetch-owner", "encoding-type", "versionId", "X-Amz-Signature", "X-Amz-Credential", "X-Amz-Algorithm", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders", "response-content-type", "response-expires", "acl", "tagging", "x-id", "select", "policy",
];

fn nasty() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        3 => "[ -~]{0,30}",
        2 => "\\PC{0,12}",
        2 => prop_oneof![Just("bytes=0-"), Just("bytes=-0"), Just("bytes=5-2"), Just("bytes=0-18446744073709551615"), Just("bytes=-18446744073709551615"), Just("bytes=18446744073709551615-"), Just("bytes=99999999999999999999-"), Just("bytes=0-0,2-3"), Just("bytes=-")].prop_map(str::to_owned),
        2 => prop_oneof![Just("-1"), Just("0"), Just("9223372036854775807"), Just("9223372036854775808"), Just("18446744073709551616"), Just("1e3"), Just("2147483648"), Just("+5"), Just("99999999999999999999999999")].prop_map(str::to_owned),
        2 => prop_oneof![Just("true"), Just("TRUE"), Just("multipart/form-data; boundary=a"), Just("multipart/form-data"), Just("multipart/form-data; boundary=\"\""), Just("multipart/form-data; boundary=\""), Just("text/plain;;"), Just("/"), Just("a/b;c=d;c")].prop_map(str::to_owned),
        2 => prop_oneof![Just("/a/b"), Just("a"), Just("/"), Just("arn:aws:s3:us-east-1:1:accesspoint/x/object/k"), Just("bkt/%"), Just("%2F%2F"), Just("bkt/../../x"), Just("bkt/k?versionId=1")].prop_map(str::to_owned),
        2 => prop_oneof![Just("AWS4-HMAC-SHA256 "), Just("AWS4-HMAC-SHA256 Credential=,SignedHeaders=,Signature="), Just("AWS4-HMAC-SHA256 Credential=a/20130524/r/s3/aws4_request,SignedHeaders=host,Signature=0"), Just("AWS a:b"), Just("STREAMING-AWS4-HMAC-SHA256-PAYLOAD"), Just("UNSIGNED-PAYLOAD"), Just("20130524T000000Z"), Just("99999999T999999Z"), Just("20130229T000000Z"), Just("a/20130524/r/s3/aws4_request"), Just("host;;x"), Just("a/99999999/r/s3/aws4_request")].prop_map(str::to_owned),
        1 => (1_usize..3000).prop_map(|n| "a".repeat(n)),
        1 => (1_usize..300).prop_map(|n| "é%".repeat(n)),
    ]
    .boxed()
}

fn header_name() -> BoxedStrategy<String> {
    prop_oneof![6 => prop::sample::select(NAMES).prop_map(str::to_owned), 1 => "[a-z-]{1,20}", 1 => "[!#$%&'*+.^_`|~0-9a-zA-Z-]{1,12}"].boxed()
}
fn query_name() -> BoxedStrategy<String> {
    prop_oneof![6 => prop::sample::select(QNAMES).prop_map(str::to_owned), 1 => "[ -~]{0,8}"].boxed()
}

fn hostile_path() -> BoxedStrategy<String> {
    let seg = prop_oneof![
        4 => Just("bkt"), 3 => Just("a"), 1 => Just(""), 2 => Just(".."), 1 => Just("."), 1 => Just("%"), 1 => Just("%2"), 1 => Just("%zz"), 1 => Just("%ff"), 1 => Just("%c3%28"), 1 => Just("%2F"), 1 => Just("%00"), 1 => Just("%0A"),
        1 => Just("%2e%2e"), 1 => Just("~"), 1 => Just("aB"), 1 => Just("192.168.1.1"), 1 => Just("xn--a"), 1 => Just("%E2%80%AE"), 1 => Just("é"), 1 => Just("%3F"), 1 => Just("+"), 1 => Just("|"), 1 => Just("a:b@c")
    ];
    prop_oneof![
        6 => prop::collection::vec(seg, 0..6).prop_map(|v| format!("/{}", v.join("/"))),
        1 => Just("*".to_owned()),
        1 => (1_usize..3000).prop_map(|n| format!("/bkt/{}", "k".repeat(n))),
        1 => Just("http://example.com".to_owned()),
        1 => Just("//bkt/a".to_owned()),
        1 => "/[!-~]{0,20}",
    ]
    .boxed()
}

fn qmap(v: Vec<(String, String, u8)>) -> String {
    v.into_iter().map(|(n, v, s)| if s % 4 == 0 { crate::http::pct(n.as_bytes(), s >> 2, true) } else { format!("{}={}", crate::http::pct(n.as_bytes(), s >> 2, true), if s % 4 == 1 { v } else { crate::http::pct(v.as_bytes(), s >> 2, true) }) }).collect::<Vec<_>>().join("&")
}

fn body() -> BoxedStrategy<Body> {
    prop_oneof![
        3 => content_small().prop_map(Body::Content),
        1 => (1_u16..4000).prop_map(Body::Deep),
        2 => prop_oneof![
            Just("<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY x \"y\">]><Delete><Object><Key>&x;</Key></Object></Delete>"),
            Just("<Delete></Delete>"), Just("<Delete><Quiet>maybe</Quiet></Delete>"), Just("<CompleteMultipartUpload/>"),
            Just("<CompleteMultipartUpload><Part><PartNumber>99999999999999999999</PartNumber></Part></CompleteMultipartUpload>"),
            Just("<CompleteMultipartUpload><Part><PartNumber>-1</PartNumber><ETag>a</ETag></Part></CompleteMultipartUpload>"),
            Just("<CreateBucketConfiguration><LocationConstraint></LocationConstraint></CreateBucketConfiguration>"),
            Just("<Delete><Object><Key>&#0;</Key></Object></Delete>"), Just("<Delete><Object><Key>&#x110000;</Key></Object></Delete>"), Just("<a"), Just("<!--"), Just("<![CDATA["), Just("</a>"), Just("\u{feff}<Delete/>"), Just("<?xml version=\"1.0\" encoding=\"latin1\"?><Delete/>"),
            Just("--a\r\n\r\n\r\n--a--"), Just("--a\r\nContent-Disposition: form-data; name=\"\"\r\n\r\n\r\n--a--"), Just("--a\r\nContent-Disposition: form-data\r\n\r\n\r\n--a--"), Just("\r\n\r\n\r\n"), Just("--a\r\n")
        ].prop_map(|s| Body::Text(s.to_owned())),
        2 => "[<>/&;\"'a-cDKQ!\\[\\]?= -]{0,40}".prop_map(Body::Text),
        1 => "[a-z<>/]{0,20}".prop_map(Body::Utf16),
        1 => (1_u32..300_000).prop_map(Body::Long),
    ]
    .boxed()
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        3 => (any::<u16>(), 0_u8..3, "[!-~]{1,3}|%[0-9a-f]{2}|/|//|/\\.\\./|\\?|&|=").prop_map(|(a, b, c)| Mut::Target(a, b, c)),
        2 => prop_oneof![prop::sample::select(&["GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "LINK"][..]).prop_map(str::to_owned), "[A-Z!#$%&*+.^_`|~-]{1,12}"].prop_map(Mut::Method),
        3 => (any::<u8>(), any::<u16>(), 0_u8..3, "[ -~]{0,2}").prop_map(|(a, b, c, d)| Mut::HeaderValue(a, b, c, d)),
        4 => (header_name(), nasty()).prop_map(|(n, v)| Mut::HeaderSet(n, v)),
        2 => (header_name(), nasty()).prop_map(|(n, v)| Mut::HeaderAdd(n, v)),
        1 => any::<u8>().prop_map(Mut::HeaderDup),
        1 => any::<u8>().prop_map(Mut::HeaderDrop),
        1 => (1_u16..300).prop_map(Mut::ManyHeaders),
        4 => (query_name(), nasty()).prop_map(|(n, v)| Mut::QueryAdd(n, v)),
        1 => any::<u8>().prop_map(Mut::QueryDrop),
        3 => (any::<u16>(), 0_u16..6, content_small()).prop_map(|(a, b, c)| Mut::BodyReplace(a, b, c)),
        1 => (any::<u16>(), 0_u16..80).prop_map(|(a, b)| Mut::BodyDup(a, b)),
        1 => any::<u16>().prop_map(Mut::BodyTruncate),
        3 => body().prop_map(Mut::BodyIs),
    ]
    .boxed()
}

fn edit(s: &str, pos: u16, kind: u8, t: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return t.to_owned();
    }
    let i = usize::from(pos) % cs.len();
    let (a, b) = (cs[..i].iter().collect::<String>(), cs[i + 1..].iter().collect::<String>());
    match kind {
        0 => format!("{a}{t}{b}"),
        1 => format!("{a}{}{t}{b}", cs[i]),
        _ => format!("{a}{b}"),
    }
}

fn apply(r: &mut ReqSpec, m: &Mut) {
    match m {
        Mut::Target(p, k, t) => r.target = edit(&r.target, *p, *k, t),
        Mut::Method(m) => r.method = m.clone(),
        Mut::HeaderValue(i, p, k, t) => {
            if !r.headers.is_empty() {
                let n = r.headers.len();
                let h = &mut r.headers[usize::from(*i) % n];
                h.1 = edit(&h.1, *p, *k, t);
            }
        }
        Mut::HeaderSet(n, v) => r.set(n, v.clone()),
        Mut::HeaderAdd(n, v) => r.headers.push((n.clone(), v.clone())),
        Mut::HeaderDup(i) => {
            if !r.headers.is_empty() {
                let h = r.headers[usize::from(*i) % r.headers.len()].clone();
                r.headers.push((recase(&h.0, 2), h.1));
            }
        }
        Mut::HeaderDrop(i) => {
            if !r.headers.is_empty() {
                let n = r.headers.len();
                r.headers.remove(usize::from(*i) % n);
            }
        }
        Mut::ManyHeaders(n) => r.headers.extend((0..*n).map(|i| (format!("x-h-{}", i % 97), format!("{i}")))),
        Mut::QueryAdd(n, v) => {
            let q = qmap(vec![(n.clone(), v.clone(), 3)]);
            r.target = format!("{}{}{q}", r.target, if r.target.contains('?') { "&" } else { "?" });
        }
        Mut::QueryDrop(i) => {
            if let Some(q) = r.query() {
                let mut v: Vec<&str> = q.split('&').collect();
                v.remove(usize::from(*i) % v.len());
                r.target = format!("{}?{}", r.path(), v.join("&"));
            }
        }
        Mut::BodyReplace(p, n, c) => {
            let i = if r.body.is_empty() { 0 } else { usize::from(*p) % r.body.len() };
            let j = (i + usize::from(*n)).min(r.body.len());
            r.body.splice(i..j, c.bytes());
        }
        Mut::BodyDup(p, n) => {
            if !r.body.is_empty() {
                let i = usize::from(*p) % r.body.len();
                let j = (i + usize::from(*n)).min(r.body.len());
                let d = r.body[i..j].to_vec();
                r.body.splice(j..j, d);
            }
        }
        Mut::BodyTruncate(n) => {
            if !r.body.is_empty() {
                let n = usize::from(*n) % r.body.len();
                r.body.truncate(n);
            }
        }
        Mut::BodyIs(b) => {
            r.body = match b {
                Body::Content(c) => c.bytes(),
                Body::Deep(n) => {
                    let n = usize::from(*n);
                    format!("<Delete>{}{}</Delete>", "<Object>".repeat(n), "</Object>".repeat(n)).into_bytes()
                }
                Body::Text(t) => t.clone().into_bytes(),
                Body::Utf16(t) => [0xff_u8, 0xfe].into_iter().chain(t.encode_utf16().flat_map(u16::to_le_bytes)).collect(),
                Body::Long(n) => b"<Delete><Object><Key>a</Key></Object>".iter().copied().cycle().take(*n as usize).collect(),
            }
        }
    }
}

/// is the answer one that an HTTP client can make sense of
fn judge(r: &ReqSpec, resp: &Resp) -> Result<(), String> {
    if !(200..600).contains(&resp.status) {
        return Err(format!("status {}", resp.status));
    }
    if let Some(l) = resp.get("content-length") {
        if r.method != "HEAD" && resp.body_err.is_none() && l.parse::<usize>().ok() != Some(resp.body.len()) && resp.status < 400 {
            // a storage that reports a length it does not deliver is C10's and C23's
        }
    }
    if resp.status < 400 || (r.method == "HEAD" && resp.body.is_empty()) {
        return Ok(());
    }
    if resp.body_err.is_some() {
        return Err("the error document ends in an error".into());
    }
    let n = crate::xmlmini::parse(&resp.body).map_err(|e| format!("the error document is not well-formed: {e}"))?;
    if n.name != "Error" || n.child("Code").map_or(true, |c| c.text.is_empty() || !c.text.bytes().all(|b| b.is_ascii_alphanumeric())) {
        return Err("the error document has no error code".into());
    }
    match resp.get("content-type") {
        Some(t) if t.contains("xml") => Ok(()),
        t => Err(format!("the error document has the content type {t:?}")),
    }
}

impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "requests of all operations (plain, signed, presigned, form and chunked uploads) with up to six mutations of method, target, headers and body, and requests assembled from hostile pieces, optionally signed after the mutation, with body failures at any byte, over a recording storage, a failing storage and the file-system storage; non-trivial = the request was refused, or its body failed";
    const ASSUMPTIONS: &'static [&'static str] = &["requests are those that hyper's types can represent; the bytes below HTTP syntax are hyper's"];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 3_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let wild = (
            prop_oneof![3 => prop::sample::select(&["GET", "PUT", "POST", "DELETE", "HEAD"][..]).prop_map(str::to_owned), 1 => "[A-Z]{1,8}"],
            hostile_path(),
            prop::option::weighted(0.6, prop::collection::vec((query_name(), nasty(), any::<u8>()), 0..5).prop_map(qmap)),
            prop::collection::vec((header_name(), nasty()), 0..8),
            content_small(),
        )
            .prop_map(|(method, p, q, headers, body)| Start::Wild { method, target: q.map_or(p.clone(), |q| format!("{p}?{q}")), headers, body });
        let start = prop_oneof![
            3 => base(false).prop_map(Start::Plain),
            2 => base(true).prop_map(Start::Signed),
            2 => base(false).prop_map(Start::Presigned),
            2 => form().prop_map(Start::Form),
            2 => upload(content_small(), 200).prop_map(Start::Chunked),
            3 => wild,
        ];
        let store = prop_oneof![6 => Just(Store::Mock), 2 => any::<u8>().prop_map(Store::Fails), 2 => Just(Store::Fs)];
        (start, prop::collection::vec(mutation(), 0..6), any::<bool>(), prop::bool::weighted(0.6), prop::option::weighted(0.2, any::<u32>()), prop::option::weighted(0.4, frag()), store)
            .prop_map(|(start, muts, resign, auth, fail_after, frag, store)| Case { start, muts, resign, auth, fail_after, frag, store })
            .boxed()
    }
    fn directed(&self, _: Tier) -> Vec<Case> {
        // every operation with its body failing at once, in the middle and at the end, and with every header hostile
        let mut v = vec![];
        let pool = ["", "bytes=0-18446744073709551615", "99999999999999999999", "é", "multipart/form-data", "\"", "a/b", "%"];
        for op in OPS.iter() {
            for (name, bad) in op.params.iter().map(|p| p.name).chain(NAMES.iter().copied()).flat_map(|n| pool.iter().map(move |b| (n, *b))) {
                let r = crate::props::c10_output::request_for(op.name);
                let headers = r.headers.clone();
                let m = if op.params.iter().any(|p| p.name == name && p.loc == crate::ops::Loc::Q) { Mut::QueryAdd(name.to_owned(), bad.to_owned()) } else { Mut::HeaderSet(name.to_owned(), bad.to_owned()) };
                v.push(Case { start: Start::Wild { method: r.method, target: r.target, headers, body: Content::Lit(r.body) }, muts: vec![m], resign: false, auth: false, fail_after: None, frag: None, store: Store::Mock });
            }
            for at in [0_u32, 1, 7, u32::MAX] {
                let r = crate::props::c10_output::request_for(op.name);
                v.push(Case { start: Start::Wild { method: r.method, target: r.target, headers: r.headers, body: Content::Lit(r.body) }, muts: vec![], resign: false, auth: false, fail_after: Some(at), frag: None, store: Store::Fs });
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let mut keys = vec![("AKIA1".to_owned(), "secret".to_owned())];
        let (mut r, kind) = match &c.start {
            Start::Plain(b) => (b.unsigned(), "plain"),
            Start::Signed(b) => {
                keys = b.keys.clone();
                (b.signed(), "signed")
            }
            Start::Presigned(b) => {
                keys = b.keys.clone();
                (b.presigned(chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string(), "9000"), "presigned")
            }
            Start::Form(f) => {
                keys = f.keys.clone();
                let p = base64_simd::STANDARD.encode_to_string(f.policy());
                (f.request(&f.shuffled([f.fields(), f.auth_fields(&p, &f.cred())].concat())).0, "form")
            }
            Start::Chunked(u) => {
                keys = u.keys();
                let (mut r, seed) = u.request("k");
                r.body = u.chunks(&seed).iter().flat_map(EncChunk::bytes).collect();
                (r, "chunked")
            }
            Start::Wild { method, target, headers, body } => (ReqSpec { method: method.clone(), target: target.clone(), headers: headers.clone(), body: body.bytes(), frag: Frag::whole(), fail_after: None }, "wild"),
        };
        for m in &c.muts {
            apply(&mut r, m);
        }
        if c.resign && c.auth && kind != "form" {
            let cred = Cred { access: keys[0].0.clone(), secret: keys[0].1.clone(), region: "us-east-1".into(), date: "20240102T030405Z".into() };
            r.headers.retain(|(n, _)| !["authorization", "x-amz-date", "x-amz-content-sha256"].contains(&n.to_ascii_lowercase().as_str()));
            let chunked = kind == "chunked";
            let names = names_with_amz(&r, &["x-amz-content-sha256", "x-amz-date"]);
            sign_header(&mut r, &cred, if chunked { PayloadMode::Streaming } else { PayloadMode::Unsigned }, &names, 0);
        }
        if let Some(f) = &c.frag {
            r.frag = f.clone();
        }
        r.fail_after = c.fail_after.map(|n| if r.body.is_empty() { 0 } else { n as usize % (r.body.len() + 1) });
        if r.build().is_err() {
            cx.label("not representable");
            return Ok(());
        }
        cx.label(kind);
        let auth = c.auth.then_some(&keys[..]);
        let (resp, calls) = match c.store {
            Store::Mock | Store::Fails(_) => {
                let (svc, mock) = service(auth);
                if let Store::Fails(n) = c.store {
                    let (_, e) = OP_ERRORS[usize::from(n) % OP_ERRORS.len()];
                    mock.script(Out::OpErr(e, "m".into()));
                }
                (crate::mock::send(&svc, &r)?, mock.take())
            }
            Store::Fs => {
                let root = cx.dir.join(format!("c14-{}/r/r/r", cx.case_no));
                std::fs::create_dir_all(root.join("bkt/d")).unwrap();
                std::fs::write(root.join("bkt/a"), b"0123456789").unwrap();
                let mut svc = s3_server::S3Service::new(s3_server::storages::fs::FileSystem::new(&root).unwrap());
                if let Some(k) = auth {
                    svc.set_auth(simple_auth(k));
                }
                let h = r.build().map_err(Fail::Harness)?;
                let res = crate::exec::block_on(call(&svc, h));
                let _ = std::fs::remove_dir_all(cx.dir.join(format!("c14-{}", cx.case_no)));
                match res {
                    Ok(x) => (x, vec![]),
                    Err(e) => return viol("service-error", format!("{e}\n{}", r.show())),
                }
            }
        };
        cx.label(format!("{} {}xx", match c.store { Store::Fs => "fs", Store::Mock => "mock", _ => "failing" }, resp.status / 100));
        if resp.status >= 400 || r.fail_after.is_some() {
            cx.nontrivial();
        }
        if let Err(e) = judge(&r, &resp) {
            return viol("answer", format!("{e}\nanswer {}\n{}\n{}", resp.show(), r.show(), show_calls(&calls)));
        }
        Ok(())
    }
}
