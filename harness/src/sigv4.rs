//! Reference implementation of AWS Signature Version 4 for S3, written from the AWS documentation
//! (sig-v4-header-based-auth, sigv4-query-string-auth, sigv4-streaming, sigv4-HTTPPOSTConstructPolicy).

use crate::http::{pct_decode, uri_encode, ReqSpec};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256};

pub fn sha_hex(b: &[u8]) -> String {
    hex(&Sha256::digest(b))
}
pub fn md5_hex(b: &[u8]) -> String {
    use md5::Md5;
    hex(&Md5::digest(b))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn hmac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let mut m = Hmac::<Sha256>::new_from_slice(k).unwrap();
    m.update(d);
    m.finalize().into_bytes().to_vec()
}

pub fn signing_key(secret: &str, date8: &str, region: &str, service: &str) -> Vec<u8> {
    let k = hmac(format!("AWS4{secret}").as_bytes(), date8.as_bytes());
    let k = hmac(&k, region.as_bytes());
    let k = hmac(&k, service.as_bytes());
    hmac(&k, b"aws4_request")
}

pub fn parse_query(q: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    q.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (n, v) = p.split_once('=').unwrap_or((p, ""));
            (pct_decode(&n.replace('+', " ")), pct_decode(&v.replace('+', " ")))
        })
        .collect()
}

/// canonical request text; None when a signed header is missing from the request
pub fn canonical_request(method: &str, raw_path: &str, raw_query: Option<&str>, headers: &[(String, String)], signed: &[String], payload: &str, drop_sig: bool) -> Option<String> {
    let uri = uri_encode(&pct_decode(raw_path), false);
    let mut q: Vec<(String, String)> = parse_query(raw_query.unwrap_or(""))
        .into_iter()
        .filter(|(n, _)| !(drop_sig && n == b"X-Amz-Signature"))
        .map(|(n, v)| (uri_encode(&n, true), uri_encode(&v, true)))
        .collect();
    q.sort();
    let qs = q.iter().map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join("&");
    let mut hs = String::new();
    for s in signed {
        let mut vals = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(s)).map(|(_, v)| v.trim().to_owned()).peekable();
        vals.peek()?;
        hs.push_str(&format!("{}:{}\n", s.to_ascii_lowercase(), vals.collect::<Vec<_>>().join(",")));
    }
    Some(format!("{method}\n{uri}\n{qs}\n{hs}\n{}\n{payload}", signed.join(";")))
}

pub fn string_to_sign(canonical: &str, date: &str, scope: &str) -> String {
    format!("AWS4-HMAC-SHA256\n{date}\n{scope}\n{}", sha_hex(canonical.as_bytes()))
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Cred {
    pub access: String,
    pub secret: String,
    pub region: String,
    /// YYYYMMDDTHHMMSSZ
    pub date: String,
}

impl Cred {
    pub fn scope(&self) -> String {
        format!("{}/{}/s3/aws4_request", &self.date[..8], self.region)
    }
    pub fn key(&self) -> Vec<u8> {
        signing_key(&self.secret, &self.date[..8], &self.region, "s3")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum PayloadMode {
    Signed,
    Unsigned,
    Streaming,
}

pub fn payload_token(mode: PayloadMode, body: &[u8]) -> String {
    match mode {
        PayloadMode::Signed => sha_hex(body),
        PayloadMode::Unsigned => "UNSIGNED-PAYLOAD".into(),
        PayloadMode::Streaming => "STREAMING-AWS4-HMAC-SHA256-PAYLOAD".into(),
    }
}

/// the names to sign: these, and every x-amz- header of the request
pub fn names_with_amz(r: &ReqSpec, names: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = names.iter().map(|s| (*s).to_owned()).chain(r.headers.iter().map(|(n, _)| n.to_ascii_lowercase()).filter(|n| n.starts_with("x-amz-"))).collect();
    v.sort();
    v.dedup();
    v
}

/// Signs with the Authorization header. `signed` = names to sign (sorted, lower-case). Adds x-amz-date and
/// x-amz-content-sha256. Returns the signature.
pub fn sign_header(r: &mut ReqSpec, c: &Cred, mode: PayloadMode, signed: &[String], spacing: u8) -> String {
    r.set("x-amz-date", c.date.clone());
    let tok = payload_token(mode, &r.body);
    r.set("x-amz-content-sha256", tok.clone());
    let canon = canonical_request(&r.method, r.path(), r.query(), &r.headers, signed, &tok, false).expect("signed header missing in generator");
    let sts = string_to_sign(&canon, &c.date, &c.scope());
    let sig = hex(&hmac(&c.key(), sts.as_bytes()));
    let (s1, s2) = match spacing % 3 {
        0 => (", ", ", "),
        1 => (",", ","),
        _ => (",  ", ", "),
    };
    let v = format!("AWS4-HMAC-SHA256 Credential={}/{}{s1}SignedHeaders={}{s2}Signature={sig}", c.access, c.scope(), signed.join(";"));
    r.set("authorization", v);
    sig
}

/// Adds presigning query parameters. `extra_style` is ignored by the signature.
pub fn presign(r: &mut ReqSpec, c: &Cred, expires: &str, signed: &[String], order: u8) -> String {
    let params = [
        ("X-Amz-Algorithm", "AWS4-HMAC-SHA256".to_owned()),
        ("X-Amz-Credential", format!("{}/{}", c.access, c.scope())),
        ("X-Amz-Date", c.date.clone()),
        ("X-Amz-Expires", expires.to_owned()),
        ("X-Amz-SignedHeaders", signed.join(";")),
    ];
    let mut ps: Vec<String> = params.iter().map(|(n, v)| format!("{n}={}", uri_encode(v.as_bytes(), true))).collect();
    if order % 2 == 1 {
        ps.reverse();
    }
    let mut q: Vec<String> = r.query().map(|q| q.split('&').filter(|p| !p.is_empty()).map(str::to_owned).collect()).unwrap_or_default();
    if order % 4 >= 2 {
        ps.extend(q);
        q = ps;
    } else {
        q.extend(ps);
    }
    let path = r.path().to_owned();
    r.target = format!("{path}?{}", q.join("&"));
    let canon = canonical_request(&r.method, r.path(), r.query(), &r.headers, signed, "UNSIGNED-PAYLOAD", true).expect("signed header missing in generator");
    let sts = string_to_sign(&canon, &c.date, &c.scope());
    let sig = hex(&hmac(&c.key(), sts.as_bytes()));
    r.target.push_str(&format!("&X-Amz-Signature={sig}"));
    sig
}

pub fn chunk_signature(c: &Cred, prev: &str, data: &[u8]) -> String {
    let sts = format!(
        "AWS4-HMAC-SHA256-PAYLOAD\n{}\n{}\n{prev}\n{}\n{}",
        c.date,
        c.scope(),
        sha_hex(b""),
        sha_hex(data)
    );
    hex(&hmac(&c.key(), sts.as_bytes()))
}

/// one encoded chunk
#[derive(Clone, Debug)]
pub struct EncChunk {
    pub size_text: String,
    pub sig: String,
    pub data: Vec<u8>,
}

impl EncChunk {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{};chunk-signature={}\r\n", self.size_text, self.sig).into_bytes();
        v.extend_from_slice(&self.data);
        v.extend_from_slice(b"\r\n");
        v
    }
}

pub fn encode_chunks(c: &Cred, seed: &str, chunks: &[Vec<u8>], upper: bool) -> Vec<EncChunk> {
    let mut prev = seed.to_owned();
    let mut out = vec![];
    for d in chunks.iter().map(Vec::as_slice).chain(std::iter::once(&b""[..])) {
        let sig = chunk_signature(c, &prev, d);
        prev = sig.clone();
        let size_text = if upper { format!("{:X}", d.len()) } else { format!("{:x}", d.len()) };
        out.push(EncChunk { size_text, sig, data: d.to_vec() });
    }
    out
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// AWS would accept
    Valid,
    /// no valid signature of a registered key covers this request
    Invalid(String),
    /// the documents leave it open or the harness does not judge it
    Unjudged(&'static str),
}

fn field<'a>(auth: &'a str, name: &str) -> Option<&'a str> {
    let i = auth.find(name)?;
    let rest = &auth[i + name.len()..];
    let end = rest.find([',', ' ']).unwrap_or(rest.len());
    Some(&rest[..end])
}

/// every x-amz header of a request has to be signed
fn unsigned_amz(r: &ReqSpec, names: &[String]) -> Option<String> {
    r.headers.iter().map(|(n, _)| n.to_ascii_lowercase()).find(|n| n.starts_with("x-amz-") && !names.contains(n))
}

fn valid_date(d: &str) -> bool {
    d.len() == 16 && d.bytes().enumerate().all(|(i, b)| match i {
        8 => b == b'T',
        15 => b == b'Z',
        _ => b.is_ascii_digit(),
    })
}

/// Is there a secret among `secrets` for which this request's Authorization header carries the right
/// signature over the request as it is?
pub fn verify_header(r: &ReqSpec, secrets: &[(String, String)]) -> Verdict {
    let inv = |s: &str| Verdict::Invalid(s.into());
    let auths: Vec<&str> = r.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("authorization")).map(|(_, v)| v.as_str()).collect();
    let auth = match auths.as_slice() {
        [] => return inv("no authorization header"),
        [a] => *a,
        _ => return Verdict::Unjudged("several authorization headers"),
    };
    let (cred, signed, sig) = match (field(auth, "Credential="), field(auth, "SignedHeaders="), field(auth, "Signature=")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return inv("malformed authorization header"),
    };
    let parts: Vec<&str> = cred.split('/').collect();
    if parts.len() != 5 {
        return inv("malformed credential");
    }
    let secret = match secrets.iter().find(|(a, _)| a == parts[0]) {
        Some((_, s)) => s,
        None => return inv("unknown access key"),
    };
    let date = match r.get("x-amz-date") {
        Some(d) if valid_date(d) => d,
        _ => return inv("no valid x-amz-date"),
    };
    let sha = match r.get("x-amz-content-sha256") {
        Some(s) => s,
        None => return inv("no x-amz-content-sha256"),
    };
    let token = match sha {
        "UNSIGNED-PAYLOAD" | "STREAMING-AWS4-HMAC-SHA256-PAYLOAD" => sha.to_owned(),
        _ => sha_hex(&r.body),
    };
    let mut names: Vec<String> = signed.split(';').map(str::to_owned).collect();
    names.sort();
    let dup = {
        let mut n: Vec<String> = r.headers.iter().map(|(n, _)| n.to_ascii_lowercase()).collect();
        n.sort();
        n.windows(2).any(|w| w[0] == w[1])
    };
    if dup {
        return Verdict::Unjudged("duplicate headers");
    }
    if let Some(n) = unsigned_amz(r, &names) {
        return inv(&format!("header {n} is not signed"));
    }
    // The server may ignore names it does not find and two never-signed names; only the covered content counts.
    let present: Vec<String> = names
        .iter()
        .filter(|n| r.headers.iter().any(|(h, _)| h.eq_ignore_ascii_case(n)))
        .filter(|n| *n != "authorization")
        .cloned()
        .collect();
    let scope = format!("{}/{}/s3/aws4_request", &date[..8], parts[2]);
    let key = signing_key(secret, &date[..8], parts[2], "s3");
    let check = |names: &[String], scope: &str, key: &[u8]| -> bool {
        canonical_request(&r.method, r.path(), r.query(), &r.headers, names, &token, false)
            .map(|c| hex(&hmac(key, string_to_sign(&c, date, scope).as_bytes())) == sig)
            .unwrap_or(false)
    };
    let strict = names == signed.split(';').map(str::to_owned).collect::<Vec<_>>()
        && names.windows(2).all(|w| w[0] != w[1])
        && present == names
        && auth.starts_with("AWS4-HMAC-SHA256 ")
        && parts[1] == &date[..8]
        && parts[3] == "s3"
        && parts[4] == "aws4_request"
        && (sha == token);
    if check(&present, &scope, &key) {
        if strict {
            Verdict::Valid
        } else {
            Verdict::Unjudged("signature right, presentation irregular")
        }
    } else {
        inv("signature does not cover this request")
    }
}

pub fn verify_presigned(r: &ReqSpec, secrets: &[(String, String)], now: i64) -> Verdict {
    let inv = |s: &str| Verdict::Invalid(s.into());
    let q = parse_query(r.query().unwrap_or(""));
    let get = |n: &str| -> Result<String, Verdict> {
        let v: Vec<&Vec<u8>> = q.iter().filter(|(k, _)| k == n.as_bytes()).map(|(_, v)| v).collect();
        match v.as_slice() {
            [] => Err(Verdict::Invalid(format!("missing {n}"))),
            [x] => Ok(String::from_utf8_lossy(x).into_owned()),
            _ => Err(Verdict::Unjudged("repeated presign parameter")),
        }
    };
    let all = (|| Ok::<_, Verdict>((get("X-Amz-Algorithm")?, get("X-Amz-Credential")?, get("X-Amz-Date")?, get("X-Amz-Expires")?, get("X-Amz-SignedHeaders")?, get("X-Amz-Signature")?)))();
    let (alg, cred, date, exp, signed, sig) = match all {
        Ok(x) => x,
        Err(v) => return v,
    };
    let parts: Vec<&str> = cred.split('/').collect();
    if parts.len() != 5 {
        return inv("malformed credential");
    }
    let secret = match secrets.iter().find(|(a, _)| a == parts[0]) {
        Some((_, s)) => s,
        None => return inv("unknown access key"),
    };
    if !valid_date(&date) {
        return inv("bad date");
    }
    let names: Vec<String> = signed.split(';').map(str::to_owned).collect();
    let present: Vec<String> = names.iter().filter(|n| r.headers.iter().any(|(h, _)| h.eq_ignore_ascii_case(n)) && *n != "authorization").cloned().collect();
    if let Some(n) = unsigned_amz(r, &names) {
        return inv(&format!("header {n} is not signed"));
    }
    let scope = format!("{}/{}/s3/aws4_request", &date[..8], parts[2]);
    let key = signing_key(secret, &date[..8], parts[2], "s3");
    let canon = canonical_request(&r.method, r.path(), r.query(), &r.headers, &present, "UNSIGNED-PAYLOAD", true);
    let good = canon.map(|c| hex(&hmac(&key, string_to_sign(&c, &date, &scope).as_bytes())) == sig).unwrap_or(false);
    if !good {
        return inv("signature does not cover this request");
    }
    let t = chrono::NaiveDateTime::parse_from_str(&date, "%Y%m%dT%H%M%SZ").map(|d| d.and_utc().timestamp());
    let t = match t {
        Ok(t) => t,
        Err(_) => return inv("impossible date"),
    };
    let e: i64 = match exp.parse() {
        Ok(e) => e,
        Err(_) => return inv("bad expires"),
    };
    // margins keep the verdict independent of the exact clock
    if t + e < now - 120 {
        return inv("expired");
    }
    if t + e < now + 600 || t > now + 60 || e > 604_800 {
        return Verdict::Unjudged("near or outside the documented window");
    }
    let strict = alg == "AWS4-HMAC-SHA256" && present == names && names.windows(2).all(|w| w[0] < w[1]) && parts[1] == &date[..8] && parts[3] == "s3" && parts[4] == "aws4_request";
    if strict {
        Verdict::Valid
    } else {
        Verdict::Unjudged("signature right, presentation irregular")
    }
}

pub fn post_signature(c: &Cred, policy_b64: &str) -> String {
    hex(&hmac(&c.key(), policy_b64.as_bytes()))
}

/// what a server calculates while it checks this request, for every registered key that the request may name
pub fn expected_signatures(r: &ReqSpec, secrets: &[(String, String)]) -> Vec<String> {
    let q = parse_query(r.query().unwrap_or(""));
    let get = |n: &str| q.iter().find(|(k, _)| k == n.as_bytes()).map(|(_, v)| String::from_utf8_lossy(v).into_owned());
    let mut out = vec![];
    let mut one = |cred: &str, date: &str, signed: &str, token: &str, drop: bool| {
        let parts: Vec<&str> = cred.split('/').collect();
        let (Some(access), Some(region), true) = (parts.first(), parts.get(2), valid_date(date)) else { return };
        let Some((_, secret)) = secrets.iter().find(|(a, _)| a == access) else { return };
        let mut names: Vec<String> = signed.split(';').map(str::to_owned).collect();
        names.sort();
        names.retain(|n| n != "authorization" && r.headers.iter().any(|(h, _)| h.eq_ignore_ascii_case(n)));
        let scope = format!("{}/{region}/s3/aws4_request", &date[..8]);
        let key = signing_key(secret, &date[..8], region, "s3");
        if let Some(c) = canonical_request(&r.method, r.path(), r.query(), &r.headers, &names, token, drop) {
            out.push(hex(&hmac(&key, string_to_sign(&c, date, &scope).as_bytes())));
        }
    };
    if let (Some(c), Some(d), Some(s)) = (get("X-Amz-Credential"), get("X-Amz-Date"), get("X-Amz-SignedHeaders")) {
        one(&c, &d, &s, "UNSIGNED-PAYLOAD", true);
    }
    if let (Some(a), Some(d)) = (r.get("authorization"), r.get("x-amz-date")) {
        if let (Some(c), Some(s)) = (field(a, "Credential="), field(a, "SignedHeaders=")) {
            one(c, d, s, &sha_hex(&r.body), false);
            one(c, d, s, "UNSIGNED-PAYLOAD", false);
            one(c, d, s, "STREAMING-AWS4-HMAC-SHA256-PAYLOAD", false);
        }
    }
    out
}
