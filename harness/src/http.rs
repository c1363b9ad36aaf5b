//! Requests and responses as plain data.

use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::{Stream, StreamExt};
use hyper::body::Bytes;
use hyper::Body;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type HReq = hyper::Request<Body>;
pub type HRes = hyper::Response<Body>;

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(4000) {
        s.extend(std::ascii::escape_default(c).map(char::from));
    }
    if b.len() > 4000 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// How a body is cut into network fragments: sizes used cyclically (0 = an empty fragment), and whether the
/// stream is pending once before each fragment.
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq)]
pub struct Frag {
    pub sizes: Vec<u32>,
    pub pend: bool,
}

impl Frag {
    pub fn whole() -> Self {
        Frag { sizes: vec![], pend: false }
    }
    pub fn cut(&self, body: &[u8]) -> Vec<Vec<u8>> {
        if body.is_empty() {
            return vec![];
        }
        if self.sizes.iter().all(|&s| s == 0) {
            return vec![body.to_vec()];
        }
        let mut out = vec![];
        let mut pos = 0;
        let mut i = 0;
        while pos < body.len() {
            let n = (self.sizes[i % self.sizes.len()] as usize).min(body.len() - pos);
            out.push(body[pos..pos + n].to_vec());
            pos += n;
            i += 1;
            if out.len() > 100_000 {
                out.push(body[pos..].to_vec());
                break;
            }
        }
        out
    }
}

pub fn frag() -> BoxedStrategy<Frag> {
    let sizes = prop_oneof![
        2 => Just(vec![]),
        2 => Just(vec![1]),
        3 => prop::collection::vec(0_u32..12, 1..6),
        3 => prop::collection::vec(1_u32..200, 1..5),
        1 => prop::collection::vec(prop_oneof![Just(1_u32), Just(2), Just(64), Just(85), Just(86), Just(87), Just(4095), Just(4096), Just(4097)], 1..4),
        1 => prop::collection::vec(1000_u32..9000, 1..3),
    ];
    (sizes, any::<bool>()).prop_map(|(sizes, pend)| Frag { sizes, pend }).boxed()
}

pub enum Item {
    Data(Vec<u8>),
    Fail,
    Pend,
}

/// In-memory body; counts polls after its end so that a spinning reader is detected without a clock.
pub struct BodyStream {
    items: VecDeque<Item>,
    polled_after_end: u32,
    consumed: Arc<AtomicUsize>,
}

impl BodyStream {
    pub fn of(items: VecDeque<Item>) -> Self {
        BodyStream { items, polled_after_end: 0, consumed: Arc::default() }
    }
}

pub const SPIN_MARK: &str = "SPIN: body stream polled 100000 times after its end";

impl Stream for BodyStream {
    type Item = Result<Bytes, std::io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.items.pop_front() {
            None => {
                self.polled_after_end += 1;
                if self.polled_after_end > 100_000 {
                    panic!("{}", SPIN_MARK);
                }
                Poll::Ready(None)
            }
            Some(Item::Pend) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Item::Fail) => {
                self.items.clear();
                Poll::Ready(Some(Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "injected body failure"))))
            }
            Some(Item::Data(d)) => {
                self.consumed.fetch_add(d.len(), Ordering::Relaxed);
                Poll::Ready(Some(Ok(Bytes::from(d))))
            }
        }
    }
}

pub fn body_items(data: &[u8], frag: &Frag, fail_after: Option<usize>) -> VecDeque<Item> {
    let mut items = VecDeque::new();
    let data = match fail_after {
        Some(n) => &data[..n.min(data.len())],
        None => data,
    };
    for f in frag.cut(data) {
        if frag.pend {
            items.push_back(Item::Pend);
        }
        items.push_back(Item::Data(f));
    }
    if fail_after.is_some() {
        items.push_back(Item::Fail);
    } else if frag.pend {
        items.push_back(Item::Pend);
    }
    items
}

pub fn make_body(data: &[u8], frag: &Frag, fail_after: Option<usize>) -> Body {
    if fail_after.is_none() && frag.sizes.is_empty() && !frag.pend {
        return Body::from(data.to_vec());
    }
    Body::wrap_stream(BodyStream { items: body_items(data, frag, fail_after), polled_after_end: 0, consumed: Arc::default() })
}

/// A request as plain data. `target` is the raw request target; header values are latin-1/ASCII strings.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ReqSpec {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    #[serde(with = "bin")]
    pub body: Vec<u8>,
    pub frag: Frag,
    #[serde(default)]
    pub fail_after: Option<usize>,
}

impl ReqSpec {
    pub fn new(method: &str, target: &str) -> Self {
        ReqSpec { method: method.into(), target: target.into(), headers: vec![], body: vec![], frag: Frag::whole(), fail_after: None }
    }
    pub fn header(mut self, n: &str, v: impl Into<String>) -> Self {
        self.headers.push((n.into(), v.into()));
        self
    }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self {
        self.body = b.into();
        self
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn set(&mut self, name: &str, v: impl Into<String>) {
        let v = v.into();
        if let Some(h) = self.headers.iter_mut().find(|(n, _)| n.eq_ignore_ascii_case(name)) {
            h.1 = v;
        } else {
            self.headers.push((name.into(), v));
        }
    }
    pub fn remove(&mut self, name: &str) {
        self.headers.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
    }
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap_or("")
    }
    pub fn query(&self) -> Option<&str> {
        self.target.split_once('?').map(|x| x.1)
    }
    pub fn build(&self) -> Result<HReq, String> {
        self.build_with(make_body(&self.body, &self.frag, self.fail_after))
    }
    pub fn build_with(&self, body: Body) -> Result<HReq, String> {
        let mut b = hyper::Request::builder().method(self.method.as_bytes()).uri(self.target.as_str());
        for (n, v) in &self.headers {
            b = b.header(n.as_bytes(), v.as_bytes());
        }
        b.body(body).map_err(|e| format!("{e} (target {:?})", self.target))
    }
    pub fn show(&self) -> String {
        let mut s = format!("{} {}\n", self.method, self.target);
        for (n, v) in &self.headers {
            s.push_str(&format!("  {n}: {v}\n"));
        }
        s.push_str(&format!("  body({} bytes): {}\n", self.body.len(), esc(&self.body[..self.body.len().min(400)])));
        s
    }
}

/// serde helper: byte strings as readable text when ASCII, hex otherwise
pub mod bin {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn to_text(v: &[u8]) -> String {
        if v.len() > 64 && v.iter().all(|b| *b == v[0]) {
            return format!("r:{:02x}*{}", v[0], v.len());
        }
        if v.iter().all(|b| matches!(b, 0x20..=0x7e | b'\r' | b'\n' | b'\t')) {
            format!("t:{}", std::str::from_utf8(v).unwrap())
        } else {
            let mut s = String::from("x:");
            for b in v {
                s.push_str(&format!("{b:02x}"));
            }
            s
        }
    }
    pub fn from_text(s: &str) -> Option<Vec<u8>> {
        if let Some(t) = s.strip_prefix("t:") {
            return Some(t.as_bytes().to_vec());
        }
        if let Some(t) = s.strip_prefix("r:") {
            let (b, n) = t.split_once('*')?;
            return Some(vec![u8::from_str_radix(b, 16).ok()?; n.parse().ok()?]);
        }
        let h = s.strip_prefix("x:")?;
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
    }
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&to_text(v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        from_text(&s).ok_or_else(|| serde::de::Error::custom("bad byte string"))
    }
}

/// A content described compactly (so cases and replays stay small): deterministic bytes of a given length.
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq)]
pub enum Content {
    Lit(#[serde(with = "bin")] Vec<u8>),
    Gen { len: u32, seed: u32 },
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Lit(v) => v.clone(),
            Content::Gen { len, seed } => {
                let mut x = u64::from(*seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
                let mut v = Vec::with_capacity(*len as usize + 8);
                while v.len() < *len as usize {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    v.extend_from_slice(&x.to_le_bytes());
                }
                v.truncate(*len as usize);
                v
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Content::Lit(v) => v.len(),
            Content::Gen { len, .. } => *len as usize,
        }
    }
}

pub fn content_small() -> BoxedStrategy<Content> {
    prop_oneof![
        1 => Just(Content::Lit(vec![])),
        3 => prop::collection::vec(any::<u8>(), 0..20).prop_map(Content::Lit),
        3 => "[a-z\r\n -]{0,24}".prop_map(|s| Content::Lit(s.into_bytes())),
        2 => (0_u32..600, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
    ]
    .boxed()
}

pub fn content_any() -> BoxedStrategy<Content> {
    prop_oneof![
        8 => content_small(),
        2 => (prop_oneof![Just(4095_u32), Just(4096), Just(4097), Just(8192), Just(65535), Just(65536), Just(65537)], any::<u32>())
            .prop_map(|(len, seed)| Content::Gen { len, seed }),
        1 => (1_u32..200_000, any::<u32>()).prop_map(|(len, seed)| Content::Gen { len, seed }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub body_err: Option<String>,
}

impl Resp {
    pub fn get(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(n, _)| n == name).map(|(_, v)| v.as_str()).collect()
    }
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status)
    }
    pub fn show(&self) -> String {
        let mut s = format!("status {}\n", self.status);
        for (n, v) in &self.headers {
            s.push_str(&format!("  {n}: {v}\n"));
        }
        s.push_str(&format!("  body({} bytes): {}\n", self.body.len(), esc(&self.body[..self.body.len().min(800)])));
        if let Some(e) = &self.body_err {
            s.push_str(&format!("  body ended in error: {e}\n"));
        }
        s
    }
    pub fn error_code(&self) -> Option<String> {
        let n = crate::xmlmini::parse(&self.body).ok()?;
        if n.name != "Error" {
            return None;
        }
        n.child("Code").map(|c| c.text.clone())
    }
}

pub async fn collect(res: HRes) -> Resp {
    let (parts, mut body) = res.into_parts();
    let headers = parts
        .headers
        .iter()
        .map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().iter().map(|&b| b as char).collect()))
        .collect();
    let mut data = vec![];
    let mut body_err = None;
    let mut empties = 0;
    while let Some(x) = body.next().await {
        match x {
            Ok(b) => {
                if b.is_empty() {
                    empties += 1;
                    if empties > 1_000_000 {
                        panic!("SPIN: response body yields empty chunks forever");
                    }
                }
                data.extend_from_slice(&b)
            }
            Err(e) => {
                body_err = Some(e.to_string());
                break;
            }
        }
    }
    Resp { status: parts.status.as_u16(), headers, body: data, body_err }
}

pub async fn call(svc: &s3_server::S3Service, req: HReq) -> Result<Resp, String> {
    match svc.hyper_call(req).await {
        Ok(r) => Ok(collect(r).await),
        Err(e) => Err(format!("hyper_call returned Err: {e}")),
    }
}

const HEX: &[u8; 16] = b"0123456789ABCDEF";

/// AWS UriEncode
pub fn uri_encode(s: &[u8], slash: bool) -> String {
    let mut o = String::with_capacity(s.len());
    for &b in s {
        match b {
            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => o.push(b as char),
            b'/' if !slash => o.push('/'),
            _ => {
                o.push('%');
                o.push(HEX[(b >> 4) as usize] as char);
                o.push(HEX[(b & 15) as usize] as char);
            }
        }
    }
    o
}

/// percent-encoding with a style: bit 0 lower-case hex, bit 1 encode every byte, bit 2 keep sub-delims raw
pub fn pct(s: &[u8], style: u8, slash: bool) -> String {
    let mut o = String::with_capacity(s.len());
    for &b in s {
        let unres = matches!(b, b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~');
        let sub = matches!(b, b'!' | b'$' | b'\'' | b'(' | b')' | b'*' | b',' | b';' | b':' | b'@');
        let raw = if b == b'/' { !slash } else if unres { style & 2 == 0 } else { sub && style & 4 != 0 };
        if raw {
            o.push(b as char);
        } else if style & 1 != 0 {
            o.push_str(&format!("%{b:02x}"));
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

pub fn pct_decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// A body whose fragments are handed over one by one.
#[derive(Default)]
pub struct Gate {
    items: VecDeque<Item>,
    closed: bool,
    waker: Option<std::task::Waker>,
    /// the reader asked for more than there is
    starving: bool,
}

#[derive(Clone, Default)]
pub struct GateBody(Arc<std::sync::Mutex<Gate>>);

impl GateBody {
    pub fn push(&self, i: Item) {
        let mut g = self.0.lock().unwrap();
        g.items.push_back(i);
        g.starving = false;
        if let Some(w) = g.waker.take() {
            w.wake();
        }
    }
    pub fn close(&self) {
        let mut g = self.0.lock().unwrap();
        g.closed = true;
        g.starving = false;
        if let Some(w) = g.waker.take() {
            w.wake();
        }
    }
    pub fn starving(&self) -> bool {
        self.0.lock().unwrap().starving
    }
    pub fn body(&self) -> Body {
        Body::wrap_stream(self.clone())
    }
}

impl Stream for GateBody {
    type Item = Result<Bytes, std::io::Error>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut g = self.0.lock().unwrap();
        match g.items.pop_front() {
            Some(Item::Data(d)) => Poll::Ready(Some(Ok(Bytes::from(d)))),
            Some(Item::Fail) => {
                g.closed = true;
                g.items.clear();
                Poll::Ready(Some(Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "injected body failure"))))
            }
            Some(Item::Pend) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            None if g.closed => Poll::Ready(None),
            None => {
                g.starving = true;
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
