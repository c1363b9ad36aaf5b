//! C23: range reads against slicing the uploaded bytes. A case is an object and many ranges.

use crate::engine::*;
use crate::fsmodel::*;
use crate::http::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// the text after "range:", built from numbers so that shrinking keeps its shape
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rg {
    Normal(u64, u64),
    From(u64),
    Suffix(u64),
    Raw(String),
}

impl Rg {
    fn text(&self) -> String {
        match self {
            Rg::Normal(a, b) => format!("bytes={a}-{b}"),
            Rg::From(a) => format!("bytes={a}-"),
            Rg::Suffix(n) => format!("bytes=-{n}"),
            Rg::Raw(s) => s.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub content: Content,
    pub how: u8,
    pub ranges: Vec<Rg>,
    pub signed: bool,
    /// the object is a sparse file of this size with marks in it, put where the storage keeps its objects
    #[serde(default)]
    pub sparse: Option<u64>,
}

pub struct C23;

enum Want {
    Slice(usize, usize),
    Unsatisfiable,
    /// 416 or an empty success
    Empty,
    Malformed,
    /// outside the specification of the property
    Any,
}

fn want(r: &Rg, len: usize) -> Want {
    let n = len as u64;
    match r {
        Rg::Normal(a, b) if a > b => Want::Malformed,
        Rg::Normal(a, _) | Rg::From(a) if *a >= n => Want::Unsatisfiable,
        Rg::Normal(a, b) => Want::Slice(*a as usize, (*b).min(n - 1) as usize + 1),
        Rg::From(a) => Want::Slice(*a as usize, len),
        Rg::Suffix(0) => Want::Unsatisfiable,
        Rg::Suffix(_) if n == 0 => Want::Empty,
        Rg::Suffix(k) => Want::Slice((n - (*k).min(n)) as usize, len),
        Rg::Raw(s) => {
            // what a number overflow or a list of ranges means is not part of the property
            let unit = s.get(..6).map_or(false, |u| u == "bytes=");
            let rest = s.get(6..).unwrap_or("");
            let digits = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
            let well = rest.split_once('-').map_or(false, |(a, b)| (a.is_empty() || digits(a)) && (b.is_empty() || digits(b)) && !(a.is_empty() && b.is_empty()));
            if unit && !well && !rest.contains([',', ' ', '\t']) {
                Want::Malformed
            } else {
                Want::Any
            }
        }
    }
}

impl Prop for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "the object is not empty and at least two different kinds of range were read: inner, clamped at the end, open, suffix, unsatisfiable or malformed";
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let len = prop_oneof![
            1 => Just(0_u32),
            6 => 1_u32..40,
            3 => (1_u32..4, 0_u32..5).prop_map(|(n, d)| n * 4096 + d - 2),
            2 => 40_u32..20_000,
            1 => (1_u32..4, 0_u32..5).prop_map(|(n, d)| n * 65536 + d - 2),
        ];
        (len, any::<u32>(), 0_u8..4, any::<bool>())
            .prop_flat_map(|(len, seed, how, signed)| {
                let l = u64::from(len);
                // positions near the interesting ones
                let pos = move || {
                    prop_oneof![
                        4 => 0..=l.saturating_add(2),
                        2 => (0_u64..5).prop_map(move |d| (l + 2).saturating_sub(d)),
                        1 => 0_u64..4,
                        1 => (0_u64..9).prop_map(|d| 4100 - d),
                        1 => prop_oneof![Just(u64::MAX), Just(u64::MAX - 1), Just(1 << 63), Just((1 << 63) - 1), Just(1 << 32), Just((1 << 32) - 1), Just(1 << 53)],
                    ]
                };
                let raw = prop_oneof![
                    prop::sample::select(vec!["bytes=", "bytes=-", "bytes=a-b", "bytes=1", "bytes=1-2-3", "bytes=--1", "bytes=1--2", "bytes=-1-", "bytes=0x1-2", "bytes=1-2x", "bytes=é-", "bytes=+1-2", "bytes=1-+2", "bytes=1.0-2", "bytes==1-2", "bytes", "", "items=0-1", "0-1", "bytes=0-0,2-3", "bytes=99999999999999999999-", "bytes=0-99999999999999999999999", "Bytes=0-1", "bytes = 0-1", "bytes=0 - 1"]).prop_map(str::to_owned),
                    "bytes=[0-9a-]{1,6}",
                ];
                let rg = prop_oneof![
                    5 => (pos(), pos()).prop_map(|(a, b)| Rg::Normal(a, b)),
                    4 => (pos(), pos()).prop_map(|(a, b)| Rg::Normal(a.min(b), a.max(b))),
                    3 => pos().prop_map(Rg::From),
                    3 => pos().prop_map(Rg::Suffix),
                    2 => raw.prop_map(Rg::Raw),
                ];
                (Just(Content::Gen { len, seed }), Just(how), prop::collection::vec(rg, 1..16), Just(signed))
            })
            .prop_map(|(content, how, ranges, signed)| Case { content, how, ranges, signed, sparse: None })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 150_000 } else { 8000 }
    }
    fn directed(&self, t: Tier) -> Vec<Case> {
        // every range of small objects
        let max = if t == Tier::Thorough { 12_u32 } else { 6 };
        let mut v: Vec<Case> = (0..=max)
            .map(|len| {
                let e = u64::from(len) + 2;
                let mut ranges: Vec<Rg> = (0..e).flat_map(|a| (0..e).map(move |b| Rg::Normal(a, b))).collect();
                ranges.extend((0..e).flat_map(|a| [Rg::From(a), Rg::Suffix(a)]));
                Case { content: Content::Gen { len, seed: 7 }, how: (len % 4) as u8, ranges, signed: false, sparse: None }
            })
            .collect();
        // beyond the 4 MiB buffer of the storage
        const M: u64 = 4 << 20;
        v.push(Case { content: Content::Gen { len: (M + 4099) as u32, seed: 3 }, how: 0, ranges: vec![Rg::From(M - 1), Rg::From(M), Rg::Normal(M - 4097, M + 4096), Rg::Suffix(4100), Rg::Suffix(M), Rg::Suffix(u64::MAX), Rg::Normal(5, u64::MAX), Rg::Normal(0, M)], signed: false, sparse: None });
        // sizes and positions that do not fit into 31 or 32 bits; the storage hashes the object for every read
        const G: u64 = 1 << 32;
        let big = |len, ranges| Case { content: Content::Gen { len: 0, seed: 0 }, how: 0, ranges, signed: false, sparse: Some(len) };
        v.push(big(G + 5, vec![Rg::Normal(G - 3, G + 1)]));
        v.push(big(G / 2 + 9, vec![Rg::Suffix(20)]));
        if t == Tier::Thorough {
            v.push(big(G + 4101, vec![Rg::Suffix(8192)]));
            v.push(big(G + 5, vec![Rg::From(G - 9), Rg::From(G + 5)]));
            v.push(big(G + 5, vec![Rg::Normal(G / 2 - 7, G / 2 + 4), Rg::Normal(3, 4)]));
            v.push(big(2 * G + 2, vec![Rg::Normal(2 * G - 2, 3 * G)]));
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("r{}", cx.case_no));
        let root = top.join("root");
        let res = match c.sparse {
            Some(len) => sparse(c, len, &root, cx),
            None => go(c, &root, cx),
        };
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, root: &std::path::Path, cx: &mut Cx) -> PResult {
    let stop = |s: Stop| match s {
        Stop::Fail(f) => f,
        Stop::Div(_, sig, msg) => Fail::Harness(format!("{sig}: {msg}")),
    };
    let mut w = World::new(root).map_err(stop)?;
    let bytes = c.content.bytes();
    let key = "dir/obj.bin";
    let made = w.req(&ReqSpec::new("PUT", "/bkt")).map_err(stop)?;
    w.model.insert("bkt".into(), Default::default());
    if !made.ok() {
        cx.label("setup failed");
        return Ok(());
    }
    // the object comes into being in different ways
    let put = |w: &mut World, how: How| w.put("bkt", key, how, &c.content, &Meta::new(), &Frag::whole());
    let done = match c.how {
        0 => put(&mut w, How::Plain),
        1 => put(&mut w, How::Chunked),
        2 => put(&mut w, How::Form),
        _ => w.initiate("bkt", key, &Meta::new()).and_then(|()| w.part(0, 1, How::Plain, &c.content, None)).and_then(|()| w.complete(0, Listed::All, None, false).map(|_| ())),
    };
    match done {
        Ok(()) => {}
        Err(Stop::Fail(f)) => return Err(f),
        Err(Stop::Div(..)) => {
            cx.label("setup failed");
            return Ok(());
        }
    }
    let len = bytes.len();
    let mut kinds = std::collections::BTreeSet::new();
    for rg in &c.ranges {
        let t = rg.text();
        let mut q = ReqSpec::new("GET", &object_target("bkt", key)).header("range", t.clone());
        if c.signed {
            q = q.header("host", "s3.amazonaws.com");
            let names: Vec<String> = ["host", "range", "x-amz-content-sha256", "x-amz-date"].iter().map(|s| (*s).to_owned()).collect();
            crate::sigv4::sign_header(&mut q, &cred(), crate::sigv4::PayloadMode::Signed, &names, 0);
        }
        let Ok(r) = w.req(&q).map_err(stop) else { continue };
        let ctx = || format!("GET with range {t:?} of an object of {len} bytes (uploaded {}) gave {}", ["plainly", "in signed chunks", "by a form", "in parts"][usize::from(c.how.min(3))], r.show());
        if r.body_err.is_some() {
            return viol("body-error", ctx());
        }
        match want(rg, len) {
            Want::Slice(a, b) => {
                kinds.insert(match rg {
                    Rg::Normal(_, x) if *x >= len as u64 => "clamped",
                    Rg::Normal(..) => "inner",
                    Rg::From(_) => "open",
                    Rg::Suffix(x) if *x >= len as u64 => "suffix-all",
                    _ => "suffix",
                });
                if r.status != 206 {
                    return viol(if r.ok() { "status" } else { "refused" }, ctx());
                }
                if r.body != bytes[a..b] {
                    return viol("bytes", format!("{}\nexpected bytes {a}..{b}", ctx()));
                }
                if r.get("content-length") != Some((b - a).to_string().as_str()) {
                    return viol("length", ctx());
                }
                if r.get("content-range") != Some(format!("bytes {a}-{}/{len}", b - 1).as_str()) {
                    return viol("content-range", ctx());
                }
            }
            Want::Unsatisfiable => {
                kinds.insert("unsatisfiable");
                if r.status != 416 || r.error_code().as_deref() != Some("InvalidRange") {
                    return viol("unsatisfiable", ctx());
                }
            }
            Want::Empty => {
                kinds.insert("suffix-of-empty");
                if !(r.status == 416 || r.ok() && r.body.is_empty()) {
                    return viol("suffix-of-empty", ctx());
                }
            }
            Want::Malformed => {
                kinds.insert("malformed");
                // RFC 7233 lets a server ignore a range it cannot read; the property asks for a client error
                if !(400..500).contains(&r.status) {
                    return viol("malformed", ctx());
                }
            }
            Want::Any => {
                kinds.insert("unspecified");
                if r.status >= 500 || r.status == 206 && !contains(&bytes, &r.body) {
                    return viol("unspecified", ctx());
                }
            }
        }
    }
    // the whole object is still there
    let r = w.req(&ReqSpec::new("GET", &object_target("bkt", key))).map_err(stop)?;
    if r.status != 200 || r.body != bytes || r.get("content-range").is_some() {
        return viol("whole", format!("GET without a range gave {}", r.show()));
    }
    for k in &kinds {
        cx.label(*k);
    }
    if len > 0 && kinds.len() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// the byte at a position of a sparse object
fn mark(at: u64) -> u8 {
    let near = (at + 8) >> 30 << 30;
    if near > 0 && (near.saturating_sub(8)..near + 8).contains(&at) {
        (1 + (near >> 30) * 17 + (at + 8 - near)) as u8
    } else {
        0
    }
}

fn sparse(c: &Case, len: u64, root: &std::path::Path, cx: &mut Cx) -> PResult {
    use std::os::unix::fs::FileExt;
    let stop = |s: Stop| match s {
        Stop::Fail(f) => f,
        Stop::Div(_, sig, msg) => Fail::Harness(format!("{sig}: {msg}")),
    };
    let w = World::new(root).map_err(stop)?;
    let ok = |r: &Resp| r.ok() && r.body_err.is_none();
    // the layout of a bucket is a directory, that of an object a file in it
    let small = Content::Gen { len: 3, seed: 1 };
    if !ok(&w.req(&ReqSpec::new("PUT", "/bkt")).map_err(stop)?) || !ok(&w.req(&ReqSpec::new("PUT", "/bkt/a").body(small.bytes())).map_err(stop)?) || !root.join("bkt/a").is_file() {
        cx.label("setup failed");
        return Ok(());
    }
    let made = (|| {
        let f = std::fs::File::create(root.join("bkt/big"))?;
        f.set_len(len)?;
        let mut at = 1_u64 << 30;
        while at < len + 8 {
            for p in at - 8..(at + 8).min(len) {
                f.write_all_at(&[mark(p)], p)?;
            }
            at += 1 << 30;
        }
        Ok::<_, std::io::Error>(())
    })();
    if let Err(e) = made {
        return harness(format!("cannot make a sparse file: {e}"));
    }
    let r = w.req(&ReqSpec::new("HEAD", "/bkt/big")).map_err(stop)?;
    if r.status != 200 || r.get("content-length") != Some(len.to_string().as_str()) {
        return viol("big-head", format!("HEAD of an object of {len} bytes gave {}", r.show()));
    }
    let r = w.req(&ReqSpec::new("GET", "/bkt?list-type=2")).map_err(stop)?;
    if r.status != 200 || !String::from_utf8_lossy(&r.body).contains(&format!("<Size>{len}</Size>")) {
        return viol("big-size", format!("listing a bucket with an object of {len} bytes gave {}", r.show()));
    }
    for rg in &c.ranges {
        let r = w.req(&ReqSpec::new("GET", "/bkt/big").header("range", rg.text())).map_err(stop)?;
        let ctx = || format!("GET with range {:?} of an object of {len} bytes gave {}", rg.text(), r.show());
        let (a, b) = match *rg {
            Rg::Normal(a, b) if a < len => (a, b.min(len - 1) + 1),
            Rg::From(a) if a < len => (a, len),
            Rg::Suffix(k) => (len - k.min(len), len),
            _ => {
                if r.status != 416 {
                    return viol("unsatisfiable", ctx());
                }
                continue;
            }
        };
        if r.status != 206 || r.body_err.is_some() {
            return viol("big-refused", ctx());
        }
        if r.get("content-length") != Some((b - a).to_string().as_str()) || r.get("content-range") != Some(format!("bytes {a}-{}/{len}", b - 1).as_str()) {
            return viol("big-length", ctx());
        }
        if r.body != (a..b).map(mark).collect::<Vec<u8>>() {
            return viol("big-bytes", ctx());
        }
    }
    cx.label("more than 2 GiB");
    cx.nontrivial();
    Ok(())
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
