//! C30: the server program under generated command lines, and over TCP against the service in process.

use std::net::{SocketAddr, TcpListener, TcpStream};
use std::path::Path;
use std::time::Duration;

use crate::daemon::{self, Started};
use crate::engine::*;
use crate::fsmodel::*;
use crate::http::*;
use crate::mock::simple_auth;
use crate::sigv4::*;
use proptest::prelude::*;
use s3_server::storages::fs::FileSystem;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Root {
    Given,
    /// not given: the working directory
    Cwd,
    /// relative to the working directory
    Relative,
    Missing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    CreateBucket,
    Put { key: u8, content: Content, meta: Meta, chunked: bool, frag: Frag },
    Get { key: u8, range: Option<(u16, u16)> },
    Head { key: u8 },
    Copy { from: u8, to: u8 },
    Delete { key: u8 },
    MultiDelete { keys: Vec<u8> },
    List { v2: bool, prefix: String },
    ListBuckets,
    Location,
    /// not S3
    Odd(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub root: Root,
    pub access: Option<String>,
    pub secret: Option<String>,
    /// "--name value" or "--name=value", and the order
    pub equals: bool,
    pub order: u8,
    pub calls: Vec<Call>,
    /// all requests on one connection: how many of them are written before an answer is read
    #[serde(default)]
    pub keep: u8,
    /// uploads wait for leave to send the body
    #[serde(default)]
    pub expect: bool,
    /// options left to their defaults: 1 port, 2 host
    #[serde(default)]
    pub omit: u8,
}

pub struct C30;

const KEYS: &[&str] = &["a", "dir/a", "dir/b c", "é+%", "z"];

fn key(k: u8) -> &'static str {
    KEYS[usize::from(k) % KEYS.len()]
}

impl Prop for C30 {
    type Case = Case;
    const ID: &'static str = "C30";
    const RULE: &'static str = "the program either refused to start as expected, or served at least three requests that were compared with the service in process";
    const SHRINK_ITERS: u32 = 150;
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let call = prop_oneof![
            2 => Just(Call::CreateBucket),
            5 => (any::<u8>(), body_content(), small_meta(), any::<bool>(), frag()).prop_map(|(key, content, meta, chunked, frag)| Call::Put { key, content, meta, chunked, frag }),
            5 => (any::<u8>(), prop::option::weighted(0.4, (0_u16..60, 0_u16..60))).prop_map(|(key, range)| Call::Get { key, range }),
            2 => any::<u8>().prop_map(|key| Call::Head { key }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(from, to)| Call::Copy { from, to }),
            1 => any::<u8>().prop_map(|key| Call::Delete { key }),
            1 => prop::collection::vec(any::<u8>(), 1..3).prop_map(|keys| Call::MultiDelete { keys }),
            2 => (any::<bool>(), prop::sample::select(vec!["", "dir/", "a", "x"])).prop_map(|(v2, p)| Call::List { v2, prefix: p.into() }),
            1 => Just(Call::ListBuckets),
            1 => Just(Call::Location),
            1 => any::<u8>().prop_map(Call::Odd),
        ];
        let k = prop_oneof![Just(ACCESS.to_owned()), "[A-Za-z0-9]{1,20}", "[A-Z0-9]{16}"];
        let s = prop_oneof![Just(SECRET.to_owned()), "[A-Za-z0-9/+=]{1,40}", "[!-~]{1,20}", "[a-z ]{3,9}"];
        let keys = prop_oneof![
            6 => (k.clone(), s.clone()).prop_map(|(k, s)| (Some(k), Some(s))),
            4 => Just((None, None)),
            1 => k.prop_map(|k| (Some(k), None)),
            1 => s.prop_map(|s| (None, Some(s))),
        ];
        let root = prop_oneof![5 => Just(Root::Given), 1 => Just(Root::Cwd), 1 => Just(Root::Relative), 1 => Just(Root::Missing)];
        (root, keys, any::<bool>(), any::<u8>(), prop::collection::vec(call, 3..14), prop_oneof![2 => Just(0_u8), 1 => Just(1_u8), 2 => 2_u8..5], any::<bool>())
            .prop_map(|(root, (access, secret), equals, order, calls, keep, expect)| {
                // a value that looks like an option needs the other form
                let starts = |c| secret.as_ref().map_or(false, |s: &String| s.starts_with(c));
                let equals = (equals || starts('-')) && !starts('=');
                Case { root, access, secret, equals, order, calls, keep, expect: expect && keep > 0, omit: 0 }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 20_000 } else { 1500 }
    }
    fn directed(&self, _: Tier) -> Vec<Case> {
        let mut v = vec![];
        for root in [Root::Given, Root::Cwd, Root::Relative, Root::Missing] {
            for (access, secret) in [(None, None), (Some(ACCESS), Some(SECRET)), (Some(ACCESS), None), (None, Some(SECRET))] {
                for equals in [false, true] {
                    for order in 0..2 {
                        v.push(Case {
                            root,
                            access: access.map(str::to_owned),
                            secret: secret.map(str::to_owned),
                            equals,
                            order,
                            keep: if equals { 4 } else { 0 },
                            expect: order == 1,
                            omit: 0,
                            calls: vec![
                                Call::CreateBucket,
                                Call::Put { key: 0, content: Content::Gen { len: 5000, seed: 1 }, meta: [("m".to_owned(), "v".to_owned())].into_iter().collect(), chunked: order == 1, frag: Frag { sizes: vec![100, 3000], pend: false } },
                                Call::Get { key: 0, range: None },
                                Call::Head { key: 0 },
                                Call::Put { key: 1, content: Content::Gen { len: 2_500_000, seed: 2 }, meta: Meta::new(), chunked: order == 0, frag: Frag { sizes: vec![70_000, 1, 200_000], pend: false } },
                                Call::Get { key: 1, range: None },
                                Call::Get { key: 1, range: Some((3, 60_000)) },
                                Call::Copy { from: 1, to: 2 },
                                Call::Get { key: 2, range: None },
                                Call::List { v2: true, prefix: String::new() },
                            ],
                        });
                    }
                }
            }
        }
        // the options of the README left out, one by one and all together
        for omit in 0..4 {
            for root in [Root::Given, Root::Cwd] {
                let mut c = v[if omit == 1 { 4 } else { 0 }].clone();
                c.omit = omit;
                c.root = root;
                if omit < 3 || root == Root::Cwd {
                    v.push(c);
                }
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("b{}", cx.case_no));
        let res = go(c, &top, cx);
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn request(c: &Call, n: usize) -> ReqSpec {
    match c {
        Call::CreateBucket => ReqSpec::new("PUT", "/bkt"),
        Call::Put { key: k, content, meta, frag, .. } => {
            let b = content.bytes();
            let mut q = ReqSpec::new("PUT", &object_target("bkt", key(*k))).body(b);
            for (n, v) in meta {
                q.headers.push((format!("x-amz-meta-{n}"), v.clone()));
            }
            q.frag = frag.clone();
            q
        }
        Call::Get { key: k, range } => {
            let mut q = ReqSpec::new("GET", &object_target("bkt", key(*k)));
            if let Some((a, b)) = range {
                q = q.header("range", format!("bytes={a}-{b}"));
            }
            q
        }
        Call::Head { key: k } => ReqSpec::new("HEAD", &object_target("bkt", key(*k))),
        Call::Copy { from, to } => ReqSpec::new("PUT", &object_target("bkt", key(*to))).header("x-amz-copy-source", format!("bkt/{}", uri_encode(key(*from).as_bytes(), false))),
        Call::Delete { key: k } => ReqSpec::new("DELETE", &object_target("bkt", key(*k))),
        Call::MultiDelete { keys } => ReqSpec::new("POST", "/bkt?delete").body(format!("<Delete>{}</Delete>", keys.iter().map(|k| format!("<Object><Key>{}</Key></Object>", key(*k))).collect::<String>())),
        Call::List { v2, prefix } => ReqSpec::new("GET", &format!("/bkt?{}prefix={}", if *v2 { "list-type=2&" } else { "" }, uri_encode(prefix.as_bytes(), true))),
        Call::ListBuckets => ReqSpec::new("GET", "/"),
        Call::Location => ReqSpec::new("GET", "/bkt?location"),
        Call::Odd(k) => match k % 6 {
            0 => ReqSpec::new("PATCH", "/bkt/a"),
            1 => ReqSpec::new("GET", "/x"),
            2 => ReqSpec::new("POST", "/bkt?delete").body("<Delete><Object>"),
            3 => ReqSpec::new("PUT", "/bkt/a?partNumber=x&uploadId=y"),
            4 => ReqSpec::new("DELETE", "/"),
            _ => ReqSpec::new("GET", &format!("/missing-{n}/k")),
        },
    }
}

/// what of a response is compared
fn essence(r: &Resp) -> (u16, Vec<(String, String)>, String) {
    let mut h: Vec<(String, String)> = r.headers.iter().filter(|(n, _)| !matches!(n.as_str(), "date" | "last-modified" | "connection" | "transfer-encoding" | "content-length" | "x-amz-request-id")).cloned().collect();
    h.sort();
    let mut body = if r.get("content-type").map_or(false, |t| t.contains("xml")) { String::from_utf8_lossy(&r.body).into_owned() } else { esc(&r.body) };
    for tag in ["LastModified", "CreationDate", "RequestId"] {
        let mut from = 0;
        while let Some(i) = body[from..].find(&format!("<{tag}>")).map(|i| i + from) {
            let Some(j) = body[i..].find(&format!("</{tag}>")).map(|j| j + i) else { break };
            body.replace_range(i + tag.len() + 2..j, "");
            from = i + tag.len() + 2;
        }
    }
    (r.status, h, body)
}

fn go(c: &Case, top: &Path, cx: &mut Cx) -> PResult {
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let addr = match c.omit {
        0 => daemon::fresh_addr(),
        1 => SocketAddr::from((daemon::fresh_addr().ip(), 8014)),
        _ => {
            // a port of its own in this process and, most likely, among others
            let SocketAddr::V4(fresh) = daemon::fresh_addr() else { return Ok(()) };
            let port = if c.omit == 2 { 20_000 + (std::process::id() % 40) as u16 * 256 + u16::from(fresh.ip().octets()[3]) } else { 8014 };
            let Some(a) = TcpListener::bind(("localhost", port)).and_then(|l| l.local_addr()).ok() else {
                cx.label("the default address is taken");
                return Ok(());
            };
            a
        }
    };
    let cwd = top.join("cwd");
    let given = top.join("data");
    for d in [&cwd, &given, &top.join("twin")] {
        std::fs::create_dir_all(d).map_err(io)?;
    }
    if c.root == Root::Relative {
        std::fs::create_dir_all(cwd.join("sub")).map_err(io)?;
    }
    let root = match c.root {
        Root::Given => given.clone(),
        Root::Cwd => cwd.clone(),
        Root::Relative => cwd.join("sub"),
        Root::Missing => top.join("no-such-directory"),
    };
    let mut opts: Vec<(&str, String)> = vec![];
    if c.omit & 2 == 0 {
        opts.push(("--host", addr.ip().to_string()));
    }
    if c.omit & 1 == 0 {
        opts.push(("--port", addr.port().to_string()));
    }
    match c.root {
        Root::Given | Root::Missing => opts.push(("--fs-root", root.to_string_lossy().into_owned())),
        Root::Relative => opts.push(("--fs-root", "sub".into())),
        Root::Cwd => {}
    }
    if let Some(a) = &c.access {
        opts.push(("--access-key", a.clone()));
    }
    if let Some(s) = &c.secret {
        opts.push(("--secret-key", s.clone()));
    }
    let n = opts.len();
    if n > 0 {
        opts.rotate_left(usize::from(c.order) % n);
    }
    let args: Vec<String> = opts.iter().flat_map(|(n, v)| if c.equals { vec![format!("{n}={v}")] } else { vec![(*n).to_owned(), v.clone()] }).collect();

    let one_key = c.access.is_some() != c.secret.is_some();
    let refuse = one_key || c.root == Root::Missing;
    let d = match daemon::start(&args, &cwd, addr)? {
        Started::Exited { code, stderr } => {
            if !refuse {
                return viol("not-started", format!("the program with {args:?} ended with {code:?}\n{stderr}"));
            }
            if code == Some(0) {
                return viol("refused-with-zero", format!("the program with {args:?} ended with exit status 0\n{stderr}"));
            }
            cx.label(if one_key { "refused: one key only" } else { "refused: missing root" });
            cx.nontrivial();
            return Ok(());
        }
        Started::Up(d) => d,
    };
    if refuse {
        return viol("started", format!("the program with {args:?} serves requests"));
    }
    cx.label(if c.access.is_some() { "with keys" } else { "without keys" });
    // only on the address it was given
    if let SocketAddr::V4(a) = addr {
        let mut o = a.ip().octets();
        o[3] = if c.omit & 2 == 0 { 1 } else { 9 };
        let other = SocketAddr::from((o, addr.port()));
        if TcpStream::connect_timeout(&other, Duration::from_millis(500)).is_ok() {
            return viol("other-address", format!("the program with {args:?} also accepts connections at {other}"));
        }
    }
    // the twin in process, on a root of its own
    let fs = |p: &Path| FileSystem::new(p).map_err(io);
    let mut twin = S3Service::new(fs(&top.join("twin"))?);
    let cr = c.access.as_ref().zip(c.secret.as_ref()).map(|(a, s)| Cred { access: a.clone(), secret: s.clone(), ..cred() });
    if let Some(cr) = &cr {
        twin.set_auth(simple_auth(&[(cr.access.clone(), cr.secret.clone())]));
    }
    let sign = |q: &mut ReqSpec, cr: &Cred| {
        let names = names_with_amz(q, &["host", "x-amz-content-sha256", "x-amz-date"]);
        sign_header(q, cr, PayloadMode::Signed, &names, 0);
    };
    let mut done = 0;
    // (request, chunked, must be refused)
    let mut plan: Vec<(ReqSpec, bool, bool)> = vec![];
    for (i, call_) in c.calls.iter().enumerate() {
        let mut q = request(call_, i).header("host", addr.to_string());
        let chunked = matches!(call_, Call::Put { chunked: true, .. });
        if matches!(q.method.as_str(), "PUT" | "POST") && !chunked {
            q.set("content-length", q.body.len().to_string());
        }
        if let Some(cr) = &cr {
            // nothing but a good signature gets through
            plan.push((q.clone(), chunked, true));
            let mut wrong = cr.clone();
            wrong.secret.push('x');
            let mut b = q.clone();
            sign(&mut b, &wrong);
            plan.push((b, chunked, true));
            let mut wrong = cr.clone();
            wrong.access.push('x');
            let mut b = q.clone();
            sign(&mut b, &wrong);
            plan.push((b, chunked, true));
            sign(&mut q, cr);
        }
        plan.push((q, chunked, false));
    }
    let mut conn: Option<daemon::Conn> = None;
    let mut at = 0;
    while at < plan.len() {
        // a request whose body the server need not read is the last one on its connection
        let open_end = |p: &(ReqSpec, bool, bool)| !p.0.body.is_empty() || p.1;
        let mut n = 1;
        while c.keep > 0 && n < usize::from(c.keep) && at + n < plan.len() && !open_end(&plan[at + n - 1]) && !(c.expect && !plan[at + n].0.body.is_empty()) {
            n += 1;
        }
        let batch = &plan[at..at + n];
        at += n;
        let shown = || batch.iter().map(|b| b.0.show()).collect::<Vec<_>>().join("\n");
        let answers = if c.keep == 0 {
            daemon::send(&addr, &batch[0].0, batch[0].1).map(|r| vec![r])
        } else {
            let mut use_conn = || {
                let k = match conn.take() {
                    Some(k) => conn.insert(k),
                    None => conn.insert(daemon::Conn::open(&addr)?),
                };
                if c.expect && n == 1 && !batch[0].1 && !batch[0].0.body.is_empty() {
                    return k.send_expecting(&addr, &batch[0].0).map(|r| vec![r]);
                }
                k.send(&addr, &batch.iter().map(|b| (&b.0, b.1)).collect::<Vec<_>>())
            };
            use_conn()
        };
        let answers = match answers {
            Ok(r) => r,
            Err(e) => return viol("no-answer", format!("{e}\n{}", shown())),
        };
        if n > 1 {
            cx.label("several at once");
        }
        if open_end(&batch[n - 1]) && !answers.last().is_some_and(Resp::ok) || answers.iter().any(|r| r.get("connection") == Some("close")) {
            conn = None;
        }
        if answers.iter().rev().skip(1).any(|r| r.get("connection") == Some("close")) {
            return viol("closed", format!("the connection is closed in the middle of\n{}", shown()));
        }
        for ((q, _, bad), tcp) in batch.iter().zip(&answers) {
            if *bad {
                if tcp.status < 400 {
                    return viol("not-enforced", format!("the program with {args:?} answered {}\nto {}", tcp.show(), q.show()));
                }
                continue;
            }
            let inproc = crate::exec::block_on(call(&twin, q.build().map_err(Fail::Harness)?)).or_else(|e| viol("service-error", e))?;
            if tcp.body_err.is_some() != inproc.body_err.is_some() {
                return viol("body", format!("over TCP {}\nin process {}\nto {}", tcp.show(), inproc.show(), q.show()));
            }
            let (a, b) = (essence(tcp), essence(&inproc));
            // HEAD and statuses without content carry no body over TCP
            let same_body = a.2 == b.2 || q.method == "HEAD";
            if a.0 != b.0 || a.1 != b.1 || !same_body {
                return viol("differs", format!("over TCP {}\nin process {}\nto {}", tcp.show(), inproc.show(), q.show()));
            }
            if let (Some(x), Some(y)) = (tcp.get("content-length"), inproc.get("content-length")) {
                if x != y {
                    return viol("differs-length", format!("over TCP {}\nin process {}\nto {}", tcp.show(), inproc.show(), q.show()));
                }
            }
            if q.method == "PUT" && tcp.ok() && !q.body.is_empty() {
                cx.label("stored");
            }
            done += 1;
        }
    }
    drop(conn);
    // it serves the root it was given: another service on that root shows the same as the twin
    d.kill();
    let here = S3Service::new(fs(&root)?);
    let there = S3Service::new(fs(&top.join("twin"))?);
    let mut qs = vec![ReqSpec::new("GET", "/"), ReqSpec::new("GET", "/bkt")];
    qs.extend(KEYS.iter().map(|k| ReqSpec::new("GET", &object_target("bkt", k))));
    for q in qs {
        let get = |s: &S3Service| crate::exec::block_on(call(s, q.build().map_err(Fail::Harness)?)).or_else(|e| viol("service-error", e));
        let (a, b) = (get(&here)?, get(&there)?);
        if essence(&a) != essence(&b) {
            return viol("root", format!("{} with {args:?} holds {}\nexpected {}\nfor {}", root.display(), a.show(), b.show(), q.show()));
        }
    }
    if done >= 3 {
        cx.nontrivial();
    }
    Ok(())
}
