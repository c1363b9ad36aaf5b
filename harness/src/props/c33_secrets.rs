//! C33: secret keys, and signatures that the client does not have, appear nowhere: not in an answer, not in what the
//! service logs at any level, not in the Debug text of its parts, not in what the program prints.

use super::auth_gen::{alt, alter, base, buildable, Alt, Base};
use super::form::{b64, form, Form};
use crate::daemon::{exe, fresh_addr, send as tcp_send};
use crate::engine::*;
use crate::mock::{send, simple_auth, Mock};
use crate::sigv4::*;
use crate::http::ReqSpec;
use proptest::prelude::*;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Header,
    Presigned,
    Form(Box<Form>),
    /// a chunk of a signed chunked body is altered: which, where and how
    Chunk(u8, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub base: Base,
    pub kind: Kind,
    pub alts: Vec<Alt>,
    /// what the client signs with instead
    pub wrong_secret: Option<String>,
    /// the form's signature is replaced
    pub break_form: bool,
    /// the answer of the storage is an internal error
    pub storage_fails: bool,
    /// on the program: which of the two options are given
    pub program: Option<(bool, bool)>,
}

pub struct C33;

/// everything that is logged, in one text
#[derive(Clone, Default)]
struct Recorder(Arc<Mutex<String>>);

struct Text<'a>(&'a mut String);
impl tracing::field::Visit for Text<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, " {}={v:?}", f.name());
        let _ = write!(self.0, " {v:#?}");
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        let _ = write!(self.0, " {}={v}", f.name());
    }
    fn record_error(&mut self, f: &tracing::field::Field, v: &(dyn std::error::Error + 'static)) {
        let _ = write!(self.0, " {}={v} {v:?}", f.name());
    }
}

impl tracing::Subscriber for Recorder {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Text(&mut self.0.lock().unwrap()));
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Text(&mut self.0.lock().unwrap()));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = self.0.lock().unwrap();
        e.record(&mut Text(&mut t));
        t.push('\n');
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// (what it is, its text): nothing of this may be shown
type Hidden = Vec<(String, String)>;

fn forms_of(what: &str, b: &[u8]) -> Hidden {
    use base64_simd::{STANDARD, URL_SAFE_NO_PAD};
    let mut v = vec![
        (format!("{what}, base64"), STANDARD.encode_to_string(b)),
        (format!("{what}, base64 for URLs"), URL_SAFE_NO_PAD.encode_to_string(b)),
        (format!("{what}, hexadecimal"), hex(b)),
        (format!("{what}, upper-case hexadecimal"), hex(b).to_uppercase()),
        (format!("{what}, as a list of bytes"), b.iter().map(u8::to_string).collect::<Vec<_>>().join(", ")),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push((what.to_owned(), s.to_owned()));
        v.push((format!("{what}, percent-encoded"), crate::http::uri_encode(b, true)));
    }
    v
}

fn hidden(c: &Case, r: &ReqSpec) -> Hidden {
    let mut v = vec![];
    for (a, s) in &c.base.keys {
        v.extend(forms_of(&format!("the secret key of {a}"), s.as_bytes()));
    }
    let cred = c.base.cred();
    let parts: Vec<String> = match &c.kind {
        Kind::Form(f) => f.cred().scope().split('/').map(str::to_owned).collect(),
        _ => cred.scope().split('/').map(str::to_owned).collect(),
    };
    for (a, s) in &c.base.keys {
        // the keys derived on the way, and what the signature should have been
        let k1 = hmac(format!("AWS4{s}").as_bytes(), parts[0].as_bytes());
        let k2 = hmac(&k1, parts[1].as_bytes());
        let k3 = hmac(&k2, b"s3");
        let k4 = hmac(&k3, b"aws4_request");
        for (n, k) in [&k1, &k2, &k3, &k4].into_iter().enumerate() {
            v.extend(forms_of(&format!("signing key {} of {a}", n + 1), k));
        }
    }
    if let Kind::Form(f) = &c.kind {
        let sig = post_signature(&f.cred(), &b64(&f.policy()));
        v.push(("the signature that the policy should have".into(), sig));
    }
    for sig in expected_signatures(r, &c.base.keys) {
        v.push(("the signature that the request should have".into(), sig.to_uppercase()));
        v.push(("the signature that the request should have".into(), sig));
    }
    v
}

fn check(hidden: &Hidden, known: &str, place: &str, text: &str, r: &ReqSpec) -> PResult {
    for (what, t) in hidden {
        // what the client itself has sent may come back
        if t.len() >= 16 && text.contains(t.as_str()) && !known.contains(t.as_str()) {
            let at = text.find(t.as_str()).unwrap_or(0);
            let from = text[..at].char_indices().rev().nth(150).map_or(0, |x| x.0);
            let to = text[at..].char_indices().nth(t.len() + 60).map_or(text.len(), |x| at + x.0);
            return viol(format!("shown:{place}"), format!("{what} ({t}) appears in {place}: ...{}...\n{}", &text[from..to], r.show()));
        }
    }
    Ok(())
}

fn shown(resp: &crate::http::Resp) -> String {
    let mut t = String::new();
    for (n, v) in &resp.headers {
        let _ = writeln!(t, "{n}: {v}");
    }
    t.push_str(&String::from_utf8_lossy(&resp.body));
    t
}

/// everything the client has sent, raw and decoded
fn sent(r: &ReqSpec) -> String {
    let mut t = r.target.clone();
    t.push_str(&String::from_utf8_lossy(&crate::http::pct_decode(&r.target)));
    for (n, v) in &r.headers {
        let _ = write!(t, "\n{n}: {v}");
    }
    t.push('\n');
    t.push_str(&String::from_utf8_lossy(&r.body));
    t
}

impl Prop for C33 {
    type Case = Case;
    const ID: &'static str = "C33";
    const RULE: &'static str = "signed requests (Authorization header, presigned URL, form, chunked body), correct, altered or signed with a wrong secret, answered by a service whose every log event and span is recorded, and by the server program at its most talkative log setting; non-trivial = the server looked a secret up (the access key is registered and the request is signed)";
    const ASSUMPTIONS: &'static [&'static str] = &["secrets of 20 to 60 characters; a text counts as disclosed when it appears literally or in hexadecimal, base64, percent-encoded or as a list of bytes, and the client has not sent it itself", "timing and memory are not observed"];
    const SHRINK_ITERS: u32 = 1000;
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 400_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let secret = || prop_oneof![3 => "[A-Za-z0-9/+]{40}", 1 => "[A-Za-z0-9]{20,60}", 1 => "[!-~]{24,40}"];
        let kind = prop_oneof![3 => Just(Kind::Header), 3 => Just(Kind::Presigned), 2 => form().prop_map(|f| Kind::Form(Box::new(f))), 2 => (any::<u8>(), any::<u16>(), 1_u8..=255).prop_map(|(a, b, c)| Kind::Chunk(a, b, c))];
        let alts = prop_oneof![3 => Just(vec![]), 4 => prop::collection::vec(alt(), 1..2), 1 => prop::collection::vec(alt(), 2..4)];
        let program = prop_oneof![400 => Just(None), 1 => Just(Some((true, true))), 1 => (any::<bool>(), any::<bool>()).prop_map(Some)];
        (base(true), prop::collection::vec(secret(), 5), kind, alts, prop::option::weighted(0.3, secret()), any::<bool>(), prop::bool::weighted(0.15), program)
            .prop_map(|(mut base, secrets, mut kind, alts, wrong_secret, break_form, storage_fails, program)| {
                for (k, s) in base.keys.iter_mut().zip(secrets) {
                    k.1 = s;
                }
                if let Kind::Form(f) = &mut kind {
                    f.keys = base.keys.clone();
                }
                if matches!(kind, Kind::Chunk(..)) {
                    let op = crate::ops::op_index("PutObject");
                    base.intent.op = op;
                    base.intent.vals.clear();
                    base.mode = PayloadMode::Streaming;
                }
                Case { base, kind, alts, wrong_secret, break_form, storage_fails, program }
            })
            .boxed()
    }
    fn directed(&self, _: Tier) -> Vec<Case> {
        // (the program cases are made from a fixed plain request)
        let mut v = vec![];
        let keys = vec![("AKIAEXAMPLE".to_owned(), "wJalrXUtnFEMI/K7MDENG/bPxRfiCYEXAMPLEKEY".to_owned())];
        let mut runner = proptest::test_runner::TestRunner::deterministic();
        for p in [(true, true), (true, false), (false, true)] {
            if let Ok(t) = base(false).new_tree(&mut runner) {
                let mut b = proptest::strategy::ValueTree::current(&t);
                b.keys = keys.clone();
                b.mode = PayloadMode::Signed;
                v.push(Case { base: b, kind: Kind::Header, alts: vec![], wrong_secret: None, break_form: false, storage_fails: false, program: Some(p) });
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let mut signer = c.base.clone();
        let who = usize::from(signer.who) % signer.keys.len();
        if let Some(w) = &c.wrong_secret {
            signer.keys[who].1 = w.clone();
        }
        let mut r = match &c.kind {
            Kind::Header => signer.signed(),
            Kind::Presigned => signer.presigned(chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string(), "3600"),
            Kind::Form(f) => {
                let fw = usize::from(f.who) % f.keys.len();
                let mut g = (**f).clone();
                if let Some(w) = &c.wrong_secret {
                    g.keys[fw].1 = w.clone();
                }
                let mut auth = g.auth_fields(&b64(&g.policy()), &g.cred());
                if c.break_form {
                    if let Some(x) = auth.last_mut() {
                        x.1 = "0".repeat(64);
                    }
                }
                g.request(&g.shuffled([g.fields(), auth].concat())).0
            }
            Kind::Chunk(..) => signer.signed(),
        };
        let mut more: Hidden = vec![];
        if let Kind::Chunk(n, at, x) = &c.kind {
            // encoded again with one chunk altered after it was signed
            let seed = r.get("authorization").and_then(|a| a.rsplit("Signature=").next().map(str::to_owned)).unwrap_or_default();
            let plain = signer.unsigned().body;
            let chunks = super::auth_gen::split(&plain, &c.base.chunks);
            let mut enc = encode_chunks(&signer.cred(), &seed, &chunks, false);
            let n = usize::from(*n) % enc.len();
            if enc[n].data.is_empty() {
                enc[n].sig = "0".repeat(64);
            } else {
                let k = usize::from(*at) % enc[n].data.len();
                enc[n].data[k] ^= *x;
            }
            let prev = if n == 0 { seed } else { enc[n - 1].sig.clone() };
            let right = chunk_signature(&c.base.cred(), &prev, &enc[n].data);
            more.push(("the signature that the altered chunk should have".into(), right));
            r.body = enc.iter().flat_map(|e| e.bytes()).collect();
        } else {
            for a in &c.alts {
                alter(&mut r, a, &c.base.keys);
            }
        }
        r.fail_after = None;
        if !buildable(&r) {
            cx.label("not representable");
            return Ok(());
        }
        if let Some(p) = c.program {
            return program(c, p, &r, cx);
        }
        let mut hide = hidden(c, &r);
        hide.extend(more);
        let known = sent(&r);

        let log = Recorder::default();
        let mock = Mock::default();
        if c.storage_fails {
            mock.script(crate::mock::Out::Err(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::InternalError, "the storage failed")));
        }
        let resp = tracing::subscriber::with_default(log.clone(), || -> Result<_, Fail> {
            let auth = simple_auth(&c.base.keys);
            log.0.lock().unwrap().push_str(&format!("{auth:?}\n{auth:#?}\n"));
            let mut svc = S3Service::new(mock.clone());
            svc.set_auth(auth);
            log.0.lock().unwrap().push_str(&format!("{svc:?}\n"));
            let shared = svc.into_shared();
            log.0.lock().unwrap().push_str(&format!("{shared:?}\n"));
            send(&shared, &r)
        })?;
        let log = log.0.lock().unwrap().clone();
        let looked_up = r.query().map_or(false, |q| q.contains("X-Amz-Signature")) || r.get("authorization").is_some() || matches!(c.kind, Kind::Form(_));
        if looked_up {
            cx.nontrivial();
        }
        cx.label(format!("{} {}", match &c.kind { Kind::Header => "header", Kind::Presigned => "presigned", Kind::Form(_) => "form", Kind::Chunk(..) => "chunk" }, if resp.ok() { "accepted" } else { "refused" }));
        check(&hide, &known, "the answer", &shown(&resp), &r)?;
        check(&hide, &known, "the log", &log, &r)?;
        for call in mock.take() {
            check(&hide, &known, "the storage call", &call.input, &r)?;
        }
        Ok(())
    }
}

/// the program with everything it can print
fn program(c: &Case, (access, secret): (bool, bool), r: &ReqSpec, cx: &mut Cx) -> PResult {
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let dir = cx.dir.join(format!("p{}", cx.case_no));
    std::fs::create_dir_all(dir.join("root")).map_err(io)?;
    let addr = fresh_addr();
    let (a, s) = &c.base.keys[usize::from(c.base.who) % c.base.keys.len()];
    let out = dir.join("out");
    let f = std::fs::File::create(&out).map_err(io)?;
    let mut cmd = Command::new(exe()?);
    cmd.arg("--fs-root").arg(dir.join("root")).arg("--host").arg(addr.ip().to_string()).arg("--port").arg(addr.port().to_string());
    if access {
        cmd.arg(format!("--access-key={a}"));
    }
    if secret {
        cmd.arg(format!("--secret-key={s}"));
    }
    cmd.current_dir(&dir).env_clear().env("PATH", "/usr/bin:/bin").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "1").stdin(Stdio::null()).stdout(f.try_clone().map_err(io)?).stderr(f);
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(io)?;
    let t = std::time::Instant::now();
    let mut served = false;
    while t.elapsed().as_secs() < 20 {
        if child.try_wait().map_err(io)?.is_some() {
            break;
        }
        if std::net::TcpStream::connect(addr).is_ok() {
            served = true;
            let _ = tcp_send(&addr, &ReqSpec::new("PUT", "/bkt"), false);
            let _ = tcp_send(&addr, r, false);
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let _ = child.kill();
    let _ = child.wait();
    let text = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_dir_all(&dir);
    cx.label(if served { "program served" } else { "program refused its options" });
    if secret {
        cx.nontrivial();
        check(&hidden(c, r), &sent(r), "the output of the program", &text, r)?;
    }
    Ok(())
}
