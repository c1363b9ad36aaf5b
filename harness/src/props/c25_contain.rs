//! C25: hostile names. A tree with marked files outside the storage root, in another bucket and among the
//! internal files; requests naming bucket "bkt" with names that try to get there; after every request the
//! tree outside the bucket must be unchanged and no response may carry any of the marks.

use std::collections::BTreeMap;
use std::path::Path;

use crate::engine::*;
use crate::fsmodel::*;
use crate::http::*;
use crate::sigv4::md5_hex;
use crate::xmlmini::{self, escape_text};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// a path from inside the bucket to something it should not reach
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Name {
    /// leading noise, see NOISE
    pub noise: Vec<u8>,
    /// levels up from the bucket: 0 inside, 1 root, 2 and 3 outside
    pub ups: u8,
    /// index into the targets of that level
    pub target: u8,
    /// 0 "/", 1 "\\" between the segments, 2 "//", 3 "/./"
    pub sep: u8,
    /// 0.. none, 1 absolute path of the target, 2 NUL before the tail, 3 encoded once more, 4 trailing slash, 5 leading slash, 6 upper levels only
    pub twist: u8,
    /// percent-encoding style in paths and copy sources
    pub style: u8,
}

const NOISE: &[&str] = &["x/..", ".", "", "x/./..", "x/y/../..", "own/..", "...", "dir", "dir/..", "..."];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Get(Name, Option<u8>),
    Head(Name),
    Put(Name, bool),
    Form(Name),
    Delete(Name),
    MultiDelete(Vec<Name>),
    CopyFrom(Name, u8),
    CopyTo(Name),
    Upload(Name),
    /// an upload id that is a path or somebody else's
    PartWithId(Name, u8, i32),
    CompleteWithId(Name, u8),
    /// the bucket segment of the path is hostile; the number chooses the operation
    Bucket(Name, u8),
    List(Name, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
}

pub struct C25;

fn name() -> BoxedStrategy<Name> {
    let noise = prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(0_u8..10, 1..4)];
    let twist = prop_oneof![8 => Just(0_u8), 8 => 1_u8..7];
    let sep = prop_oneof![6 => Just(0_u8), 1 => 1_u8..4];
    let style = prop_oneof![3 => Just(0_u8), 3 => any::<u8>(), 2 => Just(2_u8), 2 => Just(10_u8)];
    (noise, prop_oneof![1 => Just(0_u8), 5 => Just(1_u8), 2 => Just(2_u8), 2 => Just(3_u8)], any::<u8>(), sep, twist, style)
        .prop_map(|(noise, ups, target, sep, twist, style)| Name { noise, ups, target, sep, twist, style })
        .boxed()
}

struct Stage {
    top: std::path::PathBuf,
    root: std::path::PathBuf,
    w: World,
    /// upload of bkt/own and of other/obj
    own_id: String,
    other_id: String,
    /// what must never show: mark and where it is
    marks: Vec<(String, String)>,
    lens: Vec<(u64, String)>,
    snap: BTreeMap<String, String>,
    protected: Vec<String>,
    internal: Vec<String>,
    /// values of legitimate writes are numbered
    n: u32,
}

fn snapshot(top: &Path) -> BTreeMap<String, String> {
    fn walk(dir: &Path, rel: &str, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = format!("{rel}/{}", e.file_name().to_string_lossy());
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if m.is_dir() {
                out.insert(name.clone(), "directory".into());
                walk(&p, &name, out);
            } else {
                let content = std::fs::read(&p).unwrap_or_default();
                out.insert(name, format!("{:?} {} bytes md5 {}", m.file_type().is_file(), content.len(), md5_hex(&content)));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(top, "", &mut out);
    out
}

const IN_BKT: &str = "/n1/n2/root/bkt";
const IN_ROOT: &str = "/n1/n2/root";

impl Stage {
    fn new(top: &Path) -> R<Option<Stage>> {
        let root = top.join("n1/n2/root");
        let mut w = World::new(&root)?;
        let wr = |p: &str, c: String| std::fs::write(top.join(p), c).map_err(|e| Stop::Fail(Fail::Harness(e.to_string())));
        let pad = |m: &str, n: usize| format!("{m}{}", "p".repeat(n - m.len()));
        std::fs::create_dir_all(top.join("n1/dir1")).map_err(|e| Fail::Harness(e.to_string()))?;
        std::fs::create_dir_all(top.join("n1/n2/dir2")).map_err(|e| Fail::Harness(e.to_string()))?;
        wr("n1/secret", pad("MARK-n1-secret", 7001))?;
        wr("n1/dir1/hid-MARK-name1", pad("MARK-n1-dir", 7003))?;
        wr("n1/n2/secret", pad("MARK-n2-secret", 7005))?;
        wr("n1/n2/dir2/hid-MARK-name2", pad("MARK-n2-dir", 7007))?;
        wr("n1/n2/root/plain", pad("MARK-root-plain", 7009))?;
        let meta = |m: &str| -> Meta { [("mark".to_owned(), m.to_owned())].into_iter().collect() };
        let lit = |s: String| Content::Lit(s.into_bytes());
        let f = Frag::whole();
        for b in ["bkt", "other"] {
            let r = w.req(&ReqSpec::new("PUT", &format!("/{b}")))?;
            if !r.ok() {
                return Ok(None);
            }
            w.model.insert(b.into(), BTreeMap::new());
        }
        w.put("other", "obj", How::Plain, &lit(pad("MARK-other-obj", 7011)), &meta("MARK-other-meta"), &f)?;
        w.put("other", "hidden-MARK-name3", How::Plain, &lit(pad("MARK-other-hidden", 7013)), &Meta::new(), &f)?;
        w.put("bkt", "own", How::Plain, &lit("own content".into()), &meta("ownmeta"), &f)?;
        w.put("bkt", "kept", How::Plain, &lit("kept content".into()), &meta("keptmeta"), &f)?;
        w.put("bkt", "dir/inner", How::Plain, &lit("inner content".into()), &Meta::new(), &f)?;
        w.initiate("bkt", "own", &Meta::new())?;
        w.part(0, 1, How::Plain, &lit(pad("MARK-own-part", 7015)), None)?;
        w.initiate("other", "obj", &meta("MARK-other-upload"))?;
        w.part(1, 1, How::Plain, &lit(pad("MARK-other-part", 7017)), None)?;
        let snap = snapshot(top);
        let mut marks: Vec<(String, String)> = vec![("MARK-".into(), "a marked file or name".into())];
        let mut lens = vec![];
        for (p, d) in &snap {
            if d != "directory" && !p.starts_with(IN_BKT) {
                let (_, md5) = d.rsplit_once(' ').unwrap();
                marks.push((md5.into(), format!("the MD5 of {p}")));
                let len = std::fs::metadata(top.join(&p[1..])).map(|m| m.len()).unwrap_or(0);
                lens.push((len, p.clone()));
            }
        }
        let protected: Vec<String> = snap.keys().filter(|p| !p.starts_with(&format!("{IN_BKT}/"))).cloned().collect();
        let internal: Vec<String> = protected.iter().filter_map(|p| p.strip_prefix("/n1/n2/root/")).filter(|p| p.starts_with('.') && !p.contains('/')).map(str::to_owned).collect();
        let (own_id, other_id) = (w.uploads[0].id.clone(), w.uploads[1].id.clone());
        // of the metadata files only that of "own" may change: its name can be spelled in ways that mean it
        let own_meta = internal.iter().find(|f| std::fs::read(root.join(f)).map_or(false, |c| String::from_utf8_lossy(&c).contains("ownmeta"))).cloned();
        let protected = protected.into_iter().filter(|p| own_meta.as_ref().map_or(true, |o| *p != format!("{IN_ROOT}/{o}"))).collect();
        Ok(Some(Stage { top: top.to_owned(), root, w, own_id, other_id, marks, lens, snap, protected, internal, n: 0 }))
    }

    fn raw(&self, n: &Name) -> String {
        let t = usize::from(n.target);
        let pick = |v: &[String]| v[t % v.len()].clone();
        let strs = |v: &[&str]| v.iter().map(|s| (*s).to_owned()).collect::<Vec<_>>();
        let target = match n.ups {
            0 => pick(&strs(&["own", "new", "dir/inner", "dir", ".", "..", ""])),
            1 => {
                let mut v = strs(&["other/obj", "other", "other/new", "plain", "new", "bkt/own", "", "bkt/../other/obj"]);
                v.extend(self.internal.iter().cloned());
                v.push(".tmp-new".into());
                v.push(format!(".upload_id-{}.part-2", self.own_id));
                pick(&v)
            }
            2 => pick(&strs(&["secret", "new", "dir2", "dir2/new", "root", "root/other/obj", ""])),
            _ => pick(&strs(&["secret", "new", "dir1", "n2", "n2/root/other/obj", "n2/secret", ""])),
        };
        let mut segs: Vec<String> = n.noise.iter().map(|i| NOISE[usize::from(*i) % NOISE.len()].to_owned()).collect();
        segs.extend((0..n.ups).map(|_| "..".to_owned()));
        segs.push(target.clone());
        let mut s = segs.join("/");
        if n.twist == 1 {
            let base = match n.ups {
                0 => self.root.join("bkt"),
                1 => self.root.clone(),
                2 => self.top.join("n1/n2"),
                _ => self.top.join("n1"),
            };
            s = base.join(&target).to_string_lossy().into_owned();
        }
        s = match n.sep % 4 {
            1 => s.replace('/', "\\"),
            2 => s.replace('/', "//"),
            3 => s.replace('/', "/./"),
            _ => s,
        };
        // an empty key would name the bucket
        let s = if s.is_empty() { ".".to_owned() } else { s };
        match n.twist {
            2 => format!("own\0/{s}"),
            3 => uri_encode(s.as_bytes(), true).replace('.', "%2E"),
            4 => format!("{s}/"),
            5 => format!("/{s}"),
            6 if s.contains('/') => s.trim_end_matches(|c| c != '/').to_owned(),
            _ => s,
        }
    }

    /// as part of a request target
    fn enc(&self, n: &Name) -> String {
        let raw = self.raw(n);
        let s = pct(raw.as_bytes(), n.style, n.style & 8 != 0);
        if s.starts_with('/') { format!("%2F{}", &s[1..]) } else { s }
    }

    /// what an unprotected resolution of the name would reach
    fn reaches(&self, key: &str) -> bool {
        let mut at: Vec<&str> = IN_BKT[1..].split('/').collect();
        for s in key.split('/') {
            match s {
                "" | "." => {}
                ".." => {
                    at.pop();
                }
                s => at.push(s),
            }
        }
        let p = format!("/{}", at.join("/"));
        self.snap.contains_key(&p) && !p.starts_with(&format!("{IN_BKT}/")) || key.starts_with(&*self.top.to_string_lossy())
    }

    fn send(&mut self, what: &str, q: &ReqSpec, from_other: bool) -> R<Resp> {
        let r = self.w.req(q)?;
        self.w.trace.push(format!("{what}: {} {} -> {}", q.method, q.target, r.status));
        let text = format!("{}{}", String::from_utf8_lossy(&r.body), r.headers.iter().map(|(n, v)| format!("{n}:{v}\n")).collect::<String>());
        // what the client sent itself may come back
        let sent = format!("{} {} {}", String::from_utf8_lossy(&pct_decode(&q.target)), String::from_utf8_lossy(&q.body), q.headers.iter().map(|h| h.1.clone()).collect::<String>());
        for (m, at) in &self.marks {
            if text.contains(m.as_str()) && !sent.contains(m.as_str()) && !from_other {
                return self.bad("revealed", format!("{what}: the response carries {at} ({m})\n{}{}", q.show(), r.show()));
            }
        }
        if r.ok() && q.method == "HEAD" {
            if let Some((_, p)) = self.lens.iter().find(|(l, _)| r.get("content-length") == Some(l.to_string().as_str())) {
                return self.bad("revealed-size", format!("{what}: the response carries the length of {p}\n{}{}", q.show(), r.show()));
            }
        }
        let now = snapshot(&self.top);
        for p in &self.protected {
            if now.get(p) != self.snap.get(p) {
                return self.bad("changed", format!("{what}: {p} was {:?} and is now {:?}\n{}{}", self.snap.get(p), now.get(p), q.show(), r.show()));
            }
        }
        for (p, d) in &now {
            let internal = p.strip_prefix("/n1/n2/root/").map_or(false, |n| n.starts_with('.') && !n.contains('/') && d != "directory");
            if !self.snap.contains_key(p) && !p.starts_with(&format!("{IN_BKT}/")) && !internal {
                return self.bad("created", format!("{what}: {p} came into being ({d})\n{}{}", q.show(), r.show()));
            }
        }
        Ok(r)
    }

    fn bad<T>(&self, sig: &str, msg: String) -> R<T> {
        Err(Stop::Fail(Fail::Violation { sig: sig.into(), msg: format!("{msg}\nrequests so far:\n  {}", self.w.trace.join("\n  ")) }))
    }

    fn id(&self, n: &Name, kind: u8) -> String {
        match kind % 6 {
            0 => self.other_id.clone(),
            1 => self.raw(n),
            2 => format!("x/{}", self.raw(n)),
            3 => format!("{}/../{}", self.own_id, self.raw(n)),
            4 => format!("{}/{}", self.own_id, self.raw(n)),
            _ => self.other_id.to_uppercase(),
        }
    }

    fn op(&mut self, op: &Op) -> R<()> {
        self.n += 1;
        let body = format!("new content {}", self.n);
        let listed = |ns: &[i32]| complete_xml(ns, |_| None);
        match op {
            Op::Get(n, range) => {
                let mut q = ReqSpec::new("GET", &format!("/bkt/{}", self.enc(n)));
                if let Some(r) = range {
                    q = q.header("range", format!("bytes={r}-"));
                }
                self.send("get", &q, false)?;
            }
            Op::Head(n) => {
                self.send("head", &ReqSpec::new("HEAD", &format!("/bkt/{}", self.enc(n))), false)?;
            }
            Op::Put(n, meta) => {
                let mut q = ReqSpec::new("PUT", &format!("/bkt/{}", self.enc(n))).body(body.clone());
                q.set("content-length", body.len().to_string());
                if *meta {
                    q = q.header("x-amz-meta-m", "v");
                }
                self.send("put", &q, false)?;
            }
            Op::Form(n) => {
                let k = self.raw(n);
                let q = put_request(How::Form, "bkt", &k, body.as_bytes(), &Meta::new(), &Frag::whole());
                self.send("form upload", &q, false)?;
            }
            Op::Delete(n) => {
                self.send("delete", &ReqSpec::new("DELETE", &format!("/bkt/{}", self.enc(n))), false)?;
            }
            Op::MultiDelete(ns) => {
                let x = format!("<Delete>{}</Delete>", ns.iter().map(|n| format!("<Object><Key>{}</Key></Object>", escape_text(&self.raw(n)))).collect::<String>());
                self.send("multi-delete", &ReqSpec::new("POST", "/bkt?delete").body(x), false)?;
            }
            Op::CopyFrom(n, pre) => {
                // the source names bkt, or nothing that is a bucket
                let e = self.enc(n);
                let src = match pre % 6 {
                    0 | 1 => format!("bkt/{e}"),
                    2 => format!("/bkt/{e}"),
                    3 => format!("bkt%2F{e}"),
                    4 => e,
                    _ => format!("./{e}"),
                };
                let from_other = pct_decode(&src).strip_prefix(b"/").map_or_else(|| pct_decode(&src), <[u8]>::to_vec).starts_with(b"other/");
                if from_other {
                    return Ok(());
                }
                self.send("copy from", &ReqSpec::new("PUT", &format!("/bkt/copied{}", self.n)).header("x-amz-copy-source", src), false)?;
                self.send("read the copy", &ReqSpec::new("GET", &format!("/bkt/copied{}", self.n)), false)?;
            }
            Op::CopyTo(n) => {
                self.send("copy to", &ReqSpec::new("PUT", &format!("/bkt/{}", self.enc(n))).header("x-amz-copy-source", "bkt/kept"), false)?;
            }
            Op::Upload(n) => {
                let k = self.enc(n);
                let r = self.send("start upload", &ReqSpec::new("POST", &format!("/bkt/{k}?uploads")).header("x-amz-meta-m", "v"), false)?;
                if let Some(id) = xmlmini::parse(&r.body).ok().filter(|_| r.ok()).and_then(|n| n.text_of("UploadId").map(str::to_owned)) {
                    let id = uri_encode(id.as_bytes(), true);
                    let mut q = ReqSpec::new("PUT", &format!("/bkt/{k}?partNumber=1&uploadId={id}")).body(body.clone());
                    q.set("content-length", body.len().to_string());
                    self.send("part", &q, false)?;
                    self.send("complete", &ReqSpec::new("POST", &format!("/bkt/{k}?uploadId={id}")).body(listed(&[1])), false)?;
                }
            }
            Op::PartWithId(n, kind, no) => {
                let id = uri_encode(self.id(n, *kind).as_bytes(), true);
                let mut q = ReqSpec::new("PUT", &format!("/bkt/own?partNumber={no}&uploadId={id}")).body(body.clone());
                q.set("content-length", body.len().to_string());
                self.send("part with id", &q, false)?;
            }
            Op::CompleteWithId(n, kind) => {
                let id = uri_encode(self.id(n, *kind).as_bytes(), true);
                let k = if kind & 64 != 0 { "own" } else { "obj" };
                self.send("complete with id", &ReqSpec::new("POST", &format!("/bkt/{k}?uploadId={id}")).body(listed(&[1])), false)?;
                self.send("read it", &ReqSpec::new("GET", &format!("/bkt/{k}")), false)?;
            }
            Op::Bucket(n, kind) => {
                let mut e = self.enc(n);
                // never the plain name of a bucket
                if matches!(pct_decode(&e).iter().map(|b| *b as char).collect::<String>().trim_start_matches('/').split('/').next(), Some("other" | "bkt" | "new" | "plain" | "secret" | "dir1" | "dir2" | "root" | "n2" | "own" | "dir" | "...")) {
                    e = format!("..%2f{e}");
                }
                let q = match kind % 8 {
                    0 => ReqSpec::new("PUT", &format!("/{e}")),
                    1 => ReqSpec::new("DELETE", &format!("/{e}")),
                    2 => ReqSpec::new("GET", &format!("/{e}")),
                    3 => ReqSpec::new("GET", &format!("/{e}?list-type=2")),
                    4 => ReqSpec::new("HEAD", &format!("/{e}")),
                    5 => ReqSpec::new("PUT", &format!("/{e}/obj")).body(body),
                    6 => ReqSpec::new("GET", &format!("/{e}/obj")),
                    _ => ReqSpec::new("DELETE", &format!("/{e}/obj")),
                };
                self.send("hostile bucket", &q, false)?;
            }
            Op::List(n, v2) => {
                let q = ReqSpec::new("GET", &format!("/bkt?{}prefix={}", if *v2 { "list-type=2&" } else { "" }, uri_encode(self.raw(n).as_bytes(), true)));
                self.send("list", &q, false)?;
            }
        }
        Ok(())
    }
}

impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "at least one name used would, if resolved as a path from the bucket, reach an existing file or directory outside of it";
    const SHRINK_ITERS: u32 = 800;
    fn strategy(&self, t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            3 => (name(), prop::option::weighted(0.2, any::<u8>())).prop_map(|(n, r)| Op::Get(n, r)),
            1 => name().prop_map(Op::Head),
            3 => (name(), any::<bool>()).prop_map(|(n, m)| Op::Put(n, m)),
            2 => name().prop_map(Op::Form),
            3 => name().prop_map(Op::Delete),
            2 => prop::collection::vec(name(), 1..4).prop_map(Op::MultiDelete),
            3 => (name(), any::<u8>()).prop_map(|(n, p)| Op::CopyFrom(n, p)),
            2 => name().prop_map(Op::CopyTo),
            2 => name().prop_map(Op::Upload),
            2 => (name(), any::<u8>(), prop_oneof![4 => 1_i32..3, 1 => -2_i32..1]).prop_map(|(n, k, p)| Op::PartWithId(n, k, p)),
            2 => (name(), any::<u8>()).prop_map(|(n, k)| Op::CompleteWithId(n, k)),
            2 => (name(), any::<u8>()).prop_map(|(n, k)| Op::Bucket(n, k)),
            1 => (name(), any::<bool>()).prop_map(|(n, v)| Op::List(n, v)),
        ];
        prop::collection::vec(op, 1..if t == Tier::Thorough { 24 } else { 10 }).prop_map(|ops| Case { ops }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 200_000 } else { 15000 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let top = cx.dir.join(format!("t{}", cx.case_no));
        let res = go(c, &top, cx);
        let _ = std::fs::remove_dir_all(&top);
        res
    }
}

fn go(c: &Case, top: &Path, cx: &mut Cx) -> PResult {
    let mut s = match Stage::new(top) {
        Ok(Some(s)) => s,
        Err(Stop::Fail(f)) => return Err(f),
        Ok(None) | Err(Stop::Div(..)) => {
            cx.label("setup failed");
            return Ok(());
        }
    };
    for op in &c.ops {
        let names: Vec<&Name> = match op {
            Op::MultiDelete(v) => v.iter().collect(),
            Op::Get(n, _) | Op::Head(n) | Op::Put(n, _) | Op::Form(n) | Op::Delete(n) | Op::CopyFrom(n, _) | Op::CopyTo(n) | Op::Upload(n) | Op::PartWithId(n, ..) | Op::CompleteWithId(n, _) | Op::Bucket(n, _) | Op::List(n, _) => vec![n],
        };
        if names.iter().any(|n| s.reaches(&s.raw(n))) {
            cx.nontrivial();
        }
        cx.label(format!("{op:?}").split('(').next().unwrap_or("").to_owned());
        match s.op(op) {
            Ok(()) => {}
            Err(Stop::Fail(f)) => return Err(f),
            Err(Stop::Div(..)) => return Ok(()),
        }
    }
    Ok(())
}
