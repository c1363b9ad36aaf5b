//! C09: the storage call caused by a request, compared with the call the API reference prescribes.

use crate::engine::*;
use crate::http::Content;
use crate::mock::one_shot;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub intent: Intent,
    pub spelling: Spelling,
    /// replaces the value of this typed member by text that is no value of its type
    pub malform: Option<(usize, String)>,
    /// damages the XML body
    pub bad_xml: Option<u8>,
}

pub struct C09;

fn bad_text(ty: Ty) -> BoxedStrategy<String> {
    match ty {
        Ty::Bool => prop_oneof![Just("yes"), Just("1"), Just("tru"), Just("falsee"), Just("0"), Just("true false")].prop_map(str::to_owned).boxed(),
        _ => prop_oneof![Just("abc"), Just("1.5"), Just("1e3"), Just("99999999999999999999"), Just("--1"), Just("0x10"), Just("1_000"), Just("1,2"), Just("9223372036854775808")].prop_map(str::to_owned).boxed(),
    }
}

fn case_of(op: usize) -> BoxedStrategy<Case> {
    let typed: Vec<usize> = OPS[op].params.iter().enumerate().filter(|(_, p)| matches!(p.ty, Ty::I64 | Ty::Bool | Ty::NeedI64 | Ty::Len)).map(|(i, _)| i).collect();
    let mal: BoxedStrategy<Option<(usize, String)>> = if typed.is_empty() {
        Just(None).boxed()
    } else {
        prop_oneof![
            5 => Just(None),
            1 => prop::sample::select(typed).prop_flat_map(move |i| bad_text(OPS[op].params[i].ty).prop_map(move |t| Some((i, t)))),
        ]
        .boxed()
    };
    let bx = if matches!(OPS[op].body, BodyKind::Delete | BodyKind::Complete | BodyKind::Config) { prop_oneof![5 => Just(None), 1 => (0_u8..12).prop_map(Some)].boxed() } else { Just(None).boxed() };
    (intent_of(op, crate::http::content_small()), spelling(), mal, bx).prop_map(|(intent, spelling, malform, bad_xml)| Case { intent, spelling, malform, bad_xml }).boxed()
}

/// None when the damage does not certainly make the document invalid
fn damage(body: &[u8], k: u8) -> Option<Vec<u8>> {
    let s = String::from_utf8(body.to_vec()).ok()?;
    let first = s.find(|c| c == '<').filter(|_| !s.is_empty())?;
    let out: String = match k {
        // ends in the middle
        0 => s[..s.rfind("</")?].to_owned(),
        1 => s[..s.rfind("</")? + 3].to_owned(),
        2 => "this is not xml".into(),
        3 => "{\"Delete\":{}}".into(),
        // a closing tag is replaced
        4 => s.replacen("</Object>", "</Objekt>", 1).replacen("</Part>", "</Pert>", 1).replacen("</LocationConstraint>", "</Location>", 1),
        // typed members
        5 => s.replacen("<Quiet>true<", "<Quiet>maybe<", 1).replacen("<Quiet>false<", "<Quiet>2<", 1),
        6 => {
            let i = s.find("<PartNumber>")? + 12;
            format!("{}x{}", &s[..i], &s[i..])
        }
        7 => {
            let i = s.find("</PartNumber>")?;
            format!("{}.5{}", &s[..i], &s[i..])
        }
        // an unknown entity
        8 => {
            let i = s.find("<Key>")? + 5;
            if s[i..].starts_with("<![") {
                return None;
            }
            format!("{}&nosuch;{}", &s[..i], &s[i..])
        }
        // an object without its key
        9 => {
            let i = s.find("<Object>")? + 8;
            let j = s[i..].find("</Object>")? + i;
            format!("{}<VersionId>1</VersionId>{}", &s[..i], &s[j..])
        }
        // two keys in one object
        10 => {
            let i = s.find("<Object>")? + 8;
            format!("{}<Key>zzz</Key>{}", &s[..i], &s[i..])
        }
        // no end of the last tag
        _ => {
            let _ = first;
            s[..s.rfind('>')?].to_owned()
        }
    };
    Some(out.into_bytes())
}

impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "the request carries at least two members besides bucket and key, or a malformed member or body, or a key or spelling that needs percent-encoding";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "header values are printable ASCII without leading or trailing spaces; duplicate headers and duplicate query parameters are not generated",
        "the wire names of request members are those of the AWS API reference, transcribed in ops.rs",
    ];
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        prop::strategy::Union::new_weighted((0..OPS.len()).map(|i| (1 + OPS[i].params.len() as u32 / 4, case_of(i))).collect::<Vec<_>>()).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 1_500_000 }
    }
    fn directed(&self, _t: Tier) -> Vec<Case> {
        // every member of every operation alone
        let mut v = vec![];
        for (oi, o) in OPS.iter().enumerate() {
            let base = Intent {
                op: oi,
                bucket: if o.level == Level::Root { "".into() } else { "some-bucket".into() },
                key: if o.level == Level::Object { "dir/some key".into() } else { "".into() },
                vals: Default::default(),
                meta: Default::default(),
                content: Content::Lit(if o.body == BodyKind::Raw { b"hello".to_vec() } else { vec![] }),
                xml: match o.body {
                    BodyKind::Delete => XmlVal::Delete { objects: vec![("a".into(), None), ("b".into(), Some("v".into()))], quiet: None },
                    BodyKind::Complete => XmlVal::Complete { parts: vec![(Some("\"e\"".into()), Some(1)), (None, Some(2))] },
                    _ => XmlVal::None,
                },
            };
            let val = |p: &Param| match p.ty {
                Ty::Str | Ty::NeedStr => "Value-1".to_string(),
                Ty::Mime => "text/plain".into(),
                Ty::I64 | Ty::NeedI64 => "7".into(),
                Ty::Bool => "true".into(),
                Ty::Len => "5".into(),
                Ty::CopySource => "other-bucket/a/b".into(),
            };
            let mut need = base.clone();
            for (k, p) in o.params.iter().enumerate() {
                if matches!(p.ty, Ty::NeedStr | Ty::NeedI64 | Ty::CopySource) {
                    need.vals.insert(k, val(p));
                }
            }
            let mk = |i: Intent| Case { intent: i, spelling: Spelling::plain(), malform: None, bad_xml: None };
            v.push(mk(need.clone()));
            for (k, p) in o.params.iter().enumerate() {
                let mut i = need.clone();
                i.vals.insert(k, val(p));
                v.push(mk(i));
            }
            if o.meta {
                let mut i = need.clone();
                i.meta.insert("color".into(), "Dark Blue".into());
                v.push(mk(i));
                // 2 KB of metadata in many and in few entries
                let mut i = need.clone();
                i.meta = (0..90).map(|n| (format!("n-{n}"), format!("value {n}"))).collect();
                v.push(mk(i.clone()));
                i.meta = [("long".to_owned(), "v".repeat(1900)), ("x".repeat(90), "w".into())].into();
                v.push(mk(i));
            }
            // the longest key, long values, and documents of the largest size the protocol allows
            if o.level == Level::Object {
                let mut i = need.clone();
                i.key = "é".repeat(512);
                v.push(mk(i));
            }
            for (k, p) in o.params.iter().enumerate() {
                if matches!(p.ty, Ty::Str) {
                    let mut i = need.clone();
                    i.vals.insert(k, "v+/=é ".repeat(if matches!(p.loc, Loc::Q) { 150 } else { 0 }) + &"0aZ".repeat(300));
                    v.push(mk(i));
                }
            }
            let long = match o.body {
                BodyKind::Delete => Some(XmlVal::Delete { objects: (0..1000).map(|n| (format!("{n}/{}", "k&".repeat(500)), Some("v".repeat(100)))).collect(), quiet: Some(false) }),
                BodyKind::Complete => Some(XmlVal::Complete { parts: (1..=10_000).map(|n| (Some(format!("\"{n:032x}\"")), Some(n))).collect() }),
                _ => None,
            };
            if let Some(xml) = long {
                v.push(mk(Intent { xml, ..need.clone() }));
            }
            if o.body == BodyKind::Raw {
                v.push(mk(Intent { content: Content::Gen { len: 9 << 20, seed: 1 }, ..need.clone() }));
            }
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let op = c.intent.op();
        let mut i = c.intent.clone();
        if let Some((n, t)) = &c.malform {
            i.vals.insert(*n, t.clone());
        }
        let mut r = spell(&i, &c.spelling);
        if let Some(k) = c.bad_xml {
            match damage(&r.body, k) {
                Some(b) if b != r.body => r.body = b,
                _ => return Ok(()),
            }
        }
        cx.label(op.name);
        let (resp, calls) = one_shot(None, &r)?;
        if c.malform.is_some() || c.bad_xml.is_some() {
            cx.label(if c.malform.is_some() { "malformed member" } else { "malformed body" });
            cx.nontrivial();
            let what = match &c.malform {
                Some((n, _)) => op.params[*n].name.to_string(),
                None => format!("xml-{}", c.bad_xml.unwrap()),
            };
            if !calls.is_empty() {
                return viol(format!("malformed-accepted:{}:{}", op.name, what), format!("a malformed {what} reached the storage\n{}{}", r.show(), crate::mock::show_calls(&calls)));
            }
            if !(400..500).contains(&resp.status) {
                return viol(format!("malformed-status:{}:{}", op.name, what), format!("a malformed {what} must be answered with a client error\n{}{}", r.show(), resp.show()));
            }
            return Ok(());
        }
        if i.vals.len() + i.meta.len() >= 2 || r.target.contains('%') || op.body != BodyKind::None {
            cx.nontrivial();
        }
        let want = i.expected();
        if calls != [want.clone()] {
            let field = first_diff(&want.input, calls.first().map(|c| c.input.as_str()).unwrap_or(""));
            return viol(
                format!("input:{}:{}", op.name, field),
                format!("{}{}\nresponse: {}", r.show(), diff_calls(&[want], &calls).unwrap_or_default(), resp.show()),
            );
        }
        if !resp.ok() {
            return viol(format!("status:{}", op.name), format!("the storage answered but the response is not a success\n{}{}", r.show(), resp.show()));
        }
        Ok(())
    }
}

/// name of the first differing field of two Debug texts
fn first_diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let head: String = a.as_bytes()[..n.min(a.len())].iter().map(|&b| b as char).collect();
    let f = head.rsplit(", ").next().unwrap_or("");
    let f = f.rsplit("{ ").next().unwrap_or("");
    f.split(':').next().unwrap_or("").chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').take(40).collect()
}
