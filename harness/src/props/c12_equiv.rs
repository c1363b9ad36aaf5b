//! C12: two spellings of the same request must have the same effect and the same response (metamorphic; no
//! model of the operation is involved).

use crate::engine::*;
use crate::mock::one_shot;
use crate::ops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub intent: Intent,
    pub a: Spelling,
    pub b: Spelling,
    /// second request in absolute form
    pub absolute: bool,
    pub host: Option<String>,
    /// the storage fails
    pub fail: bool,
}

pub struct C12;

impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "the two wire forms of the request differ";
    const ASSUMPTIONS: &'static [&'static str] = &["header values keep their exact text in both spellings; duplicate headers and parameters are not generated"];
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        (intent(), spelling(), spelling(), any::<bool>(), prop::option::of("[a-z]{1,8}(\\.[a-z]{2,5})?(:[1-9][0-9]{1,3})?"), prop::bool::weighted(0.15))
            .prop_map(|(intent, mut a, b, absolute, host, fail)| {
                // the meaningless additions belong to the request, not to its spelling
                a.extra_q = b.extra_q.clone();
                a.extra_h = b.extra_h.clone();
                Case { intent, a, b, absolute, host, fail }
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 1_500_000 }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let mut sa = c.a.clone();
        let mut sb = c.b.clone();
        // the XML spelling is content, not transport
        sa.xml_style = sb.xml_style;
        sb.pad = 0;
        sa.pad = 0;
        let mut ra = spell(&c.intent, &sa);
        let mut rb = spell(&c.intent, &sb);
        if let Some(h) = &c.host {
            ra.headers.push(("host".into(), h.clone()));
            rb.headers.push(("Host".into(), h.clone()));
            if c.absolute {
                rb.target = format!("http://{h}{}", rb.target);
                cx.label("absolute form");
            }
        }
        let go = |r: &crate::http::ReqSpec| {
            if c.fail {
                let (svc, mock) = crate::mock::service(None);
                mock.script(crate::mock::Out::Err(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::SlowDown, "busy <&>")));
                let resp = crate::mock::send(&svc, r)?;
                Ok((resp, mock.take()))
            } else {
                one_shot(None, r)
            }
        };
        cx.label(c.intent.op().name);
        if ra.target != rb.target || ra.headers != rb.headers || ra.frag != rb.frag {
            cx.nontrivial();
        }
        let (pa, ca) = go(&ra)?;
        let (pb, cb) = go(&rb)?;
        if ca != cb {
            return viol(format!("effect:{}", c.intent.op().name), format!("two spellings, two effects\n--- first\n{}{}\n--- second\n{}{}", ra.show(), crate::mock::show_calls(&ca), rb.show(), crate::mock::show_calls(&cb)));
        }
        if pa.status != pb.status || pa.headers != pb.headers || pa.body != pb.body {
            return viol(format!("response:{}", c.intent.op().name), format!("two spellings, two responses\n--- first\n{}{}\n--- second\n{}{}", ra.show(), pa.show(), rb.show(), pb.show()));
        }
        Ok(())
    }
}
