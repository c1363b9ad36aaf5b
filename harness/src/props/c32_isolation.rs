//! C32: requests that are served at the same time do not influence each other. One service, several requests whose
//! bodies arrive interleaved and whose storage calls wait in between; each must be served as if it were alone.

use super::auth_gen::{alt, alter, base, buildable, keys, Alt, Base};
use super::form::{b64, form, Form};
use crate::engine::*;
use crate::exec::{block_on_strict, Stepper};
use crate::http::{call, frag, Frag, GateBody, Item, ReqSpec, Resp};
use crate::mock::{pause, show_calls, simple_auth, Call, Mock};
use async_trait::async_trait;
use proptest::prelude::*;
use s3_server::S3Service;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum One {
    Signed(Box<Base>),
    /// altered after it was signed
    Altered(Box<Base>, Alt),
    Unsigned(Box<Base>),
    Form(Box<Form>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub reqs: Vec<(One, Frag)>,
    pub keys: Vec<(String, String)>,
    /// which request does something next, and whether it gets a fragment first
    pub schedule: Vec<(u8, bool)>,
    /// requests that are dropped after so many steps
    pub drop: Vec<(u8, u8)>,
    pub provider: bool,
}

pub struct C32;

/// keys that take a while to look up
struct SlowAuth(s3_server::SimpleAuth);
#[async_trait]
impl s3_server::S3Auth for SlowAuth {
    async fn get_secret_access_key(&self, access_key_id: &str) -> Result<String, s3_server::errors::S3AuthError> {
        pause().await;
        let r = self.0.get_secret_access_key(access_key_id).await;
        pause().await;
        r
    }
}

fn service(c: &Case) -> (S3Service, Mock) {
    let m = Mock::echoing();
    let mut s = S3Service::new(m.clone());
    if c.provider {
        s.set_auth(SlowAuth(simple_auth(&c.keys)));
    }
    (s, m)
}

fn request(c: &Case, i: usize) -> Option<ReqSpec> {
    let (one, frag) = &c.reqs[i];
    let mut r = match one {
        One::Signed(b) => Base { keys: c.keys.clone(), ..(**b).clone() }.signed(),
        One::Altered(b, a) => {
            let mut r = Base { keys: c.keys.clone(), ..(**b).clone() }.signed();
            alter(&mut r, a, &c.keys);
            r
        }
        One::Unsigned(b) => b.unsigned(),
        One::Form(f) => {
            let f = Form { keys: c.keys.clone(), ..(**f).clone() };
            let fields = f.shuffled([f.fields(), f.auth_fields(&b64(&f.policy()), &f.cred())].concat());
            f.request(&fields).0
        }
    };
    r.frag = frag.clone();
    r.fail_after = None;
    buildable(&r).then_some(r)
}

fn same(a: &Resp, b: &Resp) -> bool {
    // the order of headers is not of interest
    let sort = |r: &Resp| {
        let mut h = r.headers.clone();
        h.sort();
        h
    };
    a.status == b.status && a.body == b.body && a.body_err == b.body_err && sort(a) == sort(b)
}

impl Prop for C32 {
    type Case = Case;
    const ID: &'static str = "C32";
    const RULE: &'static str = "2 to 5 requests (correctly signed, altered after signing, unsigned, forms; all operations, with related keys and shared or different credentials) on one service object, their steps and body fragments interleaved by a generated schedule, some of them dropped on the way; the storage and the key store wait inside their calls; non-trivial = at least two of the requests reach the storage and neither is finished before the other one begins";
    const ASSUMPTIONS: &'static [&'static str] = &["the service object is the only thing the requests share: the storage is a recording stand-in whose answer is a function of the call"];
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 400_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let one = prop_oneof![
            5 => base(true).prop_map(|b| One::Signed(Box::new(b))),
            2 => (base(true), alt()).prop_map(|(b, a)| One::Altered(Box::new(b), a)),
            1 => base(false).prop_map(|b| One::Unsigned(Box::new(b))),
            2 => form().prop_map(|f| One::Form(Box::new(f))),
        ];
        (
            prop::collection::vec((one, frag()), 2..6),
            keys(),
            prop::collection::vec((any::<u8>(), any::<bool>()), 0..80),
            prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), 0_u8..20), 1..3)],
            prop::bool::weighted(0.85),
        )
            .prop_map(|(reqs, keys, schedule, drop, provider)| Case { reqs, keys, schedule, drop, provider })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let n = c.reqs.len();
        let mut specs = vec![];
        for i in 0..n {
            match request(c, i) {
                Some(r) => specs.push(r),
                None => return Ok(()),
            }
        }
        // each alone, on a service of its own
        let mut alone: Vec<(Resp, Vec<Call>)> = vec![];
        for r in &specs {
            let (svc, m) = service(c);
            let h = r.build().map_err(Fail::Harness)?;
            match block_on_strict(call(&svc, h)) {
                Ok(Ok(x)) => alone.push((x, m.take())),
                // judged by C14
                _ => return Ok(()),
            }
        }
        // all together
        struct Actor<'a> {
            st: Stepper<'a, Result<Resp, String>>,
            gate: GateBody,
            rest: std::collections::VecDeque<Vec<u8>>,
            closed: bool,
            steps: u32,
            out: Option<Result<Resp, String>>,
            dropped: bool,
            begun: Option<u32>,
            ended: u32,
        }
        let (svc, m) = service(c);
        let mut actors = vec![];
        for r in &specs {
            let gate = GateBody::default();
            let req = r.build_with(gate.body()).map_err(Fail::Harness)?;
            actors.push(Actor { st: Stepper::new(call(&svc, req)), gate, rest: r.frag.cut(&r.body).into(), closed: false, steps: 0, out: None, dropped: false, begun: None, ended: 0 });
        }
        let mut clock = 0_u32;
        let mut step = |a: &mut Actor<'_>, i: usize, give: bool| {
            if a.out.is_some() || a.dropped {
                return;
            }
            clock += 1;
            a.begun.get_or_insert(clock);
            a.ended = clock;
            if give || (a.gate.starving() && !a.st.woken()) {
                match a.rest.pop_front() {
                    Some(p) => a.gate.push(Item::Data(p)),
                    None if !a.closed => {
                        a.closed = true;
                        a.gate.close();
                    }
                    None => {}
                }
            }
            a.steps += 1;
            if let Some(x) = a.st.poll_if_woken() {
                a.out = Some(x);
            } else if c.drop.iter().any(|(j, k)| usize::from(*j) % n == i && u32::from(*k) == a.steps) {
                a.dropped = true;
                a.st.fut = None;
            }
        };
        for (i, give) in &c.schedule {
            let i = usize::from(*i) % n;
            step(&mut actors[i], i, *give);
        }
        for _ in 0..2_000_000_u32 {
            if actors.iter().all(|a| a.out.is_some() || a.dropped) {
                break;
            }
            for (i, a) in actors.iter_mut().enumerate() {
                step(a, i, false);
            }
        }
        let calls = m.take();
        let show = |i: usize| format!("request {i} of {n}:\n{}alone: {}\n{}", specs[i].show(), alone[i].0.show(), show_calls(&alone[i].1));
        let mut left: Vec<Option<&Call>> = calls.iter().map(Some).collect();
        for (i, a) in actors.iter().enumerate() {
            match &a.out {
                None if a.dropped => {
                    cx.label("dropped");
                    // it may or may not have got to its call
                    for w in &alone[i].1 {
                        if let Some(x) = left.iter_mut().find(|x| x.map_or(false, |x| x == w)) {
                            *x = None;
                        }
                    }
                    continue;
                }
                None => return viol("stall", format!("the request is not answered when others run at the same time\n{}", show(i))),
                Some(Err(e)) => return viol("service-error", format!("{e}\n{}", show(i))),
                Some(Ok(r)) => {
                    if !same(r, &alone[i].0) {
                        return viol("answer", format!("with others at the same time the answer is {}\n{}\nall calls:\n{}", r.show(), show(i), show_calls(&calls)));
                    }
                }
            }
            for w in &alone[i].1 {
                match left.iter_mut().find(|x| x.map_or(false, |x| x == w)) {
                    Some(x) => *x = None,
                    None => return viol("effect", format!("with others at the same time its storage call is missing or changed\n{}\nall calls:\n{}", show(i), show_calls(&calls))),
                }
            }
        }
        if let Some(x) = left.iter().flatten().next() {
            return viol("extra", format!("a storage call that no request makes alone:\n{}\nall requests:\n{}", x.show(), (0..n).map(show).collect::<Vec<_>>().join("\n")));
        }
        let at: Vec<(u32, u32)> = actors.iter().enumerate().filter(|(i, _)| !alone[*i].1.is_empty()).map(|(_, a)| (a.begun.unwrap_or(0), a.ended)).collect();
        let overlap = at.iter().enumerate().any(|(i, x)| at[..i].iter().any(|y| x.0 < y.1 && y.0 < x.1));
        if overlap {
            cx.nontrivial();
        }
        cx.label(format!("{} effects", alone.iter().filter(|x| !x.1.is_empty()).count()));
        cx.label(if c.provider { "provider" } else { "no provider" });
        Ok(())
    }
}
