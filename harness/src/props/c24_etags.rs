//! C24: HEAD, GET and ETags against the stored bytes: the histories of `fsmodel` judged on ETags, lengths,
//! metadata and times, with sizes around the buffers of the storage.

use crate::engine::*;
use crate::fsmodel::*;
use crate::http::*;
use proptest::prelude::*;

pub struct C24;

const PROFILE24: Profile = Profile { put: 5, copy: 3, multi: 3, restart: 2, age: 4, ..PROFILE };

fn big(len: u32, split: u32, how: How, frag: Frag) -> History {
    let c = |len, seed| Content::Gen { len, seed };
    let m: Meta = [("a".to_owned(), "1".to_owned())].into_iter().collect();
    let (first, second) = (split.min(len), len - split.min(len));
    History {
        buckets: vec!["bkt".into()],
        keys: vec!["a/b".into(), "c".into(), "d".into()],
        precreate: 1,
        steps: vec![
            Step::Put { b: 0, k: 0, how, content: c(len, len), meta: m.clone(), frag },
            Step::Copy { sb: 0, sk: 0, db: 0, dk: 1, spelling: 0 },
            Step::Initiate { b: 0, k: 2, meta: m },
            Step::Part { u: 0, n: 1, how: How::Plain, content: c(first, 1), elsewhere: None },
            Step::Part { u: 0, n: 2, how: How::Plain, content: c(second, 2), elsewhere: None },
            Step::Complete { u: 0, listed: Listed::All, elsewhere: None, etags: true },
            Step::Restart,
        ],
    }
}

/// objects written in every way before and after everything became older
fn aged() -> History {
    let put = |k, how| Step::Put { b: 0, k, how, content: Content::Lit(b"content".to_vec()), meta: Meta::new(), frag: Frag::whole() };
    let copy = |sk, dk| Step::Copy { sb: 0, sk, db: 0, dk, spelling: 0 };
    let part = |n| Step::Part { u: 0, n, how: How::Plain, content: Content::Lit(b"part".to_vec()), elsewhere: None };
    History {
        buckets: vec!["bkt".into()],
        keys: vec!["a/b".into(), "c".into(), "d".into(), "e".into(), "missing".into()],
        precreate: 1,
        steps: vec![put(0, How::Plain), put(1, How::Chunked), Step::Initiate { b: 0, k: 2, meta: Meta::new() }, part(1), Step::Age, copy(0, 3), put(1, How::Form), part(2), Step::Age, copy(1, 3), copy(4, 3), Step::Complete { u: 0, listed: Listed::All, elsewhere: None, etags: true }, Step::Age, Step::Restart, copy(2, 0), copy(2, 2), put(2, How::Signed)],
    }
}

impl Prop for C24 {
    type Case = History;
    const ID: &'static str = "C24";
    const RULE: &'static str = "at least three ETags were compared with the MD5 of the content (put, part, completion, copy), and HEAD and GET of an existing object were compared";
    const SHRINK_ITERS: u32 = 600;
    fn strategy(&self, t: Tier) -> BoxedStrategy<History> {
        const M: u32 = 4 << 20;
        let size = prop_oneof![
            4 => 4000_u32..70_000,
            2 => (1_u32..9, 0_u32..5).prop_map(|(n, d)| n * 65536 + d - 2),
            2 => (1_u32..3, 0_u32..5).prop_map(|(n, d)| n * M + d - 2),
            1 => 1_000_000_u32..9_500_000,
        ];
        let frag = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(30_000_u32..1_000_000, 1..4)];
        let large = (size, 0_u32..=100, prop_oneof![4 => Just(How::Plain), 1 => Just(How::Form)], frag).prop_map(|(len, p, how, sizes)| big(len, (u64::from(len) * u64::from(p) / 100) as u32, how, Frag { sizes, pend: false }));
        let steps = if t == Tier::Thorough { 24 } else { 12 };
        prop_oneof![40 => history(Profile { steps, ..PROFILE24 }), 1 => large].boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Thorough { 50_000 } else { 4000 }
    }
    fn directed(&self, t: Tier) -> Vec<History> {
        const M: u32 = 4 << 20;
        [0, 1, 4095, 4096, 4097, 65536, M - 1, M, M + 1, 2 * M, 2 * M + 7].iter().map(|&n| big(n, n / 3, How::Plain, Frag { sizes: vec![70_000], pend: false })).chain([aged()]).chain(at_scale(t)).collect()
    }
    fn run(&self, c: &History, cx: &mut Cx) -> PResult {
        if let Some(w) = run(c, &[A::Etag], true, cx)? {
            if ["etag-put", "etag-part", "etag-complete", "etag-copy"].iter().map(|s| w.stat(s)).sum::<u32>() >= 3 && w.stat("head-hit") > 0 {
                cx.nontrivial();
            }
        }
        Ok(())
    }
}
