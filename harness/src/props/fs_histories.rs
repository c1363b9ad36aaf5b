//! C16-C22, C24, C27: histories of operations on the file-system storage against the model of `fsmodel`.

use crate::engine::*;
use crate::fsmodel::*;
use proptest::prelude::*;

macro_rules! history_prop {
    ($name:ident, $id:literal, $rule:literal, $owned:expr, $heads:expr, $quick:expr, $profile:expr, |$w:ident| $nontrivial:expr) => {
        pub struct $name;
        impl Prop for $name {
            type Case = History;
            const ID: &'static str = $id;
            const RULE: &'static str = $rule;
            const SHRINK_ITERS: u32 = 600;
            fn strategy(&self, t: Tier) -> BoxedStrategy<History> {
                let mut p: Profile = $profile;
                if t == Tier::Thorough {
                    p.steps = p.steps * 2;
                }
                history(p)
            }
            fn cases(&self, t: Tier) -> u32 {
                if t == Tier::Thorough { $quick * 12 } else { $quick }
            }
            fn directed(&self, t: Tier) -> Vec<History> {
                at_scale(t)
            }
            fn run(&self, c: &History, cx: &mut Cx) -> PResult {
                if let Some($w) = run(c, $owned, $heads, cx)? {
                    if $nontrivial {
                        cx.nontrivial();
                    }
                }
                Ok(())
            }
        }
    };
}

history_prop!(C16, "C16", "the history has at least three successful writes, one of which replaced an object or was followed by a deletion, and reads that found objects", &[A::Content], false, 8000, Profile { delete: 3, ..PROFILE }, |w| w.stat("put") + w.stat("overwrite") + w.stat("copy") + w.stat("copy-over") + w.stat("complete") >= 3 && w.stat("overwrite") + w.stat("copy-over") + w.stat("delete") + w.stat("multi-delete") > 0 && w.stat("get-hit") > 0);
history_prop!(C17, "C17", "an object with metadata was read, and an object of some key was replaced, deleted, copied or completed", &[A::Meta], true, 8000, Profile { buckets: 2, ..PROFILE }, |w| w.stat("meta-hit") > 0 && w.stat("overwrite") + w.stat("copy") + w.stat("copy-over") + w.stat("complete") + w.stat("delete") + w.stat("delete-bucket") + w.stat("delete-full-bucket") > 0);
history_prop!(C18, "C18", "a listing with at least two objects, and a listing by prefix that found some objects", &[A::List], false, 5000, Profile { list: 8, multi: 1, put: 8, ..PROFILE }, |w| w.stat("list-many") > 0 && w.stat("list-prefix-part") + w.stat("list-prefix-all") > 0);
history_prop!(C19, "C19", "a bucket was deleted, created twice, or used while it did not exist", &[A::Bucket], false, 5000, Profile { buckets: 5, ..PROFILE }, |w| w.stat("delete-bucket") + w.stat("delete-full-bucket") + w.stat("create-existing") + w.stat("op-in-missing-bucket") > 0);
history_prop!(C20, "C20", "a copy to a new key or over an existing object succeeded and a write, deletion or another copy happened as well", &[A::Copy], true, 8000, Profile { copy: 8, multi: 1, bad: 0, ..PROFILE }, |w| w.stat("copy") + w.stat("copy-over") > 0 && w.stat("copy") + w.stat("copy-over") + w.stat("overwrite") + w.stat("delete") > 1);
history_prop!(C21, "C21", "an existing object was deleted, and a missing key, a prefix of other keys, or a mixed set of keys was named in a delete", &[A::Delete], false, 5000, Profile { delete: 6, many: 6, multi: 1, bad: 0, ..PROFILE }, |w| w.stat("delete") + w.stat("multi-delete") + w.stat("multi-delete-mixed") > 0 && w.stat("delete-missing") + w.stat("delete-prefix") + w.stat("multi-delete-mixed") > 0);
history_prop!(C22, "C22", "an upload with several parts, re-uploaded parts or a subset of its parts was completed", &[A::Multi], true, 8000, Profile { multi: 8, put: 3, ..PROFILE }, |w| w.stat("complete") > 0 && w.stat("complete-many") + w.stat("complete-subset") + w.stat("part-again") > 0);
history_prop!(C27, "C27", "a completion was refused, and the same history completed an upload afterwards", &[A::FailedComplete], false, 9000, Profile { multi: 6, bad: 6, put: 3, ..PROFILE }, |w| w.stat("complete-bad") + w.stat("complete-blocked") + w.stat("complete-elsewhere") > 0 && w.stat("complete-after-failure") > 0);
