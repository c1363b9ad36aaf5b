use crate::engine::{explore, replay, show, Env, Outcome, Prop};

mod auth_gen;
mod c01_forge;
mod c02_accept;
mod c03_presign;
mod c04_chunked;
mod c06_form;
mod c07_policy;
mod c08_dispatch;
mod c09_input;
mod c10_output;
mod c11_errors;
mod c12_equiv;
mod c13_paths;
mod c14_robust;
mod c15_headers;
mod c23_ranges;
mod c24_etags;
mod c25_contain;
mod c26_failed;
mod c28_concurrent;
mod c29_crash;
mod c30_binary;
mod c31_streaming;
mod c32_isolation;
mod c33_secrets;
mod c34_faults;
mod c35_leftovers;
mod c36_order;
mod form;
mod fs_histories;

macro_rules! props {
    ($($t:path),* $(,)?) => {
        pub fn dispatch_run(id: &str, env: &Env) -> Option<(Outcome, serde_json::Value)> {
            $( if <$t as Prop>::ID == id { return Some(explore(&$t, env)); } )*
            None
        }
        pub fn dispatch_replay(id: &str, env: &Env, b: &[u8]) -> Option<Outcome> {
            $( if <$t as Prop>::ID == id { return Some(replay(&$t, env, b)); } )*
            None
        }
        pub fn dispatch_show(id: &str, env: &Env, n: usize) {
            $( if <$t as Prop>::ID == id { show(&$t, env, n); } )*
        }
    };
}

props![c01_forge::C01, c02_accept::C02, c03_presign::C03, c04_chunked::C04, c04_chunked::C05, c06_form::C06, c07_policy::C07, c08_dispatch::C08, c09_input::C09, c10_output::C10, c11_errors::C11, c12_equiv::C12, c13_paths::C13, c14_robust::C14, c15_headers::C15, fs_histories::C16, fs_histories::C17, fs_histories::C18, fs_histories::C19, fs_histories::C20, fs_histories::C21, fs_histories::C22, c23_ranges::C23, c24_etags::C24, c25_contain::C25, c26_failed::C26, fs_histories::C27, c28_concurrent::C28, c29_crash::C29, c30_binary::C30, c31_streaming::C31, c32_isolation::C32, c33_secrets::C33, c34_faults::C34, c35_leftovers::C35, c36_order::C36];
