//! Coverage-guided search over the choices of the generators: libFuzzer's bytes are the choices of one case of
//! the property named by ADB_PROP. A violation is written to ADB_FOUND and ends the process.
#![no_main]
#![allow(dead_code)]

#[path = "../../harness/src/doc.rs"]
mod doc;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/own.rs"]
mod own;
#[path = "../../harness/src/props_build.rs"]
mod props_build;
#[path = "../../harness/src/props_file.rs"]
mod props_file;
#[path = "../../harness/src/props_match.rs"]
mod props_match;
#[path = "../../harness/src/props_node.rs"]
mod props_node;
#[path = "../../harness/src/props_object.rs"]
mod props_object;
#[path = "../../harness/src/props_own.rs"]
mod props_own;
#[path = "../../harness/src/props_syntax.rs"]
mod props_syntax;
#[path = "../../harness/src/props_thread.rs"]
mod props_thread;
#[path = "../../harness/src/props_utils.rs"]
mod props_utils;
#[path = "../../harness/src/real.rs"]
mod real;
#[path = "../../harness/src/tape.rs"]
mod tape;

use engine::{Outcome, Prop};
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;

fn prop() -> &'static Prop {
    static P: OnceLock<Prop> = OnceLock::new();
    P.get_or_init(|| {
        let id = std::env::var("ADB_PROP").expect("ADB_PROP");
        engine::install_panic_hook();
        real::install_logger();
        let mut v = vec![];
        v.extend(props_match::props());
        v.extend(props_syntax::props());
        v.extend(props_file::props());
        v.extend(props_build::props());
        v.extend(props_object::props());
        v.extend(props_thread::props());
        v.extend(props_node::props());
        v.extend(props_own::props());
        v.extend(props_utils::props());
        v.into_iter().find(|p| p.id == id).expect("unknown property")
    })
}

fuzz_target!(|data: &[u8]| {
    let p = prop();
    let (_, tape, outcome) = engine::run_case(p.f, tape::Gen::bytes(data.to_vec()));
    if let Outcome::Viol(v) = outcome {
        let found = std::env::var("ADB_FOUND").expect("ADB_FOUND");
        let text = serde_json::json!({ "property": p.id, "signature": v.sig, "message": v.msg, "tape": tape }).to_string();
        // complete or not there at all
        let part = format!("{}.{}", found, std::process::id());
        std::fs::write(&part, text).unwrap();
        std::fs::rename(&part, &found).unwrap();
        std::process::abort();
    }
});
