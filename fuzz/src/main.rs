//! Coverage-guided search over the choice tapes of one sub-check: the input bytes are the tape.
//! `VERIF_SUB=Cxx/sub fawkes-fuzz CORPUS [libFuzzer options]`. Used by the thorough tier.
#![no_main]
#![allow(dead_code)]

#[path = "../../harness/src/circuits.rs"]
mod circuits;
#[path = "../../harness/src/cli.rs"]
mod cli;
#[path = "../../harness/src/composites.rs"]
mod composites;
#[path = "../../harness/src/engine.rs"]
#[macro_use]
mod engine;
#[path = "../../harness/src/eth.rs"]
mod eth;
#[path = "../../harness/src/forge.rs"]
mod forge;
#[path = "../../harness/src/gadgets.rs"]
mod gadgets;
#[path = "../../harness/src/groth.rs"]
mod groth;
#[path = "../../harness/src/native1.rs"]
mod native1;
#[path = "../../harness/src/native2.rs"]
mod native2;
#[path = "../../harness/src/progs.rs"]
mod progs;
#[path = "../../harness/src/reccs.rs"]
mod reccs;
#[path = "../../harness/src/refmath.rs"]
#[macro_use]
mod refmath;
#[path = "../../harness/src/sol.rs"]
mod sol;
#[path = "../../harness/src/tape.rs"]
mod tape;

use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;

fn sub() -> &'static engine::Sub {
    static S: OnceLock<engine::Sub> = OnceLock::new();
    S.get_or_init(|| {
        // libFuzzer's hook aborts on every panic, also on those the oracle expects
        engine::install_panic_hook();
        let want = std::env::var("VERIF_SUB").expect("VERIF_SUB");
        let mut all = vec![];
        all.extend(native1::props());
        all.extend(native2::props());
        all.extend(circuits::props());
        all.extend(composites::props());
        all.extend(groth::props());
        all.extend(eth::props());
        for p in all {
            for s in p.subs {
                if want == format!("{}/{}", p.id, s.name) {
                    return s;
                }
            }
        }
        eprintln!("no such sub-check");
        std::process::exit(3);
    })
}

fuzz_target!(|data: &[u8]| {
    let s = sub();
    let tape = tape::from_bytes(data, s.tape);
    let (r, _, _, _, _) = engine::run_case(s, &tape, false, false);
    if let Err(m) = r {
        eprintln!("FAILING-CASE {}", m);
        std::process::abort();
    }
});
