//! The evidence file of a run.
use crate::gen::Tier;
use crate::run::Opt;
use serde_json::{json, Value};

pub const ASSUMPTIONS: &[&str] = &[
    "rustc's wasm32 back end and wasm-bindgen translate the crate faithfully; the module that is executed symbolically is built from /repo's current source with the same compiler at opt-level 2",
    "JavaScript glue (strings, arrays, objects, numbers, errors) is modelled by the executor as wasm-bindgen's imports specify it",
    "Regex::new/is_match are answered by an automaton regex-automata builds from the pattern the code passes",
    "str::to_uppercase on ASCII text is answered directly after agreeing with std's own code on samples at start-up; memcpy, memcmp, memset likewise have their C meaning",
    "the harness links a small free-list allocator; allocation failure is not explored",
    "statements of /verif/corpus stand for the grammar's constructs: positions in the same lexical context are represented by one statement",
    "z3 4.8.12 and the domain reasoning that precedes it are sound",
];

pub fn write(o: &Opt, mut cov: Value, violations: usize, wall: f64) {
    cov["bounds"] = json!(crate::gen::bounds(&o.prop, o.tier));
    let doc = json!({
        "property": o.prop,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "violations": violations,
        "wall_s": wall,
    });
    std::fs::create_dir_all(format!("{}/evidence", o.verif)).ok();
    std::fs::write(format!("{}/evidence/{}.json", o.verif, o.prop), serde_json::to_string_pretty(&doc).unwrap()).expect("evidence");
}
