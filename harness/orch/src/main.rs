#![allow(dead_code)]
mod emit;
mod engine;
mod gene;
mod oracle;
mod parts;
mod props_accept;
mod props_conf;
mod props_ctx;
mod props_doc;
mod props_enum;
mod props_int;
mod props_types;
mod props_struct;
mod props_wild;
mod run;
mod spec;

use engine::*;
use serde_json::json;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        match engine::replay(&args[i + 1]) {
            Some(f) => {
                println!("{}: op {}\n expected {}\n got      {}", f.kind, f.op, f.expected, f.got);
                println!("VIOLATION property={} replay={}", id, args[i + 1]);
                run::cleanup();
                std::process::exit(1)
            }
            None => { println!("replay holds"); run::cleanup(); std::process::exit(0) }
        }
    }
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Ctx { id: id.clone(), thorough, seed, t0: Instant::now(), stop: Default::default() };
    let mut st = Stats::default();
    let (v, rule) = match id.as_str() {
        "C01" => (props_struct::c01(&ctx, &mut st), "declaration x leaf values packed and compared with the bit model; non-trivial: some value is not zero"),
        "C02" => (props_struct::c02(&ctx, &mut st), "declaration x byte content unpacked and compared with the bit model; non-trivial: the bytes are neither all zero nor all one"),
        "C03" => (props_struct::c03(&ctx, &mut st), "pack-unpack of fitting values, unpack-pack-unpack-pack of bytes; non-trivial: value or bytes not constant"),
        "C04" => (props_struct::c04(&ctx, &mut st), "integer/enum declarations with every byte order setting, packed and unpacked against the model, plus declarations without one; non-trivial: value or bytes not constant, or a declaration that must be refused"),
        "C05" => (props_int::c05(&ctx, &mut st), "value (or pair of values) of one of the 128 sized types converted and read back; non-trivial: the value is not zero, or a pair comparison"),
        "C06" => (props_int::c06(&ctx, &mut st), "value or byte array of one of the 128 sized or 8 native types through every byte form; non-trivial: the value is not zero, or arbitrary bytes"),
        "C23" => (props_int::c23(&ctx, &mut st), "value or JSON text through serialization; non-trivial: masking changes the value, the text must be refused, or an error/reserved round trip"),
        "C07" => (props_enum::c07(&ctx, &mut st), "variant to integer, integer to variant, integer range, or backing type; non-trivial: all but named backing types"),
        "C08" => (props_enum::c08(&ctx, &mut st), "variant to text, text to variant (names, case variants, near misses), variant lists; non-trivial: all but lists of one variant"),
        "C10" => (props_enum::c10(&ctx, &mut st), "catch-all conversions, comparisons, texts, and structures with catch-all fields; non-trivial: all standalone operations, fields with non-constant contents"),
        "C11" => (props_types::c11(&ctx, &mut st), "slice operation on one type, value or content and slice length; non-trivial: all but constant contents of whole structures"),
        "C12" => (props_types::c12(&ctx, &mut st), "tuple type x value or slice; non-trivial: all"),
        "C13" => (props_types::c13(&ctx, &mut st), "vector type x value or slice; non-trivial: not empty"),
        "C21" => (props_types::c21(&ctx, &mut st), "sizes reported for a structure, helper, tuple, vector or bit width; non-trivial: several fields or a partial byte, and all other types"),
        "C26" => (props_types::c26(&ctx, &mut st), "basic type x byte content; non-trivial: not empty"),
        "C17" => (props_doc::c17(&ctx, &mut st), "displayed value with section switches, text parsed and compared with the model's bytes, ranges and bits; non-trivial: some value is not zero"),
        "C18" => (props_doc::c18(&ctx, &mut st), "structure whose generated documentation is parsed and compared with the model's size, positions, names and types; non-trivial: more than one row"),
        "C19" => (props_accept::c19(&ctx, &mut st), "declaration with one injected fault that must not compile, or its fault-free original that must; non-trivial: all"),
        "C22" => (props_conf::c22(&ctx, &mut st), "the cases of the other properties in ten build configurations and on two big-endian targets; non-trivial: as there"),
        "C27" => (props_ctx::c27(&ctx, &mut st), "declaration in one place and edition x value or bytes; non-trivial: value or bytes not constant, or the name of a variant"),
        "C28" => (props_wild::c28(&ctx, &mut st), "oddly written declaration x base content, each bit flipped; non-trivial: the declaration is accepted"),
        "C09" => (props_struct::c09(&ctx, &mut st), "byte contents (valid, valid with one near-miss enum, arbitrary) unpacked; non-trivial: the structure has an enum leaf without catch-all"),
        "C14" => (props_struct::c14(&ctx, &mut st), "array declaration and its unrolled twin, packed and unpacked; non-trivial: has an array and the value or bytes are not constant"),
        "C15" => (props_struct::c15(&ctx, &mut st), "structures with nested derived or hand-written types, packed and unpacked; non-trivial: has such a field and the value or bytes are not constant"),
        "C16" => (props_struct::c16(&ctx, &mut st), "structures with reserved fields and standalone reserved types; non-trivial: contains a reserved leaf"),
        "C20" => (props_struct::c20(&ctx, &mut st), "one layout in four spellings, packed and unpacked; non-trivial: value or bytes not constant"),
        "C24" => (props_struct::c24(&ctx, &mut st), "MSB0 declaration with LSB0 twin, permuted twin and permuted LSB0 twin; non-trivial: value or bytes not constant"),
        "C25" => (props_struct::c25(&ctx, &mut st), "pairs of values differing in one leaf, pairs of byte contents differing in one bit; non-trivial: distinct fitting values, or both contents unpack"),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    };
    st.programs = PROGRAMS.load(std::sync::atomic::Ordering::SeqCst) as u64;
    let mut cov = json!({
        "evaluations": st.evals,
        "distinct_nontrivial": st.nontrivial.len(),
        "rule": rule,
        "samples": st.samples,
        "declarations_generated": st.decls,
        "programs_compiled": st.programs,
        "classes_by_declaration": st.classes,
    });
    for (k, x) in &st.notes { cov[k] = x.clone(); }
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": ["the oracle model in harness/orch/src/spec.rs states the documented layout", "rustc, cargo and std are correct"],
        "wall_s": (ctx.t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": if v.is_some() { 1 } else { 0 },
    });
    let dir = run::root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for k in &st.known { println!("KNOWN-FINDING: property={} {}", id, k); }
    run::cleanup();
    match v {
        Some(v) => {
            println!("{}: op {}\n expected {}\n got      {}", v.fail.kind, v.fail.op.chars().take(600).collect::<String>(), v.fail.expected.chars().take(600).collect::<String>(), v.fail.got.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", id, v.replay);
            std::process::exit(1)
        }
        None => println!("{} held: {} evaluations, {} distinct non-trivial, {} declarations, {:.1}s", id, st.evals, st.nontrivial.len(), st.decls, ctx.t0.elapsed().as_secs_f64()),
    }
}
