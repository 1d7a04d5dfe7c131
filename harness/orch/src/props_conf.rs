//! C22: the same declarations and inputs in every build configuration and on other targets.
//! Every configuration gets the same generated cases (same seed, same label) and is judged
//! against the same model.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;
use crate::{props_doc, props_enum, props_int, props_types};
use proptest::prelude::*;

fn structs(g: &CG, p: &Profile, alloc: bool) -> Case {
    let m = module(g, p);
    let n = m.nbytes;
    let mut ops = vec![];
    for i in &g.vals {
        let v = values(&m.m, &m.leaves, i, true);
        let t = m.toks(&v);
        let e = m.pack_exp(&v);
        ops.push(Op::new(0, format!("P {}", t), e.clone(), nz(&v)));
        ops.push(Op::new(0, format!("PV {}", t), if alloc { e.clone() } else { Exp::Eq("NONE".into()) }, alloc && nz(&v)));
        let pat = |l: usize| hex(&(0..l).map(|i| (i as u8).wrapping_mul(37) ^ 0xC3).collect::<Vec<u8>>());
        let e2 = match &e { Exp::Eq(s) if s.starts_with("ERR") => Exp::Eq(format!("{} {}", s, pat(n))), e => e.clone() };
        ops.push(Op::new(0, format!("PS {} {}", n, t), e2, nz(&v)));
        ops.push(Op::new(0, format!("PS {} {}", n + 1, t), Exp::Eq(format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }} {}", n, n + 1, pat(n + 1))), true));
        let f = values(&m.m, &m.leaves, i, false);
        if m.fits(&f) { let t = m.toks(&f); ops.push(Op::new(0, format!("RT {}", t), Exp::Eq(format!("EQ {}", t)), nz(&f))); }
    }
    for i in &g.bytes {
        let b = bytes(&m.m, &m.leaves, n, i);
        let e = m.unpack_exp(&b);
        ops.push(Op::new(0, format!("U {}", hex(&b)), e.clone(), nzb(&b)));
        ops.push(Op::new(0, format!("US {}", hex(&b)), e, nzb(&b)));
        ops.push(Op::new(0, format!("UP {}", hex(&b)), up_exp(&m, &b), nzb(&b)));
        ops.push(Op::new(0, format!("US {}", hex(&b[1..])), Exp::Eq(format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }}", n, n - 1)), true));
    }
    m.case(ops, m.run1())
}

/// reserved types of the enlarged tables, alone and as fields
fn wide_reserved(max_bits: usize, i: usize, g: &[(u8, u64)]) -> Case {
    let mut body = String::new();
    let mut types = vec![];
    let mut ops = vec![];
    for k in 0..6usize {
        let r = g[k % g.len()].1;
        let one = r & 1 == 1;
        let n = match (r >> 1) % 4 { 0 => max_bits - 1 - (r >> 4) as usize % 3, 1 => 250 + (r >> 4) as usize % 12, _ => 1 + mix(r, i as u64) as usize % (max_bits - 1) };
        let nb = (n + 7) / 8;
        let ty = format!("{}<packed_bits::Bits::<{}>>", if one { "ReservedOne" } else { "ReservedZero" }, n);
        let c = vec![if one { 0xff } else { 0u8 }; nb];
        ops.push(Op::new(types.len(), "P -".into(), Exp::Eq(format!("OK {}", hex(&c))), true));
        let noise: Vec<u8> = (0..nb).map(|i| mix(r, 70 + i as u64) as u8).collect();
        ops.push(Op::new(types.len(), format!("UP {}", hex(&noise)), Exp::Eq(format!("OK {} true true", hex(&c))), true));
        types.push(ty.clone());
        // between two other fields
        let lead = 1 + (r >> 40) as usize % 7;
        let total = lead + n + 16;
        let nbytes = (total + 7) / 8;
        let (a, b) = ((r >> 20) as u128 & ((1 << lead) - 1), (r >> 44) as u128 & 0xffff);
        body.push_str(&format!("#[derive(PackedStruct, Debug, PartialEq)]\n#[packed_struct(bit_numbering=\"msb0\", endian=\"msb\", size_bytes=\"{nbytes}\")]\npub struct W{k} {{\n    #[packed_field(bits=\"0..{lead}\")] a: u8,\n    #[packed_field(bits=\"{lead}..={}\")] r: {ty},\n    #[packed_field(bits=\"{}..\")] b: u16,\n}}\n", lead + n - 1, lead + n));
        body.push_str(&format!("impl Glue for W{k} {{ fn mk(it: &mut It) -> Self {{ W{k} {{ a: it.i() as u8, r: Default::default(), b: it.i() as u16 }} }} fn rd(&self, o: &mut Vec<String>) {{ o.push(self.a.to_string()); o.push(self.b.to_string()); }} }}\n"));
        let mut bits = vec![];
        for j in (0..lead).rev() { bits.push((a >> j & 1) as u8); }
        bits.resize(lead + n, one as u8);
        for j in (0..16).rev() { bits.push((b >> j & 1) as u8); }
        bits.resize(nbytes * 8, 0);
        let packed: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
        ops.push(Op::new(types.len(), format!("P {},{}", a, b), Exp::Eq(format!("OK {}", hex(&packed))), true));
        // the reserved and trailing bits are ignored
        let mut noisy = packed.clone();
        for p in (lead..lead + n).chain(total..nbytes * 8) { if mix(r, 300 + p as u64) & 1 == 1 { noisy[p / 8] ^= 0x80 >> (p % 8); } }
        ops.push(Op::new(types.len(), format!("U {}", hex(&noisy)), Exp::Eq(format!("OK {},{}", a, b)), true));
        types.push(format!("W{}", k));
    }
    body.push_str(&run_fn(&types));
    Case { decl: body.clone(), body, ops, classes: vec!["reserved widths of the enlarged table"], must_reject: false, early: false, may_reject: false }
}

/// declarations that have to compile in a crate without the standard library
fn bare(g: &CG, p: &Profile) -> Case {
    let mut m = realize(g, p);
    let top = m.structs.len() - 1;
    prune(&mut m, &[top]);
    // what is nested has to be displayable
    let d = user_decl(&m).replace("#[derive(PackedStruct)]", "#[derive(PackedStruct, Debug)]");
    Case { body: d.clone(), decl: d, ops: vec![], classes: vec!["crate without std"], must_reject: false, early: false, may_reject: false }
}

/// what a 32-bit target can express: discriminants are isize unless the enum has a repr
fn for_32(g: &CG) -> CG {
    let mut g = g.clone();
    for e in &mut g.enums { e.back = [0, 1, 4, 5, 6][e.back as usize % 5]; }
    g
}
fn for_32e(g: &props_enum::G) -> props_enum::G {
    let mut g = g.clone();
    for e in &mut g.enums { e.back = [0, 1, 4, 5, 6][e.back as usize % 5]; }
    g
}

/// packing to a vector needs an allocator
fn no_vec(mut c: Case, alloc: bool) -> Case {
    if !alloc { c.ops.retain(|o| !o.line.starts_with("PV ")); }
    c
}

/// owned texts and lists of variants need an allocator
fn no_dyn(mut c: Case, alloc: bool) -> Case {
    if !alloc {
        c.ops.retain(|o| !["AD", "DD", "CD", "CA"].contains(&o.line.split(' ').next().unwrap()));
        c.body = c.body.replace("dops::<", "eops::<");
    }
    c
}

/// the interpreter is slow: an even selection of the operations
fn thin(mut c: Case, n: usize) -> Case {
    c.ops.retain(|o| o.line.len() < 3000);
    if c.ops.len() > n { let l = c.ops.len(); c.ops = (0..n).map(|i| c.ops[i * l / n].clone()).collect(); }
    c
}

struct Conf { name: &'static str, features: &'static [&'static str], release: bool, opt: u8 }

const CONFS: [Conf; 10] = [
    Conf { name: "std", features: &["std"], release: false, opt: 0 },
    Conf { name: "std, optimized", features: &["std"], release: true, opt: 3 },
    Conf { name: "no std", features: &[], release: false, opt: 0 },
    Conf { name: "no std, optimized", features: &[], release: true, opt: 3 },
    Conf { name: "alloc", features: &["alloc"], release: false, opt: 0 },
    Conf { name: "alloc, optimized for size", features: &["alloc"], release: true, opt: 2 },
    Conf { name: "std and serde", features: &["std", "use_serde"], release: false, opt: 0 },
    Conf { name: "serde without std", features: &["use_serde"], release: false, opt: 0 },
    Conf { name: "std and alloc, 64 byte table", features: &["std", "alloc", "byte_types_64"], release: false, opt: 0 },
    Conf { name: "alloc and serde, 256 byte table", features: &["alloc", "use_serde", "byte_types_256"], release: false, opt: 1 },
];

pub fn c22(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let targets = ["s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"];
    let cfgs: Vec<LibCfg> = CONFS.iter().map(|c| LibCfg::with(c.features, c.release)).collect();
    // everything is built at once; the library only has to build at all
    let libs: Vec<Result<Lib, String>> = std::thread::scope(|s| {
        let m: Vec<_> = targets.iter().map(|t| s.spawn(move || miri_setup(t))).collect();
        let h: Vec<_> = cfgs.iter().map(|c| s.spawn(move || try_build_lib(c))).collect();
        let r = h.into_iter().map(|h| h.join().unwrap_or_else(|_| infra("building the library"))).collect();
        for x in m { let _ = x.join(); }
        r
    });
    // a configuration that does not build at all
    for (c, l) in cfgs.iter().zip(&libs) { if let Err(e) = l { return Some(report_build(ctx, c, e)); } }
    let libs: Vec<Lib> = libs.into_iter().map(|l| l.unwrap_or_else(|e| infra(&e))).collect();
    // all configurations at once; the number of running processes is limited
    let rs: Vec<(Option<Violation>, Stats, serde_json::Value)> = std::thread::scope(|s| {
        let other: Vec<_> = targets.iter().map(|t| { let l = &libs[0]; s.spawn(move || interpreted(ctx, t, l)) }).collect();
        let native: Vec<_> = CONFS.iter().zip(&libs).map(|(c, l)| s.spawn(move || configuration(ctx, c, l))).collect();
        native.into_iter().chain(other).map(|h| h.join().unwrap_or_else(|_| infra("a configuration's thread ended"))).collect()
    });
    let mut t = vec![];
    let mut out = None;
    for (v, s, n) in rs { st.merge(s); t.push(n); out = out.or(v); }
    st.notes.insert("configurations".into(), serde_json::Value::Array(t));
    out
}

fn configuration(ctx: &Ctx, c: &Conf, lib: &Lib) -> (Option<Violation>, Stats, serde_json::Value) {
    let t0 = ctx.t0.elapsed();
    let mut st = Stats::default();
    let v = configuration_cases(ctx, c, lib, &mut st);
    let note = serde_json::json!({"configuration": c.name, "evaluations": st.evals, "seconds": (ctx.t0.elapsed() - t0).as_secs()});
    (v, st, note)
}

fn configuration_cases(ctx: &Ctx, c: &Conf, lib: &Lib, st: &mut Stats) -> Option<Violation> {
    let p = Profile { n_vals: 8, n_bytes: 8, huge: true, ..Profile::default() };
    let alloc = lib.cfg.alloc();
    let env = Env { lib, opts: CompileOpts { opt: c.opt, ..CompileOpts::default() } };
    let with = |parts: &[&str]| Env { lib, opts: CompileOpts { opt: c.opt, parts: parts.iter().map(|s| s.to_string()).collect(), ..CompileOpts::default() } };
    if let Some(v) = go(ctx, &env, "structures", &p, ctx.n(6, 80), 12, &|g| structs(g, &p, alloc), st) { return Some(v); }
    let e = with(if alloc { &["ints", "enums", "enums_dyn"] } else { &["ints", "enums"] });
    if let Some(v) = drive(ctx, &e, "enums", ctx.n(3, 60), 6, &|| props_enum::strat(3, 8), &|_, g| props_enum::int_case(g), st) { return Some(v); }
    if let Some(v) = drive(ctx, &e, "names", ctx.n(2, 40), 6, &|| props_enum::strat(3, 8), &|k, g| no_dyn(if k % 2 == 0 { props_enum::name_case(g) } else { props_enum::catch_case(g) }, alloc), st) { return Some(v); }
    let n = ctx.n(24, 400);
    if let Some(v) = drive(ctx, &with(&["ints"]), "integers", 8, 1, &|| props_int::strat(n), &|k, g| if k % 3 == 0 { props_int::convert_case(k, g, false) } else { props_int::bytes_case(k, g, false) }, st) { return Some(v); }
    let e = with(if alloc { &["types", "vec"] } else { &["types"] });
    if let Some(v) = drive(ctx, &e, "tuples", ctx.n(2, 60), 5, &|| props_types::sstrat(1, 8, 4, 4), &|k, g| no_vec(props_types::tuple_case(k, g, alloc), alloc), st) { return Some(v); }
    if let Some(v) = drive(ctx, &e, "slices", ctx.n(2, 60), 4, &|| props_types::sstrat(1, 3, 4, 4), &|k, g| if alloc && k % 2 == 0 { props_types::vec_case(g) } else { no_vec(props_types::slice_case(g), alloc) }, st) { return Some(v); }
    if alloc {
        let dp = Profile { n_vals: 8, n_bytes: 0, ..Profile::default() };
        if let Some(v) = go(ctx, &with(&["display"]), "display", &dp, ctx.n(2, 40), 8, &|g| { let g = props_doc::narrow(g); props_doc::display_case(&module(&g, &dp), &g) }, st) { return Some(v); }
    }
    for (f, max) in [("byte_types_64", 512), ("byte_types_256", 2048)] {
        if !c.features.contains(&f) { continue; }
        if let Some(v) = drive(ctx, &with(&["types"]), &format!("reserved{}", max), ctx.n(4, 60), 3, &|| prop::collection::vec((any::<u8>(), any::<u64>()), 6).boxed(), &|k, g| wide_reserved(max, k, g), st) { return Some(v); }
    }
    if !c.features.contains(&"std") && !c.release {
        let env = Env { lib, opts: CompileOpts { check_only: true, nostd: true, ..CompileOpts::default() } };
        let bp = Profile { n_hands: 0, n_vals: 0, n_bytes: 0, ..Profile::default() };
        if let Some(v) = go(ctx, &env, "crate without std", &bp, ctx.n(4, 60), 12, &|g| bare(g, &bp), st) { return Some(v); }
    }
    None
}

/// the program interpreted for another target
fn interpreted(ctx: &Ctx, target: &str, lib: &Lib) -> (Option<Violation>, Stats, serde_json::Value) {
    let t0 = ctx.t0.elapsed();
    let mut st = Stats::default();
    let v = interpreted_cases(ctx, target, lib, &mut st);
    let note = serde_json::json!({"configuration": format!("std, interpreted for {}", target), "evaluations": st.evals, "seconds": (ctx.t0.elapsed() - t0).as_secs()});
    (v, st, note)
}

fn interpreted_cases(ctx: &Ctx, target: &str, lib: &Lib, st: &mut Stats) -> Option<Violation> {
    let mp = Profile { n_vals: 3, n_bytes: 3, max_fields: 5, max_units: 24, huge: false, long: false, far: false, ..Profile::default() };
    let narrow = target.starts_with("powerpc");
    let env = |parts: &[&str]| Env { lib, opts: CompileOpts { parts: parts.iter().map(|s| s.to_string()).collect(), miri: Some(target.into()), ..CompileOpts::default() } };
    if let Some(v) = go(ctx, &env(&[]), "structures", &mp, ctx.n(8, 80), 3, &|g| thin(structs(&if narrow { for_32(g) } else { g.clone() }, &mp, true), 30), st) { return Some(v); }
    let n = ctx.n(3, 20);
    if let Some(v) = drive(ctx, &env(&["ints"]), "integers", 8, 1, &|| props_int::strat(n), &|k, g| thin(props_int::bytes_case(k, g, false), 140), st) { return Some(v); }
    if let Some(v) = drive(ctx, &env(&["types", "vec"]), "tuples", ctx.n(6, 60), 1, &|| props_types::sstrat(1, 8, 2, 2), &|k, g| { let mut g = g.clone(); g.0.outer.scale = 0; if narrow { g.0 = for_32(&g.0); } thin(if k % 2 == 0 { props_types::tuple_case(k, &g, true) } else { props_types::vec_case(&g) }, 40) }, st) { return Some(v); }
    if let Some(v) = drive(ctx, &env(&["ints", "enums", "enums_dyn"]), "enums", ctx.n(4, 60), 1, &|| prop_enum(), &|_, g| { let g = if narrow { for_32e(g) } else { g.clone() }; thin(props_enum::int_case_small(&g), 60) }, st) { return Some(v); }
    None
}

fn prop_enum() -> BoxedStrategy<props_enum::G> { props_enum::strat(3, 6) }
