//! Derived enums: integers, names, catch-all.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;
use proptest::prelude::*;
use serde_json::json;

#[derive(Clone, Debug)]
pub struct G { pub enums: Vec<EG>, pub v: Vec<(u8, u64)> }

pub fn strat(n: usize, vals: usize) -> BoxedStrategy<G> {
    (prop::collection::vec(prop_oneof![3 => eg(5), 3 => eg(14), 1 => eg(60)], n), prop::collection::vec((any::<u8>(), any::<u64>()), vals)).prop_map(|(enums, v)| G { enums, v }).boxed()
}

fn enums(g: &G) -> Vec<EnumDef> { g.enums.iter().enumerate().map(|(i, e)| realize_enum(e, &format!("{}{}", ["E", "Mode", "SelfTest", "HTTPCode_"][i % 4], i), true)).collect() }

fn classes(es: &[EnumDef]) -> Vec<&'static str> {
    let mut c = vec![];
    for e in es {
        c.push(match e.backing { Prim::U8 => "backing u8", Prim::U16 => "backing u16", Prim::U32 => "backing u32", Prim::U64 => "backing u64", Prim::I8 => "backing i8", Prim::I16 => "backing i16", Prim::I32 => "backing i32", Prim::I64 => "backing i64" });
        c.push(if e.explicit { "backing type named" } else { "backing type detected" });
        let lit = |f: &dyn Fn(&str) -> bool| e.vars.iter().any(|v| v.lit.as_deref().map_or(false, |l| f(l)));
        if e.vars.iter().any(|v| v.lit.is_none()) { c.push("implicit discriminants"); }
        if lit(&|l| l.contains("0x")) { c.push("hexadecimal discriminants"); }
        if lit(&|l| !l.contains("0x") && (l.contains('u') || l.contains('i'))) { c.push("suffixed discriminants"); }
        if e.vars.iter().any(|v| v.disc < 0) { c.push("negative discriminants"); }
        if lit(&|l| l.starts_with('-')) && e.vars.iter().all(|v| v.disc >= 0) { c.push("minus zero"); }
        if e.vars.len() > 14 { c.push("more than 14 variants"); }
    }
    c
}

fn case(es: &[EnumDef], ops: Vec<Op>, f: &str) -> Case {
    let mut body = String::new();
    for e in es { body.push_str(&enum_decl(e)); body.push_str(&enum_glue(e)); }
    body.push_str("pub fn run(t: usize, op: &str, args: &str) -> String { match t {\n");
    for (i, e) in es.iter().enumerate() { body.push_str(&format!("    {} => {}::<{}>(op, args),\n", i, f, e.name)); }
    body.push_str("    _ => \"BADTYPE\".into() } }\n");
    Case { body, ops, decl: es.iter().map(enum_decl).collect(), classes: classes(es), must_reject: false, early: false, may_reject: false }
}

/// integers worth trying on an enum
fn ints(e: &EnumDef, v: &[(u8, u64)]) -> Vec<i128> {
    let b = e.backing;
    let mut o: Vec<i128> = e.vars.iter().map(|x| x.disc).collect();
    for (m, r) in v {
        let d = e.vars[(*r as usize >> 8) % e.vars.len()].disc;
        let x = match m % 8 {
            0 => d + 1, 1 => d - 1, 2 => d ^ (1 << (r % b.bits() as u64)), 3 => -d,
            4 => wrap(*r as i128, b.bits(), b.signed()), 5 => (r % 20) as i128 - 5, 6 => if r % 2 == 0 { b.min() } else { b.max() }, _ => d ^ (1i128 << (b.bits() - 1)),
        };
        o.push(wrap(x, b.bits(), b.signed()));
    }
    o.retain(|x| *x >= b.min() && *x <= b.max());
    o.sort();
    o.dedup();
    o
}

fn ranges(e: &EnumDef, small: bool) -> Vec<(i128, i128)> {
    let b = e.backing;
    if small { return e.vars.iter().take(2).map(|v| ((v.disc - 3).max(b.min()), (v.disc + 3).min(b.max()))).collect(); }
    if b.bits() <= 16 { return vec![(b.min(), b.max())]; }
    let mut r: Vec<(i128, i128)> = e.vars.iter().take(6).map(|v| ((v.disc - 70).max(b.min()), (v.disc + 70).min(b.max()))).collect();
    r.push((b.min(), b.min() + 300));
    r.push((b.max() - 300, b.max()));
    if b.signed() { r.push((-300, 300)); }
    r
}

pub fn int_case(g: &G) -> Case { int_case_in(g, false) }
/// for slow machines
pub fn int_case_small(g: &G) -> Case { int_case_in(g, true) }
fn int_case_in(g: &G, small: bool) -> Case {
        let es = enums(g);
        let mut ops = vec![];
        for (t, e) in es.iter().enumerate() {
            ops.push(Op::new(t, "PT".into(), Exp::Eq(e.backing.name().into()), !e.explicit));
            for v in &e.vars { ops.push(Op::new(t, format!("TP {}", v.disc), Exp::Eq(v.disc.to_string()), true)); }
            for x in ints(e, &g.v) {
                let known = e.vars.iter().any(|v| v.disc == x);
                ops.push(Op::new(t, format!("FP {}", x), Exp::Eq(if known { format!("Some({})", x) } else { "None".into() }), true));
            }
            for (a, b) in ranges(e, small) {
                let mut d: Vec<i128> = e.vars.iter().map(|v| v.disc).filter(|d| a <= *d && *d <= b).collect();
                d.sort();
                ops.push(Op::new(t, format!("FX {} {}", a, b), Exp::Eq(d.iter().map(|d| format!("{}={}", d, d)).collect::<Vec<_>>().join(",")), true));
            }
        }
        case(&es, ops, "eops")
}

pub fn c07(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["ints", "enums"]);
    if let Some(v) = drive(ctx, &env, "integers", ctx.n(80, 1000), 8, &|| strat(4, 12), &|_, g: &G| int_case(g), st) { return Some(v); }
    drive(ctx, &env, "too small", ctx.n(8, 100), 16, &|| strat(1, 1), &|_, g: &G| misfit_case(g), st)
}

/// the named backing type does not hold every discriminant
fn misfit_case(g: &G) -> Case {
    let mut e = enums(g).remove(0);
    let misfit = |e: &EnumDef| PRIMS.iter().copied().filter(|p| e.vars.iter().any(|v| v.disc < p.min() || v.disc > p.max())).collect::<Vec<_>>();
    if misfit(&e).is_empty() {
        e.repr = None;
        let last = e.vars.last_mut().unwrap();
        last.disc = [256, -129, 65536, -1, 300, 1 << 32][(g.v[0].1 % 6) as usize];
        last.lit = Some(last.disc.to_string());
    }
    let ps = misfit(&e);
    e.backing = ps[(g.v[0].1 >> 8) as usize % ps.len()];
    e.explicit = true;
    Case { must_reject: true, early: true, body: format!("{}{}", enum_decl(&e), "pub fn run(_: usize, _: &str, _: &str) -> String { String::new() }\n"), decl: enum_decl(&e), classes: vec!["backing type too small"], ..Case::default() }
}

fn swapcase(s: &str) -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }

/// strings worth trying: names, case variants, near misses
fn strings(e: &EnumDef, v: &[(u8, u64)]) -> Vec<String> {
    let mut o: Vec<String> = vec![String::new(), e.name.clone()];
    for x in &e.vars { let n = bare(&x.name); o.push(n.into()); o.push(n.to_lowercase()); if n != x.name { o.push(x.name.clone()); } }
    for (m, r) in v {
        let x = &e.vars[(*r as usize >> 8) % e.vars.len()];
        let n = bare(&x.name);
        let cs: Vec<char> = n.chars().collect();
        o.push(match m % 14 {
            0 => n.to_uppercase(),
            1 => swapcase(n),
            2 => format!("{} ", n),
            3 => format!(" {}", n.to_lowercase()),
            4 => cs[..cs.len() - 1].iter().collect(),
            5 => format!("{}{}", n, (b'a' + (r % 26) as u8) as char),
            6 => format!("{}::{}", e.name, n),
            7 => x.disc.to_string(),
            8 => VAR_NAMES[*r as usize % VAR_NAMES.len()].to_string(),
            9 => VAR_NAMES[*r as usize % VAR_NAMES.len()].to_lowercase(),
            10 => { let mut c = cs.clone(); let k = *r as usize % c.len(); c[k] = if c[k].is_lowercase() { c[k].to_ascii_uppercase() } else { c[k].to_ascii_lowercase() }; c.into_iter().collect() }
            11 => { let mut c = n.to_lowercase().chars().collect::<Vec<_>>(); let k = *r as usize % c.len(); c[k] = c[k].to_ascii_uppercase(); c.into_iter().collect() }
            12 => n.replace('_', "").to_string(),
            _ => (0..r % 12).map(|i| char::from_u32((mix(*r, i) % 0x2ff) as u32).unwrap_or('x')).collect(),
        });
    }
    o.sort();
    o.dedup();
    o
}

fn by_name(e: &EnumDef, s: &str) -> Option<i128> { e.vars.iter().find(|v| bare(&v.name) == s).map(|v| v.disc) }
fn by_lower(e: &EnumDef, s: &str) -> Option<i128> { e.vars.iter().find(|v| bare(&v.name).to_lowercase() == s).map(|v| v.disc) }
fn opt(x: Option<i128>, f: &str) -> Exp { Exp::Eq(match x { Some(d) => format!("{}({})", f, d), None => "None".into() }) }

pub fn name_case(g: &G) -> Case {
        let es = enums(g);
        let mut ops = vec![];
        for (t, e) in es.iter().enumerate() {
            let all = e.vars.iter().map(|v| v.disc.to_string()).collect::<Vec<_>>().join(",");
            ops.push(Op::new(t, "AV".into(), Exp::Eq(all.clone()), e.vars.len() > 1));
            ops.push(Op::new(t, "AD".into(), Exp::Eq(all), e.vars.len() > 1));
            for v in &e.vars {
                ops.push(Op::new(t, format!("DS {}", v.disc), Exp::Eq(hex(bare(&v.name).as_bytes())), true));
                ops.push(Op::new(t, format!("DD {}", v.disc), Exp::Eq(hex(bare(&v.name).as_bytes())), true));
            }
            for s in strings(e, &g.v) {
                let h = hex(s.as_bytes());
                ops.push(Op::new(t, format!("FS {}", h), opt(by_name(e, &s), "Some"), true));
                ops.push(Op::new(t, format!("FL {}", h), opt(by_lower(e, &s), "Some"), true));
            }
        }
        case(&es, ops, "dops")
}

pub fn c08(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["ints", "enums", "enums_dyn"]);
    drive(ctx, &env, "names", ctx.n(40, 600), 8, &|| strat(4, 20), &|_, g: &G| name_case(g), st)
}

pub fn catch_case(g: &G) -> Case {
        let es = enums(g);
        let mut ops = vec![];
        for (t, e) in es.iter().enumerate() {
            let known = |x: i128| e.vars.iter().any(|v| v.disc == x);
            let xs = ints(e, &g.v);
            for x in &xs {
                ops.push(Op::new(t, format!("CF {}", x), Exp::Eq(format!("{}({}) {}", if known(*x) { "Enum" } else { "CatchAll" }, x, x)), true));
                let forms: &[&str] = if known(*x) { &["e", "f", "g", "c"] } else { &["c"] };
                for f in forms { ops.push(Op::new(t, format!("CT {}{}", f, x), Exp::Eq(x.to_string()), true)); }
                if known(*x) { ops.push(Op::new(t, format!("CD e{}", x), Exp::Eq(hex(bare(&e.vars.iter().find(|v| v.disc == *x).unwrap().name).as_bytes())), true)); }
                else { ops.push(Op::new(t, format!("CD c{}", x), Exp::Custom("hex_has_int".into(), json!(x.to_string())), true)); }
            }
            for (a, b) in ranges(e, false) {
                let mut d: Vec<i128> = e.vars.iter().map(|v| v.disc).filter(|d| a <= *d && *d <= b).collect();
                d.sort();
                ops.push(Op::new(t, format!("CX {} {}", a, b), Exp::Eq(d.iter().map(|d| format!("{}=Enum({})", d, d)).collect::<Vec<_>>().join(",")), true));
            }
            for (m, r) in &g.v {
                let x = xs[*r as usize % xs.len()];
                let y = if m % 3 == 0 { x } else { xs[(*r >> 20) as usize % xs.len()] };
                let f = |x: i128, s: u64| format!("{}{}", if known(x) && s % 2 == 0 { "e" } else { "c" }, x);
                ops.push(Op::new(t, format!("CE {} {}", f(x, r >> 40), f(y, r >> 41)), Exp::Eq(format!("{} {}", x == y, x != y)), true));
            }
            for s in strings(e, &g.v) {
                let h = hex(s.as_bytes());
                ops.push(Op::new(t, format!("CS {}", h), opt(by_name(e, &s), "Enum"), true));
                ops.push(Op::new(t, format!("CL {}", h), opt(by_lower(e, &s), "Enum"), true));
            }
            ops.push(Op::new(t, "CA".into(), Exp::Eq(e.vars.iter().map(|v| format!("e{}", v.disc)).collect::<Vec<_>>().join(",")), true));
        }
        case(&es, ops, "dops")
}

pub fn c10(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["ints", "enums", "enums_dyn"]);
    if let Some(v) = drive(ctx, &env, "standalone", ctx.n(24, 400), 8, &|| strat(4, 12), &|_, g: &G| catch_case(g), st) { return Some(v); }
    // as fields
    let env = std_env(&lib);
    let p = Profile { kinds: vec![(K::Cat, 8), (K::Native, 1), (K::Enum, 1), (K::Nested, 1)], n_hands: 0, n_inner: 1, n_vals: 12, n_bytes: 16, max_fields: 5, array: 60, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let has = m.leaves.iter().any(|l| matches!(l.kind, LeafKind::Cat(_)));
        let mut ops = vec![];
        for i in &g.vals {
            let v = values(&m.m, &m.leaves, i, true);
            ops.push(Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), has && nz(&v)));
            let v = values(&m.m, &m.leaves, i, false);
            if m.fits(&v) {
                let t = m.toks(&v);
                ops.push(Op::new(0, format!("RT {}", t), Exp::Eq(format!("EQ {}", t)), has && nz(&v)));
            }
        }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, m.nbytes, i);
            ops.push(Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), has && nzb(&b)));
            ops.push(Op::new(0, format!("UP {}", hex(&b)), up_exp(&m, &b), has && nzb(&b)));
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "fields", &p, ctx.n(20, 400), 14, &build, st)
}
