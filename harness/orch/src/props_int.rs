//! Sized and native integers: conversions, byte forms, serialization.

use crate::engine::*;
use crate::props_struct::parts_env;
use crate::run::*;
use crate::spec::*;
use proptest::prelude::*;

type G = Vec<(u8, u64)>;

/// all sized types of one native type
pub fn widths(p: Prim) -> Vec<usize> { let (a, b) = p.bracket(); (a..=b).collect() }
pub fn ity(p: Prim, n: usize) -> String { format!("Integer<{}, packed_bits::Bits::<{}>>", p.name(), n) }

/// a native value: biased to the edges of the sized type and of the native type
pub fn val(p: Prim, n: usize, m: u8, r: u64) -> i128 {
    let e = |v: i128| wrap(v, p.bits(), p.signed());
    let top = 1i128 << n;
    let half = 1i128 << (n - 1);
    e(match m % 12 {
        0 => r as i128,
        1 => top - 1 - (r % 3) as i128,
        2 => top + (r % 3) as i128,
        3 => half - 1 - (r % 3) as i128,
        4 => half + (r % 3) as i128,
        5 => -half - (r % 3) as i128,
        6 => -half + (r % 3) as i128,
        7 => 1i128 << (r % p.bits() as u64),
        8 => !(1i128 << (r % p.bits() as u64)),
        9 => (r % 4) as i128 - 2,
        10 => wrap(r as i128, n, p.signed()),
        _ => p.max() - (r % 2) as i128,
    })
}

/// the `n` low bits as bytes, most significant first, sign extended to whole bytes
fn be(v: i128, bytes: usize) -> Vec<u8> { (0..bytes).map(|i| (v >> (8 * (bytes - 1 - i))) as u8).collect() }

fn run_src(p: Prim, f: &str, extra: &str) -> String {
    let mut o = String::from("pub fn run(t: usize, op: &str, args: &str) -> String { match t {\n");
    for (i, n) in widths(p).iter().enumerate() { o.push_str(&format!("    {} => {}::<{}, packed_bits::Bits::<{}>>(op, args),\n", i, f, p.name(), n)); }
    o.push_str(extra);
    o.push_str("    _ => \"BADTYPE\".into() } }\n");
    o
}

pub fn strat(n: usize) -> BoxedStrategy<G> { prop::collection::vec((any::<u8>(), any::<u64>()), n).boxed() }

/// `full`: every value of the 8-bit types
pub fn convert_case(i: usize, g: &G, full: bool) -> Case {
        let p = PRIMS[i % 8];
        let mut ops = vec![];
        let mut extra = String::new();
        let ws = widths(p);
        if p.signed() { for (k, n) in ws.iter().enumerate() { extra.push_str(&format!("    {} => sext::<{}, packed_bits::Bits::<{}>>(args),\n", 100 + k, p.name(), n)); } }
        for (k, n) in ws.iter().enumerate() {
            ops.push(Op::new(k, "D".into(), Exp::Eq(format!("0 {}", wrap((1i128 << n) - 1, p.bits(), p.signed()))), true));
            let mut vals: Vec<i128> = if full && p.bits() == 8 { (p.min()..=p.max()).collect() } else { vec![] };
            let edges: Vec<i128> = (0..12u8).flat_map(|m| (0..if full { 6 } else { 2 }).map(move |r| val(p, *n, m, r * 11))).collect();
            vals.extend(edges);
            if !full || p.bits() > 8 { for (j, (m, r)) in g.iter().enumerate() { vals.push(val(p, *n, m.wrapping_add(j as u8), mix(*r, k as u64))); } }
            for (j, v) in vals.iter().enumerate() {
                ops.push(Op::new(k, format!("V {}", v), Exp::Eq(wrap(*v, *n, p.signed()).to_string()), *v != 0));
                if j % 3 == 0 {
                    let w = if j % 2 == 0 { vals[(j * 7 + 3) % vals.len()] } else { wrap(*v ^ (1i128 << (j % p.bits())), p.bits(), p.signed()) };
                    let eq = wrap(*v, *n, p.signed()) == wrap(w, *n, p.signed());
                    ops.push(Op::new(k, format!("E {} {}", v, w), Exp::Eq(format!("{} {}", eq, !eq)), true));
                }
                if p.signed() { ops.push(Op::new(100 + k, format!("- {}", v), Exp::Eq(wrap(*v, *n, true).to_string()), *v != 0)); }
            }
        }
        Case { body: run_src(p, "iops", &extra), ops, decl: format!("{} .. {}", ity(p, ws[0]), ity(p, *ws.last().unwrap())), classes: vec!["native type"], must_reject: false, early: false, may_reject: false }
}

pub fn c05(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["ints"]);
    let per_width = ctx.n(700, 12000);
    drive(ctx, &env, "convert", 8, 1, &|| strat(per_width), &|i, g: &G| convert_case(i, g, true), st)
}

/// the sizes every sized integer and helper reports
pub fn size_case(i: usize) -> Case {
    let p = PRIMS[i % 8];
    let ws = widths(p);
    let ops = ws.iter().enumerate().map(|(k, n)| { let nb = (n + 7) / 8; Op::new(k, "I".into(), Exp::Eq(format!("{} {} {} {} {} {}", n, nb, n, n, nb, nb)), true) }).collect();
    Case { body: run_src(p, "iops", ""), ops, decl: format!("{} .. {}", ity(p, ws[0]), ity(p, *ws.last().unwrap())), classes: vec!["sized integers and helpers"], must_reject: false, early: false, may_reject: false }
}

pub fn bytes_case(i: usize, g: &G, full: bool) -> Case {
        let p = PRIMS[i % 8];
        let ws = widths(p);
        let nat = 100;
        let extra = format!("    {} => nops::<{}>(op, args),\n", nat, p.name());
        let mut ops = vec![];
        let mut allvals: Vec<i128> = vec![];
        for (k, n) in ws.iter().enumerate() {
            let nb = (n + 7) / 8;
            let r = n % 8;
            ops.push(Op::new(k, "I".into(), Exp::Eq(format!("{} {} {} {} {} {}", n, nb, n, n, nb, nb)), true));
            let mut vals: Vec<i128> = if full && p.bits() == 8 { (p.min()..=p.max()).collect() } else { (0..12u8).flat_map(|m| (0..if full { 3 } else { 1 }).map(move |r| val(p, *n, m, r * 11))).collect() };
            for (j, (m, r)) in g.iter().enumerate() { vals.push(val(p, *n, m.wrapping_add(j as u8), mix(*r, k as u64))); }
            for v in &vals {
                let x = wrap(*v, *n, p.signed());
                let m = be(x, nb);
                let mut l = m.clone();
                l.reverse();
                // helper: whole bytes from the least significant one, then the leftover bits, padded in front
                let mut bits: Vec<u8> = vec![];
                for k in 0..n / 8 { for b in (0..8).rev() { bits.push((x >> (8 * k + b) & 1) as u8); } }
                for b in (0..r).rev() { bits.push((x >> (8 * (n / 8) + b) & 1) as u8); }
                let mut hl = vec![0u8; nb];
                for (q, b) in bits.iter().enumerate() { let pos = nb * 8 - n + q; hl[pos / 8] |= b << (7 - pos % 8); }
                ops.push(Op::new(k, format!("N {}", v), Exp::Eq(format!("{} {} {} {} {} {} {} {} true true", hex(&m), hex(&l), x, x, hex(&m), hex(&hl), x, x)), x != 0));
            }
            for (j, (m, rr)) in g.iter().enumerate() {
                let b: Vec<u8> = (0..nb).map(|q| match m % 6 { 0 => 0xff, 1 => if q == j % nb { 1 << (rr % 8) } else { 0 }, 2 => if q == j % nb { !(1 << (rr % 8)) } else { 0xff }, _ => mix(*rr, (k * 16 + q) as u64) as u8 }).collect();
                let num = |it: &mut dyn Iterator<Item = &u8>| wrap(it.fold(0i128, |a, b| a << 8 | *b as i128), *n, p.signed());
                let um = num(&mut b.iter());
                let ul = num(&mut b.iter().rev());
                // helper: skip the padding
                let bit = |q: usize| (b[q / 8] >> (7 - q % 8) & 1) as i128;
                let pad = nb * 8 - n;
                let mut hv = 0i128;
                for k in 0..n / 8 { let mut byte = 0; for q in 0..8 { byte = byte << 1 | bit(pad + 8 * k + q); } hv |= byte << (8 * k); }
                let mut top = 0;
                for q in 0..r { top = top << 1 | bit(pad + 8 * (n / 8) + q); }
                hv |= top << (8 * (n / 8));
                ops.push(Op::new(k, format!("Y {}", hex(&b)), Exp::Eq(format!("{} {} {} {}", um, ul, um, wrap(hv, *n, p.signed()))), nb > 0));
            }
            allvals.extend(vals);
        }
        // the native type itself
        let nb = p.bits() / 8;
        for v in allvals.iter().step_by(3) {
            let m = be(*v, nb);
            let mut l = m.clone();
            l.reverse();
            ops.push(Op::new(nat, format!("N {}", v), Exp::Eq(format!("{} {} {} {}", hex(&m), hex(&l), v, v)), *v != 0));
            let w = |b: &[u8]| wrap(b.iter().fold(0i128, |a, b| a << 8 | *b as i128), p.bits(), p.signed());
            ops.push(Op::new(nat, format!("Y {}", hex(&m)), Exp::Eq(format!("{} {}", w(&m), w(&l))), *v != 0));
        }
        Case { body: run_src(p, "iops", &extra), ops, decl: format!("{} .. {}", ity(p, ws[0]), ity(p, *ws.last().unwrap())), classes: vec!["native type"], must_reject: false, early: false, may_reject: false }
}

pub fn c06(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["ints"]);
    let per_width = ctx.n(400, 8000);
    drive(ctx, &env, "bytes", 8, 1, &|| strat(per_width), &|i, g: &G| bytes_case(i, g, true), st)
}

pub fn c23(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let cfg = LibCfg::with(&["std", "use_serde"], false);
    let lib = match try_build_lib(&cfg) { Ok(l) => l, Err(e) => return Some(report_build(ctx, &cfg, &e)) };
    let mut env = parts_env(&lib, &["ints", "serde"]);
    env.opts.externs = vec!["serde".into(), "serde_json".into()];
    let per_width = ctx.n(250, 5000);
    let build = |i: usize, g: &G| {
        let mut ops = vec![];
        if i % 9 == 8 {
            // errors and reserved types
            let mut o = String::from("pub fn run(t: usize, op: &str, args: &str) -> String { match t {\n");
            for k in 0..32 {
                let n = 1 + (g[k % g.len()].1 as usize >> 3) % 255;
                o.push_str(&format!("    {} => rops::<{}<packed_bits::Bits::<{}>>>(),\n", k, if k % 2 == 0 { "ReservedZero" } else { "ReservedOne" }, n));
                ops.push(Op::new(k, "R".into(), Exp::Eq("true true true".into()), true));
            }
            o.push_str("    _ => { let mut p = args.split(' '); perr(op, p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap()) } } }\n");
            for (m, r) in g {
                let a = match m % 3 { 0 => *r, 1 => r % 1000, _ => u64::MAX - r % 2 };
                let b = mix(*r, 5) >> (m % 64);
                for k in ["InvalidValue", "BitsError", "BufferTooSmall", "NotImplemented", "InstanceRequiredForSize", "MoreThanOneDynamicType", "InternalError"] {
                    if a % 5 == 0 { ops.push(Op::new(900, format!("{} {} {}", k, a, b), Exp::Eq(format!("true {} true", k)), true)); }
                }
                ops.push(Op::new(900, format!("BufferSizeMismatch {} {}", a, b), Exp::Eq(format!("true BufferSizeMismatch {{ expected: {}, actual: {} }} true", a, b)), true));
                ops.push(Op::new(900, format!("BufferModMismatch {} {}", a, b), Exp::Eq(format!("true BufferModMismatch {{ actual_size: {}, modulo_required: {} }} true", a, b)), true));
                ops.push(Op::new(900, format!("SliceIndexingError {} {}", a, b), Exp::Eq(format!("true SliceIndexingError {{ slice_len: {} }} true", a)), true));
            }
            return Case { body: o, ops, decl: "PackingError, ReservedZero<_>, ReservedOne<_>".into(), classes: vec!["errors and reserved types"], must_reject: false, early: false, may_reject: false };
        }
        let p = PRIMS[i % 9];
        let ws = widths(p);
        for (k, n) in ws.iter().enumerate() {
            for (j, (m, r)) in g.iter().enumerate() {
                let v = val(p, *n, m.wrapping_add(j as u8), mix(*r, k as u64));
                let x = wrap(v, *n, p.signed());
                ops.push(Op::new(k, format!("S {}", v), Exp::Eq(format!("{} true true true true true", x)), x != 0));
                ops.push(Op::new(k, format!("D {}", hex(v.to_string().as_bytes())), Exp::Eq(format!("OK {} {} true", v, x)), x != v));
                // beyond the native type, or no integer at all
                let (text, nt) = match (j + k) % 8 {
                    0 => ((p.max() + 1 + (r % 3) as i128).to_string(), true),
                    1 => ((p.min() - 1 - (r % 3) as i128).to_string(), true),
                    2 => ((p.max() + 1 + (*r as i128)).to_string(), true),
                    3 => (["1.5", "\"1\"", "null", "true", "[1]", "{}", "1e300", "\"\"", "-", "0.0", "{\"num\":1}", "[[1]]"][(r % 12) as usize].to_string(), true),
                    _ => continue,
                };
                ops.push(Op::new(k, format!("D {}", hex(text.as_bytes())), Exp::Eq("ERR true".into()), nt));
            }
        }
        Case { body: run_src(p, "yops", ""), ops, decl: format!("{} .. {}", ity(p, ws[0]), ity(p, *ws.last().unwrap())), classes: vec!["native type"], must_reject: false, early: false, may_reject: false }
    };
    drive(ctx, &env, "serde", 9, 1, &|| strat(per_width), &build, st)
}
