//! Properties decided on generated structure declarations.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::run::*;
use crate::spec::*;
use proptest::strategy::Strategy;

pub struct M { pub m: Module, pub leaves: Vec<Leaf>, pub units: Vec<Unit>, pub nbytes: usize, pub top: usize }

pub fn module(g: &CG, p: &Profile) -> M {
    let mut m = realize(g, p);
    let top = m.structs.len() - 1;
    prune(&mut m, &[top]);
    let top = m.structs.len() - 1;
    let (leaves, units) = m.leaves(&m.structs[top]);
    let nbytes = m.structs[top].num_bytes();
    M { m, leaves, units, nbytes, top }
}

impl M {
    pub fn s(&self) -> &StructDef { &self.m.structs[self.top] }
    pub fn pack_exp(&self, v: &[LV]) -> Exp {
        for (l, v) in self.leaves.iter().zip(v) {
            if let (LeafKind::Hand(h), LV::Bytes(b)) = (&l.kind, v) { if self.m.hands[*h].fails && *b.last().unwrap() == HAND_BAD { return Exp::Eq("ERR BitsError".into()); } }
        }
        Exp::Eq(format!("OK {}", hex(&self.m.pack_leaves(&self.leaves, self.nbytes, v))))
    }
    pub fn unpack_exp(&self, b: &[u8]) -> Exp {
        match self.m.unpack_leaves(&self.leaves, b) {
            Ok(v) => Exp::Eq(format!("OK {}", self.m.toks(&self.leaves, &v))),
            Err(e) => Exp::Any(e.iter().map(|e| format!("ERR {}", e)).collect()),
        }
    }
    pub fn toks(&self, v: &[LV]) -> String { self.m.toks(&self.leaves, v) }
    pub fn fits(&self, v: &[LV]) -> bool { self.leaves.iter().zip(v).all(|(l, v)| self.m.fits(l, v)) }
    pub fn case(&self, ops: Vec<Op>, run: String) -> Case {
        Case { body: format!("{}{}", decls(&self.m), run), ops, decl: user_decl(&self.m), classes: self.classes(), must_reject: false, early: false, may_reject: false }
    }
    pub fn run1(&self) -> String { run_fn(&[self.s().name.clone()]) }
    pub fn classes(&self) -> Vec<&'static str> {
        let mut c = vec![];
        let s = self.s();
        c.push(match s.numbering { Numbering::None => "numbering: none", Numbering::Msb0 => "numbering: msb0", Numbering::Lsb0 => "numbering: lsb0" });
        if s.size_bytes.is_some() { c.push("declared size"); }
        if s.num_bytes() > 32 { c.push("more than 32 bytes"); }
        let mut sorted = true;
        let mut gap = false;
        for w in s.fields.windows(2) { if w[1].start < w[0].start { sorted = false; } if w[1].start > w[0].end() + 1 { gap = true; } }
        if !sorted { c.push("declared out of order"); }
        if gap { c.push("has gaps"); }
        if s.fields.iter().any(|f| f.end() > 4000) { c.push("position beyond 4000"); }
        let mut add = |x: &'static str| if !c.contains(&x) { c.push(x) };
        for f in &s.fields {
            match f.kind {
                Kind::Bool => add("field: bool"), Kind::Native(p) => { add("field: native int"); if f.ew < p.bits() { add("native int narrower than type") } }
                Kind::Sized(..) => add("field: sized int"), Kind::Enum(_) => add("field: enum"), Kind::Cat(_) => add("field: catch-all"),
                Kind::Res(..) => add("field: reserved"), Kind::Nested(_) => add("field: nested derived"), Kind::Hand(_) => add("field: nested hand-written"), Kind::Helper(..) => add("field: msb/lsb helper"),
            }
            if f.count.is_some() { add("field: array"); }
            if f.n() > 100 { add("array of hundreds of elements"); }
            if f.lsb { add("little-endian field"); if f.ew % 8 != 0 { add("little-endian partial width"); } }
            if f.ew > 8 && (f.start % 8 != 0 || f.end() % 8 != 7) { add("misaligned multi-byte field"); }
            if f.ew >= 256 { add("field of 32 bytes or more"); }
        }
        c
    }
}

pub fn go(ctx: &Ctx, env: &Env, label: &str, p: &Profile, batches: usize, per: usize, build: &(dyn Fn(&CG) -> Case + Sync), st: &mut Stats) -> Option<Violation> {
    drive(ctx, env, label, batches, per, &|| cg(p), &|_, g: &CG| build(g), st)
}

pub fn nz(v: &[LV]) -> bool { v.iter().any(|x| match x { LV::Int(i) => *i != 0, LV::Raw(_) => true, LV::Bytes(b) => b.iter().any(|b| *b != 0), LV::None => false }) }
pub fn nzb(b: &[u8]) -> bool { b.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0xff) }

pub fn std_env(lib: &Lib) -> Env<'_> { Env { lib, opts: CompileOpts::default() } }

pub fn parts_env<'a>(lib: &'a Lib, parts: &[&str]) -> Env<'a> { Env { lib, opts: CompileOpts { parts: parts.iter().map(|s| s.to_string()).collect(), ..CompileOpts::default() } } }

/// Structures of more than two megabytes, with the fields around bit 2^24.
fn giant(ctx: &Ctx, env: &Env, packing: bool, st: &mut Stats) -> Option<Violation> {
    let n = if packing { (3, 0) } else { (0, 3) };
    let p = Profile { n_vals: n.0, n_bytes: n.1, numbering: (0, 2, 1), long: false, far: false, base: (1 << 24) - 60, max_units: 24, max_fields: 7, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let mut ops: Vec<Op> = g.vals.iter().map(|i| { let v = values(&m.m, &m.leaves, i, true); Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), nz(&v)) }).collect();
        ops.extend(g.bytes.iter().map(|i| { let mut i = i.clone(); i.0 = if i.0 % 2 == 0 { 7 } else { 5 }; let b = bytes(&m.m, &m.leaves, m.nbytes, &i); Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), true) }));
        let mut c = m.case(ops, m.run1());
        c.classes.push("more than two megabytes");
        c
    };
    go(ctx, env, "giant", &p, ctx.n(8, 64), 1, &build, st)
}

pub fn c01(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 16, n_bytes: 0, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let ops = g.vals.iter().map(|i| { let v = values(&m.m, &m.leaves, i, true); Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), nz(&v)) }).collect();
        m.case(ops, m.run1())
    };
    if let Some(v) = go(ctx, &env, "pack", &p, ctx.n(40, 700), 16, &build, st) { return Some(v); }
    giant(ctx, &env, true, st)
}

pub fn c02(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 0, n_bytes: 24, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let ops = g.bytes.iter().map(|i| { let b = bytes(&m.m, &m.leaves, m.nbytes, i); Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), nzb(&b)) }).collect();
        m.case(ops, m.run1())
    };
    if let Some(v) = go(ctx, &env, "unpack", &p, ctx.n(40, 700), 16, &build, st) { return Some(v); }
    giant(ctx, &env, false, st)
}

pub fn up_exp(m: &M, b: &[u8]) -> Exp {
    match m.m.unpack_leaves(&m.leaves, b) {
        Ok(v) => {
            let p = m.m.pack_leaves(&m.leaves, m.nbytes, &v);
            Exp::Eq(format!("OK {} true true", hex(&p)))
        }
        Err(e) => Exp::Any(e.iter().map(|e| format!("ERR {}", e)).collect()),
    }
}

pub fn c03(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 12, n_bytes: 14, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let mut ops = vec![];
        for i in &g.vals {
            let v = values(&m.m, &m.leaves, i, false);
            if !m.fits(&v) { continue; }
            let t = m.toks(&v);
            ops.push(Op::new(0, format!("RT {}", t), Exp::Eq(format!("EQ {}", t)), nz(&v)));
        }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, m.nbytes, i);
            ops.push(Op::new(0, format!("UP {}", hex(&b)), up_exp(&m, &b), nzb(&b)));
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "roundtrip", &p, ctx.n(40, 700), 16, &build, st)
}

pub fn c04(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile {
        kinds: vec![(K::Native, 6), (K::Sized, 8), (K::Enum, 3), (K::Cat, 3), (K::Helper, 1), (K::Bool, 2)],
        wide: true, n_inner: 0, n_hands: 0, n_vals: 10, n_bytes: 10, array: 60, max_fields: 8, ..Profile::default()
    };
    let build = |g: &CG| {
        let m = module(g, &p);
        let mut ops = vec![];
        for i in &g.vals { let v = values(&m.m, &m.leaves, i, true); ops.push(Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), nz(&v))); }
        for i in &g.bytes { let b = bytes(&m.m, &m.leaves, m.nbytes, i); ops.push(Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), nzb(&b))); }
        m.case(ops, m.run1())
    };
    if let Some(v) = go(ctx, &env, "order", &p, ctx.n(32, 600), 16, &build, st) { return Some(v); }
    // neither setting: refused
    let build = |g: &CG| {
        let mut g = g.clone();
        // make sure there is a field wider than 8 bits
        g.outer.fields[0].kind = 0;
        g.outer.fields[0].cnt = if g.outer.fields[0].cnt % 4 == 0 { g.outer.fields[0].cnt } else { 255 };
        g.outer.fields[0].b = g.outer.fields[0].b % 6;
        let mut m = module(&g, &p);
        let t = m.top;
        let s = &mut m.m.structs[t];
        s.default_endian = None;
        for f in &mut s.fields { if f.ew > 8 { f.endian_attr = None; for l in &mut f.attrs { l.retain(|a| a.0 != "endian"); } } }
        let mut c = m.case(vec![], m.run1());
        if m.s().fields.iter().any(|f| f.int_like() && f.ew > 8) { c.must_reject = true; c.early = true; c.classes.push("missing byte order"); }
        c
    };
    go(ctx, &env, "missing", &p, ctx.n(4, 60), 16, &build, st)
}

pub fn c09(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { kinds: vec![(K::Enum, 8), (K::Native, 1), (K::Bool, 1), (K::Cat, 1), (K::Nested, 3)], n_inner: 2, n_hands: 0, n_vals: 0, n_bytes: 30, max_fields: 5, array: 60, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let has = m.leaves.iter().any(|l| matches!(l.kind, LeafKind::Enum(_)));
        let mut classes = m.classes();
        let ops: Vec<Op> = g.bytes.iter().enumerate().map(|(n, i)| {
            let mut i = i.clone();
            // mostly valid bytes, and valid bytes with one enum replaced by a near miss
            if n % 3 != 0 { i.0 = 7; }
            let mut b = bytes(&m.m, &m.leaves, m.nbytes, &i);
            if n % 3 == 2 && has {
                let en: Vec<&Leaf> = m.leaves.iter().filter(|l| matches!(l.kind, LeafKind::Enum(_))).collect();
                let l = en[(i.1 >> 8) as usize % en.len()];
                if let LeafKind::Enum(e) = l.kind {
                    let vs = &m.m.enums[e].vars;
                    let d = vs[(i.1 >> 20) as usize % vs.len()].disc + [1, -1, 2, 16, 128, 256][(i.1 >> 40) as usize % 6];
                    for (j, p) in l.bits.iter().enumerate() { if let Some(p) = p { let m = 0x80 >> (p % 8); b[p / 8] &= !m; if (d >> (l.w - 1 - j)) & 1 == 1 { b[p / 8] |= m; } } }
                }
            }
            let e = m.unpack_exp(&b);
            classes.push(if matches!(e, Exp::Eq(_)) { "input: accepted" } else { "input: rejected" });
            Op::new(0, format!("U {}", hex(&b)), e, has)
        }).collect();
        let mut c = m.case(ops, m.run1());
        c.classes = classes;
        c
    };
    go(ctx, &env, "enum", &p, ctx.n(32, 600), 16, &build, st)
}

pub fn c14(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { array: 200, max_fields: 5, n_vals: 10, n_bytes: 10, max_units: 60, ..Profile::default() };
    let build = |g: &CG| {
        let mut m = module(g, &p);
        let mut twin = m.s().clone();
        twin.name = "T1".into();
        let mut fs = vec![];
        let taken: Vec<String> = twin.fields.iter().map(|f| f.name.clone()).collect();
        for f in &twin.fields {
            match f.count {
                None => fs.push(f.clone()),
                Some(c) => for i in 0..c {
                    let mut e = f.clone();
                    e.name = format!("{}_e{}", f.name, i);
                    while taken.contains(&e.name) { e.name.push('x'); }
                    e.count = None;
                    e.start = f.start + i * f.ew;
                    fs.push(e);
                },
            }
        }
        twin.fields = fs;
        spell(&mut twin, &m.m, &g.extra, false);
        m.m.structs.push(twin);
        let arr = m.s().fields.iter().any(|f| f.count.is_some());
        let mut ops = vec![];
        for i in &g.vals {
            let v = values(&m.m, &m.leaves, i, true);
            for t in 0..2 { ops.push(Op::new(t, format!("P {}", m.toks(&v)), m.pack_exp(&v), arr && nz(&v))); }
        }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, m.nbytes, i);
            for t in 0..2 { ops.push(Op::new(t, format!("U {}", hex(&b)), m.unpack_exp(&b), arr && nzb(&b))); }
        }
        m.case(ops, run_fn(&["T0".into(), "T1".into()]))
    };
    go(ctx, &env, "array", &p, ctx.n(32, 500), 12, &build, st)
}

pub fn c15(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile {
        kinds: vec![(K::Nested, 7), (K::Hand, 6), (K::Native, 2), (K::Bool, 2), (K::Helper, 1), (K::Enum, 1), (K::Sized, 1)],
        n_hands: 3, n_inner: 4, hand_fails: true, max_fields: 5, n_vals: 12, n_bytes: 12, ..Profile::default()
    };
    let build = |g: &CG| {
        let m = module(g, &p);
        let nested = m.s().fields.iter().any(|f| matches!(f.kind, Kind::Nested(_) | Kind::Hand(_)));
        let mut ops = vec![];
        for i in &g.vals { let v = values(&m.m, &m.leaves, i, true); ops.push(Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), nested && nz(&v))); }
        for i in &g.bytes {
            let mut b = bytes(&m.m, &m.leaves, m.nbytes, i);
            // sometimes plant the byte that the hand-written type refuses
            let hl: Vec<&Leaf> = m.leaves.iter().filter(|l| matches!(l.kind, LeafKind::Hand(h) if m.m.hands[h].fails)).collect();
            if i.1 % 4 == 3 && !hl.is_empty() {
                let l = hl[(i.1 >> 8) as usize % hl.len()];
                for k in 0..8 { if let Some(p) = l.bits[l.w - 8 + k] { let mk = 0x80 >> (p % 8); b[p / 8] &= !mk; if HAND_BAD >> (7 - k) & 1 == 1 { b[p / 8] |= mk; } } }
            }
            ops.push(Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), nested && nzb(&b)));
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "nested", &p, ctx.n(36, 600), 14, &build, st)
}

pub fn c16(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { kinds: vec![(K::Res, 7), (K::Native, 2), (K::Bool, 2), (K::Sized, 2), (K::Enum, 1), (K::Nested, 2)], n_hands: 0, n_inner: 2, n_vals: 6, n_bytes: 16, array: 80, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let has = m.leaves.iter().any(|l| matches!(l.kind, LeafKind::ResZero | LeafKind::ResOne));
        let mut ops = vec![];
        for i in &g.vals { let v = values(&m.m, &m.leaves, i, true); ops.push(Op::new(0, format!("P {}", m.toks(&v)), m.pack_exp(&v), has)); }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, m.nbytes, i);
            ops.push(Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), has));
            ops.push(Op::new(0, format!("UP {}", hex(&b)), up_exp(&m, &b), has));
        }
        m.case(ops, m.run1())
    };
    if let Some(v) = go(ctx, &env, "fields", &p, ctx.n(24, 400), 14, &build, st) { return Some(v); }
    // standalone, every supported width
    use proptest::prelude::*;
    let strat = || prop::collection::vec((any::<u8>(), any::<u64>()), 6).boxed();
    let build = |n: usize, g: &Vec<(u8, u64)>| {
        // one case covers 16 widths, 32 cases cover every width of both kinds
        let mut body = String::new();
        let mut types = vec![];
        let mut ops = vec![];
        for k in 0..16usize {
            let one = n % 2 == 1;
            let n = ((n / 2) * 16 + k) % 255 + 1;
            let nb = (n + 7) / 8;
            types.push(format!("{}<packed_bits::Bits::<{}>>", if one { "ReservedOne" } else { "ReservedZero" }, n));
            let c = vec![if one { 0xff } else { 0u8 }; nb];
            ops.push(Op::new(k, "P -".into(), Exp::Eq(format!("OK {}", hex(&c))), true));
            for (m, r) in g {
                let b: Vec<u8> = (0..nb).map(|i| match m % 3 { 0 => 0, 1 => 0xff, _ => mix(*r, i as u64) as u8 }).collect();
                ops.push(Op::new(k, format!("U {}", hex(&b)), Exp::Eq("OK -".into()), true));
                ops.push(Op::new(k, format!("UP {}", hex(&b)), Exp::Eq(format!("OK {} true true", hex(&c))), true));
                ops.push(Op::new(k, format!("I {}", hex(&b)), Exp::Eq(format!("{} Ok({}) Some(Ok({})) {} {}", n, nb, nb, nb, nb)), true));
            }
        }
        body.push_str(&run_fn(&types));
        Case { body, ops, decl: types.join(", "), classes: vec!["standalone reserved"], must_reject: false, early: false, may_reject: false }
    };
    let env = parts_env(&lib, &["types"]);
    drive(ctx, &env, "standalone", ctx.n(16, 64), 2, &strat, &build, st)
}

pub fn c20(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 6, n_bytes: 6, max_fields: 6, n_inner: 1, n_hands: 1, huge: false, array: 60, gaps: 120, max_units: 30, ..Profile::default() };
    let build = |g: &CG| {
        let mut m = module(g, &p);
        let mut types = vec!["T0".to_string()];
        for k in 0..3 {
            let mut t = m.s().clone();
            t.name = format!("T{}", k + 1);
            let sps: Vec<u16> = (0..t.fields.len()).map(|i| g.extra[(i + k * 7) % g.extra.len()].wrapping_add((k * i) as u16)).collect();
            // automatic placement from the start, wherever that is the same layout
            let same = t.fields.windows(2).all(|w| w[1].start == w[0].end() + 1) && t.fields[0].start == 0 && (t.num_bits() % 8 == 0 || t.size_bytes.is_some());
            if same && k == 0 { t.numbering = if t.numbering == Numbering::None { Numbering::Msb0 } else { Numbering::None }; }
            if k == 1 && t.size_bytes.is_some() { t.numbering = if t.numbering == Numbering::Lsb0 { Numbering::Msb0 } else { Numbering::Lsb0 }; }
            if k == 2 { t.split_attrs = !t.split_attrs; }
            spell(&mut t, &m.m, &sps, false);
            types.push(t.name.clone());
            m.m.structs.push(t);
        }
        let mut ops = vec![];
        for i in &g.vals { let v = values(&m.m, &m.leaves, i, true); for t in 0..types.len() { ops.push(Op::new(t, format!("P {}", m.toks(&v)), m.pack_exp(&v), nz(&v))); } }
        for i in &g.bytes { let b = bytes(&m.m, &m.leaves, m.nbytes, i); for t in 0..types.len() { ops.push(Op::new(t, format!("U {}", hex(&b)), m.unpack_exp(&b), nzb(&b))); } }
        let mut c = m.case(ops, run_fn(&types));
        for s in &m.m.structs[m.top..] { for f in &s.fields { for l in &f.attrs { for (k, v) in l {
            c.classes.push(match (k.as_str(), v.contains("..="), v.contains(".."), v.contains(':'), v.trim_end().ends_with("..") || v.trim_end().ends_with(':')) {
                ("bits", _, _, _, true) => "spelling: bits start", ("bytes", _, _, _, true) => "spelling: bytes start",
                ("bits", true, ..) => "spelling: bits ..=", ("bits", false, true, ..) => "spelling: bits ..", ("bits", _, _, true, _) => "spelling: bits :", ("bits", ..) => "spelling: single bit",
                ("bytes", true, ..) => "spelling: bytes ..=", ("bytes", _, _, true, _) => "spelling: bytes :", ("bytes", ..) => "spelling: single byte",
                ("size_bits", ..) => "spelling: size_bits", ("size_bytes", ..) => "spelling: size_bytes", ("element_size_bits", ..) => "spelling: element_size_bits", ("element_size_bytes", ..) => "spelling: element_size_bytes",
                _ => continue,
            });
        } } if !f.attrs.iter().flatten().any(|a| a.0 == "bits" || a.0 == "bytes") { c.classes.push("spelling: automatic"); } } }
        c
    };
    if let Some(v) = go(ctx, &env, "spelling", &p, ctx.n(32, 500), 10, &build, st) { return Some(v); }
    crate::props_accept::exclusive_bytes(ctx, &env, st)
}

pub fn c21_structs(ctx: &Ctx, env: &Env, st: &mut Stats) -> Option<Violation> {
    let p = Profile { n_vals: 0, n_bytes: 6, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let bits = m.s().num_bits();
        let nb = m.nbytes;
        let mut ops = vec![];
        let mut types = vec![];
        for (t, s) in m.m.structs.iter().enumerate() {
            types.push(s.name.clone());
            let (lv, _) = m.m.leaves(s);
            let (bits, nb) = (s.num_bits(), s.num_bytes());
            for i in &g.bytes {
                let b = bytes(&m.m, &lv, nb, i);
                let e = match m.m.unpack_leaves(&lv, &b) {
                    Ok(_) => format!("{} Ok({}) Some(Ok({})) {} {}", bits, nb, nb, nb, nb),
                    Err(_) => format!("{} Ok({}) None {} -1", bits, nb, nb),
                };
                ops.push(Op::new(t, format!("I {}", hex(&b)), Exp::Eq(e), bits % 8 != 0 || s.fields.len() > 1));
            }
        }
        let _ = (bits, nb);
        m.case(ops, run_fn(&types))
    };
    go(ctx, env, "sizes", &p, ctx.n(28, 400), 16, &build, st)
}

pub fn c24(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 6, n_bytes: 6, max_fields: 7, numbering: (0, 1, 0), n_inner: 2, explicit_only: true, array: 60, max_units: 40, huge: false, ..Profile::default() };
    let build = |g: &CG| {
        let mut m = module(g, &p);
        let t0 = m.top;
        { let nb = m.nbytes; let s = &mut m.m.structs[t0]; s.size_bytes = Some(nb); s.size_text = Some(nb.to_string()); }
        let mut types = vec!["T0".to_string()];
        let mut perms: Vec<Vec<usize>> = vec![(0..m.s().fields.len()).collect()];
        for k in 0..3 {
            let mut t = m.s().clone();
            t.name = format!("T{}", k + 1);
            let mut perm: Vec<usize> = (0..t.fields.len()).collect();
            if k > 0 {
                perm.sort_by_key(|i| g.extra[(*i + k) % g.extra.len()]);
                t.fields = perm.iter().map(|i| m.s().fields[*i].clone()).collect();
            }
            if k != 1 { t.numbering = Numbering::Lsb0; }
            let sps: Vec<u16> = (0..t.fields.len()).map(|i| g.extra[(i * 3 + k) % g.extra.len()]).collect();
            spell(&mut t, &m.m, &sps, true);
            types.push(t.name.clone());
            perms.push(perm);
            m.m.structs.push(t);
        }
        // leaf lists per declared order
        let by_field: Vec<Vec<usize>> = (0..m.s().fields.len()).map(|f| (0..m.leaves.len()).filter(|l| m.units[m.leaves[*l].unit].field == f).collect()).collect();
        let tk = |perm: &Vec<usize>, v: &[LV]| -> String {
            let idx: Vec<usize> = perm.iter().flat_map(|f| by_field[*f].clone()).collect();
            let t: Vec<String> = idx.iter().filter_map(|i| m.m.tok(&m.leaves[*i], &v[*i])).collect();
            if t.is_empty() { "-".into() } else { t.join(",") }
        };
        let mut ops = vec![];
        for i in &g.vals { let v = values(&m.m, &m.leaves, i, true); for t in 0..types.len() { ops.push(Op::new(t, format!("P {}", tk(&perms[t], &v)), m.pack_exp(&v), nz(&v))); } }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, m.nbytes, i);
            let r = m.m.unpack_leaves(&m.leaves, &b);
            for t in 0..types.len() {
                let e = match &r { Ok(v) => Exp::Eq(format!("OK {}", tk(&perms[t], v))), Err(e) => Exp::Any(e.iter().map(|e| format!("ERR {}", e)).collect()) };
                ops.push(Op::new(t, format!("U {}", hex(&b)), e, nzb(&b)));
            }
        }
        let mut c = m.case(ops, run_fn(&types));
        if perms.iter().any(|p| p.windows(2).any(|w| w[0] > w[1])) { c.classes.push("permuted twin"); }
        c
    };
    go(ctx, &env, "mirror", &p, ctx.n(32, 500), 10, &build, st)
}

pub fn c25(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    let p = Profile { n_vals: 20, n_bytes: 20, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let mut ops = vec![];
        let cand: Vec<usize> = (0..m.leaves.len()).filter(|i| !matches!(m.leaves[*i].kind, LeafKind::ResOne | LeafKind::ResZero)).collect();
        let tokidx = |l: usize| cand.iter().position(|c| *c == l);
        if !cand.is_empty() {
            for (k, w) in g.vals.chunks(2).enumerate() {
                if w.len() < 2 { break; }
                let wide = k % 2 == 0;
                let a = values(&m.m, &m.leaves, &w[0], wide);
                let b2 = values(&m.m, &m.leaves, &w[1], wide);
                let j = cand[g.extra[k % g.extra.len()] as usize % cand.len()];
                let mut b = a.clone();
                b[j] = b2[j].clone();
                if let LeafKind::Bool = m.leaves[j].kind { if let LV::Int(x) = a[j] { b[j] = LV::Int(1 - x); } }
                let l = &m.leaves[j];
                let num = |v: &LV| match v { LV::Raw(x) => LV::Int(*x), v => v.clone() };
                let distinct = m.m.fits(l, &a[j]) && m.m.fits(l, &b[j]) && num(&a[j]) != num(&b[j]);
                let mut mask = vec![0u8; m.nbytes];
                for p in l.bits.iter().flatten() { mask[p / 8] |= 0x80 >> (p % 8); }
                ops.push(Op::new(0, format!("PX {}|{}", m.toks(&a), m.toks(&b)), Exp::Within(hex(&mask), distinct), distinct));
            }
        }
        for i in &g.bytes {
            let mut i = i.clone();
            if i.0 % 12 < 7 && i.0 % 3 != 0 { i.0 = 7; }
            let a = bytes(&m.m, &m.leaves, m.nbytes, &i);
            let p = (mix(i.1, 77) as usize) % (m.nbytes * 8);
            let mut b = a.clone();
            b[p / 8] ^= 0x80 >> (p % 8);
            let ra = m.m.unpack_leaves(&m.leaves, &a);
            let rb = m.m.unpack_leaves(&m.leaves, &b);
            let exp = match (&ra, &rb) {
                (Ok(x), Ok(y)) => {
                    let d: Vec<usize> = (0..x.len()).filter(|k| x[*k] != y[*k]).filter_map(tokidx).collect();
                    Exp::Eq(format!("OK {:?} {}", d, x == y))
                }
                _ => {
                    let f = |r: &Result<Vec<LV>, Vec<String>>| match r { Ok(_) => vec!["OK".to_string()], Err(e) => e.iter().map(|e| format!("ERR {}", e)).collect() };
                    Exp::Any(f(&ra).iter().flat_map(|x| f(&rb).into_iter().map(move |y| format!("{} {}", x, y))).collect())
                }
            };
            let nt = ra.is_ok() && rb.is_ok();
            ops.push(Op::new(0, format!("UX {}|{}", hex(&a), hex(&b)), exp, nt));
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "isolation", &p, ctx.n(36, 600), 16, &build, st)
}

#[allow(unused)]
fn unused(_: &dyn Fn()) { let _ = |x: proptest::strategy::BoxedStrategy<u8>| x.boxed(); }
