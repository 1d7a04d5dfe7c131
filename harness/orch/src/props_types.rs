//! Basic types, tuples, vectors, slices, sizes: types other than a single structure.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_int::ity;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;
use proptest::prelude::*;

// ------------------------------------------------------------------------------- model

#[derive(Clone, Debug)]
pub enum Ty { U8, I8, Bool, Unit, Arr(usize), Res(bool, usize), Help(bool, Prim, usize), St(usize), Tup(Vec<Ty>), Vec(Box<Ty>) }

#[derive(Clone, Debug)]
pub enum Val { I(i128), B(Vec<u8>), Nil, S(Vec<LV>), T(Vec<Val>) }

pub struct Types { pub m: Module, pub leaves: Vec<Vec<Leaf>> }

type Errs = Vec<String>;

impl Types {
    pub fn name(&self, t: &Ty) -> String {
        match t {
            Ty::U8 => "u8".into(), Ty::I8 => "i8".into(), Ty::Bool => "bool".into(), Ty::Unit => "()".into(),
            Ty::Arr(n) => format!("[u8; {}]", n),
            Ty::Res(one, n) => format!("{}<packed_bits::Bits::<{}>>", if *one { "ReservedOne" } else { "ReservedZero" }, n),
            Ty::Help(msb, p, n) => format!("{}Integer<{}, packed_bits::Bits::<{}>, {}>", if *msb { "Msb" } else { "Lsb" }, p.name(), n, ity(*p, *n)),
            Ty::St(i) => self.m.structs[*i].name.clone(),
            Ty::Tup(v) => format!("({},)", v.iter().map(|t| self.name(t)).collect::<Vec<_>>().join(", ")),
            Ty::Vec(t) => format!("Vec<{}>", self.name(t)),
        }
    }
    /// None: needs an instance
    pub fn size(&self, t: &Ty) -> Option<usize> {
        Some(match t {
            Ty::U8 | Ty::I8 | Ty::Bool => 1, Ty::Unit => 0, Ty::Arr(n) => *n,
            Ty::Res(_, n) | Ty::Help(_, _, n) => (n + 7) / 8,
            Ty::St(i) => self.m.structs[*i].num_bytes(),
            Ty::Tup(v) => { let mut s = 0; for t in v { s += self.size(t)?; } s }
            Ty::Vec(_) => return None,
        })
    }
    pub fn bits(&self, t: &Ty) -> usize {
        match t { Ty::U8 | Ty::I8 => 8, Ty::Bool => 1, Ty::Unit => 0, Ty::Arr(n) => n * 8, Ty::Res(_, n) | Ty::Help(_, _, n) => *n, Ty::St(i) => self.m.structs[*i].num_bits(), _ => unreachable!() }
    }
    pub fn val_size(&self, t: &Ty, v: &Val) -> usize {
        match (t, v) {
            (Ty::Tup(ts), Val::T(vs)) => ts.iter().zip(vs).map(|(t, v)| self.val_size(t, v)).sum(),
            (Ty::Vec(t), Val::T(vs)) => vs.len() * self.size(t).unwrap(),
            _ => self.size(t).unwrap(),
        }
    }
    pub fn pack(&self, t: &Ty, v: &Val) -> Result<Vec<u8>, Errs> {
        Ok(match (t, v) {
            (Ty::U8, Val::I(v)) | (Ty::I8, Val::I(v)) => vec![*v as u8],
            (Ty::Bool, Val::I(v)) => vec![*v as u8],
            (Ty::Unit, _) => vec![],
            (Ty::Arr(_), Val::B(b)) => b.clone(),
            (Ty::Res(one, n), _) => vec![if *one { 0xff } else { 0 }; (n + 7) / 8],
            (Ty::Help(msb, p, n), Val::I(v)) => help_pack(*msb, *n, wrap(*v, *n, p.signed())),
            (Ty::St(i), Val::S(lv)) => {
                let s = &self.m.structs[*i];
                for (l, v) in self.leaves[*i].iter().zip(lv) { if let (LeafKind::Hand(h), LV::Bytes(b)) = (&l.kind, v) { if self.m.hands[*h].fails && *b.last().unwrap() == HAND_BAD { return Err(vec!["ERR BitsError".into()]); } } }
                self.m.pack_leaves(&self.leaves[*i], s.num_bytes(), lv)
            }
            (Ty::Tup(ts), Val::T(vs)) => self.all(ts.iter().zip(vs))?,
            (Ty::Vec(t), Val::T(vs)) => self.all(vs.iter().map(|v| (&**t, v)))?,
            _ => panic!("type/value mismatch"),
        })
    }
    fn all<'a>(&self, it: impl Iterator<Item = (&'a Ty, &'a Val)>) -> Result<Vec<u8>, Errs> {
        let (mut o, mut e) = (vec![], vec![]);
        for (t, v) in it { match self.pack(t, v) { Ok(b) => o.extend(b), Err(x) => e.extend(x) } }
        if e.is_empty() { Ok(o) } else { Err(e) }
    }
    pub fn unpack(&self, t: &Ty, b: &[u8]) -> Result<Val, Errs> {
        let mism = |e: usize| Err(vec![format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }}", e, b.len())]);
        match t {
            Ty::Tup(ts) => {
                let dy = ts.iter().filter(|t| self.size(t).is_none()).count();
                if dy > 1 { return Err(vec!["ERR MoreThanOneDynamicType".into()]); }
                let st: usize = ts.iter().filter_map(|t| self.size(t)).sum();
                if b.len() < st || (dy == 0 && b.len() != st) { return mism(st); }
                let (mut o, mut e, mut p) = (vec![], vec![], 0);
                for t in ts {
                    let n = self.size(t).unwrap_or(b.len() - st);
                    match self.unpack(t, &b[p..p + n]) { Ok(v) => o.push(v), Err(x) => e.extend(x) }
                    p += n;
                }
                if e.is_empty() { Ok(Val::T(o)) } else { Err(e) }
            }
            Ty::Vec(t) => {
                let n = self.size(t).unwrap();
                if n == 0 { return if b.is_empty() { Ok(Val::T(vec![])) } else { Err(vec!["ERR a slice of items without bytes".into()]) }; }
                if b.len() % n != 0 { return Err(vec![format!("ERR BufferModMismatch {{ actual_size: {}, modulo_required: {} }}", b.len(), n)]); }
                let (mut o, mut e) = (vec![], vec![]);
                for c in b.chunks(n) { match self.unpack(t, c) { Ok(v) => o.push(v), Err(x) => e.extend(x) } }
                if e.is_empty() { Ok(Val::T(o)) } else { Err(e) }
            }
            _ => {
                let n = self.size(t).unwrap();
                if b.len() != n { return mism(n); }
                Ok(match t {
                    Ty::U8 => Val::I(b[0] as i128),
                    Ty::I8 => Val::I(b[0] as i8 as i128),
                    Ty::Bool => if b[0] > 1 { return Err(vec!["ERR InvalidValue".into()]) } else { Val::I(b[0] as i128) },
                    Ty::Unit | Ty::Res(..) => Val::Nil,
                    Ty::Arr(_) => Val::B(b.to_vec()),
                    Ty::Help(msb, p, n) => Val::I(help_unpack(*msb, *n, b, p.signed())),
                    Ty::St(i) => Val::S(self.m.unpack_leaves(&self.leaves[*i], b).map_err(|e| e.iter().map(|e| format!("ERR {}", e)).collect::<Vec<_>>())?),
                    _ => unreachable!(),
                })
            }
        }
    }
    fn put(&self, t: &Ty, v: &Val, o: &mut Vec<String>) {
        match (t, v) {
            (_, Val::I(v)) => o.push(v.to_string()),
            (_, Val::B(b)) => o.push(format!("x{}", hex(b))),
            (_, Val::Nil) => (),
            (Ty::St(i), Val::S(lv)) => { for (l, v) in self.leaves[*i].iter().zip(lv) { if let Some(t) = self.m.tok(l, v) { o.push(t); } } }
            (Ty::Tup(ts), Val::T(vs)) => for (t, v) in ts.iter().zip(vs) { self.put(t, v, o); },
            (Ty::Vec(t), Val::T(vs)) => { o.push(vs.len().to_string()); for v in vs { self.put(t, v, o); } }
            _ => panic!("type/value mismatch"),
        }
    }
    pub fn toks(&self, t: &Ty, v: &Val) -> String { let mut o = vec![]; self.put(t, v, &mut o); if o.is_empty() { "-".into() } else { o.join(",") } }

    pub fn val(&self, t: &Ty, g: &Inst, salt: &mut u64, bad: bool) -> Val {
        *salt += 1;
        let (m0, r0) = g[*salt as usize % g.len()];
        let (m, r) = (mix(m0 as u64, *salt) as u8, mix(r0, *salt));
        match t {
            Ty::U8 => Val::I([0, 255, 128, (r & 255) as i128][(m % 4) as usize]),
            Ty::I8 => Val::I([0, -1, -128, (r as i8) as i128][(m % 4) as usize]),
            Ty::Bool => Val::I((m % 2) as i128),
            Ty::Unit | Ty::Res(..) => Val::Nil,
            Ty::Arr(n) => Val::B((0..*n).map(|i| match m % 4 { 0 => 0, 1 => 0xff, _ => mix(r, i as u64) as u8 }).collect()),
            Ty::Help(_, p, n) => Val::I(wrap(crate::props_int::val(*p, *n, m, r), *n, p.signed())),
            Ty::St(i) => {
                let g2: Inst = (0..10).map(|k| (mix(r, 100 + k) as u8, mix(r, k))).collect();
                let mut v = values(&self.m, &self.leaves[*i], &g2, m % 4 == 0);
                if bad { if let Some(k) = self.leaves[*i].iter().position(|l| matches!(l.kind, LeafKind::Hand(h) if self.m.hands[h].fails)) { if let LV::Bytes(b) = &mut v[k] { *b.last_mut().unwrap() = HAND_BAD; } } }
                else { for (l, v) in self.leaves[*i].iter().zip(v.iter_mut()) { if let (LeafKind::Hand(_), LV::Bytes(b)) = (&l.kind, v) { if *b.last().unwrap() == HAND_BAD { *b.last_mut().unwrap() = 1; } } } }
                Val::S(v)
            }
            Ty::Tup(ts) => Val::T(ts.iter().map(|t| self.val(t, g, salt, bad)).collect()),
            Ty::Vec(t) => Val::T((0..match m % 8 { 0 => 0, 1..=5 => (r % 5) as usize, 6 => 1, _ => 5 + (r % 20) as usize }).map(|_| self.val(t, g, salt, bad)).collect()),
        }
    }
    /// content that mostly unpacks
    pub fn content(&self, t: &Ty, n: usize, g: &(u8, u64, Inst)) -> Vec<u8> {
        let mut b: Vec<u8> = match g.0 % 6 { 0 => vec![0; n], 1 => vec![0xff; n], _ => (0..n).map(|i| mix(g.1, i as u64) as u8).collect() };
        if g.0 % 6 >= 2 {
            // from a packed value, noise after it
            let mut salt = g.1 >> 8;
            let v = self.val(t, &g.2, &mut salt, false);
            if let Ok(p) = self.pack(t, &v) { if g.0 % 6 < 5 { let k = p.len().min(n); b[..k].copy_from_slice(&p[..k]); if n > k && k > 0 && g.1 % 2 == 0 { for i in k..n { b[i] = p[i % k]; } } } }
        }
        b
    }
    pub fn unpack_exp(&self, t: &Ty, b: &[u8]) -> Exp {
        match self.unpack(t, b) { Ok(v) => Exp::Eq(format!("OK {}", self.toks(t, &v))), Err(e) => Exp::Any(e) }
    }
    /// unpack, then pack into a slice of the reported size
    pub fn ups_exp(&self, t: &Ty, b: &[u8]) -> Exp {
        match self.unpack(t, b) { Ok(v) => Exp::Eq(format!("OK {}", hex(&self.pack(t, &v).unwrap()))), Err(e) => Exp::Any(e) }
    }
    pub fn ps_exp(&self, t: &Ty, v: &Val, len: usize) -> Exp {
        let n = self.val_size(t, v);
        let pat: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(37) ^ 0xC3).collect();
        if n != len { return Exp::Eq(format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }} {}", n, len, hex(&pat))); }
        match self.pack(t, v) {
            Ok(b) => Exp::Eq(format!("OK {}", hex(&b))),
            // a member's refusal: a whole structure is not touched, a tuple or vector may be written up to that member
            Err(e) => if matches!(t, Ty::Tup(_) | Ty::Vec(_)) { Exp::Prefix(format!("{} ", e[0])) } else { Exp::Eq(format!("{} {}", e[0], hex(&pat))) },
        }
    }
    pub fn pv_exp(&self, t: &Ty, v: &Val) -> Exp {
        match self.pack(t, v) { Ok(b) => Exp::Eq(format!("OK {}", hex(&b))), Err(e) => Exp::Any(e) }
    }
    pub fn sz_exp(&self, t: &Ty, v: &Val) -> Exp {
        Exp::Eq(format!("{} Ok({})", self.size(t).map_or("Err(InstanceRequiredForSize)".into(), |n| format!("Ok({})", n)), self.val_size(t, v)))
    }
    pub fn case(&self, ts: &[Ty], ops: Vec<Op>, classes: Vec<&'static str>) -> Case { self.case_f(ts, ops, classes, "sops") }
    pub fn case_f(&self, ts: &[Ty], ops: Vec<Op>, classes: Vec<&'static str>, f: &str) -> Case {
        let mut m = Module { enums: self.m.enums.clone(), hands: self.m.hands.clone(), structs: self.m.structs.clone() };
        let mut roots = vec![];
        fn used(t: &Ty, o: &mut Vec<usize>) { match t { Ty::St(i) => o.push(*i), Ty::Tup(v) => for t in v { used(t, o) }, Ty::Vec(t) => used(t, o), _ => () } }
        for t in ts { used(t, &mut roots); }
        let names: Vec<String> = ts.iter().map(|t| self.name(t)).collect();
        prune(&mut m, &roots);
        let mut body = decls(&m);
        body.push_str("pub fn run(t: usize, op: &str, args: &str) -> String { match t {\n");
        for (i, n) in names.iter().enumerate() { body.push_str(&format!("    {} => {}::<{}>(op, args),\n", i, f, n)); }
        body.push_str("    _ => \"BADTYPE\".into() } }\n");
        let d = user_decl(&m);
        Case { body, ops, decl: format!("{}{}", d, names.iter().map(|n| format!("type: {}\n", n)).collect::<String>()), classes, must_reject: false, early: false, may_reject: false }
    }
}

pub fn help_pack(msb: bool, n: usize, x: i128) -> Vec<u8> {
    let nb = (n + 7) / 8;
    if msb { return (0..nb).map(|i| (x >> (8 * (nb - 1 - i))) as u8).collect(); }
    let mut o = vec![0u8; nb];
    for i in 0..n {
        let p = nb * 8 - n + stream_pos(n, true, i);
        if x >> i & 1 == 1 { o[p / 8] |= 0x80 >> (p % 8); }
    }
    o
}
pub fn help_unpack(msb: bool, n: usize, b: &[u8], signed: bool) -> i128 {
    let nb = b.len();
    let mut x = 0i128;
    for i in 0..n {
        let p = nb * 8 - n + stream_pos(n, !msb, i);
        x |= ((b[p / 8] >> (7 - p % 8) & 1) as i128) << i;
    }
    wrap(x, n, signed)
}

// ------------------------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct TG { pub k: u8, pub a: u16, pub b: u8, pub kids: Vec<TG> }

fn tg(depth: u32) -> BoxedStrategy<TG> {
    let leaf = (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(k, a, b)| TG { k, a, b, kids: vec![] });
    if depth == 0 { return leaf.boxed(); }
    (any::<u8>(), any::<u16>(), any::<u8>(), prop::collection::vec(tg(depth - 1), 1..=4)).prop_map(|(k, a, b, kids)| TG { k, a, b, kids }).boxed()
}

/// a fixed-size type (zero-sized only if allowed)
fn fixed(ts: &Types, g: &TG, zero: bool) -> Ty {
    let nst = ts.m.structs.len();
    let t = match g.k % 16 {
        0 | 1 => Ty::U8, 2 => Ty::I8, 3 => Ty::Bool,
        4 => Ty::Unit,
        5 | 6 => Ty::Arr(if g.a % 8 == 0 { 0 } else { 1 + g.a as usize % 40 }),
        7 => Ty::Res(g.b % 2 == 0, 1 + g.a as usize % 64),
        8 | 9 => { let p = PRIMS[g.b as usize % 8]; let (lo, hi) = p.bracket(); Ty::Help(g.a % 2 == 0, p, lo + (g.a as usize / 2) % (hi - lo + 1)) }
        10 | 11 if !g.kids.is_empty() => Ty::Tup(g.kids.iter().map(|k| fixed(ts, k, true)).collect()),
        _ => Ty::St(g.a as usize % nst),
    };
    if !zero && ts.size(&t) == Some(0) { Ty::U8 } else { t }
}

fn types(g: &CG, p: &Profile) -> Types {
    let mut m = realize(g, p);
    // helper types have no equality of their own, and nothing here needs it
    for (i, s) in m.structs.iter_mut().enumerate() { s.name = format!("S{}", i); }
    let leaves = m.structs.iter().map(|s| m.leaves(s).0).collect();
    Types { m, leaves }
}

fn sprof() -> Profile { Profile { n_inner: 2, n_enums: 2, n_hands: 2, max_fields: 4, max_units: 14, hand_fails: true, huge: false, n_vals: 6, n_bytes: 6, array: 40, ..Profile::default() } }

pub type SG2 = (CG, Vec<TG>, Vec<Inst>, Vec<(u8, u64, Inst)>);
pub fn sstrat(depth: u32, n: usize, vals: usize, bytes: usize) -> BoxedStrategy<SG2> {
    (cg(&Profile { n_vals: 0, n_bytes: 0, ..sprof() }), prop::collection::vec(tg(depth), n), prop::collection::vec(inst(), vals), prop::collection::vec((any::<u8>(), any::<u64>(), inst()), bytes)).boxed()
}

/// lengths around a size
fn lengths(n: usize, r: u64) -> Vec<usize> {
    let mut o: Vec<usize> = (0..=n.min(24) + 8).collect();
    o.extend([n.saturating_sub(1), n, n + 1, n + 8, n + 64, n + 256, n * 2, n + 1 + (r % 300) as usize, (r % (n as u64 + 1)) as usize, 512, n + 65536 * (r % 40 == 7) as usize]);
    o.sort();
    o.dedup();
    o
}

pub fn slice_case(g: &SG2) -> Case {
        let p = sprof();
        let ts = types(&g.0, &p);
        let mut tys: Vec<Ty> = g.1.iter().map(|t| { let t = TG { kids: vec![], ..t.clone() }; fixed(&ts, &t, true) }).collect();
        tys.push(Ty::St(ts.m.structs.len() - 1));
        let mut ops = vec![];
        let mut classes = vec![];
        for (k, t) in tys.iter().enumerate() {
            let n = ts.size(t).unwrap();
            classes.push(match t { Ty::St(_) => "derived structure", Ty::Help(..) => "msb/lsb helper", Ty::Arr(_) => "byte array", Ty::Res(..) => "reserved", _ => "basic type" });
            for (vi, i) in g.2.iter().enumerate() {
                let mut salt = vi as u64 * 17;
                let v = ts.val(t, i, &mut salt, vi % 4 == 3);
                let tk = ts.toks(t, &v);
                ops.push(Op::new(k, format!("PV {}", tk), ts.pv_exp(t, &v), true));
                ops.push(Op::new(k, format!("SZ {}", tk), ts.sz_exp(t, &v), true));
                for (li, l) in lengths(n, i[0].1).into_iter().enumerate() {
                    if l == n || (li + vi) % g.2.len() == 0 || l + 2 > n && l < n + 3 { ops.push(Op::new(k, format!("PS {} {}", l, tk), ts.ps_exp(t, &v, l), true)); }
                }
            }
            for (vi, c) in g.3.iter().enumerate() {
                for (li, l) in lengths(n, c.1).into_iter().enumerate() {
                    if l == n || (li + vi) % g.3.len() == 0 || l + 2 > n && l < n + 3 { let b = ts.content(t, l, c); ops.push(Op::new(k, format!("US {}", hex(&b)), ts.unpack_exp(t, &b), true)); }
                }
            }
        }
        ts.case(&tys, ops, classes)
}

pub fn c11(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["types", "vec"]);
    if let Some(v) = drive(ctx, &env, "slices", ctx.n(32, 500), 8, &|| sstrat(0, 3, 5, 6), &|_, g: &SG2| slice_case(g), st) { return Some(v); }
    // the array and the slice interface of one structure
    let env = std_env(&lib);
    let p = Profile { n_vals: 6, n_bytes: 6, hand_fails: true, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let n = m.nbytes;
        let mut ops = vec![];
        for (k, i) in g.vals.iter().enumerate() {
            let v = values(&m.m, &m.leaves, i, true);
            let t = m.toks(&v);
            let e = m.pack_exp(&v);
            ops.push(Op::new(0, format!("P {}", t), e.clone(), nz(&v)));
            ops.push(Op::new(0, format!("PV {}", t), e.clone(), nz(&v)));
            let pat = |l: usize| hex(&(0..l).map(|i| (i as u8).wrapping_mul(37) ^ 0xC3).collect::<Vec<u8>>());
            let e2 = match &e { Exp::Eq(s) if s.starts_with("ERR") => Exp::Eq(format!("{} {}", s, pat(n))), e => e.clone() };
            ops.push(Op::new(0, format!("PS {} {}", n, t), e2, nz(&v)));
            for l in [n.wrapping_sub(1), n + 1, (i[0].1 % 2048) as usize, 0, n + 256] { if l < 10000 && l != n && (k % 2 == 0 || l + 1 == n) { ops.push(Op::new(0, format!("PS {} {}", l, t), Exp::Eq(format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }} {}", n, l, pat(l))), true)); } }
        }
        for i in &g.bytes {
            let b = bytes(&m.m, &m.leaves, n, i);
            let e = m.unpack_exp(&b);
            ops.push(Op::new(0, format!("U {}", hex(&b)), e.clone(), nzb(&b)));
            ops.push(Op::new(0, format!("US {}", hex(&b)), e, nzb(&b)));
            for l in [n - 1, n + 1, (i.1 % 2048) as usize, n * 2, n + 256] { if l != n { let mut c = b.clone(); c.resize(l, 0x5A); ops.push(Op::new(0, format!("US {}", hex(&c)), Exp::Eq(format!("ERR BufferSizeMismatch {{ expected: {}, actual: {} }}", n, l)), true)); } }
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "structures", &p, ctx.n(20, 400), 14, &build, st)
}

fn tuple(ts: &Types, g: &[TG], arity: usize, dynamic: u64, depth: usize) -> Ty {
    // `dynamic`: 0 none, 1 one at some position, 2 two
    let mut v: Vec<Ty> = (0..arity).map(|i| fixed(ts, &g[i % g.len()], true)).collect();
    let (kind, pos) = (dynamic % 8, (dynamic >> 8) as usize);
    if kind >= 2 {
        let item = fixed(ts, &g[pos % g.len()], false);
        let p = pos % arity;
        v[p] = if depth > 0 && kind >= 5 { tuple(ts, &g[1..], 1 + (pos >> 4) % 4, 2 + (dynamic >> 16) % 5, depth - 1) } else { Ty::Vec(Box::new(item)) };
        if kind == 7 && arity > 1 { let q = (p + 1 + (pos >> 8) % (arity - 1)) % arity; v[q] = Ty::Vec(Box::new(fixed(ts, &g[(pos + 1) % g.len()], false))); }
    }
    Ty::Tup(v)
}

fn dyns(ts: &Types, t: &Ty) -> usize { match t { Ty::Tup(v) => v.iter().filter(|t| ts.size(t).is_none()).count(), _ => 0 } }

/// `dynamic`: with vectors among the members
pub fn tuple_case(n: usize, g: &SG2, dynamic: bool) -> Case {
        let p = sprof();
        let ts = types(&g.0, &p);
        let mut tys = vec![];
        for k in 0..4 {
            let h = mix(g.1[k].a as u64, 3 + g.1[k].b as u64);
            // every arity in every run
            let arity = if k == 0 { n % 10 + 1 } else { 1 + (h >> 20) as usize % 10 };
            let gs: Vec<TG> = (0..10).map(|i| g.1[(i * (k + 1) + k) % g.1.len()].clone()).collect();
            let mut gs2 = gs.clone();
            for (i, x) in gs2.iter_mut().enumerate() { x.k = x.k.wrapping_add((k * 5 + i) as u8); }
            tys.push(tuple(&ts, &gs2, arity, if dynamic { h } else { 0 }, 2));
        }
        let mut ops = vec![];
        let mut classes = vec![];
        for (k, t) in tys.iter().enumerate() {
            classes.push(match dyns(&ts, t) { 0 => "no dynamic member", 1 => "one dynamic member", _ => "two dynamic members" });
            if let Ty::Tup(v) = t { classes.push(["", "arity 1", "arity 2", "arity 3", "arity 4", "arity 5", "arity 6", "arity 7", "arity 8", "arity 9", "arity 10"][v.len()]); if v.iter().any(|t| matches!(t, Ty::Tup(_))) { classes.push("nested tuple"); } }
            for (vi, i) in g.2.iter().enumerate() {
                let mut salt = vi as u64 * 17;
                let v = ts.val(t, i, &mut salt, vi % 4 == 3);
                let tk = ts.toks(t, &v);
                let n = ts.val_size(t, &v);
                ops.push(Op::new(k, format!("PV {}", tk), ts.pv_exp(t, &v), true));
                ops.push(Op::new(k, format!("SZ {}", tk), ts.sz_exp(t, &v), true));
                for l in [n, n + 1, n.wrapping_sub(1), n + 1 + (i[0].1 % 40) as usize, (i[1].1 % (n as u64 + 1)) as usize, n + 256] { if l < 100000 { ops.push(Op::new(k, format!("PS {} {}", l, tk), ts.ps_exp(t, &v, l), true)); } }
                if let Ok(b) = ts.pack(t, &v) {
                    ops.push(Op::new(k, format!("US {}", hex(&b)), ts.unpack_exp(t, &b), true));
                    ops.push(Op::new(k, format!("UPS {}", hex(&b)), ts.ups_exp(t, &b), true));
                }
            }
            let st: usize = if let Ty::Tup(v) = t { v.iter().map(|t| ts.size(t).unwrap_or(0)).sum() } else { 0 };
            for (vi, c) in g.3.iter().enumerate() {
                for l in [st, st + 1, st.saturating_sub(1), 0, vi, (c.1 % (st as u64 + 20)) as usize, st + 1 + (c.1 >> 9) as usize % 40, st + 256] { let b = ts.content(t, l, c); ops.push(Op::new(k, format!("US {}", hex(&b)), ts.unpack_exp(t, &b), true)); }
            }
        }
        ts.case(&tys, ops, classes)
}

pub fn c12(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["types", "vec"]);
    drive(ctx, &env, "tuples", ctx.n(40, 600), 6, &|| sstrat(1, 8, 6, 6), &|n, g: &SG2| tuple_case(n, g, true), st)
}

pub fn vec_case(g: &SG2) -> Case {
        let p = sprof();
        let ts = types(&g.0, &p);
        let mut tys: Vec<Ty> = g.1.iter().map(|t| Ty::Vec(Box::new(fixed(&ts, t, false)))).collect();
        tys.push(Ty::Vec(Box::new(Ty::St(ts.m.structs.len() - 1))));
        let mut ops = vec![];
        let mut classes = vec![];
        for (k, t) in tys.iter().enumerate() {
            let item = if let Ty::Vec(i) = t { &**i } else { unreachable!() };
            let n = ts.size(item).unwrap();
            classes.push(match item { Ty::St(_) => "items: derived structure", Ty::Help(..) => "items: msb/lsb helper", Ty::Arr(_) => "items: byte array", Ty::Tup(_) => "items: tuple", _ => "items: basic or reserved" });
            for (vi, i) in g.2.iter().enumerate() {
                let mut salt = vi as u64 * 17;
                let v = ts.val(t, i, &mut salt, vi % 4 == 3);
                let tk = ts.toks(t, &v);
                let sz = ts.val_size(t, &v);
                ops.push(Op::new(k, format!("PV {}", tk), ts.pv_exp(t, &v), sz > 0));
                ops.push(Op::new(k, format!("SZ {}", tk), ts.sz_exp(t, &v), true));
                for l in [sz, sz + 1, sz.wrapping_sub(1), sz + n, sz.wrapping_sub(n), (i[0].1 % (sz as u64 + 40)) as usize, sz + 256] { if l < 100000 { ops.push(Op::new(k, format!("PS {} {}", l, tk), ts.ps_exp(t, &v, l), true)); } }
            }
            for (vi, c) in g.3.iter().enumerate() {
                let mut ls: Vec<usize> = (0..=(3 * n + 3).min(40)).filter(|l| l % 6 == vi % 6).collect();
                ls.extend([0, n, 2 * n, 5 * n, (1 + (c.1 >> 30) as usize % 30) * n, (1 + (c.1 >> 30) as usize % 30) * n + 1 + (c.1 >> 40) as usize % n, n * 256 / (1 + n / 8)]);
                for l in ls { let b = ts.content(t, l, c); ops.push(Op::new(k, format!("US {}", hex(&b)), ts.unpack_exp(t, &b), l > 0)); if l % n == 0 && l % 2 == 0 { ops.push(Op::new(k, format!("UPS {}", hex(&b)), ts.ups_exp(t, &b), l > 0)); } }
            }
        }
        // items without bytes: nothing to pack, nothing to read, and no slice may panic
        let none = [Ty::Unit, Ty::Arr(0), Ty::Tup(vec![Ty::Unit]), Ty::Tup(vec![Ty::Arr(0), Ty::Unit, Ty::Arr(0)])];
        let pick = g.1.first().map_or(0, |t| t.a as usize);
        let t = Ty::Vec(Box::new(none[pick % none.len()].clone()));
        for (vi, i) in g.2.iter().enumerate() {
            let v = ts.val(&t, i, &mut (vi as u64 * 17), false);
            let tk = ts.toks(&t, &v);
            ops.push(Op::new(tys.len(), format!("PV {}", tk), ts.pv_exp(&t, &v), true));
            ops.push(Op::new(tys.len(), format!("SZ {}", tk), ts.sz_exp(&t, &v), true));
            for l in [0, 1, 2, (i[0].1 % 300) as usize] { ops.push(Op::new(tys.len(), format!("PS {} {}", l, tk), ts.ps_exp(&t, &v, l), true)); }
        }
        ops.push(Op::new(tys.len(), "US ".into(), Exp::Eq("OK 0".into()), true));
        for c in &g.3 { let n = 1 + (c.1 % 40) as usize; let b = ts.content(&Ty::Arr(n), n, c); ops.push(Op::new(tys.len(), format!("US {}", hex(&b)), Exp::NoPanic, true)); }
        tys.push(t);
        classes.push("items without bytes");
        // items whose size is known only given an instance: refused, never guessed
        let vec8 = Ty::Vec(Box::new(Ty::U8));
        let some = [vec8.clone(), Ty::Tup(vec![Ty::U8, vec8.clone()]), Ty::Vec(Box::new(Ty::St(ts.m.structs.len() - 1))), Ty::Tup(vec![vec8, Ty::Bool])];
        let t = Ty::Vec(Box::new(some[pick / 4 % some.len()].clone()));
        let e = "ERR InstanceRequiredForSize";
        for c in &g.3 { let n = (c.1 % 20) as usize; let b = ts.content(&Ty::Arr(n), n, c); ops.push(Op::new(tys.len(), format!("US {}", hex(&b)), Exp::Any(vec![e.into(), "OK 0".into()][..if n == 0 { 2 } else { 1 }].to_vec()), n > 0)); }
        for (vi, i) in g.2.iter().enumerate() {
            let v = ts.val(&t, i, &mut (vi as u64 * 17), false);
            if matches!(&v, Val::T(x) if x.is_empty()) { continue; }
            let tk = ts.toks(&t, &v);
            ops.push(Op::new(tys.len(), format!("PV {}", tk), Exp::Eq(e.into()), true));
            ops.push(Op::new(tys.len(), format!("SZ {}", tk), Exp::Eq("Err(InstanceRequiredForSize) Err(InstanceRequiredForSize)".into()), true));
            let l = (i[0].1 % 30) as usize;
            ops.push(Op::new(tys.len(), format!("PS {} {}", l, tk), Exp::Prefix(format!("{} ", e)), true));
        }
        tys.push(t);
        classes.push("items of unknown size");
        ts.case(&tys, ops, classes)
}

pub fn c13(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["types", "vec"]);
    drive(ctx, &env, "vectors", ctx.n(36, 600), 8, &|| sstrat(1, 3, 6, 6), &|_, g: &SG2| vec_case(g), st)
}

pub fn c26(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["types", "vec"]);
    let build = |n: usize, g: &Vec<(u8, u64, Inst)>| {
        let ts = Types { m: Module::default(), leaves: vec![] };
        let mut tys = vec![Ty::U8, Ty::I8, Ty::Bool, Ty::Unit];
        // every length up to 127 once per run, and some longer ones
        for k in 0..8 { tys.push(Ty::Arr((n * 8 + k) % 128)); }
        tys.push(Ty::Arr(128 + (g[0].1 % 400) as usize));
        tys.push(Ty::Arr([256, 255, 257, 1024, 1000, 2048, 512, 300][n % 8]));
        let mut ops = vec![];
        for (k, t) in tys.iter().enumerate() {
            let sz = ts.size(t).unwrap();
            let mut contents: Vec<Vec<u8>> = g.iter().map(|c| ts.content(&Ty::Arr(sz), sz, c)).collect();
            if sz == 1 { contents = (0..=255u8).map(|b| vec![b]).collect(); }
            for b in contents {
                let nt = sz > 0;
                let r = ts.unpack(t, &b);
                let h = hex(&b);
                ops.push(Op::new(k, format!("U {}", h), ts.unpack_exp(t, &b), nt));
                ops.push(Op::new(k, format!("US {}", h), ts.unpack_exp(t, &b), nt));
                if let Ok(v) = &r {
                    let tk = ts.toks(t, v);
                    ops.push(Op::new(k, format!("P {}", tk), ts.pv_exp(t, v), nt));
                    ops.push(Op::new(k, format!("PV {}", tk), ts.pv_exp(t, v), nt));
                    ops.push(Op::new(k, format!("RT {}", tk), Exp::Eq(format!("EQ {}", tk)), nt));
                    ops.push(Op::new(k, format!("UP {}", h), Exp::Eq(format!("OK {} true true", h)), nt));
                    ops.push(Op::new(k, format!("I {}", h), Exp::Eq(format!("{} Ok({}) Some(Ok({})) {} {}", ts.bits(t), sz, sz, sz, sz)), nt));
                }
            }
        }
        ts.case_f(&tys, ops, vec!["basic types"], "ops")
    };
    drive(ctx, &env, "basic", ctx.n(16, 64), 1, &|| prop::collection::vec((any::<u8>(), any::<u64>(), inst()), ctx.n(24, 120)).boxed(), &build, st)
}

pub fn c21(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = std_env(&lib);
    if let Some(v) = c21_structs(ctx, &env, st) { return Some(v); }
    // helpers, reserved types, tuples and vectors
    let env = parts_env(&lib, &["types", "vec"]);
    let p = sprof();
    let build = |n: usize, g: &SG2| {
        let ts = types(&g.0, &p);
        let mut tys: Vec<Ty> = g.1.iter().map(|t| fixed(&ts, t, true)).collect();
        tys.push(Ty::Vec(Box::new(fixed(&ts, &g.1[0], false))));
        tys.push(tuple(&ts, &g.1, n % 10 + 1, g.1[1].a as u64, 1));
        let mut ops = vec![];
        for (k, t) in tys.iter().enumerate() {
            for (vi, i) in g.2.iter().enumerate() {
                let mut salt = vi as u64 * 17;
                let v = ts.val(t, i, &mut salt, false);
                let tk = ts.toks(t, &v);
                ops.push(Op::new(k, format!("SZ {}", tk), ts.sz_exp(t, &v), true));
                ops.push(Op::new(k, format!("PV {}", tk), ts.pv_exp(t, &v), true));
            }
        }
        ts.case(&tys, ops, vec!["helpers, tuples, vectors"])
    };
    if let Some(v) = drive(ctx, &env, "types", ctx.n(12, 200), 8, &|| sstrat(1, 4, 4, 0), &build, st) { return Some(v); }
    // every sized integer and its helpers
    let ienv = parts_env(&lib, &["ints"]);
    if let Some(v) = drive(ctx, &ienv, "ints", 8, 1, &|| crate::props_int::strat(1), &|i, _| crate::props_int::size_case(i), st) { return Some(v); }
    // every bit width type, in every table size
    for (feat, max) in [("", 32usize), ("byte_types_64", 64), ("byte_types_256", 256)] {
        let cfg = if feat.is_empty() { LibCfg::std() } else { LibCfg::with(&["std", feat], false) };
        let lib = match try_build_lib(&cfg) { Ok(l) => l, Err(e) => return Some(report_build(ctx, &cfg, &e)) };
        let env = Env { lib: &lib, opts: CompileOpts::default() };
        let nbits = max * 8 - 1;
        let chunk = 64;
        let cases = (nbits + chunk - 1) / chunk;
        let build = |i: usize, g: &Vec<u64>| {
            let mut body = String::from("use packed_struct::types::bits::{NumberOfBits, NumberOfBytes, ByteArray, BitsFullBytes, BitsPartialBytes};\nfn b<B: NumberOfBits>(v: u8) -> String where B: PartialEq { let a = <<B::Bytes as NumberOfBytes>::AsBytes as ByteArray>::new(v); format!(\"{} {} {} {} {} {}\", B::number_of_bits(), B::byte_array_len(), <B::Bytes as NumberOfBytes>::number_of_bytes(), <<B::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len(), a.as_bytes_slice().len(), a.as_bytes_slice().iter().all(|x| *x == v)) }\nfn full<B: BitsFullBytes>() {}\nfn partial<B: BitsPartialBytes>() {}\npub fn run(t: usize, op: &str, args: &str) -> String { let v: u8 = args.parse().unwrap(); match t {\n");
            let mut ops = vec![];
            for (k, n) in (1 + i * chunk..=((i + 1) * chunk).min(nbits)).enumerate() {
                body.push_str(&format!("    {} => {{ {}::<packed_bits::Bits::<{}>>(); b::<packed_bits::Bits::<{}>>(v) }}\n", n, if n % 8 == 0 { "full" } else { "partial" }, n, n));
                let nb = (n + 7) / 8;
                ops.push(Op::new(n, format!("- {}", g[k % g.len()] & 255), Exp::Eq(format!("{} {} {} {} {} true", n, nb, nb, nb, nb)), true));
            }
            body.push_str("    _ => \"BADTYPE\".into() } }\n");
            Case { body, ops, decl: format!("Bits::<{}>..", 1 + i * chunk), classes: vec!["bit width types"], must_reject: false, early: false, may_reject: false }
        };
        if let Some(v) = drive(ctx, &env, &format!("bits{}", max), (cases + 3) / 4, 4, &|| prop::collection::vec(any::<u64>(), 8).boxed(), &|i, g| build(i.min(cases - 1), g), st) { return Some(v); }
        st.notes.insert(format!("bit_widths_{}", max), serde_json::json!(format!("1..={}", nbits)));
    }
    None
}
