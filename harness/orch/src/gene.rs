//! proptest strategies for genes, and their interpretation as valid declarations.

use crate::spec::*;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub struct FG { pub kind: u8, pub a: u16, pub b: u16, pub cnt: u8, pub gap: u8, pub sp: u16, pub en: u8, pub nm: u8, pub ord: u8 }
#[derive(Clone, Debug)]
pub struct SG { pub fields: Vec<FG>, pub num: u8, pub def_en: u8, pub size: u8, pub flags: u8, pub scale: u8 }
#[derive(Clone, Debug)]
pub struct VG { pub mode: u8, pub v: u64, pub nm: u8 }
#[derive(Clone, Debug)]
pub struct EG { pub vars: Vec<VG>, pub back: u8, pub style: u8 }
#[derive(Clone, Debug)]
pub struct HG { pub b: u8, pub w: u8, pub flags: u8 }
pub type Inst = Vec<(u8, u64)>;
#[derive(Clone, Debug)]
pub struct CG {
    pub enums: Vec<EG>,
    pub hands: Vec<HG>,
    pub inner: Vec<SG>,
    pub outer: SG,
    pub vals: Vec<Inst>,
    pub bytes: Vec<(u8, u64, Inst)>,
    pub extra: Vec<u16>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Bool, Native, Sized, Enum, Cat, Res, Nested, Hand, Helper }

#[derive(Clone, Debug)]
pub struct Profile {
    pub kinds: Vec<(K, u32)>,
    pub max_fields: usize,
    /// out of 256
    pub array: u8,
    pub max_units: usize,
    pub n_inner: usize,
    pub n_enums: usize,
    pub n_hands: usize,
    pub n_vals: usize,
    pub n_bytes: usize,
    /// numbering weights: none, msb0, lsb0
    pub numbering: (u32, u32, u32),
    /// permute declaration order
    pub permute: bool,
    /// bias towards >8 bit widths
    pub wide: bool,
    pub hand_fails: bool,
    /// gaps (out of 256)
    pub gaps: u8,
    /// never use Next/Start (needed where fields get permuted or mirrored)
    pub explicit_only: bool,
    /// generate long hand-written types
    pub huge: bool,
    /// now and then an array of hundreds of elements
    pub long: bool,
    /// now and then gaps of hundreds to tens of thousands of bits
    pub far: bool,
    /// positions of the outermost structure start near this bit
    pub base: usize,
    /// only displayable / small field widths
    pub max_width: usize,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            kinds: vec![(K::Native, 6), (K::Bool, 3), (K::Sized, 6), (K::Enum, 3), (K::Cat, 2), (K::Res, 2), (K::Nested, 3), (K::Hand, 2), (K::Helper, 1)],
            max_fields: 9, array: 70, max_units: 70, n_inner: 3, n_enums: 3, n_hands: 2, n_vals: 12, n_bytes: 12,
            numbering: (3, 8, 4), permute: true, wide: false, hand_fails: false, gaps: 110, explicit_only: false, huge: true, long: true, far: true, base: 0, max_width: 100000,
        }
    }
}

fn fg() -> impl Strategy<Value = FG> {
    (any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), any::<u8>(), any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(kind, a, b, cnt, gap, sp, en, nm, ord)| FG { kind, a, b, cnt, gap, sp, en, nm, ord })
}
fn sg(max: usize) -> impl Strategy<Value = SG> {
    (prop::collection::vec(fg(), 1..=max), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(fields, num, def_en, size, flags, scale)| SG { fields, num, def_en, size, flags, scale })
}
pub fn eg(max: usize) -> impl Strategy<Value = EG> {
    (prop::collection::vec((any::<u8>(), any::<u64>(), any::<u8>()).prop_map(|(mode, v, nm)| VG { mode, v, nm }), 1..=max), any::<u8>(), any::<u8>())
        .prop_map(|(vars, back, style)| EG { vars, back, style })
}
pub fn inst() -> impl Strategy<Value = Inst> { prop::collection::vec((any::<u8>(), any::<u64>()), 10) }

pub fn cg(p: &Profile) -> BoxedStrategy<CG> {
    (
        prop::collection::vec(eg(6), p.n_enums),
        prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(b, w, flags)| HG { b, w, flags }), p.n_hands),
        prop::collection::vec(sg(4), p.n_inner),
        sg(p.max_fields),
        prop::collection::vec(inst(), p.n_vals),
        prop::collection::vec((any::<u8>(), any::<u64>(), inst()), p.n_bytes),
        prop::collection::vec(any::<u16>(), 24),
    )
        .prop_map(|(enums, hands, inner, outer, vals, bytes, extra)| CG { enums, hands, inner, outer, vals, bytes, extra })
        .boxed()
}

// ------------------------------------------------------------------------------- enums

const FANCY_NAMES: [&str; 8] = ["Größe", "ÄÖÜ", "Δelta", "ΣΑΣ", "Straße", "İstanbul", "ñ", "Ünit_1"];

pub const VAR_NAMES: [&str; 27] = ["A", "B", "NormalMode", "X1", "Off", "On", "Some", "None", "Ok", "Err", "Idle_2", "ABC", "aB", "Zz", "Q", "HTTPServer", "snake_case_name", "Self_Test", "Unknown", "Default", "_Reserved", "U8", "I", "lower", "r#type", "r#loop", "r#Raw"];

/// Unit enum valid for rustc; discriminants distinct and within the backing type.
pub fn realize_enum(g: &EG, name: &str, fancy: bool) -> EnumDef {
    // style: how the backing type is settled
    // 0..128 explicit derive; else detection
    let detect = fancy && g.style % 2 == 1;
    let lone = if fancy && (g.back >> 3) % 8 >= 5 { Some((g.back >> 6) as usize % g.vars.len()) } else { None };
    let want = PRIMS[(g.back % 8) as usize];
    let want = match want { Prim::U8 | Prim::U32 if lone.is_some() => Prim::U64, Prim::I8 | Prim::I32 if lone.is_some() => Prim::I64, w => w };
    let mut repr = None;
    // the range of representable discriminants
    let suffix = detect && (g.style >> 1) % 4 == 3;
    let (mut lo, mut hi) = (want.min(), want.max());
    if want == Prim::U64 || suffix {
        // rustc wants a repr for literals beyond isize, or with a suffix
        if suffix || (g.style >> 3) % 2 == 1 { repr = Some(want); } else { hi = i64::MAX as i128; }
    } else if (g.style >> 3) % 4 == 3 {
        repr = Some(want);
    }
    if !want.signed() { lo = 0; }
    let mut vars: Vec<VarDef> = vec![];
    let mut used: Vec<i128> = vec![];
    let mut names: Vec<String> = vec![];
    let mut prev: Option<i128> = None;
    for (i, v) in g.vars.iter().enumerate() {
        let next = prev.map_or(0, |p| p + 1);
        let mut implicit = v.mode % 3 == 0;
        if implicit && (next > hi || used.contains(&next)) { implicit = false; }
        let (disc, lit) = if implicit { (next, None) } else {
            let raw = v.v as i128;
            let mut d = match (v.mode / 3) % 8 {
                // a single large one among small ones
                _ if lone == Some(i) => { let k = if v.mode % 2 == 0 { want.bits() as u32 - 1 - (v.mode / 2 % 2) as u32 } else { (raw % want.bits() as i128) as u32 }; let d = (1i128 << k) + (raw >> 8) % (1i128 << k.min(6)); if lo < 0 && v.nm % 2 == 0 { -d } else { d } }
                m if lone.is_some() => if m == 5 && lo < 0 { -(raw % 5) - 1 } else { raw % 40 },
                0 => raw % 10,
                1 => hi - raw % 3,
                2 => lo + raw % 3,
                3 => wrap(raw, want.bits(), want.signed()),
                4 => raw % 200,
                5 => -(raw % 40) - 1,
                6 => { let p = [8u32, 16, 32, 7, 15, 31, 63, 4][(raw % 8) as usize]; (1i128 << p) - (raw >> 8) % 3 + 1 }
                _ => { let p = [8u32, 16, 32, 7, 15, 31, 63, 4][(raw % 8) as usize]; -(1i128 << p) - 1 + (raw >> 8) % 3 }
            };
            if d < lo || d > hi { d = lo + (raw % 50).min(hi - lo); }
            let mut t = 0;
            while used.contains(&d) { d = if d >= hi { lo } else { d + 1 }; t += 1; if t > 100 { break; } }
            if used.contains(&d) { continue; }
            let sfx = if suffix { ["", "_"][(v.nm % 2) as usize].to_string() + want.name() } else { String::new() };
            let m = d.unsigned_abs();
            // the digits of hexadecimal literals must not run into a suffix
            let body = match (v.mode / 24) % 6 {
                1 => format!("0x{:X}", m),
                2 if m < 1 << 40 => format!("0b{:b}", m),
                3 => format!("0o{:o}", m),
                4 if m >= 1000 => { let s = m.to_string(); format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..]) }
                5 => format!("0x{:x}", m),
                _ => m.to_string(),
            };
            // minus zero is zero
            let minus = d < 0 || fancy && d == 0 && v.nm % 3 == 0 && repr.map_or(true, |r| r.signed()) && (!suffix || want.signed());
            (d, Some(format!("{}{}{}", if minus { "-" } else { "" }, body, sfx)))
        };
        used.push(disc);
        let mut n = VAR_NAMES[v.nm as usize % VAR_NAMES.len()].to_string();
        if fancy && v.nm >= 224 { n = FANCY_NAMES[v.nm as usize % 8].to_string(); }
        while names.contains(&bare(&n).to_lowercase()) { n = format!("{}{}", n, i); }
        names.push(bare(&n).to_lowercase());
        vars.push(VarDef { name: n, disc, lit });
        prev = Some(disc);
    }
    let backing = if detect {
        if suffix && vars.iter().any(|v| v.lit.is_some()) {
            // literals carry the suffix; implicit ones inherit nothing, but a type at least as wide wins
            let mut b = want;
            let neg = vars.iter().any(|v| v.disc < 0);
            for v in vars.iter().filter(|v| v.lit.is_none()) {
                let m = min_prim(v.disc, v.disc, neg);
                if prio(m) < prio(b) { b = m; }
            }
            b
        } else {
            min_prim(vars.iter().map(|v| v.disc).min().unwrap(), vars.iter().map(|v| v.disc).max().unwrap(), vars.iter().any(|v| v.disc < 0))
        }
    } else { want };
    EnumDef { name: name.into(), explicit: !detect, repr, backing, vars }
}

fn prio(p: Prim) -> usize { [Prim::I64, Prim::I32, Prim::I16, Prim::I8, Prim::U64, Prim::U32, Prim::U16, Prim::U8].iter().position(|x| *x == p).unwrap() }

pub fn min_prim(lo: i128, hi: i128, neg: bool) -> Prim {
    let c = if neg { [Prim::I8, Prim::I16, Prim::I32, Prim::I64] } else { [Prim::U8, Prim::U16, Prim::U32, Prim::U64] };
    *c.iter().find(|p| p.min() <= lo && hi <= p.max()).unwrap()
}

// ------------------------------------------------------------------------------- structs

const NAMES: [&str; 49] = [
    "a", "b", "c", "value", "src", "target", "packed", "bytes", "res", "unpacked", "primitive_integer", "wrapper", "sized_integer", "r", "_a", "_b", "_c", "a_0", "a_1", "b_0",
    "_reserved", "x", "y", "temp_sensor", "val", "dummy", "f", "fmt", "fields", "display", "output", "types", "bits", "core", "std", "packed_struct", "pack", "unpack", "i", "s", "field", "s_0", "src_0", "_reserved2",
    "r#type", "r#match", "r#fn", "größe", "debug_fields",
];

fn pick<'a, T>(w: &'a [(T, u32)], g: u32) -> &'a T {
    let tot: u32 = w.iter().map(|x| x.1).sum();
    let mut r = g % tot;
    for (t, n) in w { if r < *n { return t; } r -= n; }
    unreachable!()
}

pub fn realize_hand(g: &HG, name: &str, p: &Profile) -> HandDef {
    let bytes = match g.b % 8 { 0..=4 => 1 + (g.b / 8) as usize % 4, 5 => 5 + (g.b / 8) as usize % 6, 6 => 1, _ => if p.huge { 28 + (g.b / 8) as usize * 2 } else { 3 } };
    let w = bytes * 8 - (g.w % 8) as usize;
    HandDef { name: name.into(), bytes, w, garbage: g.flags % 2 == 1, fails: p.hand_fails && (g.flags / 2) % 2 == 1, odd_debug: (g.flags / 4) % 4 == 3 }
}

pub fn realize(g: &CG, p: &Profile) -> Module {
    let mut m = Module::default();
    for (i, e) in g.enums.iter().enumerate() { m.enums.push(realize_enum(e, &format!("E{}", i), false)); }
    for (i, h) in g.hands.iter().enumerate() { m.hands.push(realize_hand(h, &format!("H{}", i), p)); }
    for (i, s) in g.inner.iter().enumerate() {
        let s = realize_struct(s, p, &m, &format!("N{}", i), 8);
        m.structs.push(s);
    }
    let s = realize_struct(&g.outer, p, &m, "T0", p.max_units);
    m.structs.push(s);
    m
}

pub fn leaf_count(m: &Module, k: &Kind) -> usize {
    match k { Kind::Nested(s) => m.structs[*s].fields.iter().map(|f| f.n() * leaf_count(m, &f.kind)).sum(), _ => 1 }
}

fn pick_width(pr: Prim, a: u16) -> usize {
    let (lo, hi) = pr.bracket();
    match a % 4 { 0 => hi, _ => lo + (a as usize / 4) % (hi - lo + 1) }
}

pub fn realize_struct(g: &SG, p: &Profile, m: &Module, name: &str, max_units: usize) -> StructDef {
    let nb = p.numbering;
    let numbering = *pick(&[(Numbering::Msb0, nb.1), (Numbering::Lsb0, nb.2), (Numbering::None, nb.0)], g.num as u32);
    let default_endian = match g.def_en % 9 { 0 | 1 => None, 2 | 3 => Some("msb"), 4 | 5 => Some("lsb"), 6 => Some("le"), 7 => Some("be"), _ => Some("LSB") }.map(String::from);
    let def_lsb = default_endian.as_deref().map(|d| d.eq_ignore_ascii_case("lsb") || d.eq_ignore_ascii_case("le"));

    let mut fields: Vec<(u8, u16, Field)> = vec![];
    let mut pos = if p.base > 0 && max_units > 8 { p.base + g.scale as usize % 80 } else { 0 };
    let mut budget = max_units;
    let mut names: Vec<String> = vec![];
    let outermost = max_units > 8;
    let mut long = p.long && outermost && g.scale % 32 == 31;
    let mut far = if p.far && outermost && g.scale % 8 == 5 { 1 + (g.scale / 8) as usize % 3 } else { 0 };
    for f in &g.fields {
        if budget == 0 { break; }
        let mut k = *pick(&p.kinds, f.kind as u32);
        if k == K::Nested && m.structs.is_empty() { k = K::Native; }
        if k == K::Hand && m.hands.is_empty() { k = K::Native; }
        if (k == K::Enum || k == K::Cat) && m.enums.is_empty() { k = K::Native; }
        let prim = if p.wide { PRIMS[[1, 2, 3, 5, 6, 7, 0, 4][f.b as usize % 8]] } else { PRIMS[f.b as usize % 8] };
        let (kind, mut ew) = match k {
            K::Bool => (Kind::Bool, 1),
            K::Native => (Kind::Native(prim), pick_width(prim, f.a)),
            K::Sized => { let w = pick_width(prim, f.a); (Kind::Sized(prim, w), w) }
            K::Helper => { let w = pick_width(prim, f.a); (Kind::Helper(f.a % 8 < 4, prim, w), w) }
            K::Enum | K::Cat => {
                let e = f.b as usize % m.enums.len();
                let b = m.enums[e].backing;
                // mostly wide enough for the declared values
                let (lo, hi) = b.bracket();
                let need = m.enums[e].vars.iter().map(|v| (1..=64).find(|w| wrap(v.disc, *w, b.signed()) == v.disc).unwrap_or(64)).max().unwrap().max(lo);
                let w = match f.a % 4 { 0 => need, 1 => hi, 2 => need + (f.a as usize / 4) % (hi - need + 1), _ => lo + (f.a as usize / 4) % (hi - lo + 1) };
                (if k == K::Enum { Kind::Enum(e) } else { Kind::Cat(e) }, w)
            }
            K::Res => {
                let n = match f.a % 8 { 0..=4 => 1 + (f.a as usize / 8) % 12, 5 | 6 => 1 + (f.a as usize / 8) % 40, _ => 1 + (f.a as usize / 8) % 255 };
                (Kind::Res(f.b % 2 == 1, n), n)
            }
            K::Nested => {
                let i = f.b as usize % m.structs.len();
                let b = m.structs[i].num_bytes() * 8;
                let nbits = m.structs[i].num_bits();
                let w = match f.a % 4 { 0 | 1 => if nbits + 8 > b { nbits } else { b }, 2 => b, _ => b - (f.a as usize / 4) % 8 };
                (Kind::Nested(i), w)
            }
            K::Hand => { let i = f.b as usize % m.hands.len(); (Kind::Hand(i), m.hands[i].w) }
        };
        if ew > p.max_width { ew = p.max_width; }
        let lc = leaf_count(m, &kind);
        if lc > budget { continue; }
        let mut count = if f.cnt < p.array {
            Some(match f.cnt % 8 { 0..=4 => 1 + (f.cnt as usize / 8) % 4, 5 | 6 => 1 + (f.cnt as usize / 8) % 9, _ => 3 + (f.cnt as usize / 8) * 3 })
        } else { None };
        if let Some(c) = count { if c * lc > budget || c * ew > 3000 { count = if lc * 2 <= budget { Some(2) } else { None }; } }
        if long && lc == 1 && f.cnt % 4 != 3 {
            let c = [256, 257, 255, 300, 511, 512, 513, 258][(g.scale / 32) as usize];
            if c * ew <= 20000 { count = Some(c); long = false; }
        }
        // a long array leaves room for what follows it
        budget -= if count.map_or(false, |c| c > 250) { budget / 2 } else { (count.unwrap_or(1) * lc).min(budget) };
        if numbering != Numbering::None && f.gap < p.gaps {
            pos += match f.gap % 8 { 0..=4 => 1 + (f.gap as usize / 8) % 7, 5 => (8 - pos % 8) % 8, 6 => 8, _ => 9 + f.gap as usize / 8 };
            if far > 0 && f.sp % 3 != 0 {
                far -= 1;
                pos += [240, 500, 1010, 2030, 4090, 32700, 65500, 65530][f.gap as usize / 8 % 8] + f.gap as usize / 64;
            }
        }
        let mut n = NAMES[f.nm as usize % NAMES.len()].to_string();
        while names.contains(&n) { n = format!("{}_{}", n, names.len()); }
        names.push(n.clone());
        let mut fd = Field { name: n, kind, count, ew, start: pos, lsb: false, endian_attr: None, attrs: vec![] };
        // byte order
        if fd.int_like() {
            let needed = fd.ew > 8;
            let mut at = match f.en % 8 { 0 | 1 | 2 => None, 3 => Some("msb"), 4 => Some("lsb"), 5 => Some("be"), 6 => Some("le"), _ => Some("Lsb") };
            if at.is_none() && def_lsb.is_none() && needed { at = Some(if f.en % 2 == 0 { "msb" } else { "lsb" }); }
            let lsb = at.map(|a| a.eq_ignore_ascii_case("lsb") || a == "le").or(def_lsb).unwrap_or(false);
            fd.lsb = needed && lsb;
            fd.endian_attr = at.map(String::from);
        }
        pos = fd.end() + 1;
        fields.push((if p.permute && numbering != Numbering::None { f.ord } else { 0 }, f.sp, fd));
    }
    let total = pos;
    let need_size = numbering == Numbering::Lsb0 || (numbering == Numbering::None && total % 8 != 0);
    let size_bytes = if need_size || g.size % 3 == 1 { Some((total + 7) / 8 + if (g.size / 3) % 4 == 3 { (g.size / 12) as usize % 3 } else { 0 }) } else { None };
    // permute only when the gene asks for it
    if g.flags % 2 == 1 { fields.sort_by_key(|x| x.0); }
    let sps: Vec<u16> = fields.iter().map(|x| x.1).collect();
    let mut sd = StructDef {
        name: name.into(), numbering, default_endian,
        size_text: size_bytes.map(|s| if g.flags & 4 != 0 { format!("0x{:x}", s) } else { s.to_string() }),
        size_bytes, split_attrs: g.flags & 8 != 0,
        fields: fields.into_iter().map(|x| x.2).collect(),
    };
    spell(&mut sd, m, &sps, p.explicit_only);
    sd
}

fn num(n: usize, hexa: bool) -> String { if hexa { match n % 5 { 0 => format!("0X{:x}", n), 1 => format!("0x{:x}", n), 2 => format!("0x{:04X}", n), _ => format!("0x{:X}", n) } } else if n % 11 == 5 { format!("0{}", n) } else { n.to_string() } }

/// Choose how every field's place, size and byte order is written.
pub fn spell(sd: &mut StructDef, m: &Module, sps: &[u16], explicit_only: bool) {
    let nbits = sd.num_bits();
    let size = sd.size_bytes;
    let mut prev: Option<usize> = None;
    let numbering = sd.numbering;
    for (i, f) in sd.fields.iter_mut().enumerate() {
        let sp = sps[i % sps.len()] as usize;
        let (s, w) = (f.start, f.width());
        let e = s + w - 1;
        let builtin = match f.kind { Kind::Bool => Some(1), Kind::Native(p) => Some(p.bits()), Kind::Sized(_, n) | Kind::Res(_, n) => Some(n), _ => None };
        let hexa = (sp >> 8) % 8 == 7;
        let pad = if (sp >> 11) % 8 == 7 { " " } else { "" };
        let n = |x: usize| format!("{}{}{}", pad, num(x, hexa), pad);

        // 0 = full range, 1 = start, 2 = next
        let mut opts: Vec<(u8, Option<(String, String)>)> = vec![];
        match numbering {
            Numbering::None => opts.push((2, None)),
            Numbering::Msb0 => {
                let b = "bits".to_string();
                let y = "bytes".to_string();
                opts.push((0, Some((b.clone(), format!("{}:{}", n(s), n(e))))));
                opts.push((0, Some((b.clone(), format!("{}..={}", n(s), n(e))))));
                opts.push((0, Some((b.clone(), format!("{}..{}", n(s), n(e + 1))))));
                if w == 1 { for _ in 0..2 { opts.push((0, Some((b.clone(), n(s))))); } }
                opts.push((1, Some((b.clone(), format!("{}..", n(s))))));
                opts.push((1, Some((b.clone(), format!("{}:", n(s))))));
                let next_ok = match prev { Some(p) => p + 1 == s, None => s == 0 && (nbits % 8 == 0 || size.is_some()) };
                if next_ok { for _ in 0..3 { opts.push((2, None)); } }
                if s % 8 == 0 {
                    opts.push((1, Some((y.clone(), format!("{}..", n(s / 8))))));
                    opts.push((1, Some((y.clone(), format!("{}:", n(s / 8))))));
                    if w % 8 == 0 {
                        opts.push((0, Some((y.clone(), format!("{}:{}", n(s / 8), n(e / 8))))));
                        opts.push((0, Some((y.clone(), format!("{}..={}", n(s / 8), n(e / 8))))));
                        if w == 8 { opts.push((0, Some((y.clone(), n(s / 8))))); }
                    }
                }
            }
            Numbering::Lsb0 => {
                let sz = size.unwrap() * 8;
                let (hi, lo) = (sz - 1 - s, sz - 1 - e);
                let b = "bits".to_string();
                opts.push((0, Some((b.clone(), format!("{}:{}", n(hi), n(lo))))));
                opts.push((0, Some((b.clone(), format!("{}:{}", n(lo), n(hi))))));
                opts.push((0, Some((b.clone(), format!("{}..={}", n(lo), n(hi))))));
                opts.push((0, Some((b.clone(), format!("{}..{}", n(lo), n(hi + 1))))));
                opts.push((0, Some((b.clone(), format!("{}..={}", n(hi), n(lo))))));
                if w == 1 { opts.push((0, Some((b.clone(), n(lo))))); }
                if lo % 8 == 0 && w % 8 == 0 {
                    opts.push((0, Some(("bytes".into(), format!("{}:{}", n(lo / 8), n(hi / 8))))));
                    opts.push((0, Some(("bytes".into(), format!("{}..={}", n(lo / 8), n(hi / 8))))));
                }
            }
        }
        if explicit_only { opts.retain(|o| o.0 == 0); }
        let (kind, posa) = opts[sp % opts.len()].clone();
        let mut a: Vec<(String, String)> = vec![];
        if let Some(p) = posa { a.push(p); }
        // size
        let sz = sp / 16;
        let mut sizes: Vec<(String, String)> = vec![];
        if f.n() == 1 {
            sizes.push(("size_bits".into(), n(w)));
            sizes.push(("element_size_bits".into(), n(f.ew)));
            if w % 8 == 0 { sizes.push(("size_bytes".into(), n(w / 8))); sizes.push(("element_size_bytes".into(), n(w / 8))); }
        } else {
            sizes.push(("element_size_bits".into(), n(f.ew)));
            if f.ew % 8 == 0 { sizes.push(("element_size_bytes".into(), n(f.ew / 8))); }
        }
        let need = kind != 0 && builtin != Some(f.ew);
        if need || sz % 5 == 4 { a.push(sizes[(sz / 5) % sizes.len()].clone()); }
        if f.is_enum() { a.push(("ty".into(), "enum".into())); }
        if let Some(en) = &f.endian_attr { a.push(("endian".into(), en.clone())); }
        if sp & 0x4000 != 0 { a.reverse(); }
        f.attrs = if sp & 0x2000 != 0 { a.into_iter().map(|x| vec![x]).collect() } else if a.is_empty() { vec![] } else { vec![a] };
        prev = Some(e);
    }
    let _ = m;
}

// ------------------------------------------------------------------------------- values

fn seedv(g: &Inst, j: usize) -> (u8, u64) {
    let (m, r) = g[j % g.len()];
    if j < g.len() { (m, r) } else { ((mix(m as u64, j as u64) & 0xff) as u8, mix(r, j as u64)) }
}

/// A value for every leaf. `wide`: natives may exceed the field width.
pub fn values(m: &Module, leaves: &[Leaf], g: &Inst, wide: bool) -> Vec<LV> {
    leaves.iter().enumerate().map(|(j, l)| {
        let (mode, raw) = seedv(g, j);
        match &l.kind {
            LeafKind::ResZero | LeafKind::ResOne => LV::None,
            LeafKind::Bool => LV::Int((mode % 2) as i128 & if wide || l.bits[0].is_some() { 1 } else { 0 }),
            LeafKind::Int(p) => {
                let v = match mode % 8 {
                    0 => 0,
                    1 | 6 => wrap(raw as i128, p.bits(), p.signed()),
                    2 => if p.signed() { (1i128 << (l.w - 1)) - 1 } else { (1i128 << l.w) - 1 },
                    3 => if p.signed() { -(1i128 << (l.w - 1)) } else { 1i128 << (l.w - 1) },
                    4 => wrap(1i128 << (raw % p.bits() as u64), p.bits(), p.signed()),
                    5 => wrap(-1, p.bits(), p.signed()),
                    _ => wrap(raw as i128, l.w, p.signed()),
                };
                LV::Int(if wide { v } else { fit(l, v, p.signed()) })
            }
            LeafKind::Enum(e) => {
                let vs = &m.enums[*e].vars;
                if wide { return LV::Int(vs[raw as usize % vs.len()].disc); }
                let ok: Vec<i128> = vs.iter().map(|v| v.disc).filter(|d| m.fits(l, &LV::Int(*d))).collect();
                // without any fitting variant the caller has to skip the round trip
                LV::Int(if ok.is_empty() { vs[0].disc } else { ok[raw as usize % ok.len()] })
            }
            LeafKind::Cat(e) => {
                let en = &m.enums[*e];
                if mode % 3 == 0 {
                    let d = en.vars[raw as usize % en.vars.len()].disc;
                    if wide || m.fits(l, &LV::Int(d)) { return LV::Int(d); }
                }
                let v = wrap(if mode % 3 == 1 { raw as i128 } else { (raw % 9) as i128 - 3 }, en.backing.bits(), en.backing.signed());
                let v = if wide { v } else { fit(l, v, en.backing.signed()) };
                if !wide && en.vars.iter().any(|x| x.disc == v) { LV::Int(v) } else { LV::Raw(v) }
            }
            LeafKind::Hand(h) => {
                let n = m.hands[*h].bytes;
                let mut b: Vec<u8> = (0..n).map(|i| match mode % 4 { 0 => 0, 1 => 0xff, _ => mix(raw, i as u64) as u8 }).collect();
                if wide && mode % 16 == 7 { b[n - 1] = HAND_BAD; } else if b[n - 1] == HAND_BAD { b[n - 1] = 0x11; }
                if !wide { for p in 0..l.w { if l.bits[p].is_none() { b[p / 8] &= !(0x80 >> (p % 8)); } } if b[n - 1] == HAND_BAD { b[n - 1] = 0; } }
                LV::Bytes(b)
            }
        }
    }).collect()
}

/// clear what the leaf cannot represent
fn fit(l: &Leaf, v: i128, signed: bool) -> i128 {
    let mut x = 0i128;
    for j in 0..l.w { x = x << 1 | if l.bits[j].is_some() { (v >> (l.w - 1 - j)) & 1 } else { 0 }; }
    wrap(x, l.w, signed)
}

pub fn bytes(m: &Module, leaves: &[Leaf], nbytes: usize, g: &(u8, u64, Inst)) -> Vec<u8> {
    let (mode, raw, inst) = g;
    let nb = nbytes.max(1) * 8;
    let one = |i: u64| { let i = i as usize % nb; let mut b = vec![0u8; nbytes]; if nbytes > 0 { b[i / 8] |= 0x80 >> (i % 8); } b };
    let rnd = || (0..nbytes).map(|i| mix(*raw, i as u64) as u8).collect::<Vec<u8>>();
    match mode % 12 {
        0 => vec![0; nbytes],
        1 => vec![0xff; nbytes],
        2 => one(*raw),
        3 => one(*raw).iter().map(|x| !x).collect(),
        4 => (0..nbytes).map(|i| if i % 2 == 0 { 0xAA } else { 0x55 }).collect(),
        5 | 6 => rnd(),
        _ => {
            // valid values, with noise in every bit that no value occupies
            let v = values(m, leaves, inst, false);
            let mut b = m.pack_leaves(leaves, nbytes, &v);
            if mode % 12 < 11 {
                let (a, _, _) = m.masks(leaves, nbytes);
                let r = rnd();
                for i in 0..nbytes { b[i] = (b[i] & a[i]) | (r[i] & !a[i]); }
            } else if nbytes > 0 {
                let o = one(*raw);
                for i in 0..nbytes { b[i] ^= o[i]; }
            }
            b
        }
    }
}
