//! Declarations and the bit-level oracle model.
//!
//! A structure is flattened into leaves; every leaf knows, for each of its value bits, the
//! absolute position (MSB0 stream position) it occupies in the packed bytes. Packing and
//! unpacking in the model are then a bit-by-bit copy, independent of the library's shifts/masks.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Prim { U8, U16, U32, U64, I8, I16, I32, I64 }
pub const PRIMS: [Prim; 8] = [Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::I8, Prim::I16, Prim::I32, Prim::I64];

impl Prim {
    pub fn bits(self) -> usize { match self { Prim::U8 | Prim::I8 => 8, Prim::U16 | Prim::I16 => 16, Prim::U32 | Prim::I32 => 32, _ => 64 } }
    pub fn signed(self) -> bool { matches!(self, Prim::I8 | Prim::I16 | Prim::I32 | Prim::I64) }
    pub fn name(self) -> &'static str {
        match self { Prim::U8 => "u8", Prim::U16 => "u16", Prim::U32 => "u32", Prim::U64 => "u64", Prim::I8 => "i8", Prim::I16 => "i16", Prim::I32 => "i32", Prim::I64 => "i64" }
    }
    /// widths for which Integer<prim, Bits<w>> exists
    pub fn bracket(self) -> (usize, usize) { match self.bits() { 8 => (1, 8), 16 => (9, 16), 32 => (17, 32), _ => (33, 64) } }
    pub fn min(self) -> i128 { if self.signed() { -(1i128 << (self.bits() - 1)) } else { 0 } }
    pub fn max(self) -> i128 { if self.signed() { (1i128 << (self.bits() - 1)) - 1 } else { (1i128 << self.bits()) - 1 } }
}

/// low `w` bits of v, sign-extended if signed
pub fn wrap(v: i128, w: usize, signed: bool) -> i128 {
    if w == 0 { return 0; }
    let m = v & ((1i128 << w) - 1);
    if signed && (m >> (w - 1)) & 1 == 1 { m - (1i128 << w) } else { m }
}

#[derive(Clone, Debug)]
pub struct VarDef { pub name: String, pub disc: i128, pub lit: Option<String> }

#[derive(Clone, Debug)]
pub struct EnumDef {
    pub name: String,
    /// explicit backing type in the derive, or None for detection
    pub explicit: bool,
    pub repr: Option<Prim>,
    pub backing: Prim,
    pub vars: Vec<VarDef>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Native(Prim),
    Sized(Prim, usize),
    Enum(usize),
    Cat(usize),
    Res(bool, usize),
    Nested(usize),
    Hand(usize),
    /// MsbInteger / LsbInteger helper used directly as a packable field type
    Helper(bool, Prim, usize),
}

#[derive(Clone, Debug)]
pub struct HandDef { pub name: String, pub bytes: usize, pub w: usize, pub garbage: bool, pub fails: bool, pub odd_debug: bool }

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub kind: Kind,
    pub count: Option<usize>,
    pub ew: usize,
    pub start: usize,
    /// effective little-endian
    pub lsb: bool,
    /// the endian attribute written on the field, if any
    pub endian_attr: Option<String>,
    /// lists of attribute (key, value)
    pub attrs: Vec<Vec<(String, String)>>,
}

impl Field {
    pub fn n(&self) -> usize { self.count.unwrap_or(1) }
    pub fn width(&self) -> usize { self.n() * self.ew }
    pub fn end(&self) -> usize { self.start + self.width() - 1 }
    pub fn int_like(&self) -> bool { matches!(self.kind, Kind::Native(_) | Kind::Sized(..) | Kind::Enum(_) | Kind::Cat(_)) }
    pub fn is_enum(&self) -> bool { matches!(self.kind, Kind::Enum(_) | Kind::Cat(_)) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Numbering { None, Msb0, Lsb0 }

#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: String,
    pub numbering: Numbering,
    pub default_endian: Option<String>,
    pub size_bytes: Option<usize>,
    /// how size_bytes is written
    pub size_text: Option<String>,
    pub split_attrs: bool,
    pub fields: Vec<Field>,
}

impl StructDef {
    pub fn num_bits(&self) -> usize {
        match self.size_bytes { Some(s) => s * 8, None => self.fields.iter().map(|f| f.end() + 1).max().unwrap() }
    }
    pub fn num_bytes(&self) -> usize { (self.num_bits() + 7) / 8 }
}

#[derive(Clone, Debug, Default)]
pub struct Module { pub enums: Vec<EnumDef>, pub hands: Vec<HandDef>, pub structs: Vec<StructDef> }

#[derive(Clone, Debug, PartialEq)]
pub enum LeafKind { Bool, Int(Prim), Enum(usize), Cat(usize), Hand(usize), ResZero, ResOne }

#[derive(Clone, Debug)]
pub struct Leaf {
    pub kind: LeafKind,
    pub w: usize,
    /// position of value bit w-1-i
    pub bits: Vec<Option<usize>>,
    pub unit: usize,
}

#[derive(Clone, Debug)]
pub struct Unit { pub name: String, pub start: usize, pub w: usize, pub ty: String, pub field: usize, pub leaves: (usize, usize) }

#[derive(Clone, Debug, PartialEq)]
pub enum LV { Int(i128), Raw(i128), Bytes(Vec<u8>), None }

/// some widths are not plain decimal numbers
fn width_text(n: usize, salt: usize) -> String {
    match (n * 5 + salt / 8) % 9 { 1 => format!("0x{:X}", n), 2 => format!("{}usize", n), 3 => format!("0b{:b}", n), 4 if n > 9 => format!("{}_{}", n / 10, n % 10), _ => n.to_string() }
}

/// stream offset (within the field) of value bit i (i = 0 is the least significant)
pub fn stream_pos(w: usize, lsb: bool, i: usize) -> usize {
    if !lsb { return w - 1 - i; }
    let full = w / 8;
    let k = i / 8;
    if k < full { 8 * k + (7 - i % 8) } else { let r = w % 8; 8 * full + (r - 1 - i % 8) }
}

impl Module {
    pub fn kind_bytes(&self, k: &Kind) -> usize {
        match k {
            Kind::Nested(s) => self.structs[*s].num_bytes(),
            Kind::Hand(h) => self.hands[*h].bytes,
            Kind::Helper(_, _, n) => (n + 7) / 8,
            _ => 0,
        }
    }
    pub fn elem_ty(&self, k: &Kind) -> String {
        match k {
            Kind::Bool => "bool".into(),
            Kind::Native(p) => p.name().into(),
            Kind::Sized(p, n) => format!("Integer<{}, {}<{}>>", p.name(), ["packed_bits::Bits::", "packed_bits::Bits", "packed_bits::Bits::", "packed_struct::types::bits::Bits"][(n + p.bits() / 8) % 4], width_text(*n, p.bits())),
            Kind::Enum(e) => self.enums[*e].name.clone(),
            Kind::Cat(e) => format!("EnumCatchAll<{}>", self.enums[*e].name),
            Kind::Res(one, n) => format!("{}<packed_bits::Bits::<{}>>", if *one { if n % 2 == 0 { "ReservedOne" } else { "ReservedOnes" } } else if n % 2 == 0 { "ReservedZero" } else { "ReservedZeroes" }, width_text(*n, 8)),
            Kind::Nested(s) => self.structs[*s].name.clone(),
            Kind::Hand(h) => self.hands[*h].name.clone(),
            Kind::Helper(msb, p, n) => format!("{}Integer<{}, packed_bits::Bits::<{}>, Integer<{}, packed_bits::Bits::<{}>>>", if *msb { "Msb" } else { "Lsb" }, p.name(), n, p.name(), n),
        }
    }

    pub fn leaves(&self, s: &StructDef) -> (Vec<Leaf>, Vec<Unit>) {
        let mut leaves = vec![];
        let mut units = vec![];
        for (fi, f) in s.fields.iter().enumerate() {
            for e in 0..f.n() {
                let start = f.start + e * f.ew;
                let l0 = leaves.len();
                let unit = units.len();
                self.elem_leaves(&f.kind, f.ew, start, f.lsb, unit, &mut leaves);
                units.push(Unit {
                    name: if f.count.is_some() { format!("{}[{}]", bare(&f.name), e) } else { bare(&f.name).to_string() },
                    start, w: f.ew, ty: self.elem_ty(&f.kind), field: fi, leaves: (l0, leaves.len()),
                });
            }
        }
        (leaves, units)
    }

    fn elem_leaves(&self, k: &Kind, w: usize, start: usize, lsb: bool, unit: usize, out: &mut Vec<Leaf>) {
        let simple = |kind: LeafKind, lsb: bool| Leaf {
            kind, w, unit,
            bits: (0..w).map(|j| Some(start + stream_pos(w, lsb, w - 1 - j))).collect(),
        };
        match k {
            Kind::Bool => out.push(simple(LeafKind::Bool, false)),
            Kind::Native(p) | Kind::Sized(p, _) => out.push(simple(LeafKind::Int(*p), lsb)),
            Kind::Helper(msb, p, _) => out.push(simple(LeafKind::Int(*p), !msb)),
            Kind::Enum(e) => out.push(simple(LeafKind::Enum(*e), lsb)),
            Kind::Cat(e) => out.push(simple(LeafKind::Cat(*e), lsb)),
            Kind::Res(one, _) => out.push(simple(if *one { LeafKind::ResOne } else { LeafKind::ResZero }, false)),
            Kind::Hand(h) => {
                let b = self.hands[*h].bytes * 8;
                out.push(Leaf { kind: LeafKind::Hand(*h), w: b, unit, bits: (0..b).map(|p| if p + w >= b { Some(start + p + w - b) } else { None }).collect() });
            }
            Kind::Nested(si) => {
                let inner = &self.structs[*si];
                let b = inner.num_bytes() * 8;
                let (ls, _) = self.leaves(inner);
                for l in ls {
                    out.push(Leaf {
                        kind: l.kind, w: l.w, unit,
                        bits: l.bits.iter().map(|p| p.and_then(|p| if p + w >= b { Some(start + p + w - b) } else { None })).collect(),
                    });
                }
            }
        }
    }

    // ---------------------------------------------------------------- model pack/unpack

    pub fn leaf_bits(&self, l: &Leaf, v: &LV) -> Vec<bool> {
        match (&l.kind, v) {
            (LeafKind::ResZero, _) => vec![false; l.w],
            (LeafKind::ResOne, _) => vec![true; l.w],
            (LeafKind::Hand(_), LV::Bytes(b)) => (0..l.w).map(|p| b[p / 8] >> (7 - p % 8) & 1 == 1).collect(),
            (_, LV::Int(v)) | (_, LV::Raw(v)) => (0..l.w).map(|j| (v >> (l.w - 1 - j)) & 1 == 1).collect(),
            _ => panic!("leaf/value mismatch {:?} {:?}", l.kind, v),
        }
    }

    pub fn pack(&self, s: &StructDef, vals: &[LV]) -> Vec<u8> {
        let (leaves, _) = self.leaves(s);
        self.pack_leaves(&leaves, s.num_bytes(), vals)
    }

    pub fn pack_leaves(&self, leaves: &[Leaf], nbytes: usize, vals: &[LV]) -> Vec<u8> {
        let mut out = vec![0u8; nbytes];
        for (l, v) in leaves.iter().zip(vals) {
            let bits = self.leaf_bits(l, v);
            for (j, p) in l.bits.iter().enumerate() {
                if let Some(p) = p {
                    if bits[j] { out[p / 8] |= 0x80 >> (p % 8); }
                }
            }
        }
        out
    }

    /// Ok(values) or the set of errors that may be reported
    pub fn unpack(&self, s: &StructDef, bytes: &[u8]) -> Result<Vec<LV>, Vec<String>> {
        let (leaves, _) = self.leaves(s);
        self.unpack_leaves(&leaves, bytes)
    }

    pub fn unpack_leaves(&self, leaves: &[Leaf], bytes: &[u8]) -> Result<Vec<LV>, Vec<String>> {
        let mut vals = vec![];
        let mut errs: Vec<String> = vec![];
        for l in leaves {
            let bits: Vec<bool> = l.bits.iter().map(|p| p.map_or(false, |p| bytes[p / 8] >> (7 - p % 8) & 1 == 1)).collect();
            let num = || if l.w <= 64 { bits.iter().fold(0i128, |a, b| a << 1 | *b as i128) } else { 0 };
            vals.push(match &l.kind {
                LeafKind::ResZero | LeafKind::ResOne => LV::None,
                LeafKind::Bool => LV::Int(num()),
                LeafKind::Int(p) => LV::Int(wrap(num(), l.w, p.signed())),
                LeafKind::Enum(e) => {
                    let v = wrap(num(), l.w, self.enums[*e].backing.signed());
                    if !self.enums[*e].vars.iter().any(|x| x.disc == v) { errs.push("InvalidValue".into()); }
                    LV::Int(v)
                }
                LeafKind::Cat(e) => {
                    let v = wrap(num(), l.w, self.enums[*e].backing.signed());
                    if self.enums[*e].vars.iter().any(|x| x.disc == v) { LV::Int(v) } else { LV::Raw(v) }
                }
                LeafKind::Hand(h) => {
                    let mut b = vec![0u8; l.w / 8];
                    for (i, x) in bits.iter().enumerate() { if *x { b[i / 8] |= 0x80 >> (i % 8); } }
                    if self.hands[*h].fails && *b.last().unwrap() == HAND_BAD { errs.push("BitsError".into()); }
                    LV::Bytes(b)
                }
            });
        }
        if errs.is_empty() { Ok(vals) } else { errs.sort(); errs.dedup(); Err(errs) }
    }

    /// value as it reads after storing it into the leaf (low w bits)
    pub fn fits(&self, l: &Leaf, v: &LV) -> bool {
        match (&l.kind, v) {
            (LeafKind::ResZero, _) | (LeafKind::ResOne, _) => true,
            (LeafKind::Bool, LV::Int(v)) => l.bits[0].is_some() || *v == 0,
            (LeafKind::Int(p), LV::Int(v)) => wrap(*v, l.w, p.signed()) == *v && self.recover(l, *v, p.signed()),
            (LeafKind::Enum(e), LV::Int(v)) => wrap(*v, l.w, self.enums[*e].backing.signed()) == *v && self.recover(l, *v, self.enums[*e].backing.signed()),
            (LeafKind::Cat(e), LV::Int(v)) | (LeafKind::Cat(e), LV::Raw(v)) => wrap(*v, l.w, self.enums[*e].backing.signed()) == *v && self.recover(l, *v, self.enums[*e].backing.signed()),
            (LeafKind::Hand(_), LV::Bytes(b)) => (0..l.w).all(|p| l.bits[p].is_some() || b[p / 8] >> (7 - p % 8) & 1 == 0),
            _ => false,
        }
    }

    // bits that are cut off by an enclosing nested field read back as 0
    fn recover(&self, l: &Leaf, v: i128, signed: bool) -> bool {
        let mut x = 0i128;
        for j in 0..l.w { x = x << 1 | if l.bits[j].is_some() { (v >> (l.w - 1 - j)) & 1 } else { 0 }; }
        wrap(x, l.w, signed) == v
    }

    pub fn tok(&self, l: &Leaf, v: &LV) -> Option<String> {
        match (&l.kind, v) {
            (LeafKind::ResZero, _) | (LeafKind::ResOne, _) => None,
            (LeafKind::Cat(_), LV::Int(v)) => Some(format!("e{}", v)),
            (LeafKind::Cat(_), LV::Raw(v)) => Some(format!("c{}", v)),
            (_, LV::Int(v)) | (_, LV::Raw(v)) => Some(v.to_string()),
            (_, LV::Bytes(b)) => Some(format!("x{}", hex(b))),
            (_, LV::None) => None,
        }
    }

    pub fn toks(&self, leaves: &[Leaf], vals: &[LV]) -> String {
        let t: Vec<String> = leaves.iter().zip(vals).filter_map(|(l, v)| self.tok(l, v)).collect();
        if t.is_empty() { "-".into() } else { t.join(",") }
    }

    /// mask of bits assigned to leaves; (non-reserved, reserved-one, reserved-zero)
    pub fn masks(&self, leaves: &[Leaf], nbytes: usize) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        let mut m = (vec![0u8; nbytes], vec![0u8; nbytes], vec![0u8; nbytes]);
        for l in leaves {
            for p in l.bits.iter().flatten() {
                let t = match l.kind { LeafKind::ResOne => &mut m.1, LeafKind::ResZero => &mut m.2, _ => &mut m.0 };
                t[p / 8] |= 0x80 >> (p % 8);
            }
        }
        m
    }
}

pub const HAND_BAD: u8 = 0xE5;

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A raw identifier is called what follows the prefix.
pub fn bare(s: &str) -> &str { s.strip_prefix("r#").unwrap_or(s) }

pub fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
