//! C28: what the compiler accepts is laid out consistently, however oddly it is written.
//! No model: a declaration is either refused, or what it says about itself agrees with what it does.

use crate::engine::*;
use crate::run::*;
use crate::spec::unhex;
use proptest::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// choices are read off a tape, so that shrinking the tape shrinks the declaration
struct Tape<'a> { t: &'a [u16], p: usize }
impl Tape<'_> {
    fn n(&mut self, k: usize) -> usize { let v = self.t.get(self.p).copied().unwrap_or(0); self.p += 1; v as usize * k / 65536 }
    fn pick<'b>(&mut self, l: &[&'b str]) -> &'b str { l[self.n(l.len())] }
    /// zero means no
    fn one_in(&mut self, k: usize) -> bool { self.n(k) == k - 1 }
}

/// type, bits of an element, elements, does every bit survive
const TYPES: [(&str, usize, usize, bool); 30] = [
    ("u8", 8, 1, true), ("u16", 16, 1, true), ("u32", 32, 1, true), ("u64", 64, 1, true), ("i8", 8, 1, true), ("i32", 32, 1, true), ("i64", 64, 1, true), ("bool", 1, 1, true),
    ("Integer<u8, packed_bits::Bits<4>>", 4, 1, true), ("Integer<u16, packed_bits::Bits<12>>", 12, 1, true), ("Integer<i16, packed_bits::Bits<11>>", 11, 1, true), ("Integer<u64, packed_bits::Bits::<40>>", 40, 1, true),
    ("ReservedZero<packed_bits::Bits<4>>", 4, 1, false), ("ReservedOne<packed_bits::Bits<9>>", 9, 1, false), ("E", 2, 1, true), ("EnumCatchAll<E>", 8, 1, true), ("N", 8, 1, false),
    ("[u8; 2]", 8, 2, true), ("[bool; 3]", 1, 3, true), ("[u16; 1]", 16, 1, true), ("[Integer<u8, packed_bits::Bits<3>>; 3]", 3, 3, true), ("[E; 2]", 2, 2, true), ("[N; 2]", 8, 2, false), ("[EnumCatchAll<E>; 3]", 5, 3, true),
    ("Integer<u8, packed_bits::Bits<{4+1}>>", 5, 1, true), ("Integer<u16, packed_bits::Bits<W9>>", 12, 1, true), ("Integer<u8, packed_bits::Bits<0x5>>", 5, 1, true), ("[Integer<u8, packed_bits::Bits<{ 3 }>>; 0x3]", 3, 3, true), ("Integer<i8, packed_bits::Bits<{ W9 - 8 }>>", 4, 1, true), ("[ReservedOne<packed_bits::Bits<0b101>>; 2usize]", 5, 2, false),
];

const PRE: &str = "pub const W9: usize = 12;
#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)] pub enum E { A = 0, B = 1, C = 2, D = 3 }
#[derive(PackedStruct, Clone, Copy, Debug, PartialEq)] #[packed_struct(bit_numbering = \"msb0\", size_bytes = \"1\")] pub struct N { #[packed_field(bits = \"4..=7\")] pub v: u8 }\n";

fn num(t: &mut Tape) -> String {
    if t.one_in(4) { return t.pick(&["0x8", "007", "-1", "+3", "1_0", "8u8", " 4", "4 ", "", "0b11", "1e1", "\u{663}", "99999999999999999999", "0X0f", "0o7", "18446744073709551615", "18446744073709551616", "-0", "999", "256"]).into(); }
    t.pick(&["0", "1", "2", "3", "4", "5", "7", "8", "9", "11", "12", "15", "16", "17", "23", "24", "31", "32", "33", "63", "64"]).into()
}

fn pos(t: &mut Tape) -> String {
    let (a, b) = (num(t), num(t));
    let op = if t.one_in(4) { t.pick(&["...", "::", ":=", "-", ",", ".", "..==", "=..", "to", ". .", ".. =", "..-", "\u{2025}"]) } else { t.pick(&["..", "..=", ":"]) };
    let op = if t.one_in(8) { format!(" {} ", op) } else { op.to_string() };
    match t.n(6) { 0 => a, 1 => format!("{}{}", a, op), 2 => format!("{}{}", op, b), 3 if t.one_in(3) => format!("{}{}{}{}{}", a, op, b, op, a), _ => format!("{}{}{}", a, op, b) }
}

fn mutate(t: &mut Tape, v: &str) -> String {
    match t.n(8) { 0 | 1 => return num(t), 2 => return pos(t), _ => () }
    let mut l: Vec<char> = v.chars().collect();
    for _ in 0..1 + t.n(2) {
        let p = t.n(l.len() + 1);
        let c = t.pick(&["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", ":", "=", "-", "+", " ", "_", "x", "X"]).chars().next().unwrap();
        match t.n(3) { 0 => l.insert(p, c), 1 if !l.is_empty() => { let p = p.min(l.len() - 1); l.remove(p); } _ if !l.is_empty() => { let p = p.min(l.len() - 1); l[p] = c; } _ => () }
    }
    l.into_iter().collect()
}

/// keeps a structure from becoming enormous: no number of 4 to 19 digits
fn tame(s: &str) -> String {
    let mut o = String::new();
    let mut run = String::new();
    for c in s.chars().chain(Some('\0')) {
        if c.is_ascii_digit() { run.push(c); continue; }
        if run.len() > 3 && run.len() < 20 { run.truncate(3); }
        o.push_str(&run);
        run.clear();
        if c != '\0' { o.push(c); }
    }
    o
}

struct F { ty: usize, keys: Vec<(String, String)>, lists: usize, touched: bool }

pub type WG = Vec<u16>;

pub fn wild_case(g: &WG) -> Case {
    let mut t = Tape { t: g, p: 0 };
    let numbering = t.pick(&["msb0", "msb0", "lsb0", "none"]).to_string();
    let mut fs = vec![];
    let mut at = 0;
    for _ in 0..1 + t.n(4) {
        let ty = t.n(TYPES.len());
        let (name, w, n, _) = TYPES[ty];
        let w = if ["u8", "u16", "u32", "i8", "i32", "u64", "i64"].contains(&name) { w - t.n(8.min(w)) } else { w };
        let gap = if numbering == "none" { 0 } else { [0, 0, 1, 4, 8][t.n(5)] };
        fs.push((ty, at + gap, w, n));
        at += gap + w * n;
    }
    let nb = (at + 7) / 8 + t.n(3) / 2;
    let mut fields = vec![];
    for (ty, start, w, n) in fs {
        let mut keys: Vec<(String, String)> = vec![];
        let mut add = |k: &str, v: String| keys.push((k.into(), v));
        if numbering == "none" && t.n(3) == 2 { }
        else if numbering == "none" { add(if n > 1 { "element_size_bits" } else { "size_bits" }, w.to_string()); }
        else {
            let (s, e) = (start, start + w * n - 1);
            let (a, b) = if numbering == "lsb0" { (nb * 8 - 1 - e, nb * 8 - 1 - s) } else { (s, e) };
            if a % 8 == 0 && (b + 1) % 8 == 0 && t.one_in(3) { add("bytes", format!("{}..={}", a / 8, b / 8)); }
            else { match t.n(4) { 0 | 1 => add("bits", format!("{}..={}", a, b)), 2 => add("bits", format!("{}:{}", a, b)), _ => add("bits", format!("{}..{}", a, b + 1)) } }
        }
        if TYPES[ty].0.contains('E') && !TYPES[ty].0.contains("Integer") { add("ty", "enum".into()); }
        if t.one_in(6) { let e = t.pick(&["lsb", "msb", "le", "be", "BE", "Msb"]).to_string(); add("endian", e); }
        fields.push(F { ty, keys, lists: 1, touched: false });
    }
    let mut head: Vec<(String, String)> = vec![("endian".into(), t.pick(&["msb", "lsb"]).into())];
    if numbering != "none" { head.push(("bit_numbering".into(), numbering.clone())); }
    if numbering == "lsb0" || t.n(2) == 0 { head.push(("size_bytes".into(), nb.to_string())); }
    // distort it
    let mut head_touched = false;
    for _ in 0..[1, 1, 1, 2, 3, 0][t.n(6)] {
        let k = t.n(fields.len());
        let f = &mut fields[k];
        match t.n(14) {
            0..=5 => { let c: Vec<usize> = (0..f.keys.len()).filter(|i| f.keys[*i].0 != "" && f.keys[*i].0 != "ty" && f.keys[*i].0 != "endian").collect(); if let Some(i) = c.get(t.n(c.len().max(1))) { let v = mutate(&mut t, &f.keys[*i].1); f.touched |= v != f.keys[*i].1; f.keys[*i].1 = v; } }
            6 | 7 => { let key = t.pick(&["size_bits", "element_size_bits", "size_bytes", "element_size_bytes", "bits", "bytes"]).to_string(); f.keys.push((key, num(&mut t))); f.touched = true; }
            8 => { f.keys.push(("bits".into(), pos(&mut t))); f.touched = true; }
            9 => { f.lists = 2; if t.n(2) == 1 { f.keys.reverse(); } }
            10 => { let x = t.pick(&["bit=\"3\"", "bits=3", "size_bits=4", "bits", "skip", "bits(\"3\")", "Bits=\"3\"", "\"x\"", "bits=\"1\" bytes=\"2\"", "bits=\"1\",", "endian=\"lsb\"", "ty=\"enum\"", "ty=\"int\"", "=", "bits==\"1\"", "bits=\"1\"; bytes=\"0\"", "bits=r\"2\"", "bits=b\"2\"", "r#bits=\"2\"", "bits='2'", "size_bytes=1u8"]).to_string(); f.keys.push(("".into(), x)); f.touched = true; }
            11 => { if let Some(i) = head.iter().position(|(k, _)| k == "size_bytes") { head[i].1 = mutate(&mut t, &head[i].1.clone()); head_touched = true; } }
            12 => { let (k, v) = [("size_bytes", "4"), ("bit_numbering", "lsb0"), ("bit_numbering", "msb0"), ("endian", "lsb"), ("endian", "xx"), ("size_bits", "16"), ("bits", "0..=7"), ("size_bytes", "64")][t.n(8)]; head.push((k.into(), v.into())); head_touched = true; if t.n(2) == 1 { head.reverse(); } }
            _ => { if !f.keys.is_empty() { let i = t.n(f.keys.len()); f.keys.remove(i); f.touched = true; } }
        }
    }
    let mut decl = String::from("#[derive(PackedStruct, Debug, PartialEq)]\n");
    let pair = |(k, v): &(String, String)| if k.is_empty() { v.clone() } else { format!("{}=\"{}\"", k, tame(v)) };
    decl.push_str(&format!("#[packed_struct({})]\npub struct S {{\n", head.iter().map(pair).collect::<Vec<_>>().join(", ")));
    let mut units = vec![];
    for (i, f) in fields.iter().enumerate() {
        let at = if f.lists == 2 { f.keys.len() / 2 } else { 0 };
        for part in [&f.keys[..at], &f.keys[at..]] { if !part.is_empty() { decl.push_str(&format!("    #[packed_field({})]\n", part.iter().map(pair).collect::<Vec<_>>().join(", "))); } }
        let (name, _, n, full) = TYPES[f.ty];
        decl.push_str(&format!("    pub f{}: {},\n", i, name));
        // an untouched position in an untouched frame means what it says
        let place = if f.touched || head_touched || numbering == "none" { None } else { place(&f.keys, numbering == "lsb0", nb) };
        let array = name.starts_with('[');
        // a sized integer may stand in a few bits more than it has, and ignores them
        let full = full && (!name.contains("Integer") || !f.touched);
        for k in 0..n {
            let p = place.map(|(a, b)| { let w = (b + 1 - a) / n; (a + k * w, a + k * w + w - 1) });
            // without any width written it is as wide as its type
            let sized = f.keys.iter().any(|(k, v)| k.is_empty() || k.contains("size") || (k.starts_with('b') && !v.strip_suffix("..").or(v.strip_suffix(':')).is_some_and(|v| v.bytes().all(|c| c.is_ascii_digit()))));
            units.push(json!([if array { format!("f{}[{}]", i, k) } else { format!("f{}", i) }, full, p.map(|p| p.0), p.map(|p| p.1), if sized { None } else { Some(TYPES[f.ty].1) }]));
        }
    }
    decl.push_str("}\n");
    let body = format!("{}{}pub fn run(_: usize, op: &str, args: &str) -> String {{ wops::<S>(op, args) }}\n", PRE, decl);
    let data = json!({"units": units});
    let ops = vec![Op::new(0, "W 0".into(), Exp::Custom("wild".into(), data.clone()), true), Op::new(0, "W 1".into(), Exp::Custom("wild".into(), data.clone()), true), Op::new(0, "W 2".into(), Exp::Custom("wild".into(), data), true)];
    Case { body, ops, decl, classes: vec![match numbering.as_str() { "msb0" => "msb0", "lsb0" => "lsb0", _ => "automatic" }], must_reject: false, early: false, may_reject: true }
}

fn place(keys: &[(String, String)], lsb0: bool, nb: usize) -> Option<(usize, usize)> {
    let (k, v) = keys.iter().find(|(k, _)| k == "bits" || k == "bytes")?;
    let (a, b) = match v.split_once("..=").or(v.split_once(':')) { Some((a, b)) => (a.parse::<usize>().ok()?, b.parse::<usize>().ok()?), None => { let (a, b) = v.split_once("..")?; (a.parse().ok()?, b.parse::<usize>().ok()?.checked_sub(1)?) } };
    let (a, b) = if k == "bytes" { (a * 8, b * 8 + 7) } else { (a, b) };
    Some(if lsb0 { ((nb * 8 - 1).checked_sub(b)?, (nb * 8 - 1).checked_sub(a)?) } else { (a, b) })
}

/// An enum with odd discriminants: the compiler says what they are.
pub fn wild_enum(g: &WG) -> Case {
    let mut t = Tape { t: g, p: 0 };
    let derive = t.pick(&["", "", "", "_u8", "_i8", "_u16", "_i16", "_u32", "_i32", "_u64", "_i64"]);
    let repr = t.pick(&["", "", "", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "isize", "usize"]);
    let mut decl = format!("#[derive(PrimitiveEnum{}, Clone, Copy, Debug, PartialEq)]\n{}pub enum E {{\n", derive, if repr.is_empty() { String::new() } else { format!("#[repr({})]\n", repr) });
    let (plain, plain_signed) = (t.n(2) == 1, t.n(2) == 1);
    let mut names = vec![];
    let mut suffixed = false;
    for i in 0..1 + t.n(6) {
        let n = match t.n(12) { 11 => format!("r#V{}", i), 10 => format!("v_{}", i), _ => format!("V{}", i) };
        // mostly plain numbers of any size
        let lit = match if plain { 6 + t.n(3) } else { t.n(6) } {
            0 | 1 | 6 => String::new(),
            7 => { let k = t.n(if plain_signed { 31 } else { 63 }); ((1u64 << k) + t.n(40) as u64).to_string() }
            8 => { let k = t.n(16); if plain_signed { format!("-{}", (1u64 << k) + t.n(40) as u64) } else { t.n(300).to_string() } }
            2 => t.pick(&["0", "1", "2", "5", "9", "100", "200", "300"]).to_string(),
            3 => t.pick(&["-0", "-1", "- 1", "-128", "-129", "-32768", "-32769", "-2147483648", "-2147483649", "-9223372036854775808", "-0x80", "-0x0", "-1_0", "-00"]).to_string(),
            4 => t.pick(&["127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0xFF", "0x100", "0xFFFF_FFFF"]).to_string(),
            _ => t.pick(&["0x10", "0b11", "0o17", "1_0", "007", "0x_1", "1u8", "2i16", "3usize", "4isize", "-5i8", "6u64", "-7i64", "8i32", "0i8", "-0i16", "0xFu8", "(6)", "-(7)", "--8", "1 + 1", "!0", "b'a' as isize", "true as isize", "K", "-K", "{ 3 }", "1 as isize", "if true { 1 } else { 2 }"]).to_string(),
        };
        suffixed |= lit.contains(|c: char| c == 'u' || c == 'i');
        if t.one_in(12) { decl.push_str("    #[cfg(any())]\n    Ghost = 77,\n"); }
        decl.push_str(&format!("    {}{},\n", n, if lit.is_empty() { String::new() } else { format!(" = {}", lit) }));
        names.push(n);
    }
    decl.push_str("}\n");
    let shown: Vec<String> = names.iter().map(|n| format!("(E::{}, {:?}, E::{} as i128)", n, n.trim_start_matches("r#"), n)).collect();
    let run = format!("const K: isize = 9;
pub fn run(_: usize, _: &str, _: &str) -> String {{
    use packed_struct::PrimitiveEnumStaticStr as D;
    type P = <E as PrimitiveEnum>::Primitive;
    let all = [{}];
    let mut o = vec![];
    for (v, n, d) in all {{
        if v.to_primitive() as i128 != d {{ o.push(format!(\"{{}} = {{}} gives {{}}\", n, d, v.to_primitive())); }}
        if E::from_primitive(v.to_primitive()) != Some(v) {{ o.push(format!(\"{{}} comes back as {{:?}}\", n, E::from_primitive(v.to_primitive()))); }}
        if E::from_str(n) != Some(v) || D::to_display_str(&v) != n {{ o.push(format!(\"{{}} by name {{:?}}\", n, E::from_str(n))); }}
        for x in [d - 1, d + 1, -d, d ^ 1, d ^ 128, d ^ 256, d + 256, d - 256, d ^ (1 << 32), d ^ (1 << 63)] {{
            if let Ok(p) = <P as std::convert::TryFrom<i128>>::try_from(x) {{
                let want = all.iter().find(|y| y.2 == x).map(|y| y.0);
                if E::from_primitive(p) != want {{ o.push(format!(\"{{}} is {{:?}}\", x, E::from_primitive(p))); }}
            }}
        }}
    }}
    if D::all_variants().iter().copied().collect::<Vec<E>>() != all.iter().map(|x| x.0).collect::<Vec<E>>() {{ o.push(\"variants\".to_string()); }}
    let (lo, hi) = (all.iter().map(|x| x.2).min().unwrap(), all.iter().map(|x| x.2).max().unwrap());
    let fits = |b: u32, s: bool| if s {{ lo >= -(1i128 << (b - 1)) && hi < 1i128 << (b - 1) }} else {{ lo >= 0 && hi < 1i128 << b }};
    let least = [8u32, 16, 32, 64].iter().find(|b| fits(**b, lo < 0)).map(|b| format!(\"{{}}{{}}\", if lo < 0 {{ \"i\" }} else {{ \"u\" }}, b)).unwrap_or_default();
    if {} && std::any::type_name::<P>() != least {{ o.push(format!(\"detected {{}}, not {{}}\", std::any::type_name::<P>(), least)); }}
    if o.is_empty() {{ \"OK\".into() }} else {{ o.join(\"; \") }}
}}
", shown.join(", "), derive.is_empty() && !suffixed);
    Case { body: format!("{}{}", decl, run), ops: vec![Op::new(0, "E".into(), Exp::Eq("OK".into()), true)], decl, classes: vec!["enum"], must_reject: false, early: false, may_reject: true }
}

pub fn c28(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let strat = || prop::collection::vec(any::<u16>(), 0..90).boxed();
    let opts = CompileOpts { parts: vec!["wild".into()], ..CompileOpts::default() };
    let lib = build_lib(&LibCfg::std());
    let env = Env { lib: &lib, opts: opts.clone() };
    if let Some(v) = drive(ctx, &env, "wild", ctx.n(56, 1200), 20, &strat, &|_, g: &WG| wild_case(g), st) { return Some(v); }
    if let Some(v) = drive(ctx, &env, "wild enums", ctx.n(32, 600), 20, &strat, &|_, g: &WG| wild_enum(g), st) { return Some(v); }
    // macros without overflow checks: the same are refused, the others are as consistent
    let cfg = LibCfg::with(&["std"], true);
    let fast = match try_build_lib(&cfg) { Ok(l) => l, Err(e) => return Some(report_build(ctx, &cfg, &e)) };
    let again = |c: Case| {
        if refused(&c).is_none() { run_cases(&env, &[&c]); }
        let no = refused(&c).unwrap();
        Case { may_reject: false, must_reject: no, classes: vec![if no { "refused by optimized macros as well" } else { "accepted by optimized macros as well" }], ops: if no { vec![] } else { c.ops }, ..c }
    };
    let fast = Env { lib: &fast, opts };
    if let Some(v) = drive(ctx, &fast, "wild", ctx.n(40, 700), 20, &strat, &|_, g: &WG| again(wild_case(g)), st) { return Some(v); }
    drive(ctx, &fast, "wild enums", ctx.n(32, 600), 20, &strat, &|_, g: &WG| again(wild_enum(g)), st)
}

/// Answers the named oracle `wild`: what the structure says about itself against what it does.
/// `got`: bytes, reported bits, reported bytes | display text | bit=changed bits,equal to base,stable | ...
pub fn check(d: &Value, got: &str) -> Result<(), String> {
    let bad = |m: String| -> Result<(), String> { Err(m) };
    let mut it = got.split('|');
    let head: Vec<usize> = it.next().unwrap_or("").split(',').filter_map(|x| x.parse().ok()).collect();
    if head.len() != 3 { return bad("sizes".into()); }
    let (n, bits, bytes) = (head[0], head[1], head[2]);
    if n != bytes || bits > n * 8 || (bits + 7) / 8 > n { return bad(format!("agreeing sizes, not {} bytes, {} bits, {} bytes", n, bits, bytes)); }
    let text = match it.next() { Some(t) => t, None => return bad("a display text or an error".into()) };
    // the content of this round is refused by an enum
    if text == "InvalidValue" { return Ok(()); }
    let text = match text.strip_prefix('x') { Some(h) => String::from_utf8_lossy(&unhex(h)).into_owned(), None => return bad("no error but the invalid-value error".into()) };
    let units = d["units"].as_array().unwrap();
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    let lines: Vec<&str> = text.lines().filter(|l| l.contains('|')).collect();
    if lines.len() != units.len() { return bad(format!("{} lines of fields in\n{}", units.len(), text)); }
    let mut all = true;
    for (k, (l, u)) in lines.iter().zip(units).enumerate() {
        let c: Vec<&str> = l.splitn(4, '|').collect();
        if c[0].trim() != u[0].as_str().unwrap() { return bad(format!("the line of {}, not {}", u[0], l)); }
        let r: Vec<usize> = if c.len() == 4 { c[1].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect() } else { vec![] };
        let (a, b) = match r.len() { 2 => (r[0], r[1]), 1 => (r[0], r[0]), _ => { all = false; continue; } };
        if a > b || b >= n * 8 { return bad(format!("{} within {} bytes, not at {}:{}", u[0], n, a, b)); }
        if let (Some(x), Some(y)) = (u[2].as_u64(), u[3].as_u64()) { if (x, y) != (a as u64, b as u64) { return bad(format!("{} at {}:{}, not at {}:{}", u[0], x, y, a, b)); } }
        if let Some(w) = u[4].as_u64() { if b + 1 - a != w as usize { return bad(format!("{} as wide as its type, {}, not at {}:{}", u[0], w, a, b)); } }
        for p in a..=b { if let Some(o) = owner.insert(p, k) { return bad(format!("no bit shared by {} and {}", u[0], units[o][0])); } }
    }
    if all && owner.keys().last().map_or(0, |p| p + 1) > bits { return bad(format!("no more than the reported {} bits assigned", bits)); }
    for e in it {
        let (p, r) = match e.split_once('=') { Some(x) => x, None => return bad("an effect per bit".into()) };
        let p: usize = p.parse().unwrap();
        let own = owner.get(&p);
        if r == "InvalidValue" { if all && own.is_none() { return bad(format!("unassigned bit {} without effect, not an error", p)); } continue; }
        let x: Vec<&str> = r.split(',').collect();
        if x.len() != 3 { return bad(format!("bit {} to be packed again, not {}", p, r)); }
        let changed: Vec<usize> = x[0].split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        if x[2] != "true" { return bad(format!("with bit {} flipped: unpacking what was packed to give the same", p)); }
        // a signed one spreads its sign over them
        let spread = |c: usize| own.map_or(!all && units.iter().any(|u| u[1] == false), |k| units[*k][1] == false && owner.get(&c) == Some(k));
        if changed.iter().any(|c| *c != p && !spread(*c)) { return bad(format!("flipping bit {} to change no other bit than that, not {:?}", p, changed)); }
        if all {
            match own {
                None => if !changed.is_empty() || x[1] != "true" { return bad(format!("unassigned bit {} without effect", p)); },
                Some(k) => if units[*k][1] == true && changed.is_empty() { return bad(format!("bit {} of {} to be kept", p, units[*k][0])); },
            }
        }
        // seen in the value exactly if seen in the bytes
        if changed.is_empty() && x[1] != "true" && all && own.map_or(true, |k| units[*k][1] == true) { return bad(format!("bit {} to change bytes and value together", p)); }
        if !changed.is_empty() && x[1] == "true" { return bad(format!("bit {} to change bytes and value together", p)); }
    }
    Ok(())
}
