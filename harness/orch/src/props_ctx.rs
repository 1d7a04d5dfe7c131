//! C27: what is derived works wherever the declaration stands.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;

/// what a user's scope may also contain
const SHADOWS: [&str; 22] = [
    "type Result<T> = ::std::result::Result<T, u8>;", "pub struct Error;", "pub struct Vec;", "pub struct String;", "mod std {}", "mod core {}", "mod alloc {}",
    "pub trait From {}", "pub trait Into {}", "pub trait Default {}", "mod packed_struct {}",
    "macro_rules! format { ($($t:tt)*) => { compile_error!(\"not this one\") } }", "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"not this one\") } }",
    "macro_rules! write { ($($t:tt)*) => { compile_error!(\"not this one\") } }", "macro_rules! panic { ($($t:tt)*) => { compile_error!(\"not this one\") } }",
    "pub fn pack() {} pub fn unpack() {} pub fn pack_to_slice() {} pub fn debug_fields() {}", "pub const ALL: u8 = 1; pub const BYTES: u8 = 2; pub const N: u8 = 3; pub const LEN: u8 = 4;",
    "pub struct Formatter; pub struct Display; pub trait Debug {} pub struct Cow;", "pub trait Deref {} pub trait AsRef {} pub trait Copy {} pub trait Clone {}", "mod fmt {} mod result {} mod types {} mod bits {} mod derive {}",
    // methods of the same names as the library's on every type
    "pub trait Mine { fn pack(&self) -> u8 { 3 } fn to_primitive(&self) -> u8 { 3 } fn fmt(&self) -> u8 { 3 } fn to_display_str(&self) -> u8 { 3 } fn as_bytes_slice(&self) -> u8 { 3 } } impl<T> Mine for T {}",
    "pub trait Their { fn unpack(_: &[u8]) -> u8 { 3 } fn from_primitive(_: u64) -> u8 { 3 } fn packed_bits() -> u8 { 3 } fn fmt_fields(&self) -> u8 { 3 } fn packed_struct_display_header() -> u8 { 3 } } impl<T> Their for T {}",
];

/// what many crates ask for; the names of the generated types and the unused items are not the point
const STRICT: &str = "#![deny(warnings)]\n#![forbid(unsafe_code)]\n#![allow(dead_code, unused_macros, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals)]\n";

const ENUM_NAMES: [&str; 6] = ["Mode", "MODE", "Mode_", "mode", "r#enum", "MoDe"];
const STRUCT_NAMES: [&str; 6] = ["Io", "IO", "I_o", "io", "r#struct", "iO"];

pub const WRAPS: [&str; 6] = ["none", "tokens", "items", "nullary", "arguments", "tokens in tokens"];

struct Style { wrap: usize, place: usize, imports: usize, shadows: Vec<usize>, cfg_attr: bool, ghost: bool, vis: usize, collide: bool, inherent: bool, strict: bool }

fn style(e: &[u16]) -> Style {
    let place = [0, 0, 0, 1, 2][e[1] as usize % 5];
    let mut shadows: Vec<usize> = (0..SHADOWS.len()).filter(|i| mix(e[3] as u64, *i as u64) % 3 == 0).collect();
    if e[3] < 64 { shadows.clear(); }
    // in a function, the rest of the program stands in the same scope
    if place != 0 { shadows.retain(|i| [0, 1, 15, 16, 20, 21].contains(i)); }
    Style { wrap: e[0] as usize % 6, place, imports: e[2] as usize % 4, shadows, cfg_attr: e[4] % 4 == 3, ghost: e[5] % 4 == 3, vis: e[6] as usize % 4, collide: e[7] % 2 == 1, inherent: e[9] % 3 == 2, strict: e[10] % 3 == 2 }
}

fn rename(m: &mut Module, k: usize) {
    for (i, e) in m.enums.iter_mut().enumerate() { if i < 6 { e.name = ENUM_NAMES[(i + k) % 6].into(); } }
    for (i, s) in m.structs.iter_mut().enumerate() { if i < 6 { s.name = STRUCT_NAMES[(i + k) % 6].into(); } }
}

/// A declaration whose names, settings, types, array sizes and discriminants are arguments of a macro.
struct Args { pat: Vec<String>, args: Vec<String>, g: u64 }
impl Args {
    fn add(&mut self, frags: &[&str], text: &str) -> String {
        let n = format!("$x{}", self.pat.len());
        let f = frags[(mix(self.g, self.pat.len() as u64) % frags.len() as u64) as usize];
        self.pat.push(format!("{}:{}", n, f));
        self.args.push(text.to_string());
        n
    }
    /// now and then the text stays where it is
    fn maybe(&mut self, frags: &[&str], text: &str) -> String {
        if mix(self.g, 1000 + self.pat.len() as u64) % 4 == 0 { self.g = self.g.wrapping_add(1); return text.to_string(); }
        self.add(frags, text)
    }
    fn finish(self, id: String, d: String) -> String {
        format!("macro_rules! declare_{id} {{ ({}) => {{\n{}}} }}\ndeclare_{id}!({});\n", self.pat.join("; "), d, self.args.join("; "))
    }
}

fn by_macro(m: &Module, s: &StructDef, derives: &str, id: usize, g: u64) -> String {
    let mut a = Args { pat: vec![], args: vec![], g };
    let mut t = s.clone();
    t.name = a.add(&["ident"], &s.name);
    for f in t.fields.iter_mut() { f.name = a.add(&["ident"], &f.name); }
    let mut o = String::new();
    for l in struct_decl(m, &t, derives).lines() {
        let tr = l.trim();
        if tr.starts_with("#[packed_") {
            // the quoted settings
            for (i, x) in l.split('"').enumerate() { if i % 2 == 0 { o.push_str(x) } else { let q = format!("\"{}\"", x); o.push_str(&a.maybe(&["literal", "expr", "tt"], &q)); } }
        } else if let (Some(at), true) = (l.find(": "), tr.ends_with(',') && !tr.starts_with("//") && l.contains("$x")) {
            let ty = &l[at + 2..l.trim_end().len() - 1];
            let ty = match ty.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.rsplit_once("; ")) {
                Some((e, c)) if mix(g, at as u64) % 3 > 0 => { let e = a.maybe(&["ty"], e); let c = a.maybe(&["literal", "expr", "tt"], c); format!("[{}; {}]", e, c) }
                _ => a.maybe(&["ty"], ty),
            };
            o.push_str(&format!("{}{},", &l[..at + 2], ty));
        } else { o.push_str(l) }
        o.push('\n');
    }
    a.finish(id.to_string(), o)
}

fn enum_by_macro(e: &EnumDef, id: usize, g: u64) -> String {
    let mut a = Args { pat: vec![], args: vec![], g };
    let mut t = e.clone();
    t.name = a.add(&["ident"], &e.name);
    for v in &mut t.vars {
        v.name = a.maybe(&["ident"], &v.name);
        if let Some(l) = &mut v.lit { *l = match l.strip_prefix('-') { Some(p) if mix(g, 7) % 2 == 0 => format!("-{}", a.maybe(&["literal", "expr", "tt"], p)), _ => a.maybe(&["literal", "expr"], l) }; }
    }
    a.finish(format!("enum_{}", id), enum_decl(&t))
}

fn decorate(d: &str, st: &Style) -> String {
    let mut o = String::new();
    for l in d.lines() {
        let t = l.trim();
        let vis = ["pub", "pub(crate)", "pub(super)", ""][st.vis];
        if st.cfg_attr && t.starts_with("#[") && t.ends_with(")]") && (t.starts_with("#[packed_") || t.starts_with("#[derive(")) {
            o.push_str(&format!("    #[cfg_attr({}, {})]\n", if l.len() % 2 == 0 { "all()" } else { "not(any())" }, &t[2..t.len() - 1]));
            continue;
        }
        if let Some(r) = l.strip_prefix("pub struct ").or(l.strip_prefix("pub enum ")) {
            let what = if l.starts_with("pub struct") { "struct" } else { "enum" };
            o.push_str(&format!("{} {} {}\n", vis, what, r));
            if st.ghost { o.push_str(if what == "struct" { "    #[cfg(any())] #[packed_field(bits=\"0..=7\")]\n    ghost: u8,\n" } else { "    #[cfg(any())]\n    Ghost = 77,\n" }); }
            continue;
        }
        o.push_str(l);
        o.push('\n');
    }
    let (s, e) = match st.imports {
        0 | 3 => ("PackedStruct", "PrimitiveEnum"),
        1 => ("::packed_struct::derive::PackedStruct", "::packed_struct::derive::PrimitiveEnum"),
        _ => ("d::PackedStruct", "d::PrimitiveEnum"),
    };
    o.replace("derive(PackedStruct", &format!("derive({}", s)).replace("derive(PrimitiveEnum", &format!("derive({}", e)).replace(" packed_struct::types", " ::packed_struct::types")
}

pub fn ctx_case(g: &CG, p: &Profile, edition: &str) -> Case {
    let mut m = module(g, p);
    let st = style(&g.extra);
    if st.collide { rename(&mut m.m, g.extra[8] as usize % 6); }
    let mm = &m.m;
    let mut user = String::new();
    let mut glue = String::new();
    let mut hands = String::new();
    let gm = g.extra.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64));
    for (i, e) in mm.enums.iter().enumerate() { user.push_str(&if st.wrap == 4 { enum_by_macro(e, i, gm) } else { enum_decl(e) }); glue.push_str(&enum_glue(e)); }
    for h in &mm.hands { hands.push_str(&hand_decl(h)); }
    for (i, s) in mm.structs.iter().enumerate() {
        let manual = needs_manual_eq(mm, s);
        let dv = if manual { ", Debug" } else { ", Debug, PartialEq" };
        user.push_str(&if st.wrap == 4 { by_macro(mm, s, dv, i, gm) } else { struct_decl(mm, s, dv) });
        if manual { glue.push_str(&format!("impl PartialEq for {n} {{ fn eq(&self, b: &{n}) -> bool {{ self.toks() == b.toks() }} }}\n", n = s.name)); }
        glue.push_str(&struct_glue(mm, s));
    }
    let mut user = decorate(&user, &st);
    if st.inherent {
        // the user's own methods, called like the library's
        for e in &mm.enums { user.push_str(&format!("impl {} {{ pub fn to_primitive(&self) -> u64 {{ 3 }} pub fn from_primitive(_: u64) -> u8 {{ 3 }} pub fn to_display_str(&self) -> u8 {{ 3 }} pub fn from_str(_: &str) -> u8 {{ 3 }} pub fn from_str_lower(_: &str) -> u8 {{ 3 }} pub fn all_variants() -> u8 {{ 3 }} }}\n", e.name)); }
        for s in &mm.structs { user.push_str(&format!("impl {} {{ pub fn pack(&self) -> u8 {{ 3 }} pub fn unpack(_: &[u8]) -> u8 {{ 3 }} pub fn packed_bits() -> u8 {{ 3 }} pub fn fmt(&self) -> u8 {{ 3 }} pub fn fmt_fields(&self) -> u8 {{ 3 }} pub fn packed_struct_display_header() -> u8 {{ 3 }} pub fn pack_to_slice(&self) -> u8 {{ 3 }} }}\n", s.name)); }
    }
    let user = match st.wrap {
        1 => format!("macro_rules! pass {{ ($($t:tt)*) => {{ $($t)* }} }}\npass! {{\n{}}}\n", user),
        2 => format!("macro_rules! pass {{ ($($t:item)*) => {{ $($t)* }} }}\npass! {{\n{}}}\n", user),
        3 => format!("macro_rules! all {{ () => {{\n{}}} }}\nall!();\n", user),
        5 => format!("macro_rules! inner {{ ($($t:tt)*) => {{ $($t)* }} }}\nmacro_rules! outer {{ ({{ $($t:tt)* }}) => {{ inner! {{ $($t)* }} }} }}\nouter! {{ {{\n{}}} }}\n", user),
        _ => user,
    };
    let roots = if edition == "2015" { "use std;\nuse packed_struct;\n" } else { "" };
    // what the declarations see
    let types = "use ::packed_struct::EnumCatchAll;\nuse ::packed_struct::types::{Integer, MsbInteger, LsbInteger, ReservedZero, ReservedOne, ReservedZeroes, ReservedOnes};\nuse ::packed_struct::types::bits as packed_bits;\n";
    let imports = match st.imports {
        0 => "use ::packed_struct::prelude::*;\n".to_string(),
        1 => types.to_string(),
        2 => format!("{}use ::packed_struct::derive as d;\n", types),
        _ => format!("{}use ::packed_struct::derive::{{PackedStruct, PrimitiveEnum, PrimitiveEnum_u8, PrimitiveEnum_u16, PrimitiveEnum_u32, PrimitiveEnum_u64, PrimitiveEnum_i8, PrimitiveEnum_i16, PrimitiveEnum_i32, PrimitiveEnum_i64}};\n", types),
    };
    let handuse: String = mm.hands.iter().map(|h| format!("use super::hands::{};\n", h.name)).collect();
    let shadows: String = st.shadows.iter().map(|i| format!("{}\n", SHADOWS[*i])).collect();
    let top = &m.s().name;
    let mut runb = format!("    if op == \"SHOW\" {{ return format!(\"{{}}\", <{top} as Glue>::mk(&mut it(args))); }}\n    if op == \"FORM\" {{ return <{top} as Glue>::mk(&mut it(args)).packed_struct_display_formatter().to_string(); }}\n");
    for (i, e) in mm.enums.iter().enumerate() {
        runb.push_str(&format!("    if op == \"NAME{i}\" {{ let e = <{n} as Glue>::mk(&mut it(args)); let s = ::packed_struct::PrimitiveEnumDynamicStr::to_display_str(&e).to_string(); let s2 = ::packed_struct::PrimitiveEnumStaticStr::to_display_str(&e); return format!(\"{{}} {{}} {{}} {{}} {{}}\", s, s == s2, <{n} as ::packed_struct::PrimitiveEnum>::from_str(&s) == Some(e), <{n} as ::packed_struct::PrimitiveEnumDynamicStr>::all_variants().len(), <{n} as ::packed_struct::PrimitiveEnumStaticStr>::all_variants().len()); }}\n", i = i, n = e.name));
    }
    let runf = format!("pub fn run(t: usize, op: &str, args: &str) -> String {{\n{}    ops::<{}>(op, args)\n}}\n", runb, top);
    let mut body = format!("pub mod hands {{\n{}use packed_struct::prelude::*;\nuse packed_struct::{{PackedStructInfo, PackingResult}};\nuse crate::g::*;\n{}}}\n", roots, hands);
    let names: Vec<String> = mm.enums.iter().map(|e| e.name.clone()).chain(mm.structs.iter().map(|s| s.name.clone())).collect();
    let handglue: String = mm.hands.iter().map(|h| format!("use super::super::hands::{};\n", h.name)).collect();
    let place = match st.place {
        0 => {
            // the user's macros are in scope of what follows them only
            body.push_str(&format!("pub mod place {{\n{}#[allow(warnings, trivial_casts, trivial_numeric_casts, unused_qualifications, unused_results, unused_lifetimes, elided_lifetimes_in_paths)]\npub mod glue {{\n{}use packed_struct::prelude::*;\nuse packed_struct::{{PackedStructInfo, PackingResult}};\nuse crate::g::*;\nuse super::{{{}}};\n{}{}{}}}\n{}{}{}{}}}\npub use self::place::glue::run;\n",
                if st.strict { STRICT } else { "" }, roots, names.join(", "), handglue, glue, runf, imports, handuse, shadows, user));
            "module"
        }
        1 => {
            body.push_str(&format!("pub mod place {{\n{}use crate::g::{{Glue, It, it, ops}};\n{}pub fn run(t: usize, op: &str, args: &str) -> String {{\n{}{}{}{}{}    ops::<{}>(op, args)\n}}\n}}\npub use self::place::run;\n", roots, handuse, imports, shadows, user, glue, runb, top));
            "function body"
        }
        _ => {
            body.push_str(&format!("pub mod place {{\n{}use crate::g::{{Glue, It, it, ops}};\n{}pub const RUN: fn(usize, &str, &str) -> String = {{\n{}{}{}{}{}run\n}};\n}}\npub use self::place::RUN as run;\n", roots, handuse, imports, shadows, user, glue, runf));
            "block of a constant"
        }
    };
    let mut ops = vec![];
    for i in &g.vals {
        let v = values(mm, &m.leaves, i, true);
        let e = m.pack_exp(&v);
        if matches!(&e, Exp::Eq(s) if s.starts_with("OK ")) {
            let head = format!("{} ({} byte", bare(top), m.nbytes);
            ops.push(Op::new(0, format!("SHOW {}", m.toks(&v)), Exp::Prefix(head.clone()), nz(&v)));
            ops.push(Op::new(0, format!("FORM {}", m.toks(&v)), Exp::Prefix(head), nz(&v)));
        }
        ops.push(Op::new(0, format!("P {}", m.toks(&v)), e, nz(&v)));
        let f = values(mm, &m.leaves, i, false);
        if m.fits(&f) { let t = m.toks(&f); ops.push(Op::new(0, format!("RT {}", t), Exp::Eq(format!("EQ {}", t)), nz(&f))); }
    }
    for i in &g.bytes {
        let b = bytes(mm, &m.leaves, m.nbytes, i);
        ops.push(Op::new(0, format!("U {}", hex(&b)), m.unpack_exp(&b), nzb(&b)));
        ops.push(Op::new(0, format!("US {}", hex(&b)), m.unpack_exp(&b), nzb(&b)));
        ops.push(Op::new(0, format!("UP {}", hex(&b)), up_exp(&m, &b), nzb(&b)));
    }
    for (i, e) in mm.enums.iter().enumerate() {
        for v in &e.vars { ops.push(Op::new(0, format!("NAME{} {}", i, v.disc), Exp::Eq(format!("{} true true {} {}", bare(&v.name), e.vars.len(), e.vars.len())), true)); }
    }
    let mut classes = m.classes();
    classes.push(match place { "module" => "place: module", "function body" => "place: function body", _ => "place: block of a constant" });
    classes.push(["written directly", "passed through as tokens", "passed through as items", "from a macro without arguments", "from a macro with arguments", "passed through twice"][st.wrap]);
    classes.push(["prelude imported", "derives by full path", "derives by module alias", "only derives and types imported"][st.imports]);
    if !st.shadows.is_empty() { classes.push("common names taken by the user"); }
    if st.collide { classes.push("type names that differ in case only, or raw"); }
    if st.inherent { classes.push("own methods called like the library's"); }
    if st.strict && st.place == 0 { classes.push("warnings denied, unsafe forbidden"); }
    if st.cfg_attr { classes.push("attributes by cfg_attr"); }
    if st.ghost { classes.push("configured-away fields and variants"); }
    classes.push(["pub", "pub(crate)", "pub(super)", "private"][st.vis]);
    Case { body, ops, decl: format!("{}{}{}", imports, shadows, user), classes, must_reject: false, early: false, may_reject: false }
}

pub fn c27(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let p = Profile { n_vals: 5, n_bytes: 5, max_fields: 8, n_enums: 3, far: false, ..Profile::default() };
    for edition in ["2015", "2018", "2021", "2024"] {
        let env = Env { lib: &lib, opts: CompileOpts { edition: Some(edition.into()), ..CompileOpts::default() } };
        if let Some(v) = go(ctx, &env, &format!("edition {}", edition), &p, ctx.n(12, 240), 12, &|g| ctx_case(g, &p, edition), st) { return Some(v); }
        st.classes.insert(format!("edition {}", edition), (ctx.n(12, 240) * 12) as u64);
    }
    None
}
