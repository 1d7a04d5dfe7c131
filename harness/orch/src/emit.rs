//! Rust source for declarations and glue.

use crate::spec::*;
use std::fmt::Write;

pub const PRELUDE: &str = r##"
pub mod g {
    use packed_struct::prelude::*;
    use packed_struct::PackedStructInfo;
    use packed_struct::types::bits::ByteArray;
    pub struct It<'a>(pub std::str::Split<'a, char>);
    impl<'a> It<'a> {
        pub fn s(&mut self) -> &'a str { self.0.next().unwrap() }
        pub fn i(&mut self) -> i128 { self.s().parse().unwrap() }
    }
    pub fn it(s: &str) -> It<'_> { It(s.split(',')) }
    pub fn hex(b: &[u8]) -> String {
        if b.is_empty() { return "-".into(); }
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    pub fn unhex(s: &str) -> Vec<u8> {
        if s == "-" { return vec![]; }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub trait Glue: Sized {
        fn mk(it: &mut It) -> Self;
        fn rd(&self, o: &mut Vec<String>);
        fn toks(&self) -> String {
            let mut o = vec![];
            self.rd(&mut o);
            if o.is_empty() { "-".into() } else { o.join(",") }
        }
    }
    pub fn ba<B: ByteArray>(v: &[u8]) -> B {
        let mut b = B::new(0);
        b.as_mut_bytes_slice().copy_from_slice(v);
        b
    }
    pub fn err(e: PackingError) -> String { format!("ERR {:?}", e) }
    pub fn ops<T: Glue + PackedStruct + PackedStructInfo + PartialEq>(op: &str, args: &str) -> String {
        match op {
            "P" => match T::mk(&mut it(args)).pack() { Ok(b) => format!("OK {}", hex(b.as_bytes_slice())), Err(e) => err(e) },
            "U" => match T::unpack(&ba(&unhex(args))) { Ok(v) => format!("OK {}", v.toks()), Err(e) => err(e) },
            "RT" => {
                let v = T::mk(&mut it(args));
                let p = match v.pack() { Ok(p) => p, Err(e) => return err(e) };
                match T::unpack(&p) { Ok(w) => format!("{} {}", if v == w { "EQ" } else { "NE" }, w.toks()), Err(e) => err(e) }
            }
            "UP" => {
                let v = match T::unpack(&ba(&unhex(args))) { Ok(v) => v, Err(e) => return err(e) };
                let p = match v.pack() { Ok(p) => p, Err(e) => return format!("PACK {}", err(e)) };
                let v2 = match T::unpack(&p) { Ok(v) => v, Err(e) => return format!("UNPACK2 {}", err(e)) };
                let p2 = match v2.pack() { Ok(p) => p, Err(e) => return format!("PACK2 {}", err(e)) };
                format!("OK {} {} {}", hex(p.as_bytes_slice()), v == v2, p.as_bytes_slice() == p2.as_bytes_slice())
            }
            "I" => {
                let some = T::unpack(&ba(&unhex(args))).ok();
                format!("{} {:?} {:?} {} {}", T::packed_bits(), T::packed_bytes_size(None), some.as_ref().map(|v| T::packed_bytes_size(Some(v))),
                    <T::ByteArray as ByteArray>::len(), some.as_ref().map(|v| v.pack().map(|p| p.as_bytes_slice().len())).map_or(-1, |r| r.map_or(-2, |x| x as i64)))
            }
            "PV" => pv(&T::mk(&mut it(args))),
            // pack into a slice of the given length, prefilled with a pattern
            "PS" => {
                let (l, a) = args.split_once(' ').unwrap();
                let l: usize = l.parse().unwrap();
                let mut buf: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(37) ^ 0xC3).collect();
                match T::mk(&mut it(a)).pack_to_slice(&mut buf) { Ok(()) => format!("OK {}", hex(&buf)), Err(e) => format!("ERR {:?} {}", e, hex(&buf)) }
            }
            "US" => match T::unpack_from_slice(&unhex(args)) { Ok(v) => format!("OK {}", v.toks()), Err(e) => err(e) },
            // xor of two packings
            "PX" => {
                let (a, b) = args.split_once('|').unwrap();
                match (T::mk(&mut it(a)).pack(), T::mk(&mut it(b)).pack()) {
                    (Ok(a), Ok(b)) => format!("OK {}", hex(&a.as_bytes_slice().iter().zip(b.as_bytes_slice()).map(|(x, y)| x ^ y).collect::<Vec<u8>>())),
                    (a, b) => format!("{:?} {:?}", a.map(|_| ()), b.map(|_| ())),
                }
            }
            // indexes of the tokens that differ
            "UX" => {
                let (a, b) = args.split_once('|').unwrap();
                match (T::unpack(&ba(&unhex(a))), T::unpack(&ba(&unhex(b)))) {
                    (Ok(a), Ok(b)) => {
                        let (mut x, mut y) = (vec![], vec![]);
                        a.rd(&mut x);
                        b.rd(&mut y);
                        format!("OK {:?} {}", x.iter().zip(&y).enumerate().filter(|(_, (p, q))| p != q).map(|(i, _)| i).collect::<Vec<_>>(), a == b)
                    }
                    (a, b) => format!("{} {}", a.map_or_else(|e| err(e), |_| "OK".into()), b.map_or_else(|e| err(e), |_| "OK".into())),
                }
            }
            _ => "BADOP".into(),
        }
    }
    /*PV*/
}
fn main() { std::thread::Builder::new().stack_size(1 << 29).spawn(serve).unwrap().join().unwrap() }
fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = String::new();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap() == 0 { break; }
        let l = line.trim_end_matches('\n').to_string();
        let mut p = l.splitn(4, ' ');
        let c: usize = p.next().unwrap().parse().unwrap();
        let t: usize = p.next().unwrap().parse().unwrap();
        let op = p.next().unwrap();
        let args = p.next().unwrap_or("");
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(c, t, op, args))) {
            Ok(s) => s,
            Err(e) => format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let r = r.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
        println!("{}", r);
    }
}
"##;

pub const PV_ALLOC: &str = r##"pub fn pv<T: PackedStructSlice>(v: &T) -> String { match v.pack_to_vec() { Ok(b) => format!("OK {}", hex(&b)), Err(e) => err(e) } }"##;
pub const PV_NONE: &str = r##"pub fn pv<T: PackedStructSlice>(v: &T) -> String { "NONE".into() }"##;

/// Assemble a program. `mods` are the bodies of the case modules; each must define
/// `pub fn run(t: usize, op: &str, args: &str) -> String`.
/// Returns the text and, per case, the range of lines it spans.
pub fn program(mods: &[&str], alloc: bool, parts: &[String], edition: &str) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\nextern crate packed_struct;\nextern crate alloc;\n");
    let mut extra = String::from(if alloc { PV_ALLOC } else { PV_NONE });
    for p in parts { extra.push_str(crate::parts::part(p)); }
    // paths in the oldest edition start at the module
    let roots = if edition == "2015" { "    use std;\n    use packed_struct;\n" } else { "" };
    s.push_str(&PRELUDE.replace("/*PV*/", &extra).replace("pub mod g {\n", &format!("pub mod g {{\n{}", roots)));
    s.push_str("fn dispatch(c: usize, t: usize, op: &str, args: &str) -> String {\n    match c {\n");
    for i in 0..mods.len() { writeln!(s, "        {} => c{}::run(t, op, args),", i, i).unwrap(); }
    s.push_str("        _ => \"BADCASE\".into(),\n    }\n}\n");
    let mut ranges = vec![];
    let mut line = s.matches('\n').count() + 1;
    for (i, m) in mods.iter().enumerate() {
        let t = format!("pub mod c{} {{\n{}    use packed_struct::prelude::*;\n    use packed_struct::{{PackedStructInfo, PackingResult}};\n    use crate::g::*;\n{}\n}}\n", i, roots, m);
        let n = t.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        s.push_str(&t);
    }
    (s, ranges)
}

/// Only declarations, in a crate that itself does without the standard library.
pub fn program_nostd(mods: &[&str], alloc: bool) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from("#![no_std]\n#![allow(warnings)]\n#![recursion_limit = \"512\"]\nextern crate packed_struct;\n");
    if alloc { s.push_str("extern crate alloc;\n"); }
    let mut ranges = vec![];
    let mut line = s.matches('\n').count() + 1;
    for (i, m) in mods.iter().enumerate() {
        let t = format!("pub mod c{} {{\n    use packed_struct::prelude::*;\n{}\n}}\n", i, m);
        let n = t.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        s.push_str(&t);
    }
    (s, ranges)
}

pub fn enum_decl(e: &EnumDef) -> String {
    let mut s = String::new();
    let d = if e.explicit { format!("PrimitiveEnum_{}", e.backing.name()) } else { "PrimitiveEnum".into() };
    writeln!(s, "#[derive({}, Clone, Copy, Debug, PartialEq, Eq)]", d).unwrap();
    if let Some(r) = e.repr { writeln!(s, "#[repr({})]", r.name()).unwrap(); }
    writeln!(s, "pub enum {} {{", e.name).unwrap();
    for v in &e.vars {
        match &v.lit { Some(l) => writeln!(s, "    {} = {},", v.name, l).unwrap(), None => writeln!(s, "    {},", v.name).unwrap() }
    }
    s.push_str("}\n");
    s
}

pub fn enum_glue(e: &EnumDef) -> String {
    let mut s = String::new();
    writeln!(s, "impl Glue for {} {{", e.name).unwrap();
    writeln!(s, "    fn mk(it: &mut It) -> Self {{ match it.i() {{").unwrap();
    for v in &e.vars { writeln!(s, "        {} => {}::{},", v.disc, e.name, v.name).unwrap(); }
    writeln!(s, "        _ => unreachable!() }} }}").unwrap();
    writeln!(s, "    fn rd(&self, o: &mut Vec<String>) {{ o.push(match *self {{").unwrap();
    for v in &e.vars { writeln!(s, "        {}::{} => \"{}\",", e.name, v.name, v.disc).unwrap(); }
    writeln!(s, "    }}.to_string()) }}\n}}").unwrap();
    writeln!(s, "impl Glue for EnumCatchAll<{}> {{", e.name).unwrap();
    writeln!(s, "    fn mk(it: &mut It) -> Self {{ let s = it.s(); let v: i128 = s[1..].parse().unwrap(); if &s[..1] == \"e\" {{ EnumCatchAll::Enum({}::mk(&mut crate::g::it(&s[1..]))) }} else {{ EnumCatchAll::CatchAll(v as {}) }} }}", e.name, e.backing.name()).unwrap();
    writeln!(s, "    fn rd(&self, o: &mut Vec<String>) {{ match *self {{ EnumCatchAll::Enum(e) => {{ let mut x = vec![]; e.rd(&mut x); o.push(format!(\"e{{}}\", x[0])); }} EnumCatchAll::CatchAll(v) => o.push(format!(\"c{{}}\", v)) }} }}\n}}").unwrap();
    s
}

pub fn hand_decl(h: &HandDef) -> String {
    let (n, b, w) = (&h.name, h.bytes, h.w);
    let lead = b * 8 - w;
    let mut s = String::new();
    if h.odd_debug {
        // a debug text that a careless table would trip over
        writeln!(s, "#[derive(Clone, PartialEq)]\npub struct {n} {{ v: [u8; {b}] }}").unwrap();
        writeln!(s, "impl std::fmt::Debug for {n} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ write!(f, \"a|b \\\"{{}}\\\"\\t{{{{{{{{}}}}}}}} é\", self.v[0]) }} }}").unwrap();
    } else {
        writeln!(s, "#[derive(Clone, Debug, PartialEq)]\npub struct {n} {{ v: [u8; {b}] }}").unwrap();
    }
    writeln!(s, "impl PackedStruct for {n} {{\n    type ByteArray = [u8; {b}];").unwrap();
    writeln!(s, "    fn pack(&self) -> PackingResult<[u8; {b}]> {{ let mut v = self.v; {} {} Ok(v) }}",
        if h.fails { format!("if v[{}] == {} {{ return Err(PackingError::BitsError); }}", b - 1, HAND_BAD) } else { String::new() },
        if h.garbage && lead > 0 { format!("v[0] |= {};", 0xffu8 << (8 - lead)) } else { String::new() }).unwrap();
    writeln!(s, "    fn unpack(src: &[u8; {b}]) -> PackingResult<Self> {{ {} Ok({n} {{ v: *src }}) }}\n}}",
        if h.fails { format!("if src[{}] == {} {{ return Err(PackingError::BitsError); }}", b - 1, HAND_BAD) } else { String::new() }).unwrap();
    writeln!(s, "impl packed_struct::PackedStructInfo for {n} {{ fn packed_bits() -> usize {{ {w} }} }}").unwrap();
    writeln!(s, "impl Glue for {n} {{ fn mk(it: &mut It) -> Self {{ let mut v = [0u8; {b}]; v.copy_from_slice(&unhex(&it.s()[1..])); {n} {{ v }} }} fn rd(&self, o: &mut Vec<String>) {{ o.push(format!(\"x{{}}\", hex(&self.v))); }} }}").unwrap();
    s
}

pub fn struct_decl(m: &Module, s: &StructDef, derives: &str) -> String {
    let mut o = String::new();
    writeln!(o, "#[derive(PackedStruct{})]", derives).unwrap();
    let mut a = vec![];
    // the settings' letter case doesn't matter
    let k = s.fields.iter().map(|f| f.start + f.name.len()).sum::<usize>() % 6;
    match s.numbering { Numbering::Msb0 => a.push(format!("bit_numbering=\"{}\"", ["msb0", "msb0", "MSB0", "msb0", "Msb0", "msb0"][k])), Numbering::Lsb0 => a.push(format!("bit_numbering=\"{}\"", ["lsb0", "lsb0", "LSB0", "lsb0", "Lsb0", "lsb0"][k])), _ => () }
    if let Some(e) = &s.default_endian { a.push(format!("endian=\"{}\"", e)); }
    if let Some(t) = &s.size_text { a.push(format!("size_bytes=\"{}\"", t)); }
    if s.split_attrs { for x in &a { writeln!(o, "#[packed_struct({})]", x).unwrap(); } } else if !a.is_empty() { writeln!(o, "#[packed_struct({})]", a.join(", ")).unwrap(); }
    writeln!(o, "pub struct {} {{", s.name).unwrap();
    for f in &s.fields {
        // what else a field may carry
        let extra = (f.name.len() + f.start + f.ew) % 9;
        if extra == 3 { o.push_str("    /// Says `packed_field(bits=\"0..\")` in its documentation.\n"); }
        let vis = if extra == 5 { "" } else if extra == 6 { "pub(crate) " } else { "pub " };
        for l in &f.attrs {
            if l.is_empty() { continue; }
            writeln!(o, "    #[packed_field({})]", l.iter().map(|(k, v)| format!("{}=\"{}\"", k, v)).collect::<Vec<_>>().join(", ")).unwrap();
        }
        let t = m.elem_ty(&f.kind);
        match f.count { Some(c) => writeln!(o, "    {}{}: [{}; {}],", vis, f.name, t, if extra == 7 { format!("{:#x}", c) } else if extra == 8 { format!("{}usize", c) } else { c.to_string() }).unwrap(), None => writeln!(o, "    {}{}: {},", vis, f.name, t).unwrap() }
        if extra == 4 { let at = o.trim_end().rfind('\n').unwrap(); o.insert_str(at, "\n    #[allow(dead_code)]"); }
    }
    o.push_str("}\n");
    o
}

fn mk_expr(m: &Module, k: &Kind) -> String {
    match k {
        Kind::Bool => "it.i() != 0".into(),
        Kind::Native(p) => format!("it.i() as {}", p.name()),
        Kind::Sized(p, _) => format!("<{}>::from(it.i() as {})", m.elem_ty(k), p.name()),
        Kind::Helper(_, p, n) => format!("<{}>::from(<Integer<{}, packed_bits::Bits::<{}>>>::from(it.i() as {}))", m.elem_ty(k), p.name(), n, p.name()),
        Kind::Res(..) => "Default::default()".into(),
        _ => format!("<{}>::mk(it)", m.elem_ty(k)),
    }
}
fn rd_stmt(k: &Kind, place: &str) -> String {
    match k {
        Kind::Bool => format!("o.push(({} as u8).to_string());", place),
        Kind::Native(_) => format!("o.push({}.to_string());", place),
        Kind::Sized(..) => format!("o.push((*{}).to_string());", place),
        Kind::Helper(..) => format!("o.push((**{}).to_string());", place),
        Kind::Res(..) => String::new(),
        _ => format!("{}.rd(o);", place),
    }
}

pub fn struct_glue(m: &Module, s: &StructDef) -> String {
    let mut o = String::new();
    writeln!(o, "impl Glue for {} {{\n    fn mk(it: &mut It) -> Self {{ {} {{", s.name, s.name).unwrap();
    for f in &s.fields {
        let e = mk_expr(m, &f.kind);
        match f.count {
            Some(c) if c <= 4 => writeln!(o, "        {}: [{}],", f.name, vec![e; c].join(", ")).unwrap(),
            Some(_) => writeln!(o, "        {}: std::array::from_fn(|_| {}),", f.name, e).unwrap(),
            None => writeln!(o, "        {}: {},", f.name, e).unwrap(),
        }
    }
    writeln!(o, "    }} }}\n    fn rd(&self, o: &mut Vec<String>) {{").unwrap();
    for f in &s.fields {
        if matches!(f.kind, Kind::Res(..)) { continue; }
        match f.count {
            Some(c) => writeln!(o, "        for i in 0..{} {{ {} }}", c, rd_stmt(&f.kind, &format!("self.{}[i]", f.name))).unwrap(),
            None => writeln!(o, "        {}", rd_stmt(&f.kind, &format!("self.{}", f.name))).unwrap(),
        }
    }
    writeln!(o, "    }}\n}}").unwrap();
    o
}

/// PartialEq by tokens: some field types (helpers) have no PartialEq of their own.
pub fn needs_manual_eq(m: &Module, s: &StructDef) -> bool {
    s.fields.iter().any(|f| matches!(f.kind, Kind::Helper(..)) || matches!(f.kind, Kind::Nested(i) if needs_manual_eq(m, &m.structs[i])))
}

/// `dbg_texts`: the debug text of every field or element, in declaration order.
pub fn struct_dbg(s: &StructDef) -> String {
    let mut o = String::new();
    writeln!(o, "impl DbgTexts for {} {{ fn dbg_texts(&self) -> Vec<String> {{ let mut o: Vec<String> = vec![];", s.name).unwrap();
    for f in &s.fields {
        match f.count {
            Some(c) => writeln!(o, "    for i in 0..{} {{ o.push(format!(\"{{:?}}\", self.{}[i])); }}", c, f.name).unwrap(),
            None => writeln!(o, "    o.push(format!(\"{{:?}}\", self.{}));", f.name).unwrap(),
        }
    }
    o.push_str("    o } }\n");
    o
}

/// Everything a module needs except `run`.
pub fn decls(m: &Module) -> String {
    let mut o = String::new();
    for e in &m.enums { o.push_str(&enum_decl(e)); o.push_str(&enum_glue(e)); }
    for h in &m.hands { o.push_str(&hand_decl(h)); }
    for s in &m.structs {
        if needs_manual_eq(m, s) {
            o.push_str(&struct_decl(m, s, ", Debug"));
            writeln!(o, "impl PartialEq for {n} {{ fn eq(&self, b: &{n}) -> bool {{ self.toks() == b.toks() }} }}", n = s.name).unwrap();
        } else {
            o.push_str(&struct_decl(m, s, ", Debug, PartialEq"));
        }
        o.push_str(&struct_glue(m, s));
    }
    o
}

pub fn run_fn(types: &[String]) -> String {
    let mut o = String::from("pub fn run(t: usize, op: &str, args: &str) -> String { match t {\n");
    for (i, t) in types.iter().enumerate() { writeln!(o, "    {} => ops::<{}>(op, args),", i, t).unwrap(); }
    o.push_str("    _ => \"BADTYPE\".into() } }\n");
    o
}

/// Only the declaration as a user would write it, for samples and replays.
pub fn user_decl(m: &Module) -> String {
    let mut o = String::new();
    for e in &m.enums { if m.structs.iter().any(|s| s.fields.iter().any(|f| matches!(f.kind, Kind::Enum(i) | Kind::Cat(i) if m.enums[i].name == e.name))) { o.push_str(&enum_decl(e)); } }
    for s in &m.structs { o.push_str(&struct_decl(m, s, "")); }
    o
}

/// Drop inner definitions that the structures in `roots` do not use (keeps programs small).
pub fn prune(m: &mut Module, roots: &[usize]) {
    let mut su = vec![false; m.structs.len()];
    let mut eu = vec![false; m.enums.len()];
    let mut hu = vec![false; m.hands.len()];
    let mut st: Vec<usize> = roots.to_vec();
    while let Some(i) = st.pop() {
        if su[i] { continue; }
        su[i] = true;
        for f in &m.structs[i].fields {
            match f.kind { Kind::Nested(x) => st.push(x), Kind::Enum(x) | Kind::Cat(x) => eu[x] = true, Kind::Hand(x) => hu[x] = true, _ => () }
        }
    }
    let idx = |u: &[bool]| { let mut n = 0; u.iter().map(|x| { if *x { n += 1; n - 1 } else { usize::MAX } }).collect::<Vec<_>>() };
    let (si, ei, hi) = (idx(&su), idx(&eu), idx(&hu));
    for s in &mut m.structs { for f in &mut s.fields { f.kind = match f.kind.clone() { Kind::Nested(x) => Kind::Nested(si[x]), Kind::Enum(x) => Kind::Enum(ei[x]), Kind::Cat(x) => Kind::Cat(ei[x]), Kind::Hand(x) => Kind::Hand(hi[x]), k => k }; } }
    let mut k = 0; m.structs.retain(|_| { k += 1; su[k - 1] });
    let mut k = 0; m.enums.retain(|_| { k += 1; eu[k - 1] });
    let mut k = 0; m.hands.retain(|_| { k += 1; hu[k - 1] });
}
