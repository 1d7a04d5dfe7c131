//! Which declarations are refused, and the recorded defect of exclusive byte ranges.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;
use proptest::prelude::*;

/// Declarations without the glue that exercises them.
pub fn bare(m: &Module) -> String {
    let mut o = String::new();
    for e in &m.enums { o.push_str(&enum_decl(e)); }
    for h in &m.hands { o.push_str(&hand_decl(h)); }
    for s in &m.structs { o.push_str(&struct_decl(m, s, ", Debug")); }
    o
}

const RUN: &str = "pub fn run(t: usize, op: &str, args: &str) -> String { String::new() }\n";

fn case(body: String, class: &'static str, early: bool, reject: bool) -> Case {
    Case { decl: body.clone(), body: format!("{}{}", body, RUN), ops: vec![], classes: vec![class], must_reject: reject, early, may_reject: false }
}

pub fn extra_field(name: &str, kind: Kind, count: Option<usize>, ew: usize, start: usize, attrs: &[(&str, String)]) -> Field {
    Field { name: name.into(), kind, count, ew, start, lsb: false, endian_attr: None, attrs: vec![attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()] }
}

fn explicit(m: &mut Module, t: usize, sps: &[u16], all: bool) {
    let mut s = m.structs[t].clone();
    if s.numbering == Numbering::None { s.numbering = Numbering::Msb0; }
    spell(&mut s, m, sps, all);
    m.structs[t] = s;
}

fn strip(f: &mut Field, keys: &[&str]) { for l in &mut f.attrs { l.retain(|a| !keys.contains(&a.0.as_str())); } }
const SIZES: [&str; 4] = ["size_bits", "size_bytes", "element_size_bits", "element_size_bytes"];

pub const FAULTS: usize = 25;

/// One fault injected into a valid structure: (text, refused while expanding, what)
fn fault(kind: usize, m0: &M, g: &CG) -> Option<(String, bool, &'static str)> {
    let x = |i: usize| g.extra[i % g.extra.len()] as usize;
    let mut m = m0.m.clone();
    let t = m0.top;
    let nf = m.structs[t].fields.len();
    let nbits = m0.s().num_bits();
    let done = |m: &Module, early: bool, what: &'static str| Some((bare(m), early, what));
    match kind {
        // two fields share a bit
        0 | 1 | 2 => {
            if nf < 2 { return None; }
            let i = x(0) % nf;
            let j = (i + 1 + x(1) % (nf - 1)) % nf;
            let f = m.structs[t].fields[i].clone();
            let wj = m.structs[t].fields[j].width();
            let lo = (f.start + 1).saturating_sub(wj);
            let hi = f.end();
            let p = match x(2) % 3 { 0 => hi, 1 => lo, _ => lo + x(3) % (hi - lo + 1) };
            let p = if kind == 2 { f.start + (x(3) % f.n()) * f.ew } else { p };
            let p = if m.structs[t].size_bytes.is_some() { if wj > nbits { return None; } p.min(nbits - wj) } else { p };
            m.structs[t].fields[j].start = p;
            if p > f.end() || p + wj <= f.start { return None; }
            explicit(&mut m, t, &g.extra[4..], x(4) % 2 == 0);
            // without a declared size the total may now be partial: that is no fault with explicit positions
            done(&m, true, "overlap")
        }
        // the declared size is too small
        3 => {
            let s = m0.s();
            s.size_bytes?;
            let top = if s.numbering == Numbering::Lsb0 { nbits - 1 - s.fields.iter().map(|f| f.start).min().unwrap() } else { s.fields.iter().map(|f| f.end()).max().unwrap() };
            let max = top / 8;
            let v = if x(0) % 2 == 0 { max } else { x(1) % (max + 1) };
            m.structs[t].size_text = Some(v.to_string());
            done(&m, true, "declared size too small")
        }
        // one field reaches beyond the declared size
        4 | 5 => {
            m0.s().size_bytes?;
            explicit(&mut m, t, &g.extra[4..], true);
            let lsb0 = m.structs[t].numbering == Numbering::Lsb0;
            let j = if lsb0 { (0..nf).min_by_key(|i| m.structs[t].fields[*i].start) } else { (0..nf).max_by_key(|i| m.structs[t].fields[*i].start) }.unwrap();
            let f = &mut m.structs[t].fields[j];
            let (w, ew) = (f.width(), f.ew);
            let k = match x(0) % 4 { 0 => 1, 1 => 1 + x(1) % w, 2 => w, _ => 1 + x(1) % 40 };
            strip(f, &["bits", "bytes"]);
            strip(f, &SIZES);
            let e = nbits - 1 + k;
            let text = if lsb0 || x(2) % 2 == 0 || e + 1 < w { if e + 1 < w { return None; } format!("{}:{}", e + 1 - w, e) } else { format!("{}..", e + 1 - w) };
            if text.ends_with("..") { f.attrs.push(vec![("element_size_bits".into(), ew.to_string())]); }
            f.attrs.push(vec![("bits".into(), text)]);
            done(&m, true, "outside of the declared size")
        }
        // positions without a bit numbering
        6 => {
            let s = m0.s();
            if s.numbering == Numbering::None {
                let j = x(0) % nf;
                let f = &mut m.structs[t].fields[j];
                let text = if x(1) % 2 == 0 { format!("{}:{}", f.start, f.end()) } else { format!("{}..", f.start) };
                f.attrs.push(vec![("bits".into(), text)]);
            } else {
                if !s.fields.iter().any(|f| f.attrs.iter().flatten().any(|a| a.0 == "bits" || a.0 == "bytes")) { return None; }
                m.structs[t].numbering = Numbering::None;
            }
            done(&m, true, "positions without bit numbering")
        }
        // LSB0 without a size
        7 => {
            m0.s().size_bytes?;
            m.structs[t].numbering = Numbering::Lsb0;
            explicit(&mut m, t, &g.extra[4..], true);
            m.structs[t].size_text = None;
            done(&m, true, "lsb0 without byte size")
        }
        // LSB0 without a full position
        8 => {
            m0.s().size_bytes?;
            m.structs[t].numbering = Numbering::Lsb0;
            explicit(&mut m, t, &g.extra[4..], true);
            let j = x(0) % nf;
            let f = &mut m.structs[t].fields[j];
            strip(f, &["bits", "bytes"]);
            strip(f, &SIZES);
            f.attrs.push(vec![("element_size_bits".into(), f.ew.to_string())]);
            let lo = nbits - 1 - f.end();
            match x(1) % 4 { 0 => f.attrs.push(vec![("bits".into(), format!("{}..", lo))]), 1 => f.attrs.push(vec![("bits".into(), format!("{}:", lo))]), 2 if lo % 8 == 0 => f.attrs.push(vec![("bytes".into(), format!("{}..", lo / 8))]), _ => () }
            done(&m, true, "lsb0 without full position")
        }
        // automatic first field, partial byte, no size
        9 => {
            let s = m0.s();
            let total = s.fields.iter().map(|f| f.end() + 1).max().unwrap();
            if total % 8 == 0 || s.numbering == Numbering::Lsb0 || s.fields[0].attrs.iter().flatten().any(|a| a.0 == "bits" || a.0 == "bytes") { return None; }
            m.structs[t].size_text = None;
            done(&m, true, "automatic first field leaves a partial byte")
        }
        // width unknown
        10 => {
            let s = m0.s();
            let c: Vec<usize> = (0..nf).filter(|i| matches!(s.fields[*i].kind, Kind::Nested(_) | Kind::Hand(_) | Kind::Enum(_) | Kind::Cat(_) | Kind::Helper(..))).collect();
            if c.is_empty() || s.numbering == Numbering::Lsb0 { return None; }
            let j = c[x(0) % c.len()];
            if s.numbering == Numbering::Msb0 {
                explicit(&mut m, t, &g.extra[4..], true);
                let f = &mut m.structs[t].fields[j];
                strip(f, &["bits", "bytes"]);
                f.attrs.push(vec![("bits".into(), format!("{}{}", f.start, if x(1) % 2 == 0 { ".." } else { ":" }))]);
            }
            strip(&mut m.structs[t].fields[j], &SIZES);
            done(&m, true, "width cannot be determined")
        }
        // wider than its integer type
        11 => {
            let e = x(0) % 3;
            let p = PRIMS[x(1) % 8];
            let (k, b) = if e == 0 && !m.enums.is_empty() { let i = x(1) % m.enums.len(); (Kind::Enum(i), m.enums[i].backing.bits()) } else if e == 1 && !m.enums.is_empty() { let i = x(1) % m.enums.len(); (Kind::Cat(i), m.enums[i].backing.bits()) } else { (Kind::Native(p), p.bits()) };
            let w = b + match x(2) % 3 { 0 => 1, 1 => 1 + x(3) % 8, _ => 1 + x(3) % 64 };
            let n = if x(4) % 3 == 0 { Some(1 + x(5) % 3) } else { None };
            let s = &mut m.structs[t];
            if s.numbering == Numbering::Lsb0 { return None; }
            let mut a: Vec<(&str, String)> = vec![("endian", if x(6) % 2 == 0 { "msb".into() } else { "lsb".into() })];
            let start = s.fields.iter().map(|f| f.end() + 1).max().unwrap();
            let end = start + w * n.unwrap_or(1) - 1;
            if s.numbering == Numbering::Msb0 && x(7) % 2 == 0 { a.push(("bits", format!("{}:{}", start, end))); }
            else if s.numbering == Numbering::Msb0 { a.push(("bits", format!("{}..", start))); a.push(("element_size_bits", w.to_string())); }
            else { a.push(("element_size_bits", w.to_string())); }
            if !matches!(k, Kind::Native(_)) { a.push(("ty", "enum".into())); }
            s.fields.push(extra_field("wide_one", k, n, w, start, &a));
            if s.numbering == Numbering::None || s.size_bytes.is_some() { s.size_text = Some(((end + 8) / 8).to_string()); }
            done(&m, false, "wider than the integer type")
        }
        // empty array
        12 => {
            let s = &mut m.structs[t];
            if s.numbering == Numbering::Lsb0 { return None; }
            let a: Vec<(&str, String)> = if x(0) % 2 == 0 { vec![] } else { vec![("element_size_bits", "8".into())] };
            let k = [Kind::Native(Prim::U8), Kind::Bool, Kind::Res(false, 8), Kind::Native(Prim::I8)][x(1) % 4].clone();
            let f = extra_field("nothing", k, Some(0), 8, 0, &a);
            let at = if x(2) % 2 == 0 { nf } else { x(3) % nf };
            if s.size_text.is_none() && at == 0 { return None; }
            s.fields.insert(at, f);
            done(&m, true, "empty array")
        }
        // array that does not divide
        13 => {
            let s = &mut m.structs[t];
            let n = 2 + x(0) % 6;
            let w = n * (1 + x(1) % 7) + 1 + x(2) % (n - 1);
            let start = (s.fields.iter().map(|f| f.end() + 1).max().unwrap() + 7) / 8 * 8;
            let k = [Kind::Native(Prim::U8), Kind::Native(Prim::I8)][x(3) % 2].clone();
            let end = start + w - 1;
            let size = (end + 8) / 8;
            let lsb0 = s.numbering == Numbering::Lsb0;
            if lsb0 {
                s.size_bytes = Some(size);
                s.size_text = Some(size.to_string());
                spell(s, &m0.m, &g.extra[4..], true);
            } else {
                let has = s.size_bytes.is_some();
                s.numbering = Numbering::Msb0;
                if has { s.size_bytes = Some(size); s.size_text = Some(size.to_string()); }
                spell(s, &m0.m, &g.extra[4..], x(4) % 2 == 0);
            }
            let (a, b) = if lsb0 { (size * 8 - 1 - start, size * 8 - 1 - end) } else { (start, end) };
            s.fields.push(extra_field("uneven", k, Some(n), w / n, start, &[("bits", format!("{}:{}", a, b))]));
            done(&m, true, "array does not divide evenly")
        }
        // generic, enum, union, unnamed
        14 | 15 | 16 => {
            let n = m.structs[t].name.clone();
            let text = bare(&m);
            let head = format!("pub struct {} {{", n);
            let at = text.rfind(&head)?;
            let (before, decl) = text.split_at(at);
            let new = match (kind, x(0) % 5) {
                (14, 0) => decl.replacen(&head, &format!("pub struct {}<const N: usize> {{", n), 1),
                (14, 1) => decl.replacen(&head, &format!("pub struct {}<const N: usize = 3> {{", n), 1),
                (14, 2) => format!("pub struct {}<X: PackedStruct + std::fmt::Debug> {{\n    #[packed_field(bits=\"0..=7\", element_size_bits=\"8\")]\n    pub only: X,\n}}\n", n),
                (14, 3) => format!("pub struct {}<'a> {{\n    #[packed_field(bits=\"0..=7\", element_size_bits=\"8\")]\n    pub only: Borrowed<'a>,\n}}\n{}", n, BORROWED),
                (14, _) => decl.replacen(&head, &format!("pub struct {}<const B: bool, const N: u8> {{", n), 1),
                (15, k) => { let v = ["A, B", "A = 1, B = 7", "A", "A(u8)", "A { a: u8 }, B"][k]; format!("pub enum {} {{ {} }}\n", n, v) }
                (_, _) => {
                    // the same fields without names
                    let mut d = decl.replacen(&head, &format!("pub struct {}(", n), 1);
                    for f in &m.structs[t].fields { for v in ["pub ", "pub(crate) ", ""] { d = d.replacen(&format!("\n    {}{}: ", v, f.name), &format!("\n    {}", v), 1); } }
                    let e = d.rfind('}')?;
                    d.replace_range(e..e + 1, ");");
                    d
                }
            };
            Some((format!("{}{}", before, new), true, match kind { 14 => "generic", 15 => "not a structure", _ => "unnamed fields" }))
        }
        // no byte order
        17 => {
            let c: Vec<usize> = (0..nf).filter(|i| { let f = &m0.s().fields[*i]; f.int_like() && f.ew > 8 }).collect();
            if c.is_empty() { return None; }
            let j = c[x(0) % c.len()];
            m.structs[t].default_endian = None;
            strip(&mut m.structs[t].fields[j], &["endian"]);
            done(&m, true, "no byte order")
        }
        // an array sized like a single field
        18 => {
            let c: Vec<usize> = (0..nf).filter(|i| m0.s().fields[*i].count.unwrap_or(1) > 1).collect();
            if c.is_empty() { return None; }
            let f = &mut m.structs[t].fields[c[x(0) % c.len()]];
            strip(f, &SIZES);
            let w = if x(1) % 2 == 0 { f.width() } else { f.ew };
            f.attrs.push(vec![if w % 8 == 0 && x(2) % 2 == 0 { ("size_bytes".into(), (w / 8).to_string()) } else { ("size_bits".into(), w.to_string()) }]);
            done(&m, true, "array sized like a single field")
        }
        // attributes in the wrong place
        19 => {
            let text = bare(&m);
            let (a, b) = text.split_at(text.rfind("#[derive(PackedStruct")?);
            let new = if x(0) % 2 == 0 || !b.contains("#[packed_field(") {
                let at = b.find("pub struct")?;
                format!("{}#[packed_field({})]\n{}", &b[..at], ["", "bits=\"0\"", "endian=\"msb\""][x(1) % 3], &b[at..])
            } else {
                let v: Vec<usize> = b.match_indices("#[packed_field(").map(|i| i.0).collect();
                let at = v[x(1) % v.len()];
                format!("{}#[packed_struct({}", &b[..at], &b[at + 15..])
            };
            Some((format!("{}{}", a, new), true, "attribute in the wrong place"))
        }
        // a width that takes another number of bytes than the type
        20 => {
            let s = &mut m.structs[t];
            if s.numbering == Numbering::Lsb0 { return None; }
            let k = match x(0) % 6 {
                0 if m0.m.structs.len() > 1 => Kind::Nested(x(1) % (m0.m.structs.len() - 1)),
                1 if !m0.m.hands.is_empty() => Kind::Hand(x(1) % m0.m.hands.len()),
                2 => Kind::Bool,
                3 => Kind::Res(x(1) % 2 == 0, 1 + x(2) % 128),
                4 => { let p = PRIMS[x(1) % 8]; Kind::Helper(x(2) % 2 == 0, p, 1 + x(3) % p.bits()) }
                _ => { let p = PRIMS[x(1) % 8]; Kind::Sized(p, 1 + x(3) % p.bits()) }
            };
            if matches!(k, Kind::Nested(i) if i == t) { return None; }
            let nb = match &k { Kind::Nested(i) => m0.m.structs[*i].num_bytes(), Kind::Hand(i) => m0.m.hands[*i].bytes, Kind::Bool => 1, Kind::Res(_, n) => (n + 7) / 8, Kind::Helper(_, _, n) => (n + 7) / 8, Kind::Sized(_, n) => (n + 7) / 8, _ => return None };
            let w = if nb > 1 && x(4) % 2 == 0 { 1 + x(5) % ((nb - 1) * 8) } else { nb * 8 + 1 + x(5) % 24 };
            let n = if x(6) % 3 == 0 { Some(1 + x(7) % 3) } else { None };
            let start = s.fields.iter().map(|f| f.end() + 1).max().unwrap();
            let end = start + w * n.unwrap_or(1) - 1;
            let mut a: Vec<(&str, String)> = vec![("endian", if x(6) % 2 == 0 { "msb".into() } else { "lsb".into() })];
            if s.numbering == Numbering::Msb0 { a.push(("bits", format!("{}:{}", start, end))); } else { a.push(("element_size_bits", w.to_string())); }
            s.fields.push(extra_field("other_size", k, n, w, start, &a));
            if s.numbering == Numbering::None || s.size_bytes.is_some() { s.size_text = Some(((end + 8) / 8).to_string()); }
            done(&m, false, "width takes another number of bytes than the type")
        }
        // unknown words
        21 | 22 => {
            let s = &mut m.structs[t];
            if kind == 21 {
                if s.numbering == Numbering::None { return None; }
                let text = bare(&m);
                let (a, b) = text.split_at(text.rfind("#[derive(PackedStruct")?);
                let at = b.find("bit_numbering")?;
                let q = at + b[at..].find('"')? + 1;
                let e = q + b[q..].find('"')?;
                let w = ["msb", "lsb", "msb1", "lsb00", "0", "", " msb0", "big", "0msb", "msb-0"][x(0) % 10];
                return Some((format!("{}{}{}{}", a, &b[..q], w, &b[e..]), true, "unknown bit numbering"));
            }
            let f = &mut s.fields[x(0) % nf];
            strip(f, &["endian"]);
            f.attrs.push(vec![("endian".into(), ["big", "little", "", "msb0", "network", " msb", "lsb le", "native", "m", "bel"][x(1) % 10].into())]);
            done(&m, true, "unknown byte order")
        }
        // a position or a size that is no number
        23 => {
            let text = bare(&m);
            let (a, b) = text.split_at(text.rfind("#[derive(PackedStruct")?);
            let mut v: Vec<(usize, usize)> = Vec::new();
            for key in ["bits", "bytes"] {
                for (i, _) in b.match_indices(key) {
                    let rest = b[i + key.len()..].trim_start();
                    let Some(r) = rest.strip_prefix('=') else { continue };
                    let Some(r) = r.trim_start().strip_prefix('"') else { continue };
                    let q = b.len() - r.len();
                    if b[..q].rsplit('\n').next().is_some_and(|l| !l.trim_start().starts_with("#[packed_")) { continue; }
                    if let Some(e) = r.find('"') { if r[..e].chars().any(|c| c.is_ascii_digit()) && r[..e].chars().all(|c| c.is_ascii_alphanumeric() || " :.=".contains(c)) { v.push((q, q + e)); } }
                }
            }
            if v.is_empty() { return None; }
            let (q, e) = v[x(0) % v.len()];
            let val = &b[q..e];
            let runs: Vec<usize> = val.char_indices().filter(|(i, c)| c.is_ascii_digit() && !val[..*i].ends_with(|c: char| c.is_ascii_alphanumeric())).map(|c| c.0).collect();
            let r = runs[x(1) % runs.len()];
            let end = r + val[r..].find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(val.len() - r);
            let new = match x(2) % 7 {
                0 => format!("{}z{}", &val[..r], &val[r..]),
                1 => format!("{}z{}", &val[..end], &val[end..]),
                2 => format!("{}-{}", &val[..r], &val[r..]),
                3 => format!("{}.5{}", &val[..end], &val[end..]),
                4 => format!("{} 1{}", &val[..end], &val[end..]),
                5 => format!("{}{}{}", &val[..r], ["one", "0x", "N", "usize", "\u{663}"][x(3) % 5], &val[end..]),
                _ => String::new(),
            };
            Some((format!("{}{}{}{}", a, &b[..q], new, &b[e..]), true, "position or size that is no number"))
        }
        // an attribute or a setting that cannot be read
        24 => {
            let text = bare(&m);
            let (a, b) = text.split_at(text.rfind("#[derive(PackedStruct")?);
            let lines: Vec<usize> = b.match_indices("#[packed_").map(|i| i.0).filter(|i| b[..*i].rsplit('\n').next().unwrap().trim().is_empty()).collect();
            if lines.is_empty() { return None; }
            let i = lines[x(0) % lines.len()];
            let e = i + b[i..].find('\n')?;
            let q: Vec<usize> = b[i..e].match_indices('"').map(|p| i + p.0).collect();
            if q.len() < 2 { return None; }
            let n = x(1) % (q.len() / 2) * 2;
            let (o, c) = (q[n], q[n + 1]);
            let (pre, val, post) = (&b[..o], &b[o + 1..c], &b[c + 1..]);
            let new = match x(2) % 9 {
                0 => format!("{}{}{}", pre, 3, post),
                1 => format!("{}b\"{}\"{}", pre, val, post),
                2 => format!("{}=\"{}\"{}", pre, val, post),
                3 => format!("{}(\"{}\"){}", pre.trim_end().strip_suffix('=')?, val, post),
                4 => format!("{}{}", pre.trim_end().strip_suffix('=')?, post),
                5 => format!("{}\"{}\" {} = \"{}\"{}", pre, val, ["endian", "bits", "size_bits"][x(3) % 3], val, post),
                6 => format!("{}\"{}\"; bits=\"1\"{}", pre, val, post),
                7 => format!("{}\"{}\", \"msb\"{}", pre, val, post),
                _ => format!("{}{}{}", pre, ["true", "'1'", "1.0", "\"1\".len()", "-1"][x(3) % 5], post),
            };
            Some((format!("{}{}", a, new), true, "attribute that cannot be read"))
        }
        _ => None,
    }
}

const BORROWED: &str = "#[derive(Clone, Debug, PartialEq)]\npub struct Borrowed<'a> { v: u8, p: std::marker::PhantomData<&'a u8> }\nimpl<'a> PackedStruct for Borrowed<'a> { type ByteArray = [u8; 1]; fn pack(&self) -> PackingResult<[u8; 1]> { Ok([self.v]) } fn unpack(s: &[u8; 1]) -> PackingResult<Self> { Ok(Borrowed { v: s[0], p: std::marker::PhantomData }) } }\nimpl<'a> packed_struct::PackedStructInfo for Borrowed<'a> { fn packed_bits() -> usize { 8 } }\n";

/// One fault in an enum declaration: (text, refused while expanding, what)
fn enum_fault(kind: usize, e: &EnumDef, x: &dyn Fn(usize) -> usize) -> (String, bool, &'static str) {
    let k = x(0) % e.vars.len();
    let derive = if e.explicit { format!("PrimitiveEnum_{}", e.backing.name()) } else { "PrimitiveEnum".to_string() };
    match kind % 4 {
        0 => {
            let d = ["struct EX { a: u8 }", "struct EX;", "struct EX(u8);", "union EX { a: u8, b: i8 }", "struct EX {}"][x(1) % 5];
            (format!("#[derive({}, Clone, Copy)]\npub {}\n", derive, d), true, "enum derive on something else")
        }
        1 => {
            let mut s = enum_decl(e);
            // discriminants next to data need a repr
            if e.repr.is_none() { s = s.replacen("pub enum", &format!("#[repr({})]\npub enum", e.backing.name()), 1); }
            let v = &e.vars[k];
            let data = ["(u8)", "(u8, bool)", "{ a: u8 }", "()", " {}"][x(1) % 5];
            let from = match &v.lit { Some(l) => format!("    {} = {},", v.name, l), None => format!("    {},", v.name) };
            let to = match &v.lit { Some(l) => format!("    {}{} = {},", v.name, data, l), None => format!("    {}{},", v.name, data) };
            (s.replacen(&from, &to, 1).replace(", Debug, PartialEq, Eq", ""), false, "variant with data")
        }
        _ => {
            let mut e = e.clone();
            let d = e.vars[k].disc;
            let lit = e.vars[k].lit.clone().unwrap_or(d.to_string());
            e.vars[k].lit = Some(match x(1) % 7 { 0 => format!("({})", lit), 1 => format!("{{ {} }}", lit), 2 => format!("{} + 0", lit), 3 => format!("{} | 0", lit), 4 => format!("{} * 1", lit), 5 => format!("if true {{ {} }} else {{ {} }}", lit, lit), _ => format!("{} << 0", lit) });
            (enum_decl(&e), true, "discriminant that is no literal")
        }
    }
}

fn enum_case(n: usize, g: &(EG, Vec<u16>), reject: bool) -> Case {
    let e = realize_enum(&g.0, "EX", true);
    if !reject { return case(enum_decl(&e), "enum accepted", true, false); }
    let x = |i: usize| g.1[i % g.1.len()] as usize;
    let (b, early, what) = enum_fault(n, &e, &x);
    case(b, what, early, true)
}

pub fn c19(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let p = Profile { n_vals: 0, n_bytes: 0, max_fields: 6, n_inner: 2, huge: false, array: 80, ..Profile::default() };
    let selftest = std::env::var("VERIF_SELFTEST").is_ok();
    for release in [false, true] {
        let cfg = LibCfg::with(&["std"], release);
        let lib = match try_build_lib(&cfg) { Ok(l) => l, Err(e) => return Some(report_build(ctx, &cfg, &e)) };
        let env = Env { lib: &lib, opts: CompileOpts { check_only: true, ..CompileOpts::default() } };
        let tag = if release { "release" } else { "dev" };
        // the same genes give the valid declaration and the faulty one
        let batches = ctx.n(48, 600);
        let build = |_: usize, g: &CG| { let m = module(g, &p); case(bare(&m.m), "original accepted", true, false) };
        if let Some(v) = drive(ctx, &env, tag, batches, 34, &|| cg(&p), &build, st) { return Some(v); }
        let build = |n: usize, g: &CG| {
            let m = module(g, &p);
            for k in 0..FAULTS {
                if let Some((b, early, what)) = fault((n + k) % FAULTS, &m, g) {
                    if selftest { return case(b.lines().filter(|l| !l.contains("#[packed_")).map(|l| l.replace("derive(PackedStruct, ", "derive(") + "\n").collect(), what, true, false); }
                    return case(b, what, early, true);
                }
            }
            case(bare(&m.m), "no fault applies", true, false)
        };
        if let Some(v) = drive(ctx, &env, tag, batches, 34, &|| cg(&p), &build, st) { return Some(v); }
        let strat = || (eg(8), prop::collection::vec(any::<u16>(), 6)).boxed();
        for reject in [false, true] {
            let build = |n: usize, g: &(EG, Vec<u16>)| {
                let mut c = enum_case(n, g, reject);
                if selftest { c.body = c.body.lines().map(|l| if l.starts_with("#[derive(PrimitiveEnum") { "\n".to_string() } else { l.to_string() + "\n" }).collect(); c.must_reject = false; }
                c
            };
            if let Some(v) = drive(ctx, &env, &format!("{} enums", tag), ctx.n(6, 100), 40, &strat, &build, st) { return Some(v); }
        }
        if let Some(v) = extremes(ctx, &env, st) { return Some(v); }
    }
    None
}

/// Positions and sizes beyond what the address space can hold.
fn extremes(ctx: &Ctx, env: &Env, st: &mut Stats) -> Option<Violation> {
    let list = known_list(&ctx.id);
    for (attrs, size, ty) in [
        ("bits=\"18446744073709551615\"", "1", "bool"),
        ("bits=\"18446744073709551615..\", size_bits=\"5\"", "1", "u8"),
        ("bytes=\"2305843009213693952\"", "1", "u8"),
        ("bytes=\"2305843009213693952..\"", "1", "u8"),
        ("size_bytes=\"2305843009213693953\"", "1", "u8"),
        ("element_size_bits=\"9223372036854775812\"", "1", "[u8; 2]"),
        ("bits=\"4294967295\"", "1", "bool"),
        ("bytes=\"536870912\"", "1", "u8"),
    ] {
        let decl = format!("#[derive(PackedStruct)]\n#[packed_struct(bit_numbering=\"msb0\", size_bytes=\"{}\")]\npub struct T0 {{ #[packed_field({})] pub a: {} }}\n", size, attrs, ty);
        let c = case(decl, "huge numbers", true, true);
        st.decls += 1;
        st.evals += 1;
        st.class("huge numbers");
        if let Some(f) = run_cases(env, &[&c]).remove(0) {
            let key = format!("{} accepts {} on {}", if env.lib.cfg.release { "release" } else { "dev" }, attrs, ty);
            if list.contains(&key) { if !st.known.contains(&key) { st.known.push(key); } } else { return Some(report(ctx, env, &c, &f)); }
        }
    }
    None
}

/// What known_findings.txt lists for a property.
pub fn known_list(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("KNOWN-FINDING: property={} ", id);
    text.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.trim().to_string()).collect()
}

/// The key under which the defect of exclusive byte ranges is recorded.
const EXCLUSIVE_BYTES: &str = "bytes=\"a..b\" drops the last byte of the exclusive range";

/// Exclusive byte ranges: right, or wrong in exactly the recorded way.
pub fn exclusive_bytes(ctx: &Ctx, env: &Env, st: &mut Stats) -> Option<Violation> {
    let listed = known_list(&ctx.id).iter().any(|k| k == EXCLUSIVE_BYTES);
    let strat = (0usize..4, 1usize..6, any::<u16>(), prop::collection::vec(any::<u64>(), 6)).boxed();
    let mut r = rng(&format!("{}/exclusive bytes", ctx.id), ctx.seed, 0);
    let mut known = 0;
    let mut seen = vec![];
    let mut cases: Vec<(Case, Case)> = vec![];
    for _ in 0..ctx.n(48, 300) {
        use proptest::strategy::ValueTree;
        let (start, len, sel, vals) = strat.new_tree(&mut r).unwrap().current();
        let lsb0 = sel % 4 == 3;
        let size = start + len + (sel as usize / 64) % 3;
        let kind = (sel / 4) % 4;
        let place = if lsb0 { (size - start - len, size - start) } else { (start, start + len) };
        // the field `w` bits wide at bit `real`, counted from the start of the structure
        let make = |w: usize, real: usize| -> Option<Case> {
            let mut m = Module::default();
            let (k, count, ew, attrs): (Kind, Option<usize>, usize, Vec<(&str, String)>) = match kind {
                0 => { m.hands.push(HandDef { name: "H0".into(), bytes: len, w, garbage: false, fails: false, odd_debug: false }); (Kind::Hand(0), None, w, vec![]) }
                1 => (Kind::Native(Prim::U8), Some(len), w / len, vec![]),
                2 => (Kind::Native(match len { 1 => Prim::U8, 2 => Prim::U16, 3 | 4 => Prim::U32, _ => Prim::U64 }), None, w, vec![("endian", "msb".into())]),
                _ => {
                    let inner = StructDef { name: "N0".into(), numbering: Numbering::Msb0, default_endian: Some("msb".into()), size_text: None, size_bytes: None, split_attrs: false, fields: vec![extra_field("x", Kind::Native(Prim::U8), Some(len), 8, 0, &[("bits", "0..".into())])] };
                    m.structs.push(inner);
                    (Kind::Nested(0), None, w, vec![])
                }
            };
            // types with a fixed number of bytes do not fit a shorter width at all
            if (kind == 0 || kind == 3) && (w + 7) / 8 != len { return None; }
            if kind == 1 && w % len != 0 || kind == 2 && !k_ok(&k, w) { return None; }
            let mut attrs = attrs;
            attrs.push(("bytes", format!("{}..{}", place.0, place.1)));
            let f = extra_field("it", k, count, ew, real, &attrs);
            m.structs.push(StructDef { name: "T0".into(), numbering: if lsb0 { Numbering::Lsb0 } else { Numbering::Msb0 }, default_endian: None, size_bytes: Some(size), size_text: Some(size.to_string()), split_attrs: false, fields: vec![f] });
            let top = m.structs.len() - 1;
            let (leaves, units) = m.leaves(&m.structs[top]);
            let mm = M { nbytes: size, leaves, units, top, m };
            let mut ops = vec![];
            for v in &vals {
                let inst: Inst = (0..6).map(|i| ((mix(*v, i) % 200) as u8, mix(*v, 100 + i))).collect();
                let lv = values(&mm.m, &mm.leaves, &inst, true);
                ops.push(Op::new(0, format!("P {}", mm.toks(&lv)), mm.pack_exp(&lv), nz(&lv)));
                let b: Vec<u8> = (0..size).map(|i| mix(*v, 50 + i as u64) as u8).collect();
                ops.push(Op::new(0, format!("U {}", hex(&b)), mm.unpack_exp(&b), true));
            }
            Some(mm.case(ops, mm.run1()))
        };
        let right = match make(len * 8, start * 8) { Some(c) => c, None => continue };
        if seen.contains(&right.body) { continue; }
        seen.push(right.body.clone());
        // the recorded reading ends a byte early; a range of one byte ends up before
        // its start, and takes the two bits around the start
        let recorded = match (len, lsb0) {
            (1, _) if place.0 == 0 => None,
            (1, false) => make(2, start * 8 - 1),
            (1, true) => make(2, size * 8 - 1 - place.0 * 8),
            (_, false) => make((len - 1) * 8, start * 8),
            (_, true) => make((len - 1) * 8, (start + 1) * 8),
        };
        let wrong = recorded.unwrap_or(Case { must_reject: true, early: false, ops: vec![], ..right.clone() });
        cases.push((right, wrong));
    }
    let rs = run_cases(env, &cases.iter().map(|c| &c.0).collect::<Vec<_>>());
    let bad: Vec<usize> = (0..cases.len()).filter(|i| rs[*i].is_some()).collect();
    let ws = run_cases(env, &bad.iter().map(|i| &cases[*i].1).collect::<Vec<_>>());
    for c in &cases { st.decls += 1; st.evals += 1 + c.0.ops.len() as u64; st.class("spelling: bytes .. (exclusive)"); }
    let mut out = None;
    for (k, i) in bad.iter().enumerate() {
        if ws[k].is_none() && listed { known += 1; continue; }
        if out.is_none() { out = Some(report(ctx, env, &cases[*i].0, rs[*i].as_ref().unwrap())); }
    }
    st.notes.insert("known_finding_cases".into(), known.into());
    if known > 0 { st.known.push(EXCLUSIVE_BYTES.into()); }
    out
}

fn k_ok(k: &Kind, w: usize) -> bool { matches!(k, Kind::Native(p) if p.bracket().0 <= w && w <= p.bracket().1) }
