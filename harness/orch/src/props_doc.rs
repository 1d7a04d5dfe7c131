//! What is shown: runtime display and generated documentation.

use crate::emit::*;
use crate::engine::*;
use crate::gene::*;
use crate::props_struct::*;
use crate::run::*;
use crate::spec::*;
use serde_json::json;

/// Restrict the genes to fields that fit the table column.
pub fn narrow(g: &CG) -> CG {
    let mut g = g.clone();
    for e in &mut g.enums { e.back = [0, 1, 2, 4, 5, 6][e.back as usize % 6]; }
    for h in &mut g.hands { h.b = (h.b / 8) * 8 + h.b % 5; }
    let fix = |f: &mut FG| {
        f.b = [0u16, 1, 2, 4, 5, 6][f.b as usize % 6] + 8 * (f.b / 8);
        if f.a % 8 > 4 { f.a -= 4; }
    };
    for s in &mut g.inner { s.fields.truncate(1); for f in &mut s.fields { fix(f); f.cnt = 255; } }
    for f in &mut g.outer.fields { fix(f); }
    g
}

pub fn display_case(m: &M, g: &CG) -> Case {
    let mut ops = vec![];
    for (k, i) in g.vals.iter().enumerate() {
        let v = values(&m.m, &m.leaves, i, true);
        let (form, sw) = match k % 6 { 0 => (0, 31), 1 => (1, 31), 2 => (2, g.extra[k % 24] as u32 % 32), 3 => (2, 31 ^ (1 << (g.extra[k % 24] % 5))), 4 => (3, g.extra[k % 24] as u32 % 32), _ => (3, 1 << (g.extra[k % 24] % 5)) };
        let exp = match m.pack_exp(&v) {
            Exp::Eq(s) if s.starts_with("OK ") => {
                let packed = unhex(&s[3..]);
                let bit = |p: usize| packed[p / 8] >> (7 - p % 8) & 1;
                let units: Vec<_> = m.units.iter().map(|u| json!([u.name, u.start, u.start + u.w - 1, (u.start..u.start + u.w).map(|p| if bit(p) == 1 { '1' } else { '0' }).collect::<String>()])).collect();
                Exp::Custom("display".into(), json!({"name": bare(&m.s().name), "packed": hex(&packed), "switches": sw, "units": units}))
            }
            // a field refuses to be packed: any text will do, but no panic
            _ => Exp::NoPanic,
        };
        ops.push(Op::new(0, format!("F {} {} {}", form, sw, m.toks(&v)), exp, nz(&v)));
    }
    let mut c = m.case(ops, String::new());
    c.body.push_str(&struct_dbg(m.s()));
    let n = &m.s().name;
    c.body.push_str(&format!("pub fn run(t: usize, op: &str, args: &str) -> String {{ fops::<{n}>(op, args, &|v: &{n}| v.packed_struct_display_formatter()) }}\n"));
    c.classes.push(match m.units.iter().map(|u| u.w).max().unwrap() { 0..=32 => "table with bits", 33 => "table at the column limit", _ => "table without bits" });
    c
}

pub fn c17(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = parts_env(&lib, &["display"]);
    let p = Profile { n_vals: 12, n_bytes: 0, hand_fails: true, ..Profile::default() };
    let rename = |mut m: M, g: &CG| {
        // names of different lengths and shapes
        let t = m.top;
        m.m.structs[t].name = ["T0", "Telemetry", "X", "HTTPHeader", "Long_Name_With_Numbers_123", "SelfTest2", "r#impl"][g.extra[0] as usize % 7].into();
        m
    };
    let build = |g: &CG| { let g = narrow(g); display_case(&rename(module(&g, &p), &g), &g) };
    if let Some(v) = go(ctx, &env, "narrow", &p, ctx.n(30, 500), 14, &build, st) { return Some(v); }
    let build = |g: &CG| display_case(&rename(module(g, &p), g), g);
    if let Some(v) = go(ctx, &env, "any", &p, ctx.n(14, 250), 14, &build, st) { return Some(v); }
    // with only the allocator
    let cfg = LibCfg::with(&["alloc"], false);
    let lib = match try_build_lib(&cfg) { Ok(l) => l, Err(e) => return Some(report_build(ctx, &cfg, &e)) };
    let env = parts_env(&lib, &["display"]);
    let build = |g: &CG| { let g = narrow(g); display_case(&rename(module(&g, &p), &g), &g) };
    go(ctx, &env, "alloc", &p, ctx.n(6, 60), 14, &build, st)
}

/// Answers the named oracle `display`.
pub fn check_display(d: &serde_json::Value, got: &str) -> Result<(), String> {
    let mut p = got.split(' ');
    let bad = |m: String| -> Result<(), String> { Err(m) };
    let text = match p.next() { Some(h) if got.split(' ').count() == 3 => String::from_utf8_lossy(&unhex(h)).into_owned(), _ => return bad("a display text".into()) };
    if p.next() != Some("true") { return bad("to_string and format! to agree".into()); }
    let dbg: Vec<String> = p.next().unwrap().split(',').map(|h| String::from_utf8_lossy(&unhex(h)).into_owned()).collect();
    let sw = d["switches"].as_u64().unwrap();
    let packed = unhex(d["packed"].as_str().unwrap());
    let name = d["name"].as_str().unwrap();
    let units = d["units"].as_array().unwrap();
    let fail = |what: &str, l: Option<&str>| -> Result<(), String> { Err(format!("{}, not {:?}; whole text:\n{}", what, l, text)) };
    let mut lines = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.trim().is_empty());
    if sw & 1 != 0 {
        let l = lines.next();
        let words: Vec<&str> = l.unwrap_or("").split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
        if words.first() != Some(&name) || !words[1..].contains(&packed.len().to_string().as_str()) { return fail(&format!("header with the name {} and {} bytes", name, packed.len()), l); }
    }
    let sections: [(u64, &str, u32, &str); 3] = [(2, "decimal", 10, ""), (4, "hex", 16, "0x"), (8, "binary", 2, "0b")];
    for (bit, title, radix, prefix) in sections {
        if sw & bit == 0 { continue; }
        let l = lines.next();
        if !l.unwrap_or("").trim().to_lowercase().starts_with(title) { return fail(&format!("section {}", title), l); }
        let l = lines.next();
        let inner = l.unwrap_or("").trim().strip_prefix('[').and_then(|x| x.strip_suffix(']'));
        let nums: Option<Vec<u8>> = inner.and_then(|i| if i.trim().is_empty() { Some(vec![]) } else { i.split(',').map(|x| x.trim().strip_prefix(prefix).and_then(|x| u8::from_str_radix(x, radix).ok())).collect() });
        if nums.as_ref() != Some(&packed) { return fail(&format!("the bytes {:?} in {}", packed, title), l); }
    }
    if sw & 16 != 0 {
        if dbg.len() != units.len() { return bad("internal: one debug text per unit".into()); }
        let fits = units.iter().all(|u| u[2].as_u64().unwrap() - u[1].as_u64().unwrap() < 32);
        for (u, t) in units.iter().zip(&dbg) {
            let l = lines.next();
            let (n, s, e, bits) = (u[0].as_str().unwrap(), u[1].as_u64().unwrap(), u[2].as_u64().unwrap(), u[3].as_str().unwrap());
            let quoted = format!("{:?}", t);
            let line = l.unwrap_or("");
            let is_text = |x: &str| x.trim() == t.trim() || x.trim() == quoted.trim();
            let (first, rest) = match line.split_once('|') { Some(x) => x, None => return fail(&format!("a line for {}", n), l) };
            if first.trim() != n { return fail(&format!("the line of {}", n), l); }
            // the short form
            if !fits && is_text(rest) { continue; }
            let c: Vec<&str> = rest.splitn(3, '|').collect();
            if c.len() != 3 { return fail(&format!("name, bits, binary and text of {}", n), l); }
            let rng: Vec<u64> = c[0].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
            if !(rng == [s, e] || (s == e && rng == [s])) { return fail(&format!("{} at bits {}:{}", n, s, e), l); }
            if c[1].trim().strip_prefix("0b") != Some(bits) { return fail(&format!("{} with bits 0b{}", n, bits), l); }
            if !is_text(c[2]) { return fail(&format!("{} with text {:?}", n, t), l); }
        }
    }
    if let Some(l) = lines.next() { return fail("nothing more", Some(l)); }
    Ok(())
}

pub fn c18(ctx: &Ctx, st: &mut Stats) -> Option<Violation> {
    let lib = build_lib(&LibCfg::std());
    let env = Env { lib: &lib, opts: CompileOpts { doc: true, ..CompileOpts::default() } };
    let p = Profile { n_vals: 0, n_bytes: 0, max_fields: 12, ..Profile::default() };
    let build = |g: &CG| {
        let m = module(g, &p);
        let mut ops = vec![];
        for s in &m.m.structs {
            let (_, units) = m.m.leaves(s);
            let rows: Vec<_> = units.iter().map(|u| json!([u.name, u.start, u.start + u.w - 1, u.ty])).collect();
            ops.push(Op::new(0, s.name.clone(), Exp::Custom("docs".into(), json!({"bytes": s.num_bytes(), "rows": rows})), units.len() > 1));
        }
        m.case(ops, m.run1())
    };
    go(ctx, &env, "docs", &p, ctx.n(64, 1200), 24, &build, st)
}

/// Answers the named oracle `docs`.
pub fn check_docs(d: &serde_json::Value, got: &str) -> Result<(), String> {
    let text = got.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&");
    let nums = |s: &str| -> Vec<u64> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect() };
    let (head, table) = match text.split_once("<table") { Some(x) => x, None => return Err("documentation with a table".into()) };
    if !nums(head).contains(&d["bytes"].as_u64().unwrap()) { return Err(format!("a size of {} bytes before the table", d["bytes"])); }
    let table = table.split("</table").next().unwrap();
    let body = table.split("</thead>").last().unwrap();
    let rows: Vec<Vec<String>> = body.split("<tr>").skip(1).map(|r| r.split("<td>").skip(1).map(|c| c.split("</td>").next().unwrap().trim().to_string()).collect()).collect();
    let want = d["rows"].as_array().unwrap();
    let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    for (i, w) in want.iter().enumerate() {
        let (n, s, e, t) = (w[0].as_str().unwrap(), w[1].as_u64().unwrap(), w[2].as_u64().unwrap(), w[3].as_str().unwrap());
        let bad = || Err(format!("row {}: {}:{} {} {}", i, s, e, n, t));
        let r = match rows.get(i) { Some(r) if r.len() == 3 => r, _ => return bad() };
        let p = nums(&r[0]);
        if !(p == [s, e] || (s == e && p == [s])) || r[1] != n || squeeze(&r[2]) != squeeze(t) { return bad(); }
    }
    if rows.len() != want.len() { return Err(format!("{} rows", want.len())); }
    Ok(())
}
