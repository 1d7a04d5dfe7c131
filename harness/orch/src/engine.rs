//! The generated-search loop: draw genes, build cases, run them, judge, shrink, report.

use crate::emit::{program, program_nostd};
use crate::run::*;
use crate::spec::mix;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Exp {
    Eq(String),
    Any(Vec<String>),
    /// "OK <hex>" whose bits lie within the mask (and is not zero)
    Within(String, bool),
    /// an answer that starts with this
    Prefix(String),
    /// any answer that does not start with PANIC
    NoPanic,
    /// judged by a named oracle, see `oracle.rs`
    Custom(String, Value),
}

impl Exp {
    pub fn to_json(&self) -> Value {
        match self {
            Exp::Eq(s) => json!({"eq": s}),
            Exp::Any(v) => json!({"any": v}),
            Exp::Within(m, nz) => json!({"within": m, "nonzero": nz}),
            Exp::Prefix(s) => json!({"prefix": s}),
            Exp::NoPanic => json!({"nopanic": true}),
            Exp::Custom(n, v) => json!({"custom": n, "data": v}),
        }
    }
    pub fn from_json(v: &Value) -> Exp {
        if let Some(s) = v["eq"].as_str() { return Exp::Eq(s.into()); }
        if let Some(a) = v["any"].as_array() { return Exp::Any(a.iter().map(|x| x.as_str().unwrap().into()).collect()); }
        if let Some(s) = v["within"].as_str() { return Exp::Within(s.into(), v["nonzero"] == true); }
        if let Some(s) = v["prefix"].as_str() { return Exp::Prefix(s.into()); }
        if let Some(s) = v["custom"].as_str() { return Exp::Custom(s.into(), v["data"].clone()); }
        Exp::NoPanic
    }
    pub fn check(&self, got: &str) -> Result<(), String> {
        match self {
            Exp::Eq(s) => if s == got { Ok(()) } else { Err(s.clone()) },
            Exp::Any(v) => if v.iter().any(|s| s == got) { Ok(()) } else { Err(v.join("  or  ")) },
            Exp::Within(m, nz) => {
                let ok = got.strip_prefix("OK ").map_or(false, |h| {
                    let g = crate::spec::unhex(h);
                    let m = crate::spec::unhex(m);
                    g.len() == m.len() && g.iter().zip(&m).all(|(g, m)| g & !m == 0) && (!nz || g.iter().any(|x| *x != 0))
                });
                if ok { Ok(()) } else { Err(format!("OK <bits within {}{}>", m, if *nz { ", not all zero" } else { "" })) }
            }
            Exp::Prefix(s) => if got.starts_with(s.as_str()) { Ok(()) } else { Err(format!("{}...", s)) },
            Exp::NoPanic => if got.starts_with("PANIC") { Err("no panic".into()) } else { Ok(()) },
            Exp::Custom(n, v) => crate::oracle::check(n, v, got),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Op { pub t: usize, pub line: String, pub exp: Exp, pub nt: bool }
impl Op {
    pub fn new(t: usize, line: String, exp: Exp, nt: bool) -> Op { Op { t, line, exp, nt } }
}

#[derive(Clone, Debug, Default)]
pub struct Case {
    /// module body, including `run`
    pub body: String,
    pub ops: Vec<Op>,
    /// what a user would read
    pub decl: String,
    pub classes: Vec<&'static str>,
    /// the declaration itself must be refused by the compiler
    pub must_reject: bool,
    /// refused while expanding the derive, (else: by type checking what it expands to)
    pub early: bool,
    /// the compiler may refuse it; only if it does not, the operations are judged
    pub may_reject: bool,
}

#[derive(Clone, Debug)]
pub struct Fail { pub kind: &'static str, pub op: String, pub expected: String, pub got: String }

pub struct Ctx { pub id: String, pub thorough: bool, pub seed: u64, pub t0: Instant,
    /// somebody has found a violation
    pub stop: AtomicBool }

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub decls: u64,
    pub programs: u64,
    pub notes: BTreeMap<String, Value>,
    pub known: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.decls += o.decls;
        self.nontrivial.extend(o.nontrivial);
        for (k, n) in o.classes { *self.classes.entry(k).or_insert(0) += n; }
        for s in o.samples { if self.samples.len() < 4 { self.samples.push(s); } }
        for k in o.known { if !self.known.contains(&k) { self.known.push(k); } }
    }
    pub fn class(&mut self, c: &str) { *self.classes.entry(c.to_string()).or_insert(0) += 1; }
}

pub struct Violation { pub fail: Fail, pub replay: String }

#[derive(Clone)]
pub struct Env<'a> { pub lib: &'a Lib, pub opts: CompileOpts }

fn blamed(diags: &[Diag], ranges: &[(usize, usize)]) -> Vec<usize> {
    let mut r = vec![];
    for d in diags { for l in &d.lines { for (i, (a, b)) in ranges.iter().enumerate() { if l >= a && l <= b { r.push(i); } } } }
    r.sort();
    r.dedup();
    r
}

/// declarations that were allowed to be refused: were they?
static REFUSED: Mutex<BTreeMap<u64, bool>> = Mutex::new(BTreeMap::new());
pub fn refused(c: &Case) -> Option<bool> { REFUSED.lock().unwrap().get(&hash(&c.body)).copied() }
pub static PROGRAMS: AtomicUsize = AtomicUsize::new(0);

fn comp(env: &Env, cases: &[&Case]) -> (Compiled, Vec<(usize, usize)>) {
    let bodies: Vec<&str> = cases.iter().map(|c| c.body.as_str()).collect();
    let (src, ranges) = if env.opts.nostd { program_nostd(&bodies, env.lib.cfg.alloc()) } else { program(&bodies, env.lib.cfg.alloc(), &env.opts.parts, env.opts.edition.as_deref().unwrap_or("2021")) };
    PROGRAMS.fetch_add(1, Ordering::SeqCst);
    (compile(env.lib, &src, &env.opts), ranges)
}

fn first_msg(c: &Compiled) -> String {
    let mut s: String = c.diags.iter().take(4).map(|d| d.rendered.clone()).collect::<Vec<_>>().join("\n");
    if s.is_empty() { s = c.raw.chars().take(2000).collect(); }
    s
}

/// Judge every case; None = held.
pub fn run_cases(env: &Env, cases: &[&Case]) -> Vec<Option<Fail>> {
    let mut res: Vec<Option<Fail>> = vec![None; cases.len()];
    // declarations that must be refused
    for early in [true, false] {
        let idx: Vec<usize> = (0..cases.len()).filter(|i| cases[*i].must_reject && cases[*i].early == early).collect();
        if idx.is_empty() { continue; }
        let sub: Vec<&Case> = idx.iter().map(|i| cases[*i]).collect();
        let (c, ranges) = comp(env, &sub);
        let seen = if c.ok { vec![] } else { blamed(&c.diags, &ranges) };
        let _ = std::fs::remove_file(&c.exe);
        for (k, i) in idx.iter().enumerate() {
            if seen.contains(&k) { continue; }
            // not visibly refused within the batch: decide it on its own
            let (c1, _) = comp(env, &[cases[*i]]);
            let _ = std::fs::remove_file(&c1.exe);
            if c1.ok {
                res[*i] = Some(Fail { kind: "accepted", op: "compile".into(), expected: "a compile-time error".into(), got: "the declaration compiles".into() });
            }
        }
    }
    let mut live: Vec<usize> = (0..cases.len()).filter(|i| !cases[*i].must_reject).collect();
    // drop those the compiler refuses, until what remains compiles
    for _ in 0..12 {
        if !live.iter().any(|i| cases[*i].may_reject) { break; }
        let sub: Vec<&Case> = live.iter().map(|i| cases[*i]).collect();
        let check = Env { lib: env.lib, opts: CompileOpts { check_only: true, ..env.opts.clone() } };
        let (c, ranges) = comp(&check, &sub);
        let _ = std::fs::remove_file(&c.exe);
        if c.ok { break; }
        let mut b: Vec<usize> = blamed(&c.diags, &ranges).into_iter().filter(|k| sub[*k].may_reject).collect();
        if b.is_empty() {
            // the message names no line: each on its own
            b = (0..sub.len()).filter(|k| sub[*k].may_reject && { let (c1, _) = comp(&check, &[sub[*k]]); let _ = std::fs::remove_file(&c1.exe); !c1.ok }).collect();
            if b.is_empty() { break; }
        }
        let gone: Vec<usize> = b.into_iter().map(|k| live[k]).collect();
        for i in &gone { REFUSED.lock().unwrap().insert(hash(&cases[*i].body), true); }
        live.retain(|i| !gone.contains(i));
    }
    let mut rounds = 0;
    while !live.is_empty() {
        rounds += 1;
        let sub: Vec<&Case> = live.iter().map(|i| cases[*i]).collect();
        let (c, ranges) = comp(env, &sub);
        if !c.ok {
            let mut b = blamed(&c.diags, &ranges);
            if b.is_empty() || rounds > 3 || live.len() == 1 { b = (0..live.len()).collect(); }
            let mut drop = vec![];
            for k in b {
                let i = live[k];
                if live.len() == 1 {
                    res[i] = Some(Fail { kind: "rejected", op: "compile".into(), expected: "the declaration compiles".into(), got: first_msg(&c) });
                    drop.push(i);
                    continue;
                }
                let (c1, _) = comp(env, &[cases[i]]);
                let _ = std::fs::remove_file(&c1.exe);
                if !c1.ok { res[i] = Some(Fail { kind: "rejected", op: "compile".into(), expected: "the declaration compiles".into(), got: first_msg(&c1) }); }
                else { res[i] = exec_alone(env, cases[i]); }
                drop.push(i);
            }
            live.retain(|i| !drop.contains(i));
            continue;
        }
        if env.opts.doc {
            let docs = docs(&c.exe);
            let _ = std::fs::remove_dir_all(&c.exe);
            for (k, i) in live.iter().enumerate() {
                let ans: Vec<String> = cases[*i].ops.iter().map(|o| docs.get(&(format!("c{}", k), o.line.clone())).map_or("NODOC".into(), |d| d.join("\n"))).collect();
                res[*i] = judge(cases[*i], &ans);
            }
            break;
        }
        if env.opts.check_only { let _ = std::fs::remove_file(&c.exe); break; }
        let lines: Vec<String> = live.iter().enumerate().flat_map(|(k, i)| cases[*i].ops.iter().map(move |o| format!("{} {} {}", k, o.t, o.line))).collect();
        let ans = serve(&c.exe, &lines, &env.opts);
        match ans {
            Ok(ans) => {
                let _ = std::fs::remove_file(&c.exe);
                let mut p = 0;
                for i in &live {
                    let n = cases[*i].ops.len();
                    res[*i] = judge(cases[*i], &ans[p..p + n]);
                    p += n;
                }
                break;
            }
            Err((n, _)) => {
                let _ = std::fs::remove_file(&c.exe);
                // the program died: blame the case whose answer is missing, on its own
                let mut p = 0;
                let mut bad = live[live.len() - 1];
                for i in &live { p += cases[*i].ops.len(); if n < p { bad = *i; break; } }
                if live.len() == 1 {
                    let o = cases[bad].ops.get(n).map(|o| o.line.clone()).unwrap_or_default();
                    res[bad] = Some(Fail { kind: "crash", op: o, expected: "an answer".into(), got: "the process ended abnormally".into() });
                    break;
                }
                res[bad] = exec_alone(env, cases[bad]);
                live.retain(|i| *i != bad);
            }
        }
    }
    for i in 0..cases.len() {
        if cases[i].may_reject && res[i].as_ref().map_or(false, |f| f.kind == "rejected") { res[i] = None; REFUSED.lock().unwrap().insert(hash(&cases[i].body), true); }
        if cases[i].may_reject { REFUSED.lock().unwrap().entry(hash(&cases[i].body)).or_insert(false); }
    }
    res
}

fn exec_alone(env: &Env, c: &Case) -> Option<Fail> { run_cases(env, &[c]).remove(0) }

fn judge(c: &Case, ans: &[String]) -> Option<Fail> {
    for (o, a) in c.ops.iter().zip(ans) {
        if let Err(e) = o.exp.check(a) {
            return Some(Fail { kind: "output", op: format!("{} {}", o.t, o.line), expected: e, got: a.clone() });
        }
    }
    None
}

pub fn rng(id: &str, seed: u64, i: u64) -> TestRunner {
    let h = id.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut s = [0u8; 32];
    for k in 0..4 { s[k * 8..k * 8 + 8].copy_from_slice(&mix(mix(h, seed), i * 4 + k as u64).to_le_bytes()); }
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

fn hash<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn threads() -> usize { std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) }

/// `build` gets the number of the case and its genes.
/// Generate `batches` x `per` cases, run them; the first failing one is shrunk and returned.
pub fn drive<G: Clone + std::fmt::Debug>(
    ctx: &Ctx, env: &Env, label: &str, batches: usize, per: usize,
    strat: &(dyn Fn() -> BoxedStrategy<G> + Sync), build: &(dyn Fn(usize, &G) -> Case + Sync), stats: &mut Stats,
) -> Option<Violation> {
    let key = format!("{}/{}", ctx.id, label);
    let stats_m = Mutex::new(stats);
    let nthreads = threads();
    let mut start = 0;
    while start < batches {
        if ctx.stop.load(Ordering::SeqCst) { return None; }
        let end = (start + nthreads * 2).min(batches);
        let next = AtomicUsize::new(start);
        let fails: Mutex<Vec<(usize, usize, Fail)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..nthreads.min(end - start) {
                s.spawn(|| {
                    let st = strat();
                    loop {
                        let b = next.fetch_add(1, Ordering::SeqCst);
                        if b >= end { break; }
                        let mut r = rng(&key, ctx.seed, b as u64);
                        let cases: Vec<Case> = (0..per).map(|i| build(b * per + i, &st.new_tree(&mut r).unwrap().current())).collect();
                        let res = run_cases(env, &cases.iter().collect::<Vec<_>>());
                        {
                            let mut g = stats_m.lock().unwrap();
                            for c in &cases {
                                g.decls += 1;
                                let dh = hash(&c.body);
                                if c.may_reject {
                                    let no = refused(c) == Some(true);
                                    g.class(if no { "refused" } else { "accepted" });
                                    if no { g.evals += 1; continue; }
                                }
                                if c.must_reject { g.evals += 1; g.nontrivial.insert(dh); }
                                if env.opts.check_only && !c.must_reject { g.evals += 1; g.nontrivial.insert(dh); }
                                for o in &c.ops { g.evals += 1; if o.nt { g.nontrivial.insert(hash((dh, o.t, &o.line))); } }
                                for k in &c.classes { g.class(k); }
                            }
                            if g.samples.len() < 4 && b % 3 == 0 {
                                if let Some(c) = cases.iter().find(|c| c.must_reject || (!c.may_reject || refused(c) == Some(false)) && c.ops.iter().any(|o| o.nt)) {
                                    let o = c.ops.iter().find(|o| o.nt);
                                    g.samples.push(json!({"declaration": c.decl.chars().take(1800).collect::<String>(), "input": o.map(|o| o.line.chars().take(400).collect::<String>()), "expected": o.map(|o| o.exp.to_json().to_string().chars().take(400).collect::<String>())}));
                                }
                            }
                        }
                        for (i, f) in res.into_iter().enumerate() { if let Some(f) = f { fails.lock().unwrap().push((b, i, f)); } }
                    }
                });
            }
        });
        let mut f = fails.into_inner().unwrap();
        if !f.is_empty() {
            // one violation is enough
            if ctx.stop.swap(true, Ordering::SeqCst) { return None; }
            f.sort_by_key(|x| (x.0, x.1));
            let (b, i, fail) = f.remove(0);
            eprintln!("[{}] failing case {}/{} ({}), shrinking", key, b, i, fail.kind);
            return Some(shrink(ctx, env, &key, b, i, per, fail, strat, build));
        }
        start = end;
    }
    None
}

fn shrink<G: Clone + std::fmt::Debug>(
    ctx: &Ctx, env: &Env, key: &str, b: usize, i: usize, per: usize, fail: Fail,
    strat: &(dyn Fn() -> BoxedStrategy<G> + Sync), build: &(dyn Fn(usize, &G) -> Case + Sync),
) -> Violation {
    let st = strat();
    let mut r = rng(key, ctx.seed, b as u64);
    for _ in 0..i { let _ = st.new_tree(&mut r); }
    let mut tree = st.new_tree(&mut r).unwrap();
    let mut best = build(b * per + i, &tree.current());
    let mut bf = fail;
    let t = Instant::now();
    let mut steps = 0;
    let mut last = (best.body.clone(), best.ops.iter().map(|o| o.line.clone()).collect::<Vec<_>>());
    let mut last_fails = true;
    if tree.simplify() {
        loop {
            if steps > 400 || t.elapsed().as_secs() > 45 { break; }
            let c = build(b * per + i, &tree.current());
            let sig = (c.body.clone(), c.ops.iter().map(|o| o.line.clone()).collect::<Vec<_>>());
            let failing = if sig == last { last_fails } else {
                steps += 1;
                let f = run_cases(env, &[&c]).remove(0).filter(|f| f.kind == bf.kind);
                last = sig;
                last_fails = f.is_some();
                if let Some(f) = f { best = c; bf = f; true } else { false }
            };
            if failing { if !tree.simplify() { break; } } else if !tree.complicate() { break; }
        }
    }
    eprintln!("[{}] shrunk in {} runs", key, steps);
    // only the failing operation is needed to reproduce
    if bf.kind == "output" {
        if let Some(o) = best.ops.iter().find(|o| format!("{} {}", o.t, o.line) == bf.op).cloned() {
            let mut c = best.clone();
            c.ops = vec![o];
            if let Some(f) = run_cases(env, &[&c]).remove(0) { best = c; bf = f; }
        }
    }
    report(ctx, env, &best, &bf)
}

pub fn report(ctx: &Ctx, env: &Env, c: &Case, f: &Fail) -> Violation {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let j = json!({
        "property": ctx.id, "seed": ctx.seed,
        "lib": {"features": env.lib.cfg.features, "release": env.lib.cfg.release, "nightly": env.lib.cfg.nightly},
        "opt": env.opts.opt, "check_only": env.opts.check_only, "doc": env.opts.doc, "nostd": env.opts.nostd, "miri": env.opts.miri, "edition": env.opts.edition, "externs": env.opts.externs, "parts": env.opts.parts,
        "must_reject": c.must_reject, "early": c.early, "may_reject": c.may_reject,
        "declaration": c.decl, "body": c.body,
        "ops": c.ops.iter().map(|o| json!({"t": o.t, "line": o.line, "exp": o.exp.to_json()})).collect::<Vec<_>>(),
        "failure": {"kind": f.kind, "op": f.op, "expected": f.expected, "got": f.got},
    });
    let text = serde_json::to_string_pretty(&j).unwrap();
    let p = dir.join(format!("{}-{:016x}.json", ctx.id, hash(&text)));
    std::fs::write(&p, text).unwrap_or_else(|e| infra(&e.to_string()));
    Violation { fail: f.clone(), replay: p.display().to_string() }
}

/// The library itself does not build in a configuration it supports.
pub fn report_build(ctx: &Ctx, cfg: &LibCfg, msg: &str) -> Violation {
    // if not even the plain configuration builds, there is nothing to judge
    if *cfg != LibCfg::std() { let _ = build_lib(&LibCfg::std()); }
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let fail = Fail { kind: "build", op: format!("cargo build --no-default-features --features {} ({})", cfg.features.join(","), cfg.label()), expected: "the library builds".into(), got: msg.to_string() };
    let j = json!({"property": ctx.id, "build_only": true, "lib": {"features": cfg.features, "release": cfg.release, "nightly": cfg.nightly}, "failure": {"op": fail.op, "got": msg}});
    let p = dir.join(format!("{}-{:016x}.json", ctx.id, hash(&fail.op)));
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| infra(&e.to_string()));
    Violation { fail, replay: p.display().to_string() }
}

pub fn replay(path: &str) -> Option<Fail> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| infra(&e.to_string()))).unwrap_or_else(|e| infra(&e.to_string()));
    let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>()).unwrap_or_default();
    let cfg = LibCfg { features: strs(&v["lib"]["features"]), release: v["lib"]["release"] == true, nightly: v["lib"]["nightly"] == true };
    if v["build_only"] == true { return try_build_lib(&cfg).err().map(|e| Fail { kind: "build", op: cfg.label(), expected: "the library builds".into(), got: e }); }
    let lib = build_lib(&cfg);
    let env = Env { lib: &lib, opts: CompileOpts { opt: v["opt"].as_u64().unwrap_or(0) as u8, check_only: v["check_only"] == true, externs: strs(&v["externs"]), parts: strs(&v["parts"]), doc: v["doc"] == true, nostd: v["nostd"] == true, miri: v["miri"].as_str().map(String::from), edition: v["edition"].as_str().map(String::from) } };
    let c = Case {
        body: v["body"].as_str().unwrap().into(), decl: String::new(), classes: vec![],
        must_reject: v["must_reject"] == true, early: v["early"] == true, may_reject: v["may_reject"] == true,
        ops: v["ops"].as_array().unwrap().iter().map(|o| Op { t: o["t"].as_u64().unwrap() as usize, line: o["line"].as_str().unwrap().into(), exp: Exp::from_json(&o["exp"]), nt: true }).collect(),
    };
    run_cases(&env, &[&c]).remove(0)
}
