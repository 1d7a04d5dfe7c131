//! Building the library, compiling generated programs, and talking to them.

use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())) }

/// Not a verdict: the check could not do its work.
pub fn infra(msg: &str) -> ! {
    eprintln!("ERROR (infrastructure, no verdict): {}", msg);
    cleanup();
    std::process::exit(2)
}

pub fn work() -> PathBuf { root().join("target").join(format!("work-{}", std::process::id())) }
pub fn cleanup() { let _ = std::fs::remove_dir_all(work()); }

#[derive(Clone, Debug, PartialEq)]
pub struct LibCfg { pub features: Vec<String>, pub release: bool, pub nightly: bool }
impl LibCfg {
    pub fn std() -> Self { LibCfg { features: vec!["std".into()], release: false, nightly: false } }
    pub fn with(features: &[&str], release: bool) -> Self { LibCfg { features: features.iter().map(|s| s.to_string()).collect(), release, nightly: false } }
    pub fn label(&self) -> String { format!("{}{}{}", self.features.join("+"), if self.release { "/release" } else { "/dev" }, if self.nightly { "/nightly" } else { "" }) }
    pub fn alloc(&self) -> bool { self.features.iter().any(|f| f == "std" || f == "alloc") }
}

#[derive(Clone, Debug)]
pub struct Lib { pub cfg: LibCfg, pub externs: BTreeMap<String, PathBuf>, pub deps: PathBuf }

/// The sources of the library, by content.
fn src_hash() -> u64 {
    use std::hash::Hasher;
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() { if p.file_name().map_or(true, |n| n != "target" && n != ".git") { walk(&p, out); } } else { out.push(p); }
        }
    }
    let mut fs = vec![];
    for d in ["/repo/packed_struct", "/repo/packed_struct_codegen"] { walk(Path::new(d), &mut fs); }
    fs.sort();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for f in fs { h.write(f.to_string_lossy().as_bytes()); h.write(&[0]); h.write(&std::fs::read(&f).unwrap_or_default()); h.write(&[1]); }
    h.finish()
}

/// cargo goes by modification times, which say nothing in a copied or restored tree: whatever was
/// built from other contents is forgotten.
fn forget_stale(target: &Path) {
    static DONE: Mutex<()> = Mutex::new(());
    let _g = DONE.lock().unwrap_or_else(|e| e.into_inner());
    static HASH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let h = HASH.get_or_init(|| format!("{:016x}", src_hash())).clone();
    let mark = target.join("sources");
    if std::fs::read_to_string(&mark).map_or(false, |m| m == h) { return; }
    for p in ["debug", "release"] {
        for e in std::fs::read_dir(target.join(p).join(".fingerprint")).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with("packed_struct") { let _ = std::fs::remove_dir_all(e.path()); }
        }
    }
    let _ = std::fs::create_dir_all(target);
    let _ = std::fs::write(&mark, &h);
}

/// cargo build of /repo/packed_struct in the given configuration.
/// Err: cargo's diagnostics.
pub fn try_build_lib(cfg: &LibCfg) -> Result<Lib, String> {
    let key = cfg.label().replace(['/', '+'], "_");
    let target = root().join("target").join(format!("lib-{}", key));
    let mut c = Command::new("cargo");
    if cfg.nightly { c.arg("+nightly"); }
    c.args(["build", "--offline", "--message-format=json", "--no-default-features", "--manifest-path"]).arg(root().join("harness/dep/Cargo.toml"));
    c.arg("--features").arg(cfg.features.join(" "));
    if cfg.release { c.arg("--release"); }
    forget_stale(&target);
    c.env("CARGO_TARGET_DIR", &target).env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS");
    c.stdin(Stdio::null());
    let out = c.output().unwrap_or_else(|e| infra(&format!("cannot run cargo: {}", e)));
    let text = String::from_utf8_lossy(&out.stdout);
    let mut externs = BTreeMap::new();
    let mut msgs = String::new();
    for l in text.lines() {
        let v: Value = match serde_json::from_str(l) { Ok(v) => v, Err(_) => continue };
        if v["reason"] == "compiler-message" && v["message"]["level"] == "error" { msgs.push_str(v["message"]["rendered"].as_str().unwrap_or("")); }
        if v["reason"] == "compiler-artifact" {
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") { externs.insert(name.clone(), PathBuf::from(f)); }
            }
        }
    }
    if !out.status.success() { return Err(format!("{}{}", msgs, String::from_utf8_lossy(&out.stderr))); }
    let rlib = externs.get("packed_struct").cloned().ok_or_else(|| "no rlib reported".to_string())?;
    Ok(Lib { cfg: cfg.clone(), deps: rlib.parent().unwrap().to_path_buf(), externs })
}

pub fn build_lib(cfg: &LibCfg) -> Lib {
    try_build_lib(cfg).unwrap_or_else(|e| infra(&format!("building /repo/packed_struct with [{}] failed:\n{}", cfg.label(), e)))
}

#[derive(Clone, Debug)]
pub struct Diag { pub lines: Vec<usize>, pub msg: String, pub rendered: String, pub code: String }

pub struct Compiled { pub ok: bool, pub diags: Vec<Diag>, pub exe: PathBuf, pub raw: String }

/// At most so many compilers and generated programs run at a time.
struct Permit;
static BUSY: (Mutex<usize>, Condvar) = (Mutex::new(0), Condvar::new());
impl Permit {
    fn get() -> Permit {
        let mut n = BUSY.0.lock().unwrap();
        while *n >= crate::engine::threads() { n = BUSY.1.wait(n).unwrap(); }
        *n += 1;
        Permit
    }
}
impl Drop for Permit { fn drop(&mut self) { *BUSY.0.lock().unwrap() -= 1; BUSY.1.notify_one(); } }

static SEQ: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Debug, Default)]
pub struct CompileOpts { pub opt: u8, pub check_only: bool, pub externs: Vec<String>, pub parts: Vec<String>,
    /// judge the generated documentation
    pub doc: bool,
    /// declarations only, in a crate without std
    pub nostd: bool,
    /// interpret the program for this target
    pub miri: Option<String>,
    /// language edition of the program, 2021 if none
    pub edition: Option<String> }

fn spans(v: &Value, main: &str, out: &mut Vec<usize>) {
    // walk into macro expansions to the outermost location in our file
    if v["file_name"] == main {
        if let Some(l) = v["line_start"].as_u64() { out.push(l as usize); }
    }
    if !v["expansion"].is_null() { spans(&v["expansion"]["span"], main, out); }
}

fn diag(v: &Value, main: &str) -> Option<Diag> {
    if v["level"] != "error" && !v["level"].as_str().unwrap_or("").starts_with("error") { return None; }
    let mut lines = vec![];
    for s in v["spans"].as_array().into_iter().flatten() { if s["is_primary"] == true { spans(s, main, &mut lines); } }
    if lines.is_empty() { for s in v["spans"].as_array().into_iter().flatten() { spans(s, main, &mut lines); } }
    Some(Diag { lines, msg: v["message"].as_str().unwrap_or("").into(), rendered: v["rendered"].as_str().unwrap_or("").into(), code: v["code"]["code"].as_str().unwrap_or("").into() })
}

/// cargo miri in the package at `dir`; everything it builds or caches stays below target/
fn miri(dir: &Path, target: &str) -> Command {
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "600", "cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--message-format=json", "--target", target]);
    c.arg("--manifest-path").arg(dir.join("Cargo.toml"));
    miri_env(&mut c, target);
    c
}

fn miri_env(c: &mut Command, target: &str) {
    let base = root().join("target").join(format!("miri-{}", target));
    let _ = std::fs::create_dir_all(&base);
    c.env("XDG_CACHE_HOME", base.join("cache")).env("CARGO_TARGET_DIR", work().join(format!("miri-build-{}", target))).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows").env("RUST_BACKTRACE", "0");
    c.env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("MIRI_SYSROOT").env_remove("RUSTC_BOOTSTRAP");
}

/// Prepare the interpreter's standard library for a target.
pub fn miri_setup(target: &str) {
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "600", "cargo", "+nightly", "miri", "setup", "--target", target]);
    miri_env(&mut c, target);
    let out = c.stdin(Stdio::null()).output().unwrap_or_else(|e| infra(&format!("cannot run cargo miri: {}", e)));
    if !out.status.success() { infra(&format!("cargo miri setup --target {}:\n{}", target, String::from_utf8_lossy(&out.stderr))); }
}

fn compile_miri(lib: &Lib, src: &str, target: &str, n: usize) -> Compiled {
    let dir = work().join(format!("miri{}", n));
    std::fs::create_dir_all(dir.join("src")).unwrap_or_else(|e| infra(&e.to_string()));
    let dep = |f: &str| format!("[package]\nname = \"gen{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\npacked_struct = {{ path = \"/repo/packed_struct\", default-features = false, features = [{}] }}\n[workspace]\n", n, f);
    std::fs::write(dir.join("Cargo.toml"), dep(&lib.cfg.features.iter().map(|f| format!("\"{}\"", f)).collect::<Vec<_>>().join(", "))).unwrap_or_else(|e| infra(&e.to_string()));
    // the versions the ordinary builds use
    let _ = std::fs::copy(root().join("harness/dep/Cargo.lock"), dir.join("Cargo.lock"));
    let main = dir.join("src/main.rs");
    std::fs::write(&main, src).unwrap_or_else(|e| infra(&e.to_string()));
    let out = miri(&dir, target).stdin(Stdio::null()).output().unwrap_or_else(|e| infra(&format!("cannot run cargo miri: {}", e)));
    if out.status.code() == Some(124) { infra("cargo miri timed out"); }
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut diags = vec![];
    for l in text.lines() {
        let v: Value = match serde_json::from_str(l) { Ok(v) => v, Err(_) => continue };
        if v["reason"] == "compiler-message" { diags.extend(diag(&v["message"], "src/main.rs")); diags.extend(diag(&v["message"], &main.to_string_lossy())); }
    }
    let raw = format!("{}{}", text, String::from_utf8_lossy(&out.stderr));
    if !out.status.success() && diags.is_empty() { infra(&format!("cargo miri failed:\n{}", raw.lines().filter(|l| !l.starts_with('{')).collect::<Vec<_>>().join("\n"))); }
    Compiled { ok: out.status.success(), diags, exe: dir, raw }
}

pub fn compile(lib: &Lib, src: &str, opts: &CompileOpts) -> Compiled {
    let _p = Permit::get();
    let n = SEQ.fetch_add(1, Ordering::SeqCst);
    let dir = work();
    let _ = std::fs::create_dir_all(&dir);
    if let Some(t) = &opts.miri { return compile_miri(lib, src, t, n); }
    let file = dir.join(format!("p{}.rs", n));
    let exe = dir.join(format!("p{}.{}", n, if opts.check_only { "rmeta" } else { "exe" }));
    std::fs::write(&file, src).unwrap_or_else(|e| infra(&format!("write {}: {}", file.display(), e)));
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "300", if opts.doc { "rustdoc" } else { "rustc" }]);
    if lib.cfg.nightly { c.arg("+nightly"); }
    c.args(["--edition", opts.edition.as_deref().unwrap_or("2021"), "--crate-name", "gen", "--error-format=json"]);
    let exe = if opts.doc {
        let d = exe.with_extension("doc");
        c.env("RUSTC_BOOTSTRAP", "1").args(["--output-format", "json", "-Zunstable-options", "--document-private-items"]);
        d
    } else {
        c.args(["-Cdebuginfo=0", "-Cincremental=no"]);
        // a profile-like pairing: optimized programs have no overflow checks
        if opts.opt > 0 { c.arg(format!("-Copt-level={}", opts.opt)); c.arg("-Cdebug-assertions=off"); } else { c.arg("-Copt-level=0"); c.arg("-Cdebug-assertions=on"); }
        c.args(["-Ccodegen-units=4"]);
        exe
    };
    c.arg("-L").arg(format!("dependency={}", lib.deps.display()));
    for (k, v) in &lib.externs {
        if k == "packed_struct" || opts.externs.iter().any(|e| e == k) { c.arg("--extern").arg(format!("{}={}", k, v.display())); }
    }
    if opts.check_only { c.args(["--crate-type", "lib", "--emit", "metadata"]); }
    if opts.doc { c.args(["--crate-type", "lib"]); }
    c.arg("-o").arg(&exe).arg(&file);
    c.current_dir(&dir).stdin(Stdio::null());
    c.env_remove("RUSTFLAGS");
    let out = c.output().unwrap_or_else(|e| infra(&format!("cannot run rustc: {}", e)));
    let raw = String::from_utf8_lossy(&out.stderr).into_owned();
    if out.status.code() == Some(124) { infra("rustc timed out"); }
    let mut diags = vec![];
    let main = file.to_string_lossy().into_owned();
    for l in raw.lines() {
        let v: Value = match serde_json::from_str(l) { Ok(v) => v, Err(_) => continue };
        diags.extend(diag(&v, &main));
    }
    let _ = std::fs::remove_file(&file);
    Compiled { ok: out.status.success(), diags, exe, raw }
}

/// Documentation of the structures' PackedStruct implementations: (module, type) -> texts with a table.
pub fn docs(dir: &Path) -> BTreeMap<(String, String), Vec<String>> {
    let text = std::fs::read_to_string(dir.join("gen.json")).unwrap_or_else(|e| infra(&format!("rustdoc output: {}", e)));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| infra(&e.to_string()));
    let ix = &v["index"];
    let get = |id: &Value| ix.get(id.to_string()).cloned().unwrap_or(Value::Null);
    let mut r = BTreeMap::new();
    for m in ix.as_object().into_iter().flatten().map(|x| x.1) {
        if m["inner"]["module"].is_null() { continue; }
        for id in m["inner"]["module"]["items"].as_array().into_iter().flatten() {
            let s = get(id);
            if s["inner"]["struct"].is_null() { continue; }
            let mut t = vec![];
            for i in std::iter::once(id).chain(s["inner"]["struct"]["impls"].as_array().into_iter().flatten()) {
                if let Some(d) = get(i)["docs"].as_str() { if d.contains("<t") { t.push(d.to_string()); } }
            }
            r.insert((m["name"].as_str().unwrap_or("").to_string(), s["name"].as_str().unwrap_or("").to_string()), t);
        }
    }
    r
}

/// Feed lines to a program, one answer per line. Err(n): the process ended after n answers.
pub fn serve(exe: &Path, lines: &[String], opts: &CompileOpts) -> Result<Vec<String>, (usize, Vec<String>)> {
    let _p = Permit::get();
    let inp = exe.with_extension("in");
    let outp = exe.with_extension("out");
    {
        let mut f = std::io::BufWriter::new(std::fs::File::create(&inp).unwrap_or_else(|e| infra(&e.to_string())));
        for l in lines { debug_assert!(!l.contains('\n')); writeln!(f, "{}", l).unwrap(); }
        f.flush().unwrap();
    }
    let mut cmd = match &opts.miri { Some(t) => miri(exe, t), None => Command::new(exe) };
    let mut ch = cmd
        .stdin(std::fs::File::open(&inp).unwrap())
        .stdout(std::fs::File::create(&outp).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| infra(&format!("cannot start {}: {}", exe.display(), e)));
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(if opts.miri.is_some() { 600 } else { 240 }) { let _ = ch.kill(); let _ = ch.wait(); infra("generated program did not finish in time"); }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(e) => infra(&e.to_string()),
        }
    };
    let text = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&inp);
    let _ = std::fs::remove_file(&outp);
    // cargo reports what it built in between
    let text: String = if opts.miri.is_some() { text.split_inclusive('\n').filter(|l| !l.starts_with("{\"reason\":")).collect() } else { text };
    let ans: Vec<String> = text.split('\n').map(String::from).collect();
    let n = text.matches('\n').count();
    let ans: Vec<String> = ans.into_iter().take(n).map(|s| unescape(&s)).collect();
    if n == lines.len() && st.success() { Ok(ans) } else { Err((n, ans)) }
}

pub fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(c) => o.push(c), None => () } } else { o.push(c) }
    }
    o
}
