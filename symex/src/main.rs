//! symex: bounded symbolic execution of Rust functions from the compiler's LLVM IR.
mod exec;
mod expr;
mod ir;
mod llvm;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// Readable form of a mangled (v0) name: the identifiers it contains, joined.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i > 0 {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() {
                out.push(&n[j..j + l]);
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

pub fn is_panic(n: &str) -> bool {
    let c = |s: &str| n.contains(s);
    (c("4core9panicking") && !c("panic_count"))
        || (c("3std9panicking") && !c("panic_count"))
        || c("6option13expect_failed")
        || c("6option13unwrap_failed")
        || c("6result13unwrap_failed")
        || c("16slice_index_fail")
        || c("_fail") && c("4core5slice5index")
        || c("16slice_error_fail")
        || c("7raw_vec12handle_error")
        || c("7raw_vec17capacity_overflow")
        || c("18handle_alloc_error")
        || c("22panic_already_borrowed")
        || c("30panic_already_mutably_borrowed")
        || c("panic_access_error")
        || c("4core4cell20panic_already")
}
/// Functions replaced by "no effect".
pub fn is_nop(n: &str) -> bool {
    let c = |s: &str| n.contains(s);
    c("3std2io5stdio6__print") || c("3std2io5stdio7__eprint") || c("io5stdio6_print") || c("io5stdio7_eprint")
}
/// Hash computations, replaced by the constant 0 (every key of a table collides).
pub fn is_hash(n: &str) -> bool {
    n.contains("8hash_one") || n.contains("8hash_key")
}

fn keep_display() -> bool {
    std::env::var("VH_DISPLAY").is_ok()
}
fn cut(n: &str) -> bool {
    is_panic(n)
        || is_nop(n)
        || is_hash(n)
        || n.contains("hashmap_random_keys")
        // printing of values: only reached from messages, whose text is not encoded
        || n.contains("3fmt5Debug3fmt")
        || (n.contains("7Display3fmt") && n.contains("10elaborator") && !keep_display())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jnums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

fn report(ex: &exec::Exec, path: &str) {
    let mut s = String::from("{\n");
    let st = &ex.st;
    let _ = write!(
        s,
        "\"paths\":{},\"assumed_away\":{},\"instructions\":{},\"forks\":{},\"checks\":{},\"checks_symbolic\":{},\"unknown\":{},\"limit_paths\":{},\"max_path_instructions\":{},\"merged\":{},\"deadline\":{},\n",
        st.paths, st.assumed_away, st.instrs, st.forks, st.checks, st.checks_symbolic, st.unknown_branches, st.limit_paths, st.max_path_instrs, st.merged, st.deadline
    );
    let sv = &ex.sv;
    let _ = write!(
        s,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"slow\":{},\n",
        sv.queries, sv.sat, sv.unsat, sv.unknown, sv.cache_hits, sv.time_ns as f64 / 1e9, sv.slow
    );
    let mut r: Vec<u32> = ex.reached.iter().copied().collect();
    r.sort();
    let _ = write!(s, "\"reached\":{:?},\n", r);
    let u: Vec<String> = ex.unsupported.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    let _ = write!(s, "\"unsupported\":{{{}}},\n", u.join(","));
    let v: Vec<String> =
        ex.violations.iter().map(|v| format!("{{\"key\":{},\"inputs\":{}}}", jstr(&v.key), jnums(&v.inputs))).collect();
    let _ = write!(s, "\"violations\":[{}],\n", v.join(",\n"));
    let v: Vec<String> =
        ex.samples.iter().map(|(i, o)| format!("{{\"inputs\":{},\"observed\":{}}}", jnums(i), jnums(o))).collect();
    let _ = write!(s, "\"samples\":[{}],\n", v.join(",\n"));
    let mut e: Vec<(String, u64, usize)> = ex
        .entered
        .iter()
        .map(|(k, n)| {
            let f = &ex.m.funcs[*k as usize];
            (demangle(&f.name), *n, f.decoded.map_or(0, |d| d.code.len()))
        })
        .collect();
    e.sort();
    let v: Vec<String> = e.iter().map(|(k, n, c)| format!("[{},{},{}]", jstr(k), n, c)).collect();
    let _ = write!(s, "\"functions\":[{}]\n}}\n", v.join(",\n"));
    std::fs::write(path, s).unwrap();
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt = std::collections::HashMap::new();
    let mut pos = vec![];
    let mut known = vec![];
    let mut merge = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            let v = args.get(i + 1).cloned().unwrap_or_default();
            match k {
                "known" => known.push(v),
                "merge" => merge.extend(v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string())),
                _ => {
                    opt.insert(k.to_string(), v);
                }
            }
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().unwrap());
    if pos[0] == "prep" {
        // prep <all.bc> <out.bc> <entry>...
        let m = llvm::load(&pos[1]);
        let merge = merge.clone();
        let passes = opt.get("passes").cloned().unwrap_or("globaldce,default<O1>,globaldce,strip-dead-prototypes".into());
        llvm::prepare(m, &pos[3..], cut, |n| n.contains("format_inner") || merge.iter().any(|p| n.contains(p.as_str())), &passes);
        llvm::dump(m, &pos[2]);
        return;
    }
    // run <ir> <entry> <outdir>
    let t0 = Instant::now();
    let lm = llvm::load(&pos[1]);
    let m = ir::Module::new(lm);
    let Some(&fid) = m.fn_by_name.get(&pos[2]) else {
        eprintln!("no function {}", pos[2]);
        std::process::exit(2);
    };
    let shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut exec::Shared;
        let ncpu = num("cpus", 8) as i32;
        (*p).tokens.store(ncpu - 1, std::sync::atomic::Ordering::SeqCst);
        p as *const exec::Shared
    };
    let cfg = exec::Config {
        deadline: t0 + Duration::from_secs(num("seconds", 600)),
        path_limit: num("path-limit", 50_000_000),
        max_frames: num("depth", 2000) as usize,
        samples: num("samples", 8) as usize,
        known,
        merge,
        ncpu: num("cpus", 8) as i32,
        max_violations: 20,
        trace: opt.contains_key("trace"),
    };
    let sv = solver::Solver::new(num("rlimit", 60_000_000) as u32);
    let mut ex = exec::Exec::new(m, sv, cfg, shared);
    ex.start(fid);
    ex.run();
    let out = format!("{}/{}.json", pos[3], std::process::id());
    report(&ex, &out);
    if ex.is_child {
        unsafe { (*shared).tokens.fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
    }
    let mut bad = 0;
    for c in ex.children.clone() {
        let mut st = 0;
        unsafe { waitpid(c, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    if bad > 0 {
        eprintln!("{} worker(s) failed", bad);
        unsafe { _exit(5) }
    }
    unsafe { _exit(0) }
}
