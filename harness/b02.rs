//! Module names and source files.
use super::sym;
use crate::module::ModuleDescriptor;
use crate::project::{Project, ProjectConfig, ProjectView};
use std::path::{Component, Path, PathBuf};
#[path = "vfs.rs"]
mod vfs;

pub const HARNESSES: &[(&str, fn())] = &[
    ("b02_path", b02_path),
    ("b02_nested", b02_nested),
    ("b02_name", b02_name),
    ("b02_names", b02_names),
    ("b02_package", b02_package),
    ("b02_dots", b02_dots),
    ("b02_layout", b02_layout),
];
const TH: usize = cfg!(vh_thorough) as usize;
const SRC: &str = "/v/src";

fn project() -> Project {
    let config = ProjectConfig { read_cache: false, write_cache: false, ..Default::default() };
    match Project::new(PathBuf::from(SRC), PathBuf::from("/v/build"), config) {
        Ok(p) => p,
        Err(_) => {
            sym::assume(false);
            unreachable!()
        }
    }
}
fn start() {
    sym::real_format();
    for d in ["/v", SRC, "/v/src/p", "/v/src/p/q"] {
        vfs::mkdir_p(d);
    }
}
/// A byte of a path component: any ASCII character but the separator and the end.
fn byte() -> u8 {
    let b = sym::u8();
    sym::assume((b < 128) & (b != b'/') & (b != 0));
    b
}
fn text(n: usize) -> String {
    let t: Vec<u8> = (0..n).map(|_| byte()).collect();
    unsafe { String::from_utf8_unchecked(t) }
}
/// Whether a path stays below the source directory: it starts there and never goes up.
fn inside(p: &Path) -> bool {
    let Ok(r) = p.strip_prefix(SRC) else { return false };
    let mut n = 0;
    for c in r.components() {
        match c {
            Component::Normal(_) => n += 1,
            _ => return false,
        }
    }
    n > 0
}
fn part_ok(s: &[u8]) -> bool {
    let Some(f) = s.first() else { return false };
    let mut ok = (*f >= b'a') & (*f <= b'z');
    for b in s {
        ok &= ((*b >= b'a') & (*b <= b'z')) | ((*b >= b'A') & (*b <= b'Z')) | ((*b >= b'0') & (*b <= b'9')) | (*b == b'_');
    }
    ok
}
fn name_of(p: &Project, v: &ProjectView, path: &Path) -> Option<Vec<String>> {
    let a = match p.descriptor_from_path(path) {
        Ok(ModuleDescriptor::Name(parts)) => Some(parts),
        _ => None,
    };
    let b = match v.descriptor_from_path(path) {
        Ok(ModuleDescriptor::Name(parts)) => Some(parts),
        _ => None,
    };
    sym::check(a == b, "the snapshot of a project names a file differently");
    a
}
fn path_of(p: &Project, v: &ProjectView, name: &[String]) -> Option<PathBuf> {
    let d = ModuleDescriptor::Name(name.to_vec());
    let a = p.path_from_descriptor(&d).ok();
    let b = v.path_from_descriptor(&d).ok();
    sym::check(a == b, "the snapshot of a project finds a module elsewhere");
    a
}
/// The name of a file leads back to it.
fn back(file: &str) -> bool {
    let p = project();
    let v = ProjectView::new(&p);
    let path = Path::new(file);
    match name_of(&p, &v, path) {
        None => false,
        Some(parts) => {
            let got = path_of(&p, &v, &parts);
            sym::check(got.is_some_and(|g| g == path), "the name of a file leads to another file");
            sym::check(inside(path), "a file outside the source directory has a module name");
            true
        }
    }
}

/// A file of any name directly in the source directory.
#[no_mangle]
#[inline(never)]
pub fn b02_path() {
    start();
    let base = text(2 + sym::choice(2));
    let ends = sym::choice(2) == 1;
    let file = if ends { format!("/v/src/{}.ac", base) } else { format!("/v/src/{}", base) };
    let named = back(&file);
    sym::check(!named | ends, "a file that does not end with .ac has a name");
    sym::check(named == (ends & part_ok(base.as_bytes())), "a file of a valid name has none, or the reverse");
    sym::reach(named as u32);
}
/// A file of any name in a directory of any name.
#[no_mangle]
#[inline(never)]
pub fn b02_nested() {
    start();
    let (a, b) = (text(1 + TH), text(1 + sym::choice(2)));
    let file = format!("/v/src/{}/{}.ac", a, b);
    let named = back(&file);
    // a directory named "." is the source directory itself
    let dir = part_ok(a.as_bytes()) | (a == ".");
    sym::check(named == (dir & part_ok(b.as_bytes())), "a file of a valid name has none, or the reverse");
    sym::reach(named as u32);
}
/// A path that leaves the source directory, or enters it again.
#[no_mangle]
#[inline(never)]
pub fn b02_dots() {
    start();
    let a = text(2);
    let file = match sym::choice(4) {
        0 => format!("/v/src/../{}.ac", a),
        1 => format!("/v/src/x/../{}.ac", a),
        2 => format!("/v/srcs/{}.ac", a),
        _ => format!("/v/{}.ac", a),
    };
    sym::check(!back(&file), "a file outside the source directory has a module name");
    sym::reach(0);
}
/// Any text as a module name leads nowhere or into the source directory, and back.
#[no_mangle]
#[inline(never)]
pub fn b02_name() {
    start();
    let mut bytes: Vec<u8> = (0..3 + TH).map(|_| { let b = sym::u8(); sym::assume(b < 128); b }).collect();
    if sym::choice(2) == 1 {
        bytes[1] = b'.';
    }
    let name = unsafe { String::from_utf8_unchecked(bytes) };
    let p = project();
    let v = ProjectView::new(&p);
    match p.path_from_module_name(&name) {
        Err(_) => {
            sym::check(path_of(&p, &v, &[name.clone()]).is_none(), "a name is valid in one place only");
            sym::reach(0);
        }
        Ok(path) => {
            sym::check(inside(&path), "a module name leads out of the source directory");
            let parts = name_of(&p, &v, &path);
            let want: Vec<String> = name.split('.').map(|s| s.to_string()).collect();
            sym::check(parts.is_some_and(|q| q == want), "a name leads to a file of another name");
            sym::reach(1);
        }
    }
}
/// Different names lead to different files.
#[no_mangle]
#[inline(never)]
pub fn b02_names() {
    start();
    let p = project();
    let one = || {
        let mut t = vec![];
        for i in 0..3 {
            let b = sym::u8();
            sym::assume((b == b'a') | (b == b'B') | (b == b'_') | ((b == b'.') & (i == 1)));
            t.push(b);
        }
        unsafe { String::from_utf8_unchecked(t) }
    };
    let (a, b) = (one(), one());
    if let (Ok(x), Ok(y)) = (p.path_from_module_name(&a), p.path_from_module_name(&b)) {
        sym::check((x == y) == (a == b), "two module names lead to one file");
        sym::reach(0);
    }
}
/// Packages: directories with an interface file.
#[no_mangle]
#[inline(never)]
pub fn b02_package() {
    start();
    let all = ["/v/src/p.ac", "/v/src/p/interface.ac", "/v/src/p/q.ac", "/v/src/p/q/interface.ac", "/v/src/p/q/r.ac", "/v/src/interface.ac", "/v/src/a.ac"];
    let mut files = vec![];
    for f in all {
        if sym::choice(2) == 1 {
            vfs::put(f, b"");
            files.push(f);
        }
    }
    let p = project();
    let v = ProjectView::new(&p);
    let mut named: Vec<Vec<String>> = vec![];
    for f in &files {
        let path = Path::new(f);
        let Some(parts) = name_of(&p, &v, path) else {
            sym::check(false, "a source file has no name");
            return;
        };
        match path_of(&p, &v, &parts) {
            // refused: both p.ac and p/interface.ac exist
            None => {
                let both = |a: &str, b: &str| files.contains(&a) && files.contains(&b);
                let twice = (parts.join(".") == "p" && both(all[0], all[1])) || (parts.join(".") == "p.q" && both(all[2], all[3]));
                sym::check(twice, "a source file's module name is refused");
                sym::reach(1);
            }
            Some(got) => {
                sym::check(got == path, "the name of a file leads to another file");
                sym::check(!named.contains(&parts), "two files have one name");
                named.push(parts);
                sym::reach(0);
            }
        }
    }
    // every module name leads nowhere or to a file whose name leads there too
    for n in ["a", "p", "p.q", "p.q.r", "p.r", "interface", "p.interface", "p.q.interface"] {
        let Ok(path) = p.path_from_module_name(n) else { continue };
        sym::check(inside(&path), "a module name leads out of the source directory");
        let Some(parts) = name_of(&p, &v, &path) else {
            sym::check(false, "a module's file has no name");
            return;
        };
        let again = path_of(&p, &v, &parts);
        let other = parts.join(".") != n;
        sym::check(again.is_none() || again.is_some_and(|g| g == path), "a module name and its file's name lead to different files");
        sym::check(!other || n.ends_with(".interface"), "a name leads to a file of another name");
    }
}

/// A file and a package interface with any one-letter names, and the file of any
/// one- or two-part module name.
#[no_mangle]
#[inline(never)]
pub fn b02_layout() {
    start();
    let letter = || {
        let b = sym::u8();
        sym::assume((b >= b'a') & (b <= b'z'));
        b
    };
    let (a, b, x, y) = (letter(), letter(), letter(), letter());
    let s = |parts: &[u8]| unsafe { String::from_utf8_unchecked(parts.to_vec()) };
    let deep = sym::choice(2) == 1;
    let pack = sym::choice(2) == 1;
    let file = if deep { format!("/v/src/{}/{}.ac", s(&[b]), s(&[a])) } else { format!("/v/src/{}.ac", s(&[a])) };
    let inter = format!("/v/src/{}/interface.ac", s(&[b]));
    vfs::mkdir_p(&format!("/v/src/{}", s(&[b])));
    vfs::put(&file, b"");
    if pack {
        vfs::put(&inter, b"");
    }
    let p = project();
    let v = ProjectView::new(&p);
    let two = sym::choice(2) == 1;
    let name = if two { vec![s(&[x]), s(&[y])] } else { vec![s(&[x])] };
    let got = path_of(&p, &v, &name);
    let clash = !two & !deep & pack & (x == a) & (a == b);
    sym::check(got.is_none() == clash, "a module name is refused without two files for it, or not with two");
    if let Some(got) = got {
        let is_pack = !two & pack & (x == b);
        let plain = format!("/v/src/{}.ac", name.join("/"));
        let want = if is_pack { &inter } else { &plain };
        sym::check(got == Path::new(want.as_str()), "a module name leads to the wrong file");
        sym::check(name_of(&p, &v, &got).is_some_and(|n| n == name), "a file's name is not the one that leads to it");
        sym::reach(is_pack as u32);
    } else {
        sym::reach(2);
    }
}
