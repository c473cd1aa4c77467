//! Registration of constants: every name keeps its symbol, no two names share one.
use super::sym;
use crate::elaborator::names::ConstantName;
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::kernel::term::Term;
use crate::module::{LoadState, ModuleId};
use crate::project::{Project, ProjectConfig};
use std::path::PathBuf;
#[path = "vfs.rs"]
mod vfs;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k16_register", k16_register),
    ("k16_rename", k16_rename),
    ("k16_import", k16_import),
    ("k16_merge", k16_merge),
    ("k16_modules", k16_modules),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// What has been registered: name, symbol, type.
struct Book {
    rows: Vec<(ConstantName, Symbol, Term)>,
}
impl Book {
    fn new() -> Book {
        Book { rows: vec![] }
    }
    fn find(&self, n: &ConstantName) -> Option<usize> {
        self.rows.iter().position(|r| r.0 == *n)
    }
    fn add(&mut self, kc: &mut KernelContext, n: &ConstantName, local: bool, t: &Term) {
        let kind = if local { NewConstantType::Local } else { NewConstantType::Global };
        let s = kc.symbol_table.add_constant(n.clone(), kind, t.clone());
        match self.find(n) {
            Some(i) => sym::check(self.rows[i].1 == s, "a registered constant keeps its symbol"),
            None => {
                sym::check(!self.rows.iter().any(|r| r.1 == s), "a new constant gets a symbol of its own");
                match s {
                    Symbol::GlobalConstant(m, _) => {
                        sym::check(!local && m == n.module_id(), "a global constant belongs to its module")
                    }
                    Symbol::ScopedConstant(_) => sym::check(local, "a local constant is scoped"),
                    _ => sym::check(false, "a constant gets a constant's symbol"),
                }
                self.rows.push((n.clone(), s, t.clone()));
            }
        }
    }
    /// The table knows each row, and nothing else about it.
    fn verify(&self, kc: &KernelContext) {
        let st = &kc.symbol_table;
        for (n, s, t) in &self.rows {
            sym::check(st.get_symbol(n) == Some(*s), "a name leads to the symbol it was given");
            sym::check(st.contains_symbol(*s), "a registered symbol is known");
            sym::check(st.get_type(*s) == t, "a symbol has the type it was registered with");
            sym::check(st.try_name_for_symbol(*s) == Some(n), "a symbol has the name it was registered with");
        }
        for t in [Term::bool_type(), Term::pi(Term::bool_type(), Term::bool_type())] {
            match st.get_element_of_type(&t) {
                Some(s) => sym::check(
                    self.rows.iter().any(|r| r.1 == s && r.2 == t),
                    "an element of a type was registered with that type",
                ),
                None => sym::check(!self.rows.iter().any(|r| r.2 == t), "a type with a constant has an element"),
            }
        }
    }
}
fn text(n: u8) -> String {
    // one letter out of n, symbolic
    let b = sym::below(n) + b'a';
    let mut s = String::new();
    s.push(b as char);
    s
}
fn name(m: u16, n: u8) -> ConstantName {
    ConstantName::unqualified(ModuleId(m), &text(n))
}
fn ty() -> Term {
    if sym::choice(2) == 0 {
        Term::bool_type()
    } else {
        Term::pi(Term::bool_type(), Term::bool_type())
    }
}

/// Any sequence of registrations.
#[no_mangle]
#[inline(never)]
pub fn k16_register() {
    let mut kc = KernelContext::new();
    let mut b = Book::new();
    for _ in 0..3 + TH {
        let m = sym::choice(2) as u16;
        let n = name(m, 26);
        let local = sym::choice(2) == 1;
        b.add(&mut kc, &n, local, &ty());
    }
    b.verify(&kc);
    let q = name(0, 26);
    if b.find(&q).is_none() {
        sym::reach(0);
        sym::check(kc.symbol_table.get_symbol(&q).is_none(), "a name that was not registered has no symbol");
    } else {
        sym::reach(1);
    }
}

/// Renaming one constant touches nothing else.
#[no_mangle]
#[inline(never)]
pub fn k16_rename() {
    let mut kc = KernelContext::new();
    let mut b = Book::new();
    for i in 0..3 {
        let local = i == 2 || sym::choice(2) == 1;
        let n = name(0, 26);
        let t = if i == 0 { ty() } else { Term::bool_type() };
        b.add(&mut kc, &n, local, &t);
    }
    for _ in 0..1 + TH {
        let i = sym::choice(b.rows.len());
        let n = name(0, 26);
        let taken = b.find(&n);
        let (old, s, _) = b.rows[i].clone();
        let ensure = sym::choice(2) == 1;
        let r = match s {
            Symbol::GlobalConstant(m, id) if ensure => kc.symbol_table.ensure_global_name(m, id, n.clone()),
            Symbol::GlobalConstant(m, id) => kc.symbol_table.rename_global_constant(m, id, n.clone()),
            Symbol::ScopedConstant(id) if ensure => kc.symbol_table.ensure_local_name(id, n.clone()),
            Symbol::ScopedConstant(id) => kc.symbol_table.rename_scoped_constant(id, n.clone()),
            _ => unreachable!(),
        };
        let global = matches!(s, Symbol::GlobalConstant(..));
        match r {
            Ok(()) => {
                sym::check(taken.is_none() || taken == Some(i), "a name in use cannot be given to another constant");
                sym::check(!(global && ensure) || old == n, "a named global constant is not renamed by ensuring a name");
                b.rows[i].0 = n;
                if old != b.rows[i].0 {
                    sym::reach(0);
                    sym::check(kc.symbol_table.get_symbol(&old).is_none(), "a renamed constant gives up its old name");
                }
            }
            Err(_) => {
                sym::reach(1);
                sym::check(
                    taken.is_some() && taken != Some(i) || global && ensure && old != n,
                    "an unused name can be given",
                );
            }
        }
        b.verify(&kc);
    }
    // what follows still gets symbols of its own
    let n = name(0, 26);
    b.add(&mut kc, &n, sym::choice(2) == 1, &Term::bool_type());
    b.verify(&kc);
}

/// Modules that import one another: each registers constants of its own.
#[no_mangle]
#[inline(never)]
pub fn k16_import() {
    let mut b = Book::new();
    let mut base = KernelContext::new();
    for _ in 0..1 + sym::choice(2) {
        b.add(&mut base, &name(0, 26), false, &ty());
    }
    let mut all = KernelContext::new();
    let mut others = vec![];
    for m in 1..3u16 {
        let mut kc = KernelContext::new();
        kc.merge_imports(&base);
        b.verify_part(&kc, |n| n.module_id() == ModuleId(0));
        for _ in 0..1 + TH {
            b.add(&mut kc, &name(m, 26), false, &ty());
        }
        others.push(kc);
    }
    if sym::choice(2) == 1 {
        all.merge_imports(&base);
    }
    let first = sym::choice(2);
    all.merge_imports(&others[first]);
    if sym::choice(2) == 1 {
        // a constant between two imports
        b.add(&mut all, &name(3, 26), sym::choice(2) == 1, &ty());
    }
    all.merge_imports(&others[1 - first]);
    b.add(&mut all, &name(3, 26), false, &ty());
    b.verify(&all);
    sym::reach(0);
}
impl Book {
    fn verify_part(&self, kc: &KernelContext, f: impl Fn(&ConstantName) -> bool) {
        let part = Book { rows: self.rows.iter().filter(|r| f(&r.0)).cloned().collect() };
        part.verify(kc);
    }
}

/// A context that went on from a copy of another one, merged back into it.
#[no_mangle]
#[inline(never)]
pub fn k16_merge() {
    let mut b = Book::new();
    let mut kc = KernelContext::new();
    for i in 0..2 {
        b.add(&mut kc, &name(i, 26), sym::choice(2) == 1, &ty());
    }
    let mut later = kc.clone();
    for _ in 0..1 + TH {
        b.add(&mut later, &name(sym::choice(2) as u16, 26), sym::choice(2) == 1, &ty());
    }
    kc.merge(&later);
    b.verify(&kc);
    b.add(&mut kc, &name(0, 26), sym::choice(2) == 1, &ty());
    b.verify(&kc);
    sym::reach(0);
}

/// BLAKE3's block function, which is assembly: any function that separates the inputs will do.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vredirect_blake3__platform__compress_in_place(
    _platform: *const u8,
    cv: *mut u32,
    block: *const u8,
    len: u8,
    counter: u64,
    flags: u8,
) {
    for i in 0..8 {
        let mut v = (len as u32) << 24 | (flags as u32) << 16 | counter as u32;
        for j in 0..16 {
            let mut w = 0u32;
            for k in 0..4 {
                w = (w << 8) | unsafe { *block.add(j * 4 + k) } as u32;
            }
            v ^= w.rotate_left(((i * 3 + j * 5) & 31) as u32);
        }
        unsafe { *cv.add(i) = (*cv.add(i)).rotate_left(7) ^ v };
    }
}

/// Real modules: two that import a third and use different datatypes of it, and one that
/// imports all.
#[no_mangle]
#[inline(never)]
pub fn k16_modules() {
    sym::real_format();
    for d in ["/v", "/v/mock", "/v/mock/build"] {
        vfs::mkdir_p(d);
    }
    let config = ProjectConfig { use_filesystem: false, read_cache: false, write_cache: false, ..Default::default() };
    let mut p = match Project::new(PathBuf::from("/v/mock"), PathBuf::from("/v/mock/build"), config) {
        Ok(p) => p,
        Err(_) => return sym::check(false, "a project without files is made"),
    };
    let x = text(3);
    p.mock("/v/mock/a.ac", "inductive Nat {\n    zero\n    suc(Nat)\n}\ninductive Bit {\n    off\n    on\n}\n");
    let nat = |f: &str| {
        format!("from a import Nat\ndefine {}(n: Nat) -> Nat {{\n    match n {{\n        Nat.zero {{ Nat.zero }}\n        Nat.suc(k) {{ k }}\n    }}\n}}\n", f)
    };
    let bit = |f: &str| {
        format!("from a import Bit\ndefine {}(n: Bit) -> Bit {{\n    match n {{\n        Bit.off {{ Bit.on }}\n        Bit.on {{ Bit.off }}\n    }}\n}}\n", f)
    };
    let k = sym::choice(3);
    p.mock("/v/mock/b.ac", &if k == 0 { bit(&x) } else { nat(&x) });
    p.mock("/v/mock/c.ac", &if k == 1 { nat("g") } else { bit("g") });
    p.mock("/v/mock/d.ac", &format!("from b import {}\nfrom c import g\n", x));
    let id = match p.load_module_by_name("d") {
        Ok(id) => id,
        Err(_) => return sym::check(false, "the modules load"),
    };
    if let LoadState::Error(_) = p.get_module_by_id(id) {
        return sym::check(false, "the modules are elaborated");
    }
    let kc = &p.get_module_export(id).unwrap().final_kernel_context.clone();
    let mut n = 0;
    for m in 0..6u16 {
        for i in 0..12 {
            let s = Symbol::GlobalConstant(ModuleId(m), i);
            if let Some(name) = kc.symbol_table.try_name_for_symbol(s) {
                n += 1;
                sym::check(kc.symbol_table.get_symbol(name) == Some(s), "a symbol's name leads back to it");
            }
        }
    }
    sym::check(n >= 6, "the constants are registered");
    sym::observe(n);
    // every module's names keep their symbols
    for (module, _) in [("a", 0), ("b", 0), ("c", 0)] {
        let id = p.load_module_by_name(module).unwrap();
        let other = &p.get_module_export(id).unwrap().final_kernel_context;
        for m in 0..6u16 {
            for i in 0..12 {
                let s = Symbol::GlobalConstant(ModuleId(m), i);
                if let Some(name) = other.symbol_table.try_name_for_symbol(s) {
                    sym::check(kc.symbol_table.get_symbol(name) == Some(s), "an imported name keeps its symbol");
                    sym::check(kc.symbol_table.try_name_for_symbol(s) == Some(name), "an imported symbol keeps its name");
                    sym::check(
                        kc.symbol_table.get_type(s) == other.symbol_table.get_type(s),
                        "an imported symbol keeps its type",
                    );
                }
            }
        }
    }
    sym::reach(0);
}
