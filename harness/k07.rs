//! The simplification ordering.
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::Term;
use crate::kernel::types::{GroundTypeId, TypeclassId};
use crate::module::ModuleId;
use std::cmp::Ordering;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k07_total", k07_total),
    ("k07_trans", k07_trans),
    ("k07_stable", k07_stable),
    ("k07_rename", k07_rename),
    ("k07_binder", k07_binder),
    ("k07_heavy", k07_heavy),
];

fn con() -> Term {
    let id = sym::u16();
    match sym::choice(2) {
        0 => Term::atom(Atom::Symbol(Symbol::GlobalConstant(ModuleId(sym::u16()), id))),
        _ => Term::atom(Atom::Symbol(Symbol::ScopedConstant(id))),
    }
}
fn var() -> Term {
    Term::new_variable((sym::u8() & 3) as u16)
}
fn atom() -> Term {
    match sym::choice(2) {
        0 => var(),
        _ => con(),
    }
}
fn term() -> Term {
    match sym::choice(4) {
        0 => atom(),
        1 => con().apply(&[atom()]),
        2 => con().apply(&[atom(), atom()]),
        _ => var().apply(&[atom()]),
    }
}
fn small() -> Term {
    match sym::choice(3) {
        0 => atom(),
        1 => con().apply(&[atom()]),
        _ => builtin(),
    }
}
fn builtin() -> Term {
    let g = GroundTypeId::new(ModuleId(sym::u16()), sym::u16());
    let s = match sym::choice(7) {
        0 => Symbol::True,
        1 => Symbol::False,
        2 => Symbol::Not,
        3 => Symbol::Eq,
        4 => Symbol::Bool,
        5 => Symbol::Type(g),
        _ => Symbol::Typeclass(TypeclassId::new(ModuleId(sym::u16()), sym::u16())),
    };
    Term::atom(Atom::Symbol(s))
}

/// Total extension: antisymmetric, equal only on identical terms.
#[no_mangle]
#[inline(never)]
pub fn k07_total() {
    let x = term();
    let y = term();
    let a = x.extended_kbo_cmp(&y);
    let b = y.extended_kbo_cmp(&x);
    sym::check(a == b.reverse(), "the total order is antisymmetric");
    sym::check((a == Ordering::Equal) == (x == y), "only identical terms are equal in the total order");
    let k = x.kbo_cmp(&y);
    sym::check(k == y.kbo_cmp(&x).reverse(), "the reduction order is antisymmetric");
    sym::check(k == Ordering::Equal || k == a, "the total order extends the reduction order");
    let s = x.stable_cmp(&y);
    sym::check(s == y.stable_cmp(&x).reverse(), "the renaming-invariant order is antisymmetric");
    sym::check(s == Ordering::Equal || s == a, "the total order refines the renaming-invariant order");
    sym::reach(0);
    sym::observe(a as i8 as u8 as u64);
}

/// Transitivity of all three orders.
#[no_mangle]
#[inline(never)]
pub fn k07_trans() {
    let x = small();
    let y = small();
    let z = small();
    let f: fn(&Term, &Term) -> Ordering = match sym::choice(3) {
        0 => |a, b| a.extended_kbo_cmp(b),
        1 => |a, b| a.kbo_cmp(b),
        _ => |a, b| a.stable_cmp(b),
    };
    if f(&x, &y) == Ordering::Greater && f(&y, &z) == Ordering::Greater {
        sym::reach(0);
        sym::check(f(&x, &z) == Ordering::Greater, "greater-than is transitive");
    }
}

/// x > y implies xs > ys for every substitution s of the variables.
#[no_mangle]
#[inline(never)]
pub fn k07_stable() {
    fn id() -> u16 {
        sym::u16()
    }
    fn c() -> Term {
        Term::atom(Atom::Symbol(Symbol::GlobalConstant(ModuleId(id()), id())))
    }
    fn v(base: u16) -> Term {
        Term::new_variable(base + (sym::u8() & 1) as u16)
    }
    fn at() -> Term {
        if sym::choice(2) == 0 {
            v(0)
        } else {
            c()
        }
    }
    fn t(n: usize) -> Term {
        match sym::choice(n) {
            0 => at(),
            1 => c().apply(&[at()]),
            _ => c().apply(&[at(), at()]),
        }
    }
    let x = t(3);
    let y = t(3);
    let k = x.kbo_cmp(&y);
    if k == Ordering::Greater {
        let r0 = if sym::choice(2) == 0 { v(0) } else { c().apply(&[v(0)]) };
        let r1 = if sym::choice(2) == 0 { v(0) } else { c() };
        // fresh names first, so that replacing one after the other is simultaneous
        let app = |t: &Term| {
            t.replace_variables(&[0, 1], &[&Term::new_variable(10), &Term::new_variable(11)])
                .replace_variable(10, &r0)
                .replace_variable(11, &r1)
        };
        let xs = app(&x);
        let ys = app(&y);
        sym::check(xs.kbo_cmp(&ys) == Ordering::Greater, "greater-than is stable under substitution");
        sym::check(xs.extended_kbo_cmp(&ys) == Ordering::Greater, "the total order keeps it under substitution");
        sym::reach(0);
    }
}

/// The renaming-invariant order is invariant under consistent renaming.
#[no_mangle]
#[inline(never)]
pub fn k07_rename() {
    fn v() -> Term {
        Term::new_variable((sym::u8() & 1) as u16)
    }
    fn at() -> Term {
        if sym::choice(2) == 0 {
            v()
        } else {
            con()
        }
    }
    fn t() -> Term {
        match sym::choice(4) {
            0 => at(),
            1 => con().apply(&[at()]),
            2 => con().apply(&[at(), at()]),
            _ => v().apply(&[at()]),
        }
    }
    let x = t();
    let y = t();
    let s = x.stable_cmp(&y);
    // an arbitrary injective renaming of x0, x1
    let p = [sym::u8() as u16 & 3, sym::u8() as u16 & 3];
    sym::assume(p[0] != p[1]);
    let ren = |t: &Term| {
        t.replace_variables(&[0, 1], &[&Term::new_variable(20), &Term::new_variable(21)])
            .replace_variables(&[20, 21], &[&Term::new_variable(p[0]), &Term::new_variable(p[1])])
    };
    let rx = ren(&x);
    let ry = ren(&y);
    sym::check(rx.stable_cmp(&ry) == s, "renaming variables does not change the renaming-invariant order");
    sym::check(rx.kbo_cmp(&ry) == x.kbo_cmp(&y), "renaming variables does not change the reduction order");
    sym::reach(0);
    sym::observe(s as i8 as u8 as u64);
}

/// Binder terms are ordered totally too.
#[no_mangle]
#[inline(never)]
pub fn k07_binder() {
    fn con() -> Term {
        Term::atom(Atom::Symbol(Symbol::ScopedConstant(sym::u16())))
    }
    fn leaf() -> Term {
        match sym::choice(3) {
            0 => Term::atom(Atom::BoundVariable((sym::u8() & 1) as u16)),
            1 => var(),
            _ => con(),
        }
    }
    fn body() -> Term {
        match sym::choice(2) {
            0 => leaf(),
            _ => con().apply(&[leaf()]),
        }
    }
    fn t(kinds: usize) -> Term {
        let ty = Term::ground_type(GroundTypeId::new(ModuleId(0), sym::u16()));
        match sym::choice(kinds) {
            0 => Term::lambda(ty, body()),
            1 => Term::forall(ty, body()),
            _ => Term::exists(ty, body()),
        }
    }
    let wrap = sym::choice(2) == 1;
    let (mut x, mut y) = (t(2), t(3));
    if wrap {
        x = con().apply(&[x]);
        y = con().apply(&[y]);
    }
    let a = x.extended_kbo_cmp(&y);
    let b = y.extended_kbo_cmp(&x);
    sym::check(a == b.reverse(), "the total order is antisymmetric on binders");
    sym::check((a == Ordering::Equal) == (x == y), "only identical binder terms are equal in the total order");
    sym::reach(0);
    sym::observe(a as i8 as u8 as u64);
}

/// A variable that occurs very often: n nested applications of it.
#[no_mangle]
#[inline(never)]
pub fn k07_heavy() {
    let n = 250 + sym::choice(10);
    let m = sym::choice(8) + 1;
    let mk = |n: usize| {
        let args: Vec<Term> = (0..n).map(|_| Term::new_variable(0)).collect();
        Term::atom(Atom::Symbol(Symbol::ScopedConstant(0))).apply(&args)
    };
    let x = mk(n);
    let y = Term::atom(Atom::Symbol(Symbol::ScopedConstant(sym::u16())));
    let y = if m == 1 { y } else { mk(m - 1) };
    let g = Term::atom(Atom::Symbol(Symbol::ScopedConstant(1))).apply(&[x.clone()]);
    // g(x) has one more symbol and at least as many of every variable
    sym::check(g.kbo_cmp(&y) == Ordering::Greater, "a term with more of everything is greater");
    sym::check(g.kbo_cmp(&x) == Ordering::Greater, "a term is greater than its subterm");
    sym::reach(0);
}
