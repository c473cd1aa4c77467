//! Unification.
use super::gen::*;
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::{Decomposition, Term, TermRef};
use crate::kernel::unifier::{Scope, Unifier};
use crate::kernel::variable_map::VariableMap;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k05_sound", k05_sound),
    ("k05_complete", k05_complete),
    ("k05_occurs", k05_occurs),
    ("k05_function", k05_function),
    ("k05_poly", k05_poly),
    ("k05_binder", k05_binder),
];

fn v(i: u16) -> Term {
    Term::new_variable(i)
}
fn vt() -> Term {
    v(bit())
}
/// x0,x1: T   x2,x3: Bool   x4: T -> T   x5: T -> Bool
fn context(w: &World) -> LocalContext {
    let tt = w.fun(&w.t, &w.t);
    let tb = w.fun(&w.t, &w.b);
    ctx(&[&w.t, &w.t, &w.b, &w.b, &tt, &tb])
}
fn t0() -> Term {
    if sym::choice(2) == 0 {
        con(K::T)
    } else {
        vt()
    }
}
fn t1(fv: bool) -> Term {
    match sym::choice(if fv { 3 } else { 2 }) {
        0 => t0(),
        1 => con(K::TT).apply(&[t0()]),
        _ => v(4).apply(&[t0()]),
    }
}

/// Equal up to the order of the sides of embedded equalities.
pub fn eq_modulo(a: TermRef, b: TermRef) -> bool {
    fn spine<'x>(t: TermRef<'x>) -> (TermRef<'x>, Vec<TermRef<'x>>) {
        let mut args = vec![];
        let mut h = t;
        while let Some((f, x)) = h.split_application() {
            args.push(x);
            h = f;
        }
        args.reverse();
        (h, args)
    }
    if a == b {
        return true;
    }
    let (ha, aa) = spine(a);
    let (hb, ab) = spine(b);
    if aa.len() == 3 && ab.len() == 3 {
        if let (Decomposition::Atom(Atom::Symbol(Symbol::Eq)), Decomposition::Atom(Atom::Symbol(Symbol::Eq))) =
            (ha.decompose(), hb.decompose())
        {
            return eq_modulo(aa[0], ab[0])
                && ((eq_modulo(aa[1], ab[1]) && eq_modulo(aa[2], ab[2]))
                    || (eq_modulo(aa[1], ab[2]) && eq_modulo(aa[2], ab[1])));
        }
    }
    match (a.decompose(), b.decompose()) {
        (Decomposition::Application(f, x), Decomposition::Application(g, y)) => eq_modulo(f, g) && eq_modulo(x, y),
        (Decomposition::Lambda(f, x), Decomposition::Lambda(g, y))
        | (Decomposition::ForAll(f, x), Decomposition::ForAll(g, y))
        | (Decomposition::Exists(f, x), Decomposition::Exists(g, y))
        | (Decomposition::Pi(f, x), Decomposition::Pi(g, y)) => eq_modulo(f, g) && eq_modulo(x, y),
        _ => false,
    }
}

/// Unify and check everything a caller relies on when it succeeds.
fn unify(kc: &KernelContext, a: &Term, ca: &LocalContext, b: &Term, cb: &LocalContext, same: bool) -> Option<(Term, LocalContext)> {
    let mut u = Unifier::new(3, kc);
    u.set_input_context(Scope::LEFT, ca);
    if !same {
        u.set_input_context(Scope::RIGHT, cb);
    }
    let rs = if same { Scope::LEFT } else { Scope::RIGHT };
    if !u.unify(Scope::LEFT, a, rs, b) {
        return None;
    }
    let ra = u.apply(Scope::LEFT, a);
    let rb = u.apply(rs, b);
    sym::check(eq_modulo(ra.as_ref(), rb.as_ref()), "unification succeeded but the two sides differ");
    sym::check(ra.validate_structure_impl(), "malformed term");
    sym::check(!ra.has_escaping_bound_variable(), "a variable was bound to a bound variable");
    // finite: applying again changes nothing
    sym::check(u.apply(Scope::OUTPUT, &ra) == ra, "the substitution is not fully applied");
    let out = u.output_context().clone();
    let ty = ra.get_type_with_context(&out, kc);
    let _ = ty;
    for x in ra.iter_atoms() {
        if let Atom::FreeVariable(i) = x {
            sym::check(out.get_var_type(*i as usize).is_some(), "a result variable has no type");
        }
    }
    let checked = ra.checked_type_with_context(&out, kc);
    sym::check(checked.is_ok(), "the unified term is ill-typed");
    Some((ra, out))
}

/// Success means a unifier; separate and shared scopes.
#[no_mangle]
#[inline(never)]
pub fn k05_sound() {
    let w = World::new(7);
    let c = context(&w);
    let same = sym::choice(2) == 1;
    let (a, b) = match sym::choice(3) {
        0 => (con(K::TTB).apply(&[t1(false), t1(false)]), con(K::TTB).apply(&[t1(false), t0()])),
        1 => (
            Term::eq(w.t.clone(), t1(false), t0()),
            Term::eq(w.t.clone(), t0(), t1(false)),
        ),
        _ => (
            if sym::choice(2) == 0 { v(2) } else { con(K::TTB).apply(&[t0(), t0()]) },
            match sym::choice(3) {
                0 => v(2),
                1 => con(K::B),
                _ => con(K::TTB).apply(&[t0(), t1(false)]),
            },
        ),
    };
    let r = unify(&w.kc, &a, &c, &b, &c, same);
    if let Some((t, out)) = &r {
        sym::reach(0);
        sym::check(t.as_ref().get_type_with_context(out, &w.kc) == w.b, "the unified term changed type");
        sym::observe(t.atom_count() as u64);
    } else {
        sym::reach(1);
        sym::observe(0);
    }
}

fn inst(t: &Term, s: &[Term; 2]) -> Term {
    t.replace_variables(&[0, 1], &[&s[0], &s[1]])
}
fn ground1() -> Term {
    if sym::choice(2) == 0 {
        con(K::T)
    } else {
        con(K::TT).apply(&[con(K::T)])
    }
}

/// If some instances are identical, unification succeeds and its result is at least as general.
#[no_mangle]
#[inline(never)]
pub fn k05_complete() {
    let w = World::new(7);
    let c = context(&w);
    let (a, b) = match sym::choice(2) {
        0 => (con(K::TTB).apply(&[t1(false), t0()]), con(K::TTB).apply(&[t0(), t1(false)])),
        _ => (Term::eq(w.t.clone(), t1(false), t0()), Term::eq(w.t.clone(), t0(), t0())),
    };
    let sl = [ground1(), ground1()];
    let sr = [ground1(), ground1()];
    let ga = inst(&a, &sl);
    let gb = inst(&b, &sr);
    if ga == gb {
        sym::reach(0);
        let r = unify(&w.kc, &a, &c, &b, &c, false);
        match r {
            None => sym::check(false, "unification failed on terms with a common instance"),
            Some((t, _)) => {
                let mut m = VariableMap::new();
                sym::check(m.match_terms_no_type_check(t.as_ref(), ga.as_ref()), "the unifier is not most general");
            }
        }
    }
}

/// Chains of variables within one clause: the occurs check through intermediate bindings.
#[no_mangle]
#[inline(never)]
pub fn k05_occurs() {
    let w = World::new(7);
    let c = ctx(&[&w.t, &w.t, &w.t, &w.t]);
    fn x() -> Term {
        Term::new_variable((sym::u8() & 3) as u16)
    }
    fn arg(n: usize) -> Term {
        match sym::choice(n) {
            0 => x(),
            1 => con_at(K::TT, 0).apply(&[x()]),
            _ => con_at(K::TTT, 0).apply(&[x(), x()]),
        }
    }
    let h = |p: Term, q: Term, r: Term| con_at(K::TTB, 0).apply(&[con_at(K::TTT, 0).apply(&[p, q]), r]);
    let a = h(x(), x(), x());
    let b = h(arg(2), arg(3), arg(if cfg!(vh_thorough) { 2 } else { 1 }));
    let r = unify(&w.kc, &a, &c, &b, &c, true);
    sym::reach(0);
    sym::observe(r.map_or(0, |t| t.0.atom_count() as u64));
}

/// Function variables bind to partial applications.
#[no_mangle]
#[inline(never)]
pub fn k05_function() {
    let w = World::new(7);
    let c = context(&w);
    let fa = |n: usize| match sym::choice(n) {
        0 => v(5).apply(&[t1(true)]),
        1 => con(K::TB).apply(&[t1(true)]),
        _ => con(K::TTB).apply(&[t1(true), t0()]),
    };
    let a = fa(2);
    let b = fa(3);
    let r = unify(&w.kc, &a, &c, &b, &c, sym::choice(2) == 1);
    if r.is_some() {
        sym::reach(0);
    }
    sym::observe(r.map_or(0, |t| t.0.atom_count() as u64));
}

/// Polymorphic: x0 is a type variable, x1, x2 have type x0; P: (A: Type) -> A -> A -> Bool.
#[no_mangle]
#[inline(never)]
pub fn k05_poly() {
    let w = World::poly();
    let c = w.poly_context();
    fn side(w: &World) -> Term {
        // (type argument, values of that type)
        match sym::choice(4) {
            0 => con_at(K::P, bit()).apply(&[v(0), v(1 + bit()), v(1 + bit())]),
            1 => con_at(K::P, bit()).apply(&[w.t.clone(), con(K::T), v(3)]),
            2 => con_at(K::P, bit()).apply(&[w.b.clone(), v(4), con(K::B)]),
            _ => {
                let tt = w.fun(&w.t, &w.t);
                con_at(K::P, bit()).apply(&[tt, con(K::TT), v(5)])
            }
        }
    }
    let a = side(&w);
    let b = side(&w);
    let r = unify(&w.kc, &a, &c, &b, &c, sym::choice(2) == 1);
    if r.is_some() {
        sym::reach(0);
    }
    sym::observe(r.map_or(0, |t| t.0.atom_count() as u64));
}

/// Terms with binders: bound variables only match themselves.
#[no_mangle]
#[inline(never)]
pub fn k05_binder() {
    let w = World::new(7);
    let c = context(&w);
    fn q(w: &World) -> Term {
        fn x() -> Term {
            match sym::choice(3) {
                0 => bound(0),
                1 => vt(),
                _ => con_at(K::TT, 0).apply(&[if sym::choice(2) == 0 { bound(0) } else { vt() }]),
            }
        }
        let body = con_at(K::TTB, 0).apply(&[x(), x()]);
        match sym::choice(2) {
            0 => Term::forall(w.t.clone(), body),
            _ => Term::exists(w.t.clone(), body),
        }
    }
    let a = q(&w);
    let b = if sym::choice(2) == 0 { q(&w) } else { v(2) };
    let r = unify(&w.kc, &a, &c, &b, &c, sym::choice(2) == 1);
    if r.is_some() {
        sym::reach(0);
    }
    sym::observe(r.map_or(0, |t| t.0.atom_count() as u64));
}
