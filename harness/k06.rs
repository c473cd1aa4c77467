//! One-way matching.
use super::gen::*;
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::{Decomposition, Term, TermRef};
use crate::kernel::unifier::{Scope, Unifier};
use crate::kernel::variable_map::{apply_to_term, VariableMap};

pub const HARNESSES: &[(&str, fn())] = &[
    ("k06_sound", k06_sound),
    ("k06_complete", k06_complete),
    ("k06_function", k06_function),
    ("k06_binder", k06_binder),
    ("k06_poly", k06_poly),
    ("k06_literal", k06_literal),
];

fn v(i: u16) -> Term {
    Term::new_variable(i)
}
/// x0,x1: T   x2,x3: Bool   x4: T -> T   x5: T -> Bool
fn context(w: &World) -> LocalContext {
    let tt = w.fun(&w.t, &w.t);
    let tb = w.fun(&w.t, &w.b);
    ctx(&[&w.t, &w.t, &w.b, &w.b, &tt, &tb])
}
fn t0() -> Term {
    if sym::choice(2) == 0 {
        con(K::T)
    } else {
        v(bit())
    }
}
fn t1(fv: bool) -> Term {
    match sym::choice(if fv { 3 } else { 2 }) {
        0 => t0(),
        1 => con(K::TT).apply(&[t0()]),
        _ => v(4).apply(&[t0()]),
    }
}
fn eq_modulo(a: TermRef, b: TermRef) -> bool {
    fn spine<'x>(t: TermRef<'x>) -> (TermRef<'x>, Vec<TermRef<'x>>) {
        let mut args = vec![];
        let mut h = t;
        while let Some((f, x)) = h.split_application() {
            args.push(x);
            h = f;
        }
        args.reverse();
        (h, args)
    }
    if a == b {
        return true;
    }
    let (ha, aa) = spine(a);
    let (hb, ab) = spine(b);
    if aa.len() == 3 && ab.len() == 3 {
        if let (Decomposition::Atom(Atom::Symbol(Symbol::Eq)), Decomposition::Atom(Atom::Symbol(Symbol::Eq))) =
            (ha.decompose(), hb.decompose())
        {
            return eq_modulo(aa[0], ab[0])
                && ((eq_modulo(aa[1], ab[1]) && eq_modulo(aa[2], ab[2]))
                    || (eq_modulo(aa[1], ab[2]) && eq_modulo(aa[2], ab[1])));
        }
    }
    match (a.decompose(), b.decompose()) {
        (Decomposition::Application(f, x), Decomposition::Application(g, y)) => eq_modulo(f, g) && eq_modulo(x, y),
        (Decomposition::Lambda(f, x), Decomposition::Lambda(g, y))
        | (Decomposition::ForAll(f, x), Decomposition::ForAll(g, y))
        | (Decomposition::Exists(f, x), Decomposition::Exists(g, y))
        | (Decomposition::Pi(f, x), Decomposition::Pi(g, y)) => eq_modulo(f, g) && eq_modulo(x, y),
        _ => false,
    }
}

/// Run all matchers on the pair; whatever succeeds must be right. Returns which succeeded.
fn try_all(w: &World, c: &LocalContext, g: &Term, s: &Term) -> (bool, bool, bool) {
    let mut m = VariableMap::new();
    let a = m.match_terms(g.as_ref(), s.as_ref(), c, c, &w.kc);
    if a {
        let r = apply_to_term(g.as_ref(), &m);
        sym::check(eq_modulo(r.as_ref(), s.as_ref()), "match_terms: the substitution does not give the target");
        for (i, t) in m.iter() {
            let want = apply_to_term(c.get_var_type(i).unwrap().as_ref(), &m);
            let got = t.get_type_with_context(c, &w.kc);
            sym::check(want == got, "match_terms: a variable is bound to a term of another type");
            sym::check(!t.has_escaping_bound_variable(), "match_terms: a variable is bound to a bound variable");
        }
    }
    let mut m2 = VariableMap::new();
    let b = m2.match_terms_no_type_check(g.as_ref(), s.as_ref());
    if b {
        let r = apply_to_term(g.as_ref(), &m2);
        sym::check(eq_modulo(r.as_ref(), s.as_ref()), "match_terms_no_type_check: the substitution does not give the target");
    }
    let mut u = Unifier::new(3, &w.kc);
    u.set_input_context(Scope::LEFT, c);
    u.set_input_context(Scope::RIGHT, c);
    let d = u.match_instance(Scope::LEFT, g, Scope::RIGHT, s);
    if d {
        let rg = u.apply(Scope::LEFT, g);
        let rs = u.apply(Scope::RIGHT, s);
        sym::check(rg == rs, "match_instance: the substitution does not give the target");
        // the target's variables are not bound: its image is a renaming
        let mut seen: Vec<(Atom, Atom)> = vec![];
        let pairs = s.iter_atoms().zip(rs.iter_atoms());
        sym::check(s.iter_atoms().count() == rs.iter_atoms().count(), "match_instance: the target changed shape");
        for (x, y) in pairs {
            if let Atom::FreeVariable(_) = x {
                sym::check(matches!(y, Atom::FreeVariable(_)), "match_instance: a target variable was bound");
                for (p, q) in &seen {
                    sym::check((p == x) == (q == y), "match_instance: target variables were merged");
                }
                seen.push((*x, *y));
            }
        }
    }
    (a, b, d)
}

#[no_mangle]
#[inline(never)]
pub fn k06_sound() {
    let w = World::new(7);
    let c = context(&w);
    let (g, s) = match sym::choice(3) {
        0 => (con(K::TTB).apply(&[t1(false), t0()]), con(K::TTB).apply(&[t1(false), t1(false)])),
        1 => (Term::eq(w.t.clone(), t1(false), t0()), Term::eq(w.t.clone(), t1(false), t0())),
        _ => (
            if sym::choice(2) == 0 { v(2) } else { Term::and(v(2), v(3)) },
            match sym::choice(3) {
                0 => v(3),
                1 => con(K::TTB).apply(&[t0(), t0()]),
                _ => Term::and(con(K::B), con(K::TB).apply(&[t0()])),
            },
        ),
    };
    let (a, b, d) = try_all(&w, &c, &g, &s);
    sym::check(a == b, "typed and untyped matching disagree on well-typed terms");
    sym::check(!d || a, "match_instance accepts what match_terms rejects");
    if a {
        sym::reach(0);
    } else {
        sym::reach(1);
    }
    sym::observe(a as u64);
}

fn sigma() -> Term {
    match sym::choice(3) {
        0 => con(K::T),
        1 => v(bit()),
        _ => con(K::TT).apply(&[t0()]),
    }
}
/// s(g) is always matched, and the binding is s.
#[no_mangle]
#[inline(never)]
pub fn k06_complete() {
    let w = World::new(7);
    let c = context(&w);
    let eq = sym::choice(2) == 1;
    let (p, q) = (t1(false), t1(false));
    let g = if eq { Term::eq(w.t.clone(), p, q) } else { con(K::TTB).apply(&[p, q]) };
    let s0 = sigma();
    let s1 = if cfg!(vh_thorough) { sigma() } else { t0() };
    // the target's variables are renamed apart only in the binding, so go through fresh names
    let up = g.replace_variables(&[0, 1], &[&v(10), &v(11)]);
    let target = up.replace_variable(10, &s0).replace_variable(11, &s1);
    let (a, b, d) = try_all(&w, &c, &g, &target);
    sym::check(a, "match_terms misses an instance");
    sym::check(b, "match_terms_no_type_check misses an instance");
    sym::check(d, "match_instance misses an instance");
    if !eq {
        let mut m = VariableMap::new();
        m.match_terms(g.as_ref(), target.as_ref(), &c, &c, &w.kc);
        for a in g.iter_atoms() {
            if let Atom::FreeVariable(i) = a {
                let want = if *i == 0 { &s0 } else { &s1 };
                sym::check(m.get_mapping(*i) == Some(want), "match_terms binds a variable to the wrong term");
            }
        }
    }
    sym::reach(0);
    sym::observe(target.atom_count() as u64);
}

/// Function variables.
#[no_mangle]
#[inline(never)]
pub fn k06_function() {
    let w = World::new(7);
    let c = context(&w);
    let g = match sym::choice(2) {
        0 => v(5).apply(&[t1(true)]),
        _ => con(K::TB).apply(&[t1(true)]),
    };
    let s = match sym::choice(3) {
        0 => v(5).apply(&[t1(true)]),
        1 => con(K::TB).apply(&[t1(true)]),
        _ => con(K::TTB).apply(&[t0(), t1(false)]),
    };
    let (a, b, d) = try_all(&w, &c, &g, &s);
    sym::check(a == b, "typed and untyped matching disagree on well-typed terms");
    sym::check(!d || a, "match_instance accepts what match_terms rejects");
    if a {
        sym::reach(0);
    }
    sym::observe(a as u64 | (d as u64) << 1);
}

/// Binders in pattern and target.
#[no_mangle]
#[inline(never)]
pub fn k06_binder() {
    let w = World::new(7);
    let c = context(&w);
    fn q(w: &World) -> Term {
        fn x() -> Term {
            match sym::choice(3) {
                0 => bound(0),
                1 => v(bit()),
                _ => con(K::TT).apply(&[if sym::choice(2) == 0 { bound(0) } else { v(bit()) }]),
            }
        }
        let body = con_at(K::TTB, 0).apply(&[x(), x()]);
        match sym::choice(2) {
            0 => Term::forall(w.t.clone(), body),
            _ => Term::exists(w.t.clone(), body),
        }
    }
    let g = if sym::choice(2) == 0 { q(&w) } else { v(2) };
    let s = q(&w);
    let (a, b, d) = try_all(&w, &c, &g, &s);
    sym::check(a == b, "typed and untyped matching disagree on well-typed terms");
    sym::check(!d || a, "match_instance accepts what match_terms rejects");
    if a {
        sym::reach(0);
    }
    sym::observe(a as u64 | (d as u64) << 1);
}

/// Polymorphic patterns: the type argument is matched together with the values.
#[no_mangle]
#[inline(never)]
pub fn k06_poly() {
    let w = World::poly();
    let c = w.poly_context();
    fn side(w: &World) -> Term {
        match sym::choice(4) {
            0 => con_at(K::P, bit()).apply(&[v(0), v(1 + bit()), v(1 + bit())]),
            1 => con_at(K::P, bit()).apply(&[w.t.clone(), con(K::T), v(3)]),
            2 => con_at(K::P, bit()).apply(&[w.b.clone(), v(4), con(K::B)]),
            _ => {
                let tt = w.fun(&w.t, &w.t);
                con_at(K::P, bit()).apply(&[tt, con(K::TT), v(5)])
            }
        }
    }
    let g = side(&w);
    let s = side(&w);
    let (a, b, d) = try_all(&w, &c, &g, &s);
    sym::check(a == b, "typed and untyped matching disagree when type arguments come first");
    sym::check(!d || a, "match_instance accepts what match_terms rejects");
    if a {
        sym::reach(0);
    }
    sym::observe(a as u64 | (d as u64) << 1);
}

/// Literals, straight and flipped.
#[no_mangle]
#[inline(never)]
pub fn k06_literal() {
    let lit = || {
        if sym::choice(2) == 0 {
            Literal { positive: true, left: con(K::TB).apply(&[t1(false)]), right: tru() }
        } else {
            Literal { positive: true, left: t1(false), right: t0() }
        }
    };
    let g = lit();
    let s = lit();
    let flipped = sym::bool();
    let mut m = VariableMap::new();
    if m.match_literal(&g, &s, flipped) {
        let l = apply_to_term(g.left.as_ref(), &m);
        let r = apply_to_term(g.right.as_ref(), &m);
        let straight = l == s.left && r == s.right;
        let swapped = l == s.right && r == s.left;
        sym::check(straight || swapped, "match_literal: the substitution does not give the target");
        sym::reach(0);
    } else if g.is_signed_term() == s.is_signed_term() && !g.is_signed_term() {
        let mut m2 = VariableMap::new();
        let (x, y) = if flipped { (&s.right, &s.left) } else { (&s.left, &s.right) };
        let pg = con_at(K::TTB, 0).apply(&[g.left.clone(), g.right.clone()]);
        let ps = con_at(K::TTB, 0).apply(&[x.clone(), y.clone()]);
        sym::check(!m2.match_terms_no_type_check(pg.as_ref(), ps.as_ref()), "match_literal misses a match");
    }
}
