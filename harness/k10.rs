//! Substitution under binders, decided against the value of the result in every interpretation.
use super::gen::*;
use super::model::{Model, TB, TT};
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::term::{Decomposition, PathStep, Term, TermRef};

pub const HARNESSES: &[(&str, fn())] = &[
    ("k10_open", k10_open),
    ("k10_subst", k10_subst),
    ("k10_shift", k10_shift),
    ("k10_free", k10_free),
    ("k10_bind", k10_bind),
    ("k10_subterm", k10_subterm),
    ("k10_path", k10_path),
    ("k10_queries", k10_queries),
];
const D: usize = if cfg!(vh_thorough) { 3 } else { 2 };
const BODY: G = G { conn: false, quant: true, redex: true, ite: false, vars: false, two: true, e: false };

fn wf(t: &Term) {
    sym::check(t.validate_structure_impl(), "malformed term");
}

/// open(body, r) means: body with the outermost bound variable standing for r.
#[no_mangle]
#[inline(never)]
pub fn k10_open() {
    let w = World::new(7);
    let body = BODY.term(&w, S::B, D, &mut vec![S::T, S::T]);
    let r = G { quant: false, redex: true, vars: false, ..BODY }.term(&w, S::T, 1, &mut vec![S::T]);
    let res = body.open_bound(&r);
    wf(&res);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let u = m.fresh(TT);
    let rv = m.value_under(&r, &vt, &[TT], &[u]).1;
    let want = m.value_under(&body, &vt, &[TT, TT], &[u, rv]);
    let got = m.value_under(&res, &vt, &[TT], &[u]);
    sym::check(want == got, "opening a binder body gives a term with another value");
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

/// substitute(i, r): bound variable i stands for r, everything else keeps its meaning.
#[no_mangle]
#[inline(never)]
pub fn k10_subst() {
    let w = World::new(7);
    let body = BODY.term(&w, S::B, D, &mut vec![S::T, S::T]);
    let r = G { quant: false, redex: cfg!(vh_thorough), vars: false, ..BODY }.term(&w, S::T, 1, &mut vec![S::T, S::T]);
    let i = sym::choice(2);
    let res = body.substitute_bound(i as u16, &r);
    wf(&res);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let s = [m.fresh(TT), m.fresh(TT)];
    let rv = m.value_under(&r, &vt, &[TT, TT], &s).1;
    let mut s2 = s;
    s2[1 - i] = rv;
    let want = m.value_under(&body, &vt, &[TT, TT], &s2);
    let got = m.value_under(&res, &vt, &[TT, TT], &s);
    sym::check(want == got, "substituting a bound variable gives a term with another value");
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

/// shift(c, n): n new binders at depth c.
#[no_mangle]
#[inline(never)]
pub fn k10_shift() {
    let w = World::new(7);
    let body = BODY.term(&w, S::B, D, &mut vec![S::T, S::T]);
    let c = sym::choice(3);
    let n = 1 + sym::choice(2);
    let up = body.shift_bound(c as u16, n as i16);
    wf(&up);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let s = vec![m.fresh(TT), m.fresh(TT)];
    let mut big = s.clone();
    let mut bigt = vec![TT, TT];
    for _ in 0..n {
        let v = m.fresh(TB);
        big.insert(2 - c, v);
        bigt.insert(2 - c, TB);
    }
    let want = m.value_under(&body, &vt, &[TT, TT], &s);
    let got = m.value_under(&up, &vt, &bigt, &big);
    sym::check(want == got, "shifting bound variables gives a term with another value");
    let down = up.shift_bound(c as u16, -(n as i16));
    sym::check(down == body, "shifting up and down again is the identity");
    sym::reach(0);
    sym::observe(up.atom_count() as u64);
}

/// Replacing free variables by closed terms, one and several.
#[no_mangle]
#[inline(never)]
pub fn k10_free() {
    let w = World::new(7);
    let g = G { vars: true, ..BODY };
    let t = g.term(&w, S::B, D, &mut vec![]);
    // replacements do not mention the variables still to be replaced
    let r = G { vars: false, quant: false, ..BODY }.term(&w, S::T, 1, &mut vec![]);
    let q = G { vars: false, quant: false, ..BODY }.leaf(S::T, &[]);
    let res = t.replace_variables(&[0, 1], &[&r, &q]);
    wf(&res);
    sym::check(!res.has_variable(0) && !res.has_variable(1), "a replaced variable is still there");
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let got = m.value(&res, &vt);
    let rv = m.value(&r, &vt).1;
    let qv = m.value(&q, &vt).1;
    m.set_var(0, rv);
    m.set_var(1, qv);
    let want = m.value(&t, &vt);
    sym::check(want == got, "replacing free variables gives a term with another value");
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

/// Binding the first n free variables: x_i becomes the bound variable of the i-th new binder.
#[no_mangle]
#[inline(never)]
pub fn k10_bind() {
    let w = World::new(7);
    let g = G { vars: true, two: cfg!(vh_thorough), ..BODY };
    let t = g.term(&w, S::B, D, &mut vec![S::T]);
    let n = 1 + sym::choice(2);
    let res = t.convert_free_to_bound(n as u16);
    wf(&res);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let u = m.fresh(TT);
    let want = m.value_under(&t, &vt, &[TT], &[u]);
    let mut vals = vec![u];
    for i in 0..n {
        let v = m.var(i);
        vals.push(v);
    }
    let got = m.value_under(&res, &vt, &vec![TT; n + 1], &vals);
    sym::check(want == got, "binding free variables gives a term with another value");
    for i in 0..n {
        sym::check(!res.has_variable(i as u16), "a bound variable is still free");
    }
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

/// Replacing a closed subterm c by r: as if c had r's value.
#[no_mangle]
#[inline(never)]
pub fn k10_subterm() {
    let w = World::new(7);
    let t = G { vars: true, two: cfg!(vh_thorough), ..BODY }.term(&w, S::B, D, &mut vec![]);
    let i = sym::choice(2);
    let old = con_at(K::T, i as u16);
    let r = G { vars: true, quant: false, redex: false, ..BODY }.term(&w, S::T, 1, &mut vec![]);
    let res = t.replace_subterm(&old, &r);
    wf(&res);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let got = m.value(&res, &vt);
    let rv = m.value(&r, &vt).1;
    m.consts[2 * (K::T as usize) + i] = rv;
    let want = m.value(&t, &vt);
    sym::check(want == got, "replacing a subterm gives a term with another value");
    let a = Atom::Symbol(crate::kernel::symbol::Symbol::GlobalConstant(MODULE, (2 * (K::T as u16)) + i as u16));
    if !r.iter_atoms().any(|x| *x == a) {
        sym::check(!res.iter_atoms().any(|x| *x == a), "an occurrence of the replaced subterm is left");
    }
    let b = t.replace_atom(&a, &Atom::FreeVariable(7));
    sym::check(b == t.replace_subterm(&old, &Term::new_variable(7)), "replacing an atom differs from replacing it as a subterm");
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

/// Positions: reading what was written, and nothing else changed.
#[no_mangle]
#[inline(never)]
pub fn k10_path() {
    let w = World::new(7);
    let g = G { vars: false, quant: false, redex: false, ..BODY };
    let t = con(K::TTB).apply(&[g.term(&w, S::T, 2, &mut vec![]), g.term(&w, S::T, 1, &mut vec![])]);
    let subs = t.rewritable_subterms_with_paths();
    sym::check(subs.len() == 2 * t.atom_count() as usize - 1, "every node is listed once");
    let k = sym::choice(subs.len());
    let (path, sub) = &subs[k];
    sym::check(t.get_term_at_path(path).as_ref() == Some(sub), "a listed subterm is the subterm at its path");
    let r = con(K::TT).apply(&[con(K::TT)]);
    let res = t.replace_at_path(path, r.clone());
    wf(&res);
    sym::check(res.get_term_at_path(path) == Some(r), "reading a replaced position gives the replacement");
    // undoing restores the term; positions elsewhere are untouched
    sym::check(res.replace_at_path(path, sub.clone()) == t, "putting the old subterm back restores the term");
    for (p, s) in &subs {
        let related = p.len() >= path.len() && p[..path.len()] == path[..] || path.len() >= p.len() && path[..p.len()] == p[..];
        if !related {
            sym::check(res.get_term_at_path(p).as_ref() == Some(s), "another position changed");
        }
    }
    sym::reach(0);
    sym::observe(res.atom_count() as u64);
}

fn dangling(t: TermRef, d: u16, out: &mut Vec<u16>) {
    match t.decompose() {
        Decomposition::Atom(Atom::BoundVariable(i)) => {
            if *i >= d {
                out.push(*i - d);
            }
        }
        Decomposition::Atom(_) => {}
        Decomposition::Application(f, a) => {
            dangling(f, d, out);
            dangling(a, d, out);
        }
        Decomposition::Pi(a, b) | Decomposition::Lambda(a, b) | Decomposition::ForAll(a, b) | Decomposition::Exists(a, b) => {
            dangling(a, d, out);
            dangling(b, d + 1, out);
        }
    }
}

/// Queries about bound variables agree with a direct count.
#[no_mangle]
#[inline(never)]
pub fn k10_queries() {
    let w = World::new(7);
    let t = G { vars: true, ..BODY }.term(&w, S::B, D, &mut vec![S::T, S::T]);
    let mut out = vec![];
    dangling(t.as_ref(), 0, &mut out);
    sym::check(t.has_escaping_bound_variable() == !out.is_empty(), "has_escaping_bound_variable");
    for i in 0..3u16 {
        sym::check(t.references_bound(i) == out.contains(&i), "references_bound");
    }
    let mut n = 0u16;
    for a in t.iter_atoms() {
        if let Atom::FreeVariable(i) = a {
            n = n.max(*i + 1);
        }
    }
    sym::check(t.least_unused_variable() == n, "least_unused_variable");
    sym::check(t.has_any_variable() == (n > 0), "has_any_variable");
    sym::reach(0);
    sym::observe(n as u64);
}
