//! Term normalization.
use super::gen::*;
use super::model::{Model, TB, TT};
use super::sym;
use crate::kernel::literal::Literal;
use crate::kernel::term::{Decomposition, Term, TermRef};
use crate::kernel::term_normalization::*;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k09_bool", k09_bool),
    ("k09_redex", k09_redex),
    ("k09_lambda", k09_lambda),
    ("k09_polarity", k09_polarity),
    ("k09_clause", k09_clause),
];
const TH: usize = cfg!(vh_thorough) as usize;
const LOGIC: G = G { conn: true, quant: true, redex: false, ite: false, vars: true, two: true, e: false };

/// No reducible shape is left anywhere.
fn irreducible(t: TermRef) -> bool {
    match t.decompose() {
        Decomposition::Atom(_) => true,
        Decomposition::Application(f, a) => !f.is_lambda() && irreducible(f) && irreducible(a),
        Decomposition::Pi(a, b) | Decomposition::Lambda(a, b) | Decomposition::ForAll(a, b) | Decomposition::Exists(a, b) => {
            irreducible(a) && irreducible(b)
        }
    }
}
fn same_value(w: &World, t: &Term, n: &Term) {
    let mut m = Model::new(w, 2, 2);
    let vt = var_env(&mut m);
    let a = m.value(t, &vt);
    let b = m.value(n, &vt);
    sym::check(a.0 == b.0, "normalization changes the type");
    sym::check(a.1 == b.1, "normalization changes the value");
}
fn go(w: &World, t: &Term) {
    let n = normalize_term(t);
    sym::check(n.validate_structure_impl(), "malformed term");
    sym::check(normalize_term(&n) == n, "normalizing again changes the term");
    sym::check(irreducible(n.as_ref()), "a beta redex is left");
    same_value(w, t, &n);
    sym::reach(0);
    sym::observe(n.atom_count() as u64);
}

/// Connectives, equalities and quantifiers.
#[no_mangle]
#[inline(never)]
pub fn k09_bool() {
    let w = World::new(7);
    let t = LOGIC.term(&w, S::B, 2 + TH, &mut vec![]);
    go(&w, &t);
    let b = beta_reduce_subterms(&t);
    sym::check(b == t, "beta reduction changes a term without redexes");
}

/// Lambda redexes, also nested and applied to two arguments.
#[no_mangle]
#[inline(never)]
pub fn k09_redex() {
    let w = World::new(7);
    let g = G { conn: false, quant: false, redex: true, ite: false, vars: true, two: true, e: false };
    let t = match sym::choice(3) {
        0 => g.term(&w, S::B, 2, &mut vec![]),
        1 => {
            let f = Term::lambda(w.t.clone(), Term::lambda(w.t.clone(), g.term(&w, S::B, 1, &mut vec![S::T, S::T])));
            f.apply(&[g.leaf(S::T, &[]), g.leaf(S::T, &[])])
        }
        _ => {
            // the function itself comes from a redex: (lambda f. f u) (lambda x. t)
            let inner = Term::lambda(w.t.clone(), g.term(&w, S::B, 1, &mut vec![S::T]));
            let ft = w.fun(&w.t, &w.b);
            Term::lambda(ft, bound(0).apply(&[g.leaf(S::T, &[])])).apply(&[inner])
        }
    };
    go(&w, &t);
    let b = beta_reduce_subterms(&t);
    sym::check(irreducible(b.as_ref()), "a beta redex is left");
    sym::check(beta_reduce_subterms(&b) == b, "beta reducing again changes the term");
    same_value(&w, &t, &b);
}

/// Lambda abstractions: eta reduction, equality of functions.
#[no_mangle]
#[inline(never)]
pub fn k09_lambda() {
    let w = World::new(7);
    let g = G { conn: TH == 1, quant: false, redex: false, ite: false, vars: true, two: true, e: false };
    fn eta(w: &World, g: &G, bts: &mut Vec<S>) -> Term {
        bts.push(S::T);
        let b = match sym::choice(6) {
            0 => g.term(w, S::B, 1, bts),
            1 => Term::not(con(K::TB).apply(&[g.leaf(S::T, bts)])),
            2 => con(K::TTB).apply(&[con_at(K::TT, 0).apply(&[g.leaf(S::T, bts)]), g.leaf(S::T, bts)]),
            3 => Term::eq(w.t.clone(), con_at(K::TT, 0).apply(&[g.leaf(S::T, bts)]), g.leaf(S::T, bts)),
            4 => ite(w.b.clone(), con_at(K::TB, 0).apply(&[g.leaf(S::T, bts)]), con_at(K::B, 0), con_at(K::TB, 1).apply(&[g.leaf(S::T, bts)])),
            _ => Term::eq(w.t.clone(), g.leaf(S::T, bts), g.leaf(S::T, bts)),
        };
        bts.pop();
        Term::lambda(w.t.clone(), b)
    }
    let ft = w.fun(&w.t, &w.b);
    let t = match sym::choice(5) {
        4 => {
            let bts = &[S::T];
            let a = match sym::choice(2) {
                0 => g.leaf(S::T, bts),
                _ => con_at(K::TT, 0).apply(&[g.leaf(S::T, bts)]),
            };
            let f = Term::lambda(w.t.clone(), ite(w.t.clone(), con_at(K::B, 0), a, g.leaf(S::T, bts)));
            Term::lambda(w.t.clone(), Term::eq(w.fun(&w.t, &w.t), f, con_at(K::TT, 1)))
        }
        0 => eta(&w, &g, &mut vec![]),
        1 => Term::eq(ft, eta(&w, &g, &mut vec![]), con(K::TB)),
        2 => Term::lambda(w.t.clone(), Term::lambda(w.t.clone(), con(K::TTB).apply(&[g.leaf(S::T, &[S::T, S::T]), g.leaf(S::T, &[S::T, S::T])]))),
        _ => Term::forall(w.t.clone(), Term::eq(ft, eta(&w, &g, &mut vec![S::T]), con(K::TTB).apply(&[bound(0)]))),
    };
    go(&w, &t);
}

/// Clause normal form under a polarity.
#[no_mangle]
#[inline(never)]
pub fn k09_polarity() {
    let w = World::new(7);
    let t = LOGIC.term(&w, S::B, 2 + TH, &mut vec![]);
    let p = sym::choice(2) == 1;
    let n = normalize_clause_term_with_polarity(&t, p);
    let (s, sp) = normalize_signed_clause_term(&t, p);
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let v = m.value(&t, &vt);
    let a = m.value(&n, &vt);
    let b = m.value(&s, &vt);
    sym::check(a.0 == TB && b.0 == TB, "normalization changes the type");
    sym::check((a.1 == 1) == ((v.1 == 1) == p), "clause normal form changes the value");
    sym::check(((b.1 == 1) == sp) == ((v.1 == 1) == p), "signed clause normal form changes the value");
    sym::reach(0);
    sym::observe(n.atom_count() as u64);
}

/// Every literal of a clause.
#[no_mangle]
#[inline(never)]
pub fn k09_clause() {
    let w = World::new(7);
    let g = G { redex: true, vars: true, two: true, ..PLAIN };
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b]);
    let l1 = Literal { positive: sym::bool(), left: g.term(&w, S::T, 1, &mut vec![]), right: g.leaf(S::T, &[]) };
    let l2 = Literal { positive: sym::bool(), left: LOGIC.term(&w, S::B, 1, &mut vec![]), right: tru() };
    let cl = raw_clause(vec![l1, l2], &c);
    let n = normalize_clause_subterms(&cl);
    let b = beta_reduce_clause_subterms(&cl);
    let mut m = Model::new(&w, 2, 2);
    let v = m.clause(&cl);
    sym::check(n.literals.len() == 2 && b.literals.len() == 2, "a literal was lost");
    sym::check(m.clause(&n) == v, "normalizing subterms changes the clause");
    sym::check(m.clause(&b) == v, "beta reducing subterms changes the clause");
    sym::reach(0);
}
