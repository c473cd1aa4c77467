//! Clause normalization.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

pub const HARNESSES: &[(&str, fn())] =
    &[("k08_meaning", k08_meaning), ("k08_order", k08_order), ("k08_three", k08_three), ("k08_bool", k08_bool)];

fn leaf_t() -> Term {
    if sym::choice(2) == 0 {
        con(K::T)
    } else {
        var2(0)
    }
}
fn term_t(depth: usize) -> Term {
    match sym::choice(if depth == 0 { 1 } else { 3 }) {
        0 => leaf_t(),
        1 => con(K::TT).apply(&[term_t(depth - 1)]),
        _ => con(K::TTT).apply(&[leaf_t(), leaf_t()]),
    }
}
fn atom_b() -> Term {
    match sym::choice(4) {
        0 => con(K::B),
        1 => var2(2),
        2 => con(K::TB).apply(&[leaf_t()]),
        _ => con(K::TTB).apply(&[leaf_t(), leaf_t()]),
    }
}
/// Sides as given: Literal is built without orienting it.
fn lit(positive: bool, left: Term, right: Term) -> Literal {
    Literal { positive, left, right }
}
fn literal() -> Literal {
    let p = sym::bool();
    match sym::choice(3) {
        0 => lit(p, atom_b(), tru()),
        1 => lit(p, leaf_t(), leaf_t()),
        _ => lit(p, con(K::TT).apply(&[leaf_t()]), leaf_t()),
    }
}
fn context(w: &World) -> LocalContext {
    ctx(&[&w.t, &w.t, &w.b, &w.b])
}

/// Two literals: same truth value in every interpretation; normalizing again changes nothing.
#[no_mangle]
#[inline(never)]
pub fn k08_meaning() {
    let w = World::new(7);
    let c = context(&w);
    let lits = vec![literal(), literal()];
    let n = Clause::new(lits.clone(), &c);
    sym::check(n.normalized() == n, "normalizing twice equals normalizing once");
    check_vars(&n);
    let mut m = Model::new(&w, 2, 2);
    let before = m.literals(&lits, &c);
    let after = m.clause(&n);
    sym::check(before == after, "normalization preserves truth");
    if n.is_tautology() {
        sym::reach(1);
        sym::check(before == 1, "a clause reported as a tautology is true");
    }
    sym::reach(0);
    sym::observe(n.literals.len() as u64);
}

/// Literal order and side order do not matter.
#[no_mangle]
#[inline(never)]
pub fn k08_order() {
    let w = World::new(7);
    let c = context(&w);
    let a = literal();
    let b = literal();
    let fa = lit(a.positive, a.right.clone(), a.left.clone());
    let n1 = Clause::new(vec![a.clone(), b.clone()], &c);
    let n2 = Clause::new(vec![b, fa], &c);
    sym::check(n1 == n2, "literal order and side order do not matter");
    sym::reach(0);
    sym::observe(n1.literals.len() as u64);
}

/// Three literals over four variables of one type: idempotence, order, variable numbering.
#[no_mangle]
#[inline(never)]
pub fn k08_three() {
    let w = World::new(7);
    let c = ctx(&[&w.t, &w.t, &w.t, &w.t]);
    fn v() -> Term {
        Term::new_variable((sym::u8() & 3) as u16)
    }
    fn literal(k: usize) -> Literal {
        match sym::choice(k) {
            0 => lit(true, con_at(K::TTB, 0).apply(&[v(), v()]), tru()),
            _ => lit(true, v(), v()),
        }
    }
    let (x, y, z) = (literal(1), literal(2), if cfg!(vh_thorough) { literal(2) } else { lit(true, v(), v()) });
    let n = Clause::new(vec![x.clone(), y.clone(), z.clone()], &c);
    sym::check(n.normalized() == n, "normalizing twice equals normalizing once");
    let n2 = Clause::new(vec![z, x, y], &c);
    sym::check(n == n2, "literal order and side order do not matter");
    check_vars(&n);
    sym::reach(0);
    sym::observe(n.literals.len() as u64);
}

/// Variables are numbered consecutively and each one is used.
fn check_vars(n: &Clause) {
    let k = n.context.len();
    let mut used = vec![false; k];
    for l in &n.literals {
        for a in l.iter_atoms() {
            if let crate::kernel::atom::Atom::FreeVariable(i) = a {
                sym::check((*i as usize) < k, "variable outside the context");
                used[*i as usize] = true;
            }
        }
    }
    sym::check(used.iter().all(|u| *u), "normalization leaves no unused variable");
}

/// Logical structure inside one literal.
#[no_mangle]
#[inline(never)]
pub fn k08_bool() {
    let w = World::new(7);
    let c = context(&w);
    fn sub(d: usize) -> Term {
        match sym::choice(if d == 0 { 1 } else { 5 }) {
            0 => atom_b(),
            1 => Term::not(sub(d - 1)),
            2 => Term::eq(Term::bool_type(), atom_b(), sub(d - 1)),
            3 => Term::and(atom_b(), atom_b()),
            _ => Term::or(atom_b(), atom_b()),
        }
    }
    let lits = vec![lit(sym::bool(), sub(1), if sym::choice(2) == 0 { tru() } else { atom_b() })];
    let n = Clause::new(lits.clone(), &c);
    sym::check(n.normalized() == n, "normalizing twice equals normalizing once");
    let mut m = Model::new(&w, 2, 2);
    let before = m.literals(&lits, &c);
    let after = m.clause(&n);
    sym::check(before == after, "normalization preserves truth");
    if n.is_tautology() {
        sym::check(before == 1, "a clause reported as a tautology is true");
    }
    sym::reach(0);
    sym::observe(n.literals.len() as u64);
}
