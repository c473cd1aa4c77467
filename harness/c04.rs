//! Reordering claims so that support comes first.
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::Term;
use crate::module::ModuleId;
use crate::proof_order::unit_support_order;

pub const HARNESSES: &[(&str, fn())] = &[
    ("c04_order", c04_order),
    ("c04_wide", c04_wide),
    ("c04_equalities", c04_equalities),
    ("c04_long", c04_long),
    ("c04_three", c04_three),
];
const TH: usize = cfg!(vh_thorough) as usize;

#[derive(Clone, Copy, PartialEq, Eq)]
struct L {
    atom: u8,
    positive: bool,
}
fn constant(i: u8) -> Term {
    Term::atom(Atom::Symbol(Symbol::GlobalConstant(ModuleId(0), i as u16)))
}
fn go(claims: &[Vec<L>], literal: &dyn Fn(&L) -> Literal) {
    let n = claims.len();
    let clauses: Vec<Clause> = claims
        .iter()
        .map(|c| Clause { literals: c.iter().map(|l| literal(l)).collect(), context: LocalContext::empty() })
        .collect();
    let result = unit_support_order(&clauses);
    // s supports d
    let mut edge = vec![vec![false; n]; n];
    let mut late = false;
    for s in 0..n {
        for d in 0..n {
            if s == d {
                continue;
            }
            let e = if claims[s].len() == 1 && claims[d].len() > 1 {
                let l = claims[s][0];
                l.positive && claims[d].iter().any(|x| x.atom == l.atom && !x.positive)
            } else if claims[s].len() > 1 && claims[d].len() == 1 {
                claims[s].contains(&claims[d][0])
            } else {
                false
            };
            edge[s][d] = e;
            late |= e && s > d;
        }
    }
    let Some(order) = result else {
        sym::check(!late, "a late supporting claim is not moved");
        sym::reach(0);
        return;
    };
    sym::check(late, "claims are reordered although no supporting claim is late");
    // a permutation
    sym::check(order.len() == n, "claims are lost or repeated");
    let mut at = vec![n; n];
    for (i, o) in order.iter().enumerate() {
        sym::check(*o < n && at[*o] == n, "claims are lost or repeated");
        at[*o] = i;
    }
    // cyclic support cannot be satisfied completely
    let mut reach = edge.clone();
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                let r = reach[i][j] | (reach[i][k] & reach[k][j]);
                reach[i][j] = r;
            }
        }
    }
    let cyclic = (0..n).any(|i| reach[i][i]);
    for s in 0..n {
        for d in 0..n {
            if edge[s][d] && (s > d || !cyclic) {
                sym::check(at[s] < at[d], "a supporting claim comes after the claim it supports");
            }
        }
    }
    // a claim that was moved in front of an earlier one supports it
    for i in 0..n - 1 {
        let (a, b) = (order[i], order[i + 1]);
        if a > b {
            sym::check(edge[a][b], "unrelated claims are swapped");
        }
    }
    sym::reach(if cyclic { 2 } else { 1 });
}
fn claims(n: usize, atoms: u8, long: usize) -> Vec<Vec<L>> {
    let mut r = vec![];
    for _ in 0..n {
        let k = 1 + sym::choice(long);
        r.push((0..k).map(|_| L { atom: sym::below(atoms), positive: sym::bool() }).collect());
    }
    r
}
fn prop(l: &L) -> Literal {
    Literal::from_signed_term(constant(l.atom), l.positive)
}

/// Claims of one or two propositions.
#[no_mangle]
#[inline(never)]
pub fn c04_order() {
    let c = claims(4, 2, 2);
    go(&c, &prop);
}

/// Three claims over more propositions.
#[no_mangle]
#[inline(never)]
pub fn c04_wide() {
    let c = claims(3, 3, 2 + TH);
    go(&c, &prop);
}

/// A claim of three (four) propositions among single ones.
#[no_mangle]
#[inline(never)]
pub fn c04_three() {
    let lit = || L { atom: sym::below(3), positive: sym::bool() };
    let at = sym::choice(3);
    let mut c = vec![];
    for i in 0..3 {
        let k = if i == at { 3 + TH } else { 1 };
        c.push((0..k).map(|_| lit()).collect());
    }
    go(&c, &prop);
}

/// Claims that are equations.
#[no_mangle]
#[inline(never)]
pub fn c04_equalities() {
    let c = claims(3, 3, 2);
    go(&c, &|l| Literal { positive: l.positive, left: constant(l.atom), right: constant(9) });
}

/// Five claims, the propositions chosen so that support chains arise.
#[no_mangle]
#[inline(never)]
pub fn c04_long() {
    let mut c = vec![];
    for _ in 0..5 {
        let p = |a: u8, positive: bool| L { atom: a, positive };
        c.push(match sym::choice(5 + TH) {
            0 => vec![p(0, true)],
            1 => vec![p(0, false), p(1, true)],
            2 => vec![p(1, true)],
            3 => vec![p(2, true), p(0, true)],
            4 => vec![p(3, true)],
            _ => vec![p(1, false), p(0, true)],
        });
    }
    go(&c, &prop);
}
