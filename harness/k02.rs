//! Equality resolution, equality factoring, injectivity and extensionality.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::checker::Checker;
use crate::kernel::clause::Clause;
use crate::kernel::inference::*;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k02_resolve", k02_resolve),
    ("k02_resolve_bool", k02_resolve_bool),
    ("k02_resolve_two", k02_resolve_two),
    ("k02_factor", k02_factor),
    ("k02_inject", k02_inject),
    ("k02_extend", k02_extend),
    ("k02_extend_two", k02_extend_two),
    ("k02_poly", k02_poly),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// Each kind of step, as raw literals with their context.
fn steps(w: &World, c: &Clause) -> Vec<(u32, Vec<Literal>, LocalContext)> {
    let mut v = vec![];
    for (l, x, _) in find_equality_resolutions(c, &w.kc) {
        v.push((0, l, x));
    }
    for (l, x, _) in find_equality_factorings(c, &w.kc) {
        v.push((1, l, x));
    }
    for l in c.find_injectivities() {
        v.push((2, l, c.get_local_context().clone()));
    }
    if let Some(l) = c.find_extensionality(&w.kc) {
        v.push((3, l, c.get_local_context().clone()));
    }
    v
}
fn go(w: &World, m: &mut Model, ne: u64, c: &Clause) {
    let orig = m.clause(c);
    let checker = Checker::new();
    let mut results = vec![];
    for (kind, l, x) in steps(w, c) {
        sym::reach(kind);
        if ne > 0 {
            let v = m.literals(&l, &x);
            sym::check(orig <= v, "a step does not follow from the clause");
            let n = Clause::new(l.clone(), &x);
            let v = m.clause(&n);
            sym::check(orig <= v, "a normalized step does not follow from the clause");
        }
        // what the checker takes over
        let got = if kind == 3 {
            Some(Clause::new(l, &x))
        } else {
            checker.canonical_clause_for_trace(&Clause::from_literals_unnormalized(l, &x), &w.kc)
        };
        if let Some(r) = got {
            let v = m.clause(&r);
            sym::check(orig <= v, "a step the checker takes does not follow from the clause");
            let ok = match kind {
                0 => checker.equality_resolution_derives_for_trace(c, &r, &w.kc),
                1 => checker.equality_factoring_derives_for_trace(c, &r, &w.kc),
                2 => checker.injectivity_derives_for_trace(c, &r, &w.kc),
                _ => checker.extensionality_derives_for_trace(c, &r, &w.kc),
            };
            sym::check(ok, "a step's result is refused");
            results.push(r);
        }
    }
    // the lists of plain results
    if ne > 0 {
        let mut all = equality_resolutions(c, &w.kc);
        all.extend(equality_factorings(c, &w.kc));
        all.extend(c.injectivities());
        for r in all {
            let v = m.clause(&r);
            sym::check(orig <= v, "a listed result does not follow from the clause");
        }
    }
    sym::observe(results.len() as u64);
}
fn run(w: &World, lits: Vec<Literal>, c: &LocalContext) {
    let clause = Clause::new(lits, c);
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let mut m = Model::new(w, 2, ne);
    go(w, &mut m, ne, &clause);
}
/// Terms of type T: constants, variables, applications, values at the possibly empty type.
fn t1(w: &World, d: usize) -> Term {
    G { conn: false, quant: false, redex: false, ite: false, vars: true, two: true, e: true }.term(w, S::T, d, &mut vec![])
}
fn side(w: &World) -> Option<Literal> {
    match sym::choice(3) {
        0 => None,
        1 => Some(Literal::positive(con_at(K::EB, 0).apply(&[var2(4)]))),
        _ => Some(Literal::new(sym::choice(2) == 0, var2(0), t1(w, 0))),
    }
}

/// Inequalities of terms with variables of T and of the possibly empty type.
#[no_mangle]
#[inline(never)]
pub fn k02_resolve() {
    let w = World::new(9);
    one_constant();
    let a = t1(&w, 1 + TH);
    let b = t1(&w, 1);
    let mut lits = vec![Literal::not_equals(a, b)];
    lits.extend(side(&w));
    run(&w, lits, &e_context(&w));
}

/// Variables of type Bool and of the possibly empty type under an inequality.
#[no_mangle]
#[inline(never)]
pub fn k02_resolve_bool() {
    let w = World::new(9);
    one_constant();
    let g = G { conn: TH == 1, quant: false, redex: false, ite: false, vars: true, two: false, e: true };
    let l = match sym::choice(3) {
        0 => Literal::negative(g.leaf(S::B, &[])),
        1 => Literal::not_equals(var2(2), g.term(&w, S::B, 1, &mut vec![])),
        _ => Literal::not_equals(var2(4), var2(4)),
    };
    let mut lits = vec![l];
    lits.extend(match sym::choice(4) {
        0 => vec![],
        1 => vec![Literal::positive(var2(2))],
        2 => vec![Literal::positive(con_at(K::EB, 0).apply(&[var2(4)]))],
        _ => vec![Literal::negative(con_at(K::TB, 0).apply(&[var2(0)])), Literal::positive(var2(2))],
    });
    run(&w, lits, &e_context(&w));
}

/// Two inequalities sharing variables.
#[no_mangle]
#[inline(never)]
pub fn k02_resolve_two() {
    let w = World::new(9);
    one_constant();
    let g = |w: &World| t1(w, 1);
    let lits = vec![
        Literal::not_equals(var2(0), g(&w)),
        Literal::not_equals(con(K::TTT).apply(&[var2(0), var2(0)]), t1(&w, TH)),
    ];
    run(&w, lits, &e_context(&w));
}

/// Two positive equalities.
#[no_mangle]
#[inline(never)]
pub fn k02_factor() {
    let w = World::new(9);
    one_constant();
    let lits = vec![Literal::equals(t1(&w, 1), t1(&w, 0)), Literal::equals(t1(&w, TH), t1(&w, 1))];
    run(&w, lits, &e_context(&w));
}

/// Inequalities of applications of the same or different functions.
#[no_mangle]
#[inline(never)]
pub fn k02_inject() {
    let w = World::new(9);
    let leaf = || match sym::choice(3) {
        0 => con_at(K::T, 0),
        1 => Term::new_variable(0),
        _ => con_at(K::ET, 0).apply(&[Term::new_variable(4)]),
    };
    let app = |w: &World| match sym::choice(4) {
        0 => con(K::TT).apply(&[t1(w, TH)]),
        1 => con(K::TTT).apply(&[leaf(), leaf()]),
        2 => con_at(K::TTT, 0).apply(&[con_at(K::TT, 0).apply(&[leaf()]), leaf()]),
        _ => con(K::ET).apply(&[var2(4)]),
    };
    let l = match sym::choice(4) {
        3 => {
            let i = || ite(w.t.clone(), con(K::B), con(K::TT).apply(&[con_at(K::T, 0)]), con(K::T));
            Literal::not_equals(i(), i())
        }
        0 => {
            let f = |_: &World| con(K::TTB).apply(&[leaf(), leaf()]);
            Literal::not_equals(f(&w), f(&w))
        }
        1 => Literal::not_equals(con(K::TTT).apply(&[leaf()]), con(K::TTT).apply(&[leaf()])),
        _ => Literal::not_equals(app(&w), app(&w)),
    };
    let mut lits = vec![l];
    if sym::choice(2) == 1 {
        lits.push(Literal::positive(con_at(K::EB, 0).apply(&[var2(4)])));
    }
    run(&w, lits, &e_context(&w));
}

/// f(.., x) = g(.., x) at every arity up to two, with other literals that may mention x.
#[no_mangle]
#[inline(never)]
pub fn k02_extend() {
    let w = World::new(9);
    let tt = w.fun(&w.t, &w.t);
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b, &w.e, &w.e, &tt, &tt]);
    let arg = || if sym::choice(3) == 0 { con_at(K::T, 0) } else { var2(0) };
    let f = || match sym::choice(5) {
        0 => con(K::TT).apply(&[var2(0)]),
        1 => con(K::TTT).apply(&[arg(), var2(0)]),
        2 => con(K::ET).apply(&[var2(4)]),
        3 => con_at(K::TT, 0).apply(&[con(K::TT).apply(&[var2(0)])]),
        _ => var2(6).apply(&[var2(0)]),
    };
    let mut lits = vec![Literal::equals(f(), f())];
    match sym::choice(4) {
        0 => {}
        1 => lits.push(Literal::positive(con_at(K::TB, 0).apply(&[var2(0)]))),
        2 => lits.push(Literal::positive(con_at(K::EB, 0).apply(&[var2(4)]))),
        _ => lits.push(Literal::not_equals(con_at(K::T, 1), var2(0))),
    }
    run(&w, lits, &c);
}

/// Propositions and functions of two arguments.
#[no_mangle]
#[inline(never)]
pub fn k02_extend_two() {
    let w = World::new(9);
    let tt = w.fun(&w.t, &w.t);
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b, &w.e, &w.e, &tt, &tt]);
    let p = || match sym::choice(3) {
        0 => con(K::TTB).apply(&[var2(0), var2(0)]),
        1 => con(K::TB).apply(&[var2(0)]),
        _ => con(K::EB).apply(&[var2(4)]),
    };
    let l = match sym::choice(2) {
        0 => Literal::equals(p(), p()),
        _ => Literal::equals(con(K::TTT).apply(&[var2(0), var2(0)]), con(K::TTT).apply(&[var2(0), var2(0)])),
    };
    let l2 = match sym::choice(3) {
        0 => Literal::equals(con_at(K::TT, 0).apply(&[var2(0)]), con_at(K::TT, 1).apply(&[var2(0)])),
        1 => Literal::new(sym::choice(2) == 0, var2(0), con_at(K::T, 0)),
        _ => Literal::negative(con_at(K::EB, 0).apply(&[var2(4)])),
    };
    run(&w, vec![l, l2], &c);
}

/// A polymorphic predicate and a type variable: x0: Type, x1, x2: x0.
#[no_mangle]
#[inline(never)]
pub fn k02_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let v = || Term::new_variable(1 + sym::choice(2) as u16);
    let x0 = Term::new_variable(0);
    let p = || con(K::P).apply(&[x0.clone(), v(), v()]);
    let l = match sym::choice(4) {
        0 => Literal::not_equals(v(), v()),
        1 => Literal::not_equals(p(), p()),
        2 => Literal::equals(p(), p()),
        _ => Literal::not_equals(Term::new_variable(4), p()),
    };
    let l2 = match sym::choice(3) {
        0 => vec![],
        1 => vec![Literal::positive(p())],
        _ => vec![Literal::negative(con_at(K::TB, 0).apply(&[Term::new_variable(3)]))],
    };
    let mut lits = vec![l];
    lits.extend(l2);
    let clause = Clause::new(lits, &c);
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let mut m = Model::new_poly(&w, 2, ne);
    go(&w, &mut m, ne, &clause);
}
