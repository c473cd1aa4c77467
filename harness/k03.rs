//! The checker: whatever it accepts is true wherever everything it was told is true.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::checker::{Checker, StepReason};
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k03_ground", k03_ground),
    ("k03_congruence", k03_congruence),
    ("k03_logic", k03_logic),
    ("k03_vars", k03_vars),
    ("k03_empty", k03_empty),
    ("k03_inhabit", k03_inhabit),
    ("k03_exists_free", k03_exists_free),
    ("k03_functions", k03_functions),
    ("k03_poly", k03_poly),
    ("k03_negation", k03_negation),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// Tell the checker `told`, then ask for `asked`, also in between.
fn go(w: &World, mut m: Model, told: &[Clause], asked: &[Clause]) {
    let mut c = Checker::new();
    let mut all = 1;
    for t in told {
        let v = m.clause(t);
        all &= v;
        c.insert_clause(t, StepReason::PreviousClaim, &w.kc);
    }
    if c.has_contradiction() {
        sym::check(all == 0, "a contradiction is reported for clauses that are true together");
        sym::reach(0);
        sym::observe(1);
        return;
    }
    let mut n = 0u64;
    for a in asked {
        if c.check_clause(a, &w.kc).is_some() {
            let v = m.clause(a);
            sym::check(all <= v, "an accepted clause does not follow");
            sym::reach(1);
            n = n * 2 + 1;
        } else {
            sym::reach(2);
            n = n * 2;
        }
    }
    // asking adds nothing
    sym::check(!c.has_contradiction() || all == 0, "a contradiction appears by asking");
    // everything that was inserted on the way follows
    for i in 0..c.inserted_len() {
        let k = c.inserted_clause(i).unwrap().clause;
        let v = m.clause(&k);
        sym::check(all <= v, "a clause derived on insertion does not follow");
    }
    sym::observe(n);
}
fn mk(l: Vec<Literal>, c: &LocalContext) -> Clause {
    Clause::new(l, c)
}
fn sign() -> bool {
    sym::choice(2) == 0
}
fn model(w: &World) -> Model {
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    Model::new(w, 2, ne)
}

/// Propositional atoms, equalities of constants.
#[no_mangle]
#[inline(never)]
pub fn k03_ground() {
    let w = World::new(7);
    let x = LocalContext::empty();
    let l = |k: usize| match k {
        0 => Literal::from_signed_term(con(K::B), sign()),
        1 => Literal::from_signed_term(con_at(K::TB, 0).apply(&[con(K::T)]), sign()),
        _ => Literal::new(sign(), con_at(K::T, 0), con_at(K::T, 1)),
    };
    let a = mk(vec![l(sym::choice(2)), l(1)], &x);
    let b = mk(vec![l(sym::choice(3))], &x);
    let q = match sym::choice(3) {
        0 => mk(vec![l(0)], &x),
        1 => mk(vec![l(1)], &x),
        _ => mk(vec![l(0), l(1)], &x),
    };
    let m = Model::new(&w, 2, 2);
    let told = if sym::choice(2) == 0 { [a, b] } else { [b, a] };
    go(&w, m, &told, &[q]);
}

/// Unit equalities with applications.
#[no_mangle]
#[inline(never)]
pub fn k03_congruence() {
    let w = World::new(7);
    let x = LocalContext::empty();
    let t = || match sym::choice(2) {
        0 => con(K::T),
        _ => con_at(K::TT, 0).apply(&[con(K::T)]),
    };
    let a = mk(vec![Literal::new(true, t(), t())], &x);
    let b = match sym::choice(3) {
        0 => mk(vec![Literal::new(sign(), t(), con(K::T))], &x),
        1 => mk(vec![Literal::from_signed_term(Term::eq(w.t.clone(), t(), con(K::T)), sign())], &x),
        _ => mk(vec![Literal::from_signed_term(con_at(K::TB, 0).apply(&[t()]), sign()), Literal::new(false, con_at(K::T, 0), t())], &x),
    };
    let q = mk(
        vec![match sym::choice(2) {
            0 => Literal::new(sign(), t(), con_at(K::TT, 0).apply(&[con_at(K::T, 0)])),
            _ => Literal::from_signed_term(con_at(K::TB, 0).apply(&[t()]), sign()),
        }],
        &x,
    );
    let m = Model::new(&w, 2, 2);
    go(&w, m, &[a, b], &[q]);
}

/// One structured proposition and one question about it.
#[no_mangle]
#[inline(never)]
pub fn k03_logic() {
    let w = World::new(9);
    one_constant();
    one_variable();
    let g = G { conn: true, quant: true, redex: false, ite: true, vars: false, two: false, e: false };
    let a = mk(vec![Literal::from_signed_term(g.term(&w, S::B, 2, &mut vec![]), sign())], &e_context(&w));
    let q1 = mk(vec![Literal::from_signed_term(con_at(K::B, 0), sign())], &e_context(&w));
    let q2 = mk(vec![Literal::from_signed_term(con_at(K::TB, 0).apply(&[con_at(K::T, 0)]), sign())], &e_context(&w));
    let q3 = mk(
        vec![Literal::from_signed_term(
            if sym::choice(2) == 0 {
                Term::and(con_at(K::B, 0), con_at(K::TB, 0).apply(&[con_at(K::T, 0)]))
            } else {
                Term::exists(w.t.clone(), con_at(K::TB, 0).apply(&[bound(0)]))
            },
            sign(),
        )],
        &e_context(&w),
    );
    let m = Model::new(&w, 2, 2);
    go(&w, m, &[a], &[q1, q2, q3]);
}

fn var_literal(_w: &World, k: usize) -> Literal {
    match k {
        0 => Literal::from_signed_term(con_at(K::TB, 0).apply(&[var2(0)]), sign()),
        1 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[var2(4)]), sign()),
        2 => Literal::new(sign(), var2(0), con_at(K::T, 0)),
        3 => Literal::new(sign(), var2(4), Term::new_variable(4)),
        4 => Literal::from_signed_term(Term::new_variable(2), sign()),
        5 => Literal::from_signed_term(con_at(K::TTB, 0).apply(&[var2(0), Term::new_variable(0)]), sign()),
        6 => Literal::new(sign(), con_at(K::ET, 0).apply(&[var2(4)]), var2(0)),
        _ => Literal::from_signed_term(con_at(K::B, 0), sign()),
    }
}

/// Clauses with variables.
#[no_mangle]
#[inline(never)]
pub fn k03_vars() {
    let w = World::new(9);
    one_variable();
    let c = e_context(&w);
    let mut a = vec![var_literal(&w, sym::choice(7))];
    if sym::choice(2) == 1 {
        a.push(var_literal(&w, if TH == 1 { sym::choice(8) } else { [1, 7][sym::choice(2)] }));
    }
    let b = match sym::choice(3) {
        0 => vec![Literal::from_signed_term(con_at(K::TB, 0).apply(&[con_at(K::T, 0)]), sign())],
        1 => vec![Literal::from_signed_term(con_at(K::B, 0), sign())],
        _ => vec![Literal::new(sign(), con_at(K::T, 1), con_at(K::T, 0))],
    };
    let q = vec![
        mk(vec![Literal::from_signed_term(con_at(K::B, 0), true)], &c),
        mk(vec![Literal::from_signed_term(con_at(K::TB, 0).apply(&[con_at(K::T, 0)]), sign())], &c),
        mk(vec![var_literal(&w, 0)], &c),
    ];
    let m = model(&w);
    go(&w, m, &[mk(a, &c), mk(b, &c)], &q);
}

/// Clauses over a type that may be empty.
#[no_mangle]
#[inline(never)]
pub fn k03_empty() {
    let w = World::new(9);
    let c = e_context(&w);
    let x = || Term::new_variable(4);
    let one = |k: usize| match k {
        0 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[x()]), sign()),
        1 => Literal::new(false, x(), Term::new_variable(5)),
        2 => Literal::from_signed_term(Term::and(con_at(K::EB, 0).apply(&[x()]), con_at(K::B, 0)), sign()),
        3 => Literal::from_signed_term(Term::forall(w.e.clone(), con_at(K::EB, 0).apply(&[bound(0)])), sign()),
        4 => Literal::from_signed_term(Term::exists(w.e.clone(), con_at(K::EB, 0).apply(&[bound(0)])), sign()),
        5 => Literal::from_signed_term(Term::eq(w.e.clone(), x(), Term::new_variable(5)), sign()),
        6 => Literal::new(
            sign(),
            ite(w.t.clone(), con_at(K::EB, 0).apply(&[x()]), con_at(K::T, 0), con_at(K::T, 0)),
            con_at(K::T, 1),
        ),
        7 => Literal::from_signed_term(Term::or(con_at(K::EB, 0).apply(&[x()]), con_at(K::B, 0)), sign()),
        8 => Literal::new(sign(), con_at(K::ET, 0).apply(&[x()]), con_at(K::ET, 0).apply(&[Term::new_variable(5)])),
        9 => Literal::from_signed_term(
            Term::lambda(w.e.clone(), con_at(K::B, 0)).apply(&[x()]),
            sign(),
        ),
        11 => Literal::from_signed_term(
            Term::and(Term::lambda(w.e.clone(), con_at(K::B, 0)).apply(&[x()]), con_at(K::B, 1)),
            sign(),
        ),
        _ => Literal::from_signed_term(con_at(K::B, 0), sign()),
    };
    let mut a = vec![one(sym::choice(12))];
    match sym::choice(2 + TH) {
        0 => {}
        1 => a.push(one(10)),
        _ => a.push(one(0)),
    }
    let b = vec![one([0, 10, 4, 3][sym::choice(3 + TH)])];
    let q = vec![
        mk(vec![one(10)], &c),
        mk(vec![one(0)], &c),
        mk(vec![one(4)], &c),
        mk(vec![Literal::new(sign(), con_at(K::T, 1), con_at(K::T, 0))], &c),
    ];
    let m = model(&w);
    go(&w, m, &[mk(a, &c), mk(b, &c)], &q);
}

/// What makes a type inhabited for the checker.
#[no_mangle]
#[inline(never)]
pub fn k03_inhabit() {
    let w = World::new(9);
    let c = e_context(&w);
    let x = Term::new_variable(4);
    let some = |b: Term| Term::exists(w.e.clone(), b);
    let one = |k: usize| match k {
        0 => Literal::from_signed_term(some(tru()), sign()),
        1 => Literal::from_signed_term(some(con_at(K::EB, 0).apply(&[bound(0)])), sign()),
        2 => Literal::negative(some(Term::eq(w.e.clone(), bound(0), x.clone()))),
        3 => Literal::negative(some(Term::or(con_at(K::EB, 0).apply(&[bound(0)]), con_at(K::EB, 1).apply(&[x.clone()])))),
        4 => Literal::new(false, x.clone(), x.clone()),
        5 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[x.clone()]), sign()),
        _ => Literal::from_signed_term(con_at(K::B, 0), sign()),
    };
    let mut a = vec![one(sym::choice(4))];
    if sym::choice(3) == 2 {
        a.push(one(6));
    }
    let mut b = vec![one([0, 1, 4, 5][sym::choice(4)])];
    if sym::choice(2) == 1 {
        b.push(one(6));
    }
    let q = vec![
        mk(vec![one(6)], &c),
        mk(vec![Literal::positive(some(tru()))], &c),
        mk(vec![Literal::positive(some(con_at(K::EB, 0).apply(&[bound(0)])))], &c),
        mk(vec![one(5)], &c),
    ];
    let (a, b) = (mk(a, &c), mk(b, &c));
    let told = if sym::choice(2) == 0 { [a, b] } else { [b, a] };
    let m = model(&w);
    go(&w, m, &told, &q);
}

/// The same from an existential that itself has a variable of that type: it says nothing when the
/// type is empty.
#[no_mangle]
#[inline(never)]
pub fn k03_exists_free() {
    let w = World::new(9);
    let c = e_context(&w);
    let y = Term::new_variable(4);
    let a = mk(vec![Literal::positive(Term::exists(w.e.clone(), Term::eq(w.e.clone(), bound(0), y)))], &c);
    let b = mk(vec![Literal::negative(Term::exists(w.e.clone(), tru()))], &c);
    let m = Model::new(&w, 2, 0);
    let told = if sym::choice(2) == 0 { [a, b] } else { [b, a] };
    go(&w, m, &told, &[]);
}

/// Function equalities, inequalities, injectivity and extensionality.
#[no_mangle]
#[inline(never)]
pub fn k03_functions() {
    let w = World::new(9);
    let c = e_context(&w);
    let a = vec![match sym::choice(5) {
        0 => Literal::new(sign(), con_at(K::TT, 0), con_at(K::TT, 1)),
        1 => Literal::new(sign(), con_at(K::TT, 0).apply(&[var2(0)]), con_at(K::TT, 1).apply(&[Term::new_variable(0)])),
        2 => Literal::new(sign(), con_at(K::TT, 0).apply(&[con_at(K::T, 0)]), con_at(K::TT, 0).apply(&[con_at(K::T, 1)])),
        3 => Literal::new(sign(), con_at(K::EB, 0), con_at(K::EB, 1)),
        _ => Literal::new(sign(), con_at(K::TT, 0), Term::lambda(w.t.clone(), con_at(K::TTT, 0).apply(&[bound(0), con_at(K::T, 0)]))),
    }];
    let b = vec![match sym::choice(4) {
        0 => Literal::new(sign(), con_at(K::TT, 0).apply(&[con_at(K::T, 0)]), con_at(K::T, 1)),
        1 => Literal::new(sign(), con_at(K::T, 0), con_at(K::T, 1)),
        2 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[Term::new_variable(4)]), sign()),
        _ => Literal::new(true, con_at(K::TT, 0).apply(&[Term::new_variable(0)]), Term::new_variable(0)),
    }];
    let q = vec![
        mk(vec![Literal::new(sign(), con_at(K::TT, 0), con_at(K::TT, 1))], &c),
        mk(vec![Literal::new(sign(), con_at(K::T, 0), con_at(K::T, 1))], &c),
        mk(vec![Literal::new(sign(), con_at(K::TT, 1).apply(&[con_at(K::T, 0)]), con_at(K::T, 1))], &c),
        mk(vec![Literal::new(sign(), con_at(K::EB, 0), con_at(K::EB, 1))], &c),
    ];
    let m = model(&w);
    go(&w, m, &[mk(a, &c), mk(b, &c)], &q);
}

/// Polymorphic clauses: x0: Type, x1, x2: x0.
#[no_mangle]
#[inline(never)]
pub fn k03_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let v = |i: u16| Term::new_variable(i);
    let p = |t: Term, a: Term, b: Term| con_at(K::P, 0).apply(&[t, a, b]);
    let one = |k: usize| match k {
        0 => Literal::from_signed_term(p(v(0), v(1), v(1 + sym::choice(2) as u16)), sign()),
        1 => Literal::from_signed_term(p(w.t.clone(), con_at(K::T, 0), v(3)), sign()),
        2 => Literal::new(sign(), v(1), v(2)),
        3 => Literal::from_signed_term(Term::exists(v(0), p(v(0), bound(0), bound(0))), sign()),
        4 => Literal::from_signed_term(Term::exists(w.e.clone(), p(w.e.clone(), bound(0), bound(0))), sign()),
        5 => Literal::from_signed_term(Term::and(p(v(0), v(1), v(1)), con_at(K::B, 0)), sign()),
        _ => Literal::from_signed_term(con_at(K::B, 0), sign()),
    };
    let mut a = vec![one(sym::choice(6))];
    if sym::choice(2) == 1 {
        a.push(one(6));
    }
    let b = vec![one([0, 1, 2, 4, 6][sym::choice(5)])];
    let q = vec![
        mk(vec![one(6)], &c),
        mk(vec![one(1)], &c),
        mk(vec![one(4)], &c),
    ];
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let m = Model::new_poly(&w, 2, ne);
    go(&w, m, &[mk(a, &c), mk(b, &c)], &q);
}

/// The documented guarantee: a literal and its negation are always noticed; and what was inserted
/// is accepted.
#[no_mangle]
#[inline(never)]
pub fn k03_negation() {
    let w = World::new(7);
    let g = G { conn: true, quant: true, redex: false, ite: false, vars: false, two: true, e: false };
    let x = LocalContext::empty();
    let l = match sym::choice(2) {
        0 => Literal::from_signed_term(g.term(&w, S::B, 1 + TH, &mut vec![]), sign()),
        _ => Literal::new(sign(), g.term(&w, S::T, 1, &mut vec![]), g.term(&w, S::T, 1, &mut vec![])),
    };
    let a = mk(vec![l.clone()], &x);
    let b = mk(vec![l.negate()], &x);
    let mut c = Checker::new();
    let swap = sym::choice(2) == 1;
    c.insert_clause(if swap { &b } else { &a }, StepReason::Testing, &w.kc);
    sym::check(c.check_clause(if swap { &b } else { &a }, &w.kc).is_some(), "an inserted clause is not accepted");
    c.insert_clause(if swap { &a } else { &b }, StepReason::Testing, &w.kc);
    sym::check(c.has_contradiction(), "a literal and its negation are not noticed");
    sym::reach(0);
    sym::observe(c.inserted_len() as u64);
}
