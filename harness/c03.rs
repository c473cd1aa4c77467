//! Certificate trace rules: a step is accepted only if it follows from its premises.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::checker::{Checker, StepReason};
use crate::kernel::clause::{BooleanReductionKind, Clause};
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;

pub const HARNESSES: &[(&str, fn())] = &[
    ("c03_spec", c03_spec),
    ("c03_spec_two", c03_spec_two),
    ("c03_contra", c03_contra),
    ("c03_rules", c03_rules),
    ("c03_direct", c03_direct),
    ("c03_eq", c03_eq),
    ("c03_closes", c03_closes),
    ("c03_br", c03_br),
    ("c03_same", c03_same),
];
const TH: usize = cfg!(vh_thorough) as usize;

fn mk(l: Vec<Literal>, c: &LocalContext) -> Clause {
    Clause::new(l, c)
}
fn sign() -> bool {
    sym::choice(2) == 0
}
fn model(w: &World) -> Model {
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    Model::new(w, 2, ne)
}
/// A literal: which variable of a type and which constant stays symbolic.
fn lit(w: &World, k: usize) -> Literal {
    match k {
        0 => Literal::from_signed_term(con_at(K::TB, 0).apply(&[var2(0)]), sign()),
        1 => Literal::from_signed_term(con_at(K::TB, 0).apply(&[con(K::T)]), sign()),
        2 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[var2(4)]), sign()),
        3 => Literal::new(sign(), var2(0), con(K::T)),
        4 => Literal::from_signed_term(con_at(K::TTB, 0).apply(&[var2(0), var2(0)]), sign()),
        5 => Literal::from_signed_term(con_at(K::TTB, 0).apply(&[var2(0), con(K::T)]), sign()),
        6 => Literal::new(sign(), con_at(K::ET, 0).apply(&[var2(4)]), var2(0)),
        7 => Literal::from_signed_term(var2(2), sign()),
        8 => Literal::from_signed_term(con(K::B), sign()),
        9 => Literal::new(sign(), con_at(K::TT, 0).apply(&[var2(0)]), var2(0)),
        10 => Literal::new(sign(), con(K::T), con(K::T)),
        11 => Literal::new(sign(), var2(0), var2(0)),
        12 => Literal::from_signed_term(Term::forall(w.t.clone(), con_at(K::TTB, 0).apply(&[bound(0), var2(0)])), sign()),
        13 => Literal::from_signed_term(Term::exists(w.e.clone(), con_at(K::EB, 0).apply(&[bound(0)])), sign()),
        _ => Literal::new(sign(), con_at(K::TT, 0).apply(&[con(K::T)]), con(K::T)),
    }
}
fn pick(w: &World, ks: &[usize]) -> Literal {
    lit(w, ks[sym::choice(ks.len())])
}

fn spec(w: &World, a: &Clause, b: &Clause) {
    let mut m = model(w);
    let ok = Checker::clause_specializes_for_trace(a, b, &w.kc);
    if ok {
        let (va, vb) = (m.clause(a), m.clause(b));
        sym::check(va <= vb, "a clause is taken for a special case of another and does not follow from it");
        sym::reach(1);
    } else {
        sym::reach(0);
    }
    sym::observe(ok as u64);
}
/// One literal on both sides.
#[no_mangle]
#[inline(never)]
pub fn c03_spec() {
    let w = World::new(9);
    let c = e_context(&w);
    let fam: &[usize] = [&[0usize, 1][..], &[4, 5], &[3, 10, 11], &[6, 3], &[2, 13], &[7, 8], &[9, 14], &[12]][sym::choice(8)];
    let a = mk(vec![pick(&w, fam)], &c);
    let b = mk(vec![pick(&w, fam)], &c);
    spec(&w, &a, &b);
}
/// Two literals that share variables.
#[no_mangle]
#[inline(never)]
pub fn c03_spec_two() {
    let w = World::new(9);
    let c = e_context(&w);
    let fam: (&[usize], &[usize]) = [(&[0usize][..], &[0usize, 5][..]), (&[5], &[0, 1]), (&[3], &[0]), (&[2], &[6])][sym::choice(4)];
    let a = mk(vec![pick(&w, fam.0), pick(&w, fam.1)], &c);
    let mut l = vec![if sym::choice(2) == 0 { pick(&w, fam.0) } else { lit(&w, 1) }];
    if sym::choice(2 + TH) > 0 {
        l.push(pick(&w, fam.1));
    }
    let b = mk(l, &c);
    spec(&w, &a, &b);
}
/// Two clauses that are said to contradict each other.
#[no_mangle]
#[inline(never)]
pub fn c03_contra() {
    let w = World::new(9);
    let c = e_context(&w);
    let fam: &[usize] = [&[0usize, 1][..], &[4, 5], &[3, 10], &[6], &[2, 13], &[7, 8], &[9, 14]][sym::choice(7)];
    let mut l = vec![pick(&w, fam)];
    match sym::choice(3) {
        0 => l.push(lit(&w, 8)),
        1 if TH == 1 => l.push(pick(&w, fam)),
        _ => {}
    }
    let a = mk(l, &c);
    let b = mk(vec![pick(&w, fam)], &c);
    let mut m = model(&w);
    let ok = contradict(&a, &b, &w);
    if ok {
        let (va, vb) = (m.clause(&a), m.clause(&b));
        sym::check(va & vb == 0, "two clauses are said to contradict each other and are true together");
        sym::reach(1);
    } else {
        sym::reach(0);
    }
    sym::observe(ok as u64);
}
fn contradict(a: &Clause, b: &Clause, w: &World) -> bool {
    Checker::new().clauses_contradict_for_trace(a, b, &w.kc)
}

/// Any pair of clauses under every one-premise rule.
#[no_mangle]
#[inline(never)]
pub fn c03_rules() {
    let w = World::new(9);
    one_variable();
    let c = e_context(&w);
    let t = |k: usize| match k {
        0 => con(K::T),
        1 => var2(0),
        2 => con_at(K::TT, 0).apply(&[con(K::T)]),
        3 => con_at(K::TT, 0).apply(&[var2(0)]),
        5 => con(K::TT).apply(&[var2(0)]),
        _ => con_at(K::ET, 0).apply(&[var2(4)]),
    };
    let eq = |n: usize| {
        let (a, b) = (t(sym::choice(n)), t(sym::choice(n)));
        Literal::new(sign(), a, b)
    };
    let mut l = vec![if sym::choice(4) == 0 { Literal::new(sign(), t(5), t(5)) } else { eq(5) }];
    if sym::choice(2) == 1 {
        l.push(if TH == 1 { eq(3) } else { Literal::new(true, t(0), t(1)) });
    }
    let a = mk(l, &c);
    let mut l = vec![];
    match sym::choice(3) {
        0 => {}
        1 => l.push(eq(2)),
        _ => l.push(Literal::new(sign(), con_at(K::TT, 0), con_at(K::TT, 1))),
    }
    let b = mk(l, &c);
    let ch = Checker::new();
    let mut m = model(&w);
    let got = [
        ch.equality_resolution_derives_for_trace(&a, &b, &w.kc),
        ch.equality_factoring_derives_for_trace(&a, &b, &w.kc),
        ch.injectivity_derives_for_trace(&a, &b, &w.kc),
        ch.extensionality_derives_for_trace(&a, &b, &w.kc),
    ];
    let (va, vb) = (m.clause(&a), m.clause(&b));
    let mut n = 0u64;
    for (i, g) in got.iter().enumerate() {
        if *g {
            sym::check(va <= vb, "a rule is accepted for a clause that does not follow");
            sym::reach(i as u32);
        }
        n = n * 2 + *g as u64;
    }
    sym::observe(n);
}

/// Facts a trace has recorded, and a clause that is said to be known from them.
#[no_mangle]
#[inline(never)]
pub fn c03_direct() {
    let w = World::new(9);
    one_variable();
    let c = e_context(&w);
    let f1: &[usize] = [&[1usize, 10][..], &[0, 14], &[2, 13], &[8]][sym::choice(4)];
    let mut l = vec![pick(&w, f1)];
    if sym::choice(2) == 1 {
        l.push(lit(&w, 8));
    }
    let a = mk(l, &c);
    let b = mk(vec![pick(&w, &[8, 10, 1])], &c);
    let q = mk(vec![pick(&w, f1)], &c);
    let mut ch = Checker::new();
    ch.set_eager_boolean_reductions(false);
    for f in [&a, &b] {
        ch.insert_clause_for_trace(f, StepReason::PreviousClaim, &w.kc);
    }
    let mut m = model(&w);
    let all = m.clause(&a) & m.clause(&b);
    if ch.has_contradiction() {
        sym::check(all == 0, "a trace ends in a contradiction though its clauses are true together");
        sym::reach(0);
    } else if ch.check_clause_direct_for_trace(&q, &w.kc).is_some() {
        let v = m.clause(&q);
        sym::check(all <= v, "a clause is said to be known and does not follow");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// A clause rewritten by concrete facts.
#[no_mangle]
#[inline(never)]
pub fn c03_eq() {
    let w = World::new(9);
    one_variable();
    let c = e_context(&w);
    // the fact, the clause and what it is said to become
    let fact = mk(vec![pick(&w, &[1, 8, 10])], &c);
    let s = [0usize, 2, 3, 4, 6][sym::choice(5)];
    let mut l = vec![lit(&w, s), pick(&w, &[1, 8])];
    if TH == 1 && sym::choice(2) == 1 {
        l.push(lit(&w, 8));
    }
    let source = mk(l, &c);
    let mut l = vec![];
    if sym::choice(2) == 1 {
        l.push(lit(&w, s));
    }
    if sym::choice(3) == 0 {
        l.push(lit(&w, 8));
    }
    let result = mk(l, &c);
    let mut ch = Checker::new();
    ch.set_eager_boolean_reductions(false);
    ch.insert_clause_for_trace(&fact, StepReason::PreviousClaim, &w.kc);
    let ok = ch.equality_graph_derives_for_trace(&source, &result, &w.kc);
    if ok {
        let mut m = model(&w);
        let all = m.clause(&fact) & m.clause(&source);
        let v = m.clause(&result);
        sym::check(all <= v, "a clause is accepted by congruence and does not follow");
        sym::reach(1);
    } else {
        sym::reach(0);
    }
    sym::observe(ok as u64);
}

fn formula(w: &World, d: usize) -> Literal {
    let g = G { conn: true, quant: true, redex: false, ite: false, vars: true, two: false, e: true };
    Literal::from_signed_term(g.term(w, S::B, d, &mut vec![]), sign())
}
/// A clause that is said to be false by itself.
#[no_mangle]
#[inline(never)]
pub fn c03_closes() {
    let w = World::new(9);
    one_constant();
    one_variable();
    let c = e_context(&w);
    let p = || con_at(K::B, 0);
    let q = || con_at(K::TB, 0).apply(&[var2(0)]);
    let l = match sym::choice(4) {
        0 => Literal::from_signed_term(Term::and(p(), Term::not(if sym::choice(2) == 0 { p() } else { q() })), sign()),
        1 => Literal::from_signed_term(Term::and(q(), Term::not(con_at(K::TB, 0).apply(&[con(K::T)]))), sign()),
        2 => Literal::from_signed_term(Term::and(con_at(K::EB, 0).apply(&[var2(4)]), Term::not(con_at(K::EB, 0).apply(&[var2(4)]))), sign()),
        _ => formula(&w, 2),
    };
    let a = mk(vec![l], &c);
    let ok = Checker::new().boolean_reduction_closes_for_trace(&a, &w.kc);
    if ok {
        let mut m = model(&w);
        let v = m.clause(&a);
        sym::check(v == 0, "a clause is said to be false and can be true");
        sym::reach(1);
    } else {
        sym::reach(0);
    }
    sym::observe(ok as u64);
}

const KINDS: [BooleanReductionKind; 25] = {
    use BooleanReductionKind::*;
    [
        FalseLiteralElimination, IteSimplifyLeft, IteSimplifyRight, IteSplitLeftThenBranch, IteSplitLeftElseBranch,
        IteSplitRightThenBranch, IteSplitRightElseBranch, FunctionInequalityToExists, SignedNot, BooleanEqToEquality,
        PositiveForallOpen, PositiveExistsObviousWitness, PositiveExistsOpen, NegatedForallToExists, NegatedExistsOpen,
        PositiveAndLeft, PositiveAndRight, NegativeAnd, PositiveOr, NegativeOrLeft, NegativeOrRight,
        BooleanEqualityLeftOrNotRight, BooleanEqualityNotLeftOrRight, BooleanInequalityNotLeftOrNotRight,
        BooleanInequalityLeftOrRight,
    ]
};
/// Every named reduction at every position, and every full set read backwards.
#[no_mangle]
#[inline(never)]
pub fn c03_br() {
    let w = World::new(9);
    one_variable();
    let c = e_context(&w);
    let mut l = vec![formula(&w, 1 + TH)];
    match sym::choice(3) {
        0 => {}
        1 => l.push(lit(&w, 2)),
        _ => l.push(lit(&w, 0)),
    }
    let a = mk(l, &c);
    let mut m = model(&w);
    let va = m.clause(&a);
    let ch = Checker::new();
    let mut n = 0u64;
    for k in KINDS {
        for i in 0..a.literals.len() + 1 {
            if let Some(r) = ch.apply_boolean_reduction_for_trace(&a, k, i, &w.kc) {
                let v = m.clause(&r);
                sym::check(va <= v, "a named reduction does not follow from the clause");
                sym::reach(1);
                n += 1;
            }
        }
    }
    sym::observe(n);
}
/// Two clauses with the same canonical form say the same.
#[no_mangle]
#[inline(never)]
pub fn c03_same() {
    let w = World::new(9);
    let c = e_context(&w);
    let fam: &[usize] = [&[0usize, 4][..], &[3, 11], &[6, 2]][sym::choice(3)];
    let build = |raw: bool| {
        let l = vec![pick(&w, fam), lit(&w, fam[0])];
        if raw {
            raw_clause(l, &c)
        } else {
            Clause::new(l, &c)
        }
    };
    let (a, b) = (build(true), build(TH == 1 && sym::choice(2) == 0));
    let ch = Checker::new();
    let (ka, kb) = (ch.canonical_clause_for_trace(&a, &w.kc), ch.canonical_clause_for_trace(&b, &w.kc));
    if ka.is_some() && ka == kb {
        let mut m = model(&w);
        let (va, vb) = (m.clause(&a), m.clause(&b));
        sym::check(va == vb, "two clauses are taken for the same and say different things");
        sym::reach(1);
    } else {
        sym::reach(0);
    }
}
