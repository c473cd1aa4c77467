//! Boolean reductions, decided against every small interpretation.
use super::gen::*;
use super::model::{Model, TT};
use super::sym;
use crate::kernel::checker::Checker;
use crate::kernel::clause::{BooleanReductionKind, Clause, NormalizedClauseTrace};
use crate::kernel::literal::Literal;
use crate::kernel::term::Term;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k01_logic", k01_logic),
    ("k01_quant", k01_quant),
    ("k01_pair", k01_pair),
    ("k01_equal", k01_equal),
    ("k01_ite", k01_ite),
    ("k01_redex", k01_redex),
    ("k01_function", k01_function),
    ("k01_exists", k01_exists),
    ("k01_single", k01_single),
];
const TH: usize = cfg!(vh_thorough) as usize;
const LOGIC: G = G { conn: true, quant: true, redex: false, ite: false, vars: true, two: false, e: true };

use BooleanReductionKind::*;
const KINDS: [BooleanReductionKind; 25] = [
    FalseLiteralElimination,
    IteSimplifyLeft,
    IteSimplifyRight,
    IteSplitLeftThenBranch,
    IteSplitLeftElseBranch,
    IteSplitRightThenBranch,
    IteSplitRightElseBranch,
    FunctionInequalityToExists,
    SignedNot,
    BooleanEqToEquality,
    PositiveForallOpen,
    PositiveExistsObviousWitness,
    PositiveExistsOpen,
    NegatedForallToExists,
    NegatedExistsOpen,
    PositiveAndLeft,
    PositiveAndRight,
    NegativeAnd,
    PositiveOr,
    NegativeOrLeft,
    NegativeOrRight,
    BooleanEqualityLeftOrNotRight,
    BooleanEqualityNotLeftOrRight,
    BooleanInequalityNotLeftOrNotRight,
    BooleanInequalityLeftOrRight,
];

/// No variable of type E was lost between the context before normalization and the clause.
fn keeps_e(w: &World, t: &NormalizedClauseTrace) -> bool {
    for i in 0..t.pre_norm_context.len() {
        if t.pre_norm_context.get_var_type(i) == Some(&w.e) && !t.var_ids.contains(&(i as u16)) {
            return false;
        }
    }
    true
}
/// A symbolic sign; the literal is built the way the kernel builds it.
fn signed(t: Term) -> Literal {
    Literal::from_signed_term(t, sym::choice(2) == 0)
}
/// A literal that shares variables with the reduced one.
fn guard(w: &World) -> Option<Literal> {
    let _ = w;
    match sym::choice(3) {
        0 => None,
        1 => Some(Literal::positive(con(K::TB).apply(&[var2(0)]))),
        _ => Some(Literal::negative(con(K::EB).apply(&[var2(4)]))),
    }
}

/// Everything the kernel and the checker derive from the clause follows from it; complete sets
/// give the clause back; both ways of asking agree.
fn go(w: &World, lits: Vec<Literal>) {
    go_in(w, lits, &e_context(w))
}
fn go_in(w: &World, lits: Vec<Literal>, c: &crate::kernel::local_context::LocalContext) {
    let clause = Clause::new(lits, c);
    let all = clause.find_boolean_reduction_kinds_with_locations_with_options(&w.kc, true);
    let sets = Checker::new().checker_boolean_reduction_sets(&clause, &w.kc);
    // the possibly empty type is empty or has two elements
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let mut m = Model::new(w, 2, ne);
    let orig = m.clause(&clause);
    for (kind, _i, trace) in &all {
        let v = m.clause(&trace.clause);
        if ne > 0 || keeps_e(w, trace) {
            sym::check(orig <= v, "a reduction does not follow from the clause");
        }
        let _ = kind;
        sym::reach(0);
    }
    for set in &sets {
        let mut both = 1;
        for r in set {
            let v = m.clause(r);
            sym::check(orig <= v, "a checker reduction does not follow from the clause");
            both &= v;
        }
        sym::check(both <= orig, "a complete split does not imply the clause");
        sym::reach(1);
    }
    // one reduction at one literal
    for (kind, i, trace) in &all {
        let one = clause.boolean_reduction_at_with_options(*kind, *i, &w.kc, true);
        match one {
            Some(t) => sym::check(
                t.clause == trace.clause && t.var_ids == trace.var_ids && t.pre_norm_context == trace.pre_norm_context,
                "asking for one reduction gives another clause",
            ),
            None => sym::check(false, "a listed reduction is refused when asked for alone"),
        }
    }
    sym::observe(all.len() as u64 * 16 + sets.len() as u64);
}

/// Connectives below a signed literal.
#[no_mangle]
#[inline(never)]
pub fn k01_logic() {
    let w = World::new(9);
    let g = G { quant: false, e: false, ..LOGIC };
    let l = signed(g.term(&w, S::B, 2 + TH, &mut vec![]));
    let mut lits = vec![l];
    lits.extend(guard(&w));
    go(&w, lits);
}

/// Quantifiers over all three types.
#[no_mangle]
#[inline(never)]
pub fn k01_quant() {
    let w = World::new(9);
    if TH == 0 {
        one_constant();
        one_variable();
    }
    let s = [S::T, S::B, S::E][sym::choice(3)];
    let g = G { quant: false, conn: TH == 1, ..LOGIC };
    let mut b = G { conn: true, ..g }.term(&w, S::B, 1, &mut vec![s]);
    if sym::choice(2) == 1 {
        // a second quantifier in between
        let s2 = [S::T, S::E][sym::choice(2)];
        b = g.term(&w, S::B, 1, &mut vec![s, s2]);
        b = if sym::choice(2) == 0 { Term::forall(s2.ty(&w), b) } else { Term::exists(s2.ty(&w), b) };
    }
    let t = if sym::choice(2) == 0 { Term::forall(s.ty(&w), b) } else { Term::exists(s.ty(&w), b) };
    let mut lits = vec![signed(t)];
    if sym::choice(2) == 1 {
        lits.push(Literal::negative(con(K::EB).apply(&[var2(4)])));
    }
    go(&w, lits);
}

/// Two literals that both reduce.
#[no_mangle]
#[inline(never)]
pub fn k01_pair() {
    let w = World::new(9);
    if TH == 0 {
        one_constant();
    }
    let g = G { ..LOGIC };
    let a = signed(g.term(&w, S::B, 1, &mut vec![]));
    let b = signed(G { quant: TH == 1, e: TH == 1, ..g }.term(&w, S::B, 1, &mut vec![]));
    go(&w, vec![a, b]);
}

/// Equalities and inequalities of propositions.
#[no_mangle]
#[inline(never)]
pub fn k01_equal() {
    let w = World::new(9);
    if TH == 0 {
        one_constant();
    }
    let a = LOGIC.term(&w, S::B, 1, &mut vec![]);
    let b = G { quant: false, ..LOGIC }.term(&w, S::B, 1, &mut vec![]);
    let pos = sym::choice(2) == 0;
    let mut lits = vec![Literal::new(pos, a, b)];
    if TH == 1 {
        lits.extend(guard(&w));
    }
    go(&w, lits);
}

/// If-then-else in a proposition, on one side of an equality, and as a head.
#[no_mangle]
#[inline(never)]
pub fn k01_ite() {
    let w = World::new(9);
    if TH == 0 {
        one_constant();
        one_variable();
    }
    let cond = |w: &World| match sym::choice(4) {
        0 => tru(),
        1 => Term::new_false(),
        2 => con(K::EB).apply(&[var2(4)]),
        _ => con(K::TB).apply(&[var2(0)]),
    };
    let leaf = || match sym::choice(2 + TH) {
        0 => con(K::ET).apply(&[Term::new_variable(4)]),
        1 => var2(0),
        _ => con(K::T),
    };
    let pos = sym::choice(2) == 0;
    let t = ite(w.t.clone(), cond(&w), leaf(), leaf());
    let l = match sym::choice(4) {
        0 => Literal::new(pos, t, leaf()),
        1 => Literal::new(pos, leaf(), t),
        2 => Literal::from_signed_term(con(K::TB).apply(&[t]), pos),
        _ => {
            // between propositions
            let p = ite(w.b.clone(), cond(&w), con(K::TB).apply(&[leaf()]), con(K::EB).apply(&[var2(4)]));
            if sym::choice(2) == 0 {
                Literal::from_signed_term(p, pos)
            } else {
                Literal::new(pos, p, con(K::TB).apply(&[leaf()]))
            }
        }
    };
    go(&w, vec![l]);
}

/// Beta redexes, also below if-then-else.
#[no_mangle]
#[inline(never)]
pub fn k01_redex() {
    let w = World::new(9);
    if TH == 0 {
        one_constant();
    }
    let g = G { conn: false, quant: false, redex: true, ite: true, ..LOGIC };
    let t = g.term(&w, S::B, 1 + TH, &mut vec![]);
    let l = match sym::choice(2) {
        0 => signed(t),
        _ => Literal::new(sym::choice(2) == 0, g.term(&w, S::T, 1, &mut vec![]), g.leaf(S::T, &[])),
    };
    go(&w, vec![l]);
}

/// Function inequalities.
#[no_mangle]
#[inline(never)]
pub fn k01_function() {
    let w = World::new(9);
    let pos = sym::choice(2) == 0;
    // x6: T -> T
    let tt = w.fun(&w.t, &w.t);
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b, &w.e, &w.e, &tt, &tt]);
    let l = match sym::choice(5) {
        0 => Literal::new(pos, con(K::TT), con(K::TT)),
        1 => Literal::new(pos, con(K::EB), con(K::EB)),
        2 => Literal::new(pos, con(K::TTT).apply(&[var2(0)]), con(K::TT)),
        3 => Literal::new(pos, con(K::TTB).apply(&[con(K::TT).apply(&[var2(0)])]), con(K::TB)),
        _ => Literal::new(pos, var2(6), con(K::TT)),
    };
    let mut lits = vec![l];
    lits.extend(guard(&w));
    go_in(&w, lits, &c);
}

/// Opening a positive existential: for a witness that is an arbitrary constant of the type, the
/// opened clause can be made true exactly when the existential is true.
#[no_mangle]
#[inline(never)]
pub fn k01_exists() {
    let w = World::new(9);
    let g = G { vars: false, e: false, ..LOGIC };
    let body = g.term(&w, S::B, 2, &mut vec![S::T]);
    let t = Term::exists(w.t.clone(), body.clone());
    let c = Clause::new(vec![Literal::positive(t.clone())], &e_context(&w));
    let witness = con_at(K::T, 0);
    let Some(r) = c.positive_exists_witness_reduction(&w.kc) else {
        sym::check(false, "a single positive existential is not offered for opening");
        return;
    };
    let out = c.instantiate_positive_exists_reduction(&r, witness).clause;
    let mut m = Model::new(&w, 2, 2);
    let orig = m.clause(&c);
    let mut any = 0;
    let i = 2 * K::T as usize;
    let keep = m.consts[i];
    // the witness constant may occur in the body: evaluate the body with the constant fixed and
    // the bound variable ranging
    let mut want = [0u64; 2];
    for v in 0..2 {
        want[v as usize] = m.value_under(&body, &[], &[TT], &[v]).1;
        any |= want[v as usize];
    }
    sym::check(orig == any, "the existential's value");
    let got = m.clause(&out);
    sym::check(got == (want[0] & (1 - keep)) | (want[1] & keep), "the opened clause is not the body at the witness");
    if c.positive_exists_reduction(&w.kc).is_none() {
        // refused only when some reduction is available instead
        sym::check(!c.find_boolean_reductions(&w.kc).is_empty(), "an existential can neither be opened nor reduced");
        sym::reach(1);
    }
    sym::reach(0);
    sym::observe(got + 2 * out.literals.len() as u64);
}

/// Asking for any kind at any literal: what is given follows, and is among all reductions.
#[no_mangle]
#[inline(never)]
pub fn k01_single() {
    let w = World::new(9);
    let g = G { ite: true, e: false, ..LOGIC };
    let l = match sym::choice(2) {
        0 => signed(g.term(&w, S::B, 1, &mut vec![])),
        _ => Literal::new(sym::choice(2) == 0, g.leaf(S::B, &[]), con(K::TB).apply(&[g.leaf(S::T, &[])])),
    };
    let mut lits = vec![l];
    lits.extend(guard(&w));
    let clause = Clause::new(lits, &e_context(&w));
    let all = clause.find_boolean_reduction_kinds_with_locations_with_options(&w.kc, true);
    let mut m = Model::new(&w, 2, 2);
    let a = m.clause(&clause);
    for kind in KINDS {
        for i in 0..clause.literals.len() + 1 {
            let listed = all.iter().find(|(k, j, _)| *k == kind && *j == i);
            if let Some(t) = clause.boolean_reduction_at_with_options(kind, i, &w.kc, true) {
                let b = m.clause(&t.clause);
                sym::check(a <= b, "a single reduction does not follow from the clause");
                match listed {
                    Some((_, _, u)) => sym::check(u.clause == t.clause, "a reduction given alone is another clause"),
                    None => sym::check(false, "a reduction given alone is not listed"),
                }
                sym::reach(0);
            } else {
                sym::check(listed.is_none(), "a listed reduction is refused");
                sym::reach(1);
            }
        }
    }
    sym::observe(all.len() as u64);
}
