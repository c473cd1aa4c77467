//! The prover's search: every step it adds follows from what it was derived from.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::atom::{Atom, AtomId};
use crate::kernel::symbol::Symbol;
use crate::kernel::clause::{BooleanReductionKind, Clause};
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::proof_step::{ProofStep, Rule, Truthiness};
use crate::kernel::term::Term;
use crate::prover::active_set::ActiveSet;
use crate::prover::synthetic::WitnessRegistry;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k13_resolve", k13_resolve),
    ("k13_two", k13_two),
    ("k13_long", k13_long),
    ("k13_rewrite", k13_rewrite),
    ("k13_rewrite_back", k13_rewrite_back),
    ("k13_single", k13_single),
    ("k13_simplify", k13_simplify),
    ("k13_empty", k13_empty),
    ("k13_exists", k13_exists),
    ("k13_exists_free", k13_exists_free),
];
const TH: usize = cfg!(vh_thorough) as usize;

fn mk(l: Vec<Literal>, c: &LocalContext) -> Clause {
    Clause::new(l, c)
}
fn sign() -> bool {
    sym::choice(2) == 0
}
fn step(c: &Clause, fact: bool) -> ProofStep {
    let mut s = ProofStep::mock_from_clause(c.clone());
    if !fact {
        s.truthiness = Truthiness::Counterfactual;
    }
    s
}
/// Activates the clauses one after another; what comes out, then the step that is left over is
/// simplified.
fn go(w: &mut World, active: &[Clause], fact: bool, extra: Option<&Clause>) {
    sym::real_format(); // witnesses get their names by it
    let mut set = ActiveSet::new();
    let mut reg = WitnessRegistry::new();
    let mut out: Vec<(usize, ProofStep)> = vec![];
    for (i, c) in active.iter().enumerate() {
        let s = step(c, fact && i == 0);
        let (_, o) = set.activate(s, &mut w.kc, &mut reg, MODULE);
        out.extend(o.into_iter().map(|s| (i, s)));
    }
    // what the set makes of the steps, and of one more clause
    let mut simple: Vec<(Clause, Option<ProofStep>)> = vec![];
    for (_, s) in &out {
        simple.push((s.clause.clone(), set.simplify(s.clone(), &w.kc)));
    }
    if let Some(c) = extra {
        simple.push((c.clone(), set.simplify(step(c, sign()), &w.kc)));
    }
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let mut m = Model::new(w, 2, ne);
    let given: Vec<u64> = active.iter().map(|c| m.clause(c)).collect();
    let all = given.iter().fold(1, |a, b| a & b);
    let mut good = true;
    for (i, s) in &out {
        // what is known when the i-th clause is activated
        let known = given[..*i + 1].iter().fold(1, |a, b| a & b);
        if let Rule::BooleanReduction(info) = &s.rule {
            if info.kind == BooleanReductionKind::PositiveExistsOpen {
                // some value of the new constant makes it true
                let mut some = 0;
                match witness(&s.clause) {
                    None => some = m.clause(&s.clause),
                    Some(id) => {
                        let ty = w.kc.symbol_table.get_type(Symbol::ScopedConstant(id as AtomId)).clone();
                        let t = m.ty(ty.as_ref());
                        m.scoped = vec![0; id + 1];
                        m.scoped_ty = vec![t; id + 1];
                        for v in 0..m.card(t) {
                            m.scoped[id] = v;
                            some |= m.clause(&s.clause);
                        }
                    }
                }
                good &= known <= some;
                sym::reach(2);
                continue;
            }
        }
        let v = m.clause(&s.clause);
        good &= known <= v;
        sym::reach(match s.rule {
            Rule::Resolution(_) => 0,
            Rule::Rewrite(_) => 1,
            _ => 3,
        });
    }
    sym::check(good, "a derived step does not follow from the active clauses");
    if set.graph.has_contradiction() {
        sym::check(all == 0, "the term graph reports a contradiction for clauses that are true together");
        sym::reach(4);
    }
    let (mut lost, mut bad) = (true, true);
    for (c, r) in &simple {
        if witness(c).is_some() {
            continue;
        }
        let v = m.clause(c);
        match r {
            None => {
                lost &= all <= v;
                sym::reach(5);
            }
            Some(s) => {
                let n = m.clause(&s.clause);
                bad &= (all & v <= n) & (all & n <= v);
                if s.clause != *c {
                    sym::reach(6);
                }
            }
        }
    }
    sym::check(lost, "a step is discarded that does not follow from the active clauses");
    sym::check(bad, "a simplified step does not say the same as the step given the active clauses");
    sym::observe(out.len() as u64 * 64 + simple.iter().filter(|(_, r)| r.is_none()).count() as u64);
}
fn witness(c: &Clause) -> Option<usize> {
    c.iter_atoms().find_map(|a| match a {
        Atom::Symbol(Symbol::ScopedConstant(i)) => Some(*i as usize),
        _ => None,
    })
}
fn tb(t: Term) -> Term {
    con_at(K::TB, 0).apply(&[t])
}
fn lit(_w: &World, k: usize) -> Literal {
    match k {
        0 => Literal::from_signed_term(tb(var2(0)), sign()),
        1 => Literal::from_signed_term(tb(con(K::T)), sign()),
        2 => Literal::from_signed_term(con_at(K::EB, 0).apply(&[var2(4)]), sign()),
        3 => Literal::new(sign(), var2(0), con(K::T)),
        4 => Literal::from_signed_term(con_at(K::TTB, 0).apply(&[var2(0), var2(0)]), sign()),
        5 => Literal::from_signed_term(con_at(K::TTB, 0).apply(&[var2(0), con(K::T)]), sign()),
        6 => Literal::new(sign(), con_at(K::ET, 0).apply(&[var2(4)]), con(K::T)),
        7 => Literal::from_signed_term(var2(2), sign()),
        8 => Literal::from_signed_term(con(K::B), sign()),
        9 => Literal::new(sign(), con_at(K::TT, 0).apply(&[var2(0)]), var2(0)),
        10 => Literal::new(sign(), con(K::T), con(K::T)),
        11 => Literal::from_signed_term(tb(con_at(K::ET, 0).apply(&[var2(4)])), sign()),
        12 => Literal::new(sign(), con_at(K::ET, 0).apply(&[var2(4)]), var2(0)),
        _ => Literal::new(sign(), con_at(K::TT, 0).apply(&[con(K::T)]), con(K::T)),
    }
}
fn pick(w: &World, ks: &[usize]) -> Literal {
    lit(w, ks[sym::choice(ks.len())])
}

/// A clause of two literals and a unit clause.
#[no_mangle]
#[inline(never)]
pub fn k13_resolve() {
    let mut w = World::new(9);
    let c = e_context(&w);
    let fam: (&[usize], &[usize]) = [(&[0usize][..], &[0usize, 1, 11][..]), (&[4], &[5]), (&[3], &[3, 10]), (&[2], &[2]), (&[6], &[12]), (&[7], &[8])][sym::choice(6)];
    one_constant();
    let a = mk(vec![pick(&w, fam.0), pick(&w, &[8, 0, 2])], &c);
    unsafe { ONE_CONSTANT = false };
    let b = mk(vec![pick(&w, fam.1)], &c);
    let order = sym::choice(2) == 0;
    let given = if order { [a, b] } else { [b, a] };
    go(&mut w, &given, true, None);
}
/// Two unit clauses with variables.
#[no_mangle]
#[inline(never)]
pub fn k13_two() {
    let mut w = World::new(9);
    let c = e_context(&w);
    let fam: &[usize] = [&[0usize, 11][..], &[4, 5], &[3, 9], &[6, 12], &[2]][sym::choice(5)];
    one_constant();
    let a = mk(vec![pick(&w, fam)], &c);
    let b = mk(vec![pick(&w, fam)], &c);
    go(&mut w, &[a, b], sign(), None);
}
/// Two concrete clauses of two or three literals.
#[no_mangle]
#[inline(never)]
pub fn k13_long() {
    let mut w = World::new(9);
    let c = e_context(&w);
    let l = |k: usize| match k {
        0 => Literal::from_signed_term(con(K::B), sign()),
        1 => Literal::from_signed_term(tb(con_at(K::T, 0)), sign()),
        _ => Literal::new(sign(), con_at(K::T, 0), con(K::T)),
    };
    let a = mk(vec![l(sym::choice(2)), l(1 + sym::choice(2))], &c);
    let mut v = vec![l(0), l(1 + sym::choice(2))];
    if TH == 1 && sym::choice(2) == 1 {
        v.push(l(2));
    }
    let b = mk(v, &c);
    go(&mut w, &[a, b], sign(), None);
}
fn t1(k: usize) -> Term {
    let f = |t: Term| con_at(K::TT, 0).apply(&[t]);
    match k {
        0 => con(K::T),
        1 => f(con(K::T)),
        2 => f(var2(0)),
        3 => f(f(con_at(K::T, 0))),
        4 => con_at(K::ET, 0).apply(&[var2(4)]),
        5 => con_at(K::TTT, 0).apply(&[var2(0), con(K::T)]),
        6 => con_at(K::TTT, 0).apply(&[con(K::T), con(K::T)]),
        _ => var2(0),
    }
}
fn target(k: usize) -> Literal {
    match k {
        0 => Literal::from_signed_term(tb(t1([0, 1, 3, 6][sym::choice(4)])), sign()),
        1 => Literal::new(sign(), t1([1, 6][sym::choice(2)]), con(K::T)),
        _ => Literal::new(sign(), t1(3), t1(1)),
    }
}
fn pattern() -> Literal {
    let (a, b) = [(1, 0), (2, 0), (2, 7), (5, 7), (5, 2), (0, 0), (4, 0), (3, 0)][sym::choice(8)];
    Literal::new(true, t1(a), t1(b))
}
/// A rewrite rule and a concrete literal that it rewrites.
#[no_mangle]
#[inline(never)]
pub fn k13_rewrite() {
    let mut w = World::new(9);
    let c = e_context(&w);
    one_variable();
    let a = mk(vec![pattern()], &c);
    let b = mk(vec![target(sym::choice(3))], &c);
    go(&mut w, &[a, b], true, None);
}
/// The same, the concrete literal first, and then another rule.
#[no_mangle]
#[inline(never)]
pub fn k13_rewrite_back() {
    let mut w = World::new(9);
    let c = e_context(&w);
    one_variable();
    one_constant();
    let a = mk(vec![target(sym::choice(3))], &c);
    let b = mk(vec![pattern()], &c);
    let d = mk(vec![if TH == 1 { pattern() } else { Literal::new(true, t1([1, 2][sym::choice(2)]), con_at(K::T, 1)) }], &c);
    go(&mut w, &[a, b, d], true, None);
}
/// One clause by itself.
#[no_mangle]
#[inline(never)]
pub fn k13_single() {
    let mut w = World::new(9);
    let c = e_context(&w);
    one_variable();
    one_constant();
    let g = G { conn: true, quant: true, redex: false, ite: false, vars: true, two: false, e: true };
    let mut l = vec![match sym::choice(3) {
        0 => Literal::from_signed_term(g.term(&w, S::B, 1 + TH, &mut vec![]), sign()),
        1 => Literal::new(sign(), t1(sym::choice(8)), t1(sym::choice(8))),
        _ => Literal::new(sign(), var2(4), Term::new_variable(5)),
    }];
    match sym::choice(3) {
        0 => {}
        1 => l.push(pick(&w, &[0, 2])),
        _ => l.push(Literal::new(true, t1(2), t1(0))),
    }
    let a = mk(l, &c);
    go(&mut w, &[a], sign(), None);
}
/// Unit clauses and a further clause that they simplify.
#[no_mangle]
#[inline(never)]
pub fn k13_simplify() {
    let mut w = World::new(9);
    let c = e_context(&w);
    let fam: (&[usize], &[usize]) = [(&[0usize, 1][..], &[0usize, 1, 11][..]), (&[5], &[4, 5]), (&[3], &[3, 10]), (&[9], &[13]), (&[7, 8], &[8])][sym::choice(5)];
    one_variable();
    let a = mk(vec![pick(&w, fam.0)], &c);
    unsafe { ONE_VARIABLE = false };
    let mut l = vec![pick(&w, fam.1)];
    match sym::choice(3) {
        0 => {}
        1 => l.push(lit(&w, 8)),
        _ => l.push(pick(&w, fam.1)),
    }
    let b = mk(l, &c);
    go(&mut w, &[a], sign(), Some(&b));
}
/// Steps over a type that may be empty.
#[no_mangle]
#[inline(never)]
pub fn k13_empty() {
    let mut w = World::new(9);
    let c = e_context(&w);
    let l = |k: usize| match k {
        0 => Literal::from_signed_term(con(K::EB).apply(&[var2(4)]), sign()),
        1 => Literal::new(sign(), con_at(K::ET, 0).apply(&[var2(4)]), con(K::T)),
        _ => Literal::new(sign(), var2(4), Term::new_variable(4)),
    };
    let k = sym::choice(3);
    let a = mk(vec![l(k)], &c);
    let mut v = vec![l(k)];
    match sym::choice(3) {
        0 => {}
        1 => v.push(Literal::from_signed_term(con_at(K::B, 0), sign())),
        _ => v.push(l(sym::choice(2))),
    }
    let b = mk(v, &c);
    go(&mut w, &[a], sign(), Some(&b));
}
/// An existential gets a witness; a type becomes inhabited.
#[no_mangle]
#[inline(never)]
pub fn k13_exists() {
    let mut w = World::new(9);
    let c = e_context(&w);
    one_variable();
    one_constant();
    let body = match sym::choice(4) {
        0 => Term::exists(w.e.clone(), con_at(K::EB, 0).apply(&[bound(0)])),
        1 => Term::exists(w.t.clone(), con_at(K::TTB, 0).apply(&[bound(0), var2(0)])),
        2 => Term::exists(w.e.clone(), con_at(K::TTB, 0).apply(&[con_at(K::ET, 0).apply(&[bound(0)]), var2(0)])),
        _ => Term::exists(w.t.clone(), Term::and(tb(bound(0)), Term::not(tb(var2(0))))),
    };
    let mut l = vec![Literal::from_signed_term(body, sign())];
    if sym::choice(3) == 0 {
        l.push(Literal::from_signed_term(con_at(K::B, 0), sign()));
    }
    let a = mk(l, &c);
    // loses a variable of the type
    let b = match sym::choice(4) {
        0 => vec![Literal::new(false, var2(4), Term::new_variable(5)), Literal::from_signed_term(con_at(K::B, 0), true)],
        1 => vec![Literal::from_signed_term(Term::and(con_at(K::EB, 0).apply(&[var2(4)]), con_at(K::B, 0)), true)],
        2 => vec![Literal::from_signed_term(con_at(K::EB, 0).apply(&[var2(4)]), sign()), Literal::from_signed_term(con_at(K::B, 0), true)],
        _ => vec![Literal::from_signed_term(Term::exists(w.e.clone(), con_at(K::B, 0)), sign())],
    };
    let b = mk(b, &c);
    let given = if sym::choice(2) == 0 { [a, b] } else { [b, a] };
    go(&mut w, &given, true, None);
}
/// An existential with a free variable of the type it speaks about.
#[no_mangle]
#[inline(never)]
pub fn k13_exists_free() {
    let mut w = World::new(9);
    let c = e_context(&w);
    one_variable();
    one_constant();
    let e = Term::exists(
        w.e.clone(),
        Term::eq(w.t.clone(), con_at(K::ET, 0).apply(&[bound(0)]), con_at(K::ET, 0).apply(&[var2(4)])),
    );
    let a = mk(vec![Literal::from_signed_term(e, true)], &c);
    let b = mk(vec![Literal::from_signed_term(Term::and(con_at(K::EB, 0).apply(&[var2(4)]), con_at(K::B, 0)), true)], &c);
    let given = if sym::choice(2) == 0 { [a, b] } else { [b, a] };
    go(&mut w, &given, true, None);
}
