//! The passive set: scores, the queue, simplification of waiting steps.
use super::gen::*;
use super::model::Model;
use super::sym;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::proof_step::{PremiseMap, ProofStep, ShallowStatus};
use crate::kernel::term::Term;
use crate::prover::active_set::ActiveSet;
use crate::prover::features::Features;
use crate::prover::passive_set::{PassiveEntry, PassiveSet};
use crate::prover::score::Score;
use crate::prover::scorer::{Scorer, ScoringPolicy};
use std::cmp::Ordering;
use std::sync::Arc;

pub const HARNESSES: &[(&str, fn())] = &[
    ("p01_order", p01_order),
    ("p01_queue", p01_queue),
    ("p01_mixed", p01_mixed),
    ("p01_shallow", p01_shallow),
    ("p01_interleave", p01_interleave),
    ("p01_simplify", p01_simplify),
    ("p01_simplify_empty", p01_simplify_empty),
    ("p01_contradiction", p01_contradiction),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// Scores each step with the value at its proof size.
struct Given(Vec<u32>);
impl Scorer for Given {
    fn score(&self, f: &Features) -> Result<f32, Box<dyn std::error::Error>> {
        Ok(f32::from_bits(self.0[f.proof_size as usize]))
    }
}

fn statuses() -> [ShallowStatus; 4] {
    [ShallowStatus::Deep, ShallowStatus::Spent, ShallowStatus::Unspent, ShallowStatus::Contradiction]
}

/// What a step is worth: contradictions first, then by status (unless the policy ignores it), then by value.
#[derive(Clone, Copy)]
struct Worth {
    contradiction: bool,
    status: usize,
    bits: u32,
}
impl Worth {
    /// Certainly better, whatever the order of unusual values is.
    fn beats(&self, o: &Worth, shallow: bool) -> bool {
        if self.contradiction != o.contradiction {
            return self.contradiction;
        }
        if shallow && self.status != o.status {
            return self.status > o.status;
        }
        !self.contradiction & (f32::from_bits(self.bits) > f32::from_bits(o.bits))
    }
}

fn score(policy: ScoringPolicy, w: &Worth) -> Score {
    let f = Features {
        is_contradiction: w.contradiction,
        shallow_status: statuses()[w.status],
        is_shallow: w.status != 0,
        proof_size: 0,
        ..Features::default()
    };
    Score::new(policy, &Given(vec![w.bits]), &f)
}

/// Any three scores, of any bit patterns.
#[no_mangle]
#[inline(never)]
pub fn p01_order() {
    let shallow = sym::choice(2) == 0;
    let policy = if shallow { ScoringPolicy::Handcrafted } else { ScoringPolicy::ModelNoShallow };
    let ws: Vec<Worth> = (0..3)
        .map(|_| Worth { contradiction: sym::choice(2) == 1, status: sym::choice(2) * (1 + TH), bits: sym::u32() })
        .collect();
    let s: Vec<Score> = ws.iter().map(|w| score(policy, w)).collect();
    let c = |i: usize, j: usize| s[i].cmp(&s[j]);
    let (ab, ba, bc, ac) = (c(0, 1), c(1, 0), c(1, 2), c(0, 2));
    sym::check(ab == ba.reverse(), "the order of two scores depends on the side");
    sym::check(c(0, 0) == Ordering::Equal && s[0] == s[0], "a score is not equal to itself");
    sym::check((ab == Ordering::Equal) == (s[0] == s[1]), "equality and order disagree");
    sym::check(s[0].partial_cmp(&s[1]) == Some(ab), "the partial order disagrees");
    if ab != Ordering::Less && bc != Ordering::Less {
        sym::check(ac != Ordering::Less, "the order of scores is not transitive");
        if ab == Ordering::Greater || bc == Ordering::Greater {
            sym::check(ac == Ordering::Greater, "the order of scores is not transitive");
        }
        sym::reach(0);
    }
    if ws[0].beats(&ws[1], shallow) {
        sym::check(ab == Ordering::Greater, "a better score does not come first");
        sym::reach(1);
    }
    // scoring in a batch gives the same
    let f: Vec<Features> = ws
        .iter()
        .enumerate()
        .map(|(i, w)| Features {
            is_contradiction: w.contradiction,
            shallow_status: statuses()[w.status],
            is_shallow: w.status != 0,
            proof_size: i as i32,
            ..Features::default()
        })
        .collect();
    let b = Score::batch(policy, &Given(ws.iter().map(|w| w.bits).collect()), &f);
    sym::check(b.len() == 3, "a batch loses scores");
    for i in 0..3 {
        sym::check(b[i].is_shallow() == (ws[i].status != 0), "a score forgets whether the step is shallow");
        for j in 0..3 {
            if ws[i].beats(&ws[j], shallow) {
                sym::check(b[i] > b[j], "a better score in a batch does not come first");
            }
        }
    }
}

/// Step number i, of any score, recognizable by its proof size.
fn step(i: usize, status: usize, contradiction: bool) -> ProofStep {
    let c = if contradiction {
        Clause::impossible()
    } else {
        raw_clause(vec![Literal::new(true, con_at(K::TTB, i as u16 / 4).apply(&[con_at(K::T, i as u16 & 1), con_at(K::T, i as u16 / 2 & 1)]), tru())], &ctx(&[]))
    };
    let mut s = ProofStep::mock_from_clause(c);
    s.proof_size = i as u32;
    s.shallow_status = statuses()[status];
    s
}
struct Pending {
    all: Vec<Worth>,
    live: Vec<bool>,
    set: PassiveSet,
    shallow: bool,
}
impl Pending {
    fn new(n: usize, policy: ScoringPolicy, kinds: &[usize]) -> Pending {
        let all: Vec<Worth> = (0..n)
            .map(|_| {
                let k = kinds[sym::choice(kinds.len())];
                Worth { contradiction: k == 9, status: if k == 9 { 2 } else { k }, bits: sym::u32() }
            })
            .collect();
        let set = PassiveSet::with_scorer(policy, Arc::new(Given(all.iter().map(|w| w.bits).collect())));
        let live = vec![false; n];
        Pending { all, live, set, shallow: policy.uses_shallow_ordering() }
    }
    fn push(&mut self, w: &World, ids: std::ops::Range<usize>) {
        let steps = ids.clone().map(|i| step(i, self.all[i].status, self.all[i].contradiction)).collect();
        let stats = self.set.push_batch(steps, &w.kc);
        sym::check(stats.pushed_steps == ids.len(), "the wrong number of steps is reported");
        for i in ids {
            self.live[i] = true;
        }
    }
    fn left(&self) -> usize {
        self.live.iter().filter(|l| **l).count()
    }
    fn took(&mut self, e: Option<PassiveEntry>, best: bool) -> Option<usize> {
        let Some(e) = e else {
            return None;
        };
        let i = e.step.proof_size as usize;
        sym::check(self.live[i], "a step is returned twice");
        self.live[i] = false;
        sym::check(
            e.step.clause == step(i, 0, self.all[i].contradiction).clause && e.step.shallow_status == statuses()[self.all[i].status],
            "a different step is returned",
        );
        if best {
            for j in 0..self.all.len() {
                if self.live[j] && self.all[j].beats(&self.all[i], self.shallow) {
                    sym::check(false, "a better step is waiting");
                }
            }
        }
        Some(i)
    }
    fn pop(&mut self, best: bool) -> Option<usize> {
        sym::check(self.set.len() == self.left(), "the wrong number of steps is waiting");
        sym::check(self.set.is_empty() == (self.left() == 0), "an empty set is not recognized");
        let e = self.set.pop_entry_with_shallow();
        sym::check(e.is_some() == (self.left() > 0), "a waiting step is not returned");
        let e = match e {
            None => None,
            Some((e, shallow)) => {
                let i = e.step.proof_size as usize;
                sym::check(shallow == (self.all[i].status != 0), "a step is wrongly called shallow");
                Some(e)
            }
        };
        self.took(e, best)
    }
    /// Everything once more in order.
    fn drain(&mut self, best: bool) {
        let order: Vec<usize> = self.set.iter_steps().map(|s| s.proof_size as usize).collect();
        sym::check(order.len() == self.left(), "iterating misses a step");
        let mut popped = vec![];
        for _ in 0..self.left() {
            popped.push(self.pop(best).unwrap());
        }
        sym::check(!best || popped == order, "steps are not returned in the order of iteration");
        sym::check(self.pop(best).is_none(), "an empty set returns a step");
        sym::reach(0);
    }
}

/// Any scores, pushed in two batches with a step taken in between.
#[no_mangle]
#[inline(never)]
pub fn p01_queue() {
    let w = World::new(6);
    let n = 4 + TH;
    let mut p = Pending::new(n, ScoringPolicy::Handcrafted, &[2]);
    let cut = 1 + sym::choice(n - 1);
    p.push(&w, 0..cut);
    p.pop(true);
    p.push(&w, cut..n);
    p.drain(true);
}

/// Steps of any status, contradictions among them.
#[no_mangle]
#[inline(never)]
pub fn p01_mixed() {
    let w = World::new(6);
    let policy = if sym::choice(2) == 0 { ScoringPolicy::Handcrafted } else { ScoringPolicy::ModelNoShallow };
    let n = 3 + TH;
    let mut p = Pending::new(n, policy, &[0, 1, 2, 3, 9]);
    p.push(&w, 0..2);
    if sym::choice(2) == 0 {
        p.pop(true);
    }
    p.push(&w, 2..n);
    p.drain(true);
}

/// Taking only shallow steps.
#[no_mangle]
#[inline(never)]
pub fn p01_shallow() {
    let w = World::new(6);
    let n = 3 + TH;
    let mut p = Pending::new(n, ScoringPolicy::Handcrafted, &[0, 1, 2, 9]);
    p.push(&w, 0..n);
    let mut deep = false;
    for _ in 0..n {
        let any = (0..n).any(|i| p.live[i] && p.all[i].status != 0);
        sym::check(p.set.can_pop_for_verification() == (any && !deep), "it is wrong whether a shallow step can be taken");
        if sym::choice(2) == 0 {
            let e = p.set.pop_shallow_entry();
            sym::check(e.is_some() == any, "a shallow step is overlooked");
            if let Some(i) = p.took(e, false) {
                sym::check(p.all[i].status != 0, "a deep step is returned as shallow");
                for j in 0..n {
                    if p.live[j] && p.all[j].status != 0 && p.all[j].beats(&p.all[i], true) {
                        sym::check(false, "a better shallow step is waiting");
                    }
                }
            }
        } else if let Some(i) = p.pop(true) {
            deep |= p.all[i].status == 0;
        }
    }
    p.drain(true);
}

/// The policy that takes the newest step of the best tier every second time.
#[no_mangle]
#[inline(never)]
pub fn p01_interleave() {
    let w = World::new(6);
    let n = 4;
    let mut p = Pending::new(n, ScoringPolicy::ModelDfInterleave1, &[0, 2]);
    p.push(&w, 0..2);
    let mut count = 0;
    for round in 0..n + 1 {
        if round == 1 {
            p.push(&w, 2..n);
        }
        count += 1;
        if count % 2 == 1 {
            p.pop(true);
        } else if let Some(i) = p.pop(false) {
            for j in 0..n {
                sym::check(
                    !p.live[j] || p.all[j].status < p.all[i].status || (p.all[j].status == p.all[i].status && j < i),
                    "a newer step of a better tier is waiting",
                );
            }
            sym::reach(1);
        }
    }
    sym::check(p.left() == 0 && p.set.is_empty(), "a step is never returned");
    sym::reach(0);
}

/// Literals with variables of T (0) and of the possibly empty type (4).
fn literal(e: bool) -> Literal {
    let x = Term::new_variable(0);
    let c = con(K::T);
    match sym::choice(6 + e as usize) {
        0 => Literal::new(sym::choice(2) == 0, con_at(K::TTB, 0).apply(&[x.clone(), x]), tru()),
        1 => Literal::new(sym::choice(2) == 0, con_at(K::TTB, 0).apply(&[x, c]), tru()),
        2 => Literal::new(sym::choice(2) == 0, con_at(K::TTB, 0).apply(&[con_at(K::T, 0), c]), tru()),
        3 => Literal::new(sym::choice(2) == 0, con_at(K::TTT, 0).apply(&[x, con_at(K::T, 0)]), con_at(K::T, 0)),
        4 => Literal::new(sym::choice(2) == 0, con_at(K::TTT, 0).apply(&[c, con_at(K::T, 0)]), con_at(K::TT, 0).apply(&[x])),
        5 => Literal::new(sym::choice(2) == 0, con_at(K::B, 0), tru()),
        _ => Literal::new(sym::choice(2) == 0, con_at(K::EB, 0).apply(&[Term::new_variable(4)]), tru()),
    }
}
fn simplify(w: &World, active: &[Literal], waiting: &[Vec<Literal>]) {
    let c = e_context(w);
    let active = Clause::new(active.to_vec(), &c);
    sym::assume(active.literals.len() == 1);
    let mut set = PassiveSet::with_scorer(ScoringPolicy::Handcrafted, Arc::new(Given(vec![0; 16])));
    let mut steps = vec![];
    let mut given = vec![];
    for l in waiting {
        let clause = Clause::new(l.clone(), &c);
        sym::assume(!clause.literals.is_empty() && !clause.is_tautology());
        let m = ProofStep::mock_from_clause(clause.clone());
        // an assumption, or a derived step
        steps.push(if sym::choice(2) == 0 { m } else { ProofStep::specialization(0, 0, &m, clause.clone(), PremiseMap::empty()) });
        given.push(clause);
    }
    set.push_batch(steps, &w.kc);
    set.simplify(3, &ProofStep::mock_from_clause(active.clone()), &ActiveSet::new(), &w.kc);
    let left: Vec<Clause> = set.iter_steps().map(|s| s.clause.clone()).collect();
    let ne = if sym::choice(2) == 0 { 2 } else { 0 };
    let mut m = Model::new(w, 2, ne);
    let a = m.clause(&active);
    let mut before = a;
    for c in &given {
        before &= m.clause(c);
    }
    let mut after = a;
    for c in &left {
        let v = m.clause(c);
        after &= v;
        if ne > 0 || c.is_impossible() {
            sym::check(before <= v, "a waiting step is replaced by one that does not follow");
        }
    }
    sym::check(after <= before, "a waiting step is lost when a literal is activated");
    sym::reach(0);
    if left.len() < given.len() {
        sym::reach(1);
    } else if left != given {
        sym::reach(2);
    }
    // each of them is returned
    for _ in 0..left.len() {
        sym::check(set.pop().is_some(), "a waiting step is not returned");
    }
    sym::check(set.pop().is_none() && set.is_empty(), "a step is returned twice");
}

/// One waiting clause of two literals.
#[no_mangle]
#[inline(never)]
pub fn p01_simplify() {
    let w = World::new(9);
    let a = [literal(false)];
    let p = vec![literal(false), literal(false)];
    simplify(&w, &a, &[p]);
}

/// Waiting clauses with variables that may have no values.
#[no_mangle]
#[inline(never)]
pub fn p01_simplify_empty() {
    let w = World::new(9);
    let e = |n: u16| Literal::new(sym::choice(2) == 0, con_at(K::EB, n).apply(&[var2(4)]), tru());
    let a = [e(0)];
    let p = match sym::choice(3) {
        0 => vec![vec![e(0)]],
        1 => vec![vec![e(0), e(1)], vec![e(0)]],
        _ => vec![vec![e(0), literal(false)]],
    };
    simplify(&w, &a, &p);
}

/// Contradictions between waiting steps are real.
#[no_mangle]
#[inline(never)]
pub fn p01_contradiction() {
    let w = World::new(9);
    let mut set = PassiveSet::with_scorer(ScoringPolicy::Handcrafted, Arc::new(Given(vec![0; 16])));
    let c = e_context(&w);
    for _ in 0..2 {
        let clause = Clause::new(vec![literal(true)], &c);
        sym::assume(!clause.literals.is_empty());
        set.push_batch(vec![ProofStep::mock_from_clause(clause)], &w.kc);
    }
    sym::reach(0);
    if let Some(steps) = set.get_contradiction() {
        let ne = if sym::choice(2) == 0 { 2 } else { 0 };
        let mut m = Model::new(&w, 2, ne);
        let mut v = 1;
        for s in &steps {
            v &= m.clause(&s.clause);
        }
        sym::check(v == 0, "two steps that are true together count as a contradiction");
        sym::reach(1);
    }
}
