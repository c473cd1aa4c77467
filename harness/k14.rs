//! The concrete clause store.
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::clause::Clause;
use crate::kernel::clause_set::{ClauseId, ClauseSet, GroupId, LiteralId, Normalization};
use crate::kernel::equality_graph::{EqualityGraph, StepId};
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::Term;
use crate::module::ModuleId;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k14_clause", k14_clause),
    ("k14_order", k14_order),
    ("k14_set", k14_set),
    ("k14_remove", k14_remove),
    ("k14_rename", k14_rename),
    ("k14_graph", k14_graph),
    ("k14_graph_after", k14_graph_after),
    ("k14_units", k14_units),
];
const TH: usize = cfg!(vh_thorough) as usize;

type L = (u8, u8, bool);
fn group(n: u8) -> u8 {
    sym::below(n)
}
fn any(n: u8) -> L {
    (group(n), group(n), sym::bool())
}
fn id(l: &L) -> LiteralId {
    LiteralId::new(GroupId(l.0 as u32), GroupId(l.1 as u32), l.2)
}
/// The literal's value when the groups have the given values.
fn holds(l: &L, v: &[u8]) -> bool {
    let mut a = 0;
    let mut b = 0;
    for (i, x) in v.iter().enumerate() {
        if l.0 == i as u8 {
            a = *x;
        }
        if l.1 == i as u8 {
            b = *x;
        }
    }
    (a == b) == l.2
}
fn holds_id(l: &LiteralId, v: &[u8]) -> bool {
    holds(&(l.left.get() as u8, l.right.get() as u8, l.positive), v)
}

/// Normalizing keeps the meaning; always-true and always-false are.
#[no_mangle]
#[inline(never)]
pub fn k14_clause() {
    let n = sym::choice(4 + TH);
    let ls: Vec<L> = (0..n).map(|_| any(4)).collect();
    let r = ClauseId::new(ls.iter().map(id).collect());
    // any assignment of values to the groups
    let v: Vec<u8> = (0..4).map(|_| sym::below(4)).collect();
    let mut t = false;
    for l in &ls {
        t |= holds(l, &v);
    }
    match r {
        Normalization::True => {
            sym::check(t, "a clause reported as always true can be false");
            sym::reach(0);
        }
        Normalization::False => {
            sym::check(!t, "a clause reported as always false can be true");
            sym::reach(1);
        }
        Normalization::Clause(c) => {
            let mut u = false;
            for l in c.literals() {
                u |= holds_id(l, &v);
            }
            sym::check(t == u, "normalizing changes the meaning of a clause");
            let k = c.literals().len();
            for i in 0..k {
                let l = &c.literals()[i];
                sym::check(l.left < l.right, "a normalized literal is trivial or not sorted");
                if i + 1 < k {
                    sym::check(*l < c.literals()[i + 1], "normalized literals are not sorted or repeat");
                }
            }
            for a in c.literals() {
                for b in c.literals() {
                    sym::check(
                        a.left != b.left || a.right != b.right || a.positive == b.positive,
                        "an always true clause is not reported",
                    );
                }
            }
            sym::reach(2);
        }
    }
}

/// The order of literals and of their sides does not matter.
#[no_mangle]
#[inline(never)]
pub fn k14_order() {
    let ls: Vec<L> = (0..3).map(|_| any(3)).collect();
    let p = [[0, 2, 1], [1, 0, 2], [2, 1, 0], [1, 2, 0], [0, 0, 0]][sym::choice(4)];
    let a = ClauseId::new(ls.iter().map(id).collect());
    let b = ClauseId::new(p.iter().map(|&i| id(&(ls[i].1, ls[i].0, ls[i].2))).collect());
    let same = match (&a, &b) {
        (Normalization::True, Normalization::True) => true,
        (Normalization::False, Normalization::False) => true,
        (Normalization::Clause(a), Normalization::Clause(b)) => a == b,
        _ => false,
    };
    sym::check(same, "the order of literals or sides changes the normal form");
    sym::reach(0);
}

fn clause(ls: &[L]) -> Option<ClauseId> {
    match ClauseId::new(ls.iter().map(id).collect()) {
        Normalization::Clause(c) => Some(c),
        _ => None,
    }
}
fn mentions(c: &ClauseId, g: GroupId) -> bool {
    c.literals().iter().any(|l| (l.left == g) | (l.right == g))
}
/// The reference: a list without repetitions.
struct Naive(Vec<ClauseId>);
impl Naive {
    fn insert(&mut self, c: &ClauseId) {
        if !self.0.contains(c) {
            self.0.push(c.clone());
        }
    }
    fn take(&mut self, f: impl Fn(&ClauseId) -> bool) -> Vec<ClauseId> {
        let (a, b): (Vec<ClauseId>, Vec<ClauseId>) = self.0.drain(..).partition(|c| f(c));
        self.0 = b;
        a
    }
}
fn same_set<'a>(got: impl Iterator<Item = &'a ClauseId>, want: &[ClauseId]) -> bool {
    let got: Vec<&ClauseId> = got.collect();
    got.len() == want.len() && want.iter().all(|c| got.contains(&c))
}
/// What is stored, read back through each index in turn.
fn compare(s: &ClauseSet, n: &Naive, groups: u8, all: &[ClauseId]) {
    s.validate();
    for c in all {
        sym::check(s.contains(c) == n.0.contains(c), "the store and a list disagree on a clause");
    }
    let g = sym::choice(groups as usize) as u32;
    let mut t = s.clone();
    let got = t.remove_group(GroupId(g));
    let want: Vec<ClauseId> = n.0.iter().filter(|c| mentions(c, GroupId(g))).cloned().collect();
    sym::check(same_set(got.iter(), &want), "a clause is not reachable from a group it mentions");
    for c in all {
        sym::check(
            t.contains(c) == (n.0.contains(c) && !mentions(c, GroupId(g))),
            "removing a group removes the wrong clauses",
        );
    }
    t.validate();
}

/// Insertions.
#[no_mangle]
#[inline(never)]
pub fn k14_set() {
    let mut s = ClauseSet::new();
    let mut n = Naive(vec![]);
    let mut all = vec![];
    for i in 0..2 + TH {
        let ls: Vec<L> = (0..if i == 0 { 2 } else { 1 + sym::choice(2) }).map(|_| any(3)).collect();
        let Some(c) = clause(&ls) else {
            return;
        };
        s.insert(c.clone());
        n.insert(&c);
        all.push(c);
    }
    compare(&s, &n, 3, &all);
    sym::reach(0);
}

/// Removals of clauses, literals and groups.
#[no_mangle]
#[inline(never)]
pub fn k14_remove() {
    let mut s = ClauseSet::new();
    let mut n = Naive(vec![]);
    let mut all = vec![];
    for i in 0..3u8 {
        // clauses that share a group and possibly literals
        let ls = match i {
            0 => vec![(0, group(3), true), any(3)],
            1 => vec![(0, 1, sym::bool())],
            _ => vec![(0, group(3), true), (1, 2, sym::bool())],
        };
        let Some(c) = clause(&ls) else {
            return;
        };
        s.insert(c.clone());
        n.insert(&c);
        all.push(c);
    }
    match sym::choice(3) {
        0 => {
            let k = sym::choice(3);
            let r = s.remove(&all[k]);
            let had = !n.take(|c| *c == all[k]).is_empty();
            sym::check(r == had, "removing a clause reports the wrong thing");
            sym::check(!s.remove(&all[k]), "a removed clause is still there");
        }
        1 => {
            let l = id(&(0, group(3), sym::bool()));
            let got = s.remove_literal(&l);
            let want = n.take(|c| c.literals().iter().any(|x| *x == l));
            sym::check(same_set(got.iter(), &want), "removing a literal returns the wrong clauses");
        }
        _ => {
            let g = GroupId(group(3) as u32);
            let got = s.remove_group(g);
            let want = n.take(|c| mentions(c, g));
            sym::check(same_set(got.iter(), &want), "removing a group returns the wrong clauses");
        }
    }
    compare(&s, &n, 3, &all);
    let k = sym::choice(3);
    s.insert(all[k].clone());
    n.insert(&all[k]);
    compare(&s, &n, 3, &all);
    sym::reach(0);
}

/// A merge of two groups, as the caller does it.
#[no_mangle]
#[inline(never)]
pub fn k14_rename() {
    let mut s = ClauseSet::new();
    let mut n = Naive(vec![]);
    let mut given = vec![];
    for i in 0..2 {
        let ls: Vec<L> = (0..2 - i).map(|_| any(3)).collect();
        let Some(c) = clause(&ls) else {
            return;
        };
        s.insert(c);
        given.push(ls);
    }
    let (from, to) = (group(3), group(3));
    sym::assume(from != to);
    let re = |g: u8| if g == from { to } else { g };
    for c in s.remove_group(GroupId(from as u32)) {
        let ls: Vec<L> =
            c.literals().iter().map(|l| (re(l.left.get() as u8), re(l.right.get() as u8), l.positive)).collect();
        if let Some(c) = clause(&ls) {
            s.insert(c);
        }
    }
    let mut all = vec![];
    for ls in &given {
        let ls: Vec<L> = ls.iter().map(|l| (re(l.0), re(l.1), l.2)).collect();
        if let Some(c) = clause(&ls) {
            n.insert(&c);
            all.push(c);
        }
    }
    compare(&s, &n, 3, &all);
    sym::check(s.remove_group(GroupId(from as u32)).is_empty(), "a renamed group is still mentioned");
    sym::reach(0);
}

fn constant(i: u8) -> Term {
    Term::atom(Atom::Symbol(Symbol::GlobalConstant(ModuleId(0), i as u16)))
}
fn raw(ls: &[L]) -> Clause {
    let literals = ls
        .iter()
        .map(|l| Literal { positive: l.2, left: constant(l.0), right: constant(l.1) })
        .collect();
    Clause { literals, context: LocalContext::empty() }
}
/// In the graph: clauses survive merges under every renaming, and nothing else appears.
fn graph(late: bool) {
    const N: u8 = 4 + TH as u8;
    let kc = KernelContext::new();
    let c1 = [(0, group(N), sym::bool()), any(N)];
    let c2 = [(0, 1, sym::bool()), (group(N), 2, sym::bool())];
    let m = (group(N), group(N), true);
    sym::assume(m.0 < m.1);
    let mut g = EqualityGraph::new();
    for w in 0..2 {
        if (w == 0) == late {
            g.insert_clause(&raw(&c1), StepId(0), &kc);
            g.insert_clause(&raw(&c2), StepId(1), &kc);
        } else {
            g.insert_clause(&raw(&[m]), StepId(2), &kc);
        }
    }
    // what is reported holds wherever the clauses and the merge do
    let v: Vec<u8> = (0..N).map(|_| sym::below(N)).collect();
    let model = (holds(&c1[0], &v) | holds(&c1[1], &v)) & (holds(&c2[0], &v) | holds(&c2[1], &v)) & holds(&m, &v);
    if g.has_contradiction() {
        sym::check(!model, "a contradiction is reported for clauses that are true together");
        sym::reach(1);
    } else {
        let mut right = true;
        for a in 0..N {
            for b in 0..N {
                match g.evaluate_literal(&raw(&[(a, b, true)]).literals[0], &kc) {
                    Some(true) => right &= holds(&(a, b, true), &v),
                    Some(false) => right &= !holds(&(a, b, true), &v),
                    None => {}
                }
            }
        }
        sym::check(!model | right, "a literal is decided against what is possible");
        sym::reach(0);
    }
    // each clause is known, with either of the merged constants
    let mut known = true;
    for c in [&c1, &c2] {
        for w in 0..4 {
            let re = |x: u8, s: bool| if x == m.0 && s { m.1 } else if x == m.1 && s { m.0 } else { x };
            let q = [
                (re(c[1].1, w == 1), re(c[1].0, w == 2), c[1].2),
                (re(c[0].0, w & 1 == 1), re(c[0].1, w >= 2), c[0].2),
            ];
            known &= g.check_clause(&raw(&q), &kc);
        }
    }
    sym::check(known, "an inserted clause is lost when groups are merged");
}

/// Clauses first, then the merges.
#[no_mangle]
#[inline(never)]
pub fn k14_graph() {
    graph(true);
}

/// Merges first, then the clauses.
#[no_mangle]
#[inline(never)]
pub fn k14_graph_after() {
    graph(false);
}

/// A clause whose other literal is refuted leaves the remaining one.
#[no_mangle]
#[inline(never)]
pub fn k14_units() {
    let kc = KernelContext::new();
    let c = [any(4), (2, 3, sym::bool())];
    let u = (c[0].0, c[0].1, !c[0].2);
    let m = (group(4), group(4), true);
    let seq = [[0, 1, 2], [1, 0, 2], [2, 0, 1], [2, 1, 0], [0, 2, 1]][sym::choice(5)];
    let mut g = EqualityGraph::new();
    for s in seq {
        match s {
            0 => g.insert_clause(&raw(&c), StepId(0), &kc),
            1 => g.insert_clause(&raw(&[u]), StepId(1), &kc),
            _ => g.insert_clause(&raw(&[m]), StepId(2), &kc),
        }
    }
    if g.has_contradiction() {
        let v: Vec<u8> = (0..4).map(|_| sym::below(4)).collect();
        let model = (holds(&c[0], &v) | holds(&c[1], &v)) & holds(&u, &v) & holds(&m, &v);
        sym::check(!model, "a contradiction is reported for clauses that are true together");
        sym::reach(1);
        return;
    }
    let l = raw(&[c[1]]);
    sym::check(g.check_clause(&l, &kc), "the last possible literal of a clause is not known");
    sym::reach(0);
}
