//! Ground equality reasoning against a naive congruence closure over the terms that occur.
use super::gen::*;
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::clause::Clause;
use crate::kernel::equality_graph::{EqualityGraph, StepId};
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::{Decomposition, Term, TermRef};

pub const HARNESSES: &[(&str, fn())] = &[
    ("k04_flat", k04_flat),
    ("k04_apply", k04_apply),
    ("k04_nested", k04_nested),
    ("k04_binary", k04_binary),
    ("k04_heads", k04_heads),
    ("k04_eq_terms", k04_eq_terms),
    ("k04_binders", k04_binders),
    ("k04_order", k04_order),
    ("k04_several", k04_several),
    ("k04_clauses", k04_clauses),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// Naive congruence closure: a table of all subterms, and the smallest equivalence closed under
/// the asserted equalities and application.
pub struct Ref {
    terms: Vec<Term>,
    parts: Vec<Option<(usize, usize)>>,
    class: Vec<usize>,
    pub unequal: Vec<(usize, usize)>,
}
impl Ref {
    pub fn new() -> Ref {
        Ref { terms: vec![], parts: vec![], class: vec![], unequal: vec![] }
    }
    fn add_ref(&mut self, t: TermRef) -> usize {
        let o = t.to_owned();
        for i in 0..self.terms.len() {
            if self.terms[i] == o {
                return i;
            }
        }
        let parts = match t.decompose() {
            Decomposition::Application(f, a) => {
                let f = self.add_ref(f);
                let a = self.add_ref(a);
                Some((f, a))
            }
            _ => None,
        };
        let i = self.terms.len();
        self.terms.push(o);
        self.parts.push(parts);
        self.class.push(i);
        i
    }
    pub fn add(&mut self, t: &Term) -> usize {
        let i = self.add_ref(t.as_ref());
        i
    }
    fn merge(&mut self, a: usize, b: usize) {
        let (a, b) = (self.class[a], self.class[b]);
        for c in self.class.iter_mut() {
            if *c == a {
                *c = b;
            }
        }
    }
    pub fn close(&mut self) {
        loop {
            let mut changed = false;
            for i in 0..self.terms.len() {
                for j in 0..i {
                    if self.class[i] == self.class[j] {
                        continue;
                    }
                    if let (Some((f, a)), Some((g, b))) = (self.parts[i], self.parts[j]) {
                        if self.class[f] == self.class[g] && self.class[a] == self.class[b] {
                            self.merge(i, j);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                return;
            }
        }
    }
    pub fn assert(&mut self, l: &Literal) {
        let a = self.add(&l.left);
        let b = self.add(&l.right);
        if l.positive {
            self.merge(a, b);
        } else {
            self.unequal.push((a, b));
        }
    }
    pub fn contradiction(&self) -> bool {
        self.unequal.iter().any(|(a, b)| self.class[*a] == self.class[*b])
    }
    pub fn same(&self, a: usize, b: usize) -> bool {
        self.class[a] == self.class[b]
    }
    pub fn differ(&self, a: usize, b: usize) -> bool {
        self.unequal
            .iter()
            .any(|(u, v)| self.same(*u, a) && self.same(*v, b) || self.same(*u, b) && self.same(*v, a))
    }
}

fn unit(l: &Literal) -> Clause {
    raw_clause(vec![l.clone()], &LocalContext::empty())
}
fn graph(kc: &KernelContext, facts: &[Literal]) -> EqualityGraph {
    let mut g = EqualityGraph::new();
    for (i, f) in facts.iter().enumerate() {
        g.insert_clause(&unit(f), StepId(i), kc);
    }
    g
}
/// Facts, then queries; `extra` are further terms whose equalities hold anyway.
fn go(facts: &[Literal], queries: &[Literal]) {
    let kc = KernelContext::new();
    let mut r = Ref::new();
    for f in facts {
        r.assert(f);
    }
    let mut ids = vec![];
    for q in queries {
        ids.push((r.add(&q.left), r.add(&q.right)));
    }
    r.close();
    let mut g = graph(&kc, facts);
    let bad = r.contradiction();
    sym::check(g.has_contradiction() == bad, "a contradiction is reported exactly when an asserted inequality is refuted");
    if bad {
        sym::reach(0);
        return;
    }
    for (q, (a, b)) in queries.iter().zip(ids) {
        let want = if r.same(a, b) {
            Some(q.positive)
        } else if r.differ(a, b) {
            Some(!q.positive)
        } else {
            None
        };
        let got = g.evaluate_literal(q, &kc);
        sym::check(got == want, "a queried equality is known exactly when it follows");
        sym::check(g.check_clause(&unit(q), &kc) == (want == Some(true)), "check_clause agrees with the evaluation");
        match g.evaluate_literal_with_dependencies(q, &kc) {
            Some((v, _)) => sym::check(Some(v) == want, "the evaluation with dependencies agrees"),
            None => sym::check(want.is_none(), "the evaluation with dependencies agrees"),
        }
        sym::check(!g.has_contradiction(), "a query does not add facts");
        sym::reach(if want.is_some() { 1 } else { 2 });
    }
    sym::observe(r.terms.len() as u64);
}

fn atom(id: u16) -> Term {
    Term::atom(Atom::Symbol(Symbol::GlobalConstant(MODULE, id)))
}
/// One of n constants with ids from base on.
fn c(base: u16, n: u8) -> Term {
    atom(base + sym::below(n) as u16)
}
fn f(t: Term) -> Term {
    atom(20).apply(&[t])
}
fn lit(pos: bool, a: Term, b: Term) -> Literal {
    Literal { positive: pos, left: a, right: b }
}

/// Equalities and inequalities between constants.
#[no_mangle]
#[inline(never)]
pub fn k04_flat() {
    let n = 3 + TH as u8;
    let k = sym::choice(4 + TH);
    let mut facts = vec![lit(true, c(0, n), c(0, n))];
    for i in 0..3 + TH {
        facts.push(lit(i != k, c(0, n), c(0, n)));
    }
    go(&facts, &[lit(true, c(0, n), c(0, n))]);
}

/// Also below one function.
#[no_mangle]
#[inline(never)]
pub fn k04_apply() {
    let t = || {
        let x = c(0, 3);
        if sym::choice(2) == 0 {
            x
        } else {
            f(x)
        }
    };
    let facts = vec![lit(true, t(), t()), lit(true, c(0, 2 + TH as u8), c(0, 3)), lit(sym::choice(2) == 0, t(), t())];
    go(&facts, &[lit(true, f(c(0, 2 + TH as u8)), t())]);
}

fn tower(n: usize, t: Term) -> Term {
    let mut t = t;
    for _ in 0..n {
        t = f(t);
    }
    t
}
/// Towers of applications: f(f(f(a))) = a and the like.
#[no_mangle]
#[inline(never)]
pub fn k04_nested() {
    let h = 4 + TH;
    let facts = vec![
        lit(true, tower(1 + sym::choice(h), atom(0)), tower(sym::choice(2), atom(0))),
        lit(true, tower(1 + sym::choice(h), atom(0)), tower(sym::choice(2), c(0, 2))),
        lit(sym::choice(2) == 0, tower(sym::choice(3), c(0, 2)), tower(sym::choice(2), atom(1))),
    ];
    let mut qs = vec![lit(true, tower(1, atom(0)), atom(0)), lit(false, tower(2, c(0, 2)), c(0, 2))];
    qs.push(lit(true, tower(h, atom(0)), atom(1)));
    go(&facts, &qs);
}

/// Several functions applied to each constant, so groups with many applications merge.
#[no_mangle]
#[inline(never)]
pub fn k04_several() {
    let ap = |i: u16, t: Term| atom(20 + i).apply(&[t]);
    let mut facts = vec![];
    // some of f_i(c_j) have names
    for j in 0..3u16 {
        let m = [3, 4, 5 + 2 * TH as u16][if j == 0 { 0 } else { sym::choice(2 + TH) }];
        for i in 0..3u16 {
            if m >> i & 1 == 1 {
                facts.push(lit(true, ap(i, atom(j)), atom(5 + 3 * j + i)));
            }
        }
    }
    // classes of different sizes merge in different directions
    let small = sym::choice(3) as u16;
    let big = (small + 1 + sym::choice(2) as u16) % 3;
    facts.push(lit(true, atom(38), atom(3 - small - big)));
    facts.push(lit(true, atom(39), atom(38)));
    for k in 0..7 {
        facts.push(lit(true, atom(40 + k), atom(big)));
    }
    facts.push(lit(true, c(0, 3), c(0, 3)));
    facts.push(lit(true, c(0, 3), c(0, 3)));
    let i = sym::choice(3) as u16;
    go(&facts, &[lit(true, ap(i, c(0, 3)), atom(5 + i)), lit(true, atom(5 + i), atom(8 + i)), lit(true, atom(8 + i), atom(11 + i))]);
}

/// A function of two arguments: each argument position counts.
#[no_mangle]
#[inline(never)]
pub fn k04_binary() {
    let g = |a: Term, b: Term| atom(30).apply(&[a, b]);
    let gg = || g(c(0, 3), c(0, 2));
    let facts = vec![
        lit(true, c(0, 3), c(0, 2 + TH as u8)),
        match sym::choice(3) {
            0 => lit(true, gg(), atom(0)),
            1 => lit(false, gg(), c(0, 3)),
            _ => lit(true, g(gg(), atom(1)), atom(2)),
        },
        lit(sym::choice(2) == 0, gg(), c(0, 3)),
    ];
    let q = if sym::choice(2) == 0 { g(c(0, 2), atom(1)) } else { g(g(atom(0), atom(1)), c(0, 2)) };
    go(&facts, &[lit(true, q, g(atom(1), atom(0)))]);
}

/// Equalities between functions, and partial applications.
#[no_mangle]
#[inline(never)]
pub fn k04_heads() {
    let h = || c(20, 2);
    let part = || atom(30).apply(&[c(0, 2)]);
    let fun = || if sym::choice(2) == 0 { h() } else { part() };
    let facts = vec![
        lit(sym::choice(2) == 0, fun(), fun()),
        lit(sym::choice(2) == 0, fun().apply(&[c(0, 2)]), atom(0)),
    ];
    let mut facts = facts;
    if sym::choice(2) == 1 {
        facts.push(lit(true, atom(0), atom(1)));
    }
    go(&facts, &[lit(true, fun().apply(&[atom(0)]), h().apply(&[c(0, 2)])), lit(false, atom(30).apply(&[atom(1)]), h())]);
}

/// Equality propositions as terms: both orientations are the same proposition.
#[no_mangle]
#[inline(never)]
pub fn k04_eq_terms() {
    let ty = atom(40);
    let kc = KernelContext::new();
    let e = |a: Term, b: Term| Term::eq(ty.clone(), a, b);
    let (x, y, z) = (c(0, 3), c(0, 3), c(0, 3));
    let p = e(x.clone(), y.clone());
    let other = e(c(0, 3), c(0, 3));
    let facts = vec![lit(sym::choice(2) == 0, z, c(0, 3)), lit(sym::choice(2) == 0, p, tru())];
    let query = lit(true, other.clone(), tru());
    // reference: every eq term that occurs is equal to its mirror image
    let mut r = Ref::new();
    for f in &facts {
        r.assert(f);
    }
    let q = (r.add(&query.left), r.add(&query.right));
    for i in 0..r.terms.len() {
        if let Some((h, args)) = r.terms[i].as_ref().split_application_multi() {
            if args.len() == 3 && *h.get_head_atom() == Atom::Symbol(Symbol::Eq) {
                let m = e(args[2].clone(), args[1].clone());
                let m = r.add(&m);
                r.merge(i, m);
            }
        }
    }
    r.close();
    let mut g = graph(&kc, &facts);
    // the mirror image of the query is only known to the reference
    g.insert_term(&other, &kc);
    let bad = r.contradiction();
    sym::check(g.has_contradiction() == bad, "a contradiction between equality propositions");
    if bad {
        return;
    }
    let want = if r.same(q.0, q.1) {
        Some(true)
    } else if r.differ(q.0, q.1) {
        Some(false)
    } else {
        None
    };
    sym::check(g.evaluate_literal(&query, &kc) == want, "an equality proposition is known exactly when it follows");
    sym::reach(if want.is_some() { 0 } else { 1 });
    sym::observe(r.terms.len() as u64);
}

/// Quantified propositions and lambdas are opaque: equal only when identical.
#[no_mangle]
#[inline(never)]
pub fn k04_binders() {
    let ty = atom(40);
    let b = || {
        let body = atom(20).apply(&[if sym::choice(2) == 0 { bound(0) } else { c(0, 2) }]);
        match sym::choice(3) {
            0 => Term::forall(ty.clone(), body),
            1 => Term::exists(ty.clone(), body),
            _ => Term::lambda(ty.clone(), body),
        }
    };
    let facts = vec![lit(true, c(0, 2), c(0, 2)), lit(sym::choice(2) == 0, b(), b())];
    go(&facts, &[lit(true, atom(21).apply(&[b()]), atom(21).apply(&[b()]))]);
}

/// Any order of the same facts, each possibly turned around, gives the same answers.
#[no_mangle]
#[inline(never)]
pub fn k04_order() {
    let kc = KernelContext::new();
    let t = || {
        let x = c(0, 2 + TH as u8);
        if sym::choice(2) == 0 {
            x
        } else {
            f(x)
        }
    };
    let facts = vec![lit(true, t(), f(t())), lit(sym::choice(2) == 0, t(), t()), lit(true, t(), c(0, 2))];
    let perms = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let p = perms[sym::choice(5)];
    let flip = p[0] == 2;
    let other: Vec<Literal> = p
        .iter()
        .map(|&i| {
            let l = &facts[i];
            if flip {
                lit(l.positive, l.right.clone(), l.left.clone())
            } else {
                l.clone()
            }
        })
        .collect();
    let mut a = graph(&kc, &facts);
    let mut b = graph(&kc, &other);
    sym::check(a.has_contradiction() == b.has_contradiction(), "the order of the facts changes whether they contradict");
    if a.has_contradiction() {
        sym::reach(0);
        return;
    }
    let q = lit(true, f(c(0, 2)), atom(1));
    sym::check(a.evaluate_literal(&q, &kc) == b.evaluate_literal(&q, &kc), "the order of the facts changes an answer");
    sym::reach(1);
    sym::observe(0);
}

/// Longer clauses: whatever is reported follows from the clauses by cases.
#[no_mangle]
#[inline(never)]
pub fn k04_clauses() {
    let kc = KernelContext::new();
    let l = || lit(sym::choice(2) == 0, c(0, 2), c(1, 2));
    let c2 = vec![lit(sym::choice(2) == 0, atom(0), c(1, 2)), l()];
    let c3 = vec![lit(sym::choice(2) == 0, atom(0), atom(1)), l()];
    let u = lit(sym::choice(2) == 0, atom(0), c(1, 2));
    let q = lit(true, c(0, 2), atom(2));
    // by cases on the literals chosen from the two long clauses
    let mut any_model = false;
    let mut always = [true, true];
    for a in &c2 {
        for b in &c3 {
            let mut r = Ref::new();
            for x in [a, b, &u] {
                r.assert(x);
            }
            let (s, t) = (r.add(&q.left), r.add(&q.right));
            r.close();
            if r.contradiction() {
                continue;
            }
            any_model = true;
            if !r.same(s, t) {
                always[0] = false;
            }
            if !r.differ(s, t) {
                always[1] = false;
            }
        }
    }
    let mut r = Ref::new();
    r.assert(&u);
    for w in 0..3 {
        let mut g = EqualityGraph::new();
        for i in 0..3 {
            match (i + w) % 3 {
                0 => g.insert_clause(&raw_clause(c2.clone(), &LocalContext::empty()), StepId(0), &kc),
                1 => g.insert_clause(&raw_clause(c3.clone(), &LocalContext::empty()), StepId(1), &kc),
                _ => g.insert_clause(&unit(&u), StepId(2), &kc),
            }
        }
        let bad = g.has_contradiction();
        sym::check(!bad || !any_model, "a contradiction is reported for satisfiable clauses");
        if bad {
            sym::reach(2);
            continue;
        }
        sym::check(g.check_clause(&raw_clause(c2.clone(), &LocalContext::empty()), &kc), "an inserted clause is not known");
        match g.evaluate_literal(&q, &kc) {
            Some(v) => {
                sym::check(always[if v { 0 } else { 1 }], "a literal is reported as known that does not follow");
                sym::reach(0);
            }
            None => sym::reach(1),
        }
    }
    sym::observe(any_model as u64);
}
