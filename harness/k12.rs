//! Renumbering, combining and specializing keep a clause and its variables' types together.
use super::gen::*;
use super::model::{Model, TB, TE, TT};
use super::sym;
use crate::kernel::atom::{Atom, AtomId};
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::term::Term;
use crate::kernel::unifier::{Scope, Unifier};
use crate::kernel::variable_map::VariableMap;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k12_renumber", k12_renumber),
    ("k12_renumber_poly", k12_renumber_poly),
    ("k12_trace", k12_trace),
    ("k12_trace_poly", k12_trace_poly),
    ("k12_specialize", k12_specialize),
    ("k12_replacement", k12_replacement),
    ("k12_compose", k12_compose),
    ("k12_combine", k12_combine),
];
const TH: usize = cfg!(vh_thorough) as usize;

fn v(i: AtomId) -> Term {
    Term::new_variable(i)
}
fn lit(p: bool, l: Term, r: Term) -> Literal {
    Literal { positive: p, left: l, right: r }
}
/// Where each old variable went, read off two sequences of literals of the same shape.
struct Corr {
    to: Vec<Option<AtomId>>,
}
impl Corr {
    fn new(n: usize) -> Corr {
        Corr { to: vec![None; n] }
    }
    fn atoms(&mut self, a: &Term, b: &Term) {
        let x: Vec<Atom> = a.iter_atoms().cloned().collect();
        let y: Vec<Atom> = b.iter_atoms().cloned().collect();
        sym::check(x.len() == y.len(), "a renumbered term changed its shape");
        for (p, q) in x.iter().zip(y.iter()) {
            match (p, q) {
                (Atom::FreeVariable(i), Atom::FreeVariable(j)) => match self.to[*i as usize] {
                    None => {
                        for o in &self.to {
                            sym::check(*o != Some(*j), "two variables were merged");
                        }
                        self.to[*i as usize] = Some(*j);
                    }
                    Some(o) => sym::check(o == *j, "a variable was split"),
                },
                _ => sym::check(p == q, "renumbering changed something else"),
            }
        }
    }
    fn literals(&mut self, a: &[Literal], b: &[Literal]) {
        sym::check(a.len() == b.len(), "renumbering changed the number of literals");
        for (x, y) in a.iter().zip(b.iter()) {
            sym::check(x.positive == y.positive, "renumbering changed a sign");
            self.atoms(&x.left, &y.left);
            self.atoms(&x.right, &y.right);
        }
    }
    /// Types moved along; in them too each variable stands for the one it stood for.
    fn types(&mut self, a: &LocalContext, b: &LocalContext) {
        let mut done = vec![false; self.to.len()];
        loop {
            let mut more = false;
            for i in 0..self.to.len() {
                if let (Some(j), false) = (self.to[i], done[i]) {
                    done[i] = true;
                    more = true;
                    let ta = a.get_var_type(i).cloned();
                    let tb = b.get_var_type(j as usize).cloned();
                    sym::check(tb.is_some(), "a renumbered variable has no type");
                    if let (Some(ta), Some(tb)) = (ta, tb) {
                        self.atoms(&ta, &tb);
                    }
                }
            }
            if !more {
                break;
            }
        }
    }
}

fn literal(w: &World) -> Literal {
    let p = sym::choice(2) == 0;
    match sym::choice(6) {
        0 => lit(p, con_at(K::TB, 0).apply(&[var2(0)]), tru()),
        1 => lit(p, var2(0), con_at(K::TT, 0).apply(&[var2(0)])),
        2 => lit(p, con_at(K::EB, 0).apply(&[var2(4)]), tru()),
        3 => lit(p, var2(2), tru()),
        4 => lit(
            p,
            Term::forall(w.t.clone(), con_at(K::TTB, 0).apply(&[bound(0), var2(0)])),
            var2(2),
        ),
        _ => lit(p, con_at(K::ET, 0).apply(&[var2(4)]), con_at(K::T, 0)),
    }
}
fn poly_literal(w: &World) -> Literal {
    let p = sym::choice(2) == 0;
    let pp = |t: Term, a: Term, b: Term| con_at(K::P, 0).apply(&[t, a, b]);
    match sym::choice(6) {
        0 => lit(p, pp(v(0), v(1 + bit()), v(1 + bit())), tru()),
        1 => lit(p, v(1), v(2)),
        2 => lit(p, pp(w.t.clone(), v(3), con_at(K::T, 0)), tru()),
        3 => lit(p, v(4), tru()),
        4 => lit(p, v(5).apply(&[v(3)]), v(3)),
        _ => lit(p, Term::exists(v(0), pp(v(0), bound(0), v(1))), tru()),
    }
}
fn renumber(raw: &Clause) {
    let c = match sym::choice(2) {
        0 => {
            let c = raw.compacted_var_ids_preserving_literal_shape();
            // consecutive
            let mut seen = vec![false; c.get_local_context().len()];
            for l in &c.literals {
                for a in l.iter_atoms() {
                    if let Atom::FreeVariable(i) = a {
                        seen[*i as usize] = true;
                    }
                }
            }
            for i in 0..seen.len() {
                // a variable may also be there for the sake of another one's type
                let used = seen[i]
                    || c.get_local_context().get_var_types().iter().flatten().any(|t| t.has_variable(i as AtomId));
                sym::check(used, "compacting left a gap");
            }
            c
        }
        _ => {
            let mut c = raw.clone();
            c.normalize_var_ids_types_last();
            // numbered by first occurrence
            let mut next = 0;
            for l in &c.literals {
                for a in l.left.iter_atoms().chain(l.right.iter_atoms()) {
                    if let Atom::FreeVariable(i) = a {
                        sym::check(*i <= next, "a variable is out of order");
                        if *i == next {
                            next += 1;
                        }
                    }
                }
            }
            sym::check(c.get_local_context().len() == raw.get_local_context().len(), "a variable was lost");
            c
        }
    };
    let mut k = Corr::new(raw.get_local_context().len());
    k.literals(&raw.literals, &c.literals);
    k.types(raw.get_local_context(), c.get_local_context());
    sym::reach(0);
    sym::observe(c.get_local_context().len() as u64);
}

/// Compacting, and numbering for the index.
#[no_mangle]
#[inline(never)]
pub fn k12_renumber() {
    let w = World::new(9);
    let c = e_context(&w);
    let mut l = vec![literal(&w), literal(&w)];
    if TH == 1 && sym::choice(2) == 1 {
        l.push(literal(&w));
    }
    renumber(&raw_clause(l, &c));
}
#[no_mangle]
#[inline(never)]
pub fn k12_renumber_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let mut l = vec![poly_literal(&w), poly_literal(&w)];
    if TH == 1 && sym::choice(2) == 1 {
        l.push(poly_literal(&w));
    }
    renumber(&raw_clause(l, &c));
}

/// Normalizing with a record of where the variables came from.
fn trace(w: &World, raw: Clause, poly: bool) {
    let c = raw.get_local_context().clone();
    let pinned = [0, 2][sym::choice(2)];
    let t = if pinned == 0 {
        Clause::normalize_with_trace(raw.literals.clone(), &c)
    } else {
        Clause::normalize_with_trace_pinned(raw.literals.clone(), &c, pinned)
    };
    let n = &t.clause;
    let nc = n.get_local_context();
    sym::check(t.pre_norm_context == c, "the trace has another context");
    sym::check(t.var_ids.len() == nc.len(), "the trace does not cover the variables");
    for i in 0..t.var_ids.len() {
        for j in 0..i {
            sym::check(t.var_ids[i] != t.var_ids[j], "two variables were merged");
        }
        if i < pinned {
            sym::check(t.var_ids[i] as usize == i, "a pinned variable moved");
        }
        // the type of the new variable is the old one's, renumbered
        let old = c.get_var_type(t.var_ids[i] as usize).unwrap();
        let mut k = Corr::new(c.len());
        for j in 0..t.var_ids.len() {
            k.to[t.var_ids[j] as usize] = Some(j as AtomId);
        }
        k.atoms(old, nc.get_var_type(i).unwrap());
    }
    // from_var_ids is the same correspondence
    let m = VariableMap::from_var_ids(&t.var_ids);
    for i in 0..t.var_ids.len() {
        sym::check(m.get_mapping(t.var_ids[i]) == Some(&v(i as AtomId)), "the variable map disagrees");
    }
    for l in &n.literals {
        for a in l.iter_atoms() {
            if let Atom::FreeVariable(i) = a {
                sym::check((*i as usize) < nc.len(), "a variable without a type");
            }
        }
    }
    if poly {
        let mut m = Model::new_poly(w, 2, 2);
        let a = m.literals(&raw.literals, &c);
        let b = m.clause(n);
        sym::check(a == b, "normalizing changed the meaning");
    } else {
        // for each value of the variables: the new clause under the corresponding values
        let mut m = Model::new(w, 2, 2);
        let vals: Vec<u64> = [TT, TT, TB, TB, TE, TE].iter().map(|t| m.fresh(*t)).collect();
        let a = at(&mut m, &raw.literals, &c, &vals);
        let nv: Vec<u64> = t.var_ids.iter().map(|i| vals[*i as usize]).collect();
        let b = at(&mut m, &n.literals, nc, &nv);
        sym::check(a == b, "the renumbered clause says something else");
    }
    sym::reach(0);
    sym::observe(n.literals.len() as u64);
}
/// Truth under given values of the variables.
fn at(m: &mut Model, lits: &[Literal], c: &LocalContext, vals: &[u64]) -> u64 {
    let vt = m.var_types(c);
    for i in 0..vals.len() {
        m.set_var(i, vals[i]);
    }
    let mut r = 0;
    for l in lits {
        let (ta, a) = m.value(&l.left, &vt);
        let (tb, b) = m.value(&l.right, &vt);
        sym::check(ta == tb, "ill-typed literal");
        r |= ((a == b) as u64) ^ (l.positive as u64) ^ 1;
    }
    r
}
#[no_mangle]
#[inline(never)]
pub fn k12_trace() {
    let w = World::new(9);
    let c = e_context(&w);
    let raw = raw_clause(vec![literal(&w), literal(&w)], &c);
    trace(&w, raw, false);
}
#[no_mangle]
#[inline(never)]
pub fn k12_trace_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let raw = raw_clause(vec![poly_literal(&w), poly_literal(&w)], &c);
    trace(&w, raw, true);
}

fn values(m: &mut Model, t: &[u8]) -> Vec<u64> {
    t.iter().map(|t| m.fresh(*t)).collect()
}

/// A substitution over the clause's own variables.
#[no_mangle]
#[inline(never)]
pub fn k12_specialize() {
    let w = World::new(9);
    let c = e_context(&w);
    let clause = raw_clause(vec![literal(&w), literal(&w)], &c);
    let mut map = VariableMap::new();
    if sym::choice(2) == 1 {
        map.set(0, match sym::choice(3) {
            0 => con_at(K::T, 1),
            1 => con_at(K::TT, 1).apply(&[v(1)]),
            _ => con_at(K::ET, 1).apply(&[v(5)]),
        });
    }
    if sym::choice(2) == 1 {
        map.set(2, match sym::choice(2) {
            0 => v(3),
            _ => Term::exists(w.t.clone(), con_at(K::TTB, 1).apply(&[bound(0), v(1)])),
        });
    }
    if sym::choice(2) == 1 {
        map.set(4, v(5));
    }
    let out = map.specialize_clause(&clause, &w.kc);
    let mut m = Model::new(&w, 2, 2);
    let tys = [TT, TT, TB, TB, TE, TE];
    let vals = values(&mut m, &tys);
    let inst = instance(&mut m, &map, &tys, &vals, &tys, &vals);
    let oc = out.get_local_context();
    let a = at(&mut m, &clause.literals, &c, &inst);
    let b = at(&mut m, &out.literals, oc, &vals);
    sym::check(a == b, "specializing is not simultaneous substitution");
    // and with the numbers compacted
    let k = map.specialize_clause_with_compact_vars(&clause, &w.kc);
    let mut corr = Corr::new(oc.len().max(6));
    corr.literals(&out.literals, &k.literals);
    corr.types(oc, k.get_local_context());
    sym::reach(0);
    sym::observe(k.get_local_context().len() as u64);
}
/// The values the clause's variables get: those of their replacements.
fn instance(m: &mut Model, map: &VariableMap, tys: &[u8], vals: &[u64], rty: &[u8], rvals: &[u64]) -> Vec<u64> {
    let mut out = vals.to_vec();
    for i in 0..rvals.len() {
        m.set_var(i, rvals[i]);
    }
    for i in 0..tys.len() {
        if let Some(t) = map.get_mapping(i as AtomId) {
            let (ty, x) = m.value(t, rty);
            sym::check(ty == tys[i], "harness: replacement of another type");
            out[i] = x;
        }
    }
    out
}

/// Replacements over variables of another clause: x0,x1: Bool, x2,x3: E, x4,x5: T.
#[no_mangle]
#[inline(never)]
pub fn k12_replacement() {
    let w = World::new(9);
    let c = e_context(&w);
    let rc = ctx(&[&w.b, &w.b, &w.e, &w.e, &w.t, &w.t]);
    let clause = raw_clause(vec![literal(&w), literal(&w)], &c);
    let map = full_map(&w);
    let out = map.specialize_clause_with_replacement_context(&clause, &rc, &w.kc);
    let mut m = Model::new(&w, 2, 2);
    let tys = [TT, TT, TB, TB, TE, TE];
    let rtys = [TB, TB, TE, TE, TT, TT];
    let rvals = values(&mut m, &rtys);
    let inst = instance(&mut m, &map, &tys, &[0; 6], &rtys, &rvals);
    let a = at(&mut m, &clause.literals, &c, &inst);
    let b = at(&mut m, &out.literals, out.get_local_context(), &rvals);
    sym::check(a == b, "specializing is not simultaneous substitution");
    let k = map.specialize_clause_with_replacement_context_and_compact_vars(&clause, &rc, &w.kc);
    let mut corr = Corr::new(6);
    corr.literals(&out.literals, &k.literals);
    corr.types(out.get_local_context(), k.get_local_context());
    sym::reach(0);
    sym::observe(k.get_local_context().len() as u64);
}
fn full_map(w: &World) -> VariableMap {
    let mut map = VariableMap::new();
    map.set(0, match sym::choice(3) {
        0 => v(4),
        1 => con_at(K::TT, 1).apply(&[v(5)]),
        _ => con_at(K::ET, 1).apply(&[v(2)]),
    });
    map.set(1, v([4, 5][sym::choice(2)]));
    map.set(2, match sym::choice(2) {
        0 => v(0),
        _ => Term::and(v(1), con_at(K::EB, 1).apply(&[v(3)])),
    });
    map.set(3, Term::forall(w.b.clone(), Term::or(bound(0), v(0))));
    map.set(4, v(2));
    map.set(5, v([2, 3][sym::choice(2)]));
    map
}

/// Composing two maps is applying one after the other.
#[no_mangle]
#[inline(never)]
pub fn k12_compose() {
    let w = World::new(9);
    let c = e_context(&w);
    let rc = ctx(&[&w.b, &w.b, &w.e, &w.e, &w.t, &w.t]);
    // a: variables of c to terms over rc; b: variables of rc to terms over c
    let a = full_map(&w);
    let mut b = VariableMap::new();
    b.set(0, match sym::choice(2) {
        0 => v(2),
        _ => con_at(K::TTB, 0).apply(&[v(0), v(1)]),
    });
    b.set(1, v(3));
    b.set(2, v(5));
    b.set(3, v([4, 5][sym::choice(2)]));
    b.set(4, match sym::choice(2) {
        0 => v(1),
        _ => con_at(K::TT, 0).apply(&[v(0)]),
    });
    b.set(5, v(0));
    let ab = a.compose(&rc, &b, &c, &w.kc);
    let mut m = Model::new(&w, 2, 2);
    let tys = [TT, TT, TB, TB, TE, TE];
    let rtys = [TB, TB, TE, TE, TT, TT];
    let vals = values(&mut m, &tys);
    let mid = instance(&mut m, &b, &rtys, &[0; 6], &tys, &vals);
    let want = instance(&mut m, &a, &tys, &[0; 6], &rtys, &mid);
    for i in 0..6 {
        sym::check(ab.get_mapping(i as AtomId).is_some(), "a mapping was lost");
    }
    let got = instance(&mut m, &ab, &tys, &[0; 6], &tys, &vals);
    for i in 0..6 {
        sym::check(want[i] == got[i], "composing is not applying one after the other");
    }
    // the context built for a map's output types each variable
    let o = a.build_output_context_from_replacement_context(&rc);
    for (_, t) in a.iter() {
        for x in t.iter_atoms() {
            if let Atom::FreeVariable(i) = x {
                sym::check(o.get_var_type(*i as usize) == rc.get_var_type(*i as usize), "the output context has another type");
            }
        }
    }
    sym::reach(0);
}

/// Two clauses in one context.
#[no_mangle]
#[inline(never)]
pub fn k12_combine() {
    let poly = sym::choice(2) == 1;
    let w = World::poly();
    let (lc, rc) = if poly {
        (w.poly_context(), w.poly_context())
    } else {
        (e_context(&w), ctx(&[&w.b, &w.b, &w.e, &w.e, &w.t, &w.t]))
    };
    let l = if poly {
        vec![poly_literal(&w), poly_literal(&w)]
    } else {
        vec![literal(&w), literal(&w)]
    };
    let r = if poly {
        vec![poly_literal(&w)]
    } else {
        vec![
            lit(true, con_at(K::TB, 0).apply(&[var2(4)]), var2(0)),
            lit(false, con_at(K::EB, 0).apply(&[var2(2)]), tru()),
        ]
    };
    let mut u = Unifier::new(3, &w.kc);
    u.set_input_context(Scope::LEFT, &lc);
    u.set_input_context(Scope::RIGHT, &rc);
    let order = sym::choice(2);
    let mut lo = vec![];
    let mut ro = vec![];
    for k in 0..2 {
        if k == order {
            for x in &l {
                lo.push(lit(x.positive, u.apply(Scope::LEFT, &x.left), u.apply(Scope::LEFT, &x.right)));
            }
        } else {
            for x in &r {
                ro.push(lit(x.positive, u.apply(Scope::RIGHT, &x.left), u.apply(Scope::RIGHT, &x.right)));
            }
        }
    }
    let (maps, oc) = u.into_maps_with_context();
    let mut a = Corr::new(lc.len());
    a.literals(&l, &lo);
    a.types(&lc, &oc);
    let mut b = Corr::new(rc.len());
    b.literals(&r, &ro);
    b.types(&rc, &oc);
    for x in a.to.iter().flatten() {
        for y in b.to.iter().flatten() {
            sym::check(x != y, "variables of different clauses were merged");
        }
    }
    for (s, map) in &maps {
        if *s == Scope::OUTPUT {
            continue;
        }
        let corr = if *s == Scope::LEFT { &a } else { &b };
        for (i, t) in map.iter() {
            sym::check(t.atomic_variable().is_some() && t.atomic_variable() == corr.to[i], "the map disagrees with the clause");
        }
    }
    sym::reach(0);
    sym::observe(oc.len() as u64);
}
