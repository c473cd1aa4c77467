//! Indexes find what a linear scan finds.
use super::gen::*;
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::clause::Clause;
use crate::kernel::fingerprint::{FingerprintSpecializer, FingerprintUnifier};
use crate::kernel::generalization_set::GeneralizationSet;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::pdt::LiteralSet;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::Term;
use crate::kernel::unifier::{Scope, Unifier};
use crate::kernel::variable_map::{apply_to_term, VariableMap};
use crate::prover::rewrite_tree::RewriteTree;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k11_unify", k11_unify),
    ("k11_unify_eq", k11_unify_eq),
    ("k11_unify_poly", k11_unify_poly),
    ("k11_special", k11_special),
    ("k11_special_poly", k11_special_poly),
    ("k11_literals", k11_literals),
    ("k11_literals_poly", k11_literals_poly),
    ("k11_clauses", k11_clauses),
    ("k11_rewrites", k11_rewrites),
    ("k11_rewrites_poly", k11_rewrites_poly),
    ("k11_phantom", k11_phantom),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// Whether constants have one name or two.
fn names(one: bool) {
    unsafe { super::gen::ONE_CONSTANT = one }
}
fn v(i: u16) -> Term {
    Term::new_variable(i)
}
/// x0,x1: T   x2,x3: Bool   x4: T -> T   x5: E
fn context(w: &World) -> LocalContext {
    let tt = w.fun(&w.t, &w.t);
    ctx(&[&w.t, &w.t, &w.b, &w.b, &tt, &w.e])
}
fn t0(vars: bool) -> Term {
    if !vars || sym::choice(2) == 0 {
        con(K::T)
    } else {
        v(bit())
    }
}
fn t1(vars: bool) -> Term {
    match sym::choice(if vars { 3 } else { 2 }) {
        0 => t0(vars),
        1 => con(K::TT).apply(&[t0(vars)]),
        _ => v(4).apply(&[t0(vars)]),
    }
}
/// Propositions and terms, applied up to two deep.
fn any(w: &World, vars: bool) -> Term {
    match sym::choice(6 + vars as usize) {
        0 => con(K::TTB).apply(&[t1(vars), t0(vars)]),
        1 => con(K::TB).apply(&[t1(vars)]),
        2 => con(K::TTT).apply(&[t0(vars), t1(vars)]),
        3 => t1(vars),
        4 => con(K::TTB).apply(&[t0(vars)]),
        5 => {
            if sym::choice(2) == 0 {
                Term::forall(w.t.clone(), con(K::TB).apply(&[if sym::choice(2) == 0 { bound(0) } else { t0(vars) }]))
            } else {
                con(K::B)
            }
        }
        _ => v(2 + bit()),
    }
}
fn unifies(w: &World, c: &LocalContext, a: &Term, b: &Term) -> bool {
    let mut u = Unifier::new(3, &w.kc);
    u.set_input_context(Scope::LEFT, c);
    u.set_input_context(Scope::RIGHT, c);
    u.unify(Scope::LEFT, a, Scope::RIGHT, b)
}
fn lookup(w: &World, c: &LocalContext, stored: &Term, other: &Term, query: &Term) {
    let mut f = FingerprintUnifier::new();
    let first = sym::bool();
    if first {
        f.insert(other, 1usize, c, &w.kc);
    }
    f.insert(stored, 0usize, c, &w.kc);
    if !first {
        f.insert(other, 1usize, c, &w.kc);
    }
    let found = f.find_unifying(query, c, &w.kc).iter().filter(|i| ***i == 0).count();
    sym::check(found <= 1, "an entry is returned twice");
    if unifies(w, c, query, stored) {
        sym::check(found == 1, "an entry that unifies with the query is not found");
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}
#[no_mangle]
#[inline(never)]
pub fn k11_unify() {
    let w = World::new(9);
    let c = context(&w);
    let q = any(&w, true);
    let s = any(&w, true);
    let o = con(K::TB).apply(&[v(0)]);
    lookup(&w, &c, &s, &o, &q);
}
#[no_mangle]
#[inline(never)]
pub fn k11_unify_eq() {
    let w = World::new(9);
    let c = context(&w);
    let eq = |n: bool| {
        let e = Term::eq(w.t.clone(), t1(n), t0(n));
        match sym::choice(3) {
            0 => e,
            1 => con(K::BB).apply(&[e]),
            _ => Term::not(e),
        }
    };
    let q = eq(true);
    let s = eq(false);
    let o = con(K::BB).apply(&[v(2)]);
    lookup(&w, &c, &s, &o, &q);
}
/// x0: Type, x1, x2: x0, x3: T, x4: Bool, x5: T -> T
fn poly(w: &World) -> Term {
    let (ty, args) = match sym::choice(4) {
        0 => (v(0), 1),
        1 => (w.t.clone(), 2),
        2 => (w.b.clone(), 3),
        _ => (w.fun(&w.t, &w.t), 4),
    };
    let arg = || match args {
        1 => v(1 + bit()),
        2 => match sym::choice(3) {
            0 => con(K::T),
            1 => v(3),
            _ => v(5).apply(&[con(K::T)]),
        },
        3 => match sym::choice(2) {
            0 => con(K::B),
            _ => v(4),
        },
        _ => match sym::choice(2) {
            0 => con(K::TT),
            _ => v(5),
        },
    };
    match sym::choice(3) {
        0 => con(K::P).apply(&[ty.clone(), arg(), arg()]),
        1 => arg(),
        _ => con(K::P).apply(&[ty.clone(), arg()]),
    }
}
#[no_mangle]
#[inline(never)]
pub fn k11_unify_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let q = poly(&w);
    let s = poly(&w);
    lookup(&w, &c, &s, &v(1), &q);
}

fn is_kind(t: &Term) -> bool {
    t.as_ref().is_type0() || t.as_ref().as_typeclass().is_some()
}
/// May a type variable of the given kind stand for this type?
fn allowed(w: &World, kind: &Term, ty: &Term, c: &LocalContext) -> bool {
    let Some(need) = kind.as_ref().as_typeclass() else { return true };
    let need = need.local_id();
    if let Some(i) = ty.as_ref().atomic_variable() {
        return match c.get_var_type(i as usize).unwrap().as_ref().as_typeclass() {
            Some(has) => has.local_id() >= need, // the second class extends the first
            None => false,
        };
    }
    *ty == w.t || (need == unsafe { FIRST_CLASS } && *ty == w.e)
}
fn types(p: &Term, t: &Term, m: &mut VariableMap) -> bool {
    if let Some(i) = p.as_ref().atomic_variable() {
        if let Some(old) = m.get_mapping(i) {
            return old == t;
        }
        m.set(i, t.clone());
        return true;
    }
    match (p.as_ref().split_pi(), t.as_ref().split_pi()) {
        (Some((a, b)), Some((x, y))) => types(&a.to_owned(), &x.to_owned(), m) && types(&b.to_owned(), &y.to_owned(), m),
        _ => p == t,
    }
}
/// The substitution of the pattern's variables that gives the target, with types and classes.
fn matched(w: &World, cg: &LocalContext, cs: &LocalContext, pairs: &[(&Term, &Term)]) -> Option<VariableMap> {
    let mut m = VariableMap::new();
    for (g, s) in pairs {
        if !m.match_terms_no_type_check(g.as_ref(), s.as_ref()) {
            return None;
        }
    }
    let found: Vec<(u16, Term)> = m.iter().map(|(i, t)| (i as u16, t.clone())).collect();
    for (i, t) in &found {
        let ty = cg.get_var_type(*i as usize).unwrap();
        if t.has_escaping_bound_variable() {
            return None;
        }
        if !is_kind(ty) && !types(ty, &t.get_type_with_context(cs, &w.kc), &mut m) {
            return None;
        }
    }
    let found: Vec<(u16, Term)> = m.iter().map(|(i, t)| (i as u16, t.clone())).collect();
    for (i, t) in &found {
        let ty = cg.get_var_type(*i as usize).unwrap();
        if is_kind(ty) && !allowed(w, ty, t, cs) {
            return None;
        }
    }
    Some(m)
}
fn matches(w: &World, cg: &LocalContext, cs: &LocalContext, g: (&Term, &Term), s: (&Term, &Term)) -> Option<VariableMap> {
    matched(w, cg, cs, &[(g.0, s.0), (g.1, s.1)])
}
static mut FIRST_CLASS: u16 = 0;
fn special(w: &World, c: &LocalContext, q: (Term, Term), s: Literal) {
    let mut f = FingerprintSpecializer::new();
    f.insert(&s, 0usize, c, &w.kc);
    let other = Literal { positive: true, left: q.0.clone(), right: q.1.clone() };
    f.insert(&other, 1usize, c, &w.kc);
    let out = f.find_specializing(&q.0, &q.1, c, &w.kc);
    let found = out.iter().filter(|i| ***i == 0).count();
    sym::check(out.iter().any(|i| **i == 1), "a literal is not found as an instance of itself");
    if matches(w, c, c, (&q.0, &q.1), (&s.left, &s.right)).is_some() {
        sym::check(found == 1, "an instance of the query is not found");
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}
fn sides(w: &World, vars: bool) -> (Term, Term) {
    match sym::choice(3) {
        0 => (con(K::TTB).apply(&[t1(vars), t0(vars)]), tru()),
        1 => (t1(vars), t0(vars)),
        _ => (
            Term::forall(w.t.clone(), con(K::TTB).apply(&[bound(0), t0(vars)])),
            if vars && sym::choice(2) == 0 { v(2) } else { tru() },
        ),
    }
}
#[no_mangle]
#[inline(never)]
pub fn k11_special() {
    let w = World::new(9);
    let c = context(&w);
    let q = if sym::choice(4) == 0 { (v(2), if sym::choice(2) == 0 { v(2) } else { tru() }) } else { sides(&w, true) };
    let (l, r) = sides(&w, true);
    special(&w, &c, q, Literal { positive: sym::bool(), left: l, right: r });
}
#[no_mangle]
#[inline(never)]
pub fn k11_special_poly() {
    let w = World::poly();
    let c = w.poly_context();
    let q = poly(&w);
    let l = poly(&w);
    special(&w, &c, (q, tru()), Literal { positive: true, left: l, right: tru() });
}

/// A literal as an activated step has it: the sides in order and the variables numbered.
fn stored(kc: (&World, &LocalContext), positive: bool, l: Term, r: Term) -> Option<(Literal, LocalContext)> {
    let c = Clause::new(vec![Literal::new(positive, l, r)], kc.1);
    if c.literals.len() != 1 {
        return None;
    }
    Some((c.literals[0].clone(), c.get_local_context().clone()))
}
fn instance(m: &VariableMap, t: &Term) -> Term {
    apply_to_term(t.as_ref(), m)
}
fn literal_sets(w: &World, entries: &[(Literal, LocalContext)], q: &(Literal, LocalContext)) {
    let mut set = LiteralSet::new();
    for (i, (l, c)) in entries.iter().enumerate() {
        set.insert(l, i, c);
    }
    let mut want = false;
    for (l, c) in entries {
        want |= matches(w, c, &q.1, (&l.left, &l.right), (&q.0.left, &q.0.right)).is_some()
            || matches(w, c, &q.1, (&l.right, &l.left), (&q.0.left, &q.0.right)).is_some();
    }
    let found = set.find_generalization(&q.0, &q.1, &w.kc);
    sym::check(found.is_some() || !want, "a stored literal that covers the query is not found");
    sym::check(found.is_none() || want, "a lookup finds a literal although none covers the query");
    let with_map = set.find_generalization_with_map(&q.0, &q.1, &w.kc);
    sym::check(with_map.is_some() == found.is_some(), "the two lookups disagree");
    if let Some((same, id, flipped, map)) = with_map {
        let (l, _) = &entries[id];
        sym::check(same == (l.positive == q.0.positive), "the sign of the found literal is wrong");
        let (a, b) = (instance(&map, &l.left), instance(&map, &l.right));
        let (a, b) = if flipped { (b, a) } else { (a, b) };
        sym::check(a == q.0.left && b == q.0.right, "the returned substitution does not give the query");
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}
fn pattern(w: &World, few: bool) -> (Term, Term) {
    match [2, 3, 4, 0, 1, 5, 6][sym::choice(if few { 3 } else { 6 + TH })] {
        0 => (con(K::TTB).apply(&[t0(true), t0(true)]), tru()),
        1 => (t1(true), t0(true)),
        2 => (v(5), v(5)), // stands for v(5), v(6)
        3 => (v(4).apply(&[v(bit())]), con(K::T)),
        4 => (v(2), v(3)),
        5 => (con(K::TTT).apply(&[v(0), v(1)]), con(K::TTT).apply(&[v(1), v(0)])),
        _ => (Term::forall(w.t.clone(), con(K::TTB).apply(&[bound(0), t0(true)])), tru()),
    }
}
#[no_mangle]
#[inline(never)]
pub fn k11_literals() {
    let w = World::new(9);
    // x6: E as well
    let tt = w.fun(&w.t, &w.t);
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b, &tt, &w.e, &w.e]);
    names(true);
    let mut es = vec![];
    for i in 0..2 {
        let (l, r) = pattern(&w, TH == 0 && i == 0);
        let (l, r) = if l == v(5) { (v(5), v(6)) } else { (l, r) };
        let sign = (TH == 0 && i == 0) || sym::bool();
        match stored((&w, &c), sign, l, r) {
            Some(e) => es.push(e),
            None => return,
        }
    }
    names(false);
    let (l, r) = match sym::choice(4 + 2 * TH) {
        0 => (con(K::TTB).apply(&[t0(true), t0(true)]), tru()),
        1 => (t1(true), t0(true)),
        2 => (v(5), v(6)),
        3 => (con(K::B), con_at(K::B, 1)),
        4 => (con(K::TTT).apply(&[t0(true), con(K::T)]), con(K::TTT).apply(&[t0(true), v(1)])),
        _ => (Term::forall(w.t.clone(), con(K::TTB).apply(&[bound(0), t0(true)])), tru()),
    };
    if let Some(q) = stored((&w, &c), sym::bool(), l, r) {
        literal_sets(&w, &es, &q);
    }
}
/// Two typeclasses, the second extends the first; T is an instance of both, E of the first.
fn classes(w: &mut World) -> (Term, Term) {
    use crate::elaborator::acorn_type::{AcornType, Datatype, Typeclass};
    let mk = |n: &str| Typeclass { module_id: MODULE, name: n.to_string() };
    let a = w.kc.type_store.add_typeclass(&mk("A"));
    let b = w.kc.type_store.add_typeclass(&mk("B"));
    w.kc.type_store.add_typeclass_extends(b, a);
    unsafe { FIRST_CLASS = a.local_id() };
    let ty = |n: &str| AcornType::Data(Datatype { module_id: MODULE, name: n.to_string() }, vec![]);
    w.kc.type_store.add_type_instance(&ty("T"), a);
    w.kc.type_store.add_type_instance(&ty("T"), b);
    w.kc.type_store.add_type_instance(&ty("E"), a);
    (w.kc.type_store.typeclass_to_term(a), w.kc.type_store.typeclass_to_term(b))
}
fn poly_literal(w: &World, classes: &(Term, Term)) -> (LocalContext, Term, Term) {
    // the type of the arguments
    let kind = match sym::choice(3) {
        0 => Term::type_sort(),
        1 => classes.0.clone(),
        _ => classes.1.clone(),
    };
    let c = ctx(&[&kind, &v(0), &v(0), &w.t, &w.e]);
    let (ty, a, b) = match sym::choice(3) {
        0 => (v(0), v(1), v(1 + bit())),
        1 => (w.t.clone(), if sym::choice(2) == 0 { v(3) } else { con(K::T) }, con(K::T)),
        _ => (w.e.clone(), v(4), v(4)),
    };
    if sym::choice(2) == 0 {
        (c, con(K::P).apply(&[ty, a, b]), tru())
    } else {
        (c, a, b)
    }
}
/// A pattern whose type variable occurs nowhere but in the type of another variable.
fn phantom(l: &Term) -> bool {
    l.as_ref().atomic_variable() == Some(1)
}
#[no_mangle]
#[inline(never)]
pub fn k11_phantom() {
    let mut w = World::poly();
    let cl = classes(&mut w);
    one_constant();
    let (c, l, r) = poly_literal(&w, &cl);
    let (qc, ql, qr) = poly_literal(&w, &cl);
    let (e, q) = (stored((&w, &c), true, l.clone(), r), stored((&w, &qc), true, ql, qr));
    if let (Some(e), Some(q), true) = (e, q, phantom(&l)) {
        literal_sets(&w, &[e], &q);
    }
}
#[no_mangle]
#[inline(never)]
pub fn k11_literals_poly() {
    let mut w = World::poly();
    let cl = classes(&mut w);
    names(TH == 0);
    let mut es = vec![];
    for _ in 0..2 {
        let (c, l, r) = poly_literal(&w, &cl);
        if phantom(&l) {
            return;
        }
        match stored((&w, &c), if TH == 0 { true } else { sym::bool() }, l, r) {
            Some(e) => es.push(e),
            None => return,
        }
    }
    names(false);
    let (c, l, r) = poly_literal(&w, &cl);
    if let Some(q) = stored((&w, &c), sym::bool(), l, r) {
        literal_sets(&w, &es, &q);
    }
}

/// Is there an order of the literals and of their sides in which g covers s?
fn covers(w: &World, g: &Clause, s: &Clause) -> bool {
    let n = g.literals.len();
    if n != s.literals.len() {
        return false;
    }
    let perms: &[&[usize]] = if n == 1 { &[&[0]] } else { &[&[0, 1], &[1, 0]] };
    for p in perms {
        for flips in 0..(1 << n) {
            let mut m = VariableMap::new();
            let mut ok = true;
            for i in 0..n {
                let (a, b) = (&g.literals[i], &s.literals[p[i]]);
                let (l, r) = if flips >> i & 1 == 0 { (&a.left, &a.right) } else { (&a.right, &a.left) };
                ok = ok
                    && a.positive == b.positive
                    && m.match_terms(l.as_ref(), b.left.as_ref(), g.get_local_context(), s.get_local_context(), &w.kc)
                    && m.match_terms(r.as_ref(), b.right.as_ref(), g.get_local_context(), s.get_local_context(), &w.kc);
            }
            if ok {
                return true;
            }
        }
    }
    false
}
#[no_mangle]
#[inline(never)]
pub fn k11_clauses() {
    let w = World::new(9);
    let c = context(&w);
    one_constant();
    let gl = || {
        let (l, r) = match sym::choice(3 + TH) {
            0 => (con(K::TTB).apply(&[t0(true), if TH > 0 { t0(true) } else { v(bit()) }]), tru()),
            1 => (if TH > 0 { t1(true) } else { t0(true) }, t0(true)),
            2 => (con(K::TB).apply(&[v(bit())]), tru()),
            _ => (v(2), tru()),
        };
        Literal::new(sym::bool(), l, r)
    };
    let g = Clause::new(if sym::choice(3) == 0 { vec![gl()] } else { vec![gl(), gl()] }, &c);
    let sl = |i: usize| {
        let (l, r) = match if TH == 0 && i == 1 { 0 } else { sym::choice(3) } {
            0 => (con(K::TTB).apply(&[con_at(K::T, bit()), con(K::T)]), tru()),
            1 => (con_at(K::T, 0), con_at(K::T, bit())),
            _ => (con(K::TB).apply(&[con_at(K::T, bit())]), tru()),
        };
        Literal::new(sym::bool(), l, r)
    };
    if g.literals.is_empty() {
        return;
    }
    let s = Clause::new(if g.literals.len() < 2 { vec![sl(0)] } else { vec![sl(0), sl(1)] }, &LocalContext::empty());
    if s.literals.is_empty() {
        return;
    }
    let mut set = GeneralizationSet::new();
    set.insert(g.clone(), 7, &w.kc);
    let found = set.find_generalization(s.clone(), &w.kc);
    let want = covers(&w, &g, &s);
    sym::check(found.is_none() || want, "a clause that does not cover the query is found");
    sym::check(found.is_some() || !want, "a clause that covers the query is not found");
    sym::reach(if want { 0 } else { 1 });
}

fn rewrites(w: &World, rules: &[(Literal, LocalContext)], q: &Term, qc: &LocalContext) {
    let mut tree = RewriteTree::new();
    for (i, (l, c)) in rules.iter().enumerate() {
        tree.insert_literal(i, l, c);
    }
    let out = tree.get_rewrites(q, 20, qc, &w.kc);
    for (i, (l, c)) in rules.iter().enumerate() {
        for forwards in [true, false] {
            if !forwards && l.right.is_true() {
                continue;
            }
            let (from, to) = if forwards { (&l.left, &l.right) } else { (&l.right, &l.left) };
            let mut m = VariableMap::new();
            let want = match matched(w, c, qc, &[(from, q)]) {
                Some(x) => {
                    m = x;
                    true
                }
                None => false,
            };
            let found: Vec<_> = out.iter().filter(|r| r.pattern_id == i && r.forwards == forwards).collect();
            sym::check(found.len() <= 1, "a rewrite is returned twice");
            sym::check(found.is_empty() || want, "a rewrite is returned for a term its rule does not cover");
            sym::check(!found.is_empty() || !want, "a rule that covers the term gives no rewrite");
            if let (Some(r), true) = (found.first(), want) {
                // variables the left side does not bind are fresh, one for each
                let mut fresh: Vec<(u16, u16)> = vec![];
                let a: Vec<Atom> = to.iter_atoms().cloned().collect();
                for x in &a {
                    if let Atom::FreeVariable(i) = x {
                        if m.get_mapping(*i).is_none() && !fresh.iter().any(|(o, _)| o == i) {
                            fresh.push((*i, 0));
                        }
                    }
                }
                let mut names = vec![];
                for x in r.term.iter_atoms() {
                    if let Atom::FreeVariable(i) = x {
                        if *i >= 20 && !names.contains(i) {
                            names.push(*i);
                        }
                    }
                }
                sym::check(names.len() == fresh.len(), "the rewritten term has another number of new variables");
                if names.len() == fresh.len() {
                    for (f, n) in fresh.iter().zip(&names) {
                        m.set(f.0, v(*n));
                    }
                    sym::check(instance(&m, to) == r.term, "the rewritten term is not the rule's other side");
                    for (f, n) in fresh.iter().zip(&names) {
                        let ty = r.context.get_var_type(*n as usize).cloned();
                        let want = instance(&m, c.get_var_type(f.0 as usize).unwrap());
                        sym::check(ty == Some(want), "a new variable has the wrong type");
                    }
                }
                sym::reach(0);
            }
        }
    }
    sym::reach(1);
}
#[no_mangle]
#[inline(never)]
pub fn k11_rewrites() {
    let w = World::new(9);
    let tt = w.fun(&w.t, &w.t);
    let c = ctx(&[&w.t, &w.t, &w.b, &w.b, &tt, &w.e, &w.e]);
    names(true);
    let mut rules = vec![];
    for i in 0..2 {
        let (l, r) = match if TH == 0 && i == 0 { 2 + sym::choice(3) } else { sym::choice(5) } {
            0 => (con(K::TTB).apply(&[t0(true), t0(true)]), tru()),
            1 => (con(K::TTT).apply(&[t0(true), t0(true)]), t1(true)),
            2 => (con(K::ET).apply(&[v(5)]), t0(true)),
            3 => (v(4).apply(&[v(0)]), con(K::T)),
            _ => (v(0), if sym::choice(2) == 0 { v(1) } else { con(K::T) }),
        };
        match stored((&w, &c), true, l, r) {
            Some(x) => rules.push(x),
            None => return,
        }
    }
    names(false);
    let q = match sym::choice(5) {
        0 => con(K::TTB).apply(&[t0(true), con(K::T)]),
        1 => con(K::TTT).apply(&[t0(true), con(K::TT).apply(&[t0(false)])]),
        2 => con(K::ET).apply(&[v(5)]),
        3 => con(K::TT).apply(&[t0(true)]),
        _ => con(K::B),
    };
    rewrites(&w, &rules, &q, &c);
}
#[no_mangle]
#[inline(never)]
pub fn k11_rewrites_poly() {
    let mut w = World::poly();
    let cl = classes(&mut w);
    names(TH == 0);
    let mut rules = vec![];
    for _ in 0..2 {
        let (c, l, r) = poly_literal(&w, &cl);
        if phantom(&l) {
            return;
        }
        match stored((&w, &c), true, l, r) {
            Some(x) => rules.push(x),
            None => return,
        }
    }
    names(false);
    // the prover only asks for terms without variables
    let q = match sym::choice(4) {
        0 => con(K::T),
        1 => con(K::B),
        2 => con(K::P).apply(&[w.t.clone(), con(K::T), con(K::T)]),
        _ => con(K::P).apply(&[w.b.clone(), con(K::B), con(K::B)]),
    };
    rewrites(&w, &rules, &q, &LocalContext::empty());
}
