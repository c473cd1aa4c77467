//! Clausification: a proposition and its clauses have the same value in every interpretation.
use super::gen::*;
use super::model::{Model, TB, TT};
use super::sym;
use crate::elaborator::names::ConstantName;
use crate::kernel::atom::{Atom, AtomId};
use crate::kernel::clause::Clause;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::kernel::term::Term;
use crate::kernel::term_normalization::normalize_term;
use std::collections::HashMap;

pub const HARNESSES: &[(&str, fn())] = &[
    ("e04_bool", e04_bool),
    ("e04_functions", e04_functions),
    ("e04_ite", e04_ite),
    ("e04_match", e04_match),
    ("e04_match_bool", e04_match_bool),
    ("e04_poly", e04_poly),
    ("e04_open", e04_open),
];
const TH: usize = cfg!(vh_thorough) as usize;

fn all(m: &mut Model, cs: &[Clause]) -> u64 {
    let mut r = 1;
    for c in cs {
        r &= m.clause(c);
    }
    r
}
fn go(w: &mut World, m: &mut Model, t: &Term) {
    let n = normalize_term(t);
    let vt: [u8; 0] = [];
    let v = m.value(t, &vt);
    sym::check(v.0 == TB, "not a proposition");
    if let Ok(cs) = w.kc.lower_normalized_term_to_clauses(&n, None) {
        sym::reach(0);
        let r = all(m, &cs);
        sym::check(r == v.1, "the clauses do not mean what the proposition means");
        sym::observe(cs.len() as u64);
    }
    if let Ok(c) = w.kc.lower_normalized_term_to_clause(&n, None) {
        let r = m.clause(&c);
        sym::check(r == v.1, "the clause does not mean what the proposition means");
    }
    if let Ok(c) = w.kc.lower_normalized_term_to_clause_preserving_leading_foralls(&n, None) {
        let r = m.clause(&c);
        sym::check(r == v.1, "the clause with its foralls kept does not mean what the proposition means");
    }
    if let Ok(b) = w.kc.term_to_inline_literal_body(&n, None) {
        let r = m.value(&b, &vt);
        sym::check(r == v, "the inline body has another value");
    }
    if let Ok(b) = w.kc.term_to_claim_arg(&n) {
        let r = m.value(&b, &vt);
        sym::check(r == v, "the claim argument has another value");
    }
}
/// 0 to 2 leading foralls, possibly negated.
fn close(w: &World, g: &G, f: &dyn Fn(&mut Vec<S>) -> Term) -> Term {
    let mut bts = vec![];
    let ts = match sym::choice(3) {
        0 => vec![],
        1 => vec![S::T],
        _ => vec![S::B, S::T],
    };
    for s in &ts {
        bts.push(*s);
    }
    let mut t = f(&mut bts);
    let _ = g;
    for s in ts.iter().rev() {
        t = Term::forall(s.ty(w), t);
    }
    t
}

/// Connectives, equalities, quantifiers.
#[no_mangle]
#[inline(never)]
pub fn e04_bool() {
    one_constant();
    let mut w = World::new(6);
    let g = G { conn: true, quant: true, redex: false, ite: false, vars: false, two: false, e: false };
    let t = close(&w, &g, &|bts| match sym::choice(4) {
        0 => Term::not(g.term(&w, S::B, 1 + TH, bts)),
        1 => Term::or(g.term(&w, S::B, 1, bts), g.term(&w, S::B, 1, bts)),
        2 => Term::and(g.term(&w, S::B, 1, bts), g.term(&w, S::B, 1, bts)),
        _ => Term::eq(w.b.clone(), g.term(&w, S::B, 1, bts), g.leaf(S::B, bts)),
    });
    let t = if sym::choice(2) == 1 { Term::not(t) } else { t };
    let mut m = Model::new(&w, 2, 2);
    go(&mut w, &mut m, &t);
}

/// A function T -> Bool or T -> T.
fn function(w: &World, bool_valued: bool, bts: &mut Vec<S>) -> Term {
    let g = G { conn: true, quant: false, redex: false, ite: false, vars: false, two: false, e: false };
    let k = if bool_valued { K::TB } else { K::TT };
    match sym::choice(3) {
        0 => con(k),
        1 => {
            bts.push(S::T);
            let b = g.term(w, if bool_valued { S::B } else { S::T }, 1, bts);
            bts.pop();
            Term::lambda(w.t.clone(), b)
        }
        _ => {
            let ty = w.fun(&w.t, if bool_valued { &w.b } else { &w.t });
            ite(ty, con(K::B), con_at(k, 0), con_at(k, 1))
        }
    }
}
/// Equations between functions, in every position.
#[no_mangle]
#[inline(never)]
pub fn e04_functions() {
    let mut w = World::new(6);
    let g = G { conn: false, quant: false, redex: false, ite: false, vars: false, two: false, e: false };
    let mut bts = vec![];
    let q = sym::choice(2);
    if q == 1 {
        bts.push(S::T);
    }
    let bv = sym::choice(2) == 1;
    let ft = w.fun(&w.t, if bv { &w.b } else { &w.t });
    let e = match sym::choice(2) {
        0 => Term::eq(ft.clone(), function(&w, bv, &mut bts), con(if bv { K::TB } else { K::TT })),
        _ => Term::eq(ft.clone(), con_at(if bv { K::TB } else { K::TT }, 0), function(&w, bv, &mut bts)),
    };
    let mut t = match sym::choice(7) {
        0 => e,
        1 => Term::not(e),
        2 => Term::or(e, con(K::TB).apply(&[g.leaf(S::T, &bts)])),
        3 => Term::or(Term::not(e), con(K::TB).apply(&[g.leaf(S::T, &bts)])),
        4 => Term::and(e, con(K::B)),
        5 => Term::eq(w.b.clone(), e, con(K::B)),
        _ => ite(w.b.clone(), e, con(K::B), con(K::B)),
    };
    if q == 1 {
        t = Term::forall(w.t.clone(), t);
    }
    let mut m = Model::new(&w, 2, 2);
    go(&mut w, &mut m, &t);
}

/// Conditionals.
#[no_mangle]
#[inline(never)]
pub fn e04_ite() {
    one_constant();
    let mut w = World::new(6);
    let g = G { conn: true, quant: false, redex: false, ite: true, vars: false, two: false, e: false };
    let t = close(&w, &g, &|bts| {
        let c = g.term(&w, S::B, 1, bts);
        let it = ite(w.t.clone(), c.clone(), con(K::TT).apply(&[g.leaf(S::T, bts)]), g.leaf(S::T, bts));
        match sym::choice(6) {
            0 => Term::eq(w.t.clone(), it, g.leaf(S::T, bts)),
            1 => Term::eq(w.t.clone(), g.leaf(S::T, bts), it),
            2 => Term::not(con(K::TB).apply(&[con(K::TT).apply(&[it])])),
            3 => con(K::TTB).apply(&[it, g.leaf(S::T, bts)]),
            4 => ite(w.b.clone(), c, g.leaf(S::B, bts), Term::not(g.leaf(S::B, bts))),
            _ => {
                let ft = w.fun(&w.t, &w.b);
                ite(ft, c, con(K::TB), con_at(K::TB, 1)).apply(&[g.leaf(S::T, bts)])
            }
        }
    });
    let mut m = Model::new(&w, 2, 2);
    go(&mut w, &mut m, &t);
}

/// A datatype over T: two constructors, with a Bool field each or without fields.
struct Data {
    fields: bool,
    elim: u16,
}
fn data(w: &mut World, m: &mut Option<Model>) -> Data {
    let fields = sym::choice(2) == 1;
    let n = (w.nkinds * 2) as u16;
    let (t, b) = (w.t.clone(), w.b.clone());
    let ct = if fields { w.fun(&b, &t) } else { t.clone() };
    for name in ["c0", "c1"] {
        w.kc.symbol_table.add_constant(ConstantName::unqualified(MODULE, name), NewConstantType::Global, ct.clone());
    }
    let case = |r: u16| if fields { Term::pi(b.clone(), bound(r + 1)) } else { bound(r) };
    let et = Term::pi(Term::type_sort(), Term::pi(t.clone(), Term::pi(case(1), Term::pi(case(2), bound(3)))));
    w.kc.symbol_table.add_constant(ConstantName::unqualified(MODULE, "match"), NewConstantType::Global, et);
    let s = |i: u16| Symbol::GlobalConstant(MODULE, i);
    w.kc.symbol_table.set_match_eliminator_info(s(n + 2), vec![s(n), s(n + 1)]);
    // the interpretation: constructors are injective, disjoint and cover T
    let mut model = Model::new(w, if fields { 4 } else { 2 }, 0);
    let cty = if fields { model.fun(TB, TT) } else { TT };
    let mut vals = vec![];
    for _ in 0..2 {
        let v = model.fresh(cty);
        model.consts.push(v);
        model.const_ty.push(cty);
        if fields {
            vals.push(v & 3);
            vals.push(v >> 2 & 3);
        } else {
            vals.push(v);
        }
    }
    let mut seen = 0u64;
    for v in &vals {
        seen |= 1 << v;
    }
    sym::assume(seen == (1 << vals.len()) - 1);
    let f = if fields { Some(TB) } else { None };
    model.elim = Some((n + 2, vec![(n, f), (n + 1, f)]));
    *m = Some(model);
    Data { fields, elim: n + 2 }
}
impl Data {
    fn global(i: u16) -> Term {
        Term::atom(Atom::Symbol(Symbol::GlobalConstant(MODULE, i)))
    }
    /// match s { c0(x) => case(0), c1(x) => case(1) }
    fn matching(&self, w: &World, r: S, s: Term, bts: &mut Vec<S>, f: &dyn Fn(usize, &mut Vec<S>) -> Term) -> Term {
        let mut args = vec![r.ty(w), s];
        for k in 0..2 {
            if self.fields {
                bts.push(S::B);
                let b = f(k, bts);
                bts.pop();
                args.push(Term::lambda(w.b.clone(), b));
            } else {
                args.push(f(k, bts));
            }
        }
        Data::global(self.elim).apply(&args)
    }
}
const M: G = G { conn: true, quant: false, redex: false, ite: true, vars: false, two: false, e: false };

/// An equation with a match on one side, of values of the datatype.
#[no_mangle]
#[inline(never)]
pub fn e04_match() {
    one_constant();
    let mut w = World::new(4);
    let mut m = None;
    let d = data(&mut w, &mut m);
    let mut m = m.unwrap();
    let g = G { conn: false, ..M };
    let mut bts = vec![S::T];
    let bts = &mut bts;
    let s = match sym::choice(4) {
        0 => g.leaf(S::T, bts),
        1 => ite(w.t.clone(), con(K::B), g.leaf(S::T, bts), con(K::TT).apply(&[bound(0)])),
        2 => d.matching(&w, S::T, g.leaf(S::T, bts), bts, &|k, bts| {
            if k == 0 && d.fields {
                Data::global(d.elim - 1).apply(&[bound(0)])
            } else {
                g.leaf(S::T, bts)
            }
        }),
        _ => con(K::TT).apply(&[bound(0)]),
    };
    let mt = d.matching(&w, S::T, s, bts, &|k, bts| {
        if k == 0 {
            g.term(&w, S::T, 1, bts)
        } else if d.fields {
            Data::global(d.elim - 2).apply(&[g.leaf(S::B, bts)])
        } else {
            let inner = sym::choice(2);
            if inner == 0 {
                g.leaf(S::T, bts)
            } else {
                d.matching(&w, S::T, g.leaf(S::T, bts), bts, &|_, _| con(K::T))
            }
        }
    });
    let l = match sym::choice(2) {
        0 => con(K::TT).apply(&[bound(0)]),
        _ => ite(w.t.clone(), con(K::B), con(K::T), bound(0)),
    };
    let e = if sym::choice(2) == 0 { Term::eq(w.t.clone(), l, mt) } else { Term::eq(w.t.clone(), mt, l) };
    let t = Term::forall(w.t.clone(), if sym::choice(2) == 0 { e } else { Term::not(e) });
    go(&mut w, &mut m, &t);
}

/// The same with truth values: cases are formulas, with equations between functions in them.
#[no_mangle]
#[inline(never)]
pub fn e04_match_bool() {
    one_constant();
    let mut w = World::new(4);
    let mut m = None;
    let d = data(&mut w, &mut m);
    let mut m = m.unwrap();
    let g = M;
    let mut bts = vec![S::T];
    let bts = &mut bts;
    let s = g.leaf(S::T, bts);
    let feq = |bv: bool| {
        let ft = w.fun(&w.t, if bv { &w.b } else { &w.t });
        let k = if bv { K::TB } else { K::TT };
        Term::eq(ft, con_at(k, 0), con_at(k, 1))
    };
    let mt = d.matching(&w, S::B, s, bts, &|k, bts| {
        if k == 0 {
            g.leaf(S::B, bts)
        } else {
            match sym::choice(6) {
                0 => feq(sym::choice(2) == 1),
                1 => Term::not(feq(sym::choice(2) == 1)),
                2 => {
                    let e = feq(sym::choice(2) == 1);
                    let e = if sym::choice(2) == 0 { e } else { Term::not(e) };
                    ite(w.b.clone(), e, g.leaf(S::B, bts), g.leaf(S::B, bts))
                }
                3 => Term::or(Term::and(con(K::B), g.leaf(S::B, bts)), feq(false)),
                4 => {
                    let b = if sym::choice(2) == 0 { con(K::TB).apply(&[bound(0)]) } else { Term::eq(w.t.clone(), bound(0), bound(1)) };
                    let _ = &b;
                    if d.fields {
                        Term::exists(w.t.clone(), con(K::TB).apply(&[bound(0)]))
                    } else {
                        Term::forall(w.t.clone(), b)
                    }
                }
                _ => g.term(&w, S::B, 1, bts),
            }
        }
    });
    let l = match sym::choice(3) {
        0 => con(K::TB).apply(&[bound(0)]),
        1 => feq(sym::choice(2) == 1),
        _ => Term::not(con(K::B)),
    };
    let e = if sym::choice(2) == 0 { Term::eq(w.b.clone(), l, mt) } else { Term::eq(w.b.clone(), mt, l) };
    let t = Term::forall(w.t.clone(), e);
    go(&mut w, &mut m, &t);
}

/// With a type parameter in slot 0: x0: Type, values of type x0.
#[no_mangle]
#[inline(never)]
pub fn e04_poly() {
    let mut w = World::poly();
    let x0 = Term::new_variable(0);
    let mut map: HashMap<String, (AtomId, Term)> = HashMap::new();
    map.insert("A".to_string(), (0, Term::type_sort()));
    // under two binders of type x0 and one of type T
    let p = |i: u16, a: u16, b: u16| {
        Term::atom(Atom::Symbol(Symbol::GlobalConstant(MODULE, 18 + i))).apply(&[x0.clone(), bound(a), bound(b)])
    };
    let atom = |d: u16| {
        let k = bit();
        match sym::choice(4) {
            0 => p(k, d, d + 1),
            1 => p(k, d + 1, d),
            2 => Term::eq(x0.clone(), bound(d), bound(d + 1)),
            _ => con(K::B),
        }
    };
    let inner = match sym::choice(5) {
        0 => Term::or(atom(0), Term::not(atom(0))),
        1 => Term::and(atom(0), atom(0)),
        2 => Term::or(atom(0), Term::exists(x0.clone(), atom(0))),
        3 => Term::not(Term::forall(x0.clone(), atom(1))),
        _ => Term::eq(w.b.clone(), atom(0), Term::not(atom(0))),
    };
    let t = Term::forall(x0.clone(), Term::forall(x0.clone(), inner));
    let n = normalize_term(&t);
    let mut m = Model::new_poly(&w, 2, 2);
    let mut v = 1;
    for ty in 0..3 {
        m.tyvar = vec![ty];
        v &= m.value(&t, &[super::model::TYPE]).1;
    }
    if let Ok(cs) = w.kc.lower_normalized_term_to_clauses(&n, Some(map.clone())) {
        sym::reach(0);
        let r = all(&mut m, &cs);
        sym::check(r == v, "the clauses do not mean what the proposition means");
    }
    if let Ok(c) = w.kc.lower_normalized_term_to_clause(&n, Some(map.clone())) {
        let r = m.clause(&c);
        sym::check(r == v, "the clause does not mean what the proposition means");
    }
    if let Ok(c) = w.kc.lower_normalized_term_to_clause_preserving_leading_foralls(&n, Some(map)) {
        let r = m.clause(&c);
        sym::check(r == v, "the clause with its foralls kept does not mean what the proposition means");
    }
}

/// Terms with free variables, as in claim arguments and literal bodies.
#[no_mangle]
#[inline(never)]
pub fn e04_open() {
    let mut w = World::new(6);
    let g = G { conn: true, quant: true, redex: false, ite: true, vars: true, two: false, e: false };
    let s = [S::B, S::T][sym::choice(2)];
    let t = normalize_term(&g.term(&w, s, 1 + TH, &mut vec![]));
    let t = if s == S::B && sym::choice(2) == 1 { normalize_term(&Term::not(t)) } else { t };
    let mut m = Model::new(&w, 2, 2);
    let vt = var_env(&mut m);
    let v = m.value(&t, &vt);
    if let Ok(b) = w.kc.term_to_inline_literal_body(&t, None) {
        let r = m.value(&b, &vt);
        sym::check(r == v, "the inline body has another value");
        sym::reach(0);
    }
    if let Ok(b) = w.kc.term_to_claim_arg(&t) {
        let r = m.value(&b, &vt);
        sym::check(r == v, "the claim argument has another value");
        sym::reach(1);
    }
}
