//! A small fixed signature in a real KernelContext, and symbolic terms over it.
//!
//! Symbols and variables come in pairs of the same type, so that an id can stay symbolic
//! (`2k | bit`) while its type is known.
use super::sym;
use crate::elaborator::acorn_type::{AcornType, Datatype};
use crate::elaborator::names::ConstantName;
use crate::kernel::atom::{Atom, AtomId};
use crate::kernel::clause::Clause;
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::kernel::term::Term;
use crate::module::ModuleId;

pub const MODULE: ModuleId = ModuleId(0);

/// Pairs of global constants: ids 2k and 2k+1 have type KINDS[k].
#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum K {
    B = 0,   // Bool
    T = 1,   // T
    TB = 2,  // T -> Bool
    TT = 3,  // T -> T
    BB = 4,  // Bool -> Bool
    TTB = 5, // T -> T -> Bool
    TTT = 6, // T -> T -> T
    EB = 7,  // E -> Bool
    ET = 8,  // E -> T
    P = 9,   // (A: Type) -> A -> A -> Bool (only in World::poly)
}
pub const NKINDS: usize = 9;

pub struct World {
    pub kc: KernelContext,
    pub b: Term,
    pub t: Term,
    pub e: Term,
    pub nkinds: usize,
}

pub fn ground(kc: &mut KernelContext, name: &str) -> Term {
    let ty = AcornType::Data(Datatype { module_id: MODULE, name: name.to_string() }, vec![]);
    kc.type_store.add_type(&ty);
    kc.type_store.get_type_term(&ty).unwrap()
}

impl World {
    /// T is inhabited by constants; E has no known element.
    pub fn new(nkinds: usize) -> World {
        let mut kc = KernelContext::new();
        let b = Term::bool_type();
        let t = ground(&mut kc, "T");
        let e = ground(&mut kc, "E");
        let mut w = World { kc, b, t, e, nkinds };
        for k in 0..nkinds {
            let ty = w.kind_type(k);
            for i in 0..2 {
                let name = [b'k', b'0' + k as u8, b'0' + i as u8];
                let name = std::str::from_utf8(&name).unwrap();
                w.kc.symbol_table.add_constant(
                    ConstantName::unqualified(MODULE, name),
                    NewConstantType::Global,
                    ty.clone(),
                );
            }
        }
        w
    }
    /// Also two polymorphic predicates.
    pub fn poly() -> World {
        let mut w = World::new(9);
        let a = bound(0);
        // under one and two binders
        let ty = Term::pi(Term::type_sort(), Term::pi(bound(0), Term::pi(bound(1), Term::bool_type())));
        let _ = a;
        for i in 0..2 {
            let name = [b'p', b'0' + i as u8];
            let name = std::str::from_utf8(&name).unwrap();
            w.kc.symbol_table.add_constant(ConstantName::unqualified(MODULE, name), NewConstantType::Global, ty.clone());
        }
        w
    }
    /// x0: Type, x1, x2: x0, x3: T, x4: Bool, x5: T -> T
    pub fn poly_context(&self) -> LocalContext {
        let tt = self.fun(&self.t, &self.t);
        ctx(&[&Term::type_sort(), &Term::new_variable(0), &Term::new_variable(0), &self.t, &self.b, &tt])
    }
    pub fn fun(&self, a: &Term, r: &Term) -> Term {
        Term::pi(a.clone(), r.clone())
    }
    pub fn kind_type(&self, k: usize) -> Term {
        let (b, t, e) = (&self.b, &self.t, &self.e);
        match k {
            0 => b.clone(),
            1 => t.clone(),
            2 => self.fun(t, b),
            3 => self.fun(t, t),
            4 => self.fun(b, b),
            5 => self.fun(t, &self.fun(t, b)),
            6 => self.fun(t, &self.fun(t, t)),
            7 => self.fun(e, b),
            _ => self.fun(e, t),
        }
    }
    /// A constant of kind k: which of the two stays symbolic.
    pub fn con(&self, k: K) -> Term {
        con(k)
    }
}

pub fn bit() -> u16 {
    (sym::u8() & 1) as u16
}
/// Use only the first constant of every kind.
pub static mut ONE_CONSTANT: bool = false;
pub fn one_constant() {
    unsafe { ONE_CONSTANT = true }
}
pub fn con(k: K) -> Term {
    let b = if unsafe { ONE_CONSTANT } { 0 } else { bit() };
    Term::atom(Atom::Symbol(Symbol::GlobalConstant(MODULE, (k as u16 * 2) | b)))
}
pub fn con_at(k: K, i: u16) -> Term {
    Term::atom(Atom::Symbol(Symbol::GlobalConstant(MODULE, (k as u16 * 2) | i)))
}
/// Use only the first variable of every pair.
pub static mut ONE_VARIABLE: bool = false;
pub fn one_variable() {
    unsafe { ONE_VARIABLE = true }
}
/// Variable x_{base} or x_{base+1} (base even).
pub fn var2(base: AtomId) -> Term {
    let b = if unsafe { ONE_VARIABLE } { 0 } else { bit() };
    Term::new_variable(base | b)
}
pub fn bound(i: u16) -> Term {
    Term::atom(Atom::BoundVariable(i))
}
pub fn tru() -> Term {
    Term::new_true()
}
pub fn sym_term(s: Symbol) -> Term {
    Term::atom(Atom::Symbol(s))
}
pub fn ite(ty: Term, c: Term, a: Term, b: Term) -> Term {
    sym_term(Symbol::Ite).apply(&[ty, c, a, b])
}
pub fn ctx(types: &[&Term]) -> LocalContext {
    LocalContext::from_types(types.iter().map(|t| (*t).clone()).collect())
}
/// A clause exactly as given, without normalization.
pub fn raw_clause(literals: Vec<Literal>, context: &LocalContext) -> Clause {
    Clause { literals, context: context.clone() }
}

/// Typed symbolic terms: every choice of shape is a branch, ids inside a shape stay symbolic.
/// Free variables 0,1 have type T and 2,3 have type Bool.
#[derive(Clone, Copy)]
pub struct G {
    pub conn: bool,   // not, eq, and, or
    pub quant: bool,  // forall, exists
    pub redex: bool,  // (lambda x. t) u
    pub ite: bool,
    pub vars: bool,   // free variables
    pub two: bool,    // binary function symbols
    pub e: bool,      // the possibly empty type: variables 4,5 and quantifiers
}
pub const PLAIN: G = G { conn: false, quant: false, redex: false, ite: false, vars: true, two: true, e: false };
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum S {
    B,
    T,
    /// the type without a known element: variables only
    E,
}
impl S {
    pub fn ty(self, w: &World) -> Term {
        match self {
            S::B => w.b.clone(),
            S::T => w.t.clone(),
            S::E => w.e.clone(),
        }
    }
    pub fn mty(self) -> u8 {
        match self {
            S::B => super::model::TB,
            S::T => super::model::TT,
            S::E => super::model::TE,
        }
    }
}
impl G {
    /// A variable (free or bound) or constant of sort s; `bts` lists the bound variables' sorts,
    /// innermost last.
    pub fn leaf(&self, s: S, bts: &[S]) -> Term {
        let mut opts: Vec<u16> = vec![];
        for i in 0..bts.len() {
            if bts[bts.len() - 1 - i] == s {
                opts.push(i as u16);
            }
        }
        if s == S::E {
            let n = sym::choice(1 + opts.len());
            return if n == 0 { var2(4) } else { bound(opts[n - 1]) };
        }
        let extra = 1 + self.vars as usize;
        let n = sym::choice(extra + opts.len());
        if n == 0 {
            return con(if s == S::B { K::B } else { K::T });
        }
        if self.vars && n == 1 {
            return var2(if s == S::B { 2 } else { 0 });
        }
        bound(opts[n - extra])
    }
    pub fn term(&self, w: &World, s: S, d: usize, bts: &mut Vec<S>) -> Term {
        if d == 0 || s == S::E {
            return self.leaf(s, bts);
        }
        let mut opts: Vec<u8> = vec![0, 1];
        if self.two {
            opts.push(2);
        }
        if self.conn && s == S::B {
            opts.extend([3, 4, 5, 6]);
        }
        if self.quant && s == S::B {
            opts.extend([7, 8]);
        }
        if self.redex {
            opts.push(9);
        }
        if self.e {
            opts.push(11);
        }
        if self.ite {
            opts.push(10);
        }
        let o = opts[sym::choice(opts.len())];
        match (o, s) {
            (0, _) => self.leaf(s, bts),
            (1, S::T) => con(K::TT).apply(&[self.term(w, S::T, d - 1, bts)]),
            (1, S::B) => con(K::TB).apply(&[self.term(w, S::T, d - 1, bts)]),
            (2, S::T) => con(K::TTT).apply(&[self.leaf(S::T, bts), self.term(w, S::T, d - 1, bts)]),
            (2, S::B) => con(K::TTB).apply(&[self.leaf(S::T, bts), self.leaf(S::T, bts)]),
            (3, _) => Term::not(self.term(w, S::B, d - 1, bts)),
            (4, _) => Term::eq(w.t.clone(), self.term(w, S::T, d - 1, bts), self.leaf(S::T, bts)),
            (5, _) => Term::and(self.leaf(S::B, bts), self.term(w, S::B, d - 1, bts)),
            (6, _) => Term::or(self.term(w, S::B, d - 1, bts), self.leaf(S::B, bts)),
            (7, _) | (8, _) => {
                let bs = [S::T, S::B, S::E][sym::choice(2 + self.e as usize)];
                bts.push(bs);
                let b = self.term(w, S::B, d - 1, bts);
                bts.pop();
                if o == 7 {
                    Term::forall(bs.ty(w), b)
                } else {
                    Term::exists(bs.ty(w), b)
                }
            }
            (9, _) => {
                let bs = if self.e && sym::choice(2) == 1 { S::E } else { S::T };
                bts.push(bs);
                let b = self.term(w, s, d - 1, bts);
                bts.pop();
                let a = self.term(w, bs, d - 1, bts);
                Term::lambda(bs.ty(w), b).apply(&[a])
            }
            (11, S::T) => con(K::ET).apply(&[self.leaf(S::E, bts)]),
            (11, _) => con(K::EB).apply(&[self.leaf(S::E, bts)]),
            _ => ite(s.ty(w), self.leaf(S::B, bts), self.term(w, s, d - 1, bts), self.leaf(s, bts)),
        }
    }
}
/// Context for the variables of a G with e: x0,x1: T, x2,x3: Bool, x4,x5: E.
pub fn e_context(w: &World) -> LocalContext {
    ctx(&[&w.t, &w.t, &w.b, &w.b, &w.e, &w.e])
}
/// Model types and symbolic values for the four free variables of G.
pub fn var_env(m: &mut super::model::Model) -> Vec<u8> {
    use super::model::{TB, TT};
    let vt = vec![TT, TT, TB, TB];
    for i in 0..4 {
        let v = m.fresh(vt[i]);
        m.set_var(i, v);
    }
    vt
}
