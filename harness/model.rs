//! Finite interpretations: every constant's value is symbolic, the domains are small and fixed.
//!
//! A value of a type is a packed bit vector: an element of Bool or of a two-element type is one
//! bit, a function A -> B is the concatenation of its values. Evaluation is branch-free in the
//! symbolic values, so "premise true implies conclusion true" is one solver query.
use super::gen;
use super::sym;
use crate::kernel::atom::Atom;
use crate::kernel::clause::Clause;
use crate::kernel::literal::Literal;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::term::{Decomposition, Term, TermRef};

pub type Ty = u8;
pub const TB: Ty = 0;
pub const TT: Ty = 1;
pub const TE: Ty = 2;
/// "type of types": only appears as the type of type variables
pub const TYPE: Ty = 250;
/// the type of a polymorphic constant
pub const POLY: Ty = 251;

#[derive(Clone, Copy)]
struct TyInfo {
    a: Ty,
    r: Ty,
    bits: u8,
    empty: bool,
}

#[derive(Clone, Debug)]
enum N {
    Val(u64),
    Var(u64),
    Bound(u16),
    App(usize, usize, u8, u64, u8), // f, a, bits of argument, card of argument, bits of result
    Lam(u64, u8, usize),            // card, bits of result, body
    Quant(bool, u64, usize),
    Not(usize),
    Bin(u8, usize, usize),
    Ite(usize, usize, usize),
    IteTab(usize, Option<usize>, u64, u8), // if-then-else lacking its last argument(s)
    Match(usize, Vec<(usize, usize, u64, u8)>, u8), // scrutinee, (constructor, case, card of field, bits of scrutinee)
}

pub struct Model {
    tys: Vec<TyInfo>,
    pub consts: Vec<u64>,
    pub const_ty: Vec<Ty>,
    pub scoped: Vec<u64>,
    pub scoped_ty: Vec<Ty>,
    /// what a free type variable stands for (by variable id)
    pub tyvar: Vec<Ty>,
    /// the two polymorphic predicates of World::poly at Bool, T and E
    pub poly: Vec<[u64; 3]>,
    /// a datatype's eliminator: its symbol, and its constructors with the type of their field
    pub elim: Option<(u16, Vec<(u16, Option<Ty>)>)>,
    nodes: Vec<N>,
    node_ty: Vec<Ty>,
    env: Vec<u64>,
    stack: Vec<u64>,
}

impl Model {
    /// nt: elements of T (1, 2 or 4); ne: elements of E (0, 1 or 2).
    pub fn empty(nt: u64, ne: u64) -> Model {
        let base = |n: u64| TyInfo { a: 255, r: 255, bits: if n == 4 { 2 } else if n == 2 { 1 } else { 0 }, empty: n == 0 };
        Model {
            tys: vec![base(2), base(nt), base(ne)],
            consts: vec![],
            const_ty: vec![],
            scoped: vec![],
            scoped_ty: vec![],
            tyvar: vec![],
            poly: vec![],
            elim: None,
            nodes: vec![],
            node_ty: vec![],
            env: vec![0; 16],
            stack: vec![],
        }
    }
    /// An arbitrary interpretation of gen::World's constants.
    pub fn new(w: &gen::World, nt: u64, ne: u64) -> Model {
        let mut m = Model::empty(nt, ne);
        for k in 0..w.nkinds {
            let ty = m.ty(w.kind_type(k).as_ref());
            for _ in 0..2 {
                let v = m.fresh(ty);
                m.consts.push(v);
                m.const_ty.push(ty);
            }
        }
        m
    }
    /// An arbitrary interpretation of World::poly's constants.
    pub fn new_poly(w: &gen::World, nt: u64, ne: u64) -> Model {
        let mut m = Model::new(w, nt, ne);
        for _ in 0..2 {
            let mut v = [0; 3];
            for t in 0..3 {
                let f = m.fun(t, TB);
                let f = m.fun(t, f);
                v[t as usize] = m.fresh(f);
            }
            m.poly.push(v);
        }
        m
    }
    pub fn fresh(&mut self, ty: Ty) -> u64 {
        let i = self.tys[ty as usize];
        sym::assume(!i.empty);
        if i.bits == 0 {
            return 0;
        }
        let v = if i.bits <= 8 { sym::u8() as u64 } else if i.bits <= 16 { sym::u16() as u64 } else { sym::u32() as u64 };
        v & ((1u64 << i.bits) - 1)
    }
    pub fn fun(&mut self, a: Ty, r: Ty) -> Ty {
        for i in 3..self.tys.len() {
            if self.tys[i].a == a && self.tys[i].r == r {
                return i as Ty;
            }
        }
        let ca = self.card(a);
        let rb = self.tys[r as usize];
        let bits = ca * rb.bits as u64;
        assert!(bits <= 60);
        self.tys.push(TyInfo { a, r, bits: bits as u8, empty: rb.empty && ca != 0 });
        (self.tys.len() - 1) as Ty
    }
    pub fn card(&self, t: Ty) -> u64 {
        let i = self.tys[t as usize];
        if i.empty {
            0
        } else {
            1u64 << i.bits
        }
    }
    pub fn bits(&self, t: Ty) -> u8 {
        self.tys[t as usize].bits
    }
    pub fn ty(&mut self, t: TermRef) -> Ty {
        match t.decompose() {
            Decomposition::Atom(Atom::Symbol(Symbol::Bool)) => TB,
            Decomposition::Atom(Atom::Symbol(Symbol::Type0)) => TYPE,
            Decomposition::Atom(Atom::Symbol(Symbol::Type(id))) => {
                // T and E are the first two ground types gen::World registers
                if id.local_id() == gen_t_id() {
                    TT
                } else {
                    TE
                }
            }
            Decomposition::Atom(Atom::FreeVariable(i)) => self.tyvar[*i as usize],
            Decomposition::Pi(a, r) => {
                let a = self.ty(a);
                let r = self.ty(r);
                self.fun(a, r)
            }
            _ => panic!("model: not a type"),
        }
    }

    fn push(&mut self, n: N, t: Ty) -> usize {
        self.nodes.push(n);
        self.node_ty.push(t);
        self.nodes.len() - 1
    }
    fn app(&mut self, f: usize, a: usize) -> usize {
        let ft = self.tys[self.node_ty[f] as usize];
        let at = self.node_ty[a];
        sym::check(ft.a == at, "ill-typed application");
        let n = N::App(f, a, self.bits(at), self.card(at), self.bits(ft.r));
        self.push(n, ft.r)
    }
    /// Compile a term; `vt` gives the types of the free variables, `bt` of the bound ones.
    fn compile(&mut self, t: TermRef, vt: &[Ty], bt: &mut Vec<Ty>) -> usize {
        match t.decompose() {
            Decomposition::Atom(a) => match a {
                Atom::Symbol(Symbol::True) => self.push(N::Val(1), TB),
                Atom::Symbol(Symbol::False) => self.push(N::Val(0), TB),
                Atom::Symbol(Symbol::GlobalConstant(_, i)) if *i as usize >= self.consts.len() => {
                    // a polymorphic constant by itself: all its instances
                    let p = self.poly[*i as usize - self.consts.len()];
                    self.push(N::Val(p[0] | p[1] << 20 | p[2] << 40), POLY)
                }
                Atom::Symbol(Symbol::GlobalConstant(_, i)) => {
                    let v = self.consts[*i as usize];
                    let t = self.const_ty[*i as usize];
                    self.push(N::Val(v), t)
                }
                Atom::Symbol(Symbol::ScopedConstant(i)) => {
                    let v = self.scoped[*i as usize];
                    let t = self.scoped_ty[*i as usize];
                    self.push(N::Val(v), t)
                }
                Atom::FreeVariable(i) => self.push(N::Var(*i as u64), vt[*i as usize]),
                Atom::BoundVariable(i) => {
                    sym::check((*i as usize) < bt.len(), "bound variable escapes its binder");
                    let t = bt[bt.len() - 1 - *i as usize];
                    self.push(N::Bound(*i), t)
                }
                Atom::Symbol(Symbol::Not) => {
                    let t = self.fun(TB, TB);
                    self.push(N::Val(0b01), t)
                }
                Atom::Symbol(Symbol::And) => {
                    let t = self.fun(TB, TB);
                    let t = self.fun(TB, t);
                    // and(0) = 00, and(1) = 10
                    self.push(N::Val(0b1000), t)
                }
                Atom::Symbol(Symbol::Or) => {
                    let t = self.fun(TB, TB);
                    let t = self.fun(TB, t);
                    self.push(N::Val(0b1110), t)
                }
                _ => panic!("model: atom"),
            },
            Decomposition::Application(f, a) => {
                if let Some(r) = self.builtin(t, vt, bt) {
                    return r;
                }
                let f = self.compile(f, vt, bt);
                let a = self.compile(a, vt, bt);
                self.app(f, a)
            }
            Decomposition::Lambda(ty, body) => {
                let ty = self.ty(ty);
                bt.push(ty);
                let b = self.compile(body, vt, bt);
                bt.pop();
                let rt = self.node_ty[b];
                let ft = self.fun(ty, rt);
                let n = N::Lam(self.card(ty), self.bits(rt), b);
                self.push(n, ft)
            }
            Decomposition::ForAll(ty, body) | Decomposition::Exists(ty, body) => {
                let all = t.is_forall();
                let ty = self.ty(ty);
                bt.push(ty);
                let b = self.compile(body, vt, bt);
                bt.pop();
                sym::check(self.node_ty[b] == TB, "ill-typed quantifier");
                let n = N::Quant(all, self.card(ty), b);
                self.push(n, TB)
            }
            Decomposition::Pi(..) => panic!("model: pi"),
        }
    }
    /// Fully or partially applied logical symbols.
    fn builtin(&mut self, t: TermRef, vt: &[Ty], bt: &mut Vec<Ty>) -> Option<usize> {
        let mut args: Vec<TermRef> = vec![];
        let mut h = t;
        while let Some((f, a)) = h.split_application() {
            args.push(a);
            h = f;
        }
        args.reverse();
        let Decomposition::Atom(Atom::Symbol(s)) = h.decompose() else {
            return None;
        };
        if let (Symbol::GlobalConstant(_, i), Some((e, ctors))) = (s, self.elim.clone()) {
            if *i == e && args.len() >= 2 + ctors.len() {
                let ty = self.ty(args[0]);
                let scrut = self.compile(args[1], vt, bt);
                let sb = self.bits(self.node_ty[scrut]);
                let mut cases = vec![];
                for (k, (c, field)) in ctors.iter().enumerate() {
                    let case = self.compile(args[2 + k], vt, bt);
                    let ct = self.const_ty[*c as usize];
                    let con = self.push(N::Val(self.consts[*c as usize]), ct);
                    let (want, card) = match field {
                        Some(f) => (self.fun(*f, ty), self.card(*f)),
                        None => (ty, 1),
                    };
                    sym::check(self.node_ty[case] == want, "ill-typed case");
                    cases.push((con, case, card, sb));
                }
                let rb = self.bits(ty);
                let mut f = self.push(N::Match(scrut, cases, rb), ty);
                for x in &args[2 + ctors.len()..] {
                    let a = self.compile(*x, vt, bt);
                    f = self.app(f, a);
                }
                return Some(f);
            }
        }
        match (s, args.len()) {
            (Symbol::GlobalConstant(_, i), n) if *i as usize >= self.consts.len() && n >= 1 => {
                let k = *i as usize - self.consts.len();
                let ty = self.ty(args[0]);
                sym::check(ty < 3, "a type argument is not a type");
                let v = self.poly[k][ty as usize];
                let f = self.fun(ty, TB);
                let f = self.fun(ty, f);
                let mut f = self.push(N::Val(v), f);
                for x in &args[1..] {
                    let a = self.compile(*x, vt, bt);
                    f = self.app(f, a);
                }
                Some(f)
            }
            (Symbol::Not, 1) => {
                let a = self.compile(args[0], vt, bt);
                sym::check(self.node_ty[a] == TB, "ill-typed not");
                Some(self.push(N::Not(a), TB))
            }
            (Symbol::And, 2) | (Symbol::Or, 2) => {
                let a = self.compile(args[0], vt, bt);
                let b = self.compile(args[1], vt, bt);
                sym::check(self.node_ty[a] == TB && self.node_ty[b] == TB, "ill-typed connective");
                Some(self.push(N::Bin(if *s == Symbol::And { 0 } else { 1 }, a, b), TB))
            }
            (Symbol::Eq, 3) => {
                let ty = self.ty(args[0]);
                let a = self.compile(args[1], vt, bt);
                let b = self.compile(args[2], vt, bt);
                sym::check(self.node_ty[a] == ty && self.node_ty[b] == ty, "ill-typed eq");
                Some(self.push(N::Bin(2, a, b), TB))
            }
            (Symbol::Eq, 1) | (Symbol::Eq, 2) => {
                // the table of equality at this type
                let ty = self.ty(args[0]);
                let c = self.card(ty);
                let mut v = 0u64;
                for i in 0..c {
                    v |= 1u64 << (i * c + i);
                }
                let rt = self.fun(ty, TB);
                let ft = self.fun(ty, rt);
                let f = self.push(N::Val(v), ft);
                if args.len() == 1 {
                    return Some(f);
                }
                let a = self.compile(args[1], vt, bt);
                Some(self.app(f, a))
            }
            (Symbol::Ite, n) if n >= 4 => {
                let ty = self.ty(args[0]);
                let c = self.compile(args[1], vt, bt);
                let a = self.compile(args[2], vt, bt);
                let b = self.compile(args[3], vt, bt);
                sym::check(
                    self.node_ty[c] == TB && self.node_ty[a] == ty && self.node_ty[b] == ty,
                    "ill-typed ite",
                );
                let mut f = self.push(N::Ite(c, a, b), ty);
                for x in &args[4..] {
                    let a = self.compile(*x, vt, bt);
                    f = self.app(f, a);
                }
                Some(f)
            }
            (Symbol::Ite, 2) | (Symbol::Ite, 3) => {
                let ty = self.ty(args[0]);
                let c = self.compile(args[1], vt, bt);
                sym::check(self.node_ty[c] == TB, "ill-typed ite");
                let a = args.get(2).map(|a| self.compile(*a, vt, bt));
                if let Some(a) = a {
                    sym::check(self.node_ty[a] == ty, "ill-typed ite");
                }
                let (card, bits) = (self.card(ty), self.bits(ty));
                let mut ft = self.fun(ty, ty);
                if a.is_none() {
                    ft = self.fun(ty, ft);
                }
                Some(self.push(N::IteTab(c, a, card, bits), ft))
            }
            _ => None,
        }
    }
    fn run(&mut self, n: usize) -> u64 {
        match self.nodes[n].clone() {
            N::Val(v) => v,
            N::Var(i) => self.env[i as usize],
            N::Bound(i) => self.stack[self.stack.len() - 1 - i as usize],
            N::App(f, a, _, card, rb) => {
                let f = self.run(f);
                let a = self.run(a);
                select(f, a, card, rb)
            }
            N::Lam(card, rb, body) => {
                let mut r = 0u64;
                for v in 0..card {
                    self.stack.push(v);
                    r |= self.run(body) << (v * rb as u64);
                    self.stack.pop();
                }
                r
            }
            N::Quant(all, card, body) => {
                let mut r = all as u64;
                for v in 0..card {
                    self.stack.push(v);
                    let x = self.run(body);
                    self.stack.pop();
                    if all {
                        r &= x;
                    } else {
                        r |= x;
                    }
                }
                r
            }
            N::Not(a) => self.run(a) ^ 1,
            N::Bin(op, a, b) => {
                let x = self.run(a);
                let y = self.run(b);
                match op {
                    0 => x & y,
                    1 => x | y,
                    _ => (x == y) as u64,
                }
            }
            N::Ite(c, a, b) => {
                let c = self.run(c);
                let a = self.run(a);
                let b = self.run(b);
                let m = 0u64.wrapping_sub(c);
                (a & m) | (b & !m)
            }
            N::Match(scrut, cases, rb) => {
                let s = self.run(scrut);
                let mut r = 0u64;
                for (con, case, card, sb) in cases {
                    let con = self.run(con);
                    let case = self.run(case);
                    for v in 0..card {
                        let c = (con >> (v * sb as u64)) & ((1u64 << sb) - 1);
                        let x = (case >> (v * rb as u64)) & ((1u64 << rb) - 1);
                        r |= x & 0u64.wrapping_sub((c == s) as u64);
                    }
                }
                r
            }
            N::IteTab(c, a, card, bits) => {
                let m = 0u64.wrapping_sub(self.run(c));
                let mut id = 0u64;
                for v in 0..card {
                    id |= v << (v * bits as u64);
                }
                let rep = |x: u64| {
                    let mut r = 0u64;
                    for v in 0..card {
                        r |= x << (v * bits as u64);
                    }
                    r
                };
                match a {
                    Some(a) => {
                        let a = self.run(a);
                        (rep(a) & m) | (id & !m)
                    }
                    None => {
                        let mut r = 0u64;
                        for v in 0..card {
                            r |= ((rep(v) & m) | (id & !m)) << (v * bits as u64 * card);
                        }
                        r
                    }
                }
            }
        }
    }
    pub fn var_types(&mut self, c: &LocalContext) -> Vec<Ty> {
        let mut v = vec![];
        for i in 0..c.len() {
            v.push(match c.get_var_type(i) {
                Some(t) => {
                    let t = t.clone();
                    self.ty(t.as_ref())
                }
                None => 255,
            });
        }
        v
    }
    /// Type and value of a term at the current environment.
    pub fn value(&mut self, t: &Term, vt: &[Ty]) -> (Ty, u64) {
        self.nodes.clear();
        self.node_ty.clear();
        let n = self.compile(t.as_ref(), vt, &mut vec![]);
        (self.node_ty[n], self.run(n))
    }
    pub fn var(&self, i: usize) -> u64 {
        self.env[i]
    }
    pub fn set_var(&mut self, i: usize, v: u64) {
        self.env[i] = v;
    }
    /// Value of a term under bound-variable values `bvals` (innermost last).
    pub fn value_under(&mut self, t: &Term, vt: &[Ty], btys: &[Ty], bvals: &[u64]) -> (Ty, u64) {
        self.nodes.clear();
        self.node_ty.clear();
        let mut bt = btys.to_vec();
        let n = self.compile(t.as_ref(), vt, &mut bt);
        self.stack.extend_from_slice(bvals);
        let v = self.run(n);
        self.stack.clear();
        (self.node_ty[n], v)
    }
    /// 1 when every assignment of the clause's variables makes some literal true.
    pub fn clause(&mut self, c: &Clause) -> u64 {
        self.literals(&c.literals, &c.context)
    }
    pub fn literals(&mut self, lits: &[Literal], c: &LocalContext) -> u64 {
        // type variables range over the non-function types
        let mut tv = vec![];
        for i in 0..c.len() {
            if let Some(t) = c.get_var_type(i) {
                if t.as_ref().is_type0() {
                    tv.push(i);
                }
            }
        }
        if tv.is_empty() {
            return self.mono_literals(lits, c);
        }
        let saved = std::mem::replace(&mut self.tyvar, vec![255; c.len()]);
        let mut r = 1;
        let n = 3usize.pow(tv.len() as u32);
        for k in 0..n {
            let mut k = k;
            for &i in &tv {
                self.tyvar[i] = (k % 3) as Ty;
                k /= 3;
            }
            r &= self.mono_literals(lits, c);
        }
        self.tyvar = saved;
        r
    }
    fn mono_literals(&mut self, lits: &[Literal], c: &LocalContext) -> u64 {
        let vt = self.var_types(c);
        self.nodes.clear();
        self.node_ty.clear();
        let mut ls = vec![];
        for l in lits {
            let a = self.compile(l.left.as_ref(), &vt, &mut vec![]);
            let b = self.compile(l.right.as_ref(), &vt, &mut vec![]);
            sym::check(self.node_ty[a] == self.node_ty[b], "ill-typed literal");
            ls.push((a, b, l.positive as u64));
        }
        self.all(&ls, &vt, 0)
    }
    fn all(&mut self, ls: &[(usize, usize, u64)], vt: &[Ty], i: usize) -> u64 {
        if i == vt.len() {
            let mut r = 0u64;
            for &(a, b, p) in ls {
                let x = self.run(a);
                let y = self.run(b);
                r |= ((x == y) as u64) ^ p ^ 1;
            }
            return r;
        }
        if vt[i] >= TYPE {
            self.env[i] = 0;
            return self.all(ls, vt, i + 1);
        }
        let mut r = 1u64;
        for v in 0..self.card(vt[i]) {
            self.env[i] = v;
            r &= self.all(ls, vt, i + 1);
        }
        r
    }
}

fn gen_t_id() -> u16 {
    unsafe { T_ID }
}
pub static mut T_ID: u16 = 0;

/// Element `a` of the packed table `f` (card entries of rb bits).
#[inline(never)]
fn select(f: u64, a: u64, card: u64, rb: u8) -> u64 {
    let m = (1u64 << rb) - 1;
    let mut r = 0u64;
    let mut i = 0;
    while i < card {
        let e = (a == i) as u64;
        r |= (f >> (i * rb as u64)) & m & 0u64.wrapping_sub(e);
        i += 1;
    }
    r
}
