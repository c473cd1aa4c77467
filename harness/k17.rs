//! The elements the kernel finds for types.
use super::gen::{bound, ctx, ground};
use super::sym;
use crate::elaborator::acorn_type::{AcornType, Datatype, TypeParam, Typeclass};
use crate::elaborator::names::ConstantName;
use crate::kernel::atom::Atom;
use crate::kernel::kernel_context::KernelContext;
use crate::kernel::local_context::LocalContext;
use crate::kernel::symbol::Symbol;
use crate::kernel::symbol_table::NewConstantType;
use crate::kernel::term::{Decomposition, Term};
use crate::kernel::types::TypeclassId;
use crate::module::ModuleId;

pub const HARNESSES: &[(&str, fn())] = &[
    ("k17_classes", k17_classes),
    ("k17_constructor", k17_constructor),
    ("k17_two", k17_two),
    ("k17_kinds", k17_kinds),
    ("k17_local", k17_local),
];
const TH: usize = cfg!(vh_thorough) as usize;
const M: ModuleId = ModuleId(0);

/// Types T (ground), E (ground), Box (one type parameter), A (a fixed type of class C0 or C1);
/// classes C0, C1; C1 may extend C0.
struct W {
    kc: KernelContext,
    t: Term,
    e: Term,
    bx: Term,
    arb: Term,
    arb_class: u16,
    class: [TypeclassId; 2],
    extends: bool,
    /// which of T, E is an instance of which class
    inst: [[bool; 2]; 2],
}
fn data(n: &str) -> AcornType {
    AcornType::Data(Datatype { module_id: M, name: n.to_string() }, vec![])
}
fn class(i: usize) -> Typeclass {
    Typeclass { module_id: M, name: ["P", "Q"][i].to_string() }
}
impl W {
    /// `inst`: the instances are arbitrary (else none)
    fn new(inst: bool, extends: bool) -> W {
        let mut kc = KernelContext::new();
        let t = ground(&mut kc, "T");
        let e = ground(&mut kc, "E");
        let d = Datatype { module_id: M, name: "Box".to_string() };
        kc.type_store.add_type(&AcornType::Data(d, vec![data("T")]));
        let bx = kc.type_store.get_type_term(&data("Box")).unwrap();
        let class_ids = [kc.type_store.add_typeclass(&class(0)), kc.type_store.add_typeclass(&class(1))];
        let extends = extends && sym::choice(2) == 1;
        if extends {
            kc.type_store.add_typeclass_extends(class_ids[1], class_ids[0]);
        }
        let mut w = W {
            kc,
            arb: t.clone(),
            arb_class: 0,
            t,
            e,
            bx,
            class: class_ids,
            extends,
            inst: [[false; 2]; 2],
        };
        if inst {
            for (i, n) in ["T", "E"].iter().enumerate() {
                for c in 0..2 {
                    // an instance of C1 is one of what C1 extends
                    let implied = c == 0 && extends && w.inst[i][1];
                    let c = 1 - c;
                    let _ = implied;
                    if (c == 0 && extends && w.inst[i][1]) || sym::choice(2) == 1 {
                        w.inst[i][c] = true;
                        w.kc.type_store.add_type_instance(&data(n), w.class[c]);
                    }
                }
            }
        }
        w
    }
    fn arbitrary(&mut self, c: usize) {
        let ty = AcornType::Arbitrary(TypeParam { name: "A".to_string(), typeclass: Some(class(c)) });
        self.kc.type_store.add_type(&ty);
        self.arb = self.kc.type_store.get_type_term(&ty).unwrap();
        self.arb_class = c as u16;
    }
    fn class_term(&self, i: usize) -> Term {
        self.kc.type_store.typeclass_to_term(self.class[i])
    }
    /// One of the classes: which one stays symbolic.
    fn some_class(&self) -> Term {
        let id = TypeclassId::new(M, (sym::u8() & 1) as u16);
        Term::atom(Atom::Symbol(Symbol::Typeclass(id)))
    }
    fn boxed(&self, t: &Term) -> Term {
        self.bx.apply(&[t.clone()])
    }
    fn below(&self, c: TypeclassId, d: TypeclassId) -> bool {
        (c.local_id() == d.local_id()) | (self.extends & (c.local_id() == 1) & (d.local_id() == 0))
    }
    /// Whether a term is a type of the class (a type at all, without one).
    fn is_type(&self, t: &Term, c: Option<TypeclassId>, lc: &LocalContext) -> bool {
        let kind = match t.as_ref().decompose() {
            Decomposition::Atom(Atom::FreeVariable(i)) => lc.get_var_type(*i as usize).cloned(),
            Decomposition::Atom(Atom::Symbol(Symbol::ScopedConstant(i))) => {
                Some(self.kc.symbol_table.get_type(Symbol::ScopedConstant(*i)).clone())
            }
            _ => None,
        };
        if let Some(kind) = kind {
            return match (kind.as_ref().as_typeclass(), c) {
                (Some(k), Some(c)) => self.below(k, c),
                (Some(_), None) => true,
                (None, Some(_)) => false,
                (None, None) => kind.as_ref().is_type0(),
            };
        }
        let Some(c) = c else {
            return match t.as_ref().decompose() {
                Decomposition::Atom(Atom::Symbol(Symbol::Bool)) => true,
                Decomposition::Atom(Atom::Symbol(Symbol::Type(_))) => *t != self.bx,
                Decomposition::Application(f, a) => {
                    f == self.bx.as_ref() && self.is_type(&a.to_owned(), None, lc)
                }
                Decomposition::Pi(a, b) => {
                    let b = b.to_owned();
                    !b.references_bound(0)
                        && self.is_type(&a.to_owned(), None, lc)
                        && self.is_type(&b.shift_bound(1, -1), None, lc)
                }
                _ => false,
            };
        };
        for (i, ty) in [&self.t, &self.e].iter().enumerate() {
            if t == *ty {
                return if c.local_id() == 0 { self.inst[i][0] } else { self.inst[i][1] };
            }
        }
        if *t == self.arb {
            return self.below(self.class[self.arb_class as usize], c);
        }
        false
    }
    /// The type of a term, if it has one.
    fn type_of(&self, t: &Term, binders: &[Term], lc: &LocalContext) -> Option<Term> {
        match t.as_ref().decompose() {
            Decomposition::Atom(Atom::FreeVariable(i)) => lc.get_var_type(*i as usize).cloned(),
            Decomposition::Atom(Atom::BoundVariable(i)) => {
                let i = *i as usize;
                let n = binders.len();
                if i >= n {
                    return None;
                }
                Some(binders[n - 1 - i].shift_bound(0, i as i16 + 1))
            }
            Decomposition::Atom(Atom::Symbol(Symbol::True)) => Some(Term::bool_type()),
            Decomposition::Atom(Atom::Symbol(Symbol::False)) => Some(Term::bool_type()),
            Decomposition::Atom(Atom::Symbol(s)) => match s {
                Symbol::GlobalConstant(..) | Symbol::ScopedConstant(..) => {
                    Some(self.kc.symbol_table.get_type(*s).clone())
                }
                _ => None,
            },
            Decomposition::Application(f, a) => {
                let a = a.to_owned();
                let ft = self.type_of(&f.to_owned(), binders, lc)?;
                let (input, output) = ft.as_ref().split_pi()?;
                let fits = match input.as_typeclass() {
                    Some(c) => self.is_type(&a, Some(c), lc),
                    None if input.is_type0() => self.is_type(&a, None, lc),
                    None => self.type_of(&a, binders, lc)? == input.to_owned(),
                };
                if !fits {
                    return None;
                }
                Some(subst(&output.to_owned(), 0, &a))
            }
            Decomposition::Lambda(ty, body) => {
                let mut binders = binders.to_vec();
                binders.push(ty.to_owned());
                let body = self.type_of(&body.to_owned(), &binders, lc)?;
                Some(Term::pi(ty.to_owned(), body))
            }
            _ => None,
        }
    }
    /// The type of a polymorphic constant: `n` type parameters, then a value argument or not.
    fn scheme(&self, n: usize, value: bool, class_result: bool) -> Term {
        let mut kinds = vec![];
        for _ in 0..n {
            kinds.push(match sym::choice(2) {
                0 => Term::type_sort(),
                _ => self.some_class(),
            });
        }
        let arg = if value && sym::choice(2) == 1 {
            Some(match sym::choice(3) {
                0 => self.t.clone(),
                1 => self.e.clone(),
                _ => bound(sym::below(n.max(1) as u8) as u16),
            })
        } else {
            None
        };
        let shift = arg.is_some() as u16;
        let some = || {
            if n == 0 {
                self.t.clone()
            } else if n == 1 {
                bound(shift)
            } else {
                bound(shift + (sym::u8() & 1) as u16)
            }
        };
        let result = match sym::choice(if class_result { 2 } else { 3 }) {
            0 => some(),
            1 => self.boxed(&some()),
            _ => self.boxed(if sym::choice(2) == 0 { &self.t } else { &self.e }),
        };
        let mut ty = result;
        if let Some(a) = arg {
            ty = Term::pi(a, ty);
        }
        for k in kinds.into_iter().rev() {
            ty = Term::pi(k, ty);
        }
        ty
    }
    fn add(&mut self, name: &str, local: bool, ty: Term) {
        let ctype = if local { NewConstantType::Local } else { NewConstantType::Global };
        self.kc.symbol_table.add_constant(ConstantName::unqualified(M, name), ctype, ty);
    }
    fn wanted(&self) -> Term {
        let x0 = Term::new_variable(0);
        match sym::choice(8) {
            0 => self.t.clone(),
            1 => self.e.clone(),
            2 => self.arb.clone(),
            3 => x0,
            4 => self.boxed(&self.t),
            5 => self.boxed(&self.e),
            6 => self.boxed(&x0),
            _ => self.boxed(&self.arb),
        }
    }
    fn check(&self, wanted: &Term, lc: &LocalContext) {
        let found = self.kc.find_inhabitant(wanted, Some(lc));
        let other = self.kc.find_inhabitant_without_local_elements(wanted, Some(lc));
        if let Some(found) = found {
            sym::reach(0);
            let ok = self.type_of(&found, &[], lc).map_or(false, |ty| ty == *wanted);
            sym::check(ok, "the element found for a type has that type");
        } else {
            sym::reach(1);
        }
        if let Some(found) = other {
            let ok = self.type_of(&found, &[], lc).map_or(false, |ty| ty == *wanted);
            sym::check(ok, "the element found for a type without local constants has that type");
        }
    }
}
/// Replaces bound variable `i` and closes the gap (`by` is not under binders).
fn subst(t: &Term, i: u16, by: &Term) -> Term {
    match t.as_ref().decompose() {
        Decomposition::Atom(Atom::BoundVariable(j)) => {
            let j = *j;
            if j == i {
                by.shift_bound(0, i as i16)
            } else if j > i {
                bound(j - 1)
            } else {
                t.clone()
            }
        }
        Decomposition::Atom(_) => t.clone(),
        Decomposition::Application(f, a) => {
            let a = subst(&a.to_owned(), i, by);
            subst(&f.to_owned(), i, by).apply(&[a])
        }
        Decomposition::Pi(a, b) => {
            Term::pi(subst(&a.to_owned(), i, by), subst(&b.to_owned(), i + 1, by))
        }
        _ => t.clone(),
    }
}

/// One polymorphic constant whose result is one of its type parameters, or a box of one.
#[no_mangle]
#[inline(never)]
pub fn k17_classes() {
    let mut w = W::new(false, true);
    w.arbitrary(sym::choice(2) as usize);
    let n = 1 + sym::choice(2) as usize;
    let ty = w.scheme(n, false, true);
    w.add("f", false, ty);
    let x0 = match sym::choice(2) {
        0 => Term::type_sort(),
        _ => w.some_class(),
    };
    let lc = ctx(&[&x0]);
    let wanted = match sym::choice(4) {
        0 => w.arb.clone(),
        1 => Term::new_variable(0),
        2 => w.boxed(&Term::new_variable(0)),
        _ => w.boxed(&w.arb),
    };
    w.check(&wanted, &lc);
}
/// One polymorphic constant with a value argument; T and E may be instances.
#[no_mangle]
#[inline(never)]
pub fn k17_constructor() {
    let mut w = W::new(true, false);
    w.arbitrary(0);
    let ty = w.scheme(1, true, false);
    w.add("f", false, ty);
    let t = w.t.clone();
    w.add("c", false, t);
    let x0 = match sym::choice(2) {
        0 => Term::type_sort(),
        _ => w.some_class(),
    };
    let lc = ctx(&[&x0]);
    let wanted = w.wanted();
    w.check(&wanted, &lc);
}
/// Two polymorphic constants.
#[no_mangle]
#[inline(never)]
pub fn k17_two() {
    let mut w = W::new(false, TH == 1);
    w.arbitrary(0);
    let ty = w.scheme(1, true, true);
    w.add("f", false, ty);
    let ty = w.scheme(1, TH == 1, true);
    w.add("g", false, ty);
    let x0 = w.some_class();
    let lc = ctx(&[&x0]);
    let wanted = match sym::choice(3) {
        0 => w.boxed(&w.arb),
        1 => w.boxed(&w.t),
        _ => w.boxed(&Term::new_variable(0)),
    };
    w.check(&wanted, &lc);
}
/// Witnesses for kinds: the type found for a class is of that class.
#[no_mangle]
#[inline(never)]
pub fn k17_kinds() {
    let mut w = W::new(true, true);
    let x0 = match sym::choice(3) {
        0 => w.t.clone(),
        1 => Term::type_sort(),
        _ => w.some_class(),
    };
    let lc = ctx(&[&x0]);
    let wanted = match sym::choice(3) {
        0 => Term::type_sort(),
        1 => w.class_term(0),
        _ => w.class_term(1),
    };
    w.arbitrary(0);
    let found = if sym::choice(2) == 0 {
        w.kc.find_inhabitant(&wanted, Some(&lc))
    } else {
        w.kc.find_inhabitant(&wanted, None)
    };
    if let Some(found) = found {
        sym::reach(0);
        let ok = w.is_type(&found, wanted.as_ref().as_typeclass(), &lc);
        sym::check(ok, "the type found for a class is of that class");
    } else {
        sym::reach(1);
    }
}
/// Function types, local constants.
#[no_mangle]
#[inline(never)]
pub fn k17_local() {
    let mut w = W::new(false, false);
    w.arbitrary(0);
    // a local constant of one of the types, and a local type
    let kind = match sym::choice(2) {
        0 => Term::type_sort(),
        _ => w.some_class(),
    };
    w.add("L", true, kind);
    let local = Term::atom(Atom::Symbol(Symbol::ScopedConstant(0)));
    let base = |w: &W| match sym::choice(4) {
        0 => w.t.clone(),
        1 => w.e.clone(),
        2 => local.clone(),
        _ => w.boxed(&local),
    };
    let ty = base(&w);
    let is_local = sym::choice(2) == 1;
    w.add("c", is_local, ty.clone());
    let ty2 = w.scheme(1, false, true);
    w.add("f", false, ty2);
    let x0 = w.some_class();
    let lc = ctx(&[&x0]);
    let a = base(&w);
    let wanted = match sym::choice(3) {
        0 => a,
        1 => Term::pi(a, base(&w)),
        _ => {
            let b = base(&w);
            Term::pi(a, Term::pi(w.t.clone(), b))
        }
    };
    w.check(&wanted, &lc);
    let other = w.kc.find_inhabitant_without_local_elements(&wanted, Some(&lc));
    if let (Some(found), true) = (other, is_local) {
        let uses = found.iter_atoms().any(|a| *a == Atom::Symbol(Symbol::ScopedConstant(1)));
        sym::check(!uses, "no local constant is used as an element when that is not allowed");
    }
}
