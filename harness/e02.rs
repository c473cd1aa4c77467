//! Inference of type arguments.
use super::sym;
use crate::elaborator::acorn_type::{AcornType, Datatype, DependentTypeArg, TypeParam, Typeclass};
use crate::elaborator::acorn_value::AcornValue;
use crate::elaborator::names::ConstantName;
use crate::elaborator::potential_value::PotentialValue;
use crate::elaborator::type_unifier::{TypeUnifier, TypeclassRegistry};
use crate::elaborator::unresolved_constant::UnresolvedConstant;
use crate::kernel::atom::AtomId;
use crate::module::ModuleId;
use crate::syntax::token::Token;

pub const HARNESSES: &[(&str, fn())] = &[
    ("e02_match", e02_match),
    ("e02_shapes", e02_shapes),
    ("e02_twice", e02_twice),
    ("e02_family", e02_family),
    ("e02_family_functions", e02_family_functions),
    ("e02_resolve", e02_resolve),
];
const TH: usize = cfg!(vh_thorough) as usize;
const M: ModuleId = ModuleId(0);

fn name(base: u8) -> String {
    String::from_utf8(vec![base | (sym::u8() & 1)]).unwrap()
}
fn dt(n: &str) -> Datatype {
    Datatype { module_id: M, name: n.to_string() }
}
fn class(i: u8) -> Typeclass {
    Typeclass { module_id: M, name: String::from_utf8(vec![b'P' + i]).unwrap() }
}
/// Two datatypes (D, E: name byte 0x44/0x45), a type constructor L, two typeclasses P, Q.
struct Registry {
    inst: u8,
    list: u8,
    extends: u8,
}
impl TypeclassRegistry for Registry {
    fn is_instance_of(&self, c: &Datatype, t: &Typeclass) -> bool {
        let c = c.name.as_bytes()[0];
        let t = t.name.as_bytes()[0] - b'P';
        if c == b'L' {
            return self.list >> t & 1 == 1;
        }
        self.inst >> (((c & 1) << 1) | t) & 1 == 1
    }
    fn is_instance_of_type(&self, ty: &AcornType, t: &Typeclass) -> bool {
        match ty {
            AcornType::Data(d, _) => self.is_instance_of(d, t),
            AcornType::Family(d, _) => self.is_instance_of(d, t),
            _ => false,
        }
    }
    fn extends(&self, a: &Typeclass, b: &Typeclass) -> bool {
        let (a, b) = (a.name.as_bytes()[0] - b'P', b.name.as_bytes()[0] - b'P');
        a != b && self.extends >> a & 1 == 1
    }
}
fn registry() -> Registry {
    Registry { inst: sym::u8(), list: sym::u8(), extends: sym::u8() }
}
/// What the parameters are: per name an optional typeclass.
struct Params([Option<Typeclass>; 2]);
fn params() -> Params {
    let one = || match sym::choice(2) {
        0 => None,
        _ => Some(class(sym::below(2))),
    };
    Params([one(), one()])
}
impl Params {
    fn get(&self, i: usize) -> TypeParam {
        TypeParam { name: ["S", "T"][i].to_string(), typeclass: self.0[i].clone() }
    }
}
/// A type; `vars` says which parameters may occur as variables, `arb` allows arbitrary types.
fn ty(p: &Params, vars: bool, arb: bool, d: usize) -> AcornType {
    let mut opts = vec![0, 1];
    if vars {
        opts.push(2);
    }
    if arb {
        opts.push(3);
    }
    if d > 0 {
        opts.extend([4, 5, 6]);
    }
    match opts[sym::choice(opts.len())] {
        0 => AcornType::Bool,
        1 => AcornType::Data(dt(&name(b'D')), vec![]),
        2 => AcornType::Variable(p.get(sym::choice(2))),
        3 => AcornType::Arbitrary(TypeParam { name: "U".to_string(), typeclass: Some(class(sym::below(2))) }),
        4 => AcornType::Data(dt("L"), vec![ty(p, vars, arb, d - 1)]),
        5 => AcornType::functional(vec![ty(p, vars, arb, d - 1)], ty(p, vars, arb, d - 1)),
        _ => AcornType::functional(vec![ty(p, vars, arb, 0), ty(p, vars, arb, 0)], ty(p, vars, arb, d - 1)),
    }
}
type Sub = Vec<(String, AcornType)>;
fn split(t: &AcornType) -> Option<(AcornType, AcornType)> {
    match t {
        AcornType::Function(f) => Some((
            f.arg_types[0].clone(),
            AcornType::functional(f.arg_types[1..].to_vec(), (*f.return_type).clone()),
        )),
        _ => None,
    }
}
fn allowed(r: &Registry, p: &TypeParam, t: &AcornType) -> bool {
    let Some(c) = &p.typeclass else {
        return true;
    };
    match t {
        AcornType::Data(..) | AcornType::Family(..) => r.is_instance_of_type(t, c),
        AcornType::Arbitrary(q) | AcornType::Variable(q) => match &q.typeclass {
            Some(d) => d == c || r.extends(d, c),
            None => false,
        },
        _ => false,
    }
}
/// The only substitution that can work, function types taken one argument at a time.
fn reference(r: &Registry, g: &AcornType, i: &AcornType, s: &mut Sub) -> bool {
    match g {
        AcornType::Variable(p) => {
            if let Some((_, t)) = s.iter().find(|(n, _)| *n == p.name) {
                return t == i;
            }
            if !allowed(r, p, i) {
                return false;
            }
            s.push((p.name.clone(), i.clone()));
            true
        }
        AcornType::Function(_) => match (split(g), split(i)) {
            (Some((a, b)), Some((x, y))) => reference(r, &a, &x, s) && reference(r, &b, &y, s),
            _ => false,
        },
        AcornType::Data(c, a) => match i {
            AcornType::Data(d, b) => {
                c == d && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| reference(r, x, y, s))
            }
            _ => false,
        },
        _ => g == i,
    }
}
fn sub_of(u: &TypeUnifier) -> Sub {
    u.mapping.iter().map(|(n, t)| (n.clone(), t.clone())).collect()
}
fn same(a: &Sub, b: &Sub) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.0 == y.0 && x.1 == y.1))
}
fn respects(r: &Registry, p: &Params, s: &Sub) -> bool {
    (0..2).all(|i| s.iter().filter(|(n, _)| *n == p.get(i).name).all(|(_, t)| allowed(r, &p.get(i), t)))
}
fn check_match(r: &Registry, p: &Params, g: &AcornType, i: &AcornType) {
    let mut u = TypeUnifier::new(r);
    let ok = u.match_instance(g, i).is_ok();
    let mut s = vec![];
    let want = reference(r, g, i, &mut s);
    sym::check(ok == want, "a match is reported exactly when one exists");
    if ok {
        let got = sub_of(&u);
        sym::check(g.instantiate(&got) == *i, "the inferred arguments do not give the instance");
        sym::check(respects(r, p, &got), "an inferred argument violates a typeclass bound");
        sym::check(same(&got, &s), "other arguments than the only possible ones");
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}

/// One pair of types.
#[no_mangle]
#[inline(never)]
pub fn e02_match() {
    let r = registry();
    let p = params();
    let g = ty(&p, true, false, 1);
    let i = ty(&p, false, true, 1 + TH);
    check_match(&r, &p, &g, &i);
}

/// Functions of several arguments that return functions or variables.
#[no_mangle]
#[inline(never)]
pub fn e02_shapes() {
    let r = registry();
    let p = params();
    let v = |i: usize| AcornType::Variable(p.get(i));
    let leaf = || match sym::choice(2 + TH) {
        0 => AcornType::Data(dt(&name(b'D')), vec![]),
        1 => AcornType::Bool,
        _ => AcornType::Data(dt("L"), vec![AcornType::Data(dt(&name(b'D')), vec![])]),
    };
    let g = match sym::choice(6) {
        0 => AcornType::functional(vec![v(0), v(1)], v(0)),
        1 => AcornType::functional(vec![v(0)], v(1)),
        2 => AcornType::functional(vec![AcornType::functional(vec![v(0)], v(1)), v(0)], v(1)),
        3 => AcornType::functional(vec![v(1)], AcornType::functional(vec![v(1)], v(0))),
        4 => AcornType::functional(vec![AcornType::Data(dt("L"), vec![v(0)])], v(0)),
        _ => AcornType::functional(vec![AcornType::functional(vec![v(0)], AcornType::Bool)], v(0)),
    };
    let i = match sym::choice(6) {
        0 => AcornType::functional(vec![leaf(), leaf()], leaf()),
        1 => AcornType::functional(vec![leaf()], leaf()),
        2 => AcornType::functional(vec![AcornType::functional(vec![leaf()], leaf()), leaf()], leaf()),
        3 => AcornType::functional(vec![leaf(), leaf()], AcornType::functional(vec![leaf()], leaf())),
        4 => AcornType::functional(vec![AcornType::Data(dt("L"), vec![leaf()])], leaf()),
        _ => AcornType::functional(vec![AcornType::functional(vec![leaf(), leaf()], leaf())], leaf()),
    };
    check_match(&r, &p, &g, &i);
}

/// A second pair under the arguments already inferred.
#[no_mangle]
#[inline(never)]
pub fn e02_twice() {
    let r = registry();
    let p = params();
    let v = |i: usize| AcornType::Variable(p.get(i));
    let gen = || match sym::choice(4) {
        0 => v(0),
        1 => v(1),
        2 => AcornType::Data(dt("L"), vec![v(0)]),
        _ => AcornType::functional(vec![v(0)], v(1)),
    };
    let con = || match sym::choice(4) {
        0 => AcornType::Data(dt(&name(b'D')), vec![]),
        1 => AcornType::Data(dt("L"), vec![AcornType::Data(dt(&name(b'D')), vec![])]),
        2 => AcornType::functional(vec![AcornType::Data(dt(&name(b'D')), vec![])], AcornType::Bool),
        _ => AcornType::Arbitrary(TypeParam { name: "U".to_string(), typeclass: Some(class(sym::below(2))) }),
    };
    let (g1, i1, g2, i2) = (gen(), con(), gen(), con());
    let mut u = TypeUnifier::new(&r);
    let mut s = vec![];
    let ok1 = u.match_instance(&g1, &i1).is_ok();
    sym::check(ok1 == reference(&r, &g1, &i1, &mut s), "a match is reported exactly when one exists");
    if !ok1 {
        return;
    }
    let before = sub_of(&u);
    let ok2 = u.match_instance(&g2, &i2).is_ok();
    sym::check(ok2 == reference(&r, &g2, &i2, &mut s), "the second match is reported exactly when one exists");
    let after = sub_of(&u);
    sym::check(
        before.iter().all(|x| after.iter().any(|y| x.0 == y.0 && x.1 == y.1)),
        "an argument already inferred was replaced",
    );
    if ok2 {
        sym::check(g1.instantiate(&after) == i1, "the first match no longer holds");
        sym::check(g2.instantiate(&after) == i2, "the inferred arguments do not give the instance");
        sym::check(respects(&r, &p, &after), "an inferred argument violates a typeclass bound");
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}

fn nat() -> AcornType {
    AcornType::Data(dt("N"), vec![])
}
fn family(i: AtomId) -> AcornType {
    AcornType::Family(dt("V"), vec![DependentTypeArg::Value(AcornValue::Variable(i, nat()))])
}
fn family2(i: AtomId, t: AcornType) -> AcornType {
    AcornType::Family(dt("W"), vec![DependentTypeArg::Type(t), DependentTypeArg::Value(AcornValue::Variable(i, nat()))])
}
fn values(u: &TypeUnifier, n: usize) -> Option<Vec<AcornValue>> {
    (0..n as AtomId).map(|i| u.value_mapping.get(&i).cloned()).collect()
}
fn check_family(g: &AcornType, i: &AcornType, hidden: usize) {
    let r = registry();
    let mut u = TypeUnifier::new(&r);
    if u.match_instance(g, i).is_err() {
        sym::reach(1);
        return;
    }
    let s = sub_of(&u);
    if let Some(vs) = values(&u, hidden) {
        let t = g.bind_value_params(&vs).instantiate(&s);
        sym::check(t == *i, "the inferred arguments do not give the instance");
        sym::reach(0);
    }
}

/// Types that depend on a value: the value is inferred as well.
#[no_mangle]
#[inline(never)]
pub fn e02_family() {
    let p = Params([None, None]);
    let v = |i: usize| AcornType::Variable(p.get(i));
    // hidden parameter 0; under one visible argument it is variable 1
    let h = |k: AtomId| family(k);
    let g = match sym::choice(6) {
        0 => h(0),
        1 => family2(0, v(0)),
        2 => AcornType::functional(vec![h(0)], h(1)),
        3 => AcornType::functional(vec![h(0)], v(0)),
        4 => AcornType::functional(vec![h(0), family(2 - 1)], family(2)),
        _ => AcornType::functional(vec![family2(0, v(0))], v(0)),
    };
    let a = || sym::below(3) as AtomId;
    let i = match sym::choice(5) {
        0 => family(a()),
        1 => family2(a(), if sym::choice(2) == 0 { nat() } else { family(a()) }),
        2 => AcornType::functional(vec![family(a())], family(a())),
        3 => AcornType::functional(vec![family(a()), family(a())], family(a())),
        _ => AcornType::functional(vec![family2(a(), family(a()))], family(a())),
    };
    check_family(&g, &i, 1);
}

/// Type variables standing for types that depend on values, inside function types.
#[no_mangle]
#[inline(never)]
pub fn e02_family_functions() {
    let p = Params([None, None]);
    let v = |i: usize| AcornType::Variable(p.get(i));
    let g = match sym::choice(6) {
        0 => AcornType::functional(vec![v(0)], v(1)),
        1 => AcornType::functional(vec![v(0), v(0)], v(1)),
        2 => AcornType::functional(vec![v(0)], v(0)),
        3 => AcornType::functional(vec![AcornType::functional(vec![v(0)], v(1)), v(0)], v(1)),
        4 => AcornType::functional(vec![nat(), AcornType::functional(vec![v(0)], AcornType::Bool)], v(0)),
        _ => AcornType::functional(vec![nat(), v(0)], AcornType::functional(vec![v(1)], v(0))),
    };
    let a = || sym::below(4) as AtomId;
    let leaf = || match sym::choice(2) {
        0 => nat(),
        _ => family(a()),
    };
    let i = match sym::choice(5) {
        0 => AcornType::functional(vec![leaf()], leaf()),
        1 => AcornType::functional(vec![leaf(), leaf()], leaf()),
        2 => AcornType::functional(vec![AcornType::functional(vec![leaf()], leaf()), leaf()], leaf()),
        3 => AcornType::functional(vec![nat(), AcornType::functional(vec![leaf()], AcornType::Bool)], leaf()),
        _ => AcornType::functional(vec![nat(), leaf(), leaf()], leaf()),
    };
    check_family(&g, &i, 0);
}

/// A polymorphic constant applied to arguments, with and without an expected type.
#[no_mangle]
#[inline(never)]
pub fn e02_resolve() {
    let r = registry();
    let p = params();
    let v = |i: usize| AcornType::Variable(p.get(i));
    let (g, np) = match sym::choice(4) {
        0 => (AcornType::functional(vec![v(0), v(0)], v(0)), 1),
        1 => (AcornType::functional(vec![v(0)], v(1)), 2),
        2 => (AcornType::functional(vec![AcornType::functional(vec![v(0)], v(1)), v(0)], v(1)), 2),
        _ => (AcornType::functional(vec![v(0)], AcornType::Data(dt("L"), vec![v(1)])), 2),
    };
    let con = |k: usize| match sym::choice(k) {
        0 => AcornType::Data(dt(&name(b'D')), vec![]),
        1 => AcornType::functional(vec![AcornType::Data(dt(&name(b'D')), vec![])], AcornType::Data(dt("E"), vec![])),
        _ => AcornType::Data(dt("L"), vec![AcornType::Data(dt(&name(b'D')), vec![])]),
    };
    let n = 1 + sym::choice(2);
    let args: Vec<AcornType> = (0..n).map(|_| con(2)).collect();
    let expected = if sym::choice(2) == 1 { Some(con(3)) } else { None };
    let c = UnresolvedConstant {
        name: ConstantName::unqualified(M, "f"),
        params: (0..np).map(|i| p.get(i)).collect(),
        generic_type: g.clone(),
        value_param_types: vec![],
        bound_value_args: vec![],
        args: vec![],
    };
    // what has to match
    let mut s = vec![];
    let mut rest = g.clone();
    let mut want = true;
    for a in &args {
        match split(&rest) {
            Some((x, y)) => {
                want = want && reference(&r, &x, a, &mut s);
                rest = y;
            }
            None => {
                want = false;
                break;
            }
        }
    }
    if let Some(e) = &expected {
        want = want && reference(&r, &rest, e, &mut s);
    }
    let mut u = TypeUnifier::new(&r);
    let values: Vec<AcornValue> = args.iter().enumerate().map(|(i, t)| AcornValue::Variable(i as AtomId, t.clone())).collect();
    match u.try_resolve_with_inference(c, values, expected.as_ref(), &Token::empty()) {
        Err(_) => {
            sym::check(!want, "inference fails although arguments exist");
            sym::reach(1);
        }
        Ok(PotentialValue::Resolved(val)) => {
            sym::check(want && s.len() == np, "a value was resolved although its arguments do not fit");
            sym::check(val.get_type() == rest.instantiate(&s), "the resolved value has another type");
            sym::reach(0);
        }
        Ok(PotentialValue::Unresolved(_)) => {
            sym::check(want && s.len() < np, "inference leaves arguments open although they are determined");
            sym::reach(2);
        }
    }
}
