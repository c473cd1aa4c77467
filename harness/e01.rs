//! Termination of recursive definitions: every body within bounds against a plain reading of the rule.
use super::sym;
use crate::elaborator::acorn_type::{AcornType, Datatype, DependentTypeArg, FunctionType};
use crate::elaborator::acorn_value::{AcornValue, BinaryOp, ConstantInstance, MatchCase};
use crate::elaborator::names::ConstantName;
use crate::elaborator::termination_checker::TerminationChecker;
use crate::kernel::atom::AtomId;
use crate::module::ModuleId;

pub const HARNESSES: &[(&str, fn())] = &[
    ("e01_calls", e01_calls),
    ("e01_nested", e01_nested),
    ("e01_match", e01_match),
    ("e01_two", e01_two),
    ("e01_hidden", e01_hidden),
    ("e01_three", e01_three),
];
const TH: usize = cfg!(vh_thorough) as usize;

fn name(s: &str) -> ConstantName {
    ConstantName::unqualified(ModuleId(0), s)
}
fn constant(s: &str, params: Vec<AcornType>, bound: Vec<AcornValue>) -> AcornValue {
    AcornValue::Constant(ConstantInstance {
        name: name(s),
        params,
        instance_type: AcornType::Bool,
        generic_type: AcornType::Bool,
        type_param_names: vec![],
        value_param_types: vec![],
        bound_value_args: bound,
    })
}
fn f() -> AcornValue {
    constant("f", vec![], vec![])
}
fn g() -> AcornValue {
    constant("g", vec![], vec![])
}
fn var(i: AtomId) -> AcornValue {
    AcornValue::Variable(i, AcornType::Bool)
}
/// Any variable of a stack of n: which one stays symbolic.
fn any(n: usize) -> AcornValue {
    let v = sym::below(n as u8);
    var(v as AtomId)
}
/// A type with a value in it.
fn family(v: AcornValue) -> AcornType {
    AcornType::Family(Datatype { module_id: ModuleId(0), name: "F".to_string() }, vec![DependentTypeArg::Value(v)])
}

/// What the rule says, from the structure of the value alone. A relation of a variable to the arguments:
/// NONE, i for argument i itself, STRICT | i for a part of it.
const NONE: u8 = 0xff;
const STRICT: u8 = 0x40;
struct Rule {
    n: usize,
    /// parts of parts count
    deep: bool,
    /// position i is a part of argument i in every call so far
    good: Vec<bool>,
}
impl Rule {
    fn new(n: usize, deep: bool) -> Rule {
        Rule { n, deep, good: vec![true; n] }
    }
    fn head(v: &AcornValue) -> bool {
        match v {
            AcornValue::Constant(c) => c.name == name("f"),
            AcornValue::TypeApplication(a) => Rule::head(&a.function),
            _ => false,
        }
    }
    fn call(&mut self, args: &[&AcornValue], env: &[u8]) {
        for i in 0..self.n {
            let ok = match args.get(i) {
                Some(AcornValue::Variable(j, _)) => env[*j as usize] == STRICT | i as u8,
                _ => false,
            };
            self.good[i] &= ok;
        }
    }
    fn ty(&mut self, t: &AcornType, env: &mut Vec<u8>) {
        match t {
            AcornType::Family(_, args) => {
                for a in args {
                    match a {
                        DependentTypeArg::Value(v) => self.walk(v, env),
                        DependentTypeArg::Type(t) => self.ty(t, env),
                    }
                }
            }
            AcornType::Data(_, ts) => {
                for t in ts {
                    self.ty(t, env);
                }
            }
            AcornType::Function(ft) => {
                let n = env.len();
                for t in &ft.arg_types {
                    self.ty(t, env);
                    env.push(NONE);
                }
                self.ty(&ft.return_type, env);
                env.truncate(n);
            }
            _ => {}
        }
    }
    fn hidden(&mut self, v: &AcornValue, env: &mut Vec<u8>) {
        match v {
            AcornValue::Constant(c) => {
                for t in &c.params {
                    self.ty(t, env);
                }
                for b in &c.bound_value_args {
                    self.walk(b, env);
                }
            }
            AcornValue::TypeApplication(a) => {
                self.hidden(&a.function, env);
                for t in &a.type_args {
                    self.ty(t, env);
                }
            }
            _ => {}
        }
    }
    fn walk(&mut self, v: &AcornValue, env: &mut Vec<u8>) {
        if Rule::head(v) {
            self.call(&[], env);
            self.hidden(v, env);
            return;
        }
        match v {
            AcornValue::Variable(..) | AcornValue::Bool(_) => {}
            AcornValue::Constant(_) => self.hidden(v, env),
            AcornValue::TypeApplication(a) => {
                self.walk(&a.function, env);
                for t in &a.type_args {
                    self.ty(t, env);
                }
            }
            AcornValue::Application(_) => {
                // all arguments of a curried call
                let mut args = vec![];
                let mut h = v;
                while let AcornValue::Application(a) = h {
                    for x in a.args.iter().rev() {
                        args.insert(0, x);
                    }
                    h = &a.function;
                }
                if Rule::head(h) {
                    self.call(&args, env);
                    self.hidden(h, env);
                } else {
                    self.walk(h, env);
                }
                for x in args {
                    self.walk(x, env);
                }
            }
            AcornValue::Lambda(ts, b) | AcornValue::ForAll(ts, b) | AcornValue::Exists(ts, b) => {
                let n = env.len();
                for t in ts {
                    self.ty(t, env);
                    env.push(NONE);
                }
                self.walk(b, env);
                env.truncate(n);
            }
            AcornValue::Grouping(b) | AcornValue::Not(b) | AcornValue::Try(b, _) => self.walk(b, env),
            AcornValue::Binary(_, a, b) => {
                self.walk(a, env);
                self.walk(b, env);
            }
            AcornValue::IfThenElse(a, b, c) => {
                self.walk(a, env);
                self.walk(b, env);
                self.walk(c, env);
            }
            AcornValue::Match(s, cases) => {
                self.walk(s, env);
                let part = match &**s {
                    AcornValue::Variable(i, _) => {
                        let r = env[*i as usize];
                        if r == NONE {
                            NONE
                        } else if r & STRICT != 0 {
                            if self.deep { r } else { NONE }
                        } else {
                            r | STRICT
                        }
                    }
                    _ => NONE,
                };
                for c in cases {
                    let n = env.len();
                    for _ in &c.new_vars {
                        env.push(part);
                    }
                    self.walk(&c.pattern, env);
                    self.walk(&c.result, env);
                    env.truncate(n);
                }
            }
        }
    }
    fn accepts(mut self, v: &AcornValue) -> bool {
        let mut env: Vec<u8> = (0..self.n as u8).collect();
        self.walk(v, &mut env);
        let mut any = false;
        for g in &self.good {
            any |= *g;
        }
        any
    }
}

fn decide(n: usize, v: &AcornValue) {
    let got = TerminationChecker::new(name("f"), n).check(v);
    let may = Rule::new(n, true).accepts(v);
    let must = Rule::new(n, false).accepts(v);
    sym::check(!got | may, "a definition is accepted although some call may not get smaller");
    sym::check(got | !must, "a structurally recursive definition is refused");
    if got {
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}

fn boxed(v: AcornValue) -> Box<AcornValue> {
    Box::new(v)
}
/// A use of the function, of n arguments, below a stack of s variables.
fn recursion(n: usize, s: usize) -> AcornValue {
    let args = |k: usize| -> Vec<AcornValue> { (0..k).map(|_| any(s)).collect() };
    match sym::choice(7) {
        0 => AcornValue::apply(f(), args(n)),
        1 => f(),
        2 => AcornValue::apply(f(), args(1)),
        3 => AcornValue::apply(AcornValue::apply(f(), args(1)), args(n - 1)),
        4 => AcornValue::apply(AcornValue::type_apply(f(), vec![], vec![], vec![AcornType::Bool]), args(n)),
        5 => {
            let mut a = args(n);
            a[0] = AcornValue::apply(g(), vec![any(s)]);
            AcornValue::apply(f(), a)
        }
        _ => AcornValue::apply(AcornValue::Grouping(boxed(f())), args(n)),
    }
}
/// Wrappers around a value that needs a stack of s variables more than the given; builds the inner value with
/// the stack size it gets.
fn case(vars: usize, result: AcornValue) -> MatchCase {
    MatchCase {
        new_vars: vec![AcornType::Bool; vars],
        pattern: g(),
        result,
        constructor_index: 0,
        constructor_total: 1,
    }
}
fn wrap(s: usize, d: usize, inner: &dyn Fn(usize) -> AcornValue) -> AcornValue {
    if d == 0 {
        return inner(s);
    }
    match sym::choice(9) {
        0 => inner(s),
        1 => AcornValue::apply(g(), vec![wrap(s, d - 1, inner)]),
        2 => {
            let b = wrap(s + 1, d - 1, inner);
            match sym::choice(3) {
                0 => AcornValue::Lambda(vec![AcornType::Bool], boxed(b)),
                1 => AcornValue::ForAll(vec![AcornType::Bool], boxed(b)),
                _ => AcornValue::Exists(vec![AcornType::Bool], boxed(b)),
            }
        }
        3 => match sym::choice(3) {
            0 => AcornValue::Not(boxed(wrap(s, d - 1, inner))),
            1 => AcornValue::Grouping(boxed(wrap(s, d - 1, inner))),
            _ => AcornValue::Try(boxed(wrap(s, d - 1, inner)), AcornType::Bool),
        },
        4 => {
            let (a, b) = (boxed(any(s)), boxed(wrap(s, d - 1, inner)));
            match sym::choice(2) {
                0 => AcornValue::Binary(BinaryOp::And, a, b),
                _ => AcornValue::Binary(BinaryOp::And, b, a),
            }
        }
        5 => {
            let (a, b, c) = (boxed(any(s)), boxed(any(s)), boxed(wrap(s, d - 1, inner)));
            match sym::choice(3) {
                0 => AcornValue::IfThenElse(a, b, c),
                1 => AcornValue::IfThenElse(a, c, b),
                _ => AcornValue::IfThenElse(c, b, a),
            }
        }
        6 => {
            // one case without variables, one with two
            let r = wrap(s + 2, d - 1, inner);
            AcornValue::Match(boxed(any(s)), vec![case(0, any(s)), case(2, r)])
        }
        7 => AcornValue::Match(boxed(wrap(s, d - 1, inner)), vec![case(1, any(s + 1))]),
        _ => {
            let r = wrap(s + 1, d - 1, inner);
            AcornValue::Match(boxed(AcornValue::apply(g(), vec![any(s)])), vec![case(1, r), case(0, any(s))])
        }
    }
}

/// One use of the function below one construct.
#[no_mangle]
#[inline(never)]
pub fn e01_calls() {
    let n = 1 + sym::choice(2);
    let v = wrap(n, 1 + TH, &|s| recursion(2.min(n), s));
    decide(n, &v);
}

/// Calls within the arguments of calls.
#[no_mangle]
#[inline(never)]
pub fn e01_nested() {
    let call = |s: usize| AcornValue::apply(f(), vec![any(s), any(s)]);
    let outer = |s: usize| {
        let i = call(s);
        let args = if sym::choice(2) == 0 { vec![i, any(s)] } else { vec![any(s), i] };
        match sym::choice(3) {
            0 => AcornValue::apply(f(), args),
            1 => AcornValue::apply(g(), args),
            _ => AcornValue::apply(AcornValue::apply(f(), vec![any(s), any(s)]), args),
        }
    };
    let v = AcornValue::Match(boxed(any(2)), vec![case(2, outer(4))]);
    decide(2, &v);
}

/// A call with any variables below two constructs.
#[no_mangle]
#[inline(never)]
pub fn e01_match() {
    let v = wrap(2, 2 + TH, &|s| AcornValue::apply(f(), vec![any(s), any(s)]));
    decide(2, &v);
}

/// Two calls in different branches.
#[no_mangle]
#[inline(never)]
pub fn e01_two() {
    let call = |s: usize| AcornValue::apply(f(), vec![any(s), any(s)]);
    let v = match sym::choice(4) {
        0 => AcornValue::Match(boxed(any(2)), vec![case(1, call(3)), case(2, call(4))]),
        1 => {
            let a = AcornValue::Match(boxed(any(2)), vec![case(1, call(3))]);
            let b = AcornValue::Match(boxed(any(2)), vec![case(1, call(3))]);
            AcornValue::Binary(BinaryOp::And, boxed(a), boxed(b))
        }
        2 => {
            let l = AcornValue::Lambda(vec![AcornType::Bool; 2], boxed(any(4)));
            let a = AcornValue::Match(boxed(any(2)), vec![case(2, call(4))]);
            AcornValue::IfThenElse(boxed(l), boxed(a), boxed(call(2)))
        }
        _ => {
            // a match on a part of a part
            let inner = AcornValue::Match(boxed(any(3)), vec![case(1, call(4)), case(0, call(3))]);
            AcornValue::Match(boxed(any(2)), vec![case(1, inner)])
        }
    };
    decide(2, &v);
}

/// Uses that are no application in the value: arguments of family constants and of types.
#[no_mangle]
#[inline(never)]
pub fn e01_hidden() {
    let call = |s: usize| AcornValue::apply(f(), vec![any(s)]);
    let hide = |s: usize| match sym::choice(9) {
        0 => constant("g", vec![], vec![call(s)]),
        1 => constant("g", vec![family(call(s))], vec![]),
        2 => AcornValue::type_apply(g(), vec![], vec![], vec![family(call(s))]),
        3 => AcornValue::ForAll(vec![family(call(s))], boxed(any(s + 1))),
        4 => AcornValue::Exists(vec![AcornType::Bool, family(call(s + 1))], boxed(any(s + 2))),
        5 => AcornValue::Lambda(
            vec![AcornType::Function(FunctionType {
                arg_types: vec![AcornType::Bool],
                return_type: Box::new(family(call(s + 1))),
            })],
            boxed(any(s + 1)),
        ),
        6 => AcornValue::apply(constant("f", vec![], vec![call(s)]), vec![any(s)]),
        7 => AcornValue::apply(constant("g", vec![], vec![call(s)]), vec![any(s)]),
        _ => AcornValue::apply(
            AcornValue::type_apply(f(), vec![], vec![], vec![AcornType::Data(
                Datatype { module_id: ModuleId(0), name: "L".to_string() },
                vec![family(call(s))],
            )]),
            vec![any(s)],
        ),
    };
    let v = if sym::choice(2) == 0 {
        hide(1)
    } else {
        AcornValue::Match(boxed(any(1)), vec![case(1, hide(2))])
    };
    decide(1, &v);
}

/// Three arguments.
#[no_mangle]
#[inline(never)]
pub fn e01_three() {
    let inner = AcornValue::Match(
        boxed(any(4)),
        vec![case(1, AcornValue::apply(f(), vec![any(5), any(5), any(5)]))],
    );
    let v = AcornValue::Match(boxed(any(3)), vec![case(1, inner)]);
    decide(3, &v);
}
