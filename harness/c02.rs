//! Certificate files and worklists.
use super::sym;
use crate::certificate::{Certificate, CertificateStore, CertificateWorklist};
use crate::certificate_trace::{ProofTrace, TraceRule, TraceStep};
use crate::kernel::clause::BooleanReductionKind as B;
use std::path::Path;
#[path = "vfs.rs"]
mod vfs;

pub const HARNESSES: &[(&str, fn())] = &[
    ("c02_text", c02_text),
    ("c02_steps", c02_steps),
    ("c02_kinds", c02_kinds),
    ("c02_file", c02_file),
    ("c02_worklist", c02_worklist),
    ("c02_append", c02_append),
];
const TH: usize = cfg!(vh_thorough) as usize;
const RULES: [TraceRule; 12] = [
    TraceRule::Fact, TraceRule::Claim, TraceRule::Br, TraceRule::BrIntro, TraceRule::Eq, TraceRule::Er,
    TraceRule::Ef, TraceRule::Ext, TraceRule::Inj, TraceRule::Inst, TraceRule::Wit, TraceRule::Contra,
];
const KINDS: [B; 25] = [
    B::FalseLiteralElimination,
    B::IteSimplifyLeft,
    B::IteSimplifyRight,
    B::IteSplitLeftThenBranch,
    B::IteSplitLeftElseBranch,
    B::IteSplitRightThenBranch,
    B::IteSplitRightElseBranch,
    B::FunctionInequalityToExists,
    B::SignedNot,
    B::BooleanEqToEquality,
    B::PositiveForallOpen,
    B::PositiveExistsObviousWitness,
    B::PositiveExistsOpen,
    B::NegatedForallToExists,
    B::NegatedExistsOpen,
    B::PositiveAndLeft,
    B::PositiveAndRight,
    B::NegativeAnd,
    B::PositiveOr,
    B::NegativeOrLeft,
    B::NegativeOrRight,
    B::BooleanEqualityLeftOrNotRight,
    B::BooleanEqualityNotLeftOrRight,
    B::BooleanInequalityNotLeftOrNotRight,
    B::BooleanInequalityLeftOrRight,
];

fn start() {
    sym::real_format();
    vfs::mkdir_p("/v");
}
/// One character of any kind: any ASCII character (quotes, control characters, line ends), one
/// above it, a mathematical sign, one outside the basic plane.
fn character(t: &mut Vec<u8>) {
    match sym::choice(3) {
        0 => {
            let b = sym::u8();
            sym::assume(b < 128);
            t.push(b);
        }
        1 => {
            let b = sym::u8();
            sym::assume((b >= 0x80) & (b < 0xc0));
            t.extend([0xe2, 0x80, b]);
        }
        _ => t.extend("𝟘".as_bytes()),
    }
}
fn text(n: usize) -> String {
    let mut t = vec![];
    for _ in 0..n {
        character(&mut t);
    }
    unsafe { String::from_utf8_unchecked(t) }
}
fn step(claim: String) -> TraceStep {
    TraceStep { rule: TraceRule::Claim, claim, premises: vec![], generic: false, br_kind: None, br_literal_index: None }
}
fn cert(goal: String, steps: Vec<TraceStep>) -> Certificate {
    Certificate { goal, proof: ProofTrace { steps } }
}
fn bytes_eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i];
    }
    eq
}
fn same(a: &CertificateStore, b: &CertificateStore) -> bool {
    if a.certs.len() != b.certs.len() {
        return false;
    }
    let mut eq = true;
    for (x, y) in a.certs.iter().zip(&b.certs) {
        if x.proof.steps.len() != y.proof.steps.len() {
            return false;
        }
        eq &= bytes_eq(&x.goal, &y.goal);
        for (s, t) in x.proof.steps.iter().zip(&y.proof.steps) {
            if s.premises.len() != t.premises.len() {
                return false;
            }
            eq &= (s.rule == t.rule) & bytes_eq(&s.claim, &t.claim) & (s.generic == t.generic) & (s.br_kind == t.br_kind);
            eq &= match (s.br_literal_index, t.br_literal_index) {
                (None, None) => true,
                (Some(i), Some(j)) => i == j,
                _ => false,
            };
            for (p, q) in s.premises.iter().zip(&t.premises) {
                eq &= p == q;
            }
        }
    }
    eq
}
fn round_trip(s: CertificateStore) {
    let p = Path::new("/v/x.jsonl");
    sym::check(s.save(p).is_ok(), "saving fails");
    let Ok(back) = CertificateStore::load(p) else {
        sym::check(false, "a saved file cannot be loaded");
        return;
    };
    sym::check(same(&s, &back), "the loaded certificates are not the saved ones");
    sym::reach(0);
}

/// Any text in goals and claims.
#[no_mangle]
#[inline(never)]
pub fn c02_text() {
    start();
    let (goal, claim) = (text(sym::choice(2 + TH)), text(sym::choice(3)));
    round_trip(CertificateStore { certs: vec![cert(goal, vec![step(claim)])] });
}
/// Any fields of a step.
#[no_mangle]
#[inline(never)]
pub fn c02_steps() {
    start();
    let mut s = step("c".to_string());
    s.rule = RULES[sym::choice(12)];
    s.generic = sym::choice(2) == 1;
    match sym::choice(4) {
        0 => {}
        1 => s.premises.push(number()),
        2 => s.premises = vec![number(), number()],
        _ => s.br_literal_index = Some(number()),
    }
    let mut steps = vec![s];
    if sym::choice(2) == 1 {
        steps.insert(0, step("d".to_string()));
    }
    round_trip(CertificateStore { certs: vec![cert("g".to_string(), steps)] });
}
fn number() -> usize {
    let n = sym::u8();
    sym::assume(n < 10);
    n as usize
}
/// Every kind of boolean reduction.
#[no_mangle]
#[inline(never)]
pub fn c02_kinds() {
    start();
    let mut s = step("c".to_string());
    s.rule = TraceRule::Br;
    s.br_kind = Some(KINDS[sym::choice(KINDS.len())]);
    let i = sym::u32();
    sym::assume(i < 1 << (8 + 4 * TH));
    s.br_literal_index = Some(i as usize);
    round_trip(CertificateStore { certs: vec![cert("g".to_string(), vec![s])] });
}
/// Several certificates, some without steps, some with the same goal.
#[no_mangle]
#[inline(never)]
pub fn c02_file() {
    start();
    let n = sym::choice(4 + TH);
    let mut certs = vec![];
    for _ in 0..n {
        let mut goal = vec![];
        goal.push(b' ' + sym::below(95));
        let claims = (0..sym::choice(2)).map(|_| step(text(1))).collect();
        certs.push(cert(String::from_utf8(goal).unwrap(), claims));
    }
    round_trip(CertificateStore { certs });
}

fn named(goal: u8) -> Certificate {
    cert(unsafe { String::from_utf8_unchecked(vec![goal]) }, vec![])
}
fn goals(n: usize) -> Vec<u8> {
    (0..n).map(|_| b' ' + sym::below(95)).collect()
}
fn worklist(goals: &[u8]) -> CertificateWorklist {
    CertificateWorklist::new(CertificateStore { certs: goals.iter().map(|g| named(*g)).collect() })
}
fn judge(w: &CertificateWorklist, goals: &[u8], taken: &[bool]) {
    let q = b' ' + sym::below(95);
    let name = unsafe { String::from_utf8_unchecked(vec![q]) };
    let got = w.get_indexes(&name);
    let mut want = vec![];
    for i in 0..goals.len() {
        if goals[i] == q && !taken[i] {
            want.push(i);
        }
    }
    sym::check(*got == want, "asking for a goal's certificates gives other ones");
    for i in got {
        sym::check(w.get_cert(*i).is_some_and(|c| bytes_eq(&c.goal, &name)), "a certificate of another goal is returned");
    }
    sym::check(w.unused() == taken.iter().filter(|t| !**t).count(), "the number of unused certificates is wrong");
}
/// Certificates taken one by one.
#[no_mangle]
#[inline(never)]
pub fn c02_worklist() {
    let g = goals(3 + TH);
    let mut w = worklist(&g);
    let mut taken = vec![false; g.len()];
    judge(&w, &g, &taken);
    for _ in 0..2 {
        let i = sym::choice(g.len());
        // the right goal for the index, or any other goal
        let goal = if sym::choice(2) == 0 { g[i] } else { b' ' + sym::below(95) };
        w.remove(unsafe { std::str::from_utf8_unchecked(&[goal]) }, i);
        if goal == g[i] {
            taken[i] = true;
        }
        judge(&w, &g, &taken);
    }
    sym::reach(0);
}
/// What was not taken is appended, each certificate once.
#[no_mangle]
#[inline(never)]
pub fn c02_append() {
    let g = goals(3 + TH);
    let mut w = worklist(&g);
    let mut taken = vec![false; g.len()];
    for i in 0..g.len() {
        if sym::choice(2) == 1 {
            w.remove(unsafe { std::str::from_utf8_unchecked(&[g[i]]) }, i);
            taken[i] = true;
        }
    }
    let mut s = CertificateStore { certs: vec![named(b'!')] };
    s.append(&w);
    let left = taken.iter().filter(|t| !**t).count();
    sym::check(s.certs.len() == 1 + left, "certificates are lost or invented");
    sym::check(s.certs[0].goal == "!", "an earlier certificate is lost");
    // the appended goals are the unused ones, as a multiset
    let q = b' ' + sym::below(95);
    let (mut have, mut want) = (0u8, 0u8);
    for c in &s.certs[1..] {
        have += (c.goal.as_bytes()[0] == q) as u8;
    }
    for i in 0..g.len() {
        want += (!taken[i] & (g[i] == q)) as u8;
    }
    sym::check(have == want, "a certificate is appended twice or not at all");
    sym::reach(0);
}
