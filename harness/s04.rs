//! Looking up a source position.
use super::sym;
use crate::elaborator::acorn_value::AcornValue;
use crate::elaborator::named_entity::NamedEntity;
use crate::syntax::token::{Token, TokenType};
use crate::syntax::token_map::{TokenInfo, TokenMap};
use std::sync::Arc;

pub const HARNESSES: &[(&str, fn())] = &[("s04_lookup", s04_lookup), ("s04_four", s04_four), ("s04_iter", s04_iter)];
const TH: usize = cfg!(vh_thorough) as usize;

/// Line, start, length.
type R = (u32, u32, u32);
fn range(bits: u32) -> R {
    let m = (1u32 << bits) - 1;
    let r = (sym::u32() & m, sym::u32() & m, sym::u32() & m);
    sym::assume(r.2 >= 1);
    r
}
fn disjoint(a: &R, b: &R) -> bool {
    (a.0 != b.0) | (a.1 + a.2 <= b.1) | (b.1 + b.2 <= a.1)
}
fn inside(r: &R, line: u32, p: u32) -> bool {
    (r.0 == line) & (r.1 <= p) & (p < r.1 + r.2)
}
fn build(rs: &[R], line: &Arc<String>) -> TokenMap {
    let mut m = TokenMap::new();
    for (i, r) in rs.iter().enumerate() {
        let t = Token { token_type: TokenType::Identifier, line: line.clone(), line_number: r.0, start: r.1, len: r.2 };
        let mut text = String::new();
        text.push((b'a' + i as u8) as char);
        m.insert(&t, TokenInfo { text, entity: NamedEntity::Value(AcornValue::Bool(i % 2 == 0)) });
    }
    m
}
fn go(n: usize, bits: u32) {
    let rs: Vec<R> = (0..n).map(|_| range(bits)).collect();
    for i in 0..n {
        for j in 0..i {
            sym::assume(disjoint(&rs[i], &rs[j]));
        }
    }
    let m = build(&rs, &Arc::new(String::new()));
    let mask = (1u32 << (bits + 1)) - 1;
    let (l, p) = (sym::u32() & mask, sym::u32() & mask);
    match m.get(l, p) {
        None => {
            for r in &rs {
                sym::check(!inside(r, l, p), "a position inside a recorded range finds nothing");
            }
            sym::reach(0);
        }
        Some((k, info)) => {
            let mut ok = false;
            for (i, r) in rs.iter().enumerate() {
                let entry = (info.text.as_bytes()[0] == b'a' + i as u8) & (info.text.len() == 1);
                ok |= inside(r, l, p)
                    & entry
                    & (k.line_number == r.0)
                    & (k.start == r.1)
                    & (k.len == r.2);
            }
            sym::check(ok, "a lookup returns another entry than the one recorded there");
            let e = k.range();
            sym::check(
                e.start.line == k.line_number
                    && e.end.line == k.line_number
                    && e.start.character == k.start
                    && e.end.character == k.start + k.len,
                "an entry reports another range",
            );
            sym::reach(1);
        }
    }
}

/// Three recorded ranges, any order, any position.
#[no_mangle]
#[inline(never)]
pub fn s04_lookup() {
    go(3, 30);
}
/// Four ranges.
#[no_mangle]
#[inline(never)]
pub fn s04_four() {
    go(4 + TH, 3);
}
/// Every recorded entry is listed, in source order.
#[no_mangle]
#[inline(never)]
pub fn s04_iter() {
    let rs: Vec<R> = (0..3).map(|_| range(20)).collect();
    for i in 0..3 {
        for j in 0..i {
            sym::assume(disjoint(&rs[i], &rs[j]));
        }
    }
    let m = build(&rs, &Arc::new(String::new()));
    let keys: Vec<R> = m.iter().map(|(k, _)| (k.line_number, k.start, k.len)).collect();
    sym::check(keys.len() == 3, "an entry is lost");
    for i in 0..2 {
        sym::check(keys[i] < keys[i + 1], "entries are not listed in source order");
    }
    sym::reach(0);
}
