//! Parsing of value expressions: the tree against a rule for every node, and printing.
use super::sym;
use crate::syntax::expression::{Declaration, Expression, Terminator};
use crate::syntax::token::{Token, TokenIter, TokenType};
use std::sync::Arc;
use TokenType::*;

pub const HARNESSES: &[(&str, fn())] = &[
    ("s02_binary", s02_binary),
    ("s02_mixed", s02_mixed),
    ("s02_paren", s02_paren),
    ("s02_any", s02_any),
    ("s02_print", s02_print),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// The infix operators of values, each with how tightly it binds (from the language reference).
const INFIX: &[(TokenType, u8)] = &[
    (Dot, 14), (Asterisk, 12), (Slash, 12), (Intersection, 12), (Plus, 11), (Minus, 11), (Union, 11),
    (Backslash, 11), (Percent, 10), (GreaterThan, 9), (ElemOf, 9), (NotElemOf, 9), (Contains, 9),
    (NotContains, 9), (SubsetEq, 9), (SupersetEq, 9), (Subset, 9), (Superset, 9), (LessThan, 8),
    (GreaterThanOrEquals, 8), (LessThanOrEquals, 8), (Equals, 7), (NotEquals, 7), (Or, 5), (And, 5),
    (Iff, 4), (Implies, 3), (Comma, 1), (RightArrow, 3), (Colon, 2),
];
const APPLY: u8 = 14;
const NONE: u8 = 255;
const ALL: usize = QuestionMark as usize + 1;

fn kind(k: u8) -> TokenType {
    unsafe { std::mem::transmute(k) }
}
/// How tightly each kind binds as an infix operator, by kind.
fn infix_table() -> [u8; ALL] {
    let mut t = [0; ALL];
    for (k, r) in INFIX {
        t[*k as usize] = *r;
    }
    t
}
fn infix(k: TokenType) -> u8 {
    infix_table()[k as usize]
}
fn prefix(k: TokenType) -> u8 {
    if k == Minus { 13 } else { 6 }
}

/// What the part of a tree outside groupings shows: how tightly the prefix operator it starts with
/// binds, the postfix operator it ends with, and the loosest infix operator or application in it.
#[derive(Clone, Copy)]
struct Shape {
    first: u8,
    last: u8,
    loosest: u8,
}
const ATOM: Shape = Shape { first: NONE, last: NONE, loosest: NONE };

fn is_group(e: &Expression) -> bool {
    matches!(e, Expression::Grouping(..))
}
/// `left` and `right` joined by something that binds to the degree `r`, left to right.
fn joined(left: Shape, r: u8, right: Shape) -> Shape {
    sym::check((left.loosest >= r) & (right.loosest > r), "a looser operator is an operand of a tighter one");
    sym::check((left.first >= r) & (right.last >= r), "a prefix or postfix operator is an operand of a tighter one");
    let a = if left.loosest < right.loosest { left.loosest } else { right.loosest };
    Shape { first: left.first, last: right.last, loosest: if a < r { a } else { r } }
}
/// Checks the tree and writes the places of its tokens, in order.
fn shape(e: &Expression, out: &mut Vec<Token>) -> Shape {
    match e {
        Expression::Singleton(t) => {
            out.push(t.clone());
            ATOM
        }
        Expression::Grouping(l, x, r) => {
            out.push(l.clone());
            shape(x, out);
            out.push(r.clone());
            ATOM
        }
        Expression::Binary(l, t, r) => {
            let a = shape(l, out);
            out.push(t.clone());
            let b = shape(r, out);
            let k = infix(t.token_type);
            sym::check(k > 0, "an infix node of something that is no infix operator");
            joined(a, k, b)
        }
        Expression::Concatenation(l, r) => {
            let a = shape(l, out);
            sym::check(is_group(r), "an application to something not in brackets");
            let b = shape(r, out);
            joined(a, APPLY, b)
        }
        Expression::Unary(t, x) => {
            if t.token_type == QuestionMark {
                let s = shape(x, out);
                out.push(t.clone());
                sym::check((s.loosest > 13) & (s.first >= 13), "the operand of a postfix operator binds more loosely");
                Shape { last: 13, ..s }
            } else {
                out.push(t.clone());
                let s = shape(x, out);
                let k = t.token_type;
                sym::check((k == Minus) | (k == Not) | (k == Transport), "a prefix node of no prefix operator");
                let p = prefix(k);
                sym::check((s.loosest > p) & (s.last > p || s.last == NONE), "the operand of a prefix operator binds more loosely");
                Shape { first: p, ..s }
            }
        }
        // Whatever else takes a token was built from a keyword.
        _ => {
            sym::check(false, "a node no token of the text asked for");
            ATOM
        }
    }
}
/// The tree must be the one the tokens before the last describe.
fn verify(tokens: &[Token], e: &Expression) {
    let mut end = 0;
    while tokens[end].token_type != NewLine {
        end += 1;
    }
    let tokens = &tokens[..end + 1];
    let mut seen = vec![];
    shape(e, &mut seen);
    sym::check(seen.len() == tokens.len() - 1, "a token was lost or doubled");
    if seen.len() != tokens.len() - 1 {
        return;
    }
    for (s, t) in seen.iter().zip(tokens) {
        sym::check((s.token_type == t.token_type) & (s.start == t.start), "the tokens of the tree are in another order");
    }
}
/// Tokens of these kinds, one character each, and the end of the line.
fn tokens(kinds: &[TokenType]) -> Vec<Token> {
    let line = Arc::new("x".repeat(kinds.len() + 1));
    let mut v = vec![];
    for (i, k) in kinds.iter().enumerate() {
        v.push(Token { token_type: *k, line: line.clone(), line_number: 0, start: i as u32, len: 1 });
    }
    v.push(Token { token_type: NewLine, line, line_number: 0, start: kinds.len() as u32, len: 1 });
    v
}
fn parse(v: &[Token]) -> Option<Expression> {
    let mut it = TokenIter::new(v.to_vec());
    match Expression::parse_value(&mut it, Terminator::Is(NewLine)) {
        Ok((e, end)) => {
            sym::check(end.token_type == NewLine, "an expression that ends somewhere else");
            Some(e)
        }
        Err(_) => None,
    }
}
fn operator() -> TokenType {
    let i = sym::below(INFIX.len() as u8 - 2) as usize;
    INFIX[i].0
}
/// Text like this must be accepted: a row of operands, with infix operators between them.
fn must_parse(ops: &[TokenType]) -> bool {
    let mut implies = false;
    let mut less = false;
    let mut ok = true;
    for k in ops {
        // Two implications side by side need brackets, and `<` ... `>` may be type arguments.
        ok &= !((*k == Implies) & implies) & !((*k == GreaterThan) & less);
        implies = (implies & (*k != Comma)) | (*k == Implies);
        less |= *k == LessThan;
    }
    ok
}

/// Operands with any infix operators between them.
#[no_mangle]
#[inline(never)]
pub fn s02_binary() {
    let n = 3;
    let mut kinds = vec![Identifier];
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(operator());
        kinds.push(ops[ops.len() - 1]);
        kinds.push(Identifier);
    }
    let v = tokens(&kinds);
    match parse(&v) {
        Some(e) => {
            sym::reach(0);
            verify(&v, &e);
            let mut implies = 0;
            for k in &ops {
                if *k == Comma {
                    implies = 0;
                }
                implies += (*k == Implies) as u8;
                sym::check(implies < 2, "two implications side by side were accepted");
            }
        }
        None => sym::check(!must_parse(&ops), "a well-formed expression was refused"),
    }
}

fn prefixes(kinds: &mut Vec<TokenType>, n: u8) {
    for _ in 0..sym::choice(n as usize + 1) {
        let u = sym::below(3);
        kinds.push(if u == 0 { Minus } else if u == 1 { Not } else { Transport });
    }
}
/// Two operands with prefix and postfix operators.
#[no_mangle]
#[inline(never)]
pub fn s02_mixed() {
    let mut kinds = vec![];
    let mut ops = vec![];
    let n = 2;
    for i in 0..n {
        prefixes(&mut kinds, if i == 0 { 1 } else { 1 });
        kinds.push(Identifier);
        let tail = sym::choice(3);
        if tail == 1 {
            kinds.push(QuestionMark);
        } else if tail == 2 {
            kinds.extend([LeftParen, Identifier, RightParen]);
        }
        if i + 1 < n {
            ops.push(operator());
            kinds.push(ops[ops.len() - 1]);
        }
    }
    let v = tokens(&kinds);
    match parse(&v) {
        Some(e) => {
            sym::reach(0);
            verify(&v, &e);
        }
        None => sym::check(!must_parse(&ops), "a well-formed expression was refused"),
    }
}

/// Three operands, some of them in brackets.
#[no_mangle]
#[inline(never)]
pub fn s02_paren() {
    let (a, b, c) = (operator(), operator(), operator());
    let mut ops = vec![];
    let inner;
    let kinds: Vec<TokenType> = match sym::choice(3) {
        0 => {
            ops.extend([b, c]);
            inner = [a];
            vec![LeftParen, Identifier, a, Identifier, RightParen, b, Identifier, c, Identifier]
        }
        1 => {
            ops.extend([a, c]);
            inner = [b];
            vec![Identifier, a, LeftParen, Identifier, b, Identifier, RightParen, c, Identifier]
        }
        _ => {
            ops.extend([a, b]);
            inner = [c];
            vec![Identifier, a, Identifier, b, Minus, LeftParen, Identifier, c, Identifier, RightParen]
        }
    };
    let v = tokens(&kinds);
    match parse(&v) {
        Some(e) => {
            sym::reach(0);
            verify(&v, &e);
        }
        None => sym::check(!(must_parse(&ops) & must_parse(&inner)), "a well-formed expression was refused"),
    }
}

/// Any tokens at all.
#[no_mangle]
#[inline(never)]
pub fn s02_any() {
    let n = 3 + TH;
    let mut kinds = vec![];
    for _ in 0..n {
        kinds.push(kind(sym::below(ALL as u8)));
    }
    let v = tokens(&kinds);
    if let Some(e) = parse(&v) {
        sym::reach(0);
        verify(&v, &e);
    }
}

fn same_decl(a: &Declaration, b: &Declaration) -> bool {
    match (a, b) {
        (Declaration::Typed(x, s), Declaration::Typed(y, t)) => x.text() == y.text() && same(s, t),
        (Declaration::SelfToken(_), Declaration::SelfToken(_)) => true,
        _ => false,
    }
}
fn same(a: &Expression, b: &Expression) -> bool {
    use Expression::*;
    let tok = |s: &Token, t: &Token| s.token_type == t.token_type && s.text() == t.text();
    match (a, b) {
        (Singleton(s), Singleton(t)) => tok(s, t),
        (Unary(s, x), Unary(t, y)) => tok(s, t) && same(x, y),
        (Binary(x, s, u), Binary(y, t, v)) => tok(s, t) && same(x, y) && same(u, v),
        (Concatenation(x, u), Concatenation(y, v)) => same(x, y) && same(u, v),
        (Grouping(s, x, _), Grouping(t, y, _)) => tok(s, t) && same(x, y),
        (Binder(s, d, x, _), Binder(t, e, y, _)) => {
            tok(s, t) && d.len() == e.len() && d.iter().zip(e).all(|(p, q)| same_decl(p, q)) && same(x, y)
        }
        (IfThenElse(_, c, x, u, _), IfThenElse(_, d, y, v, _)) => {
            same(c, d)
                && same(x, y)
                && match (u, v) {
                    (Some(u), Some(v)) => same(u, v),
                    (None, None) => true,
                    _ => false,
                }
        }
        (Match(_, x, c, _), Match(_, y, d, _)) => {
            same(x, y) && c.len() == d.len() && c.iter().zip(d).all(|((p, u), (q, v))| same(p, q) && same(u, v))
        }
        (Block(c, x, _), Block(d, y, _)) => c.len() == d.len() && same(x, y),
        _ => false,
    }
}
/// A name or number of one character.
fn word(s: &mut Vec<u8>) {
    let c = sym::u8();
    sym::assume(((c >= b'a') & (c <= b'z')) | ((c >= b'0') & (c <= b'9')));
    s.push(c);
}
const SIGNS: &[&str] = &[".", ",", "+", "-", "/", "<", ">", "and", "=", "implies", "∪"];
const PIECES: &[&str] = &[
    "_", "-_", "- -_", "not _", "_?", "f(_)", "(_)", "(-a)", "(+)", "_[b]", "f<b>(_)", "if a { _ } else { c }",
    "forall(x: A, y: B -> (C, D[e])) { _ }", "match a { b { _ } c { d } }", "if a { _ }", "a.match", "transport _",
];
fn piece(s: &mut Vec<u8>, n: u8) {
    for c in PIECES[sym::choice(n as usize)].bytes() {
        if c == b'_' {
            word(s);
        } else {
            s.push(c);
        }
    }
}
/// Printing an expression and reading it back.
#[no_mangle]
#[inline(never)]
pub fn s02_print() {
    sym::real_format();
    let mut s = vec![];
    piece(&mut s, PIECES.len() as u8);
    s.push(b' ');
    s.extend(SIGNS[sym::choice(SIGNS.len())].bytes());
    s.push(b' ');
    piece(&mut s, if TH == 1 { PIECES.len() as u8 } else { 6 });
    s.push(b'\n');
    let text = unsafe { String::from_utf8_unchecked(s) };
    let Some(e) = parse(&Token::scan(&text)) else { return };
    sym::reach(0);
    let mut flat = format!("{}", e);
    flat.push('\n');
    match parse(&Token::scan(&flat)) {
        Some(f) => sym::check(same(&e, &f), "the printed expression reads back as another one"),
        None => sym::check(false, "the printed expression does not parse"),
    }
}
