//! Splitting text into tokens.
use super::sym;
use crate::syntax::token::{Token, TokenType};
use TokenType::*;

pub const HARNESSES: &[(&str, fn())] = &[
    ("s01_ascii", s01_ascii),
    ("s01_lines", s01_lines),
    ("s01_keyword", s01_keyword),
    ("s01_word", s01_word),
    ("s01_comment", s01_comment),
    ("s01_unicode", s01_unicode),
    ("s01_mixed", s01_mixed),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// The words of the language, from its reference.
const WORDS: &[(&[u8], TokenType)] = &[
    (b"let", Let), (b"axiom", Axiom), (b"define", Define), (b"theorem", Theorem), (b"type", Type),
    (b"forall", ForAll), (b"exists", Exists), (b"if", If), (b"by", By), (b"function", Function),
    (b"structure", Structure), (b"import", Import), (b"true", True), (b"false", False), (b"else", Else),
    (b"class", Class), (b"attributes", Attributes), (b"numerals", Numerals), (b"from", From),
    (b"solve", Solve), (b"satisfy", Satisfy), (b"and", And), (b"or", Or), (b"not", Not),
    (b"self", SelfToken), (b"inductive", Inductive), (b"match", Match), (b"choose", Choose),
    (b"constraint", Constraint), (b"implies", Implies), (b"local", Local), (b"lemma", Lemma),
    (b"typeclass", Typeclass), (b"instance", Instance), (b"extends", Extends), (b"iff", Iff),
    (b"lib", Lib), (b"transport", Transport),
];
/// The signs above U+2200, by the last two bytes of their encoding.
const SIGNS: &[(u8, u8, TokenType)] = &[
    (0x88, 0xaa, Union), (0x88, 0xa9, Intersection), (0x88, 0x96, Backslash), (0x88, 0x88, ElemOf),
    (0x88, 0x89, NotElemOf), (0x88, 0x8b, Contains), (0x88, 0x8c, NotContains), (0x8a, 0x86, SubsetEq),
    (0x8a, 0x87, SupersetEq), (0x8a, 0x82, Subset), (0x8a, 0x83, Superset),
];

fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
fn word_byte(b: u8) -> bool {
    digit(b) | ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_')
}
/// A Latin letter with an accent: all of U+00C0 to U+00FF but the two arithmetic signs there.
fn letter(l: &[u8], i: usize) -> bool {
    l[i] == 0xc3 && (l[i + 1] != 0x97) & (l[i + 1] != 0xb7)
}
fn word_type(w: &[u8]) -> TokenType {
    let mut t = Identifier;
    for (k, kt) in WORDS {
        if k.len() == w.len() {
            let mut eq = true;
            for i in 0..k.len() {
                eq &= k[i] == w[i];
            }
            if eq {
                t = *kt;
            }
        }
    }
    t
}
/// What the token starting at byte `i` of the line is and where it ends. `only_space` says whether
/// nothing but white space comes before it.
fn token_at(l: &[u8], i: usize, only_space: bool) -> (TokenType, usize) {
    let n = l.len();
    let at = |k: usize| if k < n { l[k] } else { 0 };
    match l[i] {
        b'(' => (LeftParen, i + 1),
        b')' => (RightParen, i + 1),
        b'{' => (LeftBrace, i + 1),
        b'}' => (RightBrace, i + 1),
        b'[' => (LeftBracket, i + 1),
        b']' => (RightBracket, i + 1),
        b',' => (Comma, i + 1),
        b':' => (Colon, i + 1),
        b'.' => (Dot, i + 1),
        b'=' => (Equals, i + 1),
        b'+' => (Plus, i + 1),
        b'*' => (Asterisk, i + 1),
        b'%' => (Percent, i + 1),
        b'?' => (QuestionMark, i + 1),
        b'!' => if at(i + 1) == b'=' { (NotEquals, i + 2) } else { (Invalid, i + 1) },
        b'-' => if at(i + 1) == b'>' { (RightArrow, i + 2) } else { (Minus, i + 1) },
        b'<' => if at(i + 1) == b'=' { (LessThanOrEquals, i + 2) } else { (LessThan, i + 1) },
        b'>' => if at(i + 1) == b'=' { (GreaterThanOrEquals, i + 2) } else { (GreaterThan, i + 1) },
        b'/' => {
            if at(i + 1) == b'/' {
                if (at(i + 2) == b'/') & only_space {
                    (DocComment, n)
                } else {
                    (NewLine, n)
                }
            } else {
                (Slash, i + 1)
            }
        }
        0xe2 => {
            let mut t = Invalid;
            for (a, b, kt) in SIGNS {
                if (l[i + 1] == *a) & (l[i + 2] == *b) {
                    t = *kt;
                }
            }
            (t, i + 3)
        }
        0xc3 if !letter(l, i) => (Invalid, i + 2),
        b => {
            if digit(b) {
                let mut k = i + 1;
                while k < n && digit(l[k]) {
                    k += 1;
                }
                (Numeral, k)
            } else if word_byte(b) | (b == 0xc3) {
                let mut k = i;
                while k < n && (word_byte(l[k]) || letter(l, k)) {
                    k += if l[k] == 0xc3 { 2 } else { 1 };
                }
                (word_type(&l[i..k]), k)
            } else {
                (Invalid, i + 1)
            }
        }
    }
}

/// Whether the tokens are what the reference says about the text.
fn judge(text: &[u8], first: u32, tokens: &[Token]) -> bool {
    let n = text.len();
    let (mut pos, mut line, mut next, mut ok) = (0, first, 0, true);
    while pos < n {
        let mut end = pos;
        while end < n && text[end] != b'\n' {
            end += 1;
        }
        let after = if end < n { end + 1 } else { n };
        let stop = if end < n && end > pos && text[end - 1] == b'\r' { end - 1 } else { end };
        let l = &text[pos..stop];
        let mut i = 0;
        let mut only_space = true;
        while i < l.len() {
            if (l[i] == b' ') | (l[i] == b'\t') {
                i += 1;
                continue;
            }
            let (t, e) = token_at(l, i, only_space);
            only_space = false;
            let Some(tok) = tokens.get(next) else { return false };
            next += 1;
            ok &= (tok.token_type == t)
                & (tok.line_number == line)
                & (tok.start == i as u32)
                & (tok.len == (e - i) as u32)
                & same(tok.line.as_bytes(), l);
            i = e;
        }
        let Some(tok) = tokens.get(next) else { return false };
        next += 1;
        ok &= (tok.token_type == NewLine)
            & (tok.line_number == line)
            & (tok.start == l.len() as u32)
            & (tok.len == 0);
        pos = after;
        line += 1;
    }
    ok & (next == tokens.len())
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i];
    }
    eq
}
fn go(text: Vec<u8>) {
    let s = unsafe { std::str::from_utf8_unchecked(&text) };
    let first = sym::u32();
    sym::assume(first < 1 << 30);
    let tokens = Token::scan_with_start_line(s, first);
    sym::check(judge(&text, first, &tokens), "the tokens are not those of the text");
    let mut ok = true;
    for t in &tokens {
        let w = t.text().as_bytes();
        let (l, a, b) = (t.line.as_bytes(), t.start as usize, (t.start + t.len) as usize);
        ok &= same(w, &l[a..b]);
        let r = t.range();
        ok &= (r.start.line == t.line_number)
            & (r.end.line == t.line_number)
            & (r.start.character == units(&l[..a]))
            & (r.end.character == units(&l[..b]));
    }
    sym::check(ok, "a token's text or range is not where it came from");
}
/// UTF-16 code units of a text.
fn units(l: &[u8]) -> u32 {
    let mut n = 0;
    for b in l {
        n += ((*b & 0xc0) != 0x80) as u32 + (*b >= 0xf0) as u32;
    }
    n
}
fn ascii() -> u8 {
    let b = sym::u8();
    sym::assume(b < 128);
    b
}
fn one_of(set: &[u8]) -> u8 {
    let b = sym::u8();
    let mut ok = false;
    for s in set {
        ok |= b == *s;
    }
    sym::assume(ok);
    b
}

/// Any text of ASCII characters.
#[no_mangle]
#[inline(never)]
pub fn s01_ascii() {
    let n = sym::choice(3 + TH);
    go((0..n + 1).map(|_| ascii()).collect());
    sym::reach(0);
}
/// Line endings, comments and spaces.
#[no_mangle]
#[inline(never)]
pub fn s01_lines() {
    go((0..4 + TH).map(|_| one_of(b"\n\r/ a\t")).collect());
    sym::reach(0);
}
/// Every word of the language with one character added, changed or removed.
#[no_mangle]
#[inline(never)]
pub fn s01_keyword() {
    let (w, _) = WORDS[sym::choice(WORDS.len())];
    let mut t = w.to_vec();
    match sym::choice(4) {
        0 => {
            let n = t.len();
            t[n - 1] = ascii();
        }
        1 => t[0] = ascii(),
        2 => t.push(ascii()),
        _ => {
            t.pop();
            t.push(b' ');
        }
    }
    go(t);
    sym::reach(0);
}
/// Words, numerals and the characters between them.
#[no_mangle]
#[inline(never)]
pub fn s01_word() {
    let mut t = vec![];
    for _ in 0..4 + TH {
        if sym::choice(2) == 0 {
            t.push(one_of(b"aZ09_."));
        } else {
            let b = sym::u8();
            sym::assume((b >= 0x80) & (b < 0xc0));
            t.extend([0xc3, b]);
        }
    }
    go(t);
    sym::reach(0);
}
/// Comments after anything.
#[no_mangle]
#[inline(never)]
pub fn s01_comment() {
    let mut t: Vec<u8> = (0..sym::choice(3)).map(|_| ascii()).collect();
    t.extend(b"//");
    if sym::choice(2) == 0 {
        for _ in 0..sym::choice(3 + TH) {
            t.push(ascii());
        }
    } else {
        for _ in 0..4 + TH {
            t.push(one_of(b"/ a"));
        }
    }
    go(t);
    sym::reach(0);
}
fn sign(t: &mut Vec<u8>) {
    let a = sym::u8();
    sym::assume((a == 0x88) | (a == 0x89) | (a == 0x8a) | (a == 0x8b));
    let b = sym::u8();
    sym::assume((b >= 0x80) & (b < 0xc0));
    t.extend([0xe2, a, b]);
}
/// Mathematical signs (U+2200 to U+22FF) next to anything, and the columns reported for them.
#[no_mangle]
#[inline(never)]
pub fn s01_unicode() {
    let mut t = vec![];
    if sym::choice(2) == 1 {
        t.push(ascii());
    }
    sign(&mut t);
    t.push(ascii());
    go(t);
    sym::reach(0);
}
/// Columns count UTF-16 code units, whatever comes before.
#[no_mangle]
#[inline(never)]
pub fn s01_mixed() {
    let mut t = vec![];
    let mut col = 0;
    for _ in 0..2 {
        match sym::choice(4) {
            0 => {
                t.push(one_of(b"+( \t"));
                col += 1;
            }
            1 => {
                sign(&mut t);
                col += 1;
            }
            2 => {
                t.extend("𝟘".as_bytes());
                t.extend(b" ");
                col += 3;
            }
            _ => {
                t.extend("é ".as_bytes());
                col += 2;
            }
        }
    }
    let start = t.len() as u32;
    t.push(b'x');
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let tokens = Token::scan(s);
    let k = tokens.len();
    let mut ok = true;
    for t in &tokens {
        let (l, a, b) = (t.line.as_bytes(), t.start as usize, (t.start + t.len) as usize);
        let r = t.range();
        ok &= (r.start.character == units(&l[..a])) & (r.end.character == units(&l[..b]));
    }
    sym::check(ok, "a token's range is not where it came from");
    sym::check(k >= 2, "the last word is lost");
    let x = &tokens[k - 2];
    sym::check((x.token_type == Identifier) & (x.start == start) & (x.len == 1), "the last word is misplaced");
    let r = x.range();
    sym::check(
        (r.start.character == col) & (r.end.character == col + 1) & (r.start.line == 0) & (r.end.line == 0),
        "a token's column is not its UTF-16 column",
    );
    sym::reach(0);
}
