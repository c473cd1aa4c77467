//! The server's copy of a document under edits.
use super::sym;
use crate::live_document::LiveDocument;
use tower_lsp::lsp_types::{Position, Range};

pub const HARNESSES: &[(&str, fn())] =
    &[("s03_edit", s03_edit), ("s03_two", s03_two), ("s03_saved", s03_saved), ("s03_whole", s03_whole), ("s03_prefix", s03_prefix)];
const TH: usize = cfg!(vh_thorough) as usize;

/// One piece of a text: a character of 1, 2 or 4 bytes (any of a range), or a line ending.
#[derive(Clone, Copy)]
struct Piece {
    bytes: [u8; 4],
    len: usize,
}
const LF: Piece = Piece { bytes: [b'\n', 0, 0, 0], len: 1 };
const CRLF: Piece = Piece { bytes: [b'\r', b'\n', 0, 0], len: 2 };
fn letter() -> Piece {
    let b = sym::u8();
    sym::assume((b >= 0x20) & (b < 0x7f));
    Piece { bytes: [b, 0, 0, 0], len: 1 }
}
fn wide() -> Piece {
    Piece { bytes: [0xf0, 0x9d, 0x94, 0x80 | (sym::u8() & 0x3f)], len: 4 }
}
fn piece(kinds: usize) -> Piece {
    match sym::choice(kinds) {
        0 => letter(),
        1 => LF,
        2 => wide(),
        3 => CRLF,
        _ => Piece { bytes: [0xc3, 0x80 | (sym::u8() & 0x3f), 0, 0], len: 2 },
    }
}
fn text(n: usize, kinds: usize) -> Vec<Piece> {
    let n = sym::choice(n + 1);
    (0..n).map(|_| piece(kinds)).collect()
}
fn string(ps: &[Piece]) -> String {
    let mut v = vec![];
    for p in ps {
        v.extend_from_slice(&p.bytes[..p.len]);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn ending(p: &Piece) -> bool {
    (p.len == 1 && p.bytes[0] == b'\n') || (p.len == 2 && p.bytes[0] == b'\r')
}
fn units(p: &Piece) -> u32 {
    if p.len == 4 { 2 } else { 1 }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

/// The client's view: pieces, and per line where it was at the last save.
struct Client {
    pieces: Vec<Piece>,
    saved: Vec<Option<usize>>,
}
impl Client {
    fn new(pieces: Vec<Piece>) -> Client {
        let mut c = Client { pieces, saved: vec![] };
        c.save();
        c
    }
    fn save(&mut self) {
        self.saved = (0..self.lines().len()).map(Some).collect();
    }
    fn lines(&self) -> Vec<String> {
        self.pieces.split(|p| ending(p)).map(string).collect()
    }
    fn text(&self) -> String {
        string(&self.pieces)
    }
    /// The position in front of each piece, and at the end.
    fn positions(&self) -> Vec<Position> {
        let mut at = Position { line: 0, character: 0 };
        let mut out = vec![at];
        for p in &self.pieces {
            if ending(p) {
                at = Position { line: at.line + 1, character: 0 };
            } else {
                at.character += units(p);
            }
            out.push(at);
        }
        out
    }
    /// Any position at or after piece `from`, with the piece it is in front of. A position past the end of
    /// its line means the end of the line.
    fn any(&self, from: usize) -> (Position, usize) {
        let p = Position { line: sym::u32(), character: sym::u32() };
        let at = self.positions();
        for i in from..at.len() {
            let last = i == self.pieces.len() || ending(&self.pieces[i]);
            if (p.line == at[i].line) & ((p.character == at[i].character) | (last & (p.character > at[i].character))) {
                return (p, i);
            }
        }
        sym::assume(false);
        (p, 0)
    }
    /// Replace any range; the server is told the same.
    fn edit(&mut self, d: &mut LiveDocument, new: &[Piece], version: i32) {
        let (start, i) = self.any(0);
        let (end, j) = self.any(i);
        sym::assume((start.line != end.line) | (start.character <= end.character));
        let r = d.change(Some(Range { start, end }), &string(new), version);
        sym::check(r.is_ok(), "a valid edit is refused");
        let at = self.positions();
        let count = new.iter().filter(|p| ending(p)).count() + 1;
        let lines = at[i].line as usize..at[j].line as usize + 1;
        self.saved.splice(lines, (0..count).map(|_| None));
        self.pieces.splice(i..j, new.iter().copied());
    }
    fn compare(&self, d: &LiveDocument, saved: &[String]) {
        let lines = self.lines();
        for (k, l) in lines.iter().enumerate() {
            sym::check(
                same(d.get_prefix(k as u32, 1000).as_bytes(), l.as_bytes()),
                "a line of the document differs from the client's",
            );
        }
        sym::check(d.get_prefix(lines.len() as u32, 1000).is_empty(), "the document has too many lines");
        // display shows every line with a mark
        let shown = d.display();
        let shown = shown.as_bytes();
        let mut off = 0;
        for (k, l) in lines.iter().enumerate() {
            let end = off + 2 + l.len();
            sym::check(end <= shown.len(), "the document lacks lines the client's has");
            sym::check(same(&shown[off + 2..end], l.as_bytes()), "the displayed document differs");
            let unchanged = shown[off] == b'.';
            sym::check(
                if k + 1 < lines.len() { end < shown.len() && shown[end] == b'\n' } else { end == shown.len() },
                "the document has lines the client's has not",
            );
            off = end + 1;
            sym::check(unchanged || self.saved[k].is_none(), "a line outside the edit lost its mark");
            if unchanged {
                let s = d.get_env_line(k as u32) as usize;
                sym::check(
                    s < saved.len() && same(saved[s].as_bytes(), l.as_bytes()),
                    "a changed line counts as unchanged",
                );
                if let Some(w) = self.saved[k] {
                    sym::check(s == w, "an unchanged line is taken for another one");
                }
            } else if k > 0 {
                sym::check(
                    d.get_env_line(k as u32) == d.get_env_line(k as u32 - 1),
                    "a changed line does not use the nearest unchanged line before it",
                );
            } else {
                sym::check(d.get_env_line(0) == 0, "the first line is changed but not taken for the start");
            }
        }
    }
}

/// One edit.
#[no_mangle]
#[inline(never)]
pub fn s03_edit() {
    sym::real_format();
    let mut c = Client::new(text(3 + TH, 5));
    let mut d = LiveDocument::new(&c.text(), 1);
    let saved = c.lines();
    c.compare(&d, &saved);
    let new = text(2, 5);
    c.edit(&mut d, &new, 2);
    c.compare(&d, &saved);
    sym::check(d.saved_version() == 1, "an edit counts as a save");
    sym::reach(0);
}

/// Two edits.
#[no_mangle]
#[inline(never)]
pub fn s03_two() {
    sym::real_format();
    let mut c = Client::new(match sym::choice(3) {
        0 => vec![letter(), LF, letter()],
        1 => vec![letter(), CRLF, LF],
        _ => vec![wide(), letter()],
    });
    let mut d = LiveDocument::new(&c.text(), 1);
    let saved = c.lines();
    for k in 0..2 {
        let new = text(1 + TH, 4);
        c.edit(&mut d, &new, 2 + k);
    }
    c.compare(&d, &saved);
    sym::reach(0);
}

/// Edit, save, edit.
#[no_mangle]
#[inline(never)]
pub fn s03_saved() {
    sym::real_format();
    let mut c = Client::new(if sym::choice(2) == 0 { vec![letter(), LF, letter(), LF, letter()] } else { vec![LF, LF] });
    let mut d = LiveDocument::new(&c.text(), 1);
    let new = text(1, 2);
    c.edit(&mut d, &new, 2);
    let v = d.save(&c.text());
    sym::check(v == 2 && d.saved_version() == 2, "the wrong version is saved");
    c.save();
    let saved = c.lines();
    c.compare(&d, &saved);
    let new = text(1, 2 + TH);
    c.edit(&mut d, &new, 3);
    c.compare(&d, &saved);
    sym::reach(0);
}

/// Replacing the whole document, then editing it.
#[no_mangle]
#[inline(never)]
pub fn s03_whole() {
    sym::real_format();
    let mut c = Client::new(text(2, 2));
    let mut d = LiveDocument::new(&c.text(), 1);
    let saved = c.lines();
    c.pieces = text(3, 4);
    sym::check(d.change(None, &c.text(), 2).is_ok(), "replacing the document fails");
    c.saved = vec![None; c.lines().len()];
    c.compare(&d, &saved);
    let new = text(1, 2);
    c.edit(&mut d, &new, 3);
    c.compare(&d, &saved);
    sym::reach(0);
}

/// The text in front of any position.
#[no_mangle]
#[inline(never)]
pub fn s03_prefix() {
    let c = Client::new(text(4 + TH, 5));
    let d = LiveDocument::new(&c.text(), 1);
    let at = c.positions();
    let mut line = vec![];
    for (i, p) in at.iter().enumerate() {
        sym::check(same(d.get_prefix(p.line, p.character).as_bytes(), string(&line).as_bytes()), "the wrong text is in front of a position");
        if i < c.pieces.len() {
            if ending(&c.pieces[i]) {
                let far = sym::u32();
                sym::assume(far > p.character);
                sym::check(same(d.get_prefix(p.line, far).as_bytes(), string(&line).as_bytes()), "a position past the end is not the end");
                line.clear();
            } else {
                line.push(c.pieces[i]);
            }
        }
    }
    sym::reach(0);
}
