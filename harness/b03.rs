//! Bucket filters and goal buckets.
use super::sym;
use sha2::{Digest, Sha256};
use crate::goal_partition::{goal_bucket, GoalBucketFilter, GOAL_BUCKET_COUNT};

pub const HARNESSES: &[(&str, fn())] = &[
    ("b03_text", b03_text),
    ("b03_ranges", b03_ranges),
    ("b03_print", b03_print),
    ("b03_single", b03_single),
    ("b03_bucket", b03_bucket),
];
const TH: usize = cfg!(vh_thorough) as usize;

/// The buckets a filter text selects, or None if it is malformed: comma separated entries, each a
/// number or number-number, blanks around entries and numbers ignored, numbers below the count.
fn reference(s: &[u8]) -> Option<Vec<(u32, u32)>> {
    fn blank(c: u8) -> bool {
        c == b' ' || (c >= 9 && c <= 13)
    }
    fn trim(mut s: &[u8]) -> &[u8] {
        while !s.is_empty() && blank(s[0]) {
            s = &s[1..];
        }
        while !s.is_empty() && blank(s[s.len() - 1]) {
            s = &s[..s.len() - 1];
        }
        s
    }
    fn number(s: &[u8]) -> Option<u32> {
        let mut s = trim(s);
        if s.len() > 1 && s[0] == b'+' {
            s = &s[1..];
        }
        if s.is_empty() {
            return None;
        }
        let mut v = 0u32;
        for c in s {
            if *c < b'0' || *c > b'9' {
                return None;
            }
            v = v * 10 + (*c - b'0') as u32;
        }
        if v < 100 {
            Some(v)
        } else {
            None
        }
    }
    let mut set = vec![];
    let mut start = 0;
    for i in 0..s.len() + 1 {
        if i < s.len() && s[i] != b',' {
            continue;
        }
        let part = trim(&s[start..i]);
        start = i + 1;
        let mut dash = None;
        for j in 0..part.len() {
            if dash.is_none() && part[j] == b'-' {
                dash = Some(j);
            }
        }
        let (a, b) = match dash {
            None => {
                let v = number(part)?;
                (v, v)
            }
            Some(j) => (number(&part[..j])?, number(&part[j + 1..])?),
        };
        if a > b {
            return None;
        }
        set.push((a, b));
    }
    Some(set)
}
fn go(s: &str) {
    let want = reference(s.as_bytes());
    match s.parse::<GoalBucketFilter>() {
        Err(_) => {
            sym::check(want.is_none(), "a well-formed filter is rejected");
            sym::reach(0);
        }
        Ok(f) => {
            let Some(want) = want else {
                sym::check(false, "a malformed filter is accepted");
                return;
            };
            let b = sym::u8();
            let mut inside = false;
            for (x, y) in &want {
                inside |= (*x <= b as u32) & (b as u32 <= *y);
            }
            sym::check(f.contains(b) == inside, "the filter selects other buckets than listed");
            sym::reach(1);
        }
    }
}

/// Any text over the characters that matter.
#[no_mangle]
#[inline(never)]
pub fn b03_text() {
    let n = sym::choice(5 + TH);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match sym::choice(6) {
            0 => {
                let d = sym::u8();
                sym::assume(d >= b'0' && d <= b'9');
                d
            }
            1 => b'-',
            2 => b',',
            3 => b' ',
            4 => b'+',
            _ => {
                let d = sym::u8();
                sym::assume(d < 128);
                d
            }
        });
    }
    go(std::str::from_utf8(&v).unwrap());
}

/// Two or three entries with numbers of one to three digits.
#[no_mangle]
#[inline(never)]
pub fn b03_ranges() {
    let mut v = vec![];
    let num = |v: &mut Vec<u8>, k: usize| {
        for _ in 0..k {
            let d = sym::u8();
            sym::assume(d >= b'0' && d <= b'9');
            v.push(d);
        }
    };
    for i in 0..2 + TH {
        if i > 0 {
            v.push(b',');
        }
        match sym::choice(3) {
            0 => num(&mut v, 1 + sym::choice(3)),
            1 => {
                num(&mut v, 2);
                v.push(b'-');
                num(&mut v, 2);
            }
            _ => {
                num(&mut v, 1);
                v.push(b'-');
                num(&mut v, 2 + sym::choice(2));
            }
        }
    }
    go(std::str::from_utf8(&v).unwrap());
}

/// Printing a filter and reading it back.
#[no_mangle]
#[inline(never)]
pub fn b03_print() {
    let mut v = vec![];
    for i in 0..2 {
        if i > 0 {
            v.push(b',');
        }
        let mut k = 1 + sym::choice(2);
        if sym::choice(2) == 1 {
            v.push(b' ');
        }
        for j in 0..1 + sym::choice(2) {
            if j > 0 {
                v.push(b'-');
                k = 2;
            }
            for _ in 0..k {
                let d = sym::u8();
                sym::assume(d >= b'0' && d <= b'9');
                v.push(d);
            }
        }
    }
    let s = std::str::from_utf8(&v).unwrap();
    let Ok(f) = s.parse::<GoalBucketFilter>() else {
        return;
    };
    sym::real_format();
    let printed = f.to_string();
    match printed.parse::<GoalBucketFilter>() {
        Err(_) => sym::check(false, "a printed filter cannot be read back"),
        Ok(g) => {
            let b = sym::u8();
            sym::check(f.contains(b) == g.contains(b), "a printed filter selects other buckets");
        }
    }
    sym::reach(0);
}

/// The filter for one bucket.
#[no_mangle]
#[inline(never)]
pub fn b03_single() {
    let (a, b) = (sym::u8(), sym::u8());
    sym::assume(a < GOAL_BUCKET_COUNT);
    sym::check(GoalBucketFilter::single(a).contains(b) == (a == b), "the filter for one bucket selects another");
    sym::reach(0);
}

/// SHA-256's block function, replaced by a mixing that a solver can follow. The bucket must then be
/// that of the documented hash input, for every module and goal text.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vredirect_sha2__compress256(state: *mut u32, blocks: *const u8, n: usize) {
    for b in 0..n {
        for i in 0..8 {
            let mut v = 0u32;
            for j in 0..16 {
                let mut w = 0u32;
                for k in 0..4 {
                    w = (w << 8) | unsafe { *blocks.add(b * 64 + j * 4 + k) } as u32;
                }
                v ^= w.rotate_left(((i * 3 + j * 5) & 31) as u32);
            }
            unsafe { *state.add(i) = (*state.add(i)).rotate_left(7) ^ v };
        }
    }
}

/// A goal's bucket is the documented one, in range, and separates the module from the goal.
#[no_mangle]
#[inline(never)]
pub fn b03_bucket() {
    let text = |n: usize| {
        let mut s = String::new();
        for _ in 0..n {
            let c = sym::u8();
            sym::assume(c < 128);
            s.push(c as char);
        }
        s
    };
    let m = text(sym::choice(3 + TH));
    let g = text(sym::choice(4));
    let b = goal_bucket(&m, &g);
    sym::check(b < GOAL_BUCKET_COUNT, "a bucket is out of range");
    let mut h = Sha256::new();
    h.update(format_bytes(&m, &g));
    let d = h.finalize();
    let mut v = 0u64;
    for i in 0..8 {
        v = (v << 8) | d[i] as u64;
    }
    sym::check(b as u64 == v % 100, "a bucket is not that of its module and goal");
    sym::reach(0);
}
fn format_bytes(m: &str, g: &str) -> Vec<u8> {
    let mut v = m.as_bytes().to_vec();
    v.push(b'\t');
    v.extend_from_slice(g.as_bytes());
    v
}
