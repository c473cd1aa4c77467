//! Hash-consed bit-vector expressions, simplification, concrete evaluation under a model.
use std::collections::HashMap;

pub type Ex = u32;
pub const NONE: Ex = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a = high, b = low
    Extract, // b = low bit
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8, // width 1..=128 (stored as is; 128 fits)
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub hash: Vec<u128>, // structural hash, stable across truncation
    map: HashMap<Node, Ex, BuildFx>,
    // pinned constant value for a node (index of a Const node), NONE if not pinned
    pub pin: Vec<Ex>,
    pub z3: Vec<*mut std::ffi::c_void>, // cached z3 ast (maintained by solver)
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
    pub var_width: Vec<u8>,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn mix(h: u128, x: u128) -> u128 {
    let m = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    m ^ (m >> 61) ^ (m << 17)
}

pub fn fold(op: Op, w: u8, aw: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    let bit = |x: bool| x as u128;
    Some(match op {
        Op::Not => !a & m,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        // SMT-LIB semantics for division by zero
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            if b >= w as u128 {
                (s >> 127) as u128 & m
            } else {
                ((s >> b) as u128) & m
            }
        }
        Op::Eq => bit(a == b),
        Op::Ult => bit(a < b),
        Op::Ule => bit(a <= b),
        Op::Slt => bit(sext(a, aw) < sext(b, aw)),
        Op::Sle => bit(sext(a, aw) <= sext(b, aw)),
        _ => return None,
    })
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            nodes: vec![],
            hash: vec![],
            map: HashMap::with_hasher(BuildFx),
            pin: vec![],
            z3: vec![],
            ev_stamp: vec![],
            ev_val: vec![],
            stamp: 1,
            var_width: vec![],
        }
    }

    pub fn truncate(&mut self, n: usize, mut drop_z3: impl FnMut(*mut std::ffi::c_void)) {
        while self.nodes.len() > n {
            let nd = self.nodes.pop().unwrap();
            self.map.remove(&nd);
            self.hash.pop();
            self.pin.pop();
            let z = self.z3.pop().unwrap();
            if !z.is_null() {
                drop_z3(z)
            }
            self.ev_stamp.pop();
            self.ev_val.pop();
        }
    }

    fn intern(&mut self, nd: Node) -> Ex {
        if let Some(&i) = self.map.get(&nd) {
            return i;
        }
        let i = self.nodes.len() as Ex;
        let mut h = mix(0x1234567, ((nd.op as u128) << 8) | nd.w as u128);
        match nd.op {
            Op::Const | Op::Var => {
                h = mix(h, nd.a as u128 | (nd.b as u128) << 32 | (nd.c as u128) << 64 | (nd.d as u128) << 96);
            }
            Op::Extract => {
                h = mix(h, self.hash[nd.a as usize]);
                h = mix(h, nd.b as u128);
            }
            Op::Not | Op::ZExt | Op::SExt => {
                h = mix(h, self.hash[nd.a as usize]);
            }
            Op::Ite => {
                h = mix(h, self.hash[nd.a as usize]);
                h = mix(h, self.hash[nd.b as usize]);
                h = mix(h, self.hash[nd.c as usize]);
            }
            _ => {
                h = mix(h, self.hash[nd.a as usize]);
                h = mix(h, self.hash[nd.b as usize]);
            }
        }
        self.nodes.push(nd);
        self.hash.push(h);
        self.pin.push(NONE);
        self.z3.push(std::ptr::null_mut());
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        self.map.insert(nd, i);
        i
    }

    pub fn width(&self, e: Ex) -> u8 {
        self.nodes[e as usize].w
    }

    pub fn konst(&mut self, w: u8, v: u128) -> Ex {
        let v = v & mask(w);
        self.intern(Node {
            op: Op::Const,
            w,
            a: v as u32,
            b: (v >> 32) as u32,
            c: (v >> 64) as u32,
            d: (v >> 96) as u32,
        })
    }

    pub fn var(&mut self, w: u8) -> Ex {
        let id = self.var_width.len() as u32;
        self.var_width.push(w);
        self.intern(Node { op: Op::Var, w, a: id, b: 0, c: 0, d: 0 })
    }

    #[inline]
    pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96)
        } else {
            None
        }
    }

    #[inline]
    pub fn pinned(&self, e: Ex) -> Ex {
        let p = self.pin[e as usize];
        if p == NONE {
            e
        } else {
            p
        }
    }

    fn raw2(&mut self, op: Op, w: u8, a: Ex, b: Ex) -> Ex {
        let e = self.intern(Node { op, w, a, b, c: 0, d: 0 });
        self.pinned(e)
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let a = self.pinned(a);
        let n = self.nodes[a as usize];
        if let Some(v) = self.cval(a) {
            return self.konst(n.w, !v);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if n.op == Op::Ite && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) {
            let x = self.not(n.b);
            let y = self.not(n.c);
            return self.ite(n.a, x, y);
        }
        self.raw2(Op::Not, n.w, a, 0)
    }

    fn const_leaves(&self, e: Ex, depth: u32) -> bool {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => true,
            Op::Ite => depth > 0 && self.const_leaves(n.b, depth - 1) && self.const_leaves(n.c, depth - 1),
            _ => false,
        }
    }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let mut a = self.pinned(a);
        let mut b = self.pinned(b);
        let aw = self.width(a);
        debug_assert_eq!(aw, self.width(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { aw };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, aw, x, y) {
                return self.konst(w, v);
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        let m = mask(aw);
        let na = self.nodes[a as usize];
        // width-1 comparisons become boolean ops
        if aw == 1 {
            match op {
                Op::Eq => {
                    if let Some(v) = cb {
                        return if v == 1 { a } else { self.not(a) };
                    }
                }
                Op::Ult => {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                Op::Ule => {
                    let na = self.not(a);
                    return self.bin(Op::Or, na, b);
                }
                Op::Add | Op::Sub => return self.bin(Op::Xor, a, b),
                Op::Mul => return self.bin(Op::And, a, b),
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(w, 0),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(1, 0),
                _ => {}
            }
        }
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Sub if y == 0 => return a,
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Xor if y == m => return self.not(a),
                Op::Mul if y == 0 => return b,
                Op::Mul if y == 1 => return a,
                Op::UDiv if y == 1 => return a,
                Op::Ult if y == 0 => return self.konst(1, 0),
                Op::Ule if y == m => return self.konst(1, 1),
                Op::Shl | Op::LShr if y >= aw as u128 => return self.konst(w, 0),
                Op::Sub => {
                    let k = self.konst(aw, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                Op::Mul if y.is_power_of_two() => {
                    let k = self.konst(aw, y.trailing_zeros() as u128);
                    return self.bin(Op::Shl, a, k);
                }
                Op::UDiv if y.is_power_of_two() => {
                    let k = self.konst(aw, y.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, k);
                }
                Op::URem if y.is_power_of_two() => {
                    let k = self.konst(aw, y - 1);
                    return self.bin(Op::And, a, k);
                }
                _ => {}
            }
            // constant against ite tree with constant leaves
            if na.op == Op::Ite && self.const_leaves(a, 12) {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
            match (op, na.op) {
                (Op::Add, Op::Add) => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(aw, z.wrapping_add(y));
                        return self.bin(Op::Add, na.a, k);
                    }
                }
                (Op::And, Op::And) | (Op::Or, Op::Or) | (Op::Xor, Op::Xor) => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(aw, fold(op, aw, aw, z, y).unwrap());
                        return self.bin(op, na.a, k);
                    }
                }
                (Op::Shl, Op::Shl) | (Op::LShr, Op::LShr) => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(aw, (z + y).min(aw as u128));
                        return self.bin(op, na.a, k);
                    }
                }
                (Op::Eq, Op::Add) => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(aw, y.wrapping_sub(z));
                        return self.bin(Op::Eq, na.a, k);
                    }
                }
                (Op::Eq, Op::Xor) => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(aw, y ^ z);
                        return self.bin(Op::Eq, na.a, k);
                    }
                }
                (Op::Eq, Op::Not) => {
                    let k = self.konst(aw, !y);
                    return self.bin(Op::Eq, na.a, k);
                }
                (Op::Eq | Op::Ult | Op::Ule, Op::ZExt) => {
                    let nw = self.width(na.a);
                    if y > mask(nw) {
                        return self.konst(1, (op != Op::Eq) as u128);
                    }
                    let k = self.konst(nw, y);
                    return self.bin(op, na.a, k);
                }
                (Op::Slt | Op::Sle, Op::ZExt) => {
                    // a is non-negative
                    let nw = self.width(na.a);
                    let ys = sext(y, aw);
                    if ys < 0 {
                        return self.konst(1, 0);
                    }
                    if y > mask(nw) {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(nw, y);
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, na.a, k);
                }
                (Op::Eq, Op::SExt) => {
                    let nw = self.width(na.a);
                    let t = y & mask(nw);
                    if (sext(t, nw) as u128) & m != y {
                        return self.konst(1, 0);
                    }
                    let k = self.konst(nw, t);
                    return self.bin(Op::Eq, na.a, k);
                }
                (Op::Eq, Op::Concat) => {
                    let lw = self.width(na.b);
                    let hw = self.width(na.a);
                    let kl = self.konst(lw, y);
                    let kh = self.konst(hw, y >> lw);
                    let l = self.bin(Op::Eq, na.b, kl);
                    let h = self.bin(Op::Eq, na.a, kh);
                    return self.bin(Op::And, h, l);
                }
                (Op::And, Op::ZExt) => {
                    let nw = self.width(na.a);
                    let k = self.konst(nw, y);
                    let x = self.bin(Op::And, na.a, k);
                    return self.zext(x, aw);
                }
                (Op::And, Op::Concat) => {
                    let lw = self.width(na.b);
                    let hw = self.width(na.a);
                    let kl = self.konst(lw, y);
                    let kh = self.konst(hw, y >> lw);
                    let l = self.bin(Op::And, na.b, kl);
                    let h = self.bin(Op::And, na.a, kh);
                    return self.concat(h, l);
                }
                (Op::Or | Op::Xor, Op::ZExt) | (Op::Add, Op::ZExt) => {
                    // constant bits above a zero extension become a concatenation
                    let nw = self.width(na.a);
                    if y & mask(nw) == 0 || op != Op::Add {
                        let kl = self.konst(nw, y);
                        let l = if op == Op::Add { na.a } else { self.bin(op, na.a, kl) };
                        if y >> nw == 0 {
                            return self.zext(l, aw);
                        }
                        let kh = self.konst(aw - nw, y >> nw);
                        return self.concat(kh, l);
                    }
                }
                (Op::Or | Op::Xor, Op::Concat) => {
                    let lw = self.width(na.b);
                    let hw = self.width(na.a);
                    let kl = self.konst(lw, y);
                    let kh = self.konst(hw, y >> lw);
                    let l = self.bin(op, na.b, kl);
                    let h = self.bin(op, na.a, kh);
                    return self.concat(h, l);
                }
                (Op::And, _) if (y & (y + 1)) == 0 && y != 0 => {
                    // low-bit mask
                    let k = (128 - y.leading_zeros()) as u8;
                    let x = self.extract(a, 0, k);
                    return self.zext(x, aw);
                }
                (Op::LShr, _) => {
                    let s = y as u8;
                    let x = self.extract(a, s, aw - s);
                    return self.zext(x, aw);
                }
                (Op::Shl, _) => {
                    let s = y as u8;
                    let x = self.extract(a, 0, aw - s);
                    let z = self.konst(s, 0);
                    return self.concat(x, z);
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            let nb = self.nodes[b as usize];
            match op {
                Op::Ule if x == 0 => return self.konst(1, 1),
                Op::Ult if x == m => return self.konst(1, 0),
                Op::Sub if x == 0 => {}
                Op::Shl | Op::LShr | Op::UDiv | Op::URem if x == 0 => return a,
                _ => {}
            }
            if nb.op == Op::Ite && self.const_leaves(b, 12) {
                let x = self.bin(op, a, nb.b);
                let y = self.bin(op, a, nb.c);
                return self.ite(nb.a, x, y);
            }
            match (op, nb.op) {
                (Op::Ult | Op::Ule, Op::ZExt) => {
                    let nw = self.width(nb.a);
                    if x > mask(nw) {
                        return self.konst(1, 0);
                    }
                    let k = self.konst(nw, x);
                    return self.bin(op, k, nb.a);
                }
                (Op::Slt | Op::Sle, Op::ZExt) => {
                    let nw = self.width(nb.a);
                    let xs = sext(x, aw);
                    if xs < 0 {
                        return self.konst(1, 1);
                    }
                    if x > mask(nw) {
                        return self.konst(1, 0);
                    }
                    let k = self.konst(nw, x);
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, k, nb.a);
                }
                _ => {}
            }
        }
        let nb = self.nodes[b as usize];
        // both zero-extended from the same width
        if cmp && na.op == Op::ZExt && nb.op == Op::ZExt && self.width(na.a) == self.width(nb.a) {
            let o = match op {
                Op::Slt => Op::Ult,
                Op::Sle => Op::Ule,
                o => o,
            };
            return self.bin(o, na.a, nb.a);
        }
        if matches!(op, Op::And | Op::Or | Op::Xor)
            && na.op == Op::ZExt
            && nb.op == Op::ZExt
            && self.width(na.a) == self.width(nb.a)
        {
            let x = self.bin(op, na.a, nb.a);
            return self.zext(x, w);
        }
        if op == Op::Or {
            // disjoint concat assembly: concat(x, 0) | zext(y)
            if let Some(r) = self.try_merge(a, b) {
                return r;
            }
            if let Some(r) = self.try_merge(b, a) {
                return r;
            }
        }
        if aw == 1 {
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                match op {
                    Op::And => return self.konst(1, 0),
                    Op::Or | Op::Xor => return self.konst(1, 1),
                    Op::Eq => return self.konst(1, 0),
                    _ => {}
                }
            }
        }
        self.raw2(op, w, a, b)
    }

    // a = Concat(x, 0_k), b = ZExt(y) with width(y) <= k  =>  Concat(x, zext_k(y))
    fn try_merge(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        if na.op == Op::Concat && nb.op == Op::ZExt && self.cval(na.b) == Some(0) {
            let k = self.width(na.b);
            if self.width(nb.a) <= k {
                let y = self.zext(nb.a, k);
                return Some(self.concat(na.a, y));
            }
        }
        // zext(concat(x,0_k)) | zext(y)
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let i = self.nodes[na.a as usize];
            if i.op == Op::Concat && self.cval(i.b) == Some(0) {
                let k = self.width(i.b);
                if self.width(nb.a) <= k {
                    let y = self.zext(nb.a, k);
                    let r = self.concat(i.a, y);
                    return Some(self.zext(r, na.w));
                }
            }
        }
        None
    }

    /// Conjunction that ignores pins (the operands may be pinned on the current path).
    pub fn bin_unpinned_and(&mut self, a: Ex, b: Ex) -> Ex {
        if self.cval(a) == Some(1) {
            return b;
        }
        if self.cval(b) == Some(1) || a == b {
            return a;
        }
        self.intern(Node { op: Op::And, w: 1, a, b, c: 0, d: 0 })
    }

    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        let c = self.pinned(c);
        let a = self.pinned(a);
        let b = self.pinned(b);
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.width(a);
        if w == 1 {
            let (ca, cb) = (self.cval(a), self.cval(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let e = self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, d: 0 });
        self.pinned(e)
    }

    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let hi = self.pinned(hi);
        let lo = self.pinned(lo);
        let (hw, lw) = (self.width(hi), self.width(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.konst(w, x << lw | y);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
            return self.extract(nh.a, nl.b as u8, w);
        }
        // concat(concat(x, extract hi), extract lo)
        if nh.op == Op::Concat {
            let nhl = self.nodes[nh.b as usize];
            if nhl.op == Op::Extract && nl.op == Op::Extract && nhl.a == nl.a && nhl.b == nl.b + lw as u32 {
                let x = self.extract(nl.a, nl.b as u8, lw + nhl.w);
                return self.concat(nh.a, x);
            }
            if self.cval(nh.b).is_some() && self.cval(lo).is_some() {
                let x = self.concat(nh.b, lo);
                return self.concat(nh.a, x);
            }
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        if nl.op == Op::Concat {
            // right-nested -> left-nested
            let x = self.concat(hi, nl.a);
            return self.concat(x, nl.b);
        }
        self.raw2(Op::Concat, w, hi, lo)
    }

    pub fn extract(&mut self, a: Ex, lo: u8, w: u8) -> Ex {
        let a = self.pinned(a);
        let n = self.nodes[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v >> lo);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b as u8 + lo, w),
            Op::Concat => {
                let lw = self.width(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.width(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.width(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        let e = self.intern(Node { op: Op::Extract, w, a, b: lo as u32, c: 0, d: 0 });
        self.pinned(e)
    }

    pub fn zext(&mut self, a: Ex, w: u8) -> Ex {
        let a = self.pinned(a);
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v);
        }
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.const_leaves(a, 12) => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.raw2(Op::ZExt, w, a, 0)
    }

    pub fn sext(&mut self, a: Ex, w: u8) -> Ex {
        let a = self.pinned(a);
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, sext(v, n.w) as u128);
        }
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.const_leaves(a, 12) => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.raw2(Op::SExt, w, a, 0)
    }

    /// Start a new evaluation context (new model).
    pub fn new_eval(&mut self) {
        self.stamp += 1;
        if self.stamp == u32::MAX {
            self.stamp = 1;
            for s in self.ev_stamp.iter_mut() {
                *s = 0
            }
        }
    }

    pub fn eval(&mut self, e: Ex, model: &[u64]) -> u128 {
        if self.ev_stamp[e as usize] == self.stamp {
            return self.ev_val[e as usize];
        }
        // explicit stack to avoid deep recursion
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.ev_stamp[x as usize] == self.stamp {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            macro_rules! get {
                ($y:expr) => {{
                    let y = $y;
                    if self.ev_stamp[y as usize] != self.stamp {
                        st.push(y);
                        continue;
                    }
                    self.ev_val[y as usize]
                }};
            }
            let v = match n.op {
                Op::Const => n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96,
                Op::Var => (*model.get(n.a as usize).unwrap_or(&0)) as u128,
                Op::Not => !get!(n.a) & mask(n.w),
                Op::Ite => {
                    let c = get!(n.a);
                    if c == 1 {
                        get!(n.b)
                    } else {
                        get!(n.c)
                    }
                }
                Op::Concat => {
                    let h = get!(n.a);
                    let l = get!(n.b);
                    h << self.nodes[n.b as usize].w | l
                }
                Op::Extract => (get!(n.a) >> n.b) & mask(n.w),
                Op::ZExt => get!(n.a),
                Op::SExt => {
                    let v = get!(n.a);
                    sext(v, self.nodes[n.a as usize].w) as u128 & mask(n.w)
                }
                op => {
                    let a = get!(n.a);
                    let b = get!(n.b);
                    fold(op, n.w, self.nodes[n.a as usize].w, a, b).unwrap()
                }
            };
            self.ev_stamp[x as usize] = self.stamp;
            self.ev_val[x as usize] = v;
            st.pop();
        }
        self.ev_val[e as usize]
    }

    /// Collect variable ids into `out` (sorted, deduplicated).
    pub fn vars(&mut self, e: Ex, out: &mut Vec<u32>) {
        self.new_eval();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if self.ev_stamp[x as usize] == self.stamp {
                continue;
            }
            self.ev_stamp[x as usize] = self.stamp;
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.a),
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c);
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        self.new_eval();
    }
}
