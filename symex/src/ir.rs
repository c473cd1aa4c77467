//! Decoded form of LLVM functions: scalar slots and micro-instructions.
use crate::llvm::{self as L, P};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Opd {
    S(u32),       // slot
    K(u64),       // constant of width <= 64
    W(u64, u64),  // wide constant (hi, lo)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    FAbs,
    FMinNum,
    FMaxNum,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FCopysign,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ovf {
    UAdd,
    USub,
    UMul,
    SAdd,
    SSub,
    SMul,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32, // pc
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub struct GepData {
    pub base: Opd,
    pub off: u64,
    pub idx: Vec<(Opd, u8, u64)>,
}
#[derive(Debug)]
pub struct CallData {
    pub target: Target,
    pub args: Vec<Opd>,
    pub arg_w: Vec<u8>,
    pub dst: u32,
    pub ret_w: Vec<u8>,
    pub next: Option<u32>, // invoke: edge of the normal destination
}
#[derive(Debug, Clone)]
pub enum Target {
    Fn(u32),
    Indirect(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, dst: u32, a: Opd, b: Opd },
    Fcmp { p: u8, w: u8, dst: u32, a: Opd, b: Opd },
    Fneg { w: u8, dst: u32, a: Opd },
    Select { w: u8, dst: u32, c: Opd, a: Opd, b: Opd },
    Cast { op: CastOp, fw: u8, tw: u8, dst: u32, a: Opd },
    Move { dst: u32, a: Opd },
    Load { dst: u32, addr: Opd, off: u32, w: u8 },
    Store { addr: Opd, off: u32, w: u8, v: Opd },
    Gep { dst: u32, d: Box<GepData> },
    Alloca { dst: u32, size: u64, n: Opd },
    Call(Box<CallData>),
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u8, def: u32, cases: Box<Vec<(u64, u32)>> },
    Ret(Box<Vec<Opd>>),
    Unreachable,
    Recast { dst: u32, dw: Box<Vec<u8>>, src: Box<Vec<(Opd, u8)>> },
    ExtractDyn { dst: u32, w: u8, idx: Opd, iw: u8, src: Box<Vec<Opd>> },
    InsertDyn { dst: u32, w: u8, idx: Opd, iw: u8, v: Opd, src: Box<Vec<Opd>> },
    Rmw { op: u8, w: u8, dst: u32, addr: Opd, v: Opd },
    CmpXchg { w: u8, dst: u32, addr: Opd, cmp: Opd, new: Opd },
    Intrin { op: Intr, w: u8, ow: u8, dst: u32, a: Opd, b: Opd, c: Opd },
    Overflow { op: Ovf, w: u8, dst: u32, a: Opd, b: Opd },
    MemCpy { dst: Opd, src: Opd, n: Opd },
    MemSet { dst: Opd, v: Opd, n: Opd },
    Assume { c: Opd },
    Trap(Box<String>),
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nslots: u32,
    pub nparams: u32,
    pub param_w: Vec<u8>,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
}

pub struct FuncInfo {
    pub name: String,
    pub val: P,
    pub defined: bool,
    pub decoded: Option<&'static Func>,
}

pub struct Module {
    pub dl: P,
    pub funcs: Vec<FuncInfo>,
    pub fn_by_val: HashMap<P, u32>,
    pub fn_by_name: HashMap<String, u32>,
    pub obj_of_global: HashMap<P, u32>, // object id
    pub globals: Vec<P>,
    /// object ids 0..nfuncs are functions, then globals
    pub nfuncs: u32,
}

pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) + 1) << 32
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u32,
    pub w: u8,
}

impl Module {
    pub fn new(m: P) -> Module {
        let mut funcs = vec![];
        let mut fn_by_val = HashMap::new();
        let mut fn_by_name = HashMap::new();
        for f in L::functions(m) {
            let id = funcs.len() as u32;
            fn_by_val.insert(f, id);
            let name = L::name(f);
            fn_by_name.insert(name.clone(), id);
            funcs.push(FuncInfo { name, val: f, defined: !L::is_declaration(f), decoded: None });
        }
        let nfuncs = funcs.len() as u32;
        let mut obj_of_global = HashMap::new();
        let globals = L::globals(m);
        for (i, g) in globals.iter().enumerate() {
            obj_of_global.insert(*g, nfuncs + i as u32);
        }
        let mut md = Module { dl: L::data_layout(m), funcs, fn_by_val, fn_by_name, obj_of_global, globals, nfuncs };
        for a in L::aliases(m) {
            let t = L::aliasee(a);
            if let Some(&f) = md.fn_by_val.get(&t) {
                md.fn_by_val.insert(a, f);
            } else if let Some(&o) = md.obj_of_global.get(&t) {
                md.obj_of_global.insert(a, o);
            }
        }
        md
    }

    pub fn flatten(&self, ty: P) -> Vec<Leaf> {
        let mut v = vec![];
        self.flat(ty, 0, &mut v);
        v
    }
    fn flat(&self, ty: P, off: u32, out: &mut Vec<Leaf>) {
        match L::type_kind(ty) {
            0 => {}                                                   // void
            2 => out.push(Leaf { off, w: 32 }),                       // float
            3 => out.push(Leaf { off, w: 64 }),                       // double
            8 => {
                let w = L::int_width(ty);
                assert!(w <= 128, "integer width {}", w);
                out.push(Leaf { off, w: w as u8 })
            }
            12 => out.push(Leaf { off, w: 64 }),                      // pointer
            10 => {
                for i in 0..L::struct_len(ty) {
                    let o = L::offset_of(self.dl, ty, i) as u32;
                    self.flat(L::struct_elem(ty, i), off + o, out);
                }
            }
            11 => {
                let e = L::elem_type(ty);
                let sz = L::abi_size(self.dl, e) as u32;
                for i in 0..L::array_len(ty) {
                    self.flat(e, off + i as u32 * sz, out);
                }
            }
            13 => {
                let e = L::elem_type(ty);
                let sz = L::abi_size(self.dl, e) as u32;
                for i in 0..L::vector_len(ty) {
                    self.flat(e, off + i * sz, out);
                }
            }
            k => out.push(Leaf { off, w: if k == 14 || k == 16 { 1 } else { 64 } }),
        }
    }
    fn is_bitvec(&self, ty: P) -> bool {
        L::type_kind(ty) == 13 && L::type_kind(L::elem_type(ty)) == 8 && L::int_width(L::elem_type(ty)) % 8 != 0
    }

    /// Constant operands, flattened.
    pub fn constant(&self, v: P, out: &mut Vec<Opd>) {
        let ty = L::type_of(v);
        if L::is_int(v) {
            if L::int_width(ty) <= 64 {
                out.push(Opd::K(L::int_value(v)));
            } else {
                let s = L::print(v);
                let t = s.split_whitespace().last().unwrap();
                let n = t.parse::<i128>().map(|x| x as u128).or_else(|_| t.parse::<u128>()).expect("wide constant");
                let n = if L::int_width(ty) >= 128 { n } else { n & ((1u128 << L::int_width(ty)) - 1) };
                out.push(Opd::W((n >> 64) as u64, n as u64));
            }
            return;
        }
        if L::is_fp(v) {
            let d = L::fp_value(v);
            out.push(Opd::K(if L::type_kind(ty) == 2 { (d as f32).to_bits() as u64 } else { d.to_bits() }));
            return;
        }
        if L::is_null(v) {
            out.push(Opd::K(0));
            return;
        }
        if L::is_undef(v) || L::is_zero_agg(v) {
            for l in self.flatten(ty) {
                out.push(if l.w > 64 { Opd::W(0, 0) } else { Opd::K(0) });
            }
            return;
        }
        if let Some(&f) = self.fn_by_val.get(&v) {
            out.push(Opd::K(obj_addr(f)));
            return;
        }
        if let Some(&g) = self.obj_of_global.get(&v) {
            out.push(Opd::K(obj_addr(g)));
            return;
        }
        if L::is_cexpr(v) {
            let x = self.cexpr(v);
            out.push(Opd::K(x));
            return;
        }
        // aggregates
        let n = match L::type_kind(ty) {
            10 => L::struct_len(ty),
            11 => L::array_len(ty) as u32,
            13 => L::vector_len(ty),
            _ => panic!("constant {}", L::print(v)),
        };
        for i in 0..n {
            self.constant(L::aggregate_element(v, i), out);
        }
    }
    fn k(&self, v: P) -> u64 {
        let mut o = vec![];
        self.constant(v, &mut o);
        match o[0] {
            Opd::K(x) => x,
            _ => panic!("wide constant in expression"),
        }
    }
    fn cexpr(&self, v: P) -> u64 {
        match L::const_opcode(v) {
            29 => {
                let d = self.gep(v, |m, x| Opd::K(m.k(x)));
                let mut a = match d.base {
                    Opd::K(x) => x,
                    _ => unreachable!(),
                };
                a = a.wrapping_add(d.off);
                for (o, w, s) in d.idx {
                    if let Opd::K(x) = o {
                        let x = if w < 64 { ((x << (64 - w)) as i64 >> (64 - w)) as u64 } else { x };
                        a = a.wrapping_add(x.wrapping_mul(s));
                    }
                }
                a
            }
            39 | 40 | 41 | 69 => self.k(L::operand(v, 0)),
            30 => {
                let w = L::int_width(L::type_of(v));
                let x = self.k(L::operand(v, 0));
                if w >= 64 {
                    x
                } else {
                    x & ((1u64 << w) - 1)
                }
            }
            8 => self.k(L::operand(v, 0)).wrapping_add(self.k(L::operand(v, 1))),
            10 => self.k(L::operand(v, 0)).wrapping_sub(self.k(L::operand(v, 1))),
            25 => {
                let w = L::int_width(L::type_of(v));
                let x = self.k(L::operand(v, 0)) ^ self.k(L::operand(v, 1));
                if w >= 64 { x } else { x & ((1u64 << w) - 1) }
            }
            o => panic!("constant expression opcode {}: {}", o, L::print(v)),
        }
    }
    fn gep(&self, v: P, mut f: impl FnMut(&Module, P) -> Opd) -> GepData {
        let base = f(self, L::operand(v, 0));
        let mut ty = L::gep_type(v);
        let mut off = 0u64;
        let mut idx = vec![];
        for i in 1..L::num_operands(v) as u32 {
            let o = L::operand(v, i);
            if i == 1 {
                let sz = L::abi_size(self.dl, ty);
                self.gep_index(o, sz, &mut off, &mut idx, &mut f);
                continue;
            }
            match L::type_kind(ty) {
                10 => {
                    let k = L::int_value(o) as u32;
                    off = off.wrapping_add(L::offset_of(self.dl, ty, k));
                    ty = L::struct_elem(ty, k);
                }
                _ => {
                    ty = L::elem_type(ty);
                    let sz = L::abi_size(self.dl, ty);
                    self.gep_index(o, sz, &mut off, &mut idx, &mut f);
                }
            }
        }
        GepData { base, off, idx }
    }
    fn gep_index(
        &self,
        o: P,
        sz: u64,
        off: &mut u64,
        idx: &mut Vec<(Opd, u8, u64)>,
        f: &mut impl FnMut(&Module, P) -> Opd,
    ) {
        let w = L::int_width(L::type_of(o)) as u8;
        if L::is_int(o) {
            let x = L::int_value(o);
            let x = if w < 64 { ((x << (64 - w)) as i64 >> (64 - w)) as u64 } else { x };
            *off = off.wrapping_add(x.wrapping_mul(sz));
        } else {
            idx.push((f(self, o), w, sz));
        }
    }

    /// Bytes of a global initialiser.
    pub fn init_bytes(&self, v: P, off: usize, out: &mut [u8]) {
        let ty = L::type_of(v);
        if L::is_undef(v) || L::is_zero_agg(v) || L::is_null(v) {
            return;
        }
        if L::is_data_seq(v) {
            let d = L::raw_data(v);
            out[off..off + d.len()].copy_from_slice(d);
            return;
        }
        match L::type_kind(ty) {
            10 if !L::is_cexpr(v) => {
                for i in 0..L::struct_len(ty) {
                    let o = L::offset_of(self.dl, ty, i) as usize;
                    self.init_bytes(L::aggregate_element(v, i), off + o, out);
                }
            }
            11 | 13 if !L::is_cexpr(v) => {
                let sz = L::abi_size(self.dl, L::elem_type(ty)) as usize;
                let n = if L::type_kind(ty) == 11 { L::array_len(ty) as u32 } else { L::vector_len(ty) };
                for i in 0..n {
                    self.init_bytes(L::aggregate_element(v, i), off + i as usize * sz, out);
                }
            }
            _ => {
                let mut o = vec![];
                self.constant(v, &mut o);
                let w = self.flatten(ty)[0].w as usize;
                let nb = (w + 7) / 8;
                match o[0] {
                    Opd::K(x) => out[off..off + nb].copy_from_slice(&x.to_le_bytes()[..nb]),
                    Opd::W(h, l) => {
                        let x = (h as u128) << 64 | l as u128;
                        out[off..off + nb].copy_from_slice(&x.to_le_bytes()[..nb])
                    }
                    _ => unreachable!(),
                }
            }
        }
    }

    pub fn decode(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].decoded {
            return f;
        }
        let f = Box::leak(Box::new(Decoder::run(self, id)));
        self.funcs[id as usize].decoded = Some(f);
        f
    }
}

struct Decoder<'a> {
    m: &'a Module,
    slots: HashMap<P, u32>,
    nslots: u32,
    code: Vec<Inst>,
    edges: Vec<Edge>,
    edge_src: Vec<(P, P)>, // (from block, to block)
}

impl<'a> Decoder<'a> {
    fn run(m: &'a Module, id: u32) -> Func {
        let fv = m.funcs[id as usize].val;
        let mut d = Decoder { m, slots: HashMap::new(), nslots: 0, code: vec![], edges: vec![], edge_src: vec![] };
        let mut param_w = vec![];
        for i in 0..L::count_params(fv) {
            let p = L::param(fv, i);
            let fl = m.flatten(L::type_of(p));
            d.slots.insert(p, d.nslots);
            d.nslots += fl.len() as u32;
            param_w.extend(fl.iter().map(|l| l.w));
        }
        let nparams = d.nslots;
        let mut blocks = vec![];
        let mut b = L::first_block(fv);
        while !b.is_null() {
            blocks.push(b);
            let mut i = L::first_inst(b);
            while !i.is_null() {
                let n = m.flatten(L::type_of(i)).len() as u32;
                d.slots.insert(i, d.nslots);
                d.nslots += n;
                i = L::next_inst(i);
            }
            b = L::next_block(b);
        }
        let mut starts = HashMap::new();
        for b in &blocks {
            starts.insert(*b, d.code.len() as u32);
            let mut i = L::first_inst(*b);
            while !i.is_null() {
                d.inst(*b, i);
                i = L::next_inst(i);
            }
        }
        for k in 0..d.edges.len() {
            let (from, to) = d.edge_src[k];
            d.edges[k].target = starts[&to];
            let mut moves = vec![];
            let mut i = L::first_inst(to);
            while !i.is_null() && L::opcode(i) == 44 {
                let dst = d.slots[&i];
                for j in 0..L::count_incoming(i) {
                    if L::incoming_block(i, j) == from {
                        for (n, o) in d.opds(L::incoming_value(i, j)).into_iter().enumerate() {
                            moves.push((dst + n as u32, o));
                        }
                        break;
                    }
                }
                i = L::next_inst(i);
            }
            d.edges[k].moves = moves;
        }
        Func {
            id,
            name: m.funcs[id as usize].name.clone(),
            nslots: d.nslots,
            nparams,
            param_w,
            code: d.code,
            edges: d.edges,
        }
    }
    fn opds(&self, v: P) -> Vec<Opd> {
        if let Some(&s) = self.slots.get(&v) {
            let n = self.m.flatten(L::type_of(v)).len() as u32;
            return (0..n).map(|i| Opd::S(s + i)).collect();
        }
        let mut o = vec![];
        if L::is_constant(v) {
            self.m.constant(v, &mut o);
        }
        o
    }
    fn opd(&self, v: P) -> Opd {
        let o = self.opds(v);
        if o.is_empty() {
            Opd::K(0)
        } else {
            o[0]
        }
    }
    fn edge(&mut self, from: P, to: P) -> u32 {
        self.edges.push(Edge { target: 0, moves: vec![] });
        self.edge_src.push((from, to));
        self.edges.len() as u32 - 1
    }
    fn trap(&mut self, i: P) {
        self.code.push(Inst::Trap(Box::new(L::print(i))));
    }

    fn inst(&mut self, b: P, i: P) {
        let ty = L::type_of(i);
        let dst = self.slots[&i];
        let fl = self.m.flatten(ty);
        let op = L::opcode(i);
        let o = |k: u32| L::operand(i, k);
        match op {
            1 => {
                let r = if L::num_operands(i) == 0 { vec![] } else { self.opds(o(0)) };
                self.code.push(Inst::Ret(Box::new(r)));
            }
            2 | 80 | 81 | 70 | 71 | 72 if L::num_successors(i) >= 1 => {
                if L::num_successors(i) == 1 {
                    let e = self.edge(b, L::successor(i, 0));
                    self.code.push(Inst::Br(e));
                } else {
                    let c = self.opd(L::condition(i));
                    let t = self.edge(b, L::successor(i, 0));
                    let f = self.edge(b, L::successor(i, 1));
                    self.code.push(Inst::CondBr { c, t, f });
                }
            }
            3 => {
                let v = self.opd(o(0));
                let w = L::int_width(L::type_of(o(0))) as u8;
                let def = self.edge(b, L::successor(i, 0));
                let mut cases = vec![];
                let mut by: HashMap<P, u32> = HashMap::new();
                by.insert(L::successor(i, 0), def);
                for k in 1..L::num_successors(i) {
                    let s = L::successor(i, k);
                    let e = match by.get(&s) {
                        Some(e) => *e,
                        None => {
                            let e = self.edge(b, s);
                            by.insert(s, e);
                            e
                        }
                    };
                    if w > 64 {
                        return self.trap(i);
                    }
                    cases.push((L::int_value(L::switch_case(i, k)), e));
                }
                self.code.push(Inst::Switch { v, w, def, cases: Box::new(cases) });
            }
            7 => self.code.push(Inst::Unreachable),
            8 | 9 | 10 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 18 | 19 | 20 | 21 | 22 | 23 | 24 | 25 => {
                let bo = match op {
                    8 => BinOp::Add,
                    9 => BinOp::FAdd,
                    10 => BinOp::Sub,
                    11 => BinOp::FSub,
                    12 => BinOp::Mul,
                    13 => BinOp::FMul,
                    14 => BinOp::UDiv,
                    15 => BinOp::SDiv,
                    16 => BinOp::FDiv,
                    17 => BinOp::URem,
                    18 => BinOp::SRem,
                    19 => BinOp::FRem,
                    20 => BinOp::Shl,
                    21 => BinOp::LShr,
                    22 => BinOp::AShr,
                    23 => BinOp::And,
                    24 => BinOp::Or,
                    _ => BinOp::Xor,
                };
                let (a, c) = (self.opds(o(0)), self.opds(o(1)));
                for (k, l) in fl.iter().enumerate() {
                    self.code.push(Inst::Bin { op: bo, w: l.w, dst: dst + k as u32, a: a[k], b: c[k] });
                }
            }
            66 => {
                let a = self.opds(o(0));
                for (k, l) in fl.iter().enumerate() {
                    self.code.push(Inst::Fneg { w: l.w, dst: dst + k as u32, a: a[k] });
                }
            }
            26 => {
                let t = L::allocated_type(i);
                let size = L::abi_size(self.m.dl, t);
                let n = self.opd(o(0));
                self.code.push(Inst::Alloca { dst, size, n });
            }
            27 => {
                if self.m.is_bitvec(ty) {
                    return self.trap(i);
                }
                let addr = self.opd(o(0));
                if let Opd::S(s) = addr {
                    assert!(s < dst || s >= dst + fl.len() as u32);
                }
                for (k, l) in fl.iter().enumerate() {
                    self.code.push(Inst::Load { dst: dst + k as u32, addr, off: l.off, w: l.w });
                }
            }
            28 => {
                let vt = L::type_of(o(0));
                if self.m.is_bitvec(vt) {
                    return self.trap(i);
                }
                let v = self.opds(o(0));
                let addr = self.opd(o(1));
                for (k, l) in self.m.flatten(vt).iter().enumerate() {
                    self.code.push(Inst::Store { addr, off: l.off, w: l.w, v: v[k] });
                }
            }
            29 => {
                if fl.len() != 1 {
                    return self.trap(i);
                }
                let this = &*self;
                let d = self.m.gep(i, |_, v| this.opd(v));
                self.code.push(Inst::Gep { dst, d: Box::new(d) });
            }
            30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 => {
                let co = match op {
                    30 => CastOp::Trunc,
                    31 => CastOp::ZExt,
                    32 => CastOp::SExt,
                    33 => CastOp::FpToUi,
                    34 => CastOp::FpToSi,
                    35 => CastOp::UiToFp,
                    36 => CastOp::SiToFp,
                    37 => CastOp::FpTrunc,
                    _ => CastOp::FpExt,
                };
                let a = self.opds(o(0));
                let f = self.m.flatten(L::type_of(o(0)));
                for (k, l) in fl.iter().enumerate() {
                    self.code.push(Inst::Cast { op: co, fw: f[k].w, tw: l.w, dst: dst + k as u32, a: a[k] });
                }
            }
            39 | 40 | 41 | 60 | 69 => {
                let a = self.opds(o(0));
                let f = self.m.flatten(L::type_of(o(0)));
                if a.len() == fl.len() && (0..a.len()).all(|k| f[k].w == fl[k].w) {
                    for k in 0..a.len() {
                        self.code.push(Inst::Move { dst: dst + k as u32, a: a[k] });
                    }
                } else if op != 41 {
                    for (k, l) in fl.iter().enumerate() {
                        let co = if l.w < f[k].w { CastOp::Trunc } else { CastOp::ZExt };
                        self.code.push(Inst::Cast { op: co, fw: f[k].w, tw: l.w, dst: dst + k as u32, a: a[k] });
                    }
                } else {
                    self.code.push(Inst::Recast {
                        dst,
                        dw: Box::new(fl.iter().map(|l| l.w).collect()),
                        src: Box::new(a.into_iter().zip(f.iter().map(|l| l.w)).collect()),
                    });
                }
            }
            42 => {
                let p = match L::icmp_pred(i) {
                    32 => Pred::Eq,
                    33 => Pred::Ne,
                    34 => Pred::Ugt,
                    35 => Pred::Uge,
                    36 => Pred::Ult,
                    37 => Pred::Ule,
                    38 => Pred::Sgt,
                    39 => Pred::Sge,
                    40 => Pred::Slt,
                    _ => Pred::Sle,
                };
                let (a, c) = (self.opds(o(0)), self.opds(o(1)));
                let f = self.m.flatten(L::type_of(o(0)));
                for k in 0..fl.len() {
                    self.code.push(Inst::Icmp { p, w: f[k].w, dst: dst + k as u32, a: a[k], b: c[k] });
                }
            }
            43 => {
                let p = L::fcmp_pred(i) as u8;
                let (a, c) = (self.opds(o(0)), self.opds(o(1)));
                let f = self.m.flatten(L::type_of(o(0)));
                for k in 0..fl.len() {
                    self.code.push(Inst::Fcmp { p, w: f[k].w, dst: dst + k as u32, a: a[k], b: c[k] });
                }
            }
            44 => {}
            45 | 5 => self.call(b, i, op == 5),
            46 => {
                let c = self.opds(o(0));
                let (x, y) = (self.opds(o(1)), self.opds(o(2)));
                for (k, l) in fl.iter().enumerate() {
                    let ck = if c.len() == 1 { c[0] } else { c[k] };
                    self.code.push(Inst::Select { w: l.w, dst: dst + k as u32, c: ck, a: x[k], b: y[k] });
                }
            }
            50 => {
                let src = self.opds(o(0));
                if L::is_int(o(1)) {
                    let k = L::int_value(o(1)) as usize;
                    self.code.push(Inst::Move { dst, a: src[k] });
                } else {
                    let iw = L::int_width(L::type_of(o(1))) as u8;
                    let idx = self.opd(o(1));
                    self.code.push(Inst::ExtractDyn { dst, w: fl[0].w, idx, iw, src: Box::new(src) });
                }
            }
            51 => {
                let src = self.opds(o(0));
                let v = self.opd(o(1));
                if L::is_int(o(2)) {
                    let k = L::int_value(o(2)) as usize;
                    for (j, s) in src.iter().enumerate() {
                        self.code.push(Inst::Move { dst: dst + j as u32, a: if j == k { v } else { *s } });
                    }
                } else {
                    let iw = L::int_width(L::type_of(o(2))) as u8;
                    let idx = self.opd(o(2));
                    self.code.push(Inst::InsertDyn { dst, w: fl[0].w, idx, iw, v, src: Box::new(src) });
                }
            }
            52 => {
                let mut src = self.opds(o(0));
                src.extend(self.opds(o(1)));
                let um = L::undef_mask();
                for k in 0..L::num_mask(i) {
                    let mv = L::mask_value(i, k);
                    let a = if mv == um || mv < 0 { Opd::K(0) } else { src[mv as usize] };
                    self.code.push(Inst::Move { dst: dst + k, a });
                }
            }
            53 => {
                let src = self.opds(o(0));
                let (start, n) = self.agg_pos(L::type_of(o(0)), i);
                for k in 0..n {
                    self.code.push(Inst::Move { dst: dst + k as u32, a: src[start + k] });
                }
            }
            54 => {
                let mut src = self.opds(o(0));
                let v = self.opds(o(1));
                let (start, n) = self.agg_pos(ty, i);
                for k in 0..n {
                    src[start + k] = v[k];
                }
                for (k, s) in src.iter().enumerate() {
                    self.code.push(Inst::Move { dst: dst + k as u32, a: *s });
                }
            }
            68 => {
                for (k, a) in self.opds(o(0)).into_iter().enumerate() {
                    self.code.push(Inst::Move { dst: dst + k as u32, a });
                }
            }
            55 => {}
            56 => {
                let w = self.m.flatten(L::type_of(o(1)))[0].w;
                let (addr, cmp, new) = (self.opd(o(0)), self.opd(o(1)), self.opd(o(2)));
                self.code.push(Inst::CmpXchg { w, dst, addr, cmp, new });
            }
            57 => {
                let (addr, v) = (self.opd(o(0)), self.opd(o(1)));
                self.code.push(Inst::Rmw { op: L::rmw_op(i) as u8, w: fl[0].w, dst, addr, v });
            }
            _ => self.trap(i),
        }
    }

    fn agg_pos(&self, ty: P, i: P) -> (usize, usize) {
        let n = L::num_indices(i);
        let idx = unsafe { std::slice::from_raw_parts(L::indices(i), n as usize) };
        let mut t = ty;
        let mut start = 0;
        for &k in idx {
            match L::type_kind(t) {
                10 => {
                    for j in 0..k {
                        start += self.m.flatten(L::struct_elem(t, j)).len();
                    }
                    t = L::struct_elem(t, k);
                }
                _ => {
                    let e = L::elem_type(t);
                    start += self.m.flatten(e).len() * k as usize;
                    t = e;
                }
            }
        }
        (start, self.m.flatten(t).len())
    }

    fn call(&mut self, b: P, i: P, invoke: bool) {
        let dst = self.slots[&i];
        let callee = L::called_value(i);
        let n = L::num_args(i);
        let fl = self.m.flatten(L::type_of(i));
        let next = if invoke {
            let e = self.edge(b, L::normal_dest(i));
            Some(e)
        } else {
            None
        };
        if L::is_asm(callee) {
            let mut args = vec![];
            for k in 0..n {
                args.extend(self.opds(L::operand(i, k)));
            }
            // the empty asm used by black_box and compiler fences is the identity
            self.code.push(Inst::Call(Box::new(CallData {
                target: Target::Asm(L::print(i)),
                args,
                arg_w: vec![],
                dst,
                ret_w: fl.iter().map(|l| l.w).collect(),
                next,
            })));
            return;
        }
        let fid = self.m.fn_by_val.get(&callee).copied();
        if let Some(f) = fid {
            let name = &self.m.funcs[f as usize].name;
            if name.starts_with("llvm.") {
                let name = name.clone();
                self.intrinsic(i, &name, dst, &fl, n);
                if let Some(e) = next {
                    self.code.push(Inst::Br(e));
                }
                return;
            }
        }
        let mut args = vec![];
        let mut arg_w = vec![];
        for k in 0..n {
            let a = L::operand(i, k);
            args.extend(self.opds(a));
            arg_w.extend(self.m.flatten(L::type_of(a)).iter().map(|l| l.w));
        }
        let target = match fid {
            Some(f) => Target::Fn(f),
            None => Target::Indirect(self.opd(callee)),
        };
        self.code.push(Inst::Call(Box::new(CallData {
            target,
            args,
            arg_w,
            dst,
            ret_w: fl.iter().map(|l| l.w).collect(),
            next,
        })));
    }

    fn intrinsic(&mut self, i: P, name: &str, dst: u32, fl: &[Leaf], n: u32) {
        let base = &name[5..];
        let arg = |k: u32| L::operand(i, k);
        let is = |p: &str| base == p || base.starts_with(&format!("{}.", p));
        for p in [
            "lifetime.start",
            "lifetime.end",
            "experimental.noalias.scope.decl",
            "invariant.start",
            "invariant.end",
            "prefetch",
            "x86.sse2.pause",
            "donothing",
            "dbg.value",
            "dbg.declare",
            "fake.use",
        ] {
            if is(p) {
                return;
            }
        }
        if is("assume") {
            let c = self.opd(arg(0));
            self.code.push(Inst::Assume { c });
            return;
        }
        if is("memcpy") || is("memmove") || is("memcpy.inline") {
            let (d, s, n) = (self.opd(arg(0)), self.opd(arg(1)), self.opd(arg(2)));
            self.code.push(Inst::MemCpy { dst: d, src: s, n });
            return;
        }
        if is("memset") {
            let (d, s, n) = (self.opd(arg(0)), self.opd(arg(1)), self.opd(arg(2)));
            self.code.push(Inst::MemSet { dst: d, v: s, n });
            return;
        }
        if is("threadlocal.address") || is("expect") || is("launder.invariant.group") || is("ssa.copy") {
            let a = self.opd(arg(0));
            self.code.push(Inst::Move { dst, a });
            return;
        }
        if is("is.constant") {
            self.code.push(Inst::Move { dst, a: Opd::K(0) });
            return;
        }
        for (p, k) in [
            ("uadd.with.overflow", Ovf::UAdd),
            ("usub.with.overflow", Ovf::USub),
            ("umul.with.overflow", Ovf::UMul),
            ("sadd.with.overflow", Ovf::SAdd),
            ("ssub.with.overflow", Ovf::SSub),
            ("smul.with.overflow", Ovf::SMul),
        ] {
            if is(p) {
                let (a, b) = (self.opd(arg(0)), self.opd(arg(1)));
                self.code.push(Inst::Overflow { op: k, w: fl[0].w, dst, a, b });
                return;
            }
        }
        if is("x86.sse2.pmovmskb.128") {
            let a = self.opds(arg(0));
            let s0 = self.nslots;
            self.nslots += a.len() as u32;
            for (k, x) in a.iter().enumerate() {
                self.code.push(Inst::Icmp { p: Pred::Slt, w: 8, dst: s0 + k as u32, a: *x, b: Opd::K(0) });
            }
            let mut src: Vec<(Opd, u8)> = (0..a.len() as u32).map(|k| (Opd::S(s0 + k), 1)).collect();
            src.push((Opd::K(0), 16));
            self.code.push(Inst::Recast { dst, dw: Box::new(vec![32]), src: Box::new(src) });
            return;
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let a = self.opds(arg(0));
            let w = fl[0].w;
            let kind = r.split('.').next().unwrap();
            let mut acc = a[0];
            for x in &a[1..] {
                let (bo, io) = match kind {
                    "add" => (Some(BinOp::Add), None),
                    "mul" => (Some(BinOp::Mul), None),
                    "and" => (Some(BinOp::And), None),
                    "or" => (Some(BinOp::Or), None),
                    "xor" => (Some(BinOp::Xor), None),
                    "umin" => (None, Some(Intr::UMin)),
                    "umax" => (None, Some(Intr::UMax)),
                    "smin" => (None, Some(Intr::SMin)),
                    "smax" => (None, Some(Intr::SMax)),
                    _ => return self.trap(i),
                };
                let t = self.nslots;
                self.nslots += 1;
                if let Some(op) = bo {
                    self.code.push(Inst::Bin { op, w, dst: t, a: acc, b: *x });
                } else {
                    self.code.push(Inst::Intrin { op: io.unwrap(), w, ow: w, dst: t, a: acc, b: *x, c: Opd::K(0) });
                }
                acc = Opd::S(t);
            }
            self.code.push(Inst::Move { dst, a: acc });
            return;
        }
        for (p, k) in [
            ("umin", Intr::UMin),
            ("umax", Intr::UMax),
            ("smin", Intr::SMin),
            ("smax", Intr::SMax),
            ("uadd.sat", Intr::UAddSat),
            ("usub.sat", Intr::USubSat),
            ("sadd.sat", Intr::SAddSat),
            ("ssub.sat", Intr::SSubSat),
            ("ctpop", Intr::Ctpop),
            ("ctlz", Intr::Ctlz),
            ("cttz", Intr::Cttz),
            ("bswap", Intr::Bswap),
            ("bitreverse", Intr::Bitrev),
            ("fshl", Intr::Fshl),
            ("fshr", Intr::Fshr),
            ("ucmp", Intr::Ucmp),
            ("scmp", Intr::Scmp),
            ("abs", Intr::Abs),
            ("fabs", Intr::FAbs),
            ("minnum", Intr::FMinNum),
            ("maxnum", Intr::FMaxNum),
            ("minimumnum", Intr::FMinNum),
            ("maximumnum", Intr::FMaxNum),
            ("sqrt", Intr::FSqrt),
            ("floor", Intr::FFloor),
            ("ceil", Intr::FCeil),
            ("trunc", Intr::FTrunc),
            ("round", Intr::FRound),
            ("copysign", Intr::FCopysign),
        ] {
            if is(p) {
                let xs: Vec<Vec<Opd>> = (0..n).map(|k| self.opds(arg(k))).collect();
                let aw = self.m.flatten(L::type_of(arg(0)));
                for (j, l) in fl.iter().enumerate() {
                    let g = |k: usize| -> Opd {
                        if k >= xs.len() {
                            Opd::K(0)
                        } else if xs[k].len() == 1 {
                            xs[k][0]
                        } else {
                            xs[k][j]
                        }
                    };
                    self.code.push(Inst::Intrin {
                        op: k,
                        w: aw[j].w,
                        ow: l.w,
                        dst: dst + j as u32,
                        a: g(0),
                        b: g(1),
                        c: g(2),
                    });
                }
                return;
            }
        }
        if is("fptoui.sat") || is("fptosi.sat") {
            let a = self.opd(arg(0));
            let fw = self.m.flatten(L::type_of(arg(0)))[0].w;
            let op = if is("fptoui.sat") { CastOp::FpToUi } else { CastOp::FpToSi };
            self.code.push(Inst::Cast { op, fw, tw: fl[0].w, dst, a });
            return;
        }
        self.trap(i);
    }
}
