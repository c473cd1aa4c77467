//! Symbolic execution of decoded LLVM functions: depth-first over feasible paths.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Answer, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(u64),
    E(Ex),
}
use Val::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Dead,
    Heap,
    Stack,
    Global,
    Const,
    Func,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<(Ex, u8)>, // empty, or one entry per byte
    pub epoch: u32,
    pub kind: Kind,
}

#[derive(Clone)]
struct Frame {
    f: &'static Func,
    pc: u32,
    base: u32,
    dst: u32,
    ret_n: u32,
    next: u32, // edge to follow in the caller on return (u32::MAX: fall through)
    stack_mark: u32,
    merge: u64, // id of the region this frame's return closes (0: none)
}

#[derive(Clone)]
enum Act {
    Goto(u32),
    Set(u32, Val),
    Input(u32, u64),
    Retry,
    Return(Rc<Outcome>), // resume a joined call's recorded result
}
#[derive(Clone)]
struct Alt {
    cons: Option<Ex>,
    model: Rc<Vec<u64>>,
    act: Act,
}
struct Choice {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    stack_objs: Vec<u32>,
    nobjs: usize,
    trail: usize,
    pins: usize,
    cons: usize,
    arena: usize,
    nvars: usize,
    inputs: usize,
    obs: usize,
    alts: Vec<Alt>,
    instrs: u64,
    regions: usize,
}

/// A region whose paths are explored to the function's return and then joined into one state.
struct Region {
    id: u64,
    arena: usize,
    instrs: u64,
    choice_floor: usize, // choices above this belong to the region
    cons: usize,
    nobjs: usize,
    trail: usize,
    outcomes: Vec<Rc<Outcome>>,
    lost: bool,
    frames: Vec<Frame>,
    regs: Vec<Val>,
    stack_objs: Vec<u32>,
    model: Rc<Vec<u64>>,
    pins: usize,
    inputs: usize,
    obs: usize,
    nvars: usize,
    call: CallRet,
}
#[derive(Clone)]
struct CallRet {
    dst: u32,
    widths: Vec<u8>,
    next: u32,
}
struct Outcome {
    cond: Ex,
    ret: Vec<Val>,
    writes: Vec<(u32, Rc<Obj>)>,
    model: Rc<Vec<u64>>,
    call: CallRet,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub inputs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub unknown_branches: u64,
    pub limit_paths: u64,
    pub max_path_instrs: u64,
    pub merged: u64,
    pub merge_failed: u64,
    pub deadline: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Icpt {
    Val,
    Choice,
    Concretize,
    Assume,
    Check,
    Reach,
    Observe,
    Done,
    Stub,
    Alloc,
    AllocZ,
    Malloc,
    Calloc,
    Realloc,
    CRealloc,
    Dealloc,
    MemAlign,
    Nop,
    Zero,
    Format,
    Hash,
    Panic,
    Memcmp,
    Strlen,
    Rand,
    RandKeys,
    Abort,
    Now,
    EmptyFormat,
    Merge,
    Errno,
    Blake,
}

pub struct Config {
    pub deadline: Instant,
    pub path_limit: u64,
    pub max_frames: usize,
    pub samples: usize,
    pub known: Vec<String>,
    pub merge: Vec<String>,
    pub ncpu: i32,
    pub max_violations: usize,
    pub trace: bool,
}

pub struct Shared {
    pub tokens: std::sync::atomic::AtomicI32,
    pub stop: std::sync::atomic::AtomicI32,
    pub paths: std::sync::atomic::AtomicU64,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub cfg: Config,
    pub st: Stats,
    icpt: Vec<Option<Icpt>>,
    objs: Vec<Rc<Obj>>,
    epoch: u32,
    epoch_ctr: u32,
    trail: Vec<(u32, Rc<Obj>)>,
    free_ids: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    stack_objs: Vec<u32>,
    pin_trail: Vec<(Ex, Ex)>,
    cons: Vec<Ex>,
    cons_vars: Vec<Rc<Vec<u32>>>,
    model: Rc<Vec<u64>>,
    inputs: Vec<(Val, u8)>,
    obs: Vec<Val>,
    choices: Vec<Choice>,
    regions: Vec<Region>,
    pub reached: HashSet<u32>,
    pub violations: Vec<Violation>,
    vkeys: HashSet<String>,
    pub unsupported: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub entered: HashMap<u32, u64>,
    path_start_instrs: u64,
    shared: *const Shared,
    pub children: Vec<i32>,
    pub is_child: bool,
    last_fork: Instant,
    format_on: bool,
    panic_ok: bool,
    rng: u64,
    last_fn: u32,
    returned: bool,
    region_ctr: u64,
}

enum Flow {
    Next,
    Jumped,
    End,
}

fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn s64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Exec {
    pub fn new(m: Module, sv: Solver, cfg: Config, shared: *const Shared) -> Exec {
        let mut ex = Exec {
            icpt: vec![],
            m,
            ar: Arena::new(),
            sv,
            cfg,
            st: Stats::default(),
            objs: vec![],
            epoch: 1,
            epoch_ctr: 1,
            trail: vec![],
            free_ids: vec![],
            regs: vec![],
            frames: vec![],
            stack_objs: vec![],
            pin_trail: vec![],
            cons: vec![],
            cons_vars: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            choices: vec![],
            regions: vec![],
            reached: HashSet::new(),
            violations: vec![],
            vkeys: HashSet::new(),
            unsupported: BTreeMap::new(),
            samples: vec![],
            entered: HashMap::new(),
            path_start_instrs: 0,
            shared,
            children: vec![],
            is_child: false,
            last_fork: Instant::now(),
            format_on: false,
            panic_ok: false,
            rng: 0x1234_5678_9abc_def1,
            last_fn: u32::MAX,
            returned: false,
            region_ctr: 0,
        };
        for i in 0..ex.m.funcs.len() {
            let ic = ex.classify(&ex.m.funcs[i].name.clone(), ex.m.funcs[i].defined);
            ex.icpt.push(ic);
            ex.objs.push(Rc::new(Obj { data: vec![], sym: vec![], epoch: 0, kind: Kind::Func }));
        }
        for g in ex.m.globals.clone() {
            let ty = crate::llvm::value_type(g);
            let size = crate::llvm::abi_size(ex.m.dl, ty) as usize;
            let mut data = vec![0u8; size];
            let mut kind = Kind::Global;
            if !crate::llvm::is_declaration(g) {
                let init = crate::llvm::initializer(g);
                ex.m.init_bytes(init, 0, &mut data);
                if crate::llvm::is_const_global(g) {
                    kind = Kind::Const;
                }
            }
            ex.objs.push(Rc::new(Obj { data, sym: vec![], epoch: 0, kind }));
        }
        ex
    }

    fn classify(&self, n: &str, defined: bool) -> Option<Icpt> {
        use Icpt::*;
        let c = |s: &str| n.contains(s);
        Some(match n {
            "vsym_val" => Val,
            "vsym_choice" => Choice,
            "vsym_concretize" => Concretize,
            "vsym_assume" => Assume,
            "vsym_check" => Check,
            "vsym_reach" => Reach,
            "vsym_observe" => Observe,
            "vsym_done" => Done,
            "vsym_stub" => Stub,
            "malloc" => Malloc,
            "calloc" => Calloc,
            "realloc" => CRealloc,
            "free" => Nop,
            "posix_memalign" => MemAlign,
            "memcmp" | "bcmp" => Memcmp,
            "strlen" => Strlen,
            "getrandom" => Rand,
            "abort" | "llvm.trap" | "exit" | "_exit" => Abort,
            "getenv" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" => Zero,
            "write" | "writev" if !defined => Zero,
            "__errno_location" if !defined => Errno,
            "__cxa_thread_atexit_impl" | "atexit" => Zero,
            "clock_gettime" => Now,
            _ => {
                if c("___rustc12___rust_alloc") {
                    Alloc
                } else if c("___rustc19___rust_alloc_zeroed") {
                    AllocZ
                } else if c("___rustc14___rust_dealloc") {
                    Dealloc
                } else if c("___rustc14___rust_realloc") {
                    Realloc
                } else if c("___rust_no_alloc_shim_is_unstable") || c("___rust_probestack") {
                    Nop
                } else if c("5alloc3fmt6format12format_inner") || c("11format_inner") || c("12format_inner") {
                    Format
                } else if crate::is_hash(n) {
                    Hash
                } else if crate::is_panic(n) {
                    Panic
                } else if c("hashmap_random_keys") {
                    RandKeys
                } else if crate::is_nop(n) {
                    Nop
                } else if defined && self.cfg.merge.iter().any(|p| n.contains(p.as_str())) {
                    Merge
                } else {
                    return None;
                }
            }
        })
    }

    // ---------- values ----------
    #[inline(always)]
    fn get(&mut self, o: Opd) -> Val {
        match o {
            Opd::K(k) => C(k),
            Opd::S(s) => {
                let b = self.frames[self.frames.len() - 1].base;
                let v = self.regs[(b + s) as usize];
                match v {
                    C(_) => v,
                    E(e) => self.resolve(e),
                }
            }
            Opd::W(h, l) => E(self.ar.konst(128, (h as u128) << 64 | l as u128)),
        }
    }
    fn getw(&mut self, o: Opd, w: u8) -> Val {
        match o {
            Opd::W(h, l) => E(self.ar.konst(w, (h as u128) << 64 | l as u128)),
            o => self.get(o),
        }
    }
    #[inline]
    fn resolve(&mut self, e: Ex) -> Val {
        let p = self.ar.pinned(e);
        if self.ar.width(p) <= 64 {
            if let Some(v) = self.ar.cval(p) {
                return C(v as u64);
            }
        }
        E(p)
    }
    #[inline]
    fn ex(&mut self, v: Val, w: u8) -> Ex {
        match v {
            C(k) => self.ar.konst(w, k as u128),
            E(e) => e,
        }
    }
    #[inline(always)]
    fn set(&mut self, s: u32, v: Val) {
        let b = self.frames[self.frames.len() - 1].base;
        self.regs[(b + s) as usize] = v;
    }
    fn mkval(&mut self, e: Ex) -> Val {
        self.resolve(e)
    }
    fn cwide(&self, v: Val) -> Option<u128> {
        match v {
            C(k) => Some(k as u128),
            E(e) => self.ar.cval(e),
        }
    }

    // ---------- path condition ----------
    fn pin(&mut self, e: Ex, v: u128) {
        let n = self.ar.nodes[e as usize];
        if n.op == Op::Const {
            return;
        }
        let k = self.ar.konst(n.w, v);
        if self.ar.pin[e as usize] == k {
            return;
        }
        self.pin_trail.push((e, self.ar.pin[e as usize]));
        self.ar.pin[e as usize] = k;
        let v = v & mask(n.w);
        match n.op {
            Op::Not => self.pin(n.a, !v),
            Op::And if n.w == 1 && v == 1 => {
                self.pin(n.a, 1);
                self.pin(n.b, 1);
            }
            Op::Or if n.w == 1 && v == 0 => {
                self.pin(n.a, 0);
                self.pin(n.b, 0);
            }
            Op::Eq if v == 1 => {
                if let Some(c) = self.ar.cval(n.b) {
                    self.pin(n.a, c);
                } else if let Some(c) = self.ar.cval(n.a) {
                    self.pin(n.b, c);
                }
            }
            Op::Concat => {
                let lw = self.ar.width(n.b);
                self.pin(n.b, v & mask(lw));
                self.pin(n.a, v >> lw);
            }
            Op::ZExt => {
                let w = self.ar.width(n.a);
                self.pin(n.a, v & mask(w));
            }
            _ => {}
        }
    }
    fn add_cons(&mut self, c: Ex) {
        if self.ar.cval(c).is_some() {
            return;
        }
        let mut vs = vec![];
        self.ar.vars(c, &mut vs);
        self.cons.push(c);
        self.cons_vars.push(Rc::new(vs));
        self.pin(c, 1);
    }
    fn eval(&mut self, e: Ex) -> u128 {
        self.ar.new_eval();
        let m = self.model.clone();
        self.ar.eval(e, &m)
    }
    /// Is `c` consistent with the path condition?
    fn feasible(&mut self, c: Ex) -> Result<Option<Rc<Vec<u64>>>, ()> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(if v == 1 { Some(self.model.clone()) } else { None });
        }
        if self.eval(c) == 1 {
            return Ok(Some(self.model.clone()));
        }
        let mut vars = vec![];
        self.ar.vars(c, &mut vars);
        let nv = self.ar.var_width.len();
        let mut inset = vec![false; nv];
        for v in &vars {
            inset[*v as usize] = true;
        }
        let mut used = vec![false; self.cons.len()];
        let mut slice = vec![c];
        loop {
            let mut grew = false;
            for i in 0..self.cons.len() {
                if used[i] {
                    continue;
                }
                if self.cons_vars[i].iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    slice.push(self.cons[i]);
                    for v in self.cons_vars[i].iter() {
                        if !inset[*v as usize] {
                            inset[*v as usize] = true;
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let vars: Vec<u32> = (0..nv as u32).filter(|v| inset[*v as usize]).collect();
        match self.sv.check(&mut self.ar, &slice, &vars) {
            Answer::Unsat => Ok(None),
            Answer::Unknown => {
                self.st.unknown_branches += 1;
                Err(())
            }
            Answer::Sat(m) => {
                let mut model = (*self.model).clone();
                model.resize(nv, 0);
                for (v, x) in m {
                    model[v as usize] = x;
                }
                Ok(Some(Rc::new(model)))
            }
        }
    }

    fn push_choice(&mut self, alts: Vec<Alt>) {
        self.st.forks += alts.len() as u64;
        self.epoch_ctr += 1;
        self.epoch = self.epoch_ctr;
        self.free_ids.clear();
        self.choices.push(Choice {
            frames: self.frames.clone(),
            regs: self.regs.clone(),
            stack_objs: self.stack_objs.clone(),
            nobjs: self.objs.len(),
            trail: self.trail.len(),
            pins: self.pin_trail.len(),
            cons: self.cons.len(),
            arena: self.ar.nodes.len(),
            nvars: self.ar.var_width.len(),
            inputs: self.inputs.len(),
            obs: self.obs.len(),
            alts,
            instrs: self.st.instrs - self.path_start_instrs,
            regions: self.regions.len(),
        });
    }

    fn restore_to(&mut self, trail: usize, pins: usize, cons: usize, nobjs: usize) {
        while self.trail.len() > trail {
            let (id, o) = self.trail.pop().unwrap();
            if (id as usize) < nobjs {
                self.objs[id as usize] = o;
            }
        }
        self.objs.truncate(nobjs);
        while self.pin_trail.len() > pins {
            let (e, old) = self.pin_trail.pop().unwrap();
            self.ar.pin[e as usize] = old;
        }
        self.cons.truncate(cons);
        self.cons_vars.truncate(cons);
        self.epoch_ctr += 1;
        self.epoch = self.epoch_ctr;
        self.free_ids.clear();
    }

    fn backtrack(&mut self) -> bool {
        loop {
            // a region with no more choices of its own is complete
            if let Some(r) = self.regions.last() {
                if self.choices.len() == r.choice_floor {
                    if self.finish_region() {
                        return true;
                    }
                    continue;
                }
            }
            let Some(ch) = self.choices.last_mut() else { return false };
            let Some(alt) = ch.alts.pop() else {
                self.choices.pop();
                continue;
            };
            let last = ch.alts.is_empty();
            let (trail, pins, cons, nobjs, arena, nvars, inputs, obs, instrs, regions) = (
                ch.trail, ch.pins, ch.cons, ch.nobjs, ch.arena, ch.nvars, ch.inputs, ch.obs, ch.instrs, ch.regions,
            );
            if last {
                let ch = self.choices.pop().unwrap();
                self.frames = ch.frames;
                self.regs = ch.regs;
                self.stack_objs = ch.stack_objs;
            } else {
                self.frames.clone_from(&ch.frames);
                self.regs.clone_from(&ch.regs);
                self.stack_objs.clone_from(&ch.stack_objs);
            }
            debug_assert!(regions >= self.regions.len());
            let _ = regions;
            self.restore_to(trail, pins, cons, nobjs);
            if self.regions.is_empty() {
                let sv = &self.sv;
                self.ar.truncate(arena, |z| sv.release(z));
                self.ar.var_width.truncate(nvars);
            }
            self.inputs.truncate(inputs);
            self.obs.truncate(obs);
            self.path_start_instrs = self.st.instrs - instrs;
            self.model = alt.model;
            if let Some(c) = alt.cons {
                self.add_cons(c);
            }
            match alt.act {
                Act::Goto(e) => self.follow(e),
                Act::Set(s, v) => {
                    self.set(s, v);
                    self.frames.last_mut().unwrap().pc += 1;
                }
                Act::Input(s, v) => {
                    self.inputs.push((C(v), 64));
                    self.set(s, C(v));
                    self.frames.last_mut().unwrap().pc += 1;
                }
                Act::Return(o) => self.resume_outcome(&o),
                Act::Retry => {}
            }
            return true;
        }
    }

    /// Decide a width-1 expression; forks when both values are possible.
    fn decide(&mut self, c: Ex, alt_act: impl FnOnce(bool) -> Act) -> bool {
        if let Some(v) = self.ar.cval(c) {
            return v == 1;
        }
        let v = self.eval(c) == 1;
        let nc = self.ar.not(c);
        let (this, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(other) {
            Ok(None) => self.pin(c, v as u128),
            Err(()) => self.add_cons(this),
            Ok(Some(m)) => {
                let act = alt_act(!v);
                self.push_choice(vec![Alt { cons: Some(other), model: m, act }]);
                self.add_cons(this);
            }
        }
        v
    }

    /// Fork until `v` is a constant. Only before the current instruction has had any effect.
    fn concretize(&mut self, v: Val, w: u8) -> u64 {
        match v {
            C(k) => k,
            E(e) => {
                let e = self.ar.pinned(e);
                if let Some(k) = self.ar.cval(e) {
                    return k as u64;
                }
                let k = self.eval(e);
                let kk = self.ar.konst(w, k);
                let eq = self.ar.bin(Op::Eq, e, kk);
                let ne = self.ar.not(eq);
                match self.feasible(ne) {
                    Ok(None) => self.pin(e, k),
                    Err(()) => self.add_cons(eq),
                    Ok(Some(m)) => {
                        self.push_choice(vec![Alt { cons: Some(ne), model: m, act: Act::Retry }]);
                        self.add_cons(eq);
                        self.pin(e, k);
                    }
                }
                k as u64
            }
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, size: u64, kind: Kind) -> Option<u64> {
        if size > (1 << 28) {
            return None;
        }
        let o = Obj { data: vec![0; size as usize], sym: vec![], epoch: self.epoch, kind };
        let id = if let Some(id) = self.free_ids.pop() {
            self.objs[id as usize] = Rc::new(o);
            id
        } else {
            self.objs.push(Rc::new(o));
            self.objs.len() as u32 - 1
        };
        Some(obj_addr(id))
    }
    fn obj_mut(&mut self, id: u32) -> &mut Obj {
        let ep = self.epoch;
        let o = &mut self.objs[id as usize];
        if o.epoch != ep {
            self.trail.push((id, o.clone()));
            let m = Rc::make_mut(o);
            m.epoch = ep;
            return m;
        }
        Rc::make_mut(o)
    }
    fn kill(&mut self, id: u32) {
        let o = &self.objs[id as usize];
        if o.epoch == self.epoch {
            self.objs[id as usize] =
                Rc::new(Obj { data: vec![], sym: vec![], epoch: self.epoch, kind: Kind::Dead });
            // reusable: no saved state refers to it
            if self.choices.last().map_or(true, |c| id as usize >= c.nobjs)
                && self.regions.last().map_or(true, |c| id as usize >= c.nobjs)
            {
                if id as usize == self.objs.len() - 1 {
                    self.objs.pop();
                } else {
                    self.free_ids.push(id);
                }
            }
        } else {
            let ep = self.epoch;
            let old = std::mem::replace(
                &mut self.objs[id as usize],
                Rc::new(Obj { data: vec![], sym: vec![], epoch: ep, kind: Kind::Dead }),
            );
            self.trail.push((id, old));
        }
    }
    fn locate(&self, addr: u64, n: u64) -> Result<(u32, usize), String> {
        let hi = addr >> 32;
        let off = addr & 0xffff_ffff;
        if hi == 0 || hi > self.objs.len() as u64 {
            return Err(format!("invalid pointer 0x{:x}", addr));
        }
        let id = (hi - 1) as u32;
        let o = &self.objs[id as usize];
        if o.kind == Kind::Dead {
            return Err("use after free".into());
        }
        if off + n > o.data.len() as u64 {
            return Err(format!("out of bounds access: {} bytes at {} of {} ({:?})", n, off, o.data.len(), o.kind));
        }
        Ok((id, off as usize))
    }
    fn read(&mut self, addr: u64, w: u8) -> Result<Val, String> {
        let nb = (w as usize + 7) / 8;
        let (id, off) = self.locate(addr, nb as u64)?;
        let o = &self.objs[id as usize];
        if o.sym.is_empty() || o.sym[off..off + nb].iter().all(|s| s.0 == NONE) {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..nb].copy_from_slice(&o.data[off..off + nb]);
                return Ok(C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..nb].copy_from_slice(&o.data[off..off + nb]);
            let v = u128::from_le_bytes(b);
            return Ok(E(self.ar.konst(w, v)));
        }
        // whole expression?
        let (e0, i0) = o.sym[off];
        if e0 != NONE
            && i0 == 0
            && self.ar.width(e0) as usize == nb * 8
            && (1..nb).all(|k| o.sym[off + k] == (e0, k as u8))
        {
            let e = self.ar.pinned(e0);
            let e = if w as usize == nb * 8 { e } else { self.ar.extract(e, 0, w) };
            return Ok(self.mkval(e));
        }
        let o = o.clone();
        let mut acc: Option<Ex> = None;
        // group runs of bytes of one expression, from the low end
        let mut k = 0;
        while k < nb {
            let (e, i) = o.sym[off + k];
            let mut n = 1;
            let part = if e == NONE {
                while k + n < nb && o.sym[off + k + n].0 == NONE {
                    n += 1;
                }
                let mut v = 0u128;
                for j in 0..n {
                    v |= (o.data[off + k + j] as u128) << (8 * j);
                }
                self.ar.konst((n * 8) as u8, v)
            } else {
                while k + n < nb && o.sym[off + k + n] == (e, i + n as u8) {
                    n += 1;
                }
                let p = self.ar.pinned(e);
                self.ar.extract(p, i * 8, (n * 8) as u8)
            };
            acc = Some(match acc {
                None => part,
                Some(a) => self.ar.concat(part, a),
            });
            k += n;
        }
        let mut e = acc.unwrap();
        if (w as usize) < nb * 8 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.mkval(e))
    }
    fn write(&mut self, addr: u64, w: u8, v: Val) -> Result<(), String> {
        let nb = (w as usize + 7) / 8;
        let (id, off) = self.locate(addr, nb as u64)?;
        if self.objs[id as usize].kind == Kind::Const {
            return Err("write to constant memory".into());
        }
        if let E(e) = v {
            if let Some(k) = self.ar.cval(e) {
                let o = self.obj_mut(id);
                o.data[off..off + nb].copy_from_slice(&k.to_le_bytes()[..nb]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + nb] {
                        *s = (NONE, 0)
                    }
                }
                return Ok(());
            }
        }
        match v {
            C(k) => {
                let o = self.obj_mut(id);
                o.data[off..off + nb].copy_from_slice(&k.to_le_bytes()[..nb]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + nb] {
                        *s = (NONE, 0)
                    }
                }
            }
            E(e) => {
                let e = if w as usize == nb * 8 { e } else { self.ar.zext(e, (nb * 8) as u8) };
                let o = self.obj_mut(id);
                if o.sym.is_empty() {
                    o.sym = vec![(NONE, 0); o.data.len()];
                }
                for k in 0..nb {
                    o.sym[off + k] = (e, k as u8);
                }
            }
        }
        Ok(())
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.locate(src, n)?;
        let (did, d) = self.locate(dst, n)?;
        if self.objs[did as usize].kind == Kind::Const {
            return Err("write to constant memory".into());
        }
        let n = n as usize;
        let s = self.objs[sid as usize].clone();
        let o = self.obj_mut(did);
        o.data[d..d + n].copy_from_slice(&s.data[so..so + n]);
        let s_sym = !s.sym.is_empty() && s.sym[so..so + n].iter().any(|x| x.0 != NONE);
        if s_sym {
            if o.sym.is_empty() {
                o.sym = vec![(NONE, 0); o.data.len()];
            }
            o.sym[d..d + n].copy_from_slice(&s.sym[so..so + n]);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[d..d + n] {
                *x = (NONE, 0);
            }
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (id, off) = self.locate(addr, n).ok()?;
        Some(self.objs[id as usize].data[off..off + n as usize].to_vec())
    }

    // ---------- violations ----------
    fn input_values(&mut self, model: &[u64]) -> Vec<u64> {
        self.ar.new_eval();
        let ins = self.inputs.clone();
        let r = ins
            .iter()
            .map(|(v, _)| match v {
                C(k) => *k,
                E(e) => self.ar.eval(*e, model) as u64,
            })
            .collect();
        self.ar.new_eval();
        r
    }
    fn violation(&mut self, key: String, model: Rc<Vec<u64>>) {
        if self.vkeys.insert(key.clone()) {
            let inputs = self.input_values(&model);
            if self.cfg.trace {
                let st: Vec<&str> = self.frames.iter().rev().map(|f| f.f.name.as_str()).collect();
                eprintln!("violation {} stack {:#?} inputs {:?}", key, st, inputs);
            }
            let known = self.cfg.known.iter().any(|k| *k == key);
            self.violations.push(Violation { key, inputs });
            if !known {
                unsafe { (*self.shared).stop.fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
            }
        }
    }
    fn unsup(&mut self, what: String) -> Flow {
        if self.cfg.trace {
            let st: Vec<String> = self.frames.iter().rev().map(|f| format!("{}+{}", f.f.name, f.pc)).collect();
            eprintln!("unsupported {} stack {:#?}", what, st);
        }
        *self.unsupported.entry(what).or_insert(0) += 1;
        Flow::End
    }
    fn mem_error(&mut self, e: String) -> Flow {
        let f = self.frames.last().unwrap();
        let key = format!("memory error: {} in {}", e, crate::demangle(&f.f.name));
        let m = self.model.clone();
        self.violation(key, m);
        Flow::End
    }

    // ---------- control ----------
    fn follow(&mut self, edge: u32) {
        let n = self.frames.len() - 1;
        let f = self.frames[n].f;
        let e = &f.edges[edge as usize];
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.getw(e.moves[0].1, 128);
                self.set(e.moves[0].0, v);
            }
            _ => {
                let mut tmp: smallbuf::Buf = smallbuf::Buf::new();
                for (_, o) in &e.moves {
                    let v = self.getw(*o, 128);
                    tmp.push(v);
                }
                for (k, (d, _)) in e.moves.iter().enumerate() {
                    self.set(*d, tmp.get(k));
                }
            }
        }
        self.frames[n].pc = e.target;
    }
    fn push_frame(&mut self, f: &'static Func, args: &[Val], dst: u32, ret_n: u32, next: u32) -> bool {
        if self.frames.len() >= self.cfg.max_frames {
            return false;
        }
        let base = self.regs.len() as u32;
        self.regs.resize((base + f.nslots) as usize, C(0));
        for (i, a) in args.iter().enumerate() {
            if i < f.nparams as usize {
                self.regs[base as usize + i] = *a;
            }
        }
        self.frames.push(Frame {
            f,
            pc: 0,
            base,
            dst,
            ret_n,
            next,
            stack_mark: self.stack_objs.len() as u32,
            merge: 0,
        });
        if self.last_fn != f.id {
            *self.entered.entry(f.id).or_insert(0) += 1;
            self.last_fn = f.id;
        }
        true
    }

    pub fn start(&mut self, fid: u32) {
        let f = self.m.decode(fid);
        self.push_frame(f, &[], 0, 0, u32::MAX);
    }

    pub fn run(&mut self) {
        loop {
            self.returned = false;
            self.run_path();
            if !self.returned {
                // a path inside a joined call ended before the return
                for r in &mut self.regions {
                    r.lost = true;
                }
            }
            self.st.max_path_instrs = self.st.max_path_instrs.max(self.st.instrs - self.path_start_instrs);
            unsafe {
                if (*self.shared).stop.load(std::sync::atomic::Ordering::Relaxed) > 0 {
                    return;
                }
            }
            if Instant::now() > self.cfg.deadline {
                if self.choices.iter().any(|c| !c.alts.is_empty()) {
                    self.st.deadline = true;
                }
                return;
            }
            self.maybe_split();
            if !self.backtrack() {
                return;
            }
        }
    }

    fn maybe_split(&mut self) {
        if self.cfg.ncpu <= 1 {
            return;
        }
        let sh = unsafe { &*self.shared };
        use std::sync::atomic::Ordering::SeqCst;
        if sh.tokens.load(SeqCst) <= 0 || self.last_fork.elapsed().as_millis() < 10 {
            return;
        }
        let floor = self.regions.first().map_or(usize::MAX, |r| r.choice_floor);
        let Some(j) = self.choices.iter().position(|c| !c.alts.is_empty()) else { return };
        if j >= floor {
            return;
        }
        // keep something for ourselves
        let total: usize = self.choices.iter().map(|c| c.alts.len()).sum();
        if total < 2 {
            return;
        }
        if sh.tokens.fetch_sub(1, SeqCst) <= 0 {
            sh.tokens.fetch_add(1, SeqCst);
            return;
        }
        self.last_fork = Instant::now();
        let n = self.choices[j].alts.len();
        let give = if n > 1 { n / 2 } else { 1 };
        let pid = unsafe { fork() };
        if pid == 0 {
            self.choices.truncate(j + 1);
            self.choices[j].alts.drain(..n - give);
            self.regions.clear();
            self.is_child = true;
            self.children.clear();
            self.st = Stats::default();
            self.path_start_instrs = 0;
            self.violations.clear();
            self.samples.clear();
            self.unsupported.clear();
            self.entered.clear();
            self.last_fn = u32::MAX;
            self.sv.reset_stats();
            // current path belongs to the parent: drop it
            self.st.instrs = self.choices[j].instrs + 1;
            self.rng ^= std::process::id() as u64 * 0x9E3779B97F4A7C15;
            return;
        }
        if pid < 0 {
            sh.tokens.fetch_add(1, SeqCst);
            return;
        }
        self.children.push(pid);
        self.choices[j].alts.truncate(n - give);
    }

    fn sample_path(&mut self) {
        if self.cfg.samples == 0 {
            return;
        }
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let slot = if self.samples.len() < self.cfg.samples {
            self.samples.push((vec![], vec![]));
            self.samples.len() - 1
        } else {
            let r = (self.rng >> 33) % (self.st.paths + 1);
            if r as usize >= self.cfg.samples {
                return;
            }
            r as usize
        };
        let m = self.model.clone();
        let ins = self.input_values(&m);
        self.ar.new_eval();
        let obs = self.obs.clone();
        let o = obs
            .iter()
            .map(|v| match v {
                C(k) => *k,
                E(e) => self.ar.eval(*e, &m) as u64,
            })
            .collect();
        self.ar.new_eval();
        self.samples[slot] = (ins, o);
    }

    fn run_path(&mut self) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick >= 200_000 {
                self.st.instrs += tick as u64;
                tick = 0;
                if self.st.instrs - self.path_start_instrs > self.cfg.path_limit {
                    self.st.limit_paths += 1;
                    if self.cfg.trace {
                        let st: Vec<&str> = self.frames.iter().rev().map(|f| f.f.name.as_str()).collect();
                        eprintln!("path limit: stack {:#?}", st);
                    }
                    return;
                }
                if Instant::now() > self.cfg.deadline {
                    self.st.deadline = true;
                    return;
                }
                unsafe {
                    if (*self.shared).stop.load(std::sync::atomic::Ordering::Relaxed) > 0 {
                        return;
                    }
                }
            }
            let n = self.frames.len() - 1;
            let f = self.frames[n].f;
            let pc = self.frames[n].pc;
            let inst = &f.code[pc as usize];
            match self.step(inst) {
                Flow::Next => self.frames[n].pc = pc + 1,
                Flow::Jumped => {}
                Flow::End => {
                    self.st.instrs += tick as u64;
                    return;
                }
            }
        }
    }

    #[inline]
    fn step(&mut self, inst: &'static Inst) -> Flow {
        match inst {
            Inst::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.getw(*a, *w), self.getw(*b, *w));
                if let (C(x), C(y)) = (x, y) {
                    if *w <= 64 {
                        if let Some(r) = bin64(*op, *w, x, y) {
                            self.set(*dst, C(r));
                            return Flow::Next;
                        }
                    }
                }
                return self.bin_slow(*op, *w, *dst, x, y);
            }
            Inst::Icmp { p, w, dst, a, b } => {
                let (x, y) = (self.getw(*a, *w), self.getw(*b, *w));
                if let (C(x), C(y)) = (x, y) {
                    let r = cmp64(*p, *w, x, y);
                    self.set(*dst, C(r as u64));
                    return Flow::Next;
                }
                let (x, y) = (self.ex(x, *w), self.ex(y, *w));
                let e = self.icmp(*p, x, y);
                let v = self.mkval(e);
                self.set(*dst, v);
            }
            Inst::Select { w, dst, c, a, b } => {
                let cv = self.get(*c);
                match cv {
                    C(k) => {
                        let v = if k & 1 == 1 { self.getw(*a, *w) } else { self.getw(*b, *w) };
                        self.set(*dst, v);
                    }
                    E(ce) => {
                        let (x, y) = (self.getw(*a, *w), self.getw(*b, *w));
                        let (x, y) = (self.ex(x, *w), self.ex(y, *w));
                        let e = self.ar.ite(ce, x, y);
                        let v = self.mkval(e);
                        self.set(*dst, v);
                    }
                }
            }
            Inst::Cast { op, fw, tw, dst, a } => {
                let x = self.getw(*a, *fw);
                return self.cast(*op, *fw, *tw, *dst, x);
            }
            Inst::Move { dst, a } => {
                let v = self.getw(*a, 128);
                self.set(*dst, v);
            }
            Inst::Load { dst, addr, off, w } => {
                let a = self.get(*addr);
                match a {
                    C(p) => match self.read(p.wrapping_add(*off as u64), *w) {
                        Ok(v) => self.set(*dst, v),
                        Err(e) => return self.mem_error(e),
                    },
                    E(e) => match self.load_sym(e, *off as u64, *w) {
                        Ok(v) => self.set(*dst, v),
                        Err(e) => return self.mem_error(e),
                    },
                }
            }
            Inst::Store { addr, off, w, v } => {
                let a = self.get(*addr);
                let p = self.concretize(a, 64);
                let x = self.getw(*v, *w);
                if let Err(e) = self.write(p.wrapping_add(*off as u64), *w, x) {
                    return self.mem_error(e);
                }
            }
            Inst::Gep { dst, d } => {
                let b = self.get(d.base);
                let mut acc = match b {
                    C(p) => C(p.wrapping_add(d.off)),
                    E(e) if d.off != 0 => {
                        let k = self.ar.konst(64, d.off as u128);
                        let e = self.ar.bin(Op::Add, e, k);
                        self.mkval(e)
                    }
                    v => v,
                };
                for (o, w, s) in &d.idx {
                    let i = self.get(*o);
                    match (acc, i) {
                        (C(p), C(i)) => acc = C(p.wrapping_add((s64(i, *w) as u64).wrapping_mul(*s))),
                        _ => {
                            let i = self.ex(i, *w);
                            let i = self.ar.sext(i, 64);
                            let k = self.ar.konst(64, *s as u128);
                            let t = self.ar.bin(Op::Mul, i, k);
                            let p = self.ex(acc, 64);
                            let e = self.ar.bin(Op::Add, p, t);
                            acc = self.mkval(e);
                        }
                    }
                }
                self.set(*dst, acc);
            }
            Inst::Br(e) => {
                self.follow(*e);
                return Flow::Jumped;
            }
            Inst::CondBr { c, t, f } => {
                let v = self.get(*c);
                let b = match v {
                    C(k) => k & 1 == 1,
                    E(e) => self.decide(e, |b| Act::Goto(if b { *t } else { *f })),
                };
                self.follow(if b { *t } else { *f });
                return Flow::Jumped;
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.get(*v);
                match x {
                    C(k) => {
                        let mut e = *def;
                        for (cv, ce) in cases.iter() {
                            if *cv == k {
                                e = *ce;
                                break;
                            }
                        }
                        self.follow(e);
                    }
                    E(x) => {
                        let e = self.switch(x, *w, *def, cases);
                        match e {
                            Some(e) => self.follow(e),
                            None => return Flow::End,
                        }
                    }
                }
                return Flow::Jumped;
            }
            Inst::Call(c) => return self.call(c),
            Inst::Ret(os) => return self.ret(os),
            Inst::Alloca { dst, size, n } => {
                let k = self.get(*n);
                let k = self.concretize(k, 64);
                match self.alloc(size * k, Kind::Stack) {
                    Some(p) => {
                        self.stack_objs.push(((p >> 32) - 1) as u32);
                        self.set(*dst, C(p));
                    }
                    None => return self.unsup("huge alloca".into()),
                }
            }
            Inst::Overflow { op, w, dst, a, b } => {
                let (x, y) = (self.getw(*a, *w), self.getw(*b, *w));
                return self.overflow(*op, *w, *dst, x, y);
            }
            Inst::Intrin { op, w, ow, dst, a, b, c } => {
                let (x, y, z) = (self.getw(*a, *w), self.getw(*b, *w), self.getw(*c, *w));
                return self.intrin(*op, *w, *ow, *dst, x, y, z);
            }
            Inst::MemCpy { dst, src, n } => {
                let (d, s, n) = (self.get(*dst), self.get(*src), self.get(*n));
                let n = self.concretize(n, 64);
                if n == 0 {
                    return Flow::Next;
                }
                let d = self.concretize(d, 64);
                let s = self.concretize(s, 64);
                if let Err(e) = self.copy(d, s, n) {
                    return self.mem_error(e);
                }
            }
            Inst::MemSet { dst, v, n } => {
                let (d, v, n) = (self.get(*dst), self.get(*v), self.get(*n));
                let n = self.concretize(n, 64);
                if n == 0 {
                    return Flow::Next;
                }
                let d = self.concretize(d, 64);
                let (id, off) = match self.locate(d, n) {
                    Ok(x) => x,
                    Err(e) => return self.mem_error(e),
                };
                let n = n as usize;
                match v {
                    C(k) => {
                        let o = self.obj_mut(id);
                        o.data[off..off + n].fill(k as u8);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n].fill((NONE, 0));
                        }
                    }
                    E(e) => {
                        let o = self.obj_mut(id);
                        if o.sym.is_empty() {
                            o.sym = vec![(NONE, 0); o.data.len()];
                        }
                        o.sym[off..off + n].fill((e, 0));
                    }
                }
            }
            Inst::Assume { .. } => {}
            Inst::Recast { dst, dw, src } => {
                let mut acc: u128 = 0;
                let mut sh = 0u32;
                let mut conc = true;
                for (o, w) in src.iter() {
                    let v = self.getw(*o, *w);
                    match self.cwide(v) {
                        Some(k) => acc |= (k & mask(*w)) << sh,
                        None => {
                            conc = false;
                            break;
                        }
                    }
                    sh += *w as u32;
                    if sh > 128 {
                        return self.unsup("recast wider than 128".into());
                    }
                }
                if conc {
                    let mut sh = 0;
                    for (k, w) in dw.iter().enumerate() {
                        let x = (acc >> sh) & mask(*w);
                        let v = if *w <= 64 { C(x as u64) } else { E(self.ar.konst(*w, x)) };
                        self.set(*dst + k as u32, v);
                        sh += *w as u32;
                    }
                } else {
                    let mut e: Option<Ex> = None;
                    for (o, w) in src.iter() {
                        let v = self.getw(*o, *w);
                        let x = self.ex(v, *w);
                        e = Some(match e {
                            None => x,
                            Some(a) => self.ar.concat(x, a),
                        });
                    }
                    let e = e.unwrap();
                    let mut sh = 0;
                    for (k, w) in dw.iter().enumerate() {
                        let x = self.ar.extract(e, sh, *w);
                        let v = self.mkval(x);
                        self.set(*dst + k as u32, v);
                        sh += *w;
                    }
                }
            }
            Inst::ExtractDyn { dst, w: _, idx, iw, src } => {
                let i = self.get(*idx);
                let k = self.concretize(i, *iw) as usize;
                if k >= src.len() {
                    return self.mem_error("extractelement index".into());
                }
                let v = self.get(src[k]);
                self.set(*dst, v);
            }
            Inst::InsertDyn { dst, w: _, idx, iw, v, src } => {
                let i = self.get(*idx);
                let k = self.concretize(i, *iw) as usize;
                for j in 0..src.len() {
                    let x = if j == k { self.get(*v) } else { self.get(src[j]) };
                    self.set(*dst + j as u32, x);
                }
            }
            Inst::Rmw { op, w, dst, addr, v } => {
                let a = self.get(*addr);
                let p = self.concretize(a, 64);
                let old = match self.read(p, *w) {
                    Ok(v) => v,
                    Err(e) => return self.mem_error(e),
                };
                let x = self.get(*v);
                let (oe, xe) = (self.ex(old, *w), self.ex(x, *w));
                let r = match op {
                    0 => xe,
                    1 => self.ar.bin(Op::Add, oe, xe),
                    2 => self.ar.bin(Op::Sub, oe, xe),
                    3 => self.ar.bin(Op::And, oe, xe),
                    5 => self.ar.bin(Op::Or, oe, xe),
                    6 => self.ar.bin(Op::Xor, oe, xe),
                    9 | 10 => {
                        let c = self.ar.bin(Op::Ult, oe, xe);
                        if *op == 9 {
                            self.ar.ite(c, xe, oe)
                        } else {
                            self.ar.ite(c, oe, xe)
                        }
                    }
                    _ => return self.unsup(format!("atomicrmw {}", op)),
                };
                let r = self.mkval(r);
                if let Err(e) = self.write(p, *w, r) {
                    return self.mem_error(e);
                }
                self.set(*dst, old);
            }
            Inst::CmpXchg { w, dst, addr, cmp, new } => {
                let a = self.get(*addr);
                let p = self.concretize(a, 64);
                let old = match self.read(p, *w) {
                    Ok(v) => v,
                    Err(e) => return self.mem_error(e),
                };
                let c = self.get(*cmp);
                let (oe, ce) = (self.ex(old, *w), self.ex(c, *w));
                let eq = self.ar.bin(Op::Eq, oe, ce);
                let eqv = self.mkval(eq);
                let k = self.concretize(eqv, 1);
                if k == 1 {
                    let nv = self.get(*new);
                    if let Err(e) = self.write(p, *w, nv) {
                        return self.mem_error(e);
                    }
                }
                self.set(*dst, old);
                self.set(*dst + 1, C(k));
            }
            Inst::Fcmp { p, w, dst, a, b } => {
                let (x, y) = (self.get(*a), self.get(*b));
                if let (C(x), C(y)) = (x, y) {
                    let r = fcmp(*p, *w, x, y);
                    self.set(*dst, C(r as u64));
                } else {
                    let (x, y) = (self.ex(x, *w), self.ex(y, *w));
                    let e = self.fcmp_sym(*p, *w, x, y);
                    let v = self.mkval(e);
                    self.set(*dst, v);
                }
            }
            Inst::Fneg { w, dst, a } => {
                let x = self.get(*a);
                match x {
                    C(k) => self.set(*dst, C(k ^ (1u64 << (w - 1)))),
                    E(e) => {
                        let k = self.ar.konst(*w, 1u128 << (w - 1));
                        let r = self.ar.bin(Op::Xor, e, k);
                        let v = self.mkval(r);
                        self.set(*dst, v);
                    }
                }
            }
            Inst::Unreachable => {
                let f = self.frames.last().unwrap();
                let key = format!("unreachable code reached in {}", crate::demangle(&f.f.name));
                let m = self.model.clone();
                self.violation(key, m);
                return Flow::End;
            }
            Inst::Trap(s) => return self.unsup(format!("instruction {}", s.trim())),
        }
        Flow::Next
    }

    fn icmp(&mut self, p: Pred, x: Ex, y: Ex) -> Ex {
        let ar = &mut self.ar;
        match p {
            Pred::Eq => ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = ar.bin(Op::Eq, x, y);
                ar.not(e)
            }
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ule => ar.bin(Op::Ule, x, y),
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => ar.bin(Op::Ule, y, x),
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sle => ar.bin(Op::Sle, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => ar.bin(Op::Sle, y, x),
        }
    }

    fn bin_slow(&mut self, op: BinOp, w: u8, dst: u32, x: Val, y: Val) -> Flow {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::FAdd if matches!(x, C(0)) || matches!(y, C(0)) => {
                let e = if matches!(x, C(0)) { self.ex(y, w) } else { self.ex(x, w) };
                let r = self.fadd_zero(w, e);
                let v = self.mkval(r);
                self.set(dst, v);
                return Flow::Next;
            }
            _ => return self.unsup("symbolic floating-point arithmetic".into()),
        };
        let (x, y) = (self.ex(x, w), self.ex(y, w));
        let e = self.ar.bin(o, x, y);
        let v = self.mkval(e);
        self.set(dst, v);
        Flow::Next
    }

    fn cast(&mut self, op: CastOp, fw: u8, tw: u8, dst: u32, x: Val) -> Flow {
        if let C(k) = x {
            if tw <= 64 {
                let r = match op {
                    CastOp::Trunc => k & m64(tw),
                    CastOp::ZExt => k,
                    CastOp::SExt => (s64(k, fw) as u64) & m64(tw),
                    CastOp::FpToUi => {
                        let f = fval(fw, k);
                        let lim = (tw as i32).min(64);
                        let max = if lim == 64 { u64::MAX } else { (1u64 << lim) - 1 };
                        (f as u64).min(max)
                    }
                    CastOp::FpToSi => {
                        let f = fval(fw, k) as i64;
                        let (lo, hi) = if tw >= 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (tw - 1)), (1i64 << (tw - 1)) - 1) };
                        (f.clamp(lo, hi) as u64) & m64(tw)
                    }
                    CastOp::UiToFp => fbits(tw, if tw == 32 { k as f32 as f64 } else { k as f64 }),
                    CastOp::SiToFp => {
                        let s = s64(k, fw);
                        fbits(tw, if tw == 32 { s as f32 as f64 } else { s as f64 })
                    }
                    CastOp::FpTrunc | CastOp::FpExt => fbits(tw, fval(fw, k)),
                };
                self.set(dst, C(r));
                return Flow::Next;
            }
        }
        let e = self.ex(x, fw);
        let r = match op {
            CastOp::Trunc => self.ar.extract(e, 0, tw),
            CastOp::ZExt => self.ar.zext(e, tw),
            CastOp::SExt => self.ar.sext(e, tw),
            _ => return self.unsup(format!("symbolic {:?}", op)),
        };
        let v = self.mkval(r);
        self.set(dst, v);
        Flow::Next
    }

    /// x + 0.0: a NaN becomes quiet, -0.0 becomes 0.0, everything else is itself.
    fn fadd_zero(&mut self, w: u8, x: Ex) -> Ex {
        let (expbits, manbits) = if w == 32 { (8u8, 23u8) } else { (11u8, 52u8) };
        let ar = &mut self.ar;
        let inf = ar.konst(w - 1, ((1u128 << expbits) - 1) << manbits);
        let mag = ar.extract(x, 0, w - 1);
        let nan = ar.bin(Op::Ult, inf, mag);
        let q = ar.konst(w, 1u128 << (manbits - 1));
        let quiet = ar.bin(Op::Or, x, q);
        let (nz, z) = (ar.konst(w, 1u128 << (w - 1)), ar.konst(w, 0));
        let isnz = ar.bin(Op::Eq, x, nz);
        let r = ar.ite(isnz, z, x);
        ar.ite(nan, quiet, r)
    }
    fn fcmp_sym(&mut self, p: u8, w: u8, x: Ex, y: Ex) -> Ex {
        // order key: sign-magnitude to two's-complement-like; -0 == +0
        let (expbits, manbits) = if w == 32 { (8u8, 23u8) } else { (11u8, 52u8) };
        let inf = ((1u128 << expbits) - 1) << manbits;
        let ar = &mut self.ar;
        let isnan = |ar: &mut Arena, v: Ex| {
            let mag = ar.extract(v, 0, w - 1);
            let k = ar.konst(w - 1, inf);
            ar.bin(Op::Ult, k, mag)
        };
        let key = |ar: &mut Arena, v: Ex| {
            let mag = ar.extract(v, 0, w - 1);
            let mag = ar.zext(mag, w);
            let s = ar.extract(v, w - 1, 1);
            let z = ar.konst(w, 0);
            let neg = ar.bin(Op::Sub, z, mag);
            ar.ite(s, neg, mag)
        };
        let (nx, ny) = (isnan(ar, x), isnan(ar, y));
        let uno = ar.bin(Op::Or, nx, ny);
        let ord = ar.not(uno);
        let (kx, ky) = (key(ar, x), key(ar, y));
        let eq = ar.bin(Op::Eq, kx, ky);
        let lt = ar.bin(Op::Slt, kx, ky);
        let gt = ar.bin(Op::Slt, ky, kx);
        let f = ar.konst(1, 0);
        let mut acc = f;
        if p & 1 != 0 {
            acc = ar.bin(Op::Or, acc, eq);
        }
        if p & 2 != 0 {
            acc = ar.bin(Op::Or, acc, gt);
        }
        if p & 4 != 0 {
            acc = ar.bin(Op::Or, acc, lt);
        }
        acc = ar.bin(Op::And, acc, ord);
        if p & 8 != 0 {
            acc = ar.bin(Op::Or, acc, uno);
        }
        acc
    }

    fn overflow(&mut self, op: Ovf, w: u8, dst: u32, x: Val, y: Val) -> Flow {
        if let (C(x), C(y)) = (x, y) {
            if w <= 64 {
                let (r, o) = match op {
                    Ovf::UAdd => {
                        let r = x as u128 + y as u128;
                        (r as u64 & m64(w), r > m64(w) as u128)
                    }
                    Ovf::USub => (x.wrapping_sub(y) & m64(w), x < y),
                    Ovf::UMul => {
                        let r = x as u128 * y as u128;
                        (r as u64 & m64(w), r > m64(w) as u128)
                    }
                    _ => {
                        let (a, b) = (s64(x, w) as i128, s64(y, w) as i128);
                        let r = match op {
                            Ovf::SAdd => a + b,
                            Ovf::SSub => a - b,
                            _ => a * b,
                        };
                        let t = r as u64 & m64(w);
                        (t, s64(t, w) as i128 != r)
                    }
                };
                self.set(dst, C(r));
                self.set(dst + 1, C(o as u64));
                return Flow::Next;
            }
        }
        let (x, y) = (self.ex(x, w), self.ex(y, w));
        let ar = &mut self.ar;
        let (r, o) = match op {
            Ovf::UAdd => {
                let r = ar.bin(Op::Add, x, y);
                let o = ar.bin(Op::Ult, r, x);
                (r, o)
            }
            Ovf::USub => {
                let r = ar.bin(Op::Sub, x, y);
                let o = ar.bin(Op::Ult, x, y);
                (r, o)
            }
            Ovf::SAdd | Ovf::SSub => {
                let k = if op == Ovf::SAdd { Op::Add } else { Op::Sub };
                let r = ar.bin(k, x, y);
                let (xx, yy) = (ar.sext(x, w + 1), ar.sext(y, w + 1));
                let rr = ar.bin(k, xx, yy);
                let t = ar.sext(r, w + 1);
                let e = ar.bin(Op::Eq, rr, t);
                (r, ar.not(e))
            }
            Ovf::UMul | Ovf::SMul => {
                if w > 64 {
                    return self.unsup("wide multiplication overflow".into());
                }
                let r = ar.bin(Op::Mul, x, y);
                let (xx, yy) = if op == Ovf::UMul {
                    (ar.zext(x, 2 * w), ar.zext(y, 2 * w))
                } else {
                    (ar.sext(x, 2 * w), ar.sext(y, 2 * w))
                };
                let rr = ar.bin(Op::Mul, xx, yy);
                let t = if op == Ovf::UMul { ar.zext(r, 2 * w) } else { ar.sext(r, 2 * w) };
                let e = ar.bin(Op::Eq, rr, t);
                (r, ar.not(e))
            }
        };
        let (r, o) = (self.mkval(r), self.mkval(o));
        self.set(dst, r);
        self.set(dst + 1, o);
        Flow::Next
    }

    fn intrin(&mut self, op: Intr, w: u8, ow: u8, dst: u32, x: Val, y: Val, z: Val) -> Flow {
        if let (C(a), C(b), C(c)) = (x, y, z) {
            if w <= 64 {
                let m = m64(w);
                let (sa, sb) = (s64(a, w), s64(b, w));
                let r = match op {
                    Intr::UMin => a.min(b),
                    Intr::UMax => a.max(b),
                    Intr::SMin => (sa.min(sb) as u64) & m,
                    Intr::SMax => (sa.max(sb) as u64) & m,
                    Intr::UAddSat => (a as u128 + b as u128).min(m as u128) as u64,
                    Intr::USubSat => a.saturating_sub(b),
                    Intr::SAddSat | Intr::SSubSat => {
                        let r = if op == Intr::SAddSat { sa as i128 + sb as i128 } else { sa as i128 - sb as i128 };
                        let hi = (m >> 1) as i128;
                        (r.clamp(-hi - 1, hi) as u64) & m
                    }
                    Intr::Ctpop => a.count_ones() as u64,
                    Intr::Ctlz => (a.leading_zeros() as u64) - (64 - w as u64),
                    Intr::Cttz => (a.trailing_zeros() as u64).min(w as u64),
                    Intr::Bswap => a.swap_bytes() >> (64 - w),
                    Intr::Bitrev => a.reverse_bits() >> (64 - w),
                    Intr::Fshl => {
                        let s = c % w as u64;
                        if s == 0 {
                            a
                        } else {
                            ((a << s) | (b >> (w as u64 - s))) & m
                        }
                    }
                    Intr::Fshr => {
                        let s = c % w as u64;
                        if s == 0 {
                            b
                        } else {
                            ((b >> s) | (a << (w as u64 - s))) & m
                        }
                    }
                    Intr::Ucmp => (a.cmp(&b) as i64 as u64) & m64(ow),
                    Intr::Scmp => (sa.cmp(&sb) as i64 as u64) & m64(ow),
                    Intr::Abs => (sa.wrapping_abs() as u64) & m,
                    Intr::FAbs => a & (m >> 1),
                    Intr::FMinNum => fbits(w, fval(w, a).min(fval(w, b))),
                    Intr::FMaxNum => fbits(w, fval(w, a).max(fval(w, b))),
                    Intr::FSqrt => fbits(w, if w == 32 { (fval(w, a) as f32).sqrt() as f64 } else { fval(w, a).sqrt() }),
                    Intr::FFloor => fbits(w, fval(w, a).floor()),
                    Intr::FCeil => fbits(w, fval(w, a).ceil()),
                    Intr::FTrunc => fbits(w, fval(w, a).trunc()),
                    Intr::FRound => fbits(w, fval(w, a).round()),
                    Intr::FCopysign => (a & (m >> 1)) | (b & (m ^ (m >> 1))),
                };
                self.set(dst, C(r));
                return Flow::Next;
            }
        }
        let (x, y) = (self.ex(x, w), self.ex(y, w));
        let ar = &mut self.ar;
        let pick = |ar: &mut Arena, o: Op, x: Ex, y: Ex| {
            let c = ar.bin(o, x, y);
            ar.ite(c, x, y)
        };
        let e = match op {
            Intr::UMin => pick(ar, Op::Ult, x, y),
            Intr::UMax => {
                let c = ar.bin(Op::Ult, x, y);
                ar.ite(c, y, x)
            }
            Intr::SMin => pick(ar, Op::Slt, x, y),
            Intr::SMax => {
                let c = ar.bin(Op::Slt, x, y);
                ar.ite(c, y, x)
            }
            Intr::UAddSat => {
                let r = ar.bin(Op::Add, x, y);
                let o = ar.bin(Op::Ult, r, x);
                let k = ar.konst(w, u128::MAX);
                ar.ite(o, k, r)
            }
            Intr::USubSat => {
                let r = ar.bin(Op::Sub, x, y);
                let o = ar.bin(Op::Ult, x, y);
                let k = ar.konst(w, 0);
                ar.ite(o, k, r)
            }
            Intr::Ucmp | Intr::Scmp => {
                let o = if op == Intr::Ucmp { Op::Ult } else { Op::Slt };
                let lt = ar.bin(o, x, y);
                let gt = ar.bin(o, y, x);
                let (m1, z, p1) = (ar.konst(ow, u128::MAX), ar.konst(ow, 0), ar.konst(ow, 1));
                let t = ar.ite(gt, p1, z);
                ar.ite(lt, m1, t)
            }
            Intr::Ctpop => {
                let mut acc = ar.konst(w, 0);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    let b = if w > 1 { ar.zext(b, w) } else { b };
                    acc = ar.bin(Op::Add, acc, b);
                }
                acc
            }
            Intr::Cttz => {
                let mut acc = ar.konst(w, w as u128);
                for i in (0..w).rev() {
                    let b = ar.extract(x, i, 1);
                    let k = ar.konst(w, i as u128);
                    acc = ar.ite(b, k, acc);
                }
                acc
            }
            Intr::Ctlz => {
                let mut acc = ar.konst(w, w as u128);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    let k = ar.konst(w, (w - 1 - i) as u128);
                    acc = ar.ite(b, k, acc);
                }
                acc
            }
            Intr::Bswap => {
                let mut acc = ar.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = ar.extract(x, i * 8, 8);
                    acc = ar.concat(acc, b);
                }
                acc
            }
            Intr::Fshl | Intr::Fshr => {
                let C(c) = z else { return self.unsup("symbolic funnel shift amount".into()) };
                let s = (c % w as u64) as u8;
                if op == Intr::Fshl {
                    if s == 0 {
                        x
                    } else {
                        let h = ar.extract(x, 0, w - s);
                        let l = ar.extract(y, w - s, s);
                        ar.concat(h, l)
                    }
                } else if s == 0 {
                    y
                } else {
                    let h = ar.extract(x, 0, s);
                    let l = ar.extract(y, s, w - s);
                    ar.concat(h, l)
                }
            }
            Intr::Abs => {
                let z = ar.konst(w, 0);
                let n = ar.bin(Op::Sub, z, x);
                let c = ar.bin(Op::Slt, x, z);
                ar.ite(c, n, x)
            }
            Intr::FAbs => {
                let m = ar.extract(x, 0, w - 1);
                ar.zext(m, w)
            }
            _ => return self.unsup(format!("symbolic {:?}", op)),
        };
        let v = self.mkval(e);
        self.set(dst, v);
        Flow::Next
    }

    fn switch(&mut self, x: Ex, w: u8, def: u32, cases: &[(u64, u32)]) -> Option<u32> {
        // group the cases by target
        let mut groups: Vec<(u32, Ex)> = vec![];
        let mut any = self.ar.konst(1, 0);
        for (cv, e) in cases {
            let k = self.ar.konst(w, *cv as u128);
            let c = self.ar.bin(Op::Eq, x, k);
            if self.ar.cval(c) == Some(0) {
                continue;
            }
            any = self.ar.bin(Op::Or, any, c);
            if *e == def {
                continue;
            }
            match groups.iter_mut().find(|g| g.0 == *e) {
                Some(g) => g.1 = self.ar.bin(Op::Or, g.1, c),
                None => groups.push((*e, c)),
            }
        }
        // default: no group's case holds
        let mut none = self.ar.konst(1, 1);
        for g in &groups {
            let n = self.ar.not(g.1);
            none = self.ar.bin(Op::And, none, n);
        }
        groups.push((def, none));
        let mut alts: Vec<(u32, Ex, Rc<Vec<u64>>)> = vec![];
        for (e, c) in groups {
            match self.feasible(c) {
                Ok(Some(m)) => alts.push((e, c, m)),
                _ => {}
            }
        }
        if alts.is_empty() {
            return None; // only when the solver gave up (counted)
        }
        let first = alts.remove(0);
        if !alts.is_empty() {
            let a = alts
                .into_iter()
                .map(|(e, c, m)| Alt { cons: Some(c), model: m, act: Act::Goto(e) })
                .collect();
            self.push_choice(a);
        }
        self.model = first.2;
        self.add_cons(first.1);
        Some(first.0)
    }

    fn load_sym(&mut self, e: Ex, off: u64, w: u8) -> Result<Val, String> {
        const LIMIT: usize = 300;
        let e = self.ar.pinned(e);
        let mut found: Vec<(u64, Ex)> = vec![];
        let mut rest = self.ar.konst(1, 1);
        let save = self.model.clone();
        let mut complete = false;
        while found.len() < LIMIT {
            let m = match self.feasible(rest) {
                Ok(Some(m)) => m,
                Ok(None) => {
                    complete = true;
                    break;
                }
                Err(()) => break,
            };
            self.ar.new_eval();
            let k = self.ar.eval(e, &m) as u64;
            self.ar.new_eval();
            let kk = self.ar.konst(64, k as u128);
            let eq = self.ar.bin(Op::Eq, e, kk);
            let ne = self.ar.not(eq);
            let nb = (w as u64 + 7) / 8;
            if self.locate(k.wrapping_add(off), nb).is_err() {
                // an invalid address is possible: follow it
                self.model = m;
                self.add_cons(eq);
                return self.read(k.wrapping_add(off), w);
            }
            found.push((k, eq));
            rest = self.ar.bin(Op::And, rest, ne);
        }
        self.model = save;
        if !complete {
            let k = self.concretize(E(e), 64);
            return self.read(k.wrapping_add(off), w);
        }
        let mut acc: Option<Ex> = None;
        for (k, eq) in found {
            let v = self.read(k.wrapping_add(off), w)?;
            let x = self.ex(v, w);
            acc = Some(match acc {
                None => x,
                Some(a) => self.ar.ite(eq, x, a),
            });
        }
        Ok(self.mkval(acc.unwrap()))
    }

    fn ret(&mut self, os: &[Opd]) -> Flow {
        let mut vals = smallbuf::Buf::new();
        for o in os {
            let v = self.getw(*o, 128);
            vals.push(v);
        }
        let fr = self.frames.pop().unwrap();
        self.regs.truncate(fr.base as usize);
        while self.stack_objs.len() > fr.stack_mark as usize {
            let id = self.stack_objs.pop().unwrap();
            self.kill(id);
        }
        if fr.merge != 0 && self.regions.last().map_or(false, |r| r.id == fr.merge) {
            return self.region_return(vals);
        }
        if self.frames.is_empty() {
            self.st.paths += 1;
            unsafe { (*self.shared).paths.fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
            self.sample_path();
            return Flow::End;
        }
        for k in 0..fr.ret_n {
            let v = vals.get(k as usize);
            self.set(fr.dst + k, v);
        }
        if fr.next != u32::MAX {
            self.follow(fr.next);
        } else {
            self.frames.last_mut().unwrap().pc += 1;
        }
        Flow::Jumped
    }

    fn after_call(&mut self, c: &CallData) -> Flow {
        match c.next {
            Some(e) => {
                self.follow(e);
                Flow::Jumped
            }
            None => Flow::Next,
        }
    }

    fn call(&mut self, c: &'static CallData) -> Flow {
        let fid = match &c.target {
            Target::Fn(f) => *f,
            Target::Indirect(o) => {
                let v = self.get(*o);
                let p = self.concretize(v, 64);
                let hi = p >> 32;
                if hi == 0 || hi > self.m.nfuncs as u64 || p as u32 != 0 {
                    return self.mem_error(format!("call through invalid pointer 0x{:x}", p));
                }
                (hi - 1) as u32
            }
            Target::Asm(s) => {
                if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") {
                    for k in 0..c.ret_w.len() {
                        let v = if k < c.args.len() { self.get(c.args[k]) } else { C(0) };
                        self.set(c.dst + k as u32, v);
                    }
                    return self.after_call(c);
                }
                if s.contains("cpuid") || s.contains("xgetbv") {
                    // a processor without optional features
                    for k in 0..c.ret_w.len() {
                        self.set(c.dst + k as u32, C(0));
                    }
                    return self.after_call(c);
                }
                return self.unsup(format!("inline asm {}", s.trim()));
            }
        };
        let mut args = smallbuf::Buf::new();
        for (k, a) in c.args.iter().enumerate() {
            let v = self.getw(*a, c.arg_w[k]);
            args.push(v);
        }
        if let Some(ic) = self.icpt[fid as usize] {
            if ic == Icpt::Merge {
                return self.call_merged(c, fid, &args);
            }
            if !(ic == Icpt::Format && (self.format_on || !self.m.funcs[fid as usize].defined)) {
                return self.intercept(ic, c, fid, &args);
            }
        }
        if !self.m.funcs[fid as usize].defined {
            let n = crate::demangle(&self.m.funcs[fid as usize].name);
            return self.unsup(format!("external function {}", n));
        }
        let f = self.m.decode(fid);
        let next = c.next.unwrap_or(u32::MAX);
        if !self.push_frame(f, args.slice(), c.dst, c.ret_w.len() as u32, next) {
            self.st.limit_paths += 1;
            if self.cfg.trace {
                let st: Vec<&str> = self.frames.iter().rev().take(30).map(|f| f.f.name.as_str()).collect();
                eprintln!("depth limit: stack {:#?}", st);
            }
            return Flow::End;
        }
        Flow::Jumped
    }

    fn setret(&mut self, c: &CallData, v: Val) {
        if !c.ret_w.is_empty() {
            self.set(c.dst, v);
        }
    }

    fn intercept(&mut self, ic: Icpt, c: &'static CallData, fid: u32, args: &smallbuf::Buf) -> Flow {
        let a = |k: usize| args.get(k);
        match ic {
            Icpt::Val => {
                let C(w) = a(0) else { return self.unsup("symbolic width".into()) };
                let e = self.ar.var(w as u8);
                self.inputs.push((E(e), w as u8));
                let mut m = (*self.model).clone();
                m.resize(self.ar.var_width.len(), 0);
                self.model = Rc::new(m);
                let z = self.ar.zext(e, 64);
                let v = self.mkval(z);
                self.set(c.dst, v);
            }
            Icpt::Choice => {
                let n = self.concretize(a(0), 64);
                if n == 0 {
                    self.st.assumed_away += 1;
                    return Flow::End;
                }
                if n > 1 {
                    let m = self.model.clone();
                    let alts = (1..n)
                        .rev()
                        .map(|v| Alt { cons: None, model: m.clone(), act: Act::Input(c.dst, v) })
                        .collect();
                    self.push_choice(alts);
                }
                self.inputs.push((C(0), 64));
                self.set(c.dst, C(0));
            }
            Icpt::Concretize => {
                let k = self.concretize(a(0), 64);
                self.set(c.dst, C(k));
            }
            Icpt::Assume => match a(0) {
                C(k) => {
                    if k & 0xffff_ffff == 0 {
                        self.st.assumed_away += 1;
                        return Flow::End;
                    }
                }
                E(e) => {
                    let z = self.ar.konst(32, 0);
                    let eq = self.ar.bin(Op::Eq, e, z);
                    let ne = self.ar.not(eq);
                    match self.feasible(ne) {
                        Ok(Some(m)) => {
                            self.model = m;
                            self.add_cons(ne);
                        }
                        _ => {
                            self.st.assumed_away += 1;
                            return Flow::End;
                        }
                    }
                }
            },
            Icpt::Check => {
                self.st.checks += 1;
                let msg = |s: &mut Exec| -> String {
                    if let (C(p), C(n)) = (a(1), a(2)) {
                        if let Some(b) = s.read_bytes(p, n) {
                            return String::from_utf8_lossy(&b).into_owned();
                        }
                    }
                    "?".into()
                };
                match a(0) {
                    C(k) => {
                        if k & 0xffff_ffff == 0 {
                            let s = msg(self);
                            let m = self.model.clone();
                            self.violation(format!("check failed: {}", s), m);
                            return Flow::End;
                        }
                    }
                    E(e) => {
                        self.st.checks_symbolic += 1;
                        let z = self.ar.konst(32, 0);
                        let bad = self.ar.bin(Op::Eq, e, z);
                        let good = self.ar.not(bad);
                        match self.feasible(bad) {
                            Ok(Some(m)) => {
                                let s = msg(self);
                                self.violation(format!("check failed: {}", s), m);
                                match self.feasible(good) {
                                    Ok(Some(m)) => {
                                        self.model = m;
                                        self.add_cons(good);
                                    }
                                    _ => return Flow::End,
                                }
                            }
                            Ok(None) => self.pin(good, 1),
                            Err(()) => self.add_cons(good),
                        }
                    }
                }
            }
            Icpt::Reach => {
                if let C(k) = a(0) {
                    self.reached.insert(k as u32);
                }
            }
            Icpt::Observe => {
                let v = a(0);
                self.obs.push(v);
            }
            Icpt::Done | Icpt::Nop => {
                for k in 0..c.ret_w.len() {
                    self.set(c.dst + k as u32, C(0));
                }
            }
            Icpt::Zero => self.setret(c, C(0)),
            Icpt::Stub => {
                if let (C(id), C(on)) = (a(0), a(1)) {
                    match id as u32 {
                        1 => self.format_on = on as u32 == 0,
                        2 => self.panic_ok = on as u32 == 1,
                        _ => {}
                    }
                }
            }
            Icpt::Alloc | Icpt::AllocZ | Icpt::Malloc => {
                let n = self.concretize(a(0), 64);
                match self.alloc(n, Kind::Heap) {
                    Some(p) => self.set(c.dst, C(p)),
                    None => return self.unsup("huge allocation".into()),
                }
            }
            Icpt::Calloc => {
                let n = self.concretize(a(0), 64);
                let k = self.concretize(a(1), 64);
                match self.alloc(n * k, Kind::Heap) {
                    Some(p) => self.set(c.dst, C(p)),
                    None => return self.unsup("huge allocation".into()),
                }
            }
            Icpt::Realloc | Icpt::CRealloc => {
                // __rust_realloc(ptr, old_size, align, new_size); realloc(ptr, size)
                let p = self.concretize(a(0), 64);
                let new = if ic == Icpt::Realloc { a(3) } else { a(1) };
                let n = self.concretize(new, 64);
                let Some(q) = self.alloc(n, Kind::Heap) else { return self.unsup("huge allocation".into()) };
                if p >> 32 != 0 {
                    let old = match self.locate(p, 0) {
                        Ok((id, _)) => self.objs[id as usize].data.len() as u64,
                        Err(e) => return self.mem_error(e),
                    };
                    if let Err(e) = self.copy(q, p, old.min(n)) {
                        return self.mem_error(e);
                    }
                    self.kill(((p >> 32) - 1) as u32);
                }
                self.set(c.dst, C(q));
            }
            Icpt::Dealloc => {
                let p = self.concretize(a(0), 64);
                match self.locate(p, 0) {
                    Ok((id, _)) => self.kill(id),
                    Err(e) => return self.mem_error(format!("free: {}", e)),
                }
            }
            Icpt::MemAlign => {
                let out = self.concretize(a(0), 64);
                let n = self.concretize(a(2), 64);
                let Some(q) = self.alloc(n, Kind::Heap) else { return self.unsup("huge allocation".into()) };
                if let Err(e) = self.write(out, 64, C(q)) {
                    return self.mem_error(e);
                }
                self.setret(c, C(0));
            }
            Icpt::Format | Icpt::EmptyFormat => {
                let p = self.concretize(a(0), 64);
                for (o, v) in [(0u64, 0u64), (8, 1), (16, 0)] {
                    if let Err(e) = self.write(p + o, 64, C(v)) {
                        return self.mem_error(e);
                    }
                }
            }
            Icpt::Hash => {
                for k in 0..c.ret_w.len() {
                    self.set(c.dst + k as u32, C(0));
                }
            }
            Icpt::RandKeys => {
                for k in 0..c.ret_w.len() {
                    self.set(c.dst + k as u32, C(k as u64 + 1));
                }
            }
            Icpt::Rand => {
                let n = a(1);
                self.setret(c, n);
            }
            Icpt::Now => {
                let p = self.concretize(a(1), 64);
                for o in [0, 8] {
                    if let Err(e) = self.write(p + o, 64, C(1)) {
                        return self.mem_error(e);
                    }
                }
                self.setret(c, C(0));
            }
            Icpt::Errno => {
                let Some(q) = self.alloc(4, Kind::Heap) else { return Flow::End };
                self.set(c.dst, C(q));
            }
            Icpt::Memcmp => {
                let n = self.concretize(a(2), 64);
                if n == 0 {
                    self.set(c.dst, C(0));
                    return self.after_call(c);
                }
                let p = self.concretize(a(0), 64);
                let q = self.concretize(a(1), 64);
                let name = &self.m.funcs[fid as usize].name;
                let eq_only = name == "bcmp";
                let (i1, o1) = match self.locate(p, n) {
                    Ok(x) => x,
                    Err(e) => return self.mem_error(e),
                };
                let (i2, o2) = match self.locate(q, n) {
                    Ok(x) => x,
                    Err(e) => return self.mem_error(e),
                };
                let nn = n as usize;
                let conc = |o: &Obj, off: usize| o.sym.is_empty() || o.sym[off..off + nn].iter().all(|s| s.0 == NONE);
                if conc(&self.objs[i1 as usize], o1) && conc(&self.objs[i2 as usize], o2) {
                    let r = self.objs[i1 as usize].data[o1..o1 + nn].cmp(&self.objs[i2 as usize].data[o2..o2 + nn]);
                    self.set(c.dst, C((r as i32) as u32 as u64));
                    return self.after_call(c);
                }
                let w = 32;
                let mut acc = self.ar.konst(w, 0);
                for k in (0..n).rev() {
                    let (x, y) = match (self.read(p + k, 8), self.read(q + k, 8)) {
                        (Ok(x), Ok(y)) => (x, y),
                        (Err(e), _) | (_, Err(e)) => return self.mem_error(e),
                    };
                    let (x, y) = (self.ex(x, 8), self.ex(y, 8));
                    let eq = self.ar.bin(Op::Eq, x, y);
                    let diff = if eq_only {
                        self.ar.konst(w, 1)
                    } else {
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let (m1, p1) = (self.ar.konst(w, u128::MAX), self.ar.konst(w, 1));
                        self.ar.ite(lt, m1, p1)
                    };
                    acc = self.ar.ite(eq, acc, diff);
                }
                let v = self.mkval(acc);
                self.set(c.dst, v);
            }
            Icpt::Strlen => {
                let p = self.concretize(a(0), 64);
                let mut n = 0;
                loop {
                    match self.read(p + n, 8) {
                        Ok(C(0)) => break,
                        Ok(C(_)) => n += 1,
                        Ok(v) => {
                            let e = self.ex(v, 8);
                            let z = self.ar.konst(8, 0);
                            let eq = self.ar.bin(Op::Eq, e, z);
                            if self.decide(eq, |_| Act::Retry) {
                                break;
                            }
                            n += 1;
                        }
                        Err(e) => return self.mem_error(e),
                    }
                }
                self.set(c.dst, C(n));
            }
            Icpt::Abort => {
                let m = self.model.clone();
                self.violation("abort".into(), m);
                return Flow::End;
            }
            Icpt::Panic => {
                if self.panic_ok {
                    self.st.assumed_away += 1;
                    return Flow::End;
                }
                let name = crate::demangle(&self.m.funcs[fid as usize].name);
                // message: (ptr, len, location) or location only
                let mut msg = String::new();
                let mut loc = String::new();
                let n = args.len();
                if n >= 2 {
                    if let (C(p), C(l)) = (a(0), a(1)) {
                        if l > 0 && l < 400 {
                            if let Some(b) = self.read_bytes(p, l) {
                                if b.iter().all(|c| (32..127).contains(c)) {
                                    msg = String::from_utf8_lossy(&b).into_owned();
                                }
                            }
                        }
                    }
                }
                if n >= 1 {
                    if let C(p) = a(n - 1) {
                        if let Some(b) = self.read_bytes(p, 24) {
                            let fp = u64::from_le_bytes(b[0..8].try_into().unwrap());
                            let fl = u64::from_le_bytes(b[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                            if fl < 400 {
                                if let Some(fb) = self.read_bytes(fp, fl) {
                                    let s: String =
                                        String::from_utf8_lossy(&fb).trim_end_matches('\0').to_string();
                                    loc = format!("{}:{}", s, line);
                                }
                            }
                        }
                    }
                }
                let short = name.rsplit("::").next().unwrap_or("").to_string();
                let m = self.model.clone();
                let key = format!("panic at {} ({}{}{})", loc, short, if msg.is_empty() { "" } else { ": " }, msg);
                if self.cfg.trace {
                    eprintln!("{}", key);
                }
                self.violation(key, m);
                return Flow::End;
            }
            Icpt::Merge | Icpt::Blake => unreachable!(),
        }
        self.after_call(c)
    }

    // ---------- joined calls ----------
    /// Explore every path of the callee and join the results into one state.
    fn call_merged(&mut self, c: &'static CallData, fid: u32, args: &smallbuf::Buf) -> Flow {
        let f = self.m.decode(fid);
        let next = c.next.unwrap_or(u32::MAX);
        let concrete = false;
        let _ = concrete;
        // fresh epoch so that every write inside is on the trail
        self.epoch_ctr += 1;
        self.epoch = self.epoch_ctr;
        self.free_ids.clear();
        self.region_ctr += 1;
        let id = self.region_ctr;
        self.regions.push(Region {
            id,
            arena: self.ar.nodes.len(),
            instrs: self.st.instrs - self.path_start_instrs,
            choice_floor: self.choices.len(),
            cons: self.cons.len(),
            nobjs: self.objs.len(),
            trail: self.trail.len(),
            outcomes: vec![],
            lost: false,
            frames: self.frames.clone(),
            regs: self.regs.clone(),
            stack_objs: self.stack_objs.clone(),
            model: self.model.clone(),
            pins: self.pin_trail.len(),
            inputs: self.inputs.len(),
            obs: self.obs.len(),
            nvars: self.ar.var_width.len(),
            call: CallRet { dst: c.dst, widths: c.ret_w.clone(), next },
        });
        if !self.push_frame(f, args.slice(), c.dst, c.ret_w.len() as u32, next) {
            self.regions.pop();
            self.st.limit_paths += 1;
            return Flow::End;
        }
        self.frames.last_mut().unwrap().merge = id;
        Flow::Jumped
    }

    fn deliver(&mut self, call: &CallRet, vals: &[Val]) {
        for k in 0..call.widths.len() {
            self.set(call.dst + k as u32, vals[k]);
        }
        if call.next != u32::MAX {
            self.follow(call.next);
        } else {
            self.frames.last_mut().unwrap().pc += 1;
        }
    }
    fn resume_outcome(&mut self, o: &Outcome) {
        for (id, ob) in &o.writes {
            let ep = self.epoch;
            let m = self.obj_mut(*id);
            *m = (**ob).clone();
            m.epoch = ep;
        }
        let call = o.call.clone();
        self.deliver(&call, &o.ret);
    }

    /// A path of the innermost region reached the function's return.
    fn region_return(&mut self, vals: smallbuf::Buf) -> Flow {
        let r = self.regions.last().unwrap();
        let call = r.call.clone();
        let ret: Vec<Val> = (0..call.widths.len()).map(|k| vals.get(k)).collect();
        if self.choices.len() == r.choice_floor && r.outcomes.is_empty() {
            // single path: nothing to join
            self.regions.pop();
            self.deliver(&call, &ret);
            return Flow::Jumped;
        }
        let (rc, rn, rt) = (r.cons, r.nobjs, r.trail);
        // pre-existing objects that changed
        let mut ids: Vec<u32> = self.trail[rt..].iter().map(|(id, _)| *id).filter(|id| (*id as usize) < rn).collect();
        ids.sort_unstable();
        ids.dedup();
        let mut escape = self.objs[rn..].iter().any(|o| o.kind != Kind::Dead);
        escape |= self.inputs.len() != r.inputs || self.obs.len() != r.obs;
        for id in &ids {
            // freed or resized objects cannot be joined
            let first = self.trail[rt..].iter().find(|t| t.0 == *id).unwrap();
            let now = &self.objs[*id as usize];
            escape |= now.kind != first.1.kind || now.data.len() != first.1.data.len();
        }
        if escape {
            // not joinable: explore the paths separately
            self.st.merge_failed += 1;
            let r = self.regions.pop().unwrap();
            let outer = self.regions.is_empty();
            let (na, nv) = (self.ar.nodes.len(), self.ar.var_width.len());
            for c in &mut self.choices[r.choice_floor..] {
                c.arena = na;
                c.nvars = c.nvars.max(r.nvars);
            }
            let _ = (outer, nv);
            if !r.outcomes.is_empty() {
                let alts = r
                    .outcomes
                    .iter()
                    .map(|o| Alt { cons: Some(o.cond), model: o.model.clone(), act: Act::Return(o.clone()) })
                    .collect();
                self.choices.insert(
                    r.choice_floor,
                    Choice {
                        frames: r.frames,
                        regs: r.regs,
                        stack_objs: r.stack_objs,
                        nobjs: r.nobjs,
                        trail: r.trail,
                        pins: r.pins,
                        cons: r.cons,
                        arena: na,
                        nvars: r.nvars,
                        inputs: r.inputs,
                        obs: r.obs,
                        alts,
                        instrs: r.instrs,
                        regions: self.regions.len(),
                    },
                );
            }
            self.deliver(&call, &ret);
            return Flow::Jumped;
        }
        let mut cond = self.ar.konst(1, 1);
        for i in rc..self.cons.len() {
            let c = self.cons[i];
            cond = self.ar.bin_unpinned_and(cond, c);
        }
        let writes: Vec<(u32, Rc<Obj>)> = ids.into_iter().map(|id| (id, self.objs[id as usize].clone())).collect();
        let model = self.model.clone();
        self.regions.last_mut().unwrap().outcomes.push(Rc::new(Outcome { cond, ret, writes, model, call }));
        self.returned = true;
        Flow::End
    }

    /// All paths of the innermost region are done: continue from the joined state.
    fn finish_region(&mut self) -> bool {
        let r = self.regions.pop().unwrap();
        self.restore_to(r.trail, r.pins, r.cons, r.nobjs);
        self.inputs.truncate(r.inputs);
        self.obs.truncate(r.obs);
        self.frames = r.frames;
        self.regs = r.regs;
        self.stack_objs = r.stack_objs;
        self.model = r.model;
        let _ = r.nvars;
        if r.outcomes.is_empty() {
            return false;
        }
        if r.lost {
            let mut any = self.ar.konst(1, 0);
            for o in &r.outcomes {
                any = self.ar.bin(Op::Or, any, o.cond);
            }
            match self.feasible(any) {
                Ok(Some(m)) => {
                    self.model = m;
                    self.add_cons(any);
                }
                _ => return false,
            }
        }
        self.st.merged += r.outcomes.len() as u64;
        // writes
        let mut ids: Vec<u32> = r.outcomes.iter().flat_map(|o| o.writes.iter().map(|w| w.0)).collect();
        ids.sort_unstable();
        ids.dedup();
        for id in ids {
            let base = self.objs[id as usize].clone();
            let vers: Vec<Rc<Obj>> = r
                .outcomes
                .iter()
                .map(|o| o.writes.iter().find(|w| w.0 == id).map(|w| w.1.clone()).unwrap_or_else(|| base.clone()))
                .collect();
            let len = vers[0].data.len();
            let kind = vers[0].kind;
            let at = |v: &Obj, k: usize| -> (u8, (Ex, u8)) {
                (v.data[k], if v.sym.is_empty() { (NONE, 0) } else { v.sym[k] })
            };
            let mut data = vec![0u8; len];
            let mut sym = vec![(NONE, 0u8); len];
            let mut k = 0;
            while k < len {
                let x0 = at(&vers[0], k);
                let same = |a: (u8, (Ex, u8)), b: (u8, (Ex, u8))| a.1 == b.1 && (a.1 .0 != NONE || a.0 == b.0);
                if vers.iter().all(|v| same(at(v, k), x0)) {
                    data[k] = x0.0;
                    sym[k] = x0.1;
                    k += 1;
                    continue;
                }
                // join 8 aligned bytes at once when possible, so that words stay words
                let n = if k % 8 == 0 && k + 8 <= len { 8 } else { 1 };
                let mut acc: Option<Ex> = None;
                for (o, v) in r.outcomes.iter().zip(&vers) {
                    let mut e: Option<Ex> = None;
                    let mut j = 0;
                    while j < n {
                        let (d, (se, si)) = at(v, k + j);
                        let mut m = 1;
                        let part = if se == NONE {
                            self.ar.konst(8, d as u128)
                        } else {
                            while j + m < n && at(v, k + j + m).1 == (se, si + m as u8) {
                                m += 1;
                            }
                            self.ar.extract(se, si * 8, (m * 8) as u8)
                        };
                        e = Some(match e {
                            None => part,
                            Some(a) => self.ar.concat(part, a),
                        });
                        j += m;
                    }
                    let e = e.unwrap();
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.ite(o.cond, e, a),
                    });
                }
                let e = acc.unwrap();
                let cv = self.ar.cval(e);
                for j in 0..n {
                    match cv {
                        Some(v) => data[k + j] = (v >> (8 * j)) as u8,
                        None => sym[k + j] = (e, j as u8),
                    }
                }
                k += n;
            }
            let o = self.obj_mut(id);
            o.data = data;
            o.sym = sym;
            o.kind = kind;
        }
        // results
        let mut ret = vec![];
        for (k, w) in r.call.widths.iter().enumerate() {
            let mut acc: Option<Ex> = None;
            for o in &r.outcomes {
                let e = self.ex(o.ret[k], *w);
                acc = Some(match acc {
                    None => e,
                    Some(a) => self.ar.ite(o.cond, e, a),
                });
            }
            let v = self.mkval(acc.unwrap());
            ret.push(v);
        }
        self.deliver(&r.call, &ret);
        true
    }
}

extern "C" {
    fn fork() -> i32;
}

fn fval(w: u8, b: u64) -> f64 {
    if w == 32 {
        f32::from_bits(b as u32) as f64
    } else {
        f64::from_bits(b)
    }
}
fn fbits(w: u8, f: f64) -> u64 {
    if w == 32 {
        (f as f32).to_bits() as u64
    } else {
        f.to_bits()
    }
}
fn fcmp(p: u8, w: u8, a: u64, b: u64) -> bool {
    let (x, y) = (fval(w, a), fval(w, b));
    let uno = x.is_nan() || y.is_nan();
    (p & 1 != 0 && x == y) || (p & 2 != 0 && x > y) || (p & 4 != 0 && x < y) || (p & 8 != 0 && uno)
}

#[inline]
fn bin64(op: BinOp, w: u8, x: u64, y: u64) -> Option<u64> {
    let m = m64(w);
    Some(match op {
        BinOp::Add => x.wrapping_add(y) & m,
        BinOp::Sub => x.wrapping_sub(y) & m,
        BinOp::Mul => x.wrapping_mul(y) & m,
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        BinOp::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => (s64(x, w) >> y.min(63)) as u64 & m,
        BinOp::UDiv => {
            if y == 0 {
                return None;
            } else {
                x / y
            }
        }
        BinOp::URem => {
            if y == 0 {
                return None;
            } else {
                x % y
            }
        }
        BinOp::SDiv => {
            if y == 0 {
                return None;
            } else {
                s64(x, w).wrapping_div(s64(y, w)) as u64 & m
            }
        }
        BinOp::SRem => {
            if y == 0 {
                return None;
            } else {
                s64(x, w).wrapping_rem(s64(y, w)) as u64 & m
            }
        }
        BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
            if w == 32 {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match op {
                    BinOp::FAdd => a + b,
                    BinOp::FSub => a - b,
                    BinOp::FMul => a * b,
                    BinOp::FDiv => a / b,
                    _ => a % b,
                })
                .to_bits() as u64
            } else {
                let (a, b) = (f64::from_bits(x), f64::from_bits(y));
                (match op {
                    BinOp::FAdd => a + b,
                    BinOp::FSub => a - b,
                    BinOp::FMul => a * b,
                    BinOp::FDiv => a / b,
                    _ => a % b,
                })
                .to_bits()
            }
        }
    })
}
#[inline]
fn cmp64(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => s64(x, w) < s64(y, w),
        Pred::Sle => s64(x, w) <= s64(y, w),
        Pred::Sgt => s64(x, w) > s64(y, w),
        Pred::Sge => s64(x, w) >= s64(y, w),
    }
}

mod smallbuf {
    use super::Val;
    /// Small inline vector of values.
    pub struct Buf {
        n: usize,
        a: [Val; 16],
        v: Vec<Val>,
    }
    impl Buf {
        #[inline]
        pub fn new() -> Buf {
            Buf { n: 0, a: [Val::C(0); 16], v: Vec::new() }
        }
        #[inline]
        pub fn push(&mut self, x: Val) {
            if self.v.is_empty() && self.n < 16 {
                self.a[self.n] = x;
            } else {
                if self.v.is_empty() {
                    self.v.extend_from_slice(&self.a);
                }
                self.v.push(x);
            }
            self.n += 1;
        }
        #[inline]
        pub fn get(&self, k: usize) -> Val {
            if self.v.is_empty() {
                self.a[k]
            } else {
                self.v[k]
            }
        }
        pub fn len(&self) -> usize {
            self.n
        }
        pub fn slice(&self) -> &[Val] {
            if self.v.is_empty() {
                &self.a[..self.n]
            } else {
                &self.v
            }
        }
    }
}
