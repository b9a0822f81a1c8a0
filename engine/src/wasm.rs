//! Decodes the wasm module rustc produced from /repo and compiles each function
//! into a small register code (operand-stack slots become registers).
use crate::sym::Op;
use std::collections::HashMap;
use wasmparser::{BlockType, DataKind, ElementItems, ElementKind, ExternalKind, Name, Operator, Parser, Payload, TypeRef, ValType};

#[derive(Clone, Copy, Debug)]
pub enum LK {
    L8U,
    L8S,
    L16U,
    L16S,
    L32,
    L64,
    L8S64,
    L16S64,
    L32S64,
}
impl LK {
    pub fn size(self) -> usize {
        match self {
            LK::L8U | LK::L8S | LK::L8S64 => 1,
            LK::L16U | LK::L16S | LK::L16S64 => 2,
            LK::L32 | LK::L32S64 => 4,
            LK::L64 => 8,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Ins {
    Bin { op: Op, d: u32, a: u32, b: u32 },
    BinK { op: Op, d: u32, a: u32, k: u32 },
    Un { op: Op, d: u32, a: u32 },
    Const { d: u32, k: u32 },
    Copy { d: u32, a: u32 },
    Load { k: LK, d: u32, a: u32, off: u32 },
    Store { n: u8, a: u32, v: u32, off: u32 },
    Br { pc: u32 },
    BrIf { c: u32, pc: u32 },
    BrIfNot { c: u32, pc: u32 },
    BrTable { c: u32, t: u32 },
    Call { f: u32, base: u32 },
    CallInd { ty: u32, i: u32, base: u32 },
    Return { a: u32 },
    Select { d: u32, a: u32, b: u32, c: u32 },
    GlobalGet { d: u32, g: u32 },
    GlobalSet { a: u32, g: u32 },
    MemSize { d: u32 },
    MemGrow { d: u32, a: u32 },
    MemCopy { d: u32, s: u32, n: u32 },
    MemFill { d: u32, v: u32, n: u32 },
    Unreachable,
    Unsupported { k: u32 },
}

#[derive(Clone, Debug, Default)]
pub struct FType {
    pub params: usize,
    pub results: usize,
}

#[derive(Default)]
pub struct Func {
    pub name: String,
    pub ty: FType,
    pub tyidx: u32,
    pub code: Vec<Ins>,
    pub consts: Vec<u64>,
    pub tables: Vec<Vec<u32>>,
    pub nregs: usize,
    pub nlocals: usize,
    pub unsupported: Vec<String>,
    pub import: Option<(String, String)>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub types: Vec<FType>,
    pub exports: HashMap<String, u32>,
    pub globals: Vec<u64>,
    pub mem_pages: usize,
    pub data: Vec<(usize, Vec<u8>)>,
    pub table: Vec<u32>, // u32::MAX = null
    pub start: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum E {
    Slot,
    Local(u32),
    K(u64),
}
struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 func
    height: usize,
    nparams: usize,
    nresults: usize,
    loop_pc: u32,
    fix: Vec<usize>, // instruction indices to patch with end pc
    tfix: Vec<(usize, usize)>,
    else_fix: Option<usize>,
    unreachable: bool,
    entry_unreachable: bool,
}

struct C<'a> {
    f: Func,
    st: Vec<E>,
    ctl: Vec<Ctl>,
    types: &'a [FType],
    nlocals: usize,
    maxh: usize,
    barrier: usize, // no instruction before this index may be rewritten (a label is bound here)
}

impl<'a> C<'a> {
    fn slot(&self, i: usize) -> u32 {
        (self.nlocals + i) as u32
    }
    fn k(&mut self, v: u64) -> u32 {
        if let Some(p) = self.f.consts.iter().rev().take(8).position(|x| *x == v) {
            return (self.f.consts.len() - 1 - p) as u32;
        }
        self.f.consts.push(v);
        (self.f.consts.len() - 1) as u32
    }
    fn emit(&mut self, i: Ins) {
        self.f.code.push(i)
    }
    fn push(&mut self, e: E) -> u32 {
        self.st.push(e);
        self.maxh = self.maxh.max(self.st.len());
        self.slot(self.st.len() - 1)
    }
    fn materialize(&mut self, i: usize) {
        let s = self.slot(i);
        match self.st[i] {
            E::Slot => (),
            E::Local(l) => self.emit(Ins::Copy { d: s, a: l }),
            E::K(v) => {
                let k = self.k(v);
                self.emit(Ins::Const { d: s, k })
            }
        }
        self.st[i] = E::Slot;
    }
    fn flush(&mut self) {
        for i in 0..self.st.len() {
            self.materialize(i);
        }
    }
    /// register holding stack entry i (materialises constants)
    fn reg(&mut self, i: usize) -> u32 {
        match self.st[i] {
            E::Local(l) => l,
            E::Slot => self.slot(i),
            E::K(_) => {
                self.materialize(i);
                self.slot(i)
            }
        }
    }
    fn pop_reg(&mut self) -> u32 {
        let i = self.st.len() - 1;
        let r = self.reg(i);
        self.st.pop();
        r
    }
    fn un(&mut self, op: Op) {
        let a = self.pop_reg();
        let d = self.push(E::Slot);
        self.emit(Ins::Un { op, d, a });
    }
    fn bin(&mut self, op: Op) {
        let n = self.st.len();
        if let E::K(v) = self.st[n - 1] {
            let k = self.k(v);
            self.st.pop();
            let a = self.pop_reg();
            let d = self.push(E::Slot);
            self.emit(Ins::BinK { op, d, a, k });
            return;
        }
        let b = self.reg(n - 1);
        let a = self.reg(n - 2);
        self.st.pop();
        self.st.pop();
        let d = self.push(E::Slot);
        self.emit(Ins::Bin { op, d, a, b });
    }
    fn load(&mut self, k: LK, off: u64) {
        let a = self.pop_reg();
        let d = self.push(E::Slot);
        self.emit(Ins::Load { k, d, a, off: off as u32 });
    }
    fn store(&mut self, n: u8, off: u64) {
        let l = self.st.len();
        let v = self.reg(l - 1);
        let a = self.reg(l - 2);
        self.st.pop();
        self.st.pop();
        self.emit(Ins::Store { n, a, v, off: off as u32 });
    }
    fn set_local(&mut self, l: u32, keep: bool) {
        // other pending references to this local must be saved first
        let n = self.st.len();
        for i in 0..n - 1 {
            if self.st[i] == E::Local(l) {
                self.materialize(i);
            }
        }
        match self.st[n - 1] {
            E::K(v) => {
                let k = self.k(v);
                self.emit(Ins::Const { d: l, k });
            }
            E::Local(x) if x == l => (),
            E::Local(x) => self.emit(Ins::Copy { d: l, a: x }),
            E::Slot => {
                let a = self.slot(n - 1);
                let len = self.f.code.len();
                let mut done = false;
                if len > self.barrier {
                    match &mut self.f.code[len - 1] {
                        Ins::Bin { d, .. } | Ins::BinK { d, .. } | Ins::Un { d, .. } | Ins::Load { d, .. } | Ins::GlobalGet { d, .. } | Ins::Select { d, .. }
                            if *d == a =>
                        {
                            *d = l;
                            done = true;
                        }
                        _ => (),
                    }
                }
                if !done {
                    self.emit(Ins::Copy { d: l, a })
                }
            }
        }
        self.st.pop();
        if keep {
            self.push(E::Local(l));
        }
    }
    fn blockty(&self, b: BlockType) -> (usize, usize) {
        match b {
            BlockType::Empty => (0, 0),
            BlockType::Type(_) => (0, 1),
            BlockType::FuncType(i) => {
                let t = &self.types[i as usize];
                (t.params, t.results)
            }
        }
    }
    /// copies that bring the branch operands to the label's height
    fn br_moves(&mut self, depth: u32) -> (usize, Vec<(u32, u32)>) {
        let ci = self.ctl.len() - 1 - depth as usize;
        let c = &self.ctl[ci];
        let n = if c.kind == 1 { c.nparams } else { c.nresults };
        let h = c.height;
        let top = self.st.len();
        let mut m = Vec::new();
        for i in 0..n {
            let from = self.slot(top - n + i);
            let to = self.slot(h + i);
            if from != to {
                m.push((to, from));
            }
        }
        (ci, m)
    }
    fn emit_br_to(&mut self, ci: usize, mk: impl Fn(u32) -> Ins) {
        if self.ctl[ci].kind == 1 {
            let pc = self.ctl[ci].loop_pc;
            self.emit(mk(pc));
        } else {
            let at = self.f.code.len();
            self.emit(mk(u32::MAX));
            self.ctl[ci].fix.push(at);
        }
    }
    fn dead(&mut self) {
        let c = self.ctl.last_mut().unwrap();
        c.unreachable = true;
        let h = c.height;
        self.st.truncate(h);
    }
    fn op(&mut self, o: &Operator) -> Result<(), String> {
        use Operator as O;
        // skip unreachable code, keeping track of nesting
        if self.ctl.last().map(|c| c.unreachable).unwrap_or(false) {
            match o {
                O::Block { .. } | O::Loop { .. } | O::If { .. } => {
                    let h = self.st.len();
                    self.ctl.push(Ctl { kind: 0, height: h, nparams: 0, nresults: 0, loop_pc: 0, fix: vec![], tfix: vec![], else_fix: None, unreachable: true, entry_unreachable: true });
                    return Ok(());
                }
                O::Else => {
                    if self.ctl.last().unwrap().entry_unreachable {
                        return Ok(());
                    }
                }
                O::End => {
                    if self.ctl.last().unwrap().entry_unreachable {
                        self.ctl.pop();
                        return Ok(());
                    }
                }
                _ => return Ok(()),
            }
        }
        match o {
            O::Unreachable => {
                self.emit(Ins::Unreachable);
                self.dead();
            }
            O::Nop => (),
            O::Block { blockty } => {
                self.flush();
                let (p, r) = self.blockty(*blockty);
                let h = self.st.len() - p;
                self.ctl.push(Ctl { kind: 0, height: h, nparams: p, nresults: r, loop_pc: 0, fix: vec![], tfix: vec![], else_fix: None, unreachable: false, entry_unreachable: false });
            }
            O::Loop { blockty } => {
                self.flush();
                let (p, r) = self.blockty(*blockty);
                let h = self.st.len() - p;
                let pc = self.f.code.len() as u32;
                self.barrier = pc as usize;
                self.ctl.push(Ctl { kind: 1, height: h, nparams: p, nresults: r, loop_pc: pc, fix: vec![], tfix: vec![], else_fix: None, unreachable: false, entry_unreachable: false });
            }
            O::If { blockty } => {
                let c = self.pop_reg();
                self.flush();
                let (p, r) = self.blockty(*blockty);
                let h = self.st.len() - p;
                let at = self.f.code.len();
                self.emit(Ins::BrIfNot { c, pc: u32::MAX });
                self.ctl.push(Ctl { kind: 2, height: h, nparams: p, nresults: r, loop_pc: 0, fix: vec![], tfix: vec![], else_fix: Some(at), unreachable: false, entry_unreachable: false });
            }
            O::Else => {
                if !self.ctl.last().unwrap().unreachable {
                    self.flush();
                    let at = self.f.code.len();
                    self.emit(Ins::Br { pc: u32::MAX });
                    self.ctl.last_mut().unwrap().fix.push(at);
                }
                let pc = self.f.code.len() as u32;
                self.barrier = pc as usize;
                let (h, p, ef) = {
                    let c = self.ctl.last_mut().unwrap();
                    c.unreachable = false;
                    (c.height, c.nparams, c.else_fix.take())
                };
                if let Some(at) = ef {
                    self.patch(at, pc);
                }
                self.st.truncate(h);
                for _ in 0..p {
                    self.push(E::Slot);
                }
            }
            O::End => {
                if !self.ctl.last().unwrap().unreachable {
                    self.flush();
                }
                let c = self.ctl.pop().unwrap();
                let pc = self.f.code.len() as u32;
                self.barrier = pc as usize;
                for at in &c.fix {
                    self.patch(*at, pc);
                }
                for (t, i) in &c.tfix {
                    self.f.tables[*t][*i] = pc;
                }
                if let Some(at) = c.else_fix {
                    self.patch(at, pc);
                }
                self.st.truncate(c.height);
                for _ in 0..c.nresults {
                    self.push(E::Slot);
                }
                if c.kind == 3 {
                    let a = self.slot(0);
                    self.emit(Ins::Return { a });
                }
            }
            O::Br { relative_depth } => {
                self.flush();
                let (ci, m) = self.br_moves(*relative_depth);
                for (d, a) in m {
                    self.emit(Ins::Copy { d, a });
                }
                self.emit_br_to(ci, |pc| Ins::Br { pc });
                self.dead();
            }
            O::BrIf { relative_depth } => {
                let c = self.pop_reg();
                self.flush();
                let (ci, m) = self.br_moves(*relative_depth);
                if m.is_empty() {
                    self.emit_br_to(ci, |pc| Ins::BrIf { c, pc });
                } else {
                    let at = self.f.code.len();
                    self.emit(Ins::BrIfNot { c, pc: u32::MAX });
                    for (d, a) in m {
                        self.emit(Ins::Copy { d, a });
                    }
                    self.emit_br_to(ci, |pc| Ins::Br { pc });
                    let pc = self.f.code.len() as u32;
                    self.barrier = pc as usize;
                    self.patch(at, pc);
                }
            }
            O::BrTable { targets } => {
                let c = self.pop_reg();
                self.flush();
                let mut ds: Vec<u32> = Vec::new();
                for t in targets.targets() {
                    ds.push(t.map_err(|e| e.to_string())?);
                }
                ds.push(targets.default());
                let t = self.f.tables.len();
                self.f.tables.push(vec![u32::MAX; ds.len()]);
                self.emit(Ins::BrTable { c, t: t as u32 });
                let mut tramp: HashMap<u32, u32> = HashMap::new();
                for (i, d) in ds.iter().enumerate() {
                    let (ci, m) = self.br_moves(*d);
                    if m.is_empty() {
                        if self.ctl[ci].kind == 1 {
                            let pc = self.ctl[ci].loop_pc;
                            self.f.tables[t][i] = pc;
                        } else {
                            self.ctl[ci].tfix.push((t, i));
                        }
                    } else if let Some(pc) = tramp.get(d) {
                        self.f.tables[t][i] = *pc;
                    } else {
                        let pc = self.f.code.len() as u32;
                        tramp.insert(*d, pc);
                        self.f.tables[t][i] = pc;
                        for (d, a) in m {
                            self.emit(Ins::Copy { d, a });
                        }
                        self.emit_br_to(ci, |pc| Ins::Br { pc });
                    }
                }
                self.dead();
            }
            O::Return => {
                self.flush();
                let n = self.f.ty.results;
                let a = self.slot(self.st.len() - n);
                self.emit(Ins::Return { a });
                self.dead();
            }
            O::Call { function_index } => {
                self.flush();
                return Err(format!("call {}", function_index)); // handled by the caller
            }
            O::CallIndirect { type_index, .. } => {
                self.flush();
                let i = self.pop_reg();
                let t = self.types[*type_index as usize].clone();
                let base = self.slot(self.st.len() - t.params);
                self.emit(Ins::CallInd { ty: *type_index, i, base });
                let n = self.st.len() - t.params;
                self.st.truncate(n);
                for _ in 0..t.results {
                    self.push(E::Slot);
                }
            }
            O::Drop => {
                self.st.pop();
            }
            O::Select | O::TypedSelect { .. } => {
                let n = self.st.len();
                let c = self.reg(n - 1);
                let b = self.reg(n - 2);
                let a = self.reg(n - 3);
                self.st.truncate(n - 3);
                let d = self.push(E::Slot);
                self.emit(Ins::Select { d, a, b, c });
            }
            O::LocalGet { local_index } => {
                self.push(E::Local(*local_index));
            }
            O::LocalSet { local_index } => self.set_local(*local_index, false),
            O::LocalTee { local_index } => self.set_local(*local_index, true),
            O::GlobalGet { global_index } => {
                let d = self.push(E::Slot);
                self.emit(Ins::GlobalGet { d, g: *global_index });
            }
            O::GlobalSet { global_index } => {
                let a = self.pop_reg();
                self.emit(Ins::GlobalSet { a, g: *global_index });
            }
            O::I32Const { value } => {
                self.push(E::K(*value as u32 as u64));
            }
            O::I64Const { value } => {
                self.push(E::K(*value as u64));
            }
            O::F64Const { value } => {
                self.push(E::K(value.bits()));
            }
            O::F32Const { value } => {
                self.push(E::K(value.bits() as u64));
            }
            O::I32Load { memarg } | O::F32Load { memarg } => self.load(LK::L32, memarg.offset),
            O::I64Load { memarg } | O::F64Load { memarg } => self.load(LK::L64, memarg.offset),
            O::I32Load8U { memarg } | O::I64Load8U { memarg } => self.load(LK::L8U, memarg.offset),
            O::I32Load8S { memarg } => self.load(LK::L8S, memarg.offset),
            O::I32Load16U { memarg } | O::I64Load16U { memarg } => self.load(LK::L16U, memarg.offset),
            O::I32Load16S { memarg } => self.load(LK::L16S, memarg.offset),
            O::I64Load8S { memarg } => self.load(LK::L8S64, memarg.offset),
            O::I64Load16S { memarg } => self.load(LK::L16S64, memarg.offset),
            O::I64Load32U { memarg } => self.load(LK::L32, memarg.offset),
            O::I64Load32S { memarg } => self.load(LK::L32S64, memarg.offset),
            O::I32Store { memarg } | O::F32Store { memarg } | O::I64Store32 { memarg } => self.store(4, memarg.offset),
            O::I64Store { memarg } | O::F64Store { memarg } => self.store(8, memarg.offset),
            O::I32Store8 { memarg } | O::I64Store8 { memarg } => self.store(1, memarg.offset),
            O::I32Store16 { memarg } | O::I64Store16 { memarg } => self.store(2, memarg.offset),
            O::MemorySize { .. } => {
                let d = self.push(E::Slot);
                self.emit(Ins::MemSize { d });
            }
            O::MemoryGrow { .. } => {
                let a = self.pop_reg();
                let d = self.push(E::Slot);
                self.emit(Ins::MemGrow { d, a });
            }
            O::MemoryCopy { .. } | O::MemoryFill { .. } => {
                let n = self.st.len();
                let c = self.reg(n - 1);
                let b = self.reg(n - 2);
                let a = self.reg(n - 3);
                self.st.truncate(n - 3);
                if let O::MemoryCopy { .. } = o {
                    self.emit(Ins::MemCopy { d: a, s: b, n: c });
                } else {
                    self.emit(Ins::MemFill { d: a, v: b, n: c });
                }
            }
            O::I64ExtendI32U => (), // values are stored zero-extended
            O::I64ReinterpretF64 | O::F64ReinterpretI64 | O::I32ReinterpretF32 | O::F32ReinterpretI32 => (),
            O::RefNull { .. } => {
                self.push(E::K(u32::MAX as u64));
            }
            _ => {
                if let Some((op, unary)) = simple(o) {
                    if unary {
                        self.un(op)
                    } else {
                        self.bin(op)
                    }
                } else {
                    // outside the supported set: stop there if it is ever executed
                    let k = self.f.unsupported.len() as u32;
                    self.f.unsupported.push(format!("{:?}", o));
                    self.emit(Ins::Unsupported { k });
                    self.dead();
                }
            }
        }
        Ok(())
    }
    fn patch(&mut self, at: usize, target: u32) {
        match &mut self.f.code[at] {
            Ins::Br { pc } | Ins::BrIf { pc, .. } | Ins::BrIfNot { pc, .. } => *pc = target,
            _ => panic!("patch"),
        }
    }
}

fn simple(o: &Operator) -> Option<(Op, bool)> {
    use Op as P;
    use Operator as O;
    Some(match o {
        O::I32Add => (P::Add32, false),
        O::I32Sub => (P::Sub32, false),
        O::I32Mul => (P::Mul32, false),
        O::I32And => (P::And32, false),
        O::I32Or => (P::Or32, false),
        O::I32Xor => (P::Xor32, false),
        O::I32Shl => (P::Shl32, false),
        O::I32ShrS => (P::ShrS32, false),
        O::I32ShrU => (P::ShrU32, false),
        O::I32Rotl => (P::Rotl32, false),
        O::I32Rotr => (P::Rotr32, false),
        O::I32Eq => (P::Eq32, false),
        O::I32Ne => (P::Ne32, false),
        O::I32LtS => (P::LtS32, false),
        O::I32LtU => (P::LtU32, false),
        O::I32GtS => (P::GtS32, false),
        O::I32GtU => (P::GtU32, false),
        O::I32LeS => (P::LeS32, false),
        O::I32LeU => (P::LeU32, false),
        O::I32GeS => (P::GeS32, false),
        O::I32GeU => (P::GeU32, false),
        O::I64Add => (P::Add64, false),
        O::I64Sub => (P::Sub64, false),
        O::I64Mul => (P::Mul64, false),
        O::I64And => (P::And64, false),
        O::I64Or => (P::Or64, false),
        O::I64Xor => (P::Xor64, false),
        O::I64Shl => (P::Shl64, false),
        O::I64ShrS => (P::ShrS64, false),
        O::I64ShrU => (P::ShrU64, false),
        O::I64Rotl => (P::Rotl64, false),
        O::I64Rotr => (P::Rotr64, false),
        O::I64Eq => (P::Eq64, false),
        O::I64Ne => (P::Ne64, false),
        O::I64LtS => (P::LtS64, false),
        O::I64LtU => (P::LtU64, false),
        O::I64GtS => (P::GtS64, false),
        O::I64GtU => (P::GtU64, false),
        O::I64LeS => (P::LeS64, false),
        O::I64LeU => (P::LeU64, false),
        O::I64GeS => (P::GeS64, false),
        O::I64GeU => (P::GeU64, false),
        O::I32DivS => (P::DivS32, false),
        O::I32DivU => (P::DivU32, false),
        O::I32RemS => (P::RemS32, false),
        O::I32RemU => (P::RemU32, false),
        O::I64DivS => (P::DivS64, false),
        O::I64DivU => (P::DivU64, false),
        O::I64RemS => (P::RemS64, false),
        O::I64RemU => (P::RemU64, false),
        O::I32Eqz => (P::Eqz32, true),
        O::I64Eqz => (P::Eqz64, true),
        O::I32Clz => (P::Clz32, true),
        O::I32Ctz => (P::Ctz32, true),
        O::I32Popcnt => (P::Popcnt32, true),
        O::I64Clz => (P::Clz64, true),
        O::I64Ctz => (P::Ctz64, true),
        O::I64Popcnt => (P::Popcnt64, true),
        O::I32WrapI64 => (P::Wrap, true),
        O::I64ExtendI32S => (P::ExtS3264, true),
        O::I64Extend32S => (P::ExtS3264, true),
        O::I32Extend8S => (P::Ext8S32, true),
        O::I32Extend16S => (P::Ext16S32, true),
        O::I64Extend8S => (P::Ext8S64, true),
        O::I64Extend16S => (P::Ext16S64, true),
        O::F64Add => (P::F64Add, false),
        O::F64Sub => (P::F64Sub, false),
        O::F64Mul => (P::F64Mul, false),
        O::F64Div => (P::F64Div, false),
        O::F64Eq => (P::F64Eq, false),
        O::F64Ne => (P::F64Ne, false),
        O::F64Lt => (P::F64Lt, false),
        O::F64Gt => (P::F64Gt, false),
        O::F64Le => (P::F64Le, false),
        O::F64Ge => (P::F64Ge, false),
        O::F64Copysign => (P::F64Copysign, false),
        O::F64ConvertI32U => (P::F64ConvU32, true),
        O::F64ConvertI32S => (P::F64ConvS32, true),
        O::F64ConvertI64U => (P::F64ConvU64, true),
        O::F64ConvertI64S => (P::F64ConvS64, true),
        O::F64Trunc => (P::F64Trunc, true),
        O::F64Floor => (P::F64Floor, true),
        O::F64Ceil => (P::F64Ceil, true),
        O::F64Nearest => (P::F64Nearest, true),
        O::F64Abs => (P::F64Abs, true),
        O::F64Neg => (P::F64Neg, true),
        O::F64Sqrt => (P::F64Sqrt, true),
        O::I32TruncSatF64U => (P::I32TruncSatU, true),
        O::I32TruncSatF64S => (P::I32TruncSatS, true),
        O::I64TruncSatF64U => (P::I64TruncSatU, true),
        O::I64TruncSatF64S => (P::I64TruncSatS, true),
        O::F64PromoteF32 => (P::F64Promote, true),
        O::F32DemoteF64 => (P::F32Demote, true),
        _ => return None,
    })
}

pub fn load(bytes: &[u8]) -> Result<Module, String> {
    let es = |e: wasmparser::BinaryReaderError| e.to_string();
    let mut m = Module { funcs: vec![], types: vec![], exports: HashMap::new(), globals: vec![], mem_pages: 0, data: vec![], table: vec![], start: None };
    let mut nimp = 0;
    let mut body_i = 0;
    let mut bodies: Vec<(usize, wasmparser::FunctionBody)> = vec![];
    for p in Parser::new(0).parse_all(bytes) {
        match p.map_err(es)? {
            Payload::TypeSection(r) => {
                for t in r.into_iter_err_on_gc_types() {
                    let t = t.map_err(es)?;
                    m.types.push(FType { params: t.params().len(), results: t.results().len() });
                }
            }
            Payload::ImportSection(r) => {
                for i in r {
                    let i = i.map_err(es)?;
                    if let TypeRef::Func(t) = i.ty {
                        m.funcs.push(Func {
                            ty: m.types[t as usize].clone(),
                            tyidx: t,
                            import: Some((i.module.to_string(), i.name.to_string())),
                            name: i.name.to_string(),
                            ..Default::default()
                        });
                        nimp += 1;
                    } else {
                        return Err(format!("unsupported import {:?}", i));
                    }
                }
            }
            Payload::FunctionSection(r) => {
                for t in r {
                    let t = t.map_err(es)?;
                    m.funcs.push(Func { ty: m.types[t as usize].clone(), tyidx: t, ..Default::default() });
                }
            }
            Payload::MemorySection(r) => {
                for t in r {
                    m.mem_pages = t.map_err(es)?.initial as usize;
                }
            }
            Payload::GlobalSection(r) => {
                for g in r {
                    let g = g.map_err(es)?;
                    m.globals.push(konst(&g.init_expr)?);
                }
            }
            Payload::ExportSection(r) => {
                for e in r {
                    let e = e.map_err(es)?;
                    if e.kind == ExternalKind::Func {
                        m.exports.insert(e.name.to_string(), e.index);
                    }
                }
            }
            Payload::ElementSection(r) => {
                for e in r {
                    let e = e.map_err(es)?;
                    if let ElementKind::Active { offset_expr, .. } = &e.kind {
                        let off = konst(offset_expr)? as usize;
                        let mut fs = vec![];
                        match e.items {
                            ElementItems::Functions(r) => {
                                for f in r {
                                    fs.push(f.map_err(es)?)
                                }
                            }
                            _ => return Err("element expressions".into()),
                        }
                        if m.table.len() < off + fs.len() {
                            m.table.resize(off + fs.len(), u32::MAX);
                        }
                        m.table[off..off + fs.len()].copy_from_slice(&fs);
                    }
                }
            }
            Payload::DataSection(r) => {
                for d in r {
                    let d = d.map_err(es)?;
                    if let DataKind::Active { offset_expr, .. } = &d.kind {
                        m.data.push((konst(offset_expr)? as usize, d.data.to_vec()));
                    }
                }
            }
            Payload::StartSection { func, .. } => m.start = Some(func),
            Payload::CodeSectionEntry(b) => {
                bodies.push((nimp + body_i, b));
                body_i += 1;
            }
            Payload::CustomSection(c) => {
                if c.name() == "name" {
                    if let wasmparser::KnownCustom::Name(r) = c.as_known() {
                        for n in r {
                            if let Ok(Name::Function(map)) = n {
                                for x in map {
                                    if let Ok(x) = x {
                                        if (x.index as usize) < m.funcs.len() {
                                            m.funcs[x.index as usize].name = x.name.to_string();
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    let sigs: Vec<FType> = m.funcs.iter().map(|f| f.ty.clone()).collect();
    for (fi, b) in bodies {
        let ty = sigs[fi].clone();
        let mut nlocals = ty.params;
        for l in b.get_locals_reader().map_err(es)? {
            let (n, t): (u32, ValType) = l.map_err(es)?;
            let _ = t;
            nlocals += n as usize;
        }
        let mut c = C {
            f: Func { ty: ty.clone(), ..Default::default() },
            st: vec![],
            ctl: vec![Ctl { kind: 3, height: 0, nparams: 0, nresults: ty.results, loop_pc: 0, fix: vec![], tfix: vec![], else_fix: None, unreachable: false, entry_unreachable: false }],
            types: &m.types,
            nlocals,
            maxh: 0,
            barrier: 0,
        };
        for o in b.get_operators_reader().map_err(es)? {
            let o = o.map_err(es)?;
            if let Operator::Call { function_index } = o {
                if !c.ctl.last().map(|c| c.unreachable).unwrap_or(false) {
                    c.flush();
                    let t = sigs[function_index as usize].clone();
                    let base = c.slot(c.st.len() - t.params);
                    c.emit(Ins::Call { f: function_index, base });
                    let n = c.st.len() - t.params;
                    c.st.truncate(n);
                    for _ in 0..t.results {
                        c.push(E::Slot);
                    }
                }
                continue;
            }
            c.op(&o).map_err(|e| format!("func {}: {}", fi, e))?;
        }
        let mut f = c.f;
        f.nlocals = nlocals;
        f.nregs = nlocals + c.maxh + 2;
        f.name = std::mem::take(&mut m.funcs[fi].name);
        f.tyidx = m.funcs[fi].tyidx;
        m.funcs[fi] = f;
    }
    Ok(m)
}

fn konst(e: &wasmparser::ConstExpr) -> Result<u64, String> {
    let mut r = e.get_operators_reader();
    match r.read().map_err(|e| e.to_string())? {
        Operator::I32Const { value } => Ok(value as u32 as u64),
        Operator::I64Const { value } => Ok(value as u64),
        Operator::RefNull { .. } => Ok(u32::MAX as u64),
        o => Err(format!("const expr {:?}", o)),
    }
}
