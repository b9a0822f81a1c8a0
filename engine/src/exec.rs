//! Symbolic executor for the compiled wasm: depth-first over all feasible paths,
//! with undo journal, path conditions as variable domains plus multi-variable
//! constraints, witness models, and z3 for what domains cannot decide.
#[path = "merge.rs"]
mod merge;
use crate::sym::*;
use crate::wasm::*;
use crate::z3ffi::{Ast, Res, Z3};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum TB {
    K(u8),
    S(u16, Arc<[u8]>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Tokenize,
    Parse,
    /// in a new instance of the module
    FreshTokenize,
    FreshParse,
}
impl Entry {
    pub fn parse(self) -> bool {
        matches!(self, Entry::Parse | Entry::FreshParse)
    }
    pub fn fresh(self) -> bool {
        matches!(self, Entry::FreshTokenize | Entry::FreshParse)
    }
}
#[derive(Clone, Debug)]
pub struct Template {
    pub id: String,
    pub nvals: Vec<usize>,
    pub calls: Vec<(Entry, Vec<TB>)>,
    /// runs of variables (first, one past the last) that end a word: once one of them is
    /// its last value (a space), so are all the later ones of the run
    pub runs: Vec<(u16, u16)>,
}
impl Template {
    pub fn render(&self, call: usize, model: &[u8]) -> Vec<u8> {
        self.calls[call]
            .1
            .iter()
            .map(|b| match b {
                TB::K(c) => *c,
                TB::S(v, t) => t[model[*v as usize] as usize],
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub enum Js {
    Num(f64),
    BigInt(u64),
    Str(Vec<V>),
    Arr(Vec<u32>),
    Obj(Vec<(Vec<u8>, u32)>),
    Map(Vec<(u32, u32)>),
    Error,
}
pub const PROFILE: bool = false;
pub const H0: u32 = 1024;

#[derive(Clone, Debug)]
pub enum Stop {
    Trap(String),
    Fuel,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Out {
    Ok(u32),
    Err(u32),
    Trap(String),
    Hang,
    Unsupported(String),
}

#[derive(Clone, Copy)]
struct Frame {
    f: u32,
    pc: u32,
    base: u32,
}

#[derive(Clone)]
pub struct PathState {
    pub doms: Vec<Set>,
    pub cons: Vec<(Id, bool)>,
    pub assumed: FxMap<Id, bool>,
    pub model: Vec<u8>,
}

enum J {
    M { addr: u32, n: u8, sh: bool, old: u64 },
    Grow { pages: usize },
    Js { obj: u32, old: Js },
}
struct Choice {
    eval: bool,
    ps: PathState,
    regs: Vec<V>,
    frames: Vec<Frame>,
    cur: Frame,
    globals: Vec<V>,
    jmark: usize,
    shmark: usize,
    jslen: usize,
    steps: u64,
    step: usize,
    results: Vec<Out>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Host {
    StringNew,
    DropRef,
    CloneRef,
    IsString,
    NewArray,
    NewObject,
    NewMap,
    NewError,
    SetIdx,
    SetKey,
    MapSet,
    NumberNew,
    BigIntU64,
    ErrorNew,
    Throw,
    Nop0,
    RegexValid,
    RegexMatch,
    TableGrow,
    Memcmp,
    Memcpy,
    Memset,
    Panic,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub merges: u64,
    pub steps: u64,
    pub forks: u64,
    pub z3_feas: u64,
    pub z3_final: u64,
    pub quick_models: u64,
    pub z3_ms: f64,
    pub unsupported: u64,
    pub paths: u64,
}

/// What is shared by all workers: the module and the state right after instantiation.
pub struct Program {
    pub m: Module,
    lives: Vec<std::sync::OnceLock<merge::Live>>,
    /// str::to_uppercase, the allocator, and where the result's pointer lies
    upper: Option<(u32, u32, usize)>,
    hosts: Vec<Option<Host>>,
    mem0: Vec<u8>,
    ret_ptr: u32,
    malloc: u32,
    parse: u32,
    tokenize: u32,
}

pub struct Machine {
    p: Arc<Program>,
    mem: Vec<u8>,
    sh: Vec<u32>,
    globals: Vec<V>,
    regs: Vec<V>,
    frames: Vec<Frame>,
    cur: Frame,
    pub js: Vec<Js>,
    pub ar: Arena,
    pub ps: PathState,
    journal: Vec<J>,
    shj: Vec<[u32; 8]>,
    choices: Vec<Choice>,
    steps: u64,
    pub fuel: u64,
    /// more steps for longer inputs
    pub extra: u64,
    /// exploration ends early after this moment, or when the flag is set
    pub deadline: Option<std::time::Instant>,
    pub stop: Option<Arc<std::sync::atomic::AtomicBool>>,
    step: usize,
    pub results: Vec<Out>,
    pub tmpl: Arc<Template>,
    z3: Option<Z3>,
    z3vars: Vec<Ast>,
    z3bounds: Vec<Ast>,
    assumes: Vec<Id>,
    pub prof: HashMap<u32, u64>,
    prof_last: (u32, u64),
    z3_uses: u32,
    z3memo: HashMap<Id, Ast>,
    z3lit: HashMap<(u16, Set), Ast>,
    pub stats: Stats,
    regexes: HashMap<Vec<u8>, Arc<regex_automata::dfa::dense::DFA<Vec<u32>>>>,
    in_eval: bool,
    pub executed: Vec<bool>,
    used_hi: usize,
    sh_hi: usize,
}

const REGS: usize = 1 << 18;
const MEM_CAP: usize = 256 << 20;

fn host_of(name: &str) -> Host {
    if name.starts_with("__wbg_new_254fa9eac11932ae") {
        return Host::NewArray;
    }
    if name.starts_with("__wbg_new_688846f374351c92") {
        return Host::NewObject;
    }
    if name.starts_with("__wbg_new_bc96c6a1c0786643") {
        return Host::NewMap;
    }
    if name.starts_with("__wbg_new_8a6f238a6ece86ea") {
        return Host::NewError;
    }
    if name.starts_with("__wbg_set_1d80752d0d5f0b21") {
        return Host::SetIdx;
    }
    if name.starts_with("__wbg_set_3f1d0b984ed272ed") {
        return Host::SetKey;
    }
    if name.starts_with("__wbg_set_76818dc3c59a63d5") {
        return Host::MapSet;
    }
    match name {
        "__wbindgen_string_new" => Host::StringNew,
        "__wbindgen_object_drop_ref" => Host::DropRef,
        "__wbindgen_object_clone_ref" => Host::CloneRef,
        "__wbindgen_is_string" => Host::IsString,
        "__wbindgen_number_new" => Host::NumberNew,
        "__wbindgen_bigint_from_u64" => Host::BigIntU64,
        "__wbindgen_error_new" => Host::ErrorNew,
        "__wbindgen_throw" => Host::Throw,
        "__wbindgen_externref_table_set_null" => Host::Nop0,
        "__wbindgen_externref_table_grow" => Host::TableGrow,
        "regex_valid" => Host::RegexValid,
        "regex_is_match" => Host::RegexMatch,
        _ => Host::Unknown,
    }
}

impl Program {
    pub fn load(wasm: &[u8]) -> Result<Arc<Program>, String> {
        let m = load(wasm)?;
        let mut hosts = vec![None; m.funcs.len()];
        for (i, f) in m.funcs.iter().enumerate() {
            if f.import.is_some() {
                hosts[i] = Some(host_of(&f.import.as_ref().unwrap().1));
            } else if f.name == "memcmp" || f.name == "bcmp" {
                hosts[i] = Some(Host::Memcmp);
            } else if f.name == "memcpy" || f.name == "memmove" {
                hosts[i] = Some(Host::Memcpy);
            } else if f.name == "memset" {
                hosts[i] = Some(Host::Memset);
            } else if f.name.contains("rust_panic_with_hook") || (f.name.contains("panicking") && f.name.contains("panic_fmt")) {
                hosts[i] = Some(Host::Panic);
            }
        }
        let mut mem0 = vec![0u8; m.mem_pages << 16];
        for (o, d) in &m.data {
            mem0[*o..*o + d.len()].copy_from_slice(d);
        }
        let g = |n: &str| m.exports.get(n).copied().ok_or(format!("no export {}", n));
        let (malloc, parse, tokenize) = (g("__wbindgen_malloc")?, g("parse")?, g("tokenize")?);
        let lives = m.funcs.iter().map(|_| Default::default()).collect();
        let mut p = Program { lives, upper: None, hosts, mem0, ret_ptr: 0, malloc, parse, tokenize, m };
        if p.m.funcs[parse as usize].ty.params != 3 {
            return Err("unexpected ABI of parse".into());
        }
        // allocate the return area in the initial state
        let t = Arc::new(Template { id: "init".into(), nvals: vec![], calls: vec![], runs: vec![] });
        let p0 = Arc::new(p);
        let mut mc = Machine::new(p0.clone());
        mc.reset(t);
        let ptr = mc.call_concrete(malloc, &[16, 8]).map_err(|e| format!("{:?}", e))?;
        let mem = std::mem::take(&mut mc.mem);
        let globals: Vec<u64> = mc.globals.iter().map(|v| v.c).collect();
        // std's ASCII upper-casing is answered directly when that agrees with std's own code here
        let find = |n: &str| p0.m.funcs.iter().position(|f| f.name.contains(n)).map(|i| i as u32);
        let mut upper = None;
        if let (Some(u), Some(al)) = (find("3stre12to_uppercase"), find("12___rust_alloc")) {
            if p0.m.funcs[u as usize].ty.params == 3 && p0.m.funcs[al as usize].ty.params == 2 {
                let mut at: Option<usize> = None;
                let mut ok = true;
                for s in ["ab", "select_1 x", "Zz{~@`", "0123456789abcdefghijklmnopqrstuvwxyz[]", "q"] {
                    mc.mem = p0.mem0.clone();
                    mc.reset(Arc::new(Template { id: String::new(), nvals: vec![], calls: vec![], runs: vec![] }));
                    let a = mc.call_concrete(malloc, &[s.len() as u64, 1]).unwrap_or(0) as usize;
                    let r = mc.call_concrete(malloc, &[16, 8]).unwrap_or(0) as usize;
                    mc.mem[a..a + s.len()].copy_from_slice(s.as_bytes());
                    if mc.call_concrete(u, &[r as u64, a as u64, s.len() as u64]).is_err() {
                        ok = false;
                        break;
                    }
                    let w: Vec<usize> = (0..3).map(|i| mc.rd(r + 4 * i, 4) as usize).collect();
                    let want = s.to_ascii_uppercase();
                    let p = (0..3).find(|i| w[*i] > 1024 && mc.mem.get(w[*i]..w[*i] + s.len()) == Some(want.as_bytes()));
                    ok &= p.is_some() && (0..3).filter(|i| Some(*i) != p).all(|i| w[i] == s.len()) && (at.is_none() || at == p);
                    at = p;
                }
                if ok {
                    upper = Some((u, al, at.unwrap()));
                }
            }
        }
        drop(mc);
        p = Arc::try_unwrap(p0).map_err(|_| "arc")?;
        p.upper = upper;
        p.mem0 = mem;
        p.m.globals = globals;
        p.ret_ptr = ptr as u32;
        Ok(Arc::new(p))
    }
}

macro_rules! r {
    ($s:expr, $b:expr, $i:expr) => {
        *$s.get_unchecked($b + $i as usize)
    };
}

impl Machine {
    pub fn new(p: Arc<Program>) -> Machine {
        let nf = p.m.funcs.len();
        Machine {
            mem: vec![],
            sh: vec![],
            globals: vec![],
            regs: vec![V::k(0); REGS],
            frames: vec![],
            cur: Frame { f: 0, pc: 0, base: 0 },
            js: vec![],
            ar: Arena::new(vec![]),
            ps: PathState { doms: vec![], cons: vec![], assumed: FxMap::default(), model: vec![] },
            journal: vec![],
            shj: vec![],
            choices: vec![],
            steps: 0,
            deadline: None,
            stop: None,
            fuel: 60_000_000,
            extra: 0,
            step: 0,
            results: vec![],
            tmpl: Arc::new(Template { id: String::new(), nvals: vec![], calls: vec![], runs: vec![] }),
            z3: None,
            z3vars: vec![],
            z3bounds: vec![],
            assumes: vec![],
            prof: HashMap::new(),
            prof_last: (0, 0),
            z3_uses: 0,
            z3memo: HashMap::new(),
            z3lit: HashMap::new(),
            stats: Stats::default(),
            regexes: HashMap::new(),
            in_eval: false,
            executed: vec![false; nf],
            used_hi: 0,
            sh_hi: 0,
            p,
        }
    }
    pub fn reset(&mut self, t: Arc<Template>) {
        // looking ahead from each of n places takes n * n steps
        self.extra = t.calls.iter().map(|c| c.1.len().saturating_sub(150) as u64).map(|n| n * 20_000 + n.min(1000).pow(2) * 20_000).sum::<u64>();
        let p = self.p.clone();
        self.mem.truncate(p.mem0.len());
        if self.mem.len() == p.mem0.len() {
            self.mem.copy_from_slice(&p.mem0);
        } else {
            self.mem = p.mem0.clone();
        }
        if self.sh.len() >= self.mem.len() {
            let hi = self.sh_hi.min(self.sh.len());
            for x in &mut self.sh[..hi] {
                *x = 0;
            }
            self.sh.truncate(self.mem.len());
        } else {
            self.sh = vec![0; self.mem.len()];
        }
        self.sh_hi = 0;
        self.globals = p.m.globals.iter().map(|g| V::k(*g)).collect();
        self.frames.clear();
        self.js.clear();
        self.ar = Arena::new(t.nvals.clone());
        self.ps = PathState {
            doms: t.nvals.iter().map(|n| set_full(*n)).collect(),
            cons: vec![],
            assumed: FxMap::default(),
            model: vec![0; t.nvals.len()],
        };
        self.journal.clear();
        self.shj.clear();
        self.choices.clear();
        self.steps = 0;
        self.prof_last = (0, 0);
        self.step = 0;
        self.results.clear();
        if self.z3_uses > 250 {
            self.z3 = None;
            self.z3_uses = 0;
        }
        self.z3vars.clear();
        self.z3memo.clear();
        self.z3lit.clear();
        self.in_eval = false;
        self.assumes.clear();
        for (a, b) in &t.runs {
            for v in *a..*b - 1 {
                let sp = |ar: &mut Arena, v: u16, yes: bool| {
                    let n = t.nvals[v as usize];
                    ar.tab(v, (0..n).map(|i| ((i == n - 1) == yes) as u64).collect())
                };
                let x = sp(&mut self.ar, v, true);
                let y = sp(&mut self.ar, v + 1, false);
                let c = self.ar.and(&[x, y]);
                let ok = self.add(c.s, false);
                debug_assert!(ok);
                self.assumes.push(c.s);
            }
        }
        self.tmpl = t;
    }
    // ---------------------------------------------------------------- memory
    #[inline(always)]
    fn any_sh(&self, a: usize, n: usize) -> bool {
        unsafe {
            let p = self.sh.as_ptr().add(a);
            match n {
                1 => *p != 0,
                2 => std::ptr::read_unaligned(p as *const u64) != 0,
                4 => std::ptr::read_unaligned(p as *const u128) != 0,
                _ => std::ptr::read_unaligned(p as *const u128) | std::ptr::read_unaligned(p.add(4) as *const u128) != 0,
            }
        }
    }
    #[inline(always)]
    fn rd(&self, a: usize, n: usize) -> u64 {
        unsafe {
            let p = self.mem.as_ptr().add(a);
            match n {
                1 => *p as u64,
                2 => std::ptr::read_unaligned(p as *const u16) as u64,
                4 => std::ptr::read_unaligned(p as *const u32) as u64,
                _ => std::ptr::read_unaligned(p as *const u64),
            }
        }
    }
    #[inline(always)]
    fn wr(&mut self, a: usize, n: usize, v: u64) {
        unsafe {
            let p = self.mem.as_mut_ptr().add(a);
            match n {
                1 => *p = v as u8,
                2 => std::ptr::write_unaligned(p as *mut u16, v as u16),
                4 => std::ptr::write_unaligned(p as *mut u32, v as u32),
                _ => std::ptr::write_unaligned(p as *mut u64, v),
            }
        }
    }
    #[inline(always)]
    fn log(&mut self, a: usize, n: usize, sh: bool) {
        if !self.choices.is_empty() {
            let old = self.rd(a, n);
            if sh {
                let mut x = [0u32; 8];
                x[..n].copy_from_slice(&self.sh[a..a + n]);
                self.shj.push(x);
            }
            self.journal.push(J::M { addr: a as u32, n: n as u8, sh, old });
        }
    }
    #[inline(always)]
    fn store(&mut self, a: usize, n: usize, v: V) {
        if v.s == 0 {
            if self.any_sh(a, n) {
                self.log(a, n, true);
                self.sh[a..a + n].fill(0);
            } else {
                self.log(a, n, false);
            }
            self.wr(a, n, v.c);
        } else {
            self.log(a, n, true);
            self.sh_hi = self.sh_hi.max(a + n);
            for i in 0..n {
                let b = self.ar.byte(v, i);
                self.mem[a + i] = b.c as u8;
                self.sh[a + i] = b.s;
            }
        }
    }
    fn byte_at(&self, a: usize) -> V {
        if self.sh[a] == 0 {
            V::k(self.mem[a] as u64)
        } else {
            V { c: 0, s: self.sh[a] }
        }
    }
    pub fn read_bytes(&self, a: usize, n: usize) -> Vec<V> {
        (a..a + n).map(|i| self.byte_at(i)).collect()
    }
    fn load_sym(&mut self, k: LK, a: usize) -> V {
        let b = self.read_bytes(a, k.size());
        let v = self.ar.cat(&b);
        self.ext(k, v)
    }
    fn ext(&mut self, k: LK, v: V) -> V {
        match k {
            LK::L8S => self.ar.bin(Op::Ext8S32, v, V::k(0)),
            LK::L16S => self.ar.bin(Op::Ext16S32, v, V::k(0)),
            LK::L8S64 => self.ar.bin(Op::Ext8S64, v, V::k(0)),
            LK::L16S64 => self.ar.bin(Op::Ext16S64, v, V::k(0)),
            LK::L32S64 => self.ar.bin(Op::ExtS3264, v, V::k(0)),
            _ => v,
        }
    }
    // --------------------------------------------------------- path condition
    fn quick(&mut self, id: Id) -> Option<bool> {
        if let Ex::Tab { var, .. } = &self.ar.ex[id as usize] {
            let d = self.ps.doms[*var as usize];
            let (_, s) = self.ar.truth_set(id);
            if set_empty(&set_minus(&d, &s)) {
                return Some(true);
            }
            if set_empty(&set_and(&d, &s)) {
                return Some(false);
            }
            return None;
        }
        if let Some(b) = self.ps.assumed.get(&id) {
            return Some(*b);
        }
        match &self.ar.ex[id as usize] {
            Ex::And { l } => {
                let l = l.clone();
                let mut all = true;
                for i in l.iter() {
                    match self.quick(*i) {
                        Some(false) => return Some(false),
                        Some(true) => (),
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Ex::Not { a } => {
                let a = *a;
                self.quick(a).map(|b| !b)
            }
            _ => None,
        }
    }
    /// adds a fact; false when a domain becomes empty
    fn add(&mut self, id: Id, val: bool) -> bool {
        match &self.ar.ex[id as usize] {
            Ex::Tab { var, .. } => {
                let var = *var;
                let (_, s) = self.ar.truth_set(id);
                let d = &mut self.ps.doms[var as usize];
                *d = if val { set_and(d, &s) } else { set_minus(d, &s) };
                !set_empty(d)
            }
            Ex::Not { a } => {
                let a = *a;
                self.ps.assumed.insert(id, val);
                self.add(a, !val)
            }
            Ex::And { l } if val => {
                let l = l.clone();
                self.ps.assumed.insert(id, val);
                l.iter().all(|i| self.add(*i, true))
            }
            _ => {
                if let Some(b) = self.ps.assumed.insert(id, val) {
                    return b == val;
                }
                self.ps.cons.push((id, val));
                true
            }
        }
    }
    /// unit propagation over the negated conjunctions; false on conflict
    fn propagate(&mut self) -> bool {
        loop {
            let mut changed = false;
            for ci in 0..self.ps.cons.len() {
                let (id, val) = self.ps.cons[ci];
                if val {
                    continue;
                }
                let l = match &self.ar.ex[id as usize] {
                    Ex::And { l } => l.clone(),
                    _ => continue,
                };
                let mut open = None;
                let mut nopen = 0;
                let mut sat = false;
                for i in l.iter() {
                    match self.quick(*i) {
                        Some(false) => {
                            sat = true;
                            break;
                        }
                        Some(true) => (),
                        None => {
                            nopen += 1;
                            open = Some(*i);
                        }
                    }
                }
                if sat {
                    continue;
                }
                if nopen == 0 {
                    return false;
                }
                if nopen == 1 {
                    let o = open.unwrap();
                    if let Ex::Tab { .. } = &self.ar.ex[o as usize] {
                        if !self.add(o, false) {
                            return false;
                        }
                        changed = true;
                    }
                }
            }
            if !changed {
                return true;
            }
        }
    }
    fn model_ok(&self) -> Option<usize> {
        for (i, (id, val)) in self.ps.cons.iter().enumerate() {
            if (self.ar.eval(V { c: 0, s: *id }, &self.ps.model) != 0) != *val {
                return Some(i);
            }
        }
        None
    }
    /// makes ps.model satisfy the path condition; false when none exists
    fn solve(&mut self) -> bool {
        if !self.propagate() {
            return false;
        }
        for v in 0..self.ps.doms.len() {
            if !set_has(&self.ps.doms[v], self.ps.model[v]) {
                match set_first(&self.ps.doms[v]) {
                    Some(x) => self.ps.model[v] = x,
                    None => return false,
                }
            }
        }
        for round in 0..24 {
            let bad = match self.model_ok() {
                None => {
                    self.stats.quick_models += 1;
                    return true;
                }
                Some(b) => b,
            };
            let (id, val) = self.ps.cons[bad];
            let l = match &self.ar.ex[id as usize] {
                Ex::And { l } if !val => l.clone(),
                _ => Box::new([]),
            };
            let mut fixed = false;
            let k = l.len();
            for j in 0..k {
                let i = l[(j + round) % k];
                if let Ex::Tab { var, .. } = &self.ar.ex[i as usize] {
                    let var = *var as usize;
                    let (_, s) = self.ar.truth_set(i);
                    let c = set_minus(&self.ps.doms[var], &s);
                    let cnt = set_count(&c);
                    if cnt > 0 {
                        let pick = set_iter(&c).nth((round * 7) % cnt as usize).unwrap();
                        self.ps.model[var] = pick;
                        fixed = true;
                        break;
                    }
                }
            }
            if !fixed {
                // one or two variables: search their domains
                let mut vs = vec![];
                self.ar.vars_of(id, &mut vs);
                if vs.len() > 2 {
                    break;
                }
                let a = vs[0] as usize;
                let b = *vs.last().unwrap() as usize;
                let (da, db) = (self.ps.doms[a], self.ps.doms[b]);
                let saved = (self.ps.model[a], self.ps.model[b]);
                let mut any = false;
                let mut skip = round; // vary the choice between rounds
                'pair: for x in set_iter(&da) {
                    for y in set_iter(&db) {
                        if a == b && x != y {
                            continue;
                        }
                        self.ps.model[a] = x;
                        self.ps.model[b] = y;
                        if (self.ar.eval(V { c: 0, s: id }, &self.ps.model) != 0) == val {
                            any = true;
                            if self.model_ok().is_none() || skip == 0 {
                                fixed = true;
                                break 'pair;
                            }
                            skip -= 1;
                        }
                    }
                }
                if !any {
                    return false;
                }
                if !fixed {
                    self.ps.model[a] = saved.0;
                    self.ps.model[b] = saved.1;
                    break;
                }
            }
        }
        if self.model_ok().is_none() {
            return true;
        }
        // ask z3
        self.z3_init();
        let t0 = std::time::Instant::now();
        let mut asserts = vec![];
        for v in 0..self.ps.doms.len() {
            let d = self.ps.doms[v];
            if d != set_full(self.ar.nvals[v]) {
                asserts.push(self.z3_set(v as u16, d));
            }
        }
        for (id, val) in self.ps.cons.clone() {
            let a = self.z3_bool(id);
            let z = self.z3.as_ref().unwrap();
            asserts.push(if val { a } else { z.not(a) });
        }
        let z = self.z3.as_ref().unwrap();
        z.push();
        for a in &self.z3bounds {
            z.assert(*a);
        }
        for a in asserts {
            z.assert(a);
        }
        let res = z.check();
        self.stats.z3_feas += 1;
        let ok = match res {
            Res::Unsat => false,
            Res::Sat => {
                self.ps.model = z.model(&self.z3vars);
                true
            }
            Res::Unknown => {
                // treated as feasible; the final query still has to agree
                true
            }
        };
        z.pop();
        self.stats.z3_ms += t0.elapsed().as_secs_f64() * 1e3;
        ok
    }
    pub fn z3_init(&mut self) {
        if self.z3.is_none() {
            self.z3 = Some(Z3::new(60_000));
        }
        if self.z3vars.is_empty() {
            self.z3_uses += 1;
            self.z3bounds.clear();
            let z = self.z3.as_ref().unwrap();
            for (i, n) in self.ar.nvals.iter().enumerate() {
                let v = z.var8(i as u32);
                self.z3vars.push(v);
                if *n < 256 {
                    self.z3bounds.push(z.ule(v, z.k8(*n as u64 - 1)));
                }
            }
        }
    }
    fn z3_set(&mut self, var: u16, s: Set) -> Ast {
        if let Some(a) = self.z3lit.get(&(var, s)) {
            return *a;
        }
        let n = self.ar.nvals[var as usize];
        let z = self.z3.as_ref().unwrap();
        let v = self.z3vars[var as usize];
        let mut parts = vec![];
        let mut i = 0usize;
        while i < n {
            if set_has(&s, i as u8) {
                let lo = i;
                while i < n && set_has(&s, i as u8) {
                    i += 1;
                }
                let hi = i - 1;
                parts.push(if lo == hi {
                    z.eq(v, z.k8(lo as u64))
                } else if lo == 0 {
                    z.ule(v, z.k8(hi as u64))
                } else if hi == n - 1 {
                    z.ule(z.k8(lo as u64), v)
                } else {
                    z.and(&[z.ule(z.k8(lo as u64), v), z.ule(v, z.k8(hi as u64))])
                });
            } else {
                i += 1;
            }
        }
        let a = match parts.len() {
            0 => z.ff(),
            1 => parts[0],
            _ => z.or(&parts),
        };
        self.z3lit.insert((var, s), a);
        a
    }
    fn z3_bool(&mut self, id: Id) -> Ast {
        match self.ar.ex[id as usize].clone() {
            Ex::Tab { .. } => {
                let (var, s) = self.ar.truth_set(id);
                self.z3_set(var, s)
            }
            Ex::And { l } => {
                let p: Vec<Ast> = l.iter().map(|i| self.z3_bool(*i)).collect();
                self.z3.as_ref().unwrap().and(&p)
            }
            Ex::Not { a } => {
                let x = self.z3_bool(a);
                self.z3.as_ref().unwrap().not(x)
            }
            _ => {
                let x = self.z3_val(V { c: 0, s: id });
                let z = self.z3.as_ref().unwrap();
                z.not(z.eq(x, z.k64(0)))
            }
        }
    }
    fn z3_val(&mut self, v: V) -> Ast {
        if v.s == 0 {
            return self.z3.as_ref().unwrap().k64(v.c);
        }
        if let Some(a) = self.z3memo.get(&v.s) {
            return *a;
        }
        let a = match self.ar.ex[v.s as usize].clone() {
            Ex::Null => unreachable!(),
            Ex::Tab { var, t } => {
                let mut groups: Vec<(u64, Set)> = vec![];
                for (i, x) in t.iter().enumerate() {
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *x) {
                        g.1[i >> 6] |= 1 << (i & 63);
                    } else {
                        let mut s = [0; 4];
                        s[i >> 6] |= 1u64 << (i & 63);
                        groups.push((*x, s));
                    }
                }
                let mut r = self.z3.as_ref().unwrap().k64(groups[0].0);
                for (x, s) in &groups[1..] {
                    let c = self.z3_set(var, *s);
                    let z = self.z3.as_ref().unwrap();
                    r = z.ite(c, z.k64(*x), r);
                }
                r
            }
            Ex::Ite { c, a, b } => {
                let c = self.z3_bool(c);
                let x = self.z3_val(a);
                let y = self.z3_val(b);
                self.z3.as_ref().unwrap().ite(c, x, y)
            }
            Ex::Cat { b } => {
                let mut r = self.z3.as_ref().unwrap().k64(0);
                for (i, x) in b.iter().enumerate() {
                    let x = self.z3_val(*x);
                    let z = self.z3.as_ref().unwrap();
                    let y = z.band(x, z.k64(255));
                    r = z.bor(r, z.shl(y, z.k64(8 * i as u64)));
                }
                r
            }
            Ex::MemDiff { p } => {
                let mut r = self.z3.as_ref().unwrap().k64(0);
                for (x, y) in p.iter().rev() {
                    let x = self.z3_val(*x);
                    let y = self.z3_val(*y);
                    let z = self.z3.as_ref().unwrap();
                    let d = z.band(z.sub(x, y), z.k64(0xffff_ffff));
                    r = z.ite(z.eq(x, y), r, d);
                }
                r
            }
            Ex::And { .. } | Ex::Not { .. } => {
                let b = self.z3_bool(v.s);
                let z = self.z3.as_ref().unwrap();
                z.ite(b, z.k64(1), z.k64(0))
            }
            Ex::Bin { op, a, b } => {
                let x = self.z3_val(a);
                let y = self.z3_val(b);
                let z = self.z3.as_ref().unwrap();
                z3_op(z, op, x, y)
            }
        };
        self.z3memo.insert(v.s, a);
        a
    }
    /// decides a condition on the current path, forking when both outcomes are possible
    pub fn branch(&mut self, v: V) -> bool {
        if v.s == 0 {
            return v.c != 0;
        }
        let v = self.ar.truthy(v);
        if v.s == 0 {
            return v.c != 0;
        }
        if let Some(b) = self.quick(v.s) {
            return b;
        }
        let w = self.ar.eval(v, &self.ps.model) != 0;
        let saved = self.ps.clone();
        let other = if self.add(v.s, !w) && self.solve() { Some(std::mem::replace(&mut self.ps, saved)) } else { self.ps = saved; None };
        let ok = self.add(v.s, w);
        debug_assert!(ok);
        if !ok {
            // cannot happen: the witness satisfies it
            panic!("witness lost");
        }
        self.propagate();
        if let Some(ps) = other {
            self.stats.forks += 1;
            let c = Choice {
                eval: self.in_eval,
                ps,
                regs: if self.in_eval { vec![] } else { self.regs[..self.top()].to_vec() },
                frames: self.frames.clone(),
                cur: self.cur,
                globals: self.globals.clone(),
                jmark: self.journal.len(),
                shmark: self.shj.len(),
                jslen: self.js.len(),
                steps: self.steps,
                step: self.step,
                results: self.results.clone(),
            };
            self.choices.push(c);
        }
        w
    }
    fn top(&self) -> usize {
        self.cur.base as usize + self.p.m.funcs[self.cur.f as usize].nregs + 8
    }
    /// a concrete value for v, forking over the alternatives
    pub fn concretize(&mut self, v: V) -> u64 {
        if v.s == 0 {
            return v.c;
        }
        let x = self.ar.eval(v, &self.ps.model);
        let mut e = self.ar.eq(v, V::k(x));
        if self.branch(e) {
            return x;
        }
        loop {
            let x = self.ar.eval(v, &self.ps.model);
            e = self.ar.eq(v, V::k(x));
            if self.branch(e) {
                return x;
            }
        }
    }
    /// the value if it is the same for all inputs of this path
    pub fn known(&mut self, v: V) -> Option<u64> {
        if v.s == 0 {
            return Some(v.c);
        }
        if let Some((var, t)) = self.ar.get_tab(v.s) {
            let d = &self.ps.doms[var as usize];
            let mut it = set_iter(d);
            let f = t[it.next()? as usize];
            return if it.all(|i| t[i as usize] == f) { Some(f) } else { None };
        }
        None
    }
    fn restore(&mut self, c: Choice) {
        while self.journal.len() > c.jmark {
            match self.journal.pop().unwrap() {
                J::M { addr, n, sh, old } => {
                    let a = addr as usize;
                    let n = n as usize;
                    self.wr(a, n, old);
                    if sh {
                        let x = self.shj.pop().unwrap();
                        self.sh[a..a + n].copy_from_slice(&x[..n]);
                    } else {
                        self.sh[a..a + n].fill(0);
                    }
                }
                J::Grow { pages } => {
                    self.mem.truncate(pages << 16);
                    self.sh.truncate(pages << 16);
                }
                J::Js { obj, old } => self.js[obj as usize] = old,
            }
        }
        debug_assert!(self.shj.len() == c.shmark);
        self.js.truncate(c.jslen);
        self.ps = c.ps;
        self.steps = c.steps;
        self.step = c.step;
        self.results = c.results;
        if !c.eval {
            self.regs[..c.regs.len()].copy_from_slice(&c.regs);
            self.frames = c.frames;
            self.cur = c.cur;
            self.globals = c.globals;
        }
        self.in_eval = c.eval;
    }
    // ------------------------------------------------------------------ calls
    fn enter(&mut self, f: u32, args: &[V]) {
        let base = 16u32;
        for (i, a) in args.iter().enumerate() {
            self.regs[base as usize + i] = *a;
        }
        let fu = &self.p.clone().m.funcs[f as usize];
        for i in args.len()..fu.nlocals {
            self.regs[base as usize + i] = V::k(0);
        }
        self.executed[f as usize] = true;
        self.frames.clear();
        self.cur = Frame { f, pc: 0, base };
    }
    fn call_concrete(&mut self, f: u32, args: &[u64]) -> Result<u64, Stop> {
        let a: Vec<V> = args.iter().map(|x| V::k(*x)).collect();
        self.enter(f, &a);
        self.exec()?;
        Ok(self.regs[16].c)
    }
    /// the module's memory and globals as in a new instance
    fn renew(&mut self) {
        let p = self.p.clone();
        let n = self.mem.len();
        let mut a = 0;
        while a < n {
            let b = (a + 64).min(n);
            let clean = self.sh[a..b].iter().all(|x| *x == 0);
            let same = if b <= p.mem0.len() { self.mem[a..b] == p.mem0[a..b] } else { self.mem[a..b].iter().all(|x| *x == 0) };
            if !clean || !same {
                for x in (a..b).step_by(8) {
                    let mut v = [0u8; 8];
                    for i in 0..8 {
                        v[i] = p.mem0.get(x + i).copied().unwrap_or(0);
                    }
                    self.store(x, 8, V::k(u64::from_le_bytes(v)));
                }
            }
            a = b;
        }
        self.globals = p.m.globals.iter().map(|g| V::k(*g)).collect();
    }
    /// runs the remaining calls of the template on the current path
    fn run(&mut self) {
        let t = self.tmpl.clone();
        while self.step < t.calls.len() * 2 {
            let ci = self.step / 2;
            if self.step % 2 == 0 {
                let (entry, bytes) = &t.calls[ci];
                if entry.fresh() {
                    self.renew();
                }
                let ptr = match self.call_concrete(self.p.malloc, &[bytes.len() as u64, 1]) {
                    Ok(p) => p,
                    Err(e) => {
                        self.finish(e);
                        return;
                    }
                };
                for (i, b) in bytes.iter().enumerate() {
                    let v = match b {
                        TB::K(c) => V::k(*c as u64),
                        TB::S(var, tab) => self.ar.tab(*var, tab.iter().map(|x| *x as u64).collect()),
                    };
                    self.store(ptr as usize + i, 1, v);
                }
                let f = if entry.parse() { self.p.parse } else { self.p.tokenize };
                let ret = self.p.ret_ptr as u64;
                self.enter(f, &[V::k(ret), V::k(ptr), V::k(bytes.len() as u64)]);
                self.step += 1;
            }
            match self.exec() {
                Ok(()) => {
                    let r = self.p.ret_ptr as usize;
                    let get = |m: &Machine, o: usize| m.rd(r + o, 4) as u32;
                    if self.any_sh(r, 8) || self.any_sh(r + 4, 8) {
                        self.finish(Stop::Unsupported("symbolic result handle".into()));
                        return;
                    }
                    let (ok, err, is_err) = (get(self, 0), get(self, 4), get(self, 8));
                    self.results.push(if is_err != 0 { Out::Err(err) } else { Out::Ok(ok) });
                    self.step += 1;
                }
                Err(e) => {
                    self.finish(e);
                    return;
                }
            }
        }
    }
    fn finish(&mut self, s: Stop) {
        self.results.push(match s {
            Stop::Trap(m) => Out::Trap(m),
            Stop::Fuel => Out::Hang,
            Stop::Unsupported(m) => {
                self.stats.unsupported += 1;
                Out::Unsupported(m)
            }
        });
        self.step = usize::MAX / 2;
    }
    fn js_new(&mut self, j: Js) -> V {
        self.js.push(j);
        V::k((self.js.len() - 1) as u64 + H0 as u64)
    }
    fn js_mut(&mut self, h: u64) -> Result<&mut Js, Stop> {
        let i = (h as u32).wrapping_sub(H0) as usize;
        if i >= self.js.len() {
            return Err(Stop::Unsupported(format!("js handle {}", h)));
        }
        if !self.choices.is_empty() {
            let old = self.js[i].clone();
            self.journal.push(J::Js { obj: i as u32, old });
        }
        Ok(&mut self.js[i])
    }
    fn host(&mut self, h: Host, f: u32, base: usize) -> Result<(), Stop> {
        let a: Vec<V> = (0..6).map(|i| self.regs[base + i]).collect();
        let mut k = |m: &mut Machine, i: usize| m.concretize(a[i]);
        let ret = match h {
            Host::StringNew => {
                let (p, n) = (k(self, 0) as usize, k(self, 1) as usize);
                let b = self.read_bytes(p, n);
                self.js_new(Js::Str(b))
            }
            Host::DropRef | Host::Nop0 => V::k(0),
            Host::CloneRef => a[0],
            Host::IsString => {
                let h = k(self, 0) as u32;
                let s = h >= H0 && matches!(self.js.get((h - H0) as usize), Some(Js::Str(_)));
                V::k(s as u64)
            }
            Host::NewArray => self.js_new(Js::Arr(vec![])),
            Host::NewObject => self.js_new(Js::Obj(vec![])),
            Host::NewMap => self.js_new(Js::Map(vec![])),
            Host::NewError | Host::ErrorNew => self.js_new(Js::Error),
            Host::NumberNew => {
                let x = k(self, 0);
                self.js_new(Js::Num(f64::from_bits(x)))
            }
            Host::BigIntU64 => {
                let x = k(self, 0);
                self.js_new(Js::BigInt(x))
            }
            Host::SetIdx => {
                let (o, i, v) = (k(self, 0), k(self, 1) as usize, k(self, 2) as u32);
                match self.js_mut(o)? {
                    Js::Arr(x) => {
                        if i > 1_000_000 {
                            return Err(Stop::Unsupported("huge array".into()));
                        }
                        if x.len() <= i {
                            x.resize(i + 1, 128);
                        }
                        x[i] = v;
                    }
                    _ => return Err(Stop::Unsupported("set on non-array".into())),
                }
                V::k(0)
            }
            Host::SetKey => {
                let (o, kh, v) = (k(self, 0), k(self, 1) as u32, k(self, 2) as u32);
                let key = match self.js.get(kh.wrapping_sub(H0) as usize) {
                    Some(Js::Str(b)) => b.clone(),
                    _ => return Err(Stop::Unsupported("non-string key".into())),
                };
                let key: Vec<u8> = key.iter().map(|b| self.concretize(*b) as u8).collect();
                match self.js_mut(o)? {
                    Js::Obj(x) => {
                        if let Some(e) = x.iter_mut().find(|e| e.0 == key) {
                            e.1 = v
                        } else {
                            x.push((key, v))
                        }
                    }
                    _ => return Err(Stop::Unsupported("set on non-object".into())),
                }
                V::k(0)
            }
            Host::MapSet => {
                let (o, kk, v) = (k(self, 0), k(self, 1) as u32, k(self, 2) as u32);
                match self.js_mut(o)? {
                    Js::Map(x) => x.push((kk, v)),
                    _ => return Err(Stop::Unsupported("set on non-map".into())),
                }
                a[0]
            }
            Host::Throw => return Err(Stop::Trap("__wbindgen_throw".into())),
            Host::Panic => {
                let mut names = vec![];
                for fr in self.frames.iter().rev().chain([self.cur].iter().rev()).take(60) {
                    let n = &self.p.m.funcs[fr.f as usize].name;
                    if n.contains("bq2cst") {
                        names.push(n.clone());
                        if names.len() >= 2 {
                            break;
                        }
                    }
                }
                return Err(Stop::Trap(format!("panic in {}", names.join(" < "))));
            }
            Host::TableGrow => V::k(u32::MAX as u64),
            Host::RegexValid => {
                let (p, n) = (k(self, 0) as usize, k(self, 1) as usize);
                let pat = self.read_bytes(p, n);
                if pat.iter().any(|b| b.s != 0) {
                    return Err(Stop::Unsupported("symbolic regex".into()));
                }
                let pat: Vec<u8> = pat.iter().map(|b| b.c as u8).collect();
                V::k(self.regex(&pat).is_some() as u64)
            }
            Host::RegexMatch => {
                let (p, n) = (k(self, 0) as usize, k(self, 1) as usize);
                let (hp, hn) = (k(self, 2) as usize, k(self, 3) as usize);
                let pat: Vec<u8> = self.read_bytes(p, n).iter().map(|b| b.c as u8).collect();
                let hay = self.read_bytes(hp, hn);
                let dfa = self.regex(&pat).ok_or(Stop::Unsupported("regex".into()))?;
                V::k(self.regex_run(&dfa, &hay) as u64)
            }
            Host::Memcmp => {
                let (p, q, n) = (k(self, 0) as usize, k(self, 1) as usize, k(self, 2) as usize);
                let (x, y) = (&self.mem[p..p + n], &self.mem[q..q + n]);
                if self.sh[p..p + n].iter().all(|s| *s == 0) && self.sh[q..q + n].iter().all(|s| *s == 0) {
                    let mut r = 0i32;
                    for i in 0..n {
                        if x[i] != y[i] {
                            r = x[i] as i32 - y[i] as i32;
                            break;
                        }
                    }
                    V::k(r as u32 as u64)
                } else {
                    let pairs: Vec<(V, V)> = (0..n).map(|i| (self.byte_at(p + i), self.byte_at(q + i))).collect();
                    self.ar.memdiff(pairs)
                }
            }
            Host::Memcpy => {
                let (d, s, n) = (k(self, 0) as usize, k(self, 1) as usize, k(self, 2) as usize);
                self.memcpy(d, s, n)?;
                a[0]
            }
            Host::Memset => {
                let (d, n) = (k(self, 0) as usize, k(self, 2) as usize);
                self.memfill(d, a[1], n)?;
                a[0]
            }
            Host::Unknown => return Err(Stop::Unsupported(format!("import {}", self.p.m.funcs[f as usize].name))),
        };
        if self.p.m.funcs[f as usize].ty.results > 0 {
            self.regs[base] = ret;
        }
        Ok(())
    }
    fn regex(&mut self, pat: &[u8]) -> Option<Arc<regex_automata::dfa::dense::DFA<Vec<u32>>>> {
        if let Some(d) = self.regexes.get(pat) {
            return Some(d.clone());
        }
        let s = std::str::from_utf8(pat).ok()?;
        let d = regex_automata::dfa::dense::Builder::new()
            .configure(regex_automata::dfa::dense::Config::new().dfa_size_limit(Some(4 << 20)).determinize_size_limit(Some(8 << 20)))
            .build(s)
            .ok()?;
        let d = Arc::new(d);
        self.regexes.insert(pat.to_vec(), d.clone());
        Some(d)
    }
    fn regex_run(&mut self, dfa: &regex_automata::dfa::dense::DFA<Vec<u32>>, hay: &[V]) -> bool {
        use regex_automata::dfa::Automaton;
        use regex_automata::util::start;
        use regex_automata::Anchored;
        let mut st = dfa.start_state(&start::Config::new().anchored(Anchored::No)).unwrap();
        for b in hay {
            // fork over the possible successor states
            let x = self.ar.eval(*b, &self.ps.model) as u8;
            let nx = dfa.next_state(st, x);
            if b.s != 0 {
                let mut nx = nx;
                loop {
                    let mut same = vec![];
                    for c in 0..=255u8 {
                        if dfa.next_state(st, c) == nx {
                            same.push(c);
                        }
                    }
                    let cond = self.in_set(*b, &same);
                    if self.branch(cond) {
                        break;
                    }
                    let x = self.ar.eval(*b, &self.ps.model) as u8;
                    nx = dfa.next_state(st, x);
                }
                st = nx;
            } else {
                st = nx;
            }
            if dfa.is_match_state(st) {
                return true;
            }
            if dfa.is_dead_state(st) {
                return false;
            }
        }
        st = dfa.next_eoi_state(st);
        dfa.is_match_state(st)
    }
    /// boolean "b is one of the given bytes"
    pub fn in_set(&mut self, b: V, set: &[u8]) -> V {
        if b.s == 0 {
            return V::k(set.contains(&(b.c as u8)) as u64);
        }
        if let Some((var, t)) = self.ar.get_tab(b.s) {
            let mut has = [false; 256];
            for c in set {
                has[*c as usize] = true;
            }
            let t = t.iter().map(|x| (*x < 256 && has[*x as usize]) as u64).collect();
            return self.ar.tab(var, t);
        }
        let parts: Vec<V> = set.iter().map(|c| self.ar.eq(b, V::k(*c as u64))).collect();
        self.ar.or(&parts)
    }
    fn memcpy(&mut self, d: usize, s: usize, n: usize) -> Result<(), Stop> {
        if d + n > self.mem.len() || s + n > self.mem.len() {
            return Err(Stop::Trap("memory.copy out of bounds".into()));
        }
        if n == 0 {
            return Ok(());
        }
        let sym = self.sh_hi > 0 && (self.sh[s..s + n].iter().any(|x| *x != 0) || self.sh[d..d + n].iter().any(|x| *x != 0));
        let mut i = 0;
        while i < n {
            let c = if n - i >= 8 { 8 } else { 1 };
            self.log(d + i, c, sym);
            i += c;
        }
        self.mem.copy_within(s..s + n, d);
        if sym {
            self.sh.copy_within(s..s + n, d);
            self.sh_hi = self.sh_hi.max(d + n);
        }
        Ok(())
    }
    fn memfill(&mut self, d: usize, v: V, n: usize) -> Result<(), Stop> {
        if d + n > self.mem.len() {
            return Err(Stop::Trap("memory.fill out of bounds".into()));
        }
        let b = self.ar.byte(v, 0);
        for i in 0..n {
            self.store(d + i, 1, b);
        }
        Ok(())
    }
    /// A load through a symbolic address: one table when all the candidate cells are concrete.
    fn load_at_sym(&mut self, k: LK, addr: V, off: u32) -> Result<V, Stop> {
        if let Some(c) = self.known(addr) {
            return self.load_k(k, c as u32 as usize + off as usize);
        }
        if let Some((var, t)) = self.ar.get_tab(addr.s) {
            let t: Vec<u64> = t.to_vec();
            let d = self.ps.doms[var as usize];
            let mut out = vec![0u64; t.len()];
            let mut ok = true;
            for i in set_iter(&d) {
                let a = t[i as usize] as u32 as usize + off as usize;
                if a + k.size() > self.mem.len() || self.sh[a..a + k.size()].iter().any(|x| *x != 0) {
                    ok = false;
                    break;
                }
                out[i as usize] = self.rd(a, k.size());
            }
            if ok {
                // entries outside the path's domain are irrelevant: reuse a value inside it
                let f = out[set_first(&d).unwrap() as usize];
                for i in 0..out.len() {
                    if !set_has(&d, i as u8) {
                        out[i] = f;
                    }
                }
                let v = self.ar.tab(var, out);
                return Ok(self.ext(k, v));
            }
        }
        let c = self.concretize(addr);
        self.load_k(k, c as u32 as usize + off as usize)
    }
    fn load_k(&mut self, k: LK, a: usize) -> Result<V, Stop> {
        if a + k.size() > self.mem.len() {
            return Err(Stop::Trap("load out of bounds".into()));
        }
        Ok(self.load_sym(k, a))
    }
    fn call(&mut self, f: u32, base: usize) -> Result<(), Stop> {
        // self.cur must have pc of the call instruction; on success cur is the callee
        if let Some(h) = self.p.hosts[f as usize] {
            self.host(h, f, base)?;
            self.cur.pc += 1;
            return Ok(());
        }
        if let Some((u, al, at)) = self.p.upper {
            if u == f && self.upper(base, al, at)? {
                self.cur.pc += 1;
                return Ok(());
            }
        }
        let p: *const Program = &*self.p;
        let fu = unsafe { &(&(*p).m.funcs)[f as usize] };
        let top = base + fu.nregs + 16;
        if top >= REGS || self.frames.len() > 20_000 {
            return Err(Stop::Trap("call stack exhausted".into()));
        }
        for i in fu.ty.params..fu.nlocals {
            self.regs[base + i] = V::k(0);
        }
        self.executed[f as usize] = true;
        let mut ret = self.cur;
        ret.pc += 1;
        self.frames.push(ret);
        self.cur = Frame { f, pc: 0, base: base as u32 };
        Ok(())
    }
    /// str::to_uppercase of a text that is ASCII on this path
    fn upper(&mut self, base: usize, al: u32, at: usize) -> Result<bool, Stop> {
        let a = [self.regs[base], self.regs[base + 1], self.regs[base + 2]];
        if a.iter().any(|v| v.s != 0) {
            return Ok(false);
        }
        let (ret, ptr, n) = (a[0].c as u32 as usize, a[1].c as u32 as usize, a[2].c as u32 as usize);
        if n == 0 || n > 4096 || ptr + n > self.mem.len() {
            return Ok(false);
        }
        let mut out: Vec<V> = Vec::with_capacity(n);
        for i in 0..n {
            if self.sh[ptr + i] == 0 {
                let c = self.mem[ptr + i];
                if c >= 128 {
                    return Ok(false);
                }
                out.push(V::k(c.to_ascii_uppercase() as u64));
            } else {
                let v = self.byte_at(ptr + i);
                let (var, t) = match self.ar.get_tab(v.s) {
                    Some(x) => x,
                    None => return Ok(false),
                };
                if set_iter(&self.ps.doms[var as usize]).any(|i| t[i as usize] >= 128) {
                    return Ok(false);
                }
                if t.iter().any(|c| (97..123).contains(c)) {
                    let t: Vec<u64> = t.iter().map(|c| if *c < 128 { (*c as u8).to_ascii_uppercase() as u64 } else { *c }).collect();
                    out.push(self.ar.tab(var, t));
                } else {
                    out.push(v);
                }
            }
        }
        // the allocator itself runs as usual
        let (cur, frames) = (self.cur, std::mem::take(&mut self.frames));
        let b = base + 24;
        self.regs[b] = V::k(n as u64);
        self.regs[b + 1] = V::k(1);
        let nl = self.p.m.funcs[al as usize].nlocals;
        for i in 2..nl {
            self.regs[b + i] = V::k(0);
        }
        self.cur = Frame { f: al, pc: 0, base: b as u32 };
        let nc = self.choices.len();
        let r = self.exec();
        let p = self.regs[b];
        self.cur = cur;
        self.frames = frames;
        r?;
        if p.s != 0 || self.choices.len() != nc {
            return Err(Stop::Unsupported("allocator depends on the input".into()));
        }
        let p = p.c as u32 as usize;
        for (i, v) in out.into_iter().enumerate() {
            self.store(p + i, 1, v);
        }
        for i in 0..3 {
            self.store(ret + 4 * i, 4, V::k(if i == at { p } else { n } as u64));
        }
        Ok(true)
    }
    fn exec(&mut self) -> Result<(), Stop> {
        let p: *const Program = &*self.p;
        let prog = unsafe { &*p };
        unsafe {
            'frame: loop {
                if PROFILE {
                    let l = self.prof_last;
                    *self.prof.entry(l.0).or_default() += self.steps.wrapping_sub(l.1) as u64;
                    self.prof_last = (self.cur.f, self.steps);
                }
                let fu = &prog.m.funcs[self.cur.f as usize];
                let code = &fu.code;
                let base = self.cur.base as usize;
                let mut pc = self.cur.pc as usize;
                let mut steps = self.steps;
                let limit = self.fuel + self.extra;
                loop {
                    steps += 1;
                    let ins = *code.get_unchecked(pc);
                    match ins {
                        Ins::Bin { op, d, a, b } => {
                            let (x, y) = (r!(self.regs, base, a), r!(self.regs, base, b));
                            let v = if x.s | y.s == 0 && !op.is_div() {
                                V::k(eval_op(op, x.c, y.c))
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.slow_bin(op, x, y)?
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::BinK { op, d, a, k } => {
                            let x = r!(self.regs, base, a);
                            let y = *fu.consts.get_unchecked(k as usize);
                            let v = if x.s == 0 && !op.is_div() {
                                V::k(eval_op(op, x.c, y))
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.slow_bin(op, x, V::k(y))?
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::Un { op, d, a } => {
                            let x = r!(self.regs, base, a);
                            let v = if x.s == 0 {
                                V::k(eval_op(op, x.c, 0))
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.slow_bin(op, x, V::k(0))?
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::Const { d, k } => {
                            *self.regs.get_unchecked_mut(base + d as usize) = V::k(*fu.consts.get_unchecked(k as usize));
                            pc += 1;
                        }
                        Ins::Copy { d, a } => {
                            let x = r!(self.regs, base, a);
                            *self.regs.get_unchecked_mut(base + d as usize) = x;
                            pc += 1;
                        }
                        Ins::Load { k, d, a, off } => {
                            let x = r!(self.regs, base, a);
                            let v = if x.s == 0 {
                                let addr = x.c as u32 as usize + off as usize;
                                let n = k.size();
                                if addr + n > self.mem.len() {
                                    self.steps = steps;
                                    return Err(Stop::Trap("load out of bounds".into()));
                                }
                                if self.any_sh(addr, n) {
                                    self.load_sym(k, addr)
                                } else {
                                    let c = self.rd(addr, n);
                                    V::k(match k {
                                        LK::L8S => c as u8 as i8 as i32 as u32 as u64,
                                        LK::L16S => c as u16 as i16 as i32 as u32 as u64,
                                        LK::L8S64 => c as u8 as i8 as i64 as u64,
                                        LK::L16S64 => c as u16 as i16 as i64 as u64,
                                        LK::L32S64 => c as u32 as i32 as i64 as u64,
                                        _ => c,
                                    })
                                }
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.load_at_sym(k, x, off)?
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::Store { n, a, v, off } => {
                            let x = r!(self.regs, base, a);
                            let val = r!(self.regs, base, v);
                            let ac = if x.s == 0 {
                                x.c
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.concretize(x)
                            };
                            let addr = ac as u32 as usize + off as usize;
                            if addr + n as usize > self.mem.len() {
                                self.steps = steps;
                                return Err(Stop::Trap("store out of bounds".into()));
                            }
                            self.store(addr, n as usize, val);
                            pc += 1;
                        }
                        Ins::Br { pc: t } => {
                            pc = t as usize;
                            if steps > limit {
                                self.steps = steps;
                                return Err(Stop::Fuel);
                            }
                        }
                        Ins::BrIf { c, pc: t } => {
                            let x = r!(self.regs, base, c);
                            let b = if x.s == 0 {
                                x.c != 0
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                if let merge::Merge::Go = self.merge(x) {
                                    continue 'frame;
                                }
                                self.branch(x)
                            };
                            if b {
                                pc = t as usize;
                                if steps > limit {
                                    self.steps = steps;
                                    return Err(Stop::Fuel);
                                }
                            } else {
                                pc += 1
                            }
                        }
                        Ins::BrIfNot { c, pc: t } => {
                            let x = r!(self.regs, base, c);
                            let b = if x.s == 0 {
                                x.c != 0
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                if let merge::Merge::Go = self.merge(x) {
                                    continue 'frame;
                                }
                                self.branch(x)
                            };
                            pc = if b { pc + 1 } else { t as usize };
                        }
                        Ins::BrTable { c, t } => {
                            let tab = fu.tables.get_unchecked(t as usize);
                            let x = r!(self.regs, base, c);
                            if x.s == 0 {
                                let i = (x.c as u32 as usize).min(tab.len() - 1);
                                pc = tab[i] as usize;
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                if let merge::Merge::Go = self.merge(x) {
                                    continue 'frame;
                                }
                                pc = self.sym_table(x, tab);
                            }
                            if steps > limit {
                                self.steps = steps;
                                return Err(Stop::Fuel);
                            }
                        }
                        Ins::Call { f, base: b } => {
                            self.cur.pc = pc as u32;
                            self.steps = steps;
                            if steps > limit {
                                return Err(Stop::Fuel);
                            }
                            self.call(f, base + b as usize)?;
                            continue 'frame;
                        }
                        Ins::CallInd { ty, i, base: b } => {
                            self.cur.pc = pc as u32;
                            self.steps = steps;
                            let x = r!(self.regs, base, i);
                            let i = self.concretize(x) as u32 as usize;
                            let f = match prog.m.table.get(i) {
                                Some(f) if *f != u32::MAX => *f,
                                _ => return Err(Stop::Trap("undefined table element".into())),
                            };
                            let want = &prog.m.types[ty as usize];
                            let got = &prog.m.funcs[f as usize].ty;
                            if want.params != got.params || want.results != got.results {
                                return Err(Stop::Trap("indirect call type mismatch".into()));
                            }
                            self.call(f, base + b as usize)?;
                            continue 'frame;
                        }
                        Ins::Return { a } => {
                            for i in 0..fu.ty.results {
                                let x = r!(self.regs, base, a as usize + i);
                                *self.regs.get_unchecked_mut(base + i) = x;
                            }
                            self.steps = steps;
                            match self.frames.pop() {
                                None => return Ok(()),
                                Some(f) => {
                                    self.cur = f;
                                    continue 'frame;
                                }
                            }
                        }
                        Ins::Select { d, a, b, c } => {
                            let x = r!(self.regs, base, c);
                            let (p, q) = (r!(self.regs, base, a), r!(self.regs, base, b));
                            let v = if x.s == 0 {
                                if x.c != 0 {
                                    p
                                } else {
                                    q
                                }
                            } else {
                                self.cur.pc = pc as u32;
                                self.steps = steps - 1;
                                self.sym_select(x, p, q)
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::GlobalGet { d, g } => {
                            let v = self.globals[g as usize];
                            *self.regs.get_unchecked_mut(base + d as usize) = v;
                            pc += 1;
                        }
                        Ins::GlobalSet { a, g } => {
                            self.globals[g as usize] = r!(self.regs, base, a);
                            pc += 1;
                        }
                        Ins::MemSize { d } => {
                            *self.regs.get_unchecked_mut(base + d as usize) = V::k((self.mem.len() >> 16) as u64);
                            pc += 1;
                        }
                        Ins::MemGrow { d, a } => {
                            self.cur.pc = pc as u32;
                            self.steps = steps - 1;
                            let x = r!(self.regs, base, a);
                            let n = self.concretize(x) as usize;
                            let old = self.mem.len() >> 16;
                            let v = if (old + n) << 16 > MEM_CAP {
                                return Err(Stop::Fuel);
                            } else {
                                if !self.choices.is_empty() {
                                    self.journal.push(J::Grow { pages: old });
                                }
                                self.mem.resize((old + n) << 16, 0);
                                self.sh.resize((old + n) << 16, 0);
                                old as u64
                            };
                            *self.regs.get_unchecked_mut(base + d as usize) = V::k(v);
                            pc += 1;
                        }
                        Ins::MemCopy { d, s, n } => {
                            self.cur.pc = pc as u32;
                            self.steps = steps - 1;
                            let (d, s, n) = (r!(self.regs, base, d), r!(self.regs, base, s), r!(self.regs, base, n));
                            let d = self.concretize(d) as u32 as usize;
                            let s = self.concretize(s) as u32 as usize;
                            let n = self.concretize(n) as u32 as usize;
                            self.memcpy(d, s, n)?;
                            pc += 1;
                        }
                        Ins::MemFill { d, v, n } => {
                            self.cur.pc = pc as u32;
                            self.steps = steps - 1;
                            let (d, v, n) = (r!(self.regs, base, d), r!(self.regs, base, v), r!(self.regs, base, n));
                            let d = self.concretize(d) as u32 as usize;
                            let n = self.concretize(n) as u32 as usize;
                            self.memfill(d, v, n)?;
                            pc += 1;
                        }
                        Ins::Unreachable => {
                            self.cur.pc = pc as u32;
                            self.steps = steps;
                            return Err(Stop::Trap("unreachable".into()));
                        }
                        Ins::Unsupported { k } => {
                            return Err(Stop::Unsupported(fu.unsupported[k as usize].clone()));
                        }
                    }
                }
            }
        }
    }
    fn slow_bin(&mut self, op: Op, x: V, y: V) -> Result<V, Stop> {
        if op.is_div() {
            let (a, b) = (self.concretize(x), self.concretize(y));
            let b = if op.is64() || matches!(op, Op::DivS64 | Op::DivU64 | Op::RemS64 | Op::RemU64) { b } else { b as u32 as u64 };
            if b == 0 {
                return Err(Stop::Trap("integer divide by zero".into()));
            }
            return Ok(V::k(eval_op(op, a, b)));
        }
        if op.is_float() {
            let (a, b) = (self.concretize(x), self.concretize(y));
            return Ok(V::k(eval_op(op, a, b)));
        }
        // operands that are constant on this path need not become trees
        if self.ar.var_of(x) != self.ar.var_of(y) || self.ar.var_of(x).is_none() {
            let x2 = self.known(x).map(V::k).unwrap_or(x);
            let y2 = self.known(y).map(V::k).unwrap_or(y);
            return Ok(self.ar.bin(op, x2, y2));
        }
        Ok(self.ar.bin(op, x, y))
    }
    fn sym_select(&mut self, c: V, a: V, b: V) -> V {
        let t = self.ar.truthy(c);
        if t.s == 0 {
            return if t.c != 0 { a } else { b };
        }
        if let Some(q) = self.quick(t.s) {
            return if q { a } else { b };
        }
        self.ar.ite(t, a, b)
    }
    fn sym_table(&mut self, x: V, tab: &[u32]) -> usize {
        if self.ar.var_of(x).is_some() {
            loop {
                let cur = self.ar.eval(x, &self.ps.model) as u32 as usize;
                let target = tab[cur.min(tab.len() - 1)];
                let (var, t) = self.ar.get_tab(x.s).unwrap();
                let t: Vec<u64> = t.iter().map(|y| (tab[(*y as u32 as usize).min(tab.len() - 1)] == target) as u64).collect();
                let cond = self.ar.tab(var, t);
                if self.branch(cond) {
                    return target as usize;
                }
            }
        }
        let c = self.concretize(x) as u32 as usize;
        tab[c.min(tab.len() - 1)] as usize
    }
    // -------------------------------------------------------------- exploring
    /// Runs the template on every feasible path; `eval` judges each path's result and
    /// may itself call `branch`. Returns the path records (see `PathRec`).
    pub fn explore(&mut self, t: Arc<Template>, max_paths: usize, eval: &mut dyn FnMut(&mut Machine) -> Result<(), String>) -> Exploration {
        self.reset(t.clone());
        let mut ex = Exploration { complete: true, ..Default::default() };
        let s0 = self.stats.clone();
        let mut fresh = true;
        loop {
            if fresh {
                self.in_eval = false;
                self.run();
            }
            self.in_eval = true;
            let r = eval(self);
            ex.paths += 1;
            ex.steps += self.steps;
            let unsup = matches!(self.results.last(), Some(Out::Unsupported(_)));
            if unsup {
                ex.unsupported += 1;
                if ex.unsupported_msg.is_none() {
                    if let Some(Out::Unsupported(m)) = self.results.last() {
                        ex.unsupported_msg = Some(m.clone());
                    }
                }
            } else {
                match r {
                    Ok(()) => ex.pcs.push((self.ps.doms.clone(), self.ps.cons.clone())),
                    Err(msg) => ex.bad.push((msg, self.ps.model.clone())),
                }
            }
            let late = ex.paths % 64 == 0
                && (self.deadline.map_or(false, |d| std::time::Instant::now() > d)
                    || self.stop.as_ref().map_or(false, |s| s.load(std::sync::atomic::Ordering::Relaxed)));
            if ex.paths >= max_paths || late {
                ex.complete = self.choices.is_empty();
                break;
            }
            match self.choices.pop() {
                None => break,
                Some(c) => {
                    fresh = !c.eval;
                    self.restore(c);
                }
            }
        }
        let _ = s0;
        ex
    }
    /// The solver's verdict: no input of the template escapes the paths on which the
    /// property was established. Sat gives an input outside of them.
    /// Large path sets are decided region by region (a partition of one variable's values).
    pub fn verdict(&mut self, ex: &Exploration) -> (Res, Option<Vec<u8>>) {
        if ex.pcs.is_empty() {
            return (Res::Sat, Some(self.ps.model.clone()));
        }
        self.z3_init();
        let full: Vec<Set> = self.ar.nvals.iter().map(|n| set_full(*n)).collect();
        let idx: Vec<usize> = (0..ex.pcs.len()).collect();
        self.verdict_region(ex, &idx, &full)
    }
    fn verdict_region(&mut self, ex: &Exploration, idx: &[usize], region: &[Set]) -> (Res, Option<Vec<u8>>) {
        if idx.len() > 400 {
            // split on the first variable that separates the paths
            for v in 0..region.len() {
                let mut atoms: Vec<Set> = vec![region[v]];
                for i in idx {
                    let d = ex.pcs[*i].0[v];
                    if atoms.len() > 64 {
                        break;
                    }
                    let mut nx = vec![];
                    for a in &atoms {
                        let x = set_and(a, &d);
                        let y = set_minus(a, &d);
                        if !set_empty(&x) {
                            nx.push(x);
                        }
                        if !set_empty(&y) {
                            nx.push(y);
                        }
                    }
                    atoms = nx;
                }
                if atoms.len() < 2 {
                    continue;
                }
                for a in atoms {
                    let sub: Vec<usize> = idx.iter().copied().filter(|i| !set_empty(&set_and(&ex.pcs[*i].0[v], &a))).collect();
                    let mut r = region.to_vec();
                    r[v] = a;
                    if sub.len() == idx.len() {
                        let x = self.verdict_query(ex, &sub, &r);
                        if x.0 != Res::Unsat {
                            return x;
                        }
                        continue;
                    }
                    let x = self.verdict_region(ex, &sub, &r);
                    if x.0 != Res::Unsat {
                        return x;
                    }
                }
                return (Res::Unsat, None);
            }
        }
        self.verdict_query(ex, idx, region)
    }
    fn verdict_query(&mut self, ex: &Exploration, idx: &[usize], region: &[Set]) -> (Res, Option<Vec<u8>>) {
        let t0 = std::time::Instant::now();
        let full: Vec<Set> = self.ar.nvals.iter().map(|n| set_full(*n)).collect();
        let mut asserts = Vec::with_capacity(idx.len());
        for id in self.assumes.clone() {
            let a = self.z3_bool(id);
            asserts.push(self.z3.as_ref().unwrap().not(a));
        }
        for v in 0..region.len() {
            if region[v] != full[v] {
                asserts.push(self.z3_set(v as u16, region[v]));
            }
        }
        for i in idx {
            let (doms, cons) = &ex.pcs[*i];
            let mut parts = vec![];
            for (v, d) in doms.iter().enumerate() {
                // inside the region the literal "v in d" is trivially true when d covers it
                if !set_empty(&set_minus(&region[v], d)) {
                    let neg = set_minus(&full[v], d);
                    parts.push(self.z3_set(v as u16, neg));
                }
            }
            for (id, val) in cons {
                let a = self.z3_bool(*id);
                let z = self.z3.as_ref().unwrap();
                parts.push(if *val { z.not(a) } else { a });
            }
            let z = self.z3.as_ref().unwrap();
            asserts.push(match parts.len() {
                0 => z.ff(),
                1 => parts[0],
                _ => z.or(&parts),
            });
        }
        let z = self.z3.as_ref().unwrap();
        z.push();
        for a in &self.z3bounds {
            z.assert(*a);
        }
        for a in asserts {
            z.assert(a);
        }
        let res = z.check();
        let m = if res == Res::Sat { Some(z.model(&self.z3vars)) } else { None };
        z.pop();
        self.stats.z3_final += 1;
        self.stats.z3_ms += t0.elapsed().as_secs_f64() * 1e3;
        (res, m)
    }
}

fn z3_op(z: &Z3, op: Op, x: Ast, y: Ast) -> Ast {
    use Op::*;
    let m32 = |a: Ast| z.band(a, z.k64(0xffff_ffff));
    let b = |c: Ast| z.ite(c, z.k64(1), z.k64(0));
    let lo = |a: Ast| z.extract(31, 0, a);
    let up = |a: Ast| z.zext(32, a);
    let sh32 = |a: Ast| z.band(a, z.k64(31));
    let sh64 = |a: Ast| z.band(a, z.k64(63));
    match op {
        Add32 => m32(z.add(x, y)),
        Sub32 => m32(z.sub(x, y)),
        Mul32 => m32(z.mul(x, y)),
        And32 => m32(z.band(x, y)),
        Or32 => m32(z.bor(x, y)),
        Xor32 => m32(z.bxor(x, y)),
        Shl32 => m32(z.shl(x, sh32(y))),
        ShrU32 => z.lshr(m32(x), sh32(y)),
        ShrS32 => up(z.ashr(lo(x), lo(sh32(y)))),
        Rotl32 => {
            let n = sh32(y);
            m32(z.bor(z.shl(m32(x), n), z.lshr(m32(x), sh32(z.sub(z.k64(32), n)))))
        }
        Rotr32 => {
            let n = sh32(y);
            m32(z.bor(z.lshr(m32(x), n), z.shl(m32(x), sh32(z.sub(z.k64(32), n)))))
        }
        Eq32 => b(z.eq(lo(x), lo(y))),
        Ne32 => b(z.not(z.eq(lo(x), lo(y)))),
        LtS32 => b(z.slt(lo(x), lo(y))),
        LtU32 => b(z.ult(lo(x), lo(y))),
        GtS32 => b(z.slt(lo(y), lo(x))),
        GtU32 => b(z.ult(lo(y), lo(x))),
        LeS32 => b(z.not(z.slt(lo(y), lo(x)))),
        LeU32 => b(z.ule(lo(x), lo(y))),
        GeS32 => b(z.not(z.slt(lo(x), lo(y)))),
        GeU32 => b(z.ule(lo(y), lo(x))),
        Add64 => z.add(x, y),
        Sub64 => z.sub(x, y),
        Mul64 => z.mul(x, y),
        And64 => z.band(x, y),
        Or64 => z.bor(x, y),
        Xor64 => z.bxor(x, y),
        Shl64 => z.shl(x, sh64(y)),
        ShrU64 => z.lshr(x, sh64(y)),
        ShrS64 => z.ashr(x, sh64(y)),
        Rotl64 => z.bor(z.shl(x, sh64(y)), z.lshr(x, sh64(z.sub(z.k64(64), sh64(y))))),
        Rotr64 => z.bor(z.lshr(x, sh64(y)), z.shl(x, sh64(z.sub(z.k64(64), sh64(y))))),
        Eq64 => b(z.eq(x, y)),
        Ne64 => b(z.not(z.eq(x, y))),
        LtS64 => b(z.slt(x, y)),
        LtU64 => b(z.ult(x, y)),
        GtS64 => b(z.slt(y, x)),
        GtU64 => b(z.ult(y, x)),
        LeS64 => b(z.not(z.slt(y, x))),
        LeU64 => b(z.ule(x, y)),
        GeS64 => b(z.not(z.slt(x, y))),
        GeU64 => b(z.ule(y, x)),
        Eqz32 => b(z.eq(lo(x), lo(z.k64(0)))),
        Eqz64 => b(z.eq(x, z.k64(0))),
        Wrap => m32(x),
        ExtS3264 => z.sext(32, lo(x)),
        Ext8S32 => up(z.sext(24, z.extract(7, 0, x))),
        Ext16S32 => up(z.sext(16, z.extract(15, 0, x))),
        Ext8S64 => z.sext(56, z.extract(7, 0, x)),
        Ext16S64 => z.sext(48, z.extract(15, 0, x)),
        Popcnt32 | Popcnt64 => {
            let n = if op == Popcnt32 { 32 } else { 64 };
            let mut r = z.k64(0);
            for i in 0..n {
                r = z.add(r, z.zext(63, z.extract(i, i, x)));
            }
            r
        }
        Ctz32 | Ctz64 => {
            let n = if op == Ctz32 { 32 } else { 64 };
            let mut r = z.k64(n as u64);
            for i in (0..n).rev() {
                r = z.ite(z.eq(z.zext(63, z.extract(i, i, x)), z.k64(1)), z.k64(i as u64), r);
            }
            r
        }
        Clz32 | Clz64 => {
            let n = if op == Clz32 { 32 } else { 64 };
            let mut r = z.k64(n as u64);
            for i in 0..n {
                r = z.ite(z.eq(z.zext(63, z.extract(i, i, x)), z.k64(1)), z.k64((n - 1 - i) as u64), r);
            }
            r
        }
        _ => panic!("z3_op {:?}", op),
    }
}

#[derive(Default)]
pub struct Exploration {
    pub paths: usize,
    pub steps: u64,
    pub complete: bool,
    pub unsupported: usize,
    pub unsupported_msg: Option<String>,
    pub pcs: Vec<(Vec<Set>, Vec<(Id, bool)>)>,
    pub bad: Vec<(String, Vec<u8>)>,
}
