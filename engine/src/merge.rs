//! Joining paths again: when a branch depends on one input variable and some of its
//! values reach the same program point in the same live state, those values continue
//! as one path instead of one path per outcome.
use super::*;
use crate::wasm::{Func, Ins};

pub struct Live {
    words: usize,
    live: Vec<u64>, // per pc
    target: Vec<bool>,
}
impl Live {
    pub fn of(fu: &Func, sig: &dyn Fn(u32) -> (usize, usize), tsig: &dyn Fn(u32) -> (usize, usize)) -> Live {
        let n = fu.code.len();
        let words = (fu.nregs + 17 + 63) / 64;
        let mut target = vec![false; n + 1];
        for i in &fu.code {
            match i {
                Ins::Br { pc } | Ins::BrIf { pc, .. } | Ins::BrIfNot { pc, .. } => target[*pc as usize] = true,
                Ins::BrTable { t, .. } => fu.tables[*t as usize].iter().for_each(|p| target[*p as usize] = true),
                _ => (),
            }
        }
        let mut live = vec![0u64; (n + 1) * words];
        let mut cur = vec![0u64; words];
        loop {
            let mut changed = false;
            for pc in (0..n).rev() {
                for c in cur.iter_mut() {
                    *c = 0;
                }
                let mut join = |cur: &mut Vec<u64>, t: usize| {
                    for w in 0..words {
                        cur[w] |= live[t * words + w];
                    }
                };
                let ins = fu.code[pc];
                match ins {
                    Ins::Br { pc: t } => join(&mut cur, t as usize),
                    Ins::BrIf { pc: t, .. } | Ins::BrIfNot { pc: t, .. } => {
                        join(&mut cur, t as usize);
                        join(&mut cur, pc + 1);
                    }
                    Ins::BrTable { t, .. } => {
                        for p in &fu.tables[t as usize] {
                            join(&mut cur, *p as usize);
                        }
                    }
                    Ins::Return { .. } | Ins::Unreachable | Ins::Unsupported { .. } => (),
                    _ => join(&mut cur, pc + 1),
                }
                let set = |cur: &mut Vec<u64>, r: usize| {
                    if r / 64 < words {
                        cur[r / 64] |= 1 << (r % 64)
                    }
                };
                let clr = |cur: &mut Vec<u64>, r: usize| {
                    if r / 64 < words {
                        cur[r / 64] &= !(1 << (r % 64))
                    }
                };
                match ins {
                    Ins::Bin { d, a, b, .. } => {
                        clr(&mut cur, d as usize);
                        set(&mut cur, a as usize);
                        set(&mut cur, b as usize);
                    }
                    Ins::BinK { d, a, .. } | Ins::Un { d, a, .. } | Ins::Copy { d, a } | Ins::Load { d, a, .. } => {
                        clr(&mut cur, d as usize);
                        set(&mut cur, a as usize);
                    }
                    Ins::MemGrow { d, a } => {
                        clr(&mut cur, d as usize);
                        set(&mut cur, a as usize);
                    }
                    Ins::Const { d, .. } | Ins::GlobalGet { d, .. } | Ins::MemSize { d } => clr(&mut cur, d as usize),
                    Ins::Store { a, v, .. } => {
                        set(&mut cur, a as usize);
                        set(&mut cur, v as usize);
                    }
                    Ins::BrIf { c, .. } | Ins::BrIfNot { c, .. } | Ins::BrTable { c, .. } => set(&mut cur, c as usize),
                    Ins::Call { f, base } => {
                        for r in base as usize..words * 64 {
                            clr(&mut cur, r);
                        }
                        for i in 0..sig(f).0 {
                            set(&mut cur, base as usize + i);
                        }
                    }
                    Ins::CallInd { ty, i, base } => {
                        for r in base as usize..words * 64 {
                            clr(&mut cur, r);
                        }
                        for k in 0..tsig(ty).0 {
                            set(&mut cur, base as usize + k);
                        }
                        set(&mut cur, i as usize);
                    }
                    Ins::Return { a } => {
                        for i in 0..fu.ty.results {
                            set(&mut cur, a as usize + i);
                        }
                    }
                    Ins::Select { d, a, b, c } => {
                        clr(&mut cur, d as usize);
                        set(&mut cur, a as usize);
                        set(&mut cur, b as usize);
                        set(&mut cur, c as usize);
                    }
                    Ins::GlobalSet { a, .. } => set(&mut cur, a as usize),
                    Ins::MemCopy { d, s, n } => {
                        set(&mut cur, d as usize);
                        set(&mut cur, s as usize);
                        set(&mut cur, n as usize);
                    }
                    Ins::MemFill { d, v, n } => {
                        set(&mut cur, d as usize);
                        set(&mut cur, v as usize);
                        set(&mut cur, n as usize);
                    }
                    Ins::Br { .. } | Ins::Unreachable | Ins::Unsupported { .. } => (),
                }
                for w in 0..words {
                    let x = &mut live[pc * words + w];
                    if *x | cur[w] != *x {
                        *x |= cur[w];
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        Live { words, live, target }
    }
    fn is(&self, pc: usize, r: usize) -> bool {
        r / 64 < self.words && self.live[pc * self.words + r / 64] >> (r % 64) & 1 == 1
    }
}

#[derive(Clone)]
struct Pt {
    popped: usize,
    pc: u32,
    ov: Vec<(u32, V)>,
}
struct Tr {
    set: Set,
    pts: Vec<Pt>,
}
#[derive(Clone)]
struct At {
    popped: usize,
    f: u32,
    base: usize,
    pc: usize,
    n: usize,
    ov: Vec<(u32, V)>,
    pts: Vec<Pt>,
}
pub enum Merge {
    No,
    Go,
}
const MAX_STEPS: usize = 80;
const MAX_TRACES: usize = 16;

impl Program {
    fn live(&self, f: u32) -> &Live {
        self.lives[f as usize].get_or_init(|| {
            let m = &self.m;
            Live::of(
                &m.funcs[f as usize],
                &|f| (m.funcs[f as usize].ty.params, m.funcs[f as usize].ty.results),
                &|t| (m.types[t as usize].params, m.types[t as usize].results),
            )
        })
    }
}

impl Machine {
    fn ovget(&self, ov: &[(u32, V)], r: usize) -> V {
        for (k, v) in ov {
            if *k as usize == r {
                return *v;
            }
        }
        self.regs[r]
    }
    /// condition under "var x is in set": Some(value) when it is decided
    fn under(&mut self, v: V, x: u16, set: &Set) -> Result<u64, Option<Vec<(u64, Set)>>> {
        if v.s == 0 {
            return Ok(v.c);
        }
        match self.ar.get_tab(v.s) {
            Some((var, t)) if var == x => {
                let mut parts: Vec<(u64, Set)> = vec![];
                for i in set_iter(set) {
                    let y = t[i as usize];
                    match parts.iter_mut().find(|p| p.0 == y) {
                        Some(p) => p.1[i as usize / 64] |= 1 << (i % 64),
                        None => {
                            let mut s: Set = [0; 4];
                            s[i as usize / 64] |= 1 << (i % 64);
                            parts.push((y, s));
                        }
                    }
                }
                if parts.len() == 1 {
                    Ok(parts[0].0)
                } else {
                    Err(Some(parts))
                }
            }
            Some(_) => self.known(v).ok_or(None),
            None => match self.quick(v.s) {
                Some(b) if self.ar.is_bool(v) => Ok(b as u64),
                _ => Err(None),
            },
        }
    }
    fn spec(&mut self, x: u16, set: Set, mut at: At, out: &mut Vec<Tr>) -> bool {
        let p: *const Program = &*self.p;
        let prog = unsafe { &*p };
        loop {
            let fu = &prog.m.funcs[at.f as usize];
            let base = at.base;
            if at.n > 0 && prog.live(at.f).target[at.pc] {
                at.pts.push(Pt { popped: at.popped, pc: at.pc as u32, ov: at.ov.clone() });
            }
            at.n += 1;
            if at.n > MAX_STEPS {
                break;
            }
            let put = |ov: &mut Vec<(u32, V)>, r: usize, v: V| {
                for e in ov.iter_mut() {
                    if e.0 as usize == r {
                        e.1 = v;
                        return;
                    }
                }
                ov.push((r as u32, v));
            };
            match fu.code[at.pc] {
                Ins::Bin { op, d, a, b } => {
                    if op.is_div() || op.is_float() {
                        break;
                    }
                    let (p, q) = (self.ovget(&at.ov, base + a as usize), self.ovget(&at.ov, base + b as usize));
                    let v = if p.s | q.s == 0 { V::k(eval_op(op, p.c, q.c)) } else { self.ar.bin(op, p, q) };
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::BinK { op, d, a, k } => {
                    if op.is_div() || op.is_float() {
                        break;
                    }
                    let p = self.ovget(&at.ov, base + a as usize);
                    let q = V::k(fu.consts[k as usize]);
                    let v = if p.s == 0 { V::k(eval_op(op, p.c, q.c)) } else { self.ar.bin(op, p, q) };
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::Un { op, d, a } => {
                    if op.is_float() {
                        break;
                    }
                    let p = self.ovget(&at.ov, base + a as usize);
                    let v = if p.s == 0 { V::k(eval_op(op, p.c, 0)) } else { self.ar.bin(op, p, V::k(0)) };
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::Const { d, k } => {
                    put(&mut at.ov, base + d as usize, V::k(fu.consts[k as usize]));
                    at.pc += 1;
                }
                Ins::Copy { d, a } => {
                    let p = self.ovget(&at.ov, base + a as usize);
                    put(&mut at.ov, base + d as usize, p);
                    at.pc += 1;
                }
                Ins::Load { k, d, a, off } => {
                    let p = self.ovget(&at.ov, base + a as usize);
                    let v = if p.s == 0 {
                        let a = p.c as u32 as usize + off as usize;
                        if a + k.size() > self.mem.len() {
                            break;
                        }
                        if self.any_sh(a, k.size()) {
                            self.load_sym(k, a)
                        } else {
                            match self.load_k(k, a) {
                                Ok(v) => v,
                                Err(_) => break,
                            }
                        }
                    } else {
                        // a table when every candidate cell is concrete
                        let t: Vec<u64> = match self.ar.get_tab(p.s) {
                            Some((var, t)) if var == x => t.to_vec(),
                            _ => break,
                        };
                        let mut o = vec![0u64; t.len()];
                        let mut ok = true;
                        for i in set_iter(&set) {
                            let a = t[i as usize] as u32 as usize + off as usize;
                            if a + k.size() > self.mem.len() || self.any_sh(a, k.size()) {
                                ok = false;
                                break;
                            }
                            o[i as usize] = self.rd(a, k.size());
                        }
                        if !ok {
                            break;
                        }
                        let f = o[set_first(&set).unwrap() as usize];
                        for i in 0..o.len() {
                            if !set_has(&set, i as u8) {
                                o[i] = f;
                            }
                        }
                        let v = self.ar.tab(x, o);
                        self.ext(k, v)
                    };
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::Select { d, a, b, c } => {
                    let cv = self.ovget(&at.ov, base + c as usize);
                    let (p, q) = (self.ovget(&at.ov, base + a as usize), self.ovget(&at.ov, base + b as usize));
                    let v = match self.under(cv, x, &set) {
                        Ok(y) => {
                            if y != 0 {
                                p
                            } else {
                                q
                            }
                        }
                        Err(_) => {
                            let t = self.ar.truthy(cv);
                            if t.s == 0 {
                                if t.c != 0 {
                                    p
                                } else {
                                    q
                                }
                            } else {
                                self.ar.ite(t, p, q)
                            }
                        }
                    };
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::GlobalGet { d, g } => {
                    let v = self.globals[g as usize];
                    put(&mut at.ov, base + d as usize, v);
                    at.pc += 1;
                }
                Ins::Br { pc } => at.pc = pc as usize,
                Ins::BrIf { c, .. } | Ins::BrIfNot { c, .. } | Ins::BrTable { c, .. } => {
                    let cv = self.ovget(&at.ov, base + c as usize);
                    let ins = fu.code[at.pc];
                    let pc = at.pc;
                    let go = |y: u64| -> usize {
                        match ins {
                            Ins::BrIf { pc: t, .. } => if y != 0 { t as usize } else { pc + 1 },
                            Ins::BrIfNot { pc: t, .. } => if y != 0 { pc + 1 } else { t as usize },
                            Ins::BrTable { t, .. } => {
                                let tab = &fu.tables[t as usize];
                                tab[(y as u32 as usize).min(tab.len() - 1)] as usize
                            }
                            _ => unreachable!(),
                        }
                    };
                    match self.under(cv, x, &set) {
                        Ok(y) => at.pc = go(y),
                        Err(Some(parts)) => {
                            let mut by: Vec<(usize, Set)> = vec![];
                            for (y, s) in parts {
                                let t = go(y);
                                match by.iter_mut().find(|b| b.0 == t) {
                                    Some(b) => b.1 = set_or(&b.1, &s),
                                    None => by.push((t, s)),
                                }
                            }
                            if by.len() == 1 {
                                at.pc = by[0].0;
                            } else {
                                for (t, s) in by {
                                    let mut a2 = at.clone();
                                    a2.pc = t;
                                    if !self.spec(x, s, a2, out) {
                                        return false;
                                    }
                                }
                                return true;
                            }
                        }
                        Err(None) => break,
                    }
                }
                Ins::Return { a } => {
                    if at.popped >= self.frames.len() || at.popped >= 3 {
                        break;
                    }
                    for i in 0..fu.ty.results {
                        let v = self.ovget(&at.ov, base + a as usize + i);
                        put(&mut at.ov, base + i, v);
                    }
                    at.popped += 1;
                    let fr = self.frames[self.frames.len() - at.popped];
                    at.f = fr.f;
                    at.base = fr.base as usize;
                    at.pc = fr.pc as usize;
                    at.pts.push(Pt { popped: at.popped, pc: at.pc as u32, ov: at.ov.clone() });
                }
                _ => break,
            }
        }
        out.push(Tr { set, pts: at.pts });
        out.len() <= MAX_TRACES
    }
    /// the state both sets of inputs share at a point, if they do
    fn join(&mut self, x: u16, key: (usize, u32), a: &(Set, Vec<(u32, V)>), b: &(Set, Vec<(u32, V)>)) -> Option<(Set, Vec<(u32, V)>)> {
        let p: *const Program = &*self.p;
        let prog = unsafe { &*p };
        let fr = if key.0 == 0 { self.cur } else { self.frames[self.frames.len() - key.0] };
        let lv = prog.live(fr.f);
        let mut ov: Vec<(u32, V)> = vec![];
        let keys: Vec<u32> = a.1.iter().map(|e| e.0).chain(b.1.iter().filter(|e| !a.1.iter().any(|f| f.0 == e.0)).map(|e| e.0)).collect();
        for r in keys {
            if r < fr.base || !lv.is(key.1 as usize, (r - fr.base) as usize) {
                if r < fr.base {
                    return None;
                }
                continue;
            }
            let (va, vb) = (self.ovget(&a.1, r as usize), self.ovget(&b.1, r as usize));
            let v = if va.s == vb.s && va.c == vb.c {
                va
            } else {
                let n = self.ar.nvals[x as usize];
                let mut t = vec![0u64; n];
                for (v, s) in [(va, &a.0), (vb, &b.0)] {
                    let tab: Option<Vec<u64>> = if v.s == 0 { None } else { match self.ar.get_tab(v.s) { Some((var, t)) if var == x => Some(t.to_vec()), _ => return None } };
                    for i in set_iter(s) {
                        let y = tab.as_ref().map(|t| t[i as usize]).unwrap_or(v.c);
                        if y > 1 {
                            return None;
                        }
                        t[i as usize] = y;
                    }
                }
                self.ar.tab(x, t)
            };
            ov.push((r, v));
        }
        Some((set_or(&a.0, &b.0), ov))
    }
    /// tries to continue with several outcomes of the branch at cur.pc at once
    pub fn merge(&mut self, c: V) -> Merge {
        let x = match self.ar.var_of(c) {
            Some(x) => x,
            None => return Merge::No,
        };
        if self.under_decided(c) {
            return Merge::No;
        }
        let dom = self.ps.doms[x as usize];
        let at = At { popped: 0, f: self.cur.f, base: self.cur.base as usize, pc: self.cur.pc as usize, n: 0, ov: vec![], pts: vec![] };
        let mut tr = vec![];
        if !self.spec(x, dom, at, &mut tr) || tr.len() < 2 {
            return Merge::No;
        }
        let mut keys: Vec<((usize, u32), u32, usize)> = vec![]; // key, values, position
        for t in &tr {
            for (i, p) in t.pts.iter().enumerate() {
                let k = (p.popped, p.pc);
                if t.pts[..i].iter().any(|q| (q.popped, q.pc) == k) {
                    continue;
                }
                match keys.iter_mut().find(|e| e.0 == k) {
                    Some(e) => {
                        e.1 += set_count(&t.set);
                        e.2 = e.2.max(i);
                    }
                    None => keys.push((k, set_count(&t.set), i)),
                }
            }
        }
        keys.sort_by(|a, b| b.1.cmp(&a.1).then(a.2.cmp(&b.2)));
        let mut best: Option<((usize, u32), Set, Vec<(u32, V)>)> = None;
        for (k, total, _) in keys {
            if let Some(b) = &best {
                if set_count(&b.1) >= total {
                    break;
                }
            }
            let mut acc: Option<(Set, Vec<(u32, V)>)> = None;
            let mut n = 0;
            for t in &tr {
                if let Some(p) = t.pts.iter().find(|p| (p.popped, p.pc) == k) {
                    match &acc {
                        None => {
                            acc = Some((t.set, p.ov.clone()));
                            n = 1;
                        }
                        Some(a) => {
                            if let Some(j) = self.join(x, k, a, &(t.set, p.ov.clone())) {
                                acc = Some(j);
                                n += 1;
                            }
                        }
                    }
                }
            }
            if n >= 2 {
                let a = acc.unwrap();
                if best.as_ref().map(|b| set_count(&b.1) < set_count(&a.0)).unwrap_or(true) {
                    best = Some((k, a.0, a.1));
                }
            }
        }
        let (k, set, ov) = match best {
            Some(b) => b,
            None => return Merge::No,
        };
        if set != dom {
            let n = self.ar.nvals[x as usize];
            let cond = self.ar.tab(x, (0..n).map(|i| set_has(&set, i as u8) as u64).collect());
            if !self.branch(cond) {
                return Merge::Go; // the same instruction again, for the other values
            }
        }
        for _ in 0..k.0 {
            self.cur = self.frames.pop().unwrap();
        }
        self.cur.pc = k.1;
        for (r, v) in ov {
            self.regs[r as usize] = v;
        }
        self.steps += 20;
        self.stats.merges += 1;
        Merge::Go
    }
    fn under_decided(&mut self, c: V) -> bool {
        self.known(c).is_some()
    }
}
