//! Symbolic values.
//!
//! A template has variables v0..vk; a variable ranges over ordinals 0..n (n <= 256).
//! A symbolic input byte is a table over one variable. Every expression over one
//! variable is kept as a canonical table of its values ("Tab"), so control decisions
//! on it are exact set operations; expressions over several variables are hash-consed
//! trees, with equality tests reduced to conjunctions of single-variable tables.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;

pub type Id = u32;
/// A value: concrete (`s == 0`, value `c`) or symbolic (expression `s`).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct V {
    pub c: u64,
    pub s: Id,
}
impl V {
    #[inline(always)]
    pub fn k(c: u64) -> V {
        V { c, s: 0 }
    }
    #[inline(always)]
    pub fn is_k(&self) -> bool {
        self.s == 0
    }
}

pub type Set = [u64; 4];
pub fn set_full(n: usize) -> Set {
    let mut s = [0; 4];
    for i in 0..n {
        s[i >> 6] |= 1 << (i & 63);
    }
    s
}
#[inline]
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
#[inline]
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
#[inline]
pub fn set_minus(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
#[inline]
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
#[inline]
pub fn set_has(a: &Set, i: u8) -> bool {
    a[(i >> 6) as usize] >> (i & 63) & 1 == 1
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64 + a[i].trailing_zeros() as usize) as u8);
        }
    }
    None
}
pub fn set_iter(a: &Set) -> impl Iterator<Item = u8> + '_ {
    (0..4usize).flat_map(move |w| {
        let mut x = a[w];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let t = x.trailing_zeros();
                x &= x - 1;
                Some((w as u32 * 64 + t) as u8)
            }
        })
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Add32, Sub32, Mul32, And32, Or32, Xor32, Shl32, ShrS32, ShrU32, Rotl32, Rotr32,
    Eq32, Ne32, LtS32, LtU32, GtS32, GtU32, LeS32, LeU32, GeS32, GeU32,
    Add64, Sub64, Mul64, And64, Or64, Xor64, Shl64, ShrS64, ShrU64, Rotl64, Rotr64,
    Eq64, Ne64, LtS64, LtU64, GtS64, GtU64, LeS64, LeU64, GeS64, GeU64,
    DivS32, DivU32, RemS32, RemU32, DivS64, DivU64, RemS64, RemU64,
    // unary (second operand ignored)
    Eqz32, Eqz64, Clz32, Ctz32, Popcnt32, Clz64, Ctz64, Popcnt64,
    Wrap, ExtS3264, Ext8S32, Ext16S32, Ext8S64, Ext16S64,
    // floats, concrete only
    F64Add, F64Sub, F64Mul, F64Div, F64Eq, F64Ne, F64Lt, F64Gt, F64Le, F64Ge,
    F64ConvU32, F64ConvS32, F64ConvU64, F64ConvS64, F64Trunc, F64Floor, F64Ceil, F64Nearest, F64Abs, F64Neg, F64Sqrt,
    I32TruncSatU, I32TruncSatS, I64TruncSatU, I64TruncSatS, F64Promote, F32Demote, F64Copysign,
}
impl Op {
    pub fn is_unary(self) -> bool {
        use Op::*;
        matches!(self, Eqz32 | Eqz64 | Clz32 | Ctz32 | Popcnt32 | Clz64 | Ctz64 | Popcnt64 | Wrap | ExtS3264
            | Ext8S32 | Ext16S32 | Ext8S64 | Ext16S64 | F64ConvU32 | F64ConvS32 | F64ConvU64 | F64ConvS64
            | F64Trunc | F64Floor | F64Ceil | F64Nearest | F64Abs | F64Neg | F64Sqrt
            | I32TruncSatU | I32TruncSatS | I64TruncSatU | I64TruncSatS | F64Promote | F32Demote)
    }
    pub fn is_float(self) -> bool {
        self as u8 >= Op::F64Add as u8
    }
    pub fn is_div(self) -> bool {
        let x = self as u8;
        x >= Op::DivS32 as u8 && x <= Op::RemU64 as u8
    }
    pub fn is_cmp(self) -> bool {
        let x = self as u8;
        (x >= Op::Eq32 as u8 && x <= Op::GeU32 as u8)
            || (x >= Op::Eq64 as u8 && x <= Op::GeU64 as u8)
            || matches!(self, Op::Eqz32 | Op::Eqz64)
    }
    pub fn is64(self) -> bool {
        let x = self as u8;
        (x >= Op::Add64 as u8 && x <= Op::GeU64 as u8) || matches!(self, Op::Eqz64 | Op::Clz64 | Op::Ctz64 | Op::Popcnt64)
    }
}

#[inline(always)]
pub fn eval_op(op: Op, a: u64, b: u64) -> u64 {
    use Op::*;
    let (x, y) = (a as u32, b as u32);
    macro_rules! b {
        ($e:expr) => {
            if $e { 1 } else { 0 }
        };
    }
    macro_rules! f {
        ($e:expr) => {
            f64::from_bits($e)
        };
    }
    match op {
        Add32 => x.wrapping_add(y) as u64,
        Sub32 => x.wrapping_sub(y) as u64,
        Mul32 => x.wrapping_mul(y) as u64,
        And32 => (x & y) as u64,
        Or32 => (x | y) as u64,
        Xor32 => (x ^ y) as u64,
        Shl32 => x.wrapping_shl(y) as u64,
        ShrS32 => (x as i32).wrapping_shr(y) as u32 as u64,
        ShrU32 => x.wrapping_shr(y) as u64,
        Rotl32 => x.rotate_left(y & 31) as u64,
        Rotr32 => x.rotate_right(y & 31) as u64,
        Eq32 => b!(x == y),
        Ne32 => b!(x != y),
        LtS32 => b!((x as i32) < (y as i32)),
        LtU32 => b!(x < y),
        GtS32 => b!((x as i32) > (y as i32)),
        GtU32 => b!(x > y),
        LeS32 => b!((x as i32) <= (y as i32)),
        LeU32 => b!(x <= y),
        GeS32 => b!((x as i32) >= (y as i32)),
        GeU32 => b!(x >= y),
        Add64 => a.wrapping_add(b),
        Sub64 => a.wrapping_sub(b),
        Mul64 => a.wrapping_mul(b),
        And64 => a & b,
        Or64 => a | b,
        Xor64 => a ^ b,
        Shl64 => a.wrapping_shl(b as u32),
        ShrS64 => (a as i64).wrapping_shr(b as u32) as u64,
        ShrU64 => a.wrapping_shr(b as u32),
        Rotl64 => a.rotate_left(b as u32 & 63),
        Rotr64 => a.rotate_right(b as u32 & 63),
        Eq64 => b!(a == b),
        Ne64 => b!(a != b),
        LtS64 => b!((a as i64) < (b as i64)),
        LtU64 => b!(a < b),
        GtS64 => b!((a as i64) > (b as i64)),
        GtU64 => b!(a > b),
        LeS64 => b!((a as i64) <= (b as i64)),
        LeU64 => b!(a <= b),
        GeS64 => b!((a as i64) >= (b as i64)),
        GeU64 => b!(a >= b),
        DivS32 => (x as i32).checked_div(y as i32).unwrap_or(0) as u32 as u64,
        DivU32 => x.checked_div(y).unwrap_or(0) as u64,
        RemS32 => (x as i32).checked_rem(y as i32).unwrap_or(0) as u32 as u64,
        RemU32 => x.checked_rem(y).unwrap_or(0) as u64,
        DivS64 => (a as i64).checked_div(b as i64).unwrap_or(0) as u64,
        DivU64 => a.checked_div(b).unwrap_or(0),
        RemS64 => (a as i64).checked_rem(b as i64).unwrap_or(0) as u64,
        RemU64 => a.checked_rem(b).unwrap_or(0),
        Eqz32 => b!(x == 0),
        Eqz64 => b!(a == 0),
        Clz32 => x.leading_zeros() as u64,
        Ctz32 => x.trailing_zeros() as u64,
        Popcnt32 => x.count_ones() as u64,
        Clz64 => a.leading_zeros() as u64,
        Ctz64 => a.trailing_zeros() as u64,
        Popcnt64 => a.count_ones() as u64,
        Wrap => x as u64,
        ExtS3264 => x as i32 as i64 as u64,
        Ext8S32 => x as i8 as i32 as u32 as u64,
        Ext16S32 => x as i16 as i32 as u32 as u64,
        Ext8S64 => a as i8 as i64 as u64,
        Ext16S64 => a as i16 as i64 as u64,
        F64Add => (f!(a) + f!(b)).to_bits(),
        F64Sub => (f!(a) - f!(b)).to_bits(),
        F64Mul => (f!(a) * f!(b)).to_bits(),
        F64Div => (f!(a) / f!(b)).to_bits(),
        F64Eq => b!(f!(a) == f!(b)),
        F64Ne => b!(f!(a) != f!(b)),
        F64Lt => b!(f!(a) < f!(b)),
        F64Gt => b!(f!(a) > f!(b)),
        F64Le => b!(f!(a) <= f!(b)),
        F64Ge => b!(f!(a) >= f!(b)),
        F64ConvU32 => (x as f64).to_bits(),
        F64ConvS32 => (x as i32 as f64).to_bits(),
        F64ConvU64 => (a as f64).to_bits(),
        F64ConvS64 => (a as i64 as f64).to_bits(),
        F64Trunc => f!(a).trunc().to_bits(),
        F64Floor => f!(a).floor().to_bits(),
        F64Ceil => f!(a).ceil().to_bits(),
        F64Nearest => f!(a).round_ties_even().to_bits(),
        F64Abs => f!(a).abs().to_bits(),
        F64Neg => (-f!(a)).to_bits(),
        F64Sqrt => f!(a).sqrt().to_bits(),
        I32TruncSatU => f!(a) as u32 as u64,
        I32TruncSatS => f!(a) as i32 as u32 as u64,
        I64TruncSatU => f!(a) as u64,
        I64TruncSatS => f!(a) as i64 as u64,
        F64Promote => (f32::from_bits(x) as f64).to_bits(),
        F32Demote => (f!(a) as f32).to_bits() as u64,
        F64Copysign => f!(a).copysign(f!(b)).to_bits(),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ex {
    Null,
    Tab { var: u16, t: Box<[u64]> },
    Bin { op: Op, a: V, b: V },
    Ite { c: Id, a: V, b: V },
    /// little-endian bytes, zero above
    Cat { b: Box<[V]> },
    /// memcmp: sign of the first difference
    MemDiff { p: Box<[(V, V)]> },
    /// conjunction of boolean expressions
    And { l: Box<[Id]> },
    Not { a: Id },
}

pub struct Arena {
    pub ex: Vec<Ex>,
    pub nvals: Vec<usize>, // per variable
    intern: FxMap<Ex, Id>,
    memo: FxMap<(u8, V, V), V>,
    truth: FxMap<Id, Set>,
}

impl Arena {
    pub fn new(nvals: Vec<usize>) -> Arena {
        Arena { ex: vec![Ex::Null], nvals, intern: FxMap::default(), memo: FxMap::default(), truth: FxMap::default() }
    }
    fn mk(&mut self, e: Ex) -> Id {
        if let Some(i) = self.intern.get(&e) {
            return *i;
        }
        let i = self.ex.len() as Id;
        self.ex.push(e.clone());
        self.intern.insert(e, i);
        i
    }
    pub fn tab(&mut self, var: u16, t: Vec<u64>) -> V {
        let f = t[0];
        if t.iter().all(|x| *x == f) {
            return V::k(f);
        }
        V { c: 0, s: self.mk(Ex::Tab { var, t: t.into_boxed_slice() }) }
    }
    /// Some(var) for a table
    #[inline]
    pub fn var_of(&self, v: V) -> Option<u16> {
        match &self.ex[v.s as usize] {
            Ex::Tab { var, .. } => Some(*var),
            _ => None,
        }
    }
    pub fn get_tab(&self, id: Id) -> Option<(u16, &[u64])> {
        match &self.ex[id as usize] {
            Ex::Tab { var, t } => Some((*var, t)),
            _ => None,
        }
    }
    pub fn truth_set(&mut self, id: Id) -> (u16, Set) {
        let var = match &self.ex[id as usize] {
            Ex::Tab { var, .. } => *var,
            _ => panic!("truth_set"),
        };
        if let Some(s) = self.truth.get(&id) {
            return (var, *s);
        }
        let mut s = [0u64; 4];
        if let Ex::Tab { t, .. } = &self.ex[id as usize] {
            for (i, x) in t.iter().enumerate() {
                if *x != 0 {
                    s[i >> 6] |= 1 << (i & 63);
                }
            }
        }
        self.truth.insert(id, s);
        (var, s)
    }
    pub fn is_bool(&self, v: V) -> bool {
        if v.s == 0 {
            return v.c <= 1;
        }
        match &self.ex[v.s as usize] {
            Ex::Tab { t, .. } => t.iter().all(|x| *x <= 1),
            Ex::Bin { op, .. } => op.is_cmp(),
            Ex::And { .. } | Ex::Not { .. } => true,
            Ex::Ite { a, b, .. } => self.is_bool(*a) && self.is_bool(*b),
            Ex::Cat { .. } => false,
            _ => false,
        }
    }
    /// logical not of a boolean
    pub fn not(&mut self, v: V) -> V {
        if v.s == 0 {
            return V::k((v.c == 0) as u64);
        }
        match &self.ex[v.s as usize] {
            Ex::Tab { var, t } => {
                let (var, t) = (*var, t.iter().map(|x| (*x == 0) as u64).collect());
                self.tab(var, t)
            }
            Ex::Not { a } => V { c: 0, s: *a },
            _ => V { c: 0, s: self.mk(Ex::Not { a: v.s }) },
        }
    }
    /// value -> boolean "is nonzero"
    pub fn truthy(&mut self, v: V) -> V {
        if v.s == 0 {
            return V::k((v.c != 0) as u64);
        }
        if self.is_bool(v) {
            return v;
        }
        let z = self.eq(v, V::k(0));
        self.not(z)
    }
    pub fn and(&mut self, parts: &[V]) -> V {
        let mut ids: Vec<Id> = Vec::new();
        let mut work: Vec<V> = parts.to_vec();
        work.reverse();
        while let Some(p) = work.pop() {
            if p.s == 0 {
                if p.c == 0 {
                    return V::k(0);
                }
                continue;
            }
            if let Ex::And { l } = &self.ex[p.s as usize] {
                for i in l.iter() {
                    work.push(V { c: 0, s: *i });
                }
                continue;
            }
            ids.push(p.s);
        }
        // merge tables over the same variable
        let mut tabs: Vec<(u16, Vec<u64>)> = Vec::new();
        let mut out: Vec<Id> = Vec::new();
        for i in ids {
            match &self.ex[i as usize] {
                Ex::Tab { var, t } => {
                    if let Some(e) = tabs.iter_mut().find(|e| e.0 == *var) {
                        for (x, y) in e.1.iter_mut().zip(t.iter()) {
                            *x &= (*y != 0) as u64;
                        }
                    } else {
                        tabs.push((*var, t.iter().map(|x| (*x != 0) as u64).collect()));
                    }
                }
                _ => {
                    if !out.contains(&i) {
                        out.push(i)
                    }
                }
            }
        }
        for (var, t) in tabs {
            let v = self.tab(var, t);
            if v.s == 0 {
                if v.c == 0 {
                    return V::k(0);
                }
            } else {
                out.push(v.s);
            }
        }
        out.sort();
        out.dedup();
        match out.len() {
            0 => V::k(1),
            1 => V { c: 0, s: out[0] },
            _ => V { c: 0, s: self.mk(Ex::And { l: out.into_boxed_slice() }) },
        }
    }
    pub fn or(&mut self, parts: &[V]) -> V {
        let n: Vec<V> = parts.iter().map(|p| self.not(*p)).collect();
        let a = self.and(&n);
        self.not(a)
    }
    /// bytes of a value, when it is natural to see it that way
    fn bytes_of(&mut self, v: V, n: usize) -> Option<Vec<V>> {
        if v.s == 0 {
            return Some((0..n).map(|i| V::k(v.c >> (8 * i) & 255)).collect());
        }
        if let Ex::Tab { .. } = &self.ex[v.s as usize] {
            return Some((0..n).map(|i| self.tab_byte(v, i)).collect());
        }
        match self.ex[v.s as usize].clone() {
            Ex::Cat { b } => {
                let mut r: Vec<V> = b.to_vec();
                r.resize(n, V::k(0));
                Some(r)
            }
            Ex::Bin { op, .. } if op.is_cmp() => {
                let mut r = vec![v];
                r.resize(n, V::k(0));
                Some(r)
            }
            Ex::And { .. } | Ex::Not { .. } => {
                let mut r = vec![v];
                r.resize(n, V::k(0));
                Some(r)
            }
            _ => None,
        }
    }
    fn tab_byte(&mut self, v: V, i: usize) -> V {
        let key = (200 + i as u8, v, V::k(0));
        if let Some(r) = self.memo.get(&key) {
            return *r;
        }
        let r = match &self.ex[v.s as usize] {
            Ex::Tab { var, t } => {
                let (var, t): (u16, Vec<u64>) = (*var, t.iter().map(|x| x >> (8 * i) & 255).collect());
                self.tab(var, t)
            }
            _ => unreachable!(),
        };
        self.memo.insert(key, r);
        r
    }
    pub fn byte(&mut self, v: V, i: usize) -> V {
        if v.s == 0 {
            return V::k(v.c >> (8 * i) & 255);
        }
        if let Ex::Tab { .. } = &self.ex[v.s as usize] {
            return self.tab_byte(v, i);
        }
        if let Some(b) = self.bytes_of(v, 8) {
            return b[i];
        }
        let sh = if i == 0 { v } else { self.bin(Op::ShrU64, v, V::k(8 * i as u64)) };
        self.bin(Op::And64, sh, V::k(255))
    }
    pub fn cat(&mut self, bytes: &[V]) -> V {
        let mut n = bytes.len();
        while n > 0 && bytes[n - 1] == V::k(0) {
            n -= 1;
        }
        let bytes = &bytes[..n];
        if bytes.iter().all(|b| b.s == 0) {
            let mut c = 0;
            for (i, b) in bytes.iter().enumerate() {
                c |= (b.c & 255) << (8 * i);
            }
            return V::k(c);
        }
        let mut var = None;
        let mut single = true;
        for b in bytes {
            if b.s != 0 {
                match (self.var_of(*b), var) {
                    (None, _) => single = false,
                    (Some(x), None) => var = Some(x),
                    (Some(x), Some(y)) => {
                        if x != y {
                            single = false
                        }
                    }
                }
            }
        }
        if single {
            let var = var.unwrap();
            let mut t = vec![0u64; self.nvals[var as usize]];
            for (i, b) in bytes.iter().enumerate() {
                if b.s == 0 {
                    for x in t.iter_mut() {
                        *x |= (b.c & 255) << (8 * i);
                    }
                } else if let Ex::Tab { t: bt, .. } = &self.ex[b.s as usize] {
                    for (x, y) in t.iter_mut().zip(bt.iter()) {
                        *x |= (y & 255) << (8 * i);
                    }
                }
            }
            return self.tab(var, t);
        }
        if n == 1 {
            return bytes[0];
        }
        V { c: 0, s: self.mk(Ex::Cat { b: bytes.to_vec().into_boxed_slice() }) }
    }
    pub fn eq(&mut self, a: V, b: V) -> V {
        self.bin(Op::Eq64, a, b)
    }
    pub fn memdiff(&mut self, p: Vec<(V, V)>) -> V {
        let p: Vec<(V, V)> = p.into_iter().filter(|(a, b)| a != b).collect();
        // a definite first difference decides
        if p.is_empty() {
            return V::k(0);
        }
        if p[0].0.is_k() && p[0].1.is_k() {
            let d = (p[0].0.c as i32).wrapping_sub(p[0].1.c as i32);
            return V::k(d as u32 as u64);
        }
        if let Some(r) = self.single_var_pairs(&p) {
            return r;
        }
        V { c: 0, s: self.mk(Ex::MemDiff { p: p.into_boxed_slice() }) }
    }
    fn single_var_pairs(&mut self, p: &[(V, V)]) -> Option<V> {
        let mut var = None;
        for v in p.iter().flat_map(|(a, b)| [*a, *b]) {
            if v.s != 0 {
                let x = self.var_of(v)?;
                if var.is_some() && var != Some(x) {
                    return None;
                }
                var = Some(x);
            }
        }
        let var = var?;
        let n = self.nvals[var as usize];
        let mut t = vec![0u64; n];
        for i in 0..n {
            for (a, b) in p {
                let x = self.tab_at(*a, i);
                let y = self.tab_at(*b, i);
                if x != y {
                    t[i] = (x as i32).wrapping_sub(y as i32) as u32 as u64;
                    break;
                }
            }
        }
        Some(self.tab(var, t))
    }
    fn tab_at(&self, v: V, i: usize) -> u64 {
        if v.s == 0 {
            return v.c;
        }
        match &self.ex[v.s as usize] {
            Ex::Tab { t, .. } => t[i],
            _ => panic!("tab_at"),
        }
    }
    pub fn ite(&mut self, c: V, a: V, b: V) -> V {
        if c.s == 0 {
            return if c.c != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(var) = self.var_of(c) {
            let ok = |v: V, me: &Arena| v.s == 0 || me.var_of(v) == Some(var);
            if ok(a, self) && ok(b, self) {
                let n = self.nvals[var as usize];
                let t = (0..n)
                    .map(|i| if self.tab_at(c, i) != 0 { self.tab_at(a, i) } else { self.tab_at(b, i) })
                    .collect();
                return self.tab(var, t);
            }
        }
        let c = self.truthy(c);
        if a == V::k(1) && b == V::k(0) {
            return c;
        }
        if a == V::k(0) && b == V::k(1) {
            return self.not(c);
        }
        if self.is_bool(a) && self.is_bool(b) {
            // (c & a) | (!c & b)
            let nc = self.not(c);
            let x = self.and(&[c, a]);
            let y = self.and(&[nc, b]);
            return self.or(&[x, y]);
        }
        V { c: 0, s: self.mk(Ex::Ite { c: c.s, a, b }) }
    }
    pub fn bin(&mut self, op: Op, a: V, b: V) -> V {
        if a.s == 0 && b.s == 0 {
            return V::k(eval_op(op, a.c, b.c));
        }
        let key = (op as u8, a, b);
        if let Some(r) = self.memo.get(&key) {
            return *r;
        }
        let r = self.bin_(op, a, b);
        self.memo.insert(key, r);
        r
    }
    fn bin_(&mut self, op: Op, a: V, b: V) -> V {
        use Op::*;
        // single variable: tables
        let va = if a.s == 0 { None } else { Some(self.var_of(a)) };
        let vb = if b.s == 0 { None } else { Some(self.var_of(b)) };
        let single = match (va, vb) {
            (Some(Some(x)), None) => Some(x),
            (None, Some(Some(x))) => Some(x),
            (Some(Some(x)), Some(Some(y))) if x == y => Some(x),
            _ => None,
        };
        if let Some(var) = single {
            let n = self.nvals[var as usize];
            let mut t = Vec::with_capacity(n);
            for i in 0..n {
                t.push(eval_op(op, self.tab_at(a, i), self.tab_at(b, i)));
            }
            return self.tab(var, t);
        }
        // several variables
        match op {
            Eqz32 => return self.bin(Eq32, a, V::k(0)),
            Eqz64 => return self.bin(Eq64, a, V::k(0)),
            Ne32 => {
                let e = self.bin(Eq32, a, b);
                return self.not(e);
            }
            Ne64 => {
                let e = self.bin(Eq64, a, b);
                return self.not(e);
            }
            Eq32 | Eq64 => {
                if a == b {
                    return V::k(1);
                }
                if a.s == 0 {
                    return self.bin(op, b, a);
                }
                if b.s == 0 {
                    if self.is_bool(a) {
                        return match b.c {
                            0 => self.not(a),
                            1 => a,
                            _ => V::k(0),
                        };
                    }
                    if b.c == 0 {
                        match self.ex[a.s as usize].clone() {
                            Ex::Bin { op: Or32 | Or64, a: x, b: y } => {
                                let p = self.bin(op, x, V::k(0));
                                let q = self.bin(op, y, V::k(0));
                                return self.and(&[p, q]);
                            }
                            Ex::Bin { op: Xor32 | Xor64 | Sub32 | Sub64, a: x, b: y } => return self.bin(op, x, y),
                            Ex::MemDiff { p } => {
                                let parts: Vec<V> = p.iter().map(|(x, y)| self.bin(Eq64, *x, *y)).collect();
                                return self.and(&parts);
                            }
                            _ => (),
                        }
                    }
                    if let Ex::Ite { c, a: x, b: y } = self.ex[a.s as usize].clone() {
                        let p = self.bin(op, x, b);
                        let q = self.bin(op, y, b);
                        if p.is_k() || q.is_k() || (self.is_bool(p) && self.is_bool(q)) {
                            return self.ite(V { c: 0, s: c }, p, q);
                        }
                    }
                    if let Ex::Bin { op: o2 @ (Add32 | Add64 | Xor32 | Xor64), a: x, b: y } = self.ex[a.s as usize].clone() {
                        if y.is_k() {
                            let inv = match o2 {
                                Add32 => Sub32,
                                Add64 => Sub64,
                                o => o,
                            };
                            let k = eval_op(inv, b.c, y.c);
                            return self.bin(op, x, V::k(k));
                        }
                    }
                }
                let is_cat = |v: V, me: &Arena| matches!(me.ex[v.s as usize], Ex::Cat { .. });
                if is_cat(a, self) || is_cat(b, self) {
                    if let (Some(x), Some(y)) = (self.bytes_of(a, 8), self.bytes_of(b, 8)) {
                        let parts: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(Eq64, *p, *q)).collect();
                        return self.and(&parts);
                    }
                }
            }
            And32 | And64 | Or32 | Or64 | Xor32 | Xor64 => {
                if self.is_bool(a) && self.is_bool(b) {
                    return match op {
                        And32 | And64 => self.and(&[a, b]),
                        Or32 | Or64 => self.or(&[a, b]),
                        _ => {
                            if b == V::k(1) {
                                self.not(a)
                            } else if a == V::k(1) {
                                self.not(b)
                            } else if b == V::k(0) {
                                a
                            } else if a == V::k(0) {
                                b
                            } else {
                                let na = self.not(a);
                                let nb = self.not(b);
                                let x = self.and(&[a, nb]);
                                let y = self.and(&[na, b]);
                                self.or(&[x, y])
                            }
                        }
                    };
                }
                if b == V::k(0) {
                    return if matches!(op, And32 | And64) { b } else { a };
                }
                if a == V::k(0) {
                    return if matches!(op, And32 | And64) { a } else { b };
                }
                if matches!(op, And32 | And64) && b == V::k(1) && self.is_bool(a) {
                    return a;
                }
                let is_cat = |v: V, me: &Arena| v.s == 0 || matches!(me.ex[v.s as usize], Ex::Cat { .. } | Ex::Tab { .. });
                let any_cat = |v: V, me: &Arena| v.s != 0 && matches!(me.ex[v.s as usize], Ex::Cat { .. });
                if is_cat(a, self) && is_cat(b, self) && (any_cat(a, self) || any_cat(b, self)) {
                    let n = if matches!(op, And32 | Or32 | Xor32) { 4 } else { 8 };
                    if let (Some(x), Some(y)) = (self.bytes_of(a, n), self.bytes_of(b, n)) {
                        let o = match op {
                            And32 | And64 => And64,
                            Or32 | Or64 => Or64,
                            _ => Xor64,
                        };
                        let parts: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(o, *p, *q)).collect();
                        return self.cat(&parts);
                    }
                }
                if matches!(op, And32 | And64) && b.s == 0 {
                    // (x & k1) & k2
                    if let Ex::Bin { op: And32 | And64, a: x, b: y } = self.ex[a.s as usize].clone() {
                        if y.is_k() {
                            return self.bin(op, x, V::k(y.c & b.c));
                        }
                    }
                }
            }
            Shl32 | Shl64 | ShrU32 | ShrU64 if b.s == 0 => {
                let n = if matches!(op, Shl32 | ShrU32) { 4usize } else { 8 };
                let k = (b.c as usize) & (n * 8 - 1);
                if k == 0 {
                    return a;
                }
                if k % 8 == 0 && matches!(self.ex[a.s as usize], Ex::Cat { .. }) {
                    let x = self.bytes_of(a, n).unwrap();
                    let m = k / 8;
                    let mut r = vec![V::k(0); n];
                    for i in 0..n {
                        if matches!(op, Shl32 | Shl64) {
                            if i >= m {
                                r[i] = x[i - m];
                            }
                        } else if i + m < n {
                            r[i] = x[i + m];
                        }
                    }
                    return self.cat(&r);
                }
            }
            Wrap => {
                if let Ex::Cat { b } = self.ex[a.s as usize].clone() {
                    let n = b.len().min(4);
                    return self.cat(&b[..n]);
                }
                // every 32-bit operation already yields a zero-extended value
                if let Ex::Bin { op: o, .. } = &self.ex[a.s as usize] {
                    if !o.is64() && !matches!(o, ExtS3264 | Ext8S64 | Ext16S64) {
                        return a;
                    }
                    if o.is_cmp() {
                        return a;
                    }
                }
                if self.is_bool(a) {
                    return a;
                }
                if let Ex::MemDiff { .. } = &self.ex[a.s as usize] {
                    return a;
                }
            }
            _ => (),
        }
        V { c: 0, s: self.mk(Ex::Bin { op, a, b: if op.is_unary() { V::k(0) } else { b } }) }
    }
    pub fn eval(&self, v: V, m: &[u8]) -> u64 {
        if v.s == 0 {
            return v.c;
        }
        match &self.ex[v.s as usize] {
            Ex::Null => 0,
            Ex::Tab { var, t } => t[m[*var as usize] as usize],
            Ex::Bin { op, a, b } => eval_op(*op, self.eval(*a, m), self.eval(*b, m)),
            Ex::Ite { c, a, b } => {
                if self.eval(V { c: 0, s: *c }, m) != 0 {
                    self.eval(*a, m)
                } else {
                    self.eval(*b, m)
                }
            }
            Ex::Cat { b } => {
                let mut r = 0;
                for (i, x) in b.iter().enumerate() {
                    r |= (self.eval(*x, m) & 255) << (8 * i);
                }
                r
            }
            Ex::MemDiff { p } => {
                for (a, b) in p.iter() {
                    let (x, y) = (self.eval(*a, m), self.eval(*b, m));
                    if x != y {
                        return (x as i32).wrapping_sub(y as i32) as u32 as u64;
                    }
                }
                0
            }
            Ex::And { l } => l.iter().all(|i| self.eval(V { c: 0, s: *i }, m) != 0) as u64,
            Ex::Not { a } => (self.eval(V { c: 0, s: *a }, m) == 0) as u64,
        }
    }
    pub fn vars_of(&self, id: Id, out: &mut Vec<u16>) {
        let mut seen = FxMap::default();
        self.vars_rec(id, out, &mut seen);
    }
    fn vars_rec(&self, id: Id, out: &mut Vec<u16>, seen: &mut FxMap<Id, ()>) {
        if id == 0 || seen.insert(id, ()).is_some() {
            return;
        }
        match &self.ex[id as usize] {
            Ex::Null => (),
            Ex::Tab { var, .. } => {
                if !out.contains(var) {
                    out.push(*var)
                }
            }
            Ex::Bin { a, b, .. } => {
                self.vars_rec(a.s, out, seen);
                self.vars_rec(b.s, out, seen);
            }
            Ex::Ite { c, a, b } => {
                self.vars_rec(*c, out, seen);
                self.vars_rec(a.s, out, seen);
                self.vars_rec(b.s, out, seen);
            }
            Ex::Cat { b } => b.iter().for_each(|x| self.vars_rec(x.s, out, seen)),
            Ex::MemDiff { p } => p.iter().for_each(|(x, y)| {
                self.vars_rec(x.s, out, seen);
                self.vars_rec(y.s, out, seen);
            }),
            Ex::And { l } => l.iter().for_each(|x| self.vars_rec(*x, out, seen)),
            Ex::Not { a } => self.vars_rec(*a, out, seen),
        }
    }
}
