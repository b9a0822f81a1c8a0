//! JavaScript results as Rust values; the CST; comparisons that may split a path.
use crate::exec::*;
use crate::sym::*;

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Null,
    Bool(bool),
    Num(f64),
    Str(Vec<V>),
    Arr(Vec<Val>),
    Obj(Vec<(String, Val)>),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum ROut {
    Ok(Val),
    Err(Val),
    Trap(String),
    Hang,
    Missing,
}

pub fn val(m: &Machine, h: u32) -> Val {
    match h {
        128 => return Val::Undef,
        129 => return Val::Null,
        130 => return Val::Bool(true),
        131 => return Val::Bool(false),
        _ => (),
    }
    match m.js.get(h.wrapping_sub(H0) as usize) {
        None => Val::Other(format!("handle {}", h)),
        Some(Js::Num(x)) => Val::Num(*x),
        Some(Js::BigInt(_)) => Val::Other("bigint".into()),
        Some(Js::Str(b)) => Val::Str(b.clone()),
        Some(Js::Arr(x)) => Val::Arr(x.iter().map(|h| val(m, *h)).collect()),
        Some(Js::Obj(x)) => Val::Obj(x.iter().map(|(k, h)| (String::from_utf8_lossy(k).to_string(), val(m, *h))).collect()),
        Some(Js::Map(_)) => Val::Other("Map".into()),
        Some(Js::Error) => Val::Other("Error".into()),
    }
}
pub fn outs(m: &Machine) -> Vec<ROut> {
    let mut r: Vec<ROut> = m
        .results
        .iter()
        .map(|o| match o {
            Out::Ok(h) => ROut::Ok(val(m, *h)),
            Out::Err(h) => ROut::Err(val(m, *h)),
            Out::Trap(s) => ROut::Trap(s.clone()),
            Out::Hang => ROut::Hang,
            Out::Unsupported(_) => ROut::Missing,
        })
        .collect();
    r.resize_with(m.tmpl.calls.len(), || ROut::Missing);
    r
}
/// tagged JSON written by replay.js
pub fn from_json(j: &serde_json::Value) -> Val {
    let t = j["t"].as_str().unwrap_or("");
    match t {
        "undefined" => Val::Undef,
        "null" => Val::Null,
        "bool" => Val::Bool(j["v"].as_bool().unwrap()),
        "num" => Val::Num(j["v"].as_f64().unwrap_or(f64::NAN)),
        "str" => Val::Str(j["v"].as_str().unwrap().bytes().map(|b| V::k(b as u64)).collect()),
        "arr" => Val::Arr(j["v"].as_array().unwrap().iter().map(from_json).collect()),
        "obj" => Val::Obj(
            j["v"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), from_json(&e[1]))).collect(),
        ),
        o => Val::Other(o.to_string()),
    }
}

impl Val {
    pub fn get(&self, k: &str) -> Option<&Val> {
        match self {
            Val::Obj(x) => x.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            Val::Obj(x) => {
                let mut k: Vec<&str> = x.iter().map(|e| e.0.as_str()).collect();
                k.sort();
                k
            }
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub line: u64,
    pub col: u64,
    pub lit: Vec<V>,
}
#[derive(Clone, Debug)]
pub enum Child {
    One(Node),
    Many(Vec<Node>),
}
#[derive(Clone, Debug)]
pub struct Node {
    pub tok: Option<Tok>,
    pub ty: String,
    pub ch: Vec<(String, Child)>,
}
pub const EOFPOS: u64 = 4294967295;

fn posint(v: &Val) -> Result<u64, String> {
    match v {
        Val::Num(x) if *x >= 1.0 && x.fract() == 0.0 && *x <= 4294967295.0 => Ok(*x as u64),
        o => Err(format!("not a positive integer: {:?}", o)),
    }
}
fn konst_str(v: &Val) -> Result<String, String> {
    match v {
        Val::Str(b) => {
            if b.iter().any(|x| x.s != 0) {
                return Err("symbolic string where a fixed one is expected".into());
            }
            String::from_utf8(b.iter().map(|x| x.c as u8).collect()).map_err(|_| "not UTF-8".into())
        }
        o => Err(format!("not a string: {:?}", o)),
    }
}
pub fn tok(v: &Val) -> Result<Tok, String> {
    if v.keys() != ["column", "line", "literal"] {
        return Err(format!("token keys {:?}", v.keys()));
    }
    let lit = match v.get("literal").unwrap() {
        Val::Str(b) => b.clone(),
        o => return Err(format!("literal is not a string: {:?}", o)),
    };
    Ok(Tok { line: posint(v.get("line").unwrap())?, col: posint(v.get("column").unwrap())?, lit })
}
pub fn toks(v: &Val) -> Result<Vec<Tok>, String> {
    match v {
        Val::Arr(x) => x.iter().map(tok).collect(),
        o => Err(format!("not an array: {:?}", o)),
    }
}
pub fn node(v: &Val) -> Result<Node, String> {
    if v.keys() != ["children", "node_type", "token"] {
        return Err(format!("node keys {:?}", v.keys()));
    }
    let t = match v.get("token").unwrap() {
        Val::Null => None,
        o => Some(tok(o)?),
    };
    let ty = konst_str(v.get("node_type").unwrap())?;
    let mut ch = vec![];
    match v.get("children").unwrap() {
        Val::Obj(x) => {
            for (k, c) in x {
                match c.keys().as_slice() {
                    ["Node"] => ch.push((k.clone(), Child::One(node(c.get("Node").unwrap())?))),
                    ["NodeVec"] => ch.push((k.clone(), Child::Many(nodes(c.get("NodeVec").unwrap())?))),
                    o => return Err(format!("child {} has keys {:?}", k, o)),
                }
            }
        }
        o => return Err(format!("children is not a plain object: {:?}", o)),
    }
    ch.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(Node { tok: t, ty, ch })
}
pub fn nodes(v: &Val) -> Result<Vec<Node>, String> {
    match v {
        Val::Arr(x) => x.iter().map(node).collect(),
        o => Err(format!("not an array: {:?}", o)),
    }
}
#[derive(Clone, Debug)]
pub struct PErr {
    pub line: u64,
    pub col: u64,
    pub msg: Vec<V>,
}
pub fn perr(v: &Val) -> Result<PErr, String> {
    if v.keys() != ["column", "line", "message"] {
        return Err(format!("error keys {:?}", v.keys()));
    }
    let msg = match v.get("message").unwrap() {
        Val::Str(b) => b.clone(),
        o => return Err(format!("message is not a string: {:?}", o)),
    };
    Ok(PErr { line: posint(v.get("line").unwrap())?, col: posint(v.get("column").unwrap())?, msg })
}

impl Node {
    pub fn get(&self, k: &str) -> Option<&Child> {
        self.ch.iter().find(|e| e.0 == k).map(|e| &e.1)
    }
    pub fn one(&self, k: &str) -> Option<&Node> {
        match self.get(k) {
            Some(Child::One(n)) => Some(n),
            _ => None,
        }
    }
    pub fn many(&self, k: &str) -> &[Node] {
        match self.get(k) {
            Some(Child::Many(n)) => n,
            _ => &[],
        }
    }
    /// visits every node that is not a comment list entry
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for (k, c) in &self.ch {
            if k == "leading_comments" || k == "trailing_comments" {
                continue;
            }
            match c {
                Child::One(n) => n.walk(f),
                Child::Many(v) => v.iter().for_each(|n| n.walk(f)),
            }
        }
    }
}

pub fn show(m: &Machine, lit: &[V]) -> String {
    String::from_utf8_lossy(&lit.iter().map(|b| m.ar.eval(*b, &m.ps.model) as u8).collect::<Vec<u8>>()).to_string()
}
pub fn lit_eq(m: &mut Machine, a: &[V], b: &[V]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut parts = vec![];
    for (x, y) in a.iter().zip(b) {
        if x != y {
            parts.push(m.ar.eq(*x, *y));
        }
    }
    if parts.is_empty() {
        return true;
    }
    let c = m.ar.and(&parts);
    m.branch(c)
}
pub fn upper(m: &mut Machine, v: V) -> V {
    if v.s == 0 {
        return V::k((v.c as u8).to_ascii_uppercase() as u64);
    }
    if let Some((var, t)) = m.ar.get_tab(v.s) {
        let t = t.iter().map(|x| if *x < 128 { (*x as u8).to_ascii_uppercase() as u64 } else { *x }).collect();
        return m.ar.tab(var, t);
    }
    let c = m.concretize(v);
    V::k((c as u8).to_ascii_uppercase() as u64)
}
pub fn lit_eq_nocase(m: &mut Machine, a: &[V], b: &[V]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let x: Vec<V> = a.iter().map(|v| upper(m, *v)).collect();
    let y: Vec<V> = b.iter().map(|v| upper(m, *v)).collect();
    lit_eq(m, &x, &y)
}
/// is the literal (ASCII case-insensitively) one of the given words?
pub fn lit_in(m: &mut Machine, a: &[V], words: &[&str]) -> bool {
    let up: Vec<V> = a.iter().map(|v| upper(m, *v)).collect();
    let mut alts = vec![];
    for w in words {
        if w.len() != up.len() {
            continue;
        }
        let parts: Vec<V> = up.iter().zip(w.bytes()).map(|(v, b)| m.ar.eq(*v, V::k(b as u64))).collect();
        let c = m.ar.and(&parts);
        alts.push(c);
    }
    if alts.is_empty() {
        return false;
    }
    let c = m.ar.or(&alts);
    m.branch(c)
}
pub fn is_comment(m: &mut Machine, lit: &[V]) -> bool {
    if lit.is_empty() {
        return false;
    }
    let h = m.in_set(lit[0], b"#");
    if m.branch(h) {
        return true;
    }
    if lit.len() < 2 {
        return false;
    }
    let a = m.in_set(lit[0], b"-");
    let b = m.in_set(lit[1], b"-");
    let c = m.in_set(lit[0], b"/");
    let d = m.in_set(lit[1], b"*");
    let ab = m.ar.and(&[a, b]);
    let cd = m.ar.and(&[c, d]);
    let o = m.ar.or(&[ab, cd]);
    m.branch(o)
}

pub struct Cmp {
    pub positions: bool,
    pub comments: bool,
    pub nocase: bool,
}
pub fn same_node(m: &mut Machine, a: &Node, b: &Node, c: &Cmp, path: &str) -> Result<(), String> {
    if a.ty != b.ty {
        return Err(format!("{}: node type {} became {}", path, a.ty, b.ty));
    }
    match (&a.tok, &b.tok) {
        (None, None) => (),
        (Some(x), Some(y)) => {
            let e = if c.nocase { lit_eq_nocase(m, &x.lit, &y.lit) } else { lit_eq(m, &x.lit, &y.lit) };
            if !e {
                return Err(format!("{}: literal {:?} became {:?}", path, show(m, &x.lit), show(m, &y.lit)));
            }
            if c.positions && (x.line, x.col) != (y.line, y.col) {
                return Err(format!("{}: position {}:{} became {}:{}", path, x.line, x.col, y.line, y.col));
            }
        }
        _ => return Err(format!("{}: token present in one only", path)),
    }
    let keep = |n: &Node| -> Vec<usize> {
        (0..n.ch.len()).filter(|i| c.comments || !(n.ch[*i].0 == "leading_comments" || n.ch[*i].0 == "trailing_comments")).collect()
    };
    let (ka, kb) = (keep(a), keep(b));
    let na: Vec<&str> = ka.iter().map(|i| a.ch[*i].0.as_str()).collect();
    let nb: Vec<&str> = kb.iter().map(|i| b.ch[*i].0.as_str()).collect();
    if na != nb {
        return Err(format!("{}: children {:?} became {:?}", path, na, nb));
    }
    for (i, j) in ka.iter().zip(kb.iter()) {
        let p = format!("{}.{}", path, a.ch[*i].0);
        match (&a.ch[*i].1, &b.ch[*j].1) {
            (Child::One(x), Child::One(y)) => same_node(m, x, y, c, &p)?,
            (Child::Many(x), Child::Many(y)) => same_nodes(m, x, y, c, &p)?,
            _ => return Err(format!("{}: Node/NodeVec changed", p)),
        }
    }
    Ok(())
}
pub fn same_nodes(m: &mut Machine, a: &[Node], b: &[Node], c: &Cmp, path: &str) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{}: {} elements became {}", path, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        same_node(m, x, y, c, &format!("{}[{}]", path, i))?;
    }
    Ok(())
}
