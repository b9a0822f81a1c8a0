//! The published TypeScript declarations (the string in /repo/src/types.rs), read at
//! run time: for every node type its declared children.
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Str(String),
    P(char),
}
fn lex(s: &str) -> Vec<T> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let a = i + 1;
            i += 1;
            while i < c.len() && c[i] != q {
                i += 1;
            }
            out.push(T::Str(c[a..i].iter().collect()));
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$' {
            let a = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            out.push(T::Id(c[a..i].iter().collect()));
        } else {
            out.push(T::P(c[i]));
            i += 1;
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct Field {
    pub optional: bool,
    pub node: bool,
    pub vec: bool,
    /// when every alternative is a concrete declared type
    pub allowed: Option<BTreeSet<String>>,
}
#[derive(Clone, Debug, Default)]
struct Decl {
    bases: Vec<String>,
    node_type: Option<String>,
    fields: BTreeMap<String, Field>,
    children_of: Option<String>,
    token: Option<String>, // "Token" | "null"
}
#[derive(Clone, Debug, Default)]
pub struct NodeDecl {
    pub fields: BTreeMap<String, Field>,
    pub token_null: Option<bool>,
}
#[derive(Default)]
pub struct Types {
    pub by_type: BTreeMap<String, NodeDecl>,
    /// node types that belong to the union `parse` is declared to return
    pub returned: BTreeSet<String>,
}

struct P {
    t: Vec<T>,
    i: usize,
}
impl P {
    fn is(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&T::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> Option<String> {
        if let Some(T::Id(s)) = self.t.get(self.i) {
            self.i += 1;
            return Some(s.clone());
        }
        None
    }
    /// the tokens of a type expression up to `;`, `,` or an unbalanced closer
    fn expr(&mut self) -> Vec<T> {
        let mut d = 0;
        let a = self.i;
        while let Some(t) = self.t.get(self.i) {
            match t {
                T::P('{' | '(' | '[') => d += 1,
                T::P('}' | ')' | ']') => {
                    if d == 0 {
                        break;
                    }
                    d -= 1;
                }
                T::P(';' | ',') if d == 0 => break,
                // members may also be separated by a newline: a name after a complete type
                T::Id(_) if d == 0 && self.i > a && matches!(self.t[self.i - 1], T::Id(_) | T::Str(_) | T::P('}' | ']')) => break,
                _ => (),
            }
            self.i += 1;
        }
        self.t[a..self.i].to_vec()
    }
}
fn field(optional: bool, t: &[T]) -> Field {
    let mut f = Field { optional, ..Default::default() };
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut any = false;
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            T::Id(s) if s == "NodeChild" => {
                f.node = true;
                any = true
            }
            T::Id(s) if s == "NodeVecChild" => {
                f.vec = true;
                any = true
            }
            T::Id(s) if s == "Node" && t.get(i + 1) == Some(&T::P(':')) => {
                f.node = true;
                i += 1;
            }
            T::Id(s) if s == "NodeVec" && t.get(i + 1) == Some(&T::P(':')) => {
                f.vec = true;
                i += 1;
            }
            T::Id(s) => {
                names.insert(s.clone());
            }
            T::P('&') => any = true,
            _ => (),
        }
        i += 1;
    }
    if names.len() == 1 && names.contains("undefined") {
        // declared as never present
        f.optional = true;
        return f;
    }
    if !any && !names.is_empty() {
        f.allowed = Some(names);
    }
    f
}

impl Types {
    pub fn load(src: &str) -> Result<Types, String> {
        // the declarations are the raw string(s) of a source file, or a .d.ts file
        let dts;
        let src = if src.contains("r#\"") {
            src
        } else {
            dts = format!("r#\"{}\"#", src);
            &dts
        };
        let mut text = String::new();
        let mut rest = src;
        while let Some(a) = rest.find("r#\"") {
            let b = rest[a + 3..].find("\"#").ok_or("unterminated raw string")?;
            text.push_str(&rest[a + 3..a + 3 + b]);
            text.push('\n');
            rest = &rest[a + 3 + b + 2..];
        }
        let mut p = P { t: lex(&text), i: 0 };
        let mut decls: BTreeMap<String, Decl> = BTreeMap::new();
        while p.i < p.t.len() {
            match p.id().as_deref() {
                Some("type") => {
                    let name = p.id().ok_or("type name")?;
                    if !p.eat('=') {
                        continue;
                    }
                    let e = p.expr_decl();
                    decls.insert(name, decl(&e));
                }
                Some("interface") => {
                    let name = p.id().ok_or("interface name")?;
                    let mut bases = vec![];
                    while !p.is('{') && p.i < p.t.len() {
                        if let Some(b) = p.id() {
                            if b != "extends" {
                                bases.push(b);
                            }
                        } else {
                            p.i += 1;
                        }
                    }
                    let e = p.expr_decl();
                    let mut d = decl(&e);
                    d.bases.extend(bases);
                    decls.insert(name, d);
                }
                Some(_) => (),
                None => p.i += 1,
            }
        }
        let mut out = Types::default();
        for (name, d) in &decls {
            if let Some(nt) = &d.node_type {
                let mut nd = NodeDecl::default();
                collect(name, &decls, &mut nd, 0);
                out.by_type.insert(nt.clone(), nd);
            }
        }
        // names used in `allowed` are type names; turn them into node types
        let of_name: BTreeMap<String, Option<String>> = decls.iter().map(|(k, d)| (k.clone(), d.node_type.clone())).collect();
        for nd in out.by_type.values_mut() {
            for f in nd.fields.values_mut() {
                if let Some(a) = f.allowed.take() {
                    let m: Option<BTreeSet<String>> = a.iter().map(|n| of_name.get(n).cloned().flatten()).collect();
                    f.allowed = m;
                }
            }
        }
        // the members of UnknownNode, through unions of unions
        let mut todo = vec!["UnknownNode".to_string()];
        let mut seen = BTreeSet::new();
        while let Some(n) = todo.pop() {
            if !seen.insert(n.clone()) {
                continue;
            }
            if let Some(d) = decls.get(&n) {
                match &d.node_type {
                    Some(t) => {
                        out.returned.insert(t.clone());
                    }
                    None => todo.extend(d.bases.iter().cloned()),
                }
            }
        }
        if out.by_type.len() < 50 {
            return Err(format!("only {} node types found in the TypeScript declarations", out.by_type.len()));
        }
        Ok(out)
    }
    pub fn check(&self, n: &Node) -> Result<(), String> {
        let d = match self.by_type.get(&n.ty) {
            None => return Err(format!("node type {} is not declared", n.ty)),
            Some(d) => d,
        };
        if !self.returned.contains(&n.ty) {
            return Err(format!("node type {} is not part of UnknownNode", n.ty));
        }
        for (k, c) in &n.ch {
            let f = match d.fields.get(k) {
                None => return Err(format!("{} node has an undeclared child {}", n.ty, k)),
                Some(f) => f,
            };
            if !f.node && !f.vec {
                return Err(format!("{} node has a child {}, declared undefined", n.ty, k));
            }
            match c {
                Child::One(x) => {
                    if !f.node {
                        return Err(format!("{}.{} is a Node, declared NodeVec", n.ty, k));
                    }
                    self.check(x)?;
                }
                Child::Many(v) => {
                    if !f.vec {
                        return Err(format!("{}.{} is a NodeVec, declared Node", n.ty, k));
                    }
                    for x in v {
                        self.check(x)?;
                    }
                }
            }
        }
        Ok(())
    }
}
impl P {
    /// a declaration's right-hand side: up to the next top-level `;` or `export`
    fn expr_decl(&mut self) -> Vec<T> {
        let mut d = 0;
        let a = self.i;
        while let Some(t) = self.t.get(self.i) {
            match t {
                T::P('{' | '(' | '[') => d += 1,
                T::P('}' | ')' | ']') => d -= 1,
                T::P(';') if d == 0 => break,
                T::Id(s) if d == 0 && (s == "export" || s == "interface" || s == "declare") => break,
                _ => (),
            }
            self.i += 1;
        }
        self.t[a..self.i].to_vec()
    }
}
fn decl(t: &[T]) -> Decl {
    let mut d = Decl::default();
    let mut p = P { t: t.to_vec(), i: 0 };
    while p.i < p.t.len() {
        if p.eat('{') {
            while !p.eat('}') && p.i < p.t.len() {
                let key = match p.id() {
                    Some(k) => k,
                    None => {
                        p.i += 1;
                        continue;
                    }
                };
                let _opt = p.eat('?');
                if !p.eat(':') {
                    continue;
                }
                let e = p.expr();
                p.eat(';');
                p.eat(',');
                match key.as_str() {
                    "node_type" => {
                        if let [T::Str(s)] = e.as_slice() {
                            d.node_type = Some(s.clone());
                        }
                    }
                    "token" => {
                        if let [T::Id(s)] = e.as_slice() {
                            d.token = Some(s.clone());
                        }
                    }
                    "children" => {
                        if let [T::Id(s), T::P('['), T::Str(_), T::P(']')] = e.as_slice() {
                            d.children_of = Some(s.clone());
                        } else {
                            let mut q = P { t: e, i: 0 };
                            q.eat('{');
                            while q.i < q.t.len() {
                                match q.id() {
                                    Some(k) => {
                                        let opt = q.eat('?');
                                        if q.eat(':') {
                                            let fe = q.expr();
                                            d.fields.insert(k, field(opt, &fe));
                                        }
                                    }
                                    None => q.i += 1,
                                }
                            }
                        }
                    }
                    _ => (),
                }
            }
        } else if let Some(s) = p.id() {
            d.bases.push(s);
        } else {
            p.i += 1;
        }
    }
    d
}
fn collect(name: &str, decls: &BTreeMap<String, Decl>, nd: &mut NodeDecl, depth: usize) {
    let d = match decls.get(name) {
        Some(d) => d,
        None => return,
    };
    if depth > 20 || name == "UnknownNode" {
        return;
    }
    for b in &d.bases {
        collect(b, decls, nd, depth + 1);
    }
    if let Some(c) = &d.children_of {
        collect(c, decls, nd, depth + 1);
    }
    for (k, f) in &d.fields {
        nd.fields.insert(k.clone(), f.clone());
    }
    match d.token.as_deref() {
        Some("Token") => nd.token_null = Some(false),
        Some("null") => nd.token_null = Some(true),
        _ => (),
    }
}
