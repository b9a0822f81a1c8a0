//! Reference for P10: GoogleSQL's operator precedence, as a small precedence-climbing
//! parser over reference tokens, independent of src/parser.rs. It yields, for every
//! operator token, the token ranges of its operands; the tree returned by parse has to
//! give each operator node exactly these ranges.
use crate::exec::*;
use crate::props::{Judge, R};
use crate::refl::*;
use crate::val::*;
use std::collections::HashMap;

#[derive(Debug, Clone)]
struct Op {
    tok: usize,
    left: Option<(usize, usize)>,
    right: Option<(usize, usize)>,
    max: Option<(usize, usize)>, // BETWEEN's upper bound
    not: Option<usize>,
}
struct Ref<'a> {
    m: &'a mut Machine,
    t: Vec<RTok>,
    i: usize,
    ops: Vec<Op>,
}
struct Bad;
type E<T> = Result<T, Bad>;
impl<'a> Ref<'a> {
    fn is(&mut self, k: usize, words: &[&str]) -> bool {
        match self.t.get(self.i + k).cloned() {
            None => false,
            Some(t) => {
                if t.kind == Kind::Word || t.kind == Kind::Punct {
                    lit_in(self.m, &t.lit, words)
                } else {
                    false
                }
            }
        }
    }
    fn want(&mut self, words: &[&str]) -> E<()> {
        if self.is(0, words) {
            self.i += 1;
            Ok(())
        } else {
            Err(Bad)
        }
    }
    /// in parentheses or brackets: expressions (their operators count too) or anything else
    fn group(&mut self) -> E<()> {
        let (at, n) = (self.i, self.ops.len());
        let end: &[&str] = if self.is(0, &["("]) { &[")"] } else { &["]"] };
        self.i += 1;
        loop {
            if self.expr(13).is_err() {
                break;
            }
            if self.is(0, &[","]) {
                self.i += 1;
                continue;
            }
            if self.is(0, end) {
                self.i += 1;
                return Ok(());
            }
            break;
        }
        self.i = at;
        self.ops.truncate(n);
        let mut depth = 0;
        loop {
            depth += self.is(0, &["(", "["]) as i32 - self.is(0, &[")", "]"]) as i32;
            self.i += 1;
            if depth == 0 {
                return Ok(());
            }
            if self.i >= self.t.len() {
                return Err(Bad);
            }
        }
    }
    fn call(&mut self) -> E<()> {
        self.group()?;
        if self.is(0, &["OVER"]) {
            self.i += 1;
            if self.is(0, &["("]) {
                self.group()?;
            } else {
                self.i += 1;
            }
        }
        Ok(())
    }
    /// level: operators binding at least this tightly are taken (2 tightest .. 12)
    fn expr(&mut self, level: u32) -> E<(usize, usize)> {
        let start = self.i;
        // prefix
        if self.is(0, &["NOT"]) {
            self.i += 1;
            let r = self.expr(10)?;
            self.ops.push(Op { tok: start, left: None, right: Some(r), max: None, not: None });
        } else if self.is(0, &["-", "+", "~"]) {
            self.i += 1;
            let r = self.expr(2)?;
            self.ops.push(Op { tok: start, left: None, right: Some(r), max: None, not: None });
        } else if self.is(0, &["(", "["]) {
            self.group()?;
        } else if self.is(0, &["CASE"]) {
            let mut depth = 0;
            loop {
                depth += self.is(0, &["CASE"]) as i32 - self.is(0, &["END"]) as i32;
                self.i += 1;
                if depth == 0 {
                    break;
                }
                if self.i >= self.t.len() {
                    return Err(Bad);
                }
            }
        } else if self.is(0, &["INTERVAL"]) {
            self.i += 1;
            self.expr(12)?;
            if self.t.get(self.i).map(|t| t.kind) != Some(Kind::Word) {
                return Err(Bad);
            }
            self.i += 1;
        } else {
            let t = self.t.get(self.i).cloned().ok_or(Bad)?;
            match t.kind {
                Kind::Number | Kind::Str | Kind::BackQuoted | Kind::Param | Kind::Template => (),
                Kind::Word => (),
                _ if self.is(0, &["?"]) => (),
                _ => return Err(Bad),
            }
            if t.kind == Kind::Word && lit_in(self.m, &t.lit, &OPERATOR_WORDS) {
                return Err(Bad);
            }
            let word = self.t[self.i].kind == Kind::Word;
            if word && self.is(0, &["ARRAY", "STRUCT"]) && self.is(1, &["<"]) {
                while !self.is(0, &["(", "["]) {
                    self.i += 1;
                    if self.i >= self.t.len() {
                        return Err(Bad);
                    }
                }
                self.group()?;
            } else if word && self.is(0, &["DATE", "TIME", "DATETIME", "TIMESTAMP", "NUMERIC", "BIGNUMERIC", "DECIMAL", "BIGDECIMAL", "JSON", "B", "R", "BR", "RB"]) && self.t.get(self.i + 1).map(|t| t.kind) == Some(Kind::Str) {
                self.i += 2;
            } else {
                self.i += 1;
                if word && self.is(0, &["("]) {
                    self.call()?;
                }
            }
        }
        // postfix and infix
        loop {
            let left = (start, self.i);
            let at = self.i;
            if self.is(0, &["."]) {
                self.i += 1;
                let r = self.i;
                if self.t.get(r).map(|t| t.kind) != Some(Kind::Word) {
                    return Err(Bad);
                }
                self.i += 1;
                if self.is(0, &["("]) {
                    self.call()?; // a name of several parts, or a function in a chain
                } else {
                    self.ops.push(Op { tok: at, left: Some(left), right: Some((r, r + 1)), max: None, not: None });
                }
                continue;
            }
            if self.is(0, &["["]) {
                self.i += 1;
                let r = self.expr(12)?;
                self.want(&["]"])?;
                self.ops.push(Op { tok: at, left: Some(left), right: Some(r), max: None, not: None });
                continue;
            }
            let l = if self.is(0, &["*", "/", "||"]) {
                3
            } else if self.is(0, &["+", "-"]) {
                4
            } else if self.is(0, &["<<", ">>"]) {
                5
            } else if self.is(0, &["&"]) {
                6
            } else if self.is(0, &["^"]) {
                7
            } else if self.is(0, &["|"]) {
                8
            } else if self.is(0, &["=", "<", ">", "<=", ">=", "!=", "<>", "LIKE", "IS", "IN", "BETWEEN", "NOT"]) {
                9
            } else if self.is(0, &["AND"]) {
                11
            } else if self.is(0, &["OR"]) {
                12
            } else if self.is(0, &["=>"]) {
                13
            } else {
                return Ok(left);
            };
            if l > level {
                return Ok(left);
            }
            let mut not = None;
            if self.is(0, &["NOT"]) {
                not = Some(self.i);
                self.i += 1;
                if !self.is(0, &["LIKE", "IN", "BETWEEN"]) {
                    return Err(Bad);
                }
            }
            let tok = self.i;
            if self.is(0, &["BETWEEN"]) {
                self.i += 1;
                let lo = self.expr(8)?;
                self.want(&["AND"])?;
                let hi = self.expr(8)?;
                self.ops.push(Op { tok, left: Some(left), right: Some(lo), max: Some(hi), not });
                continue;
            }
            if self.is(0, &["IS"]) {
                self.i += 1;
                if self.is(0, &["NOT"]) {
                    not = Some(self.i);
                    self.i += 1;
                }
                if self.is(0, &["DISTINCT"]) {
                    self.i += 1;
                    self.want(&["FROM"])?;
                }
                let r = self.expr(8)?;
                self.ops.push(Op { tok, left: Some(left), right: Some(r), max: None, not });
                continue;
            }
            if self.is(0, &["IN"]) && self.is(1, &["UNNEST"]) && self.is(2, &["("]) {
                self.i += 2;
                let a = self.i - 1;
                self.group()?;
                self.ops.push(Op { tok, left: Some(left), right: Some((a, self.i)), max: None, not });
                continue;
            }
            if self.is(0, &["IN"]) && self.is(1, &["("]) && self.is(2, &["SELECT"]) {
                self.i += 1;
                let a = self.i;
                self.group()?;
                self.ops.push(Op { tok, left: Some(left), right: Some((a, self.i)), max: None, not });
                continue;
            }
            if self.is(0, &["LIKE"]) && self.is(1, &["ANY", "ALL", "SOME"]) {
                self.i += 1;
            }
            if self.is(0, &["IN"]) {
                self.i += 1;
                let a = self.i;
                self.want(&["("])?;
                loop {
                    self.expr(12)?;
                    if self.is(0, &[","]) {
                        self.i += 1;
                        continue;
                    }
                    break;
                }
                self.want(&[")"])?;
                self.ops.push(Op { tok, left: Some(left), right: Some((a, self.i)), max: None, not });
                continue;
            }
            self.i += 1;
            // the right operand binds more tightly: equal precedence groups to the left
            let r = self.expr(l - 1)?;
            self.ops.push(Op { tok, left: Some(left), right: Some(r), max: None, not });
        }
    }
}
pub const OPERATOR_WORDS: [&str; 12] =
    ["AND", "OR", "NOT", "IN", "IS", "LIKE", "BETWEEN", "SELECT", "FROM", "DISTINCT", "AS", "ALL"];

/// template: SELECT <expression> ;
pub fn p10(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let inp = input(m, 0);
    let toks = match lex(m, &inp) {
        RLex::Ok(t) => t.into_iter().filter(|t| !matches!(t.kind, Kind::LineComment | Kind::BlockComment)).collect::<Vec<_>>(),
        _ => return Ok(()),
    };
    let mut r = Ref { m, t: toks, i: 1, ops: vec![] };
    if r.expr(12).is_err() {
        if std::env::var("P10_BAD").is_ok() {
            return Err("not understood".into());
        }
        return Ok(()); // not an expression of the operators in question
    }
    if !(r.is(0, &[";"]) && r.i + 1 == r.t.len()) {
        return Ok(());
    }
    let (ops, toks) = (r.ops, r.t);
    let ns = match &outs[0] {
        ROut::Ok(v) => match nodes(v) {
            Ok(n) => n,
            _ => return Ok(()),
        },
        ROut::Err(_) => return Err("a well-formed expression is rejected".into()),
        _ => return Ok(()),
    };
    j.hits += 1;
    let at: HashMap<(u64, u64), usize> = toks.iter().enumerate().map(|(i, t)| ((t.line, t.col), i)).collect();
    let mut by_tok: HashMap<usize, &Node> = HashMap::new();
    for n in &ns {
        n.walk(&mut |n| {
            if let Some(t) = &n.tok {
                if let Some(i) = at.get(&(t.line, t.col)) {
                    by_tok.insert(*i, n);
                }
            }
        });
    }
    let span = |n: &Node| -> Option<(usize, usize)> {
        let mut a = usize::MAX;
        let mut b = 0;
        n.walk(&mut |n| {
            if let Some(t) = &n.tok {
                if let Some(i) = at.get(&(t.line, t.col)) {
                    a = a.min(*i);
                    b = b.max(*i + 1);
                }
            }
        });
        if a < b {
            Some((a, b))
        } else {
            None
        }
    };
    for o in &ops {
        let what = show(m, &toks[o.tok].lit);
        let n = match by_tok.get(&o.tok) {
            Some(n) => *n,
            None => return Err(format!("no node for operator {:?}", what)),
        };
        let sides: Vec<(&str, Option<(usize, usize)>)> = if o.max.is_some() {
            vec![("left", o.left), ("right_min", o.right), ("right_max", o.max)]
        } else {
            vec![("left", o.left), ("right", o.right)]
        };
        for (k, want) in sides {
            let got = n.one(k).and_then(|c| span(c));
            if got != want {
                return Err(format!("operator {:?} (token {}): {} operand covers tokens {:?}, by precedence {:?}", what, o.tok, k, got, want));
            }
        }
        let not = n.one("not").and_then(|c| span(c)).map(|s| s.0);
        if not != o.not {
            return Err(format!("operator {:?}: NOT is token {:?} instead of {:?}", what, not, o.not));
        }
    }
    Ok(())
}
