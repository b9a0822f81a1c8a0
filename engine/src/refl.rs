//! Reference model of the lexical rules (the specification for P02-P04), written
//! independently of src/lexer.rs: a scanner over characters that may be symbolic;
//! each question about a character goes through `Machine::branch`.
use crate::exec::*;
use crate::sym::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Word,
    Number,
    Str,
    BackQuoted,
    LineComment,
    BlockComment,
    Param,
    Template,
    Punct,
}
/// one character: its bytes; `cp` is Some for a concrete non-ASCII code point
#[derive(Clone, Debug)]
pub struct Ch {
    pub b: Vec<V>,
    pub cp: Option<char>,
}
#[derive(Clone, Debug)]
pub struct RTok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize, // characters, exclusive
    pub line: u64,
    pub col: u64,
    pub lit: Vec<V>,
}
pub enum RLex {
    Ok(Vec<RTok>),
    /// unterminated token / bad parameter: position of the error
    Err { line: u64, col: u64, unterminated: bool },
}

pub fn input(m: &mut Machine, call: usize) -> Vec<V> {
    let t = m.tmpl.clone();
    t.calls[call]
        .1
        .iter()
        .map(|b| match b {
            TB::K(c) => V::k(*c as u64),
            TB::S(v, tab) => m.ar.tab(*v, tab.iter().map(|x| *x as u64).collect()),
        })
        .collect()
}

pub fn chars(m: &mut Machine, bytes: &[V]) -> Vec<Ch> {
    let mut out = vec![];
    let mut i = 0;
    let ascii: Vec<u8> = (0..128).collect();
    while i < bytes.len() {
        let c = m.in_set(bytes[i], &ascii);
        if m.branch(c) {
            out.push(Ch { b: vec![bytes[i]], cp: None });
            i += 1;
            continue;
        }
        let b0 = m.concretize(bytes[i]) as u8;
        let n = if b0 >= 0xf0 { 4 } else if b0 >= 0xe0 { 3 } else { 2 };
        let raw: Vec<u8> = (0..n).map(|j| m.concretize(bytes[i + j]) as u8).collect();
        let s = std::str::from_utf8(&raw).expect("template is UTF-8");
        out.push(Ch { b: raw.iter().map(|x| V::k(*x as u64)).collect(), cp: s.chars().next() });
        i += n;
    }
    out
}

pub struct Scan<'a> {
    pub m: &'a mut Machine,
    pub c: Vec<Ch>,
    pub i: usize,
    pub line: u64,
    pub col: u64,
}
const DIGITS: &[u8] = b"0123456789";
impl<'a> Scan<'a> {
    pub fn new(m: &'a mut Machine, c: Vec<Ch>) -> Scan<'a> {
        Scan { m, c, i: 0, line: 1, col: 1 }
    }
    /// is the character `k` ahead one of the ASCII characters in `set`?
    pub fn at(&mut self, k: usize, set: &[u8]) -> bool {
        let ch = match self.c.get(self.i + k) {
            None => return false,
            Some(c) => c,
        };
        if ch.cp.is_some() {
            return false;
        }
        let v = ch.b[0];
        let c = self.m.in_set(v, set);
        self.m.branch(c)
    }
    pub fn at_end(&self) -> bool {
        self.i >= self.c.len()
    }
    fn word_start(&mut self) -> bool {
        match self.c.get(self.i) {
            None => false,
            Some(Ch { cp: Some(c), .. }) => c.is_alphabetic(),
            _ => self.at(0, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"),
        }
    }
    fn word_part(&mut self) -> bool {
        match self.c.get(self.i) {
            None => false,
            Some(Ch { cp: Some(c), .. }) => c.is_alphabetic(),
            _ => self.at(0, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_0123456789"),
        }
    }
    pub fn space(&mut self) -> bool {
        match self.c.get(self.i) {
            None => false,
            Some(Ch { cp: Some(c), .. }) => c.is_whitespace(),
            _ => self.at(0, b" \t\n\r\x0b\x0c"),
        }
    }
    pub fn step(&mut self) {
        if self.at(0, b"\n") {
            self.line += 1;
            self.col = 1;
        } else {
            self.col += 1;
        }
        self.i += 1;
    }
    fn digits(&mut self) {
        while self.at(0, DIGITS) {
            self.step();
        }
    }
    /// a token that ends at a delimiter; false when the input ends first
    fn until_backquote(&mut self) -> bool {
        self.step();
        loop {
            if self.at_end() {
                return false;
            }
            if self.at(0, b"`") {
                self.step();
                return true;
            }
            self.step();
        }
    }
    /// same character as the one at index q (a quote)
    fn same_as(&mut self, k: usize, quote: u8) -> bool {
        self.at(k, &[quote])
    }
    fn string(&mut self) -> bool {
        let q = if self.at(0, b"'") { b'\'' } else { b'"' };
        let triple = self.same_as(1, q) && self.same_as(2, q);
        let n = if triple { 3 } else { 1 };
        for _ in 0..n {
            self.step();
        }
        loop {
            if self.at_end() {
                return false;
            }
            if self.at(0, b"\\") {
                // an escape: the next character, whatever it is, is part of the string
                self.step();
                if self.at_end() {
                    return false;
                }
                self.step();
                continue;
            }
            if self.same_as(0, q) && (!triple || (self.same_as(1, q) && self.same_as(2, q))) {
                for _ in 0..n {
                    self.step();
                }
                return true;
            }
            self.step();
        }
    }
    pub fn run(&mut self) -> RLex {
        let mut toks: Vec<RTok> = vec![];
        let mut depth = 0;
        loop {
            while self.space() {
                self.step();
            }
            if self.at_end() {
                return RLex::Ok(toks);
            }
            let (start, line, col) = (self.i, self.line, self.col);
            let mut trim = false;
            let mut ok = true;
            let kind;
            if self.word_start() {
                kind = Kind::Word;
                self.step();
                while self.word_part() {
                    self.step();
                }
            } else if self.at(0, DIGITS) || (self.at(0, b".") && self.at(1, DIGITS)) {
                kind = Kind::Number;
                const HEX: &[u8] = b"0123456789abcdefABCDEF";
                if self.at(0, b"0") && self.at(1, b"xX") && self.at(2, HEX) {
                    self.step();
                    self.step();
                    while self.at(0, HEX) {
                        self.step();
                    }
                } else {
                self.digits();
                if self.at(0, b".") {
                    self.step();
                    self.digits();
                }
                if self.at(0, b"eE") {
                    self.step();
                    if self.at(0, b"+-") {
                        self.step();
                    }
                    self.digits();
                }
                }
            } else if self.at(0, b"#") || (self.at(0, b"-") && self.at(1, b"-")) {
                kind = Kind::LineComment;
                while !self.at_end() && !self.at(0, b"\n") {
                    self.step();
                }
                trim = true;
            } else if self.at(0, b"/") && self.at(1, b"*") {
                kind = Kind::BlockComment;
                self.step();
                self.step();
                loop {
                    if self.at_end() {
                        ok = false;
                        break;
                    }
                    if self.at(0, b"*") && self.at(1, b"/") {
                        self.step();
                        self.step();
                        break;
                    }
                    self.step();
                }
            } else if self.at(0, b"'\"") {
                kind = Kind::Str;
                ok = self.string();
            } else if self.at(0, b"`") {
                kind = Kind::BackQuoted;
                ok = self.until_backquote();
            } else if self.at(0, b"@") {
                kind = Kind::Param;
                while self.at(0, b"@") {
                    self.step();
                }
                if self.at(0, b"`") {
                    ok = self.until_backquote();
                } else if self.word_start() {
                    self.step();
                    while self.word_part() {
                        self.step();
                    }
                } else {
                    return RLex::Err { line: self.line, col: self.col, unterminated: false };
                }
            } else if self.at(0, b"{") {
                let mut n = 0;
                while self.at(0, b"{") {
                    n += 1;
                    self.step();
                }
                if n == 1 && self.at(0, b"@,0123456789") {
                    // pattern quantifier {m,n}
                    kind = Kind::Punct;
                } else {
                    kind = Kind::Template;
                    'scan: loop {
                        if self.at_end() {
                            ok = false;
                            break;
                        }
                        let mut all = true;
                        for k in 0..n {
                            if !self.at(k, b"}") {
                                all = false;
                                break;
                            }
                        }
                        if all {
                            for _ in 0..n {
                                self.step();
                            }
                            break 'scan;
                        }
                        self.step();
                    }
                }
            } else {
                kind = Kind::Punct;
                let mut len = 1;
                if self.at(0, b"<") {
                    if self.at(1, b"<=>") {
                        len = 2;
                    } else {
                        // opens a type right after ARRAY or STRUCT (comments do not count)
                        let prev = toks.iter().rev().find(|t| !matches!(t.kind, Kind::LineComment | Kind::BlockComment)).cloned();
                        if let Some(p) = prev {
                            if p.kind == Kind::Word && crate::val::lit_in(self.m, &p.lit, &["ARRAY", "STRUCT"]) {
                                depth += 1;
                            }
                        }
                    }
                } else if self.at(0, b">") {
                    if depth > 0 {
                        depth -= 1;
                    } else if self.at(1, b">=") {
                        len = 2;
                    }
                } else if (self.at(0, b"|") && self.at(1, b"|>")) || (self.at(0, b"=") && self.at(1, b">")) || (self.at(0, b"!") && self.at(1, b"=")) {
                    len = 2;
                } else if self.at(0, b";") {
                    depth = 0; // a statement's end closes everything
                }
                for _ in 0..len {
                    self.step();
                }
            }
            if !ok {
                return RLex::Err { line: self.line, col: self.col, unterminated: true };
            }
            let mut end = self.i;
            if trim {
                while end > start {
                    let save = self.i;
                    self.i = end - 1;
                    let sp = self.space();
                    self.i = save;
                    if !sp {
                        break;
                    }
                    end -= 1;
                }
            }
            let lit = self.c[start..end].iter().flat_map(|c| c.b.iter().copied()).collect();
            toks.push(RTok { kind, start, end, line, col, lit });
        }
    }
}
pub fn lex(m: &mut Machine, bytes: &[V]) -> RLex {
    let c = chars(m, bytes);
    Scan::new(m, c).run()
}
