//! Templates: the symbolic inputs each property is decided on.
use crate::exec::*;
use crate::props::RESERVED;
use crate::refl;
use crate::refl::{Kind, RLex};
use crate::sym::V;
use std::collections::HashSet;
use std::sync::Arc;

/// a text under construction: bytes, some of them functions of a variable
#[derive(Clone, Default)]
pub struct Text {
    pub nvals: Vec<usize>,
    pub b: Vec<TB>,
    pub runs: Vec<(u16, u16)>,
}
const LET: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
const UPPER: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const UPPERNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
impl Text {
    pub fn k(mut self, s: &str) -> Text {
        self.b.extend(s.bytes().map(TB::K));
        self
    }
    pub fn set(mut self, alphabet: &[u8]) -> Text {
        let v = self.nvals.len() as u16;
        self.nvals.push(alphabet.len());
        self.b.push(TB::S(v, alphabet.into()));
        self
    }
    /// any word of up to n characters, padded with spaces
    pub fn words(self, n: usize) -> Text {
        self.run(n, LET, ALNUM)
    }
    /// any upper-case word of up to n characters, padded with spaces
    pub fn uwords(self, n: usize) -> Text {
        self.run(n, UPPER, UPPERNUM)
    }
    fn run(mut self, n: usize, first: &[u8], rest: &[u8]) -> Text {
        let mut sp = rest.to_vec();
        sp.push(b' ');
        self = self.set(first);
        let a = self.nvals.len() as u16;
        for _ in 1..n {
            self = self.set(&sp);
        }
        self.runs.push((a, self.nvals.len() as u16));
        self
    }
    /// any word of length n
    pub fn word(mut self, n: usize) -> Text {
        for i in 0..n {
            self = self.set(if i == 0 { LET } else { ALNUM });
        }
        self
    }
    /// any upper-case word of length n (what case changes is P09's business)
    pub fn uword(mut self, n: usize) -> Text {
        for i in 0..n {
            self = self.set(if i == 0 { UPPER } else { UPPERNUM });
        }
        self
    }
    /// any ASCII byte
    pub fn byte(self) -> Text {
        let all: Vec<u8> = (0..128).collect();
        self.set(&all)
    }
    /// one of several texts, padded with spaces to the same length
    pub fn choice(mut self, alts: &[String]) -> Text {
        let v = self.nvals.len() as u16;
        self.nvals.push(alts.len());
        self.choice_of(v, alts);
        self
    }
    pub fn choice_of(&mut self, v: u16, alts: &[String]) {
        let n = alts.iter().map(|a| a.len()).max().unwrap();
        for i in 0..n {
            let t: Vec<u8> = alts.iter().map(|a| a.as_bytes().get(i).copied().unwrap_or(b' ')).collect();
            if t.iter().all(|x| *x == t[0]) {
                self.b.push(TB::K(t[0]));
            } else {
                self.b.push(TB::S(v, t.into()));
            }
        }
    }
    pub fn call(&self, id: String, entries: &[Entry]) -> Arc<Template> {
        Arc::new(Template { id, nvals: self.nvals.clone(), runs: self.runs.clone(), calls: entries.iter().map(|e| (*e, self.b.clone())).collect() })
    }
}

#[derive(Clone, Debug)]
pub struct STok {
    pub a: usize,
    pub b: usize,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub struct Stmt {
    pub id: String,
    pub text: String,
    pub toks: Vec<STok>, // without comments
    pub comments: bool,
}
impl Stmt {
    pub fn new(m: &mut Machine, id: String, text: &str) -> Option<Stmt> {
        let v: Vec<V> = text.bytes().map(|b| V::k(b as u64)).collect();
        m.reset(Arc::new(Template { id: String::new(), nvals: vec![], calls: vec![], runs: vec![] }));
        let bytes_at: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
        match refl::lex(m, &v) {
            RLex::Ok(r) => {
                let mut toks = vec![];
                let mut comments = false;
                for t in r {
                    if matches!(t.kind, Kind::LineComment | Kind::BlockComment) {
                        comments = true;
                        continue;
                    }
                    toks.push(STok { a: bytes_at[t.start], b: bytes_at[t.end], kind: t.kind });
                }
                Some(Stmt { id, text: text.to_string(), toks, comments })
            }
            _ => None,
        }
    }
    pub fn tok(&self, i: usize) -> &str {
        &self.text[self.toks[i].a..self.toks[i].b]
    }
    /// terminated, comment-free, single-spaced version
    pub fn plain(&self) -> String {
        let mut s = String::new();
        for i in 0..self.toks.len() {
            if i > 0 && self.toks[i].a > self.toks[i - 1].b {
                s.push(' ');
            }
            s.push_str(self.tok(i));
        }
        if !s.ends_with(';') {
            s.push(';');
        }
        s
    }
    /// every token separated by a space
    pub fn spaced(&self) -> String {
        let mut v: Vec<&str> = (0..self.toks.len()).map(|i| self.tok(i)).collect();
        if v.last() != Some(&";") {
            v.push(";");
        }
        v.join(" ")
    }
    pub fn class(&self, i: i64) -> String {
        if i < 0 || i as usize >= self.toks.len() {
            return "$".into();
        }
        let i = i as usize;
        let s = self.tok(i);
        match self.toks[i].kind {
            Kind::Number => "1".into(),
            Kind::Str => "'".into(),
            Kind::BackQuoted => "a".into(),
            Kind::Param => "@".into(),
            Kind::Template => "{".into(),
            Kind::Word => {
                let u = s.to_uppercase();
                // names of the corpus are in lower case, keywords mostly in upper case
                if s != u && !RESERVED.contains(&u.as_str()) {
                    "a".into()
                } else {
                    u
                }
            }
            _ => s.to_string(),
        }
    }
    /// context of position i: `back` tokens before, `ahead` from i on
    pub fn ctx(&self, i: usize, back: i64, ahead: i64) -> String {
        let i = i as i64;
        (i - back..i + ahead).map(|k| self.class(k)).collect::<Vec<_>>().join(" ")
    }
}

/// a space where a word would otherwise grow into its neighbour
pub fn gap(pre: &str) -> &'static str {
    match pre.bytes().last() {
        Some(c) if c.is_ascii_alphanumeric() || c == b'_' || c >= 128 || c == b'@' => " ",
        _ => "",
    }
}
pub fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
pub fn puncts(t: Tier) -> Vec<String> {
    let mut v = strings(&[
        "", ";", ",", "(", ")", "[", "]", "<", ">", ".", ":", "=", "*", "-", "|>", "|", "=>", "!=", "@p", "{{t}}", "1", "'s'", "`q`", "é", "/*c*/",
        "--c\n", "()", ";;", "a.b", "a b", "a,b", "NOT NULL", "(1)", "= 1", "1.",
    ]);
    if t == Tier::Thorough {
        v.extend(strings(&[
            "+", "/", "||", "<<", ">=", "?", "@@p", "{1", "}", "1.5", ".5", "\"s\"", "r'x'", "%", "$", "\\", "~", "&", "!", ")(", "();", "a-b",
            "a AS b", "1 2", "<a>", "[1]", ", a", "(a b", "OPTIONS()", "IF EXISTS", "AS (", "FROM t",
        ]));
    }
    v
}
pub fn comments() -> Vec<String> {
    strings(&[
        " ", "\n", "\t", "\r\n", "\u{a0}", "\u{3000}", " -- c\n", "\n-- c\n", " # c\n", " /* c */ ", "\n/* c */\n", "/* a\nb */", " /* a */ -- b\n",
        " -- a\n-- b\n", "/* a */\n/* b */ ", "\n/*'*/ -- \"\n\n", " --\n", "\u{c}", "/**/",
    ])
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Gen {
    pub ok: Vec<Stmt>,
    pub tier: Tier,
}

/// longest word tried (the longest keyword has 20 characters)
pub const MAXWORD: usize = 21;

impl Gen {
    pub fn q(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// words and punctuation in place of, before, or cutting off after every token
    pub fn parse_holes(&self, entries: &[Entry], quick: (i64, i64), cut: bool) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let mut seen: HashSet<String> = HashSet::new();
        let pu = puncts(self.tier);
        let (back, ahead) = if self.q() { quick } else { (6, 3) };
        for s in &self.ok {
            let n = s.toks.len();
            for i in 0..=n {
                for mode in 0..3 {
                    // 0: replace token i, 1: insert before token i, 2: cut off before token i
                    if mode == 0 && i == n {
                        continue;
                    }
                    if mode == 1 && i == n && cut {
                        continue; // same as a cut
                    }
                    if mode == 2 && !cut {
                        continue;
                    }
                    let key = match mode {
                        0 => format!("0 {} | {}", s.ctx(i, back, 0), s.ctx(i + 1, 0, ahead)),
                        1 => format!("1 {} | {}", s.ctx(i, back, 0), s.ctx(i, 0, ahead)),
                        _ => format!("2 {}", s.ctx(i, back, 0)),
                    };
                    let first = s.class(0);
                    if !seen.insert(format!("{} {}", first, key)) {
                        continue;
                    }
                    let start = if i < n { s.toks[i].a } else { s.text.len() };
                    let pre = &s.text[..start];
                    let post = match mode {
                        0 => &s.text[s.toks[i].b..],
                        1 => &s.text[start..],
                        _ => "",
                    };
                    let name = ["replace", "insert", "cut"][mode];
                    let sep = if mode == 1 { " " } else { "" };
                    {
                        let t = Text::default().k(pre).choice(&pu).k(sep).k(post);
                        out.push(t.call(format!("{}:{}:{}:punct", s.id, name, i), entries));
                    }
                    {
                        let t = Text::default().k(pre).k(gap(pre)).uwords(MAXWORD).k(sep).k(post);
                        out.push(t.call(format!("{}:{}:{}:word", s.id, name, i), entries));
                    }
                }
            }
        }
        out
    }
    pub fn whole(&self, entries: &[Entry]) -> Vec<Arc<Template>> {
        self.ok.iter().map(|s| Text::default().k(&s.text).call(format!("{}:whole", s.id), entries)).collect()
    }
}

fn bytes_upper(t: &[u8]) -> Arc<[u8]> {
    t.iter().map(|b| b.to_ascii_uppercase()).collect::<Vec<u8>>().into()
}

impl Gen {
    pub fn jobs(&self, prop: &str) -> Vec<Arc<Template>> {
        let mut v = self.own_jobs(prop);
        if matches!(prop, "P05" | "P06" | "P07" | "P08" | "P09" | "P11" | "P12" | "P13" | "P15" | "P16" | "P19" | "P20") {
            v.extend(crate::clause::statements(self, prop));
        }
        // what other properties put in all places
        let calls: &[Entry] = match prop {
            "P06" | "P08" => &[Entry::Tokenize, Entry::Parse],
            "P15" => &[Entry::Parse],
            _ => &[],
        };
        for other in ["P21", "P24", "P25", "P26", "P27"] {
            for t in if calls.is_empty() { vec![] } else { self.own_jobs(other) } {
                if t.id.contains("leaf") && (prop == "P15" || other == "P21" && self.q()) {
                    continue;
                }
                let text = &t.calls.last().unwrap().1;
                if prop == "P15" && !t.id.contains("frags") && !(other == "P24" && t.id.contains("place")) {
                    continue; // P15 speaks of valid statements
                }
                v.push(Arc::new(Template { id: format!("x{}:cross:{}", &other[1..], t.id), nvals: t.nvals.clone(), runs: t.runs.clone(), calls: calls.iter().map(|e| (*e, text.clone())).collect() }));
            }
        }
        v
    }
    fn own_jobs(&self, prop: &str) -> Vec<Arc<Template>> {
        use Entry::*;
        match prop {
            "P01" | "P02" | "P03" | "P04" => {
                let mut v = self.lex(&[Tokenize]);
                v.extend(crate::size::lex(self, &[Tokenize]));
                v
            }
            "P05" => {
                let mut v = self.parse_holes(&[Parse], (2, 1), true);
                v.extend(self.short(&[Parse]));
                v.extend(crate::size::trees(self, &[Parse]));
                v.extend(crate::size::broken(self, &[Parse]));
                v
            }
            "P06" | "P08" | "P13" => {
                let mut v = self.whole(&[Tokenize, Parse]);
                v.extend(self.parse_holes(&[Tokenize, Parse], (2, 1), prop == "P13"));
                if prop == "P13" {
                    v.extend(self.short(&[Tokenize, Parse]));
                    v.extend(crate::size::broken(self, &[Tokenize, Parse]));
                }
                v.extend(crate::size::trees(self, &[Tokenize, Parse]));
                v
            }
            "P07" => {
                let mut v = self.whole(&[Tokenize, Parse]);
                v.extend(self.gaps(&[Tokenize, Parse]));
                v.extend(crate::size::trees(self, &[Tokenize, Parse]));
                v
            }
            "P09" => self.case(),
            "P10" => self.operators(),
            "P11" => self.layout(),
            "P12" => self.sequences(),
            "P14" => self.atoms(),
            "P15" => {
                let mut v = self.whole(&[Parse]);
                v.extend(self.valid(&[Parse]));
                v.extend(crate::size::trees(self, &[Parse]));
                v
            }
            "P16" => {
                let mut v = self.whole(&[Tokenize, Parse]);
                v.extend(self.parse_holes(&[Tokenize, Parse], (1, 1), true));
                v.extend(self.short(&[Tokenize, Parse]));
                v.extend(crate::size::trees(self, &[Tokenize, Parse]));
                v
            }
            "P17" => self.histories(),
            "P19" => crate::rel::semicolon_jobs(self),
            "P20" => crate::rel::block_jobs(self),
            "P21" => crate::rel::expr_jobs(self),
            "P22" => crate::rel::opaque_jobs(self),
            "P23" => crate::rel::chain_jobs(self),
            "P24" => crate::rel::query_jobs(self),
            "P25" => crate::rel::type_jobs(self),
            "P27" => crate::rel::table_jobs(self),
            "P26" => crate::rel::list_jobs(self),
            "P28" => crate::clause::clause_jobs(self),
            "P29" => crate::rel::rejection_jobs(self),
            _ => panic!("unknown property"),
        }
    }
    /// valid variations: names, numbers and strings replaced by others of their kind,
    /// literals by expressions
    pub fn valid(&self, entries: &[Entry]) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let mut seen: HashSet<String> = HashSet::new();
        let names = strings(&["n", "`n`", "`n-1.m`", "_9", "N"]);
        let exprs = strings(&[
            "1", "1.5e3", "'s'", "@p", "@@p", "?", "x", "(1)", "1 + 2", "-1", "f(1)", "CASE WHEN a THEN 1 END", "CASE a WHEN 1 THEN 2 ELSE 3 END", "[1]", "(1, 2)", "a.b",
            "a[0]", "NOT a", "a IN (1)", "a BETWEEN 1 AND 2", "(SELECT 1)", "DATE '2020-01-01'", "NULL", "TRUE", "STRUCT(1 AS a)", "ARRAY<INT64>[1]",
            "CAST(a AS INT64)", "EXTRACT(DAY FROM a)", "INTERVAL 1 DAY", "a IS NOT NULL", "f(DISTINCT a ORDER BY b LIMIT 1)", "SUM(a) OVER (PARTITION BY b)", "a LIKE 'b'",
            "EXISTS (SELECT 1)", "IF(a, 1, 2)", "r'x'", "{{t}}", "a.f(1).g(2)", "RANGE<DATE> '[a, b)'", "a IS DISTINCT FROM b", "a IN UNNEST([1])",
        ]);
        for s in &self.ok {
            for i in 0..s.toks.len() {
                let t = &s.toks[i];
                let name = t.kind == Kind::Word && s.class(i as i64) == "a" || t.kind == Kind::BackQuoted;
                let lit = matches!(t.kind, Kind::Number | Kind::Str);
                if !name && !lit {
                    continue;
                }
                let (back, ahead) = if self.q() { (3, 2) } else { (6, 4) };
                if !seen.insert(format!("{} {} {} | {}", s.class(0), name, s.ctx(i, back, 0), s.ctx(i + 1, 0, ahead))) {
                    continue;
                }
                let (pre, post) = (&s.text[..t.a], &s.text[t.b..]);
                // parts of dashed names and prefixed strings are no operands
                if pre.ends_with('-') || post.starts_with('-') || s.class(i as i64 - 1) == "R" || s.class(i as i64 - 1) == "B" {
                    continue;
                }
                if t.kind == Kind::Word {
                    let x = Text::default().k(pre).k("x_").set(ALNUM).set(ALNUM).set(ALNUM).k(post);
                    out.push(x.call(format!("{}:name:{}", s.id, i), entries));
                    out.push(Text::default().k(pre).choice(&names).k(post).call(format!("{}:names:{}", s.id, i), entries));
                }
                if t.kind == Kind::Number {
                    let x = Text::default().k(pre).set(b"0123456789").set(b"0123456789").set(b"0123456789").k(post);
                    out.push(x.call(format!("{}:number:{}", s.id, i), entries));
                }
                // operands: literals that an expression can replace
                let operand = matches!(
                    s.class(i as i64 - 1).as_str(),
                    "SELECT" | "," | "(" | "=" | "WHERE" | "+" | "*" | "THEN" | "ELSE" | "WHEN" | "AND" | "OR" | "BY" | "[" | "HAVING" | "=>" | "ON" | "CASE"
                ) && !matches!(s.class(i as i64 + 1).as_str(), "ASC" | "DESC" | "NULLS" | "[" | "." | "(");
                let tight: Vec<String> = exprs.iter().filter(|e| !e.contains(" I") && !e.contains("LIKE") && !e.contains("BETWEEN") && !e.contains("NOT")).cloned().collect();
                let inner = matches!(s.class(i as i64 - 1).as_str(), "+" | "*" | "=" | "AND" | "OR" | "=>");
                if lit && operand {
                    out.push(Text::default().k(pre).k(gap(pre)).choice(if inner { &tight } else { &exprs }).k(post).call(format!("{}:expr:{}", s.id, i), entries));
                }
            }
        }
        out
    }
    /// short inputs over all ASCII bytes
    pub fn short(&self, entries: &[Entry]) -> Vec<Arc<Template>> {
        let mut out = vec![];
        for n in 0..=if self.q() { 2 } else { 3 } {
            let mut t = Text::default();
            for _ in 0..n {
                t = t.byte();
            }
            out.push(t.call(format!("short:ascii{}", n), entries));
        }
        out
    }
    /// texts for the lexer
    pub fn lex(&self, entries: &[Entry]) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let top = if self.q() { 3 } else { 4 };
        for n in 0..=top {
            let mut t = Text::default();
            for _ in 0..n {
                t = t.byte();
            }
            out.push(t.call(format!("short:ascii{}", n), entries));
        }
        // the lexer's states, entered concretely, followed by arbitrary bytes
        let ctx: &[(&str, &str)] = &[
            ("a", ""), ("_9", ""), ("1", ""), ("1.", ""), ("1.5", ""), ("1e", ""), ("1e+", ""), ("0x", ""), ("0Xa", ""), (".", ""), (".5", ""), ("'", ""), ("'a", "'"),
            ("'\\", ""), ("'\\\\", ""), ("\"", ""), ("\"a", "\""), ("'''", ""), ("'''", "'''"), ("'''a'", "''"), ("\"\"\"", ""), ("\"\"\"", "\"\"\""),
            ("'''\\", "'''"), ("'''\n", "\n'''"), ("`", ""), ("`a", "`"), ("`\\", "`"), ("@", ""), ("@@", ""), ("@a", ""), ("@`", "`"), ("@`a", ""),
            ("{", ""), ("{", "}"), ("{{", ""), ("{{", "}}"), ("{{a", "}}"), ("{%", "%}"), ("{{{", "}}}"), ("{a", "}"), ("{1", "}"), ("{,", "}"),
            ("/*", ""), ("/*", "*/"), ("/**", ""), ("/*\n", "*/"), ("--", ""), ("--a", "\nb"), ("#", ""), ("#a", "\nb"), ("-", ""), ("|", ""),
            ("<", ""), (">", ""), ("=", ""), ("!", ""), ("a<", ""), ("a>", ""), ("a ", " b"), ("a\n", "\nb"), ("ARRAY<", ""), ("ARRAY<a", ""),
            ("ARRAY<a>", ""), ("ARRAY<STRUCT<a>", ""), ("STRUCT<ARRAY<a>", "a"), ("array<struct<array<a>>", ""), ("ARRAY <a", " "),
            ("ARRAY/**/<a", ""), ("STRUCT--\n<a", ""), ("ARRAY<a;", ""), ("ARRAY<a; b", ""), ("ARRAY", "a"), ("ARRAY<", ">>"), ("b < c", ""),
            ("SELECT a", "b;"), ("ARRAY<a>;", ">>"), ("é", ""), ("\u{3000}", "a"), ("'é", "'"), ("`あ", "`"), ("--é", "\na"), ("/*😀", "*/"), ("@é", ""),
            ("{{é", "}}"), ("a\r\n", "b"), ("", "\r\n"), ("'''é\n", "'''a"), ("r'", "'"), ("x = '", "' -- c\n"),
        ];
        let n2 = if self.q() { 2 } else { 3 };
        for (i, (p, s)) in ctx.iter().enumerate() {
            for n in 1..=n2 {
                let mut t = Text::default().k(p);
                for _ in 0..n {
                    t = t.byte();
                }
                out.push(t.k(s).call(format!("c{}:context{}", i, n), entries));
            }
        }
        // longer texts over the characters that matter to one construct
        let alpha: &[(&str, &str, &str, usize)] = &[
            ("quotes", "", "'\"\\a\n", 6),
            ("triple", "'''", "'\\a\n", 6),
            ("triple2", "\"\"\"", "\"\\a'", 6),
            ("braces", "", "{}a1,@", 6),
            ("braces2", "{", "{}a ", 7),
            ("comments", "", "/*-#\n a", 5),
            ("block", "/*", "/*a\n", 6),
            ("angle", "ARRAY<", "<>=a;", 6),
            ("angle2", "ARRAY<STRUCT<", "<>=|!", 6),
            ("angle3", "", "<>=|!-", 5),
            ("numbers", "", "01.eE+-", 5),
            ("hex", "0", "xX0aFgE.-", 4),
            ("params", "", "@`a1.?", 5),
            ("backquote", "", "`a.\\\n", 6),
            ("spaces", "", " \t\n\r\x0b\x0ca\x1f", 5),
            ("words", "", "aZ_0\x7f$", 5),
            ("lines", "--", "\n -a\r", 6),
            ("structs", "STRUCT<a>", ">=<; a", 5),
        ];
        for (name, p, a, n) in alpha {
            let n = if self.q() { *n } else { *n + 2 };
            let mut t = Text::default().k(p);
            for _ in 0..n {
                t = t.set(a.as_bytes());
            }
            out.push(t.call(format!("alphabet:{}", name), entries));
        }
        // sequences of the pieces that one construct is made of
        let pieces: &[(&str, &[&str], usize, &str)] = &[
            ("types", &["ARRAY<", "STRUCT<", "a", ">", ";", ">>"], 5, ">>= b >> c"),
            ("types2", &["array <", "Struct/**/<", "ARRAY", ";", ">", "<"], 5, ">>>=>> c"),
            ("types3", &["ARRAY<STRUCT<ARRAY<a", "ARRAY<a", "ARRAY<ARRAY<a", "--\n", "a<", "a>=", "(", ")", ";", ">>"], 4, ">> >>= b"),
            ("strings", &["'", "'''", "\"", "\\", "a\n", "\"\"\""], 5, "'"),
            ("comments", &["/*", "*/", "--", "\n", "#", "'", "a"], 5, "\n*/"),
            ("braces", &["{{", "}}", "{%", "%}", "{", "}", "a"], 5, "}}"),
            ("mixed", &["'a'", "`a`", "@a", "1.5", "--c\n", "/*c*/", "{{a}}", "\n", "a", "|>"], 4, ";"),
        ];
        for (name, words, n, end) in pieces {
            let words = strings(words);
            let mut t = Text::default();
            for _ in 0..if self.q() { *n } else { *n + 1 } {
                t = t.choice(&words);
            }
            out.push(t.k(end).call(format!("pieces:{}", name), entries));
        }
        // non-ASCII characters of each encoded length next to arbitrary bytes
        let uni = [
            strings(&["é", "\u{a0}", "\u{85}", "ß", "ſ", "\u{80}", "²", "߿"]),
            strings(&["\u{3000}", "あ", "\u{2028}", "’", "\u{feff}", "\u{2003}", "ࠀ", "\u{ffff}", "１", "ｅ"]),
            strings(&["😀", "𝒜", "\u{10ffff}", "𠮷"]),
        ];
        for (i, u) in uni.iter().enumerate() {
            for (k, (p, s)) in [
                ("", ""), ("a", "a"), ("'", "'"), ("'\\", "'"), ("`", "`"), ("--", "\na"), ("#", "\na"), ("/*", "*/"), ("@", ""), ("{{", "}}"),
                ("{", "}"), ("'''", "'''"), ("1", ""), ("\n", "b"), (".", ""), ("@`", "`"), ("/*\n", "*/ b"), ("'", ""),
            ]
            .iter()
            .enumerate()
            {
                out.push(Text::default().k(p).choice(u).byte().k(s).call(format!("u{}_{}:unicode-then-byte", i, k), entries));
                out.push(Text::default().k(p).byte().choice(u).k(s).call(format!("u{}_{}:byte-then-unicode", i, k), entries));
                out.push(Text::default().k(p).choice(u).choice(u).k(s).k("\n b").call(format!("u{}_{}:unicode2", i, k), entries));
            }
        }
        // every byte of every corpus text replaced by any ASCII byte, and cut off after it
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let (wb, wa) = if self.q() { (3, 2) } else { (10, 6) };
        for s in &self.ok {
            let b = s.text.as_bytes();
            for i in 0..b.len() {
                if b[i] >= 128 {
                    continue;
                }
                let lo = i.saturating_sub(wb);
                let hi = (i + 1 + wa).min(b.len());
                let mut key: Vec<u8> = b[lo..i].to_vec();
                key.push(0);
                key.extend(&b[i + 1..hi]);
                if !seen.insert(key) {
                    continue;
                }
                let t = Text::default().k(&s.text[..i]).byte().k(&s.text[i + 1..]);
                out.push(t.call(format!("{}:byte:{}", s.id, i), entries));
            }
        }
        out
    }
    /// each gap of each statement, and all of them at once, as any kind of layout
    pub fn gaps(&self, entries: &[Entry]) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let co = comments();
        for s in &self.ok {
            for (form, text) in [("plain", s.plain()), ("spaced", s.spaced())] {
                let gaps = gap_list(self, &s.id, &text);
                let n = gaps.len();
                if n == 0 {
                    continue;
                }
                for (k, g) in gaps.iter().enumerate() {
                    let t = Text::default().k(&text[..g.0]).choice(&co).k(&text[g.1..]);
                    out.push(t.call(format!("{}:gap-{}:{}", s.id, form, k), entries));
                }
                let mut t = Text::default();
                t.nvals.push(co.len());
                let mut at = 0;
                for g in &gaps {
                    t = t.k(&text[at..g.0]);
                    t.choice_of(0, &co);
                    at = g.1;
                }
                t = t.k(&text[at..]);
                out.push(t.call(format!("{}:allgaps-{}", s.id, form), entries));
            }
        }
        out
    }
    /// P11: the tree with a gap of any kind against the tree with a space
    fn layout(&self) -> Vec<Arc<Template>> {
        let mut out = vec![];
        for t in self.gaps(&[Entry::Parse, Entry::Parse]) {
            // first call: the same text with a plain space in each gap
            let mut t = (*t).clone();
            let b: Vec<TB> = t.calls[0]
                .1
                .iter()
                .map(|x| match x {
                    TB::K(c) => TB::K(*c),
                    TB::S(_, tab) => TB::K(tab[0]),
                })
                .collect();
            t.calls[0].1 = b;
            out.push(Arc::new(t));
        }
        // many comments, blank lines or spaces in one place or in all of them
        for (k, x) in ["SELECT¦a¦,¦f¦(¦b¦)¦FROM¦t¦WHERE¦NOT¦c¦IN¦(¦1¦)¦;", "CREATE¦TABLE¦IF¦NOT¦EXISTS¦t¦(¦a¦ARRAY¦<¦INT64¦>¦)¦;", "IF¦a¦THEN¦SELECT¦1¦;¦END¦IF¦;", "FROM¦t¦|>¦SELECT¦a¦AS¦b¦|>¦LIMIT¦1¦;", "SELECT¦CASE¦WHEN¦a¦IS¦NOT¦NULL¦THEN¦b¦END¦UNION¦ALL¦(¦SELECT¦1¦)¦;"].iter().enumerate() {
            let parts: Vec<&str> = x.split('¦').collect();
            for n in if self.q() { &[4usize, 9, 40][..] } else { &[4, 9, 40, 150] } {
                let gaps: Vec<String> = ["\n", " ", "-- c\n", "/* c */", " # c\n", "/* c\n */\n"].iter().map(|u| u.repeat(*n)).collect();
                let plain = Text::default().k(&parts.join(" ")).b;
                let mut put = |id: String, at: &dyn Fn(usize) -> bool| {
                    let mut t = Text::default();
                    for (i, p) in parts.iter().enumerate() {
                        if i > 0 && at(i) {
                            t = t.k(" ");
                            t.choice_of(0, &gaps);
                        }
                        t = t.k(" ").k(p);
                    }
                    out.push(Arc::new(Template { id, nvals: vec![gaps.len()], runs: vec![], calls: vec![(Entry::Parse, plain.clone()), (Entry::Parse, t.b)] }));
                };
                for i in 1..parts.len() {
                    if *n > 4 && (i + k) % 4 > 0 {
                        continue;
                    }
                    put(format!("g{}:many:{}:{}", k, n, i), &|j| i == j);
                }
                put(format!("g{}:many-all:{}", k, n), &|_| true);
            }
        }
        out
    }
    /// P09
    fn case(&self) -> Vec<Arc<Template>> {
        let mut out = vec![];
        // every letter of every unquoted word independently in either case
        for s in &self.ok {
            let mut t = Text::default();
            let mut base: Vec<TB> = vec![];
            let mut at = 0;
            for k in &s.toks {
                if k.kind != Kind::Word {
                    continue;
                }
                t = t.k(&s.text[at..k.a]);
                for c in s.text[k.a..k.b].bytes() {
                    if c.is_ascii_alphabetic() {
                        t = t.set(&[c.to_ascii_uppercase(), c.to_ascii_lowercase()]);
                    } else {
                        t.b.push(TB::K(c));
                    }
                }
                at = k.b;
            }
            t = t.k(&s.text[at..]);
            base.extend(s.text.bytes().map(TB::K));
            out.push(Arc::new(Template { id: format!("{}:case-all", s.id), nvals: t.nvals.clone(), runs: t.runs.clone(), calls: vec![(Entry::Parse, base), (Entry::Parse, t.b.clone())] }));
        }
        // any word at any place, in upper case and in any case
        let mut seen: HashSet<String> = HashSet::new();
        let (back, ahead) = if self.q() { (2, 1) } else { (6, 3) };
        for s in &self.ok {
            let n = s.toks.len();
            for i in 0..=n {
                for mode in 0..2 {
                    if mode == 0 && (i == n || s.toks[i].kind != Kind::Word) {
                        continue;
                    }
                    let key = match mode {
                        0 => format!("0 {} | {}", s.ctx(i, back, 0), s.ctx(i + 1, 0, ahead)),
                        _ => format!("1 {} | {}", s.ctx(i, back - 1, 0), s.ctx(i, 0, ahead)),
                    };
                    if !seen.insert(format!("{} {}", s.class(0), key)) {
                        continue;
                    }
                    let start = if i < n { s.toks[i].a } else { s.text.len() };
                    let post = if mode == 0 { &s.text[s.toks[i].b..] } else { &s.text[start..] };
                    let sep = if mode == 0 { "" } else { " " };
                    {
                        let pre = &s.text[..start];
                        let t = Text::default().k(pre).k(gap(pre)).words(MAXWORD).k(sep).k(post);
                        let up: Vec<TB> = t
                            .b
                            .iter()
                            .map(|b| match b {
                                TB::K(c) => TB::K(*c),
                                TB::S(v, tab) => TB::S(*v, bytes_upper(tab)),
                            })
                            .collect();
                        out.push(Arc::new(Template {
                            id: format!("{}:case-{}:{}:word", s.id, ["replace", "insert"][mode], i),
                            nvals: t.nvals.clone(),
 runs: t.runs.clone(),
                            calls: vec![(Entry::Parse, up), (Entry::Parse, t.b.clone())],
                        }));
                    }
                }
            }
        }
        out
    }
    /// P10: SELECT of operands joined by any operators
    fn operators(&self) -> Vec<Arc<Template>> {
        let bin = strings(&[
            "*", "/", "||", "+", "-", "<<", ">>", "&", "^", "|", "=", "<", ">", "<=", ">=", "!=", "<>", "LIKE", "NOT LIKE", "IS", "IS NOT", "AND",
            "OR", "IS DISTINCT FROM", "IS NOT DISTINCT FROM",
        ]);
        let tail = strings(&[
            "BETWEEN 1 AND", "NOT BETWEEN 1 AND", "IN (1) AND", "NOT IN (1,2) OR", "IS NULL AND", "IS NOT NULL =", "IN (1) =", "+ 1 BETWEEN 2 * 3 AND",
            "BETWEEN - 1 AND", ". x *", "[0] ||", ".x.y +", "[0].x AND NOT", "= - ", "AND NOT", "* ~", "OR NOT x IN (1) AND", "- (", "* ( a OR",
        ]);
        let pre = strings(&["", "-", "NOT", "+", "~", "NOT -", "- -", "NOT NOT", "- ~"]);
        let post = strings(&["", ".x", "[0]", "[a + b]", ".x.y", "[0].z", " IS NULL", " IN (1)", " NOT IN (a,b)", " BETWEEN 1 AND 2"]);
        let mut out = vec![];
        let all: Vec<String> = bin.iter().chain(tail.iter().filter(|t| !t.contains("( ") && !t.ends_with('('))).cloned().collect();
        let e = [Entry::Parse];
        out.push(Text::default().k("SELECT a ").choice(&all).k(" b ").choice(&all).k(" c;").call("op:two".into(), &e));
        for (i, x) in bin.iter().enumerate() {
            out.push(Text::default().k("SELECT a ").k(x).k(" b ").choice(&bin).k(" c ").choice(&bin).k(" d;").call(format!("op:three:{}", i), &e));
            out.push(Text::default().k("SELECT a ").k(x).k(" b BETWEEN c ").choice(&bin).k(" d AND e ").choice(&bin).k(" f;").call(format!("op:between:{}", i), &e));
        }
        if !self.q() {
            out.push(Text::default().k("SELECT a ").choice(&all).k(" b ").choice(&all).k(" c ").choice(&all).k(" d;").call("op:three-all".into(), &e));
            // one representative of each level, five operators in a row
            let rep = strings(&["*", "+", "<<", "&", "^", "|", "=", "AND", "OR"]);
            let mut t = Text::default().k("SELECT a ");
            for x in ["b", "c", "d", "e"] {
                t = t.choice(&rep).k(&format!(" {} ", x));
            }
            out.push(t.k(";").call("op:four-levels".into(), &e));
        }
        for (i, p) in pre.iter().enumerate() {
            for (k, q) in post.iter().enumerate() {
                out.push(Text::default().k("SELECT ").k(p).k(" a").k(q).k(" ").choice(&bin).k(" ").choice(&pre).k(" b").choice(&post).k(";").call(format!("op:unary:{}:{}", i, k), &e));
                out.push(Text::default().k("SELECT ").k(p).k(" (a ").choice(&bin).k(" b)").k(q).k(" ").choice(&bin).k(" c;").call(format!("op:group-first:{}:{}", i, k), &e));
            }
        }
        out.push(Text::default().k("SELECT a ").choice(&bin).k(" (b ").choice(&bin).k(" c)").choice(&post).k(";").call("op:group-last".into(), &e));
        for (i, p) in pre.iter().enumerate() {
            out.push(Text::default().k("SELECT a ").choice(&bin).k(" ").k(p).k(" b ").choice(&bin).k(" ").choice(&pre).k(" c;").call(format!("op:prefix-mid:{}", i), &e));
        }
        // operands of every kind
        let operands = strings(&[
            "f(x)", "f()", "f(a + b, c)", "f(a => b OR c, d)", "CASE WHEN a THEN b ELSE c END", "CASE a WHEN b THEN c + 1 END", "(SELECT 1)", "(a, b)", "[1, a + b]", "[]", "ARRAY<INT64>[1]", "STRUCT(1, 2)", "STRUCT<a INT64>(1)",
            "DATE '2020-01-01'", "r'x'", "JSON '{}'", "INTERVAL 1 DAY", "INTERVAL a + 1 DAY", "CAST(a AS INT64)", "CAST(a + b AS STRING FORMAT 'x')", "EXTRACT(DAY FROM a)", "@p", "@@p", "?", "`a`", "'s'", "1.5", ".5", "NULL", "TRUE", "COUNT(*) OVER (PARTITION BY a)", "f(a) OVER w",
            "EXISTS(SELECT 1)", "ARRAY(SELECT 1)", "f(x).y", "f(x)[0]", "(SELECT 1)[0]", "(a).f(b)", "a.f(x)", "a.b.c", "a.b[0].c", "{{t}}", "date", "ARRAY_AGG(a IGNORE NULLS ORDER BY b LIMIT 1)", "COUNT(DISTINCT a)", "'s'.f()", "a.select",
        ]);
        let rep = strings(&["*", "||", "+", "<<", "&", "^", "|", "=", "LIKE", "NOT LIKE", "IS NOT", "AND", "OR", "IS DISTINCT FROM", "IN (1) AND", "NOT IN UNNEST(x) OR", "BETWEEN 1 AND"]);
        let right = strings(&["*", "-", ">>", "&", "^", "|", "<", "LIKE", "NOT LIKE", "LIKE ANY", "AND", "OR", "IS NOT", "IN (1) AND", "IN UNNEST(x) =", "NOT IN (SELECT 1) OR", "BETWEEN - 1 AND", "NOT BETWEEN 1 AND"]);
        for (i, p) in pre.iter().enumerate() {
            if self.q() && i > 3 {
                break;
            }
            out.push(Text::default().k("SELECT ").k(p).k(" ").choice(&operands).k(" ").choice(&right).k(" c;").call(format!("op:operand-first:{}", i), &e));
            out.push(Text::default().k("SELECT a ").choice(&rep).k(" ").k(p).k(" ").choice(&operands).k(" ").choice(&right).k(" c;").call(format!("op:operand-mid:{}", i), &e));
            out.push(Text::default().k("SELECT a ").choice(&rep).k(" ").k(p).k(" ").choice(&operands).choice(&post).k(";").call(format!("op:operand-last:{}", i), &e));
        }
        out.push(Text::default().k("SELECT ").choice(&operands).k(" ").choice(&rep).k(" ").choice(&operands).k(";").call("op:operand-two".into(), &e));
        out.push(Text::default().k("SELECT f(a => b ").choice(&bin).k(" c, d ").choice(&bin).k(" e);").call("op:named".into(), &e));
        for (i, (x, z)) in [("[", "]"), ("f(", ")"), ("f(x, ", ")[0]"), ("a[", "]"), ("STRUCT(1, ", ")"), ("(1, ", ")"), ("a IN (", ", 1)"), ("a.f(", ").c"), ("CAST(a AS INT64) * (", ")")].iter().enumerate() {
            out.push(Text::default().k("SELECT ").k(x).k("a ").choice(&all).k(" b ").choice(&bin).k(" c").k(z).k(" ").choice(&rep).k(" d;").call(format!("op:inside:{}", i), &e));
        }
        // long ones
        let lv = strings(&["*", "+", "<<", "&", "^", "|", "=", "AND", "OR"]);
        for n in if self.q() { &[6usize, 15, 40][..] } else { &[6, 9, 15, 24, 40, 90] } {
            let n = *n;
            for (i, x) in ["a +", "a *", "a AND", "a OR b AND", "- a * b +", "NOT a = b OR", "a || b =", "(a +", "f(a) <", "a[0] -", "a.b AND NOT", "a BETWEEN b AND c AND", "a IN (b) OR", "a IS NULL AND"].iter().enumerate() {
                let close = ")".repeat(if x.starts_with('(') { n } else { 0 });
                out.push(Text::default().k("SELECT ").k(&format!("{} ", x).repeat(n)).k("x ").choice(&bin).k(" y ").choice(&lv).k(" z ").k(&close).k(";").call(format!("op:long:{}:{}", n, i), &e));
                if close.is_empty() {
                    out.push(Text::default().k("SELECT x ").choice(&lv).k(" y ").choice(&bin).k(" ").k(&format!("{} ", x).repeat(n)).k("z;").call(format!("op:long-last:{}:{}", n, i), &e));
                }
            }
        }
        out.push(Text::default().k("SELECT a ").choice(&bin).k(" b NOT BETWEEN c AND d ").choice(&bin).k(" e;").call("op:not-between".into(), &e));
        out.push(Text::default().k("SELECT a ").choice(&bin).k(" b IN (c ").choice(&bin).k(" d, e) ").choice(&bin).k(" f;").call("op:in".into(), &e));
        out.push(Text::default().k("SELECT a ").choice(&bin).k(" b NOT IN (c, d) ").choice(&bin).k(" e;").call("op:not-in".into(), &e));
        out.push(Text::default().k("SELECT a[b ").choice(&bin).k(" c] ").choice(&bin).k(" d;").call("op:subscript".into(), &e));
        out.push(Text::default().k("SELECT 1 ").choice(&bin).k(" t.x").choice(&post).k(" ").choice(&bin).k(" 'y';").call("op:fields".into(), &e));
        out.push(Text::default().k("SELECT ").choice(&pre).k(" t.x ").choice(&bin).k(" ").choice(&pre).k(" (a)").choice(&post).k(";").call("op:prefix-field".into(), &e));
        out
    }
    /// P12: A, B, and A followed by B
    fn sequences(&self) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let bs = [
            "SELECT 1 >> 2, ARRAY<STRUCT<a INT64>>[(1)] FROM t;",
            "BEGIN SELECT 1; END;",
            "CREATE TABLE t (a INT64 NOT NULL, b ARRAY<STRING>) AS SELECT 1;",
            "FROM t |> SELECT a, b;",
            "l: LOOP BREAK; END LOOP l;",
        ];
        let all_seps = strings(&["\n", " ", "\t"]);
        let one_sep = strings(&["\n"]);
        let three = |a: &Text, b: &str, id: String| -> Arc<Template> {
            let ab = a.clone().k("\n").k(b);
            let bt = Text::default().k(b);
            Arc::new(Template { id, nvals: a.nvals.clone(), runs: a.runs.clone(), calls: vec![(Entry::Parse, bt.b), (Entry::Parse, a.b.clone()), (Entry::Parse, ab.b)] })
        };
        let plains: Vec<(String, String)> = self.ok.iter().filter(|s| !s.toks.is_empty()).map(|s| (s.id.clone(), s.plain())).collect();
        // longer scripts: the first statement, the others, and all of them
        let short = strings(&[
            "SELECT 1;", "BEGIN END;", "x: LOOP END LOOP x;", "IF a THEN SELECT 1; END IF;", "CREATE TABLE t (a INT64);", "FROM t |> WHERE a;", "BEGIN TRANSACTION;",
            "CASE WHEN a THEN BREAK; END CASE;", "SELECT a >> b;", "SELECT ARRAY<STRUCT<a INT64>>[];", "DECLARE a, b STRING;",
        ]);
        for n in 3..=if self.q() { 4 } else { 5 } {
            let text = |from: usize, to: usize| {
                let mut t = Text::default();
                for v in from..to {
                    t.choice_of(v as u16, &short);
                    t = t.k("\n");
                }
                t.b
            };
            for cut in 1..n {
                out.push(Arc::new(Template {
                    id: format!("{}:script:{}", n, cut),
                    nvals: vec![short.len(); n],
                    runs: vec![],
                    calls: vec![(Entry::Parse, text(cut, n)), (Entry::Parse, text(0, cut)), (Entry::Parse, text(0, n))],
                }));
            }
        }
        for n in if self.q() { &[12usize, 66][..] } else { &[7, 12, 30, 66, 140, 300] } {
            for (k, st) in short.iter().enumerate() {
                let mut b = Text::default();
                b.choice_of(0, &short);
                let many = format!("{}\n", st).repeat(*n);
                let mut ab = Text::default().k(&many);
                ab.choice_of(0, &short);
                out.push(Arc::new(Template { id: format!("{}:scripts:{}", k, n), nvals: vec![short.len()], runs: vec![], calls: vec![(Entry::Parse, b.b.clone()), (Entry::Parse, Text::default().k(&many).b), (Entry::Parse, ab.b)] }));
                let mut ba = b.k("\n");
                ba = ba.k(&many);
                let mut a = Text::default();
                a.choice_of(0, &short);
                out.push(Arc::new(Template { id: format!("{}:scripts-after:{}", k, n), nvals: vec![short.len()], runs: vec![], calls: vec![(Entry::Parse, Text::default().k(&many).b), (Entry::Parse, a.b), (Entry::Parse, ba.b)] }));
            }
        }
        // every statement before and after every representative
        for (id, p) in &plains {
            for (k, b) in bs.iter().enumerate() {
                let seps = if k == 0 || !self.q() { &all_seps } else { &one_sep };
                let mut t = Text::default().k(p).choice(seps);
                t = t.k(b);
                out.push(Arc::new(Template {
                    id: format!("{}:before:{}", id, k),
                    nvals: t.nvals.clone(),
 runs: t.runs.clone(),
                    calls: vec![(Entry::Parse, Text::default().k(b).b), (Entry::Parse, Text::default().k(p).b), (Entry::Parse, t.b)],
                }));
                let mut t = Text::default().k(b).choice(seps);
                t = t.k(p);
                out.push(Arc::new(Template {
                    id: format!("{}:after:{}", id, k),
                    nvals: t.nvals.clone(),
 runs: t.runs.clone(),
                    calls: vec![(Entry::Parse, Text::default().k(p).b), (Entry::Parse, Text::default().k(b).b), (Entry::Parse, t.b)],
                }));
            }
        }
        // every statement with any word or symbol anywhere, before the first representative
        let pu = puncts(self.tier);
        let mut seen: HashSet<String> = HashSet::new();
        let (back, ahead) = if self.q() { (1, 1) } else { (5, 2) };
        for (s, (_, p)) in self.ok.iter().filter(|s| !s.toks.is_empty()).zip(&plains) {
            // token positions in the plain text
            let mut at = 0;
            let mut pos = vec![];
            for i in 0..s.toks.len() {
                let t = s.tok(i);
                let k = p[at..].find(t).unwrap() + at;
                pos.push((k, k + t.len()));
                at = k + t.len();
            }
            for i in 0..s.toks.len() {
                for mode in 0..2 {
                    let key = format!("{} {} {} | {}", s.class(0), mode, s.ctx(i, back, 0), s.ctx(i + 1 - mode, 0, ahead));
                    if !seen.insert(key) {
                        continue;
                    }
                    let pre = &p[..pos[i].0];
                    let post = if mode == 0 { &p[pos[i].1..] } else { &p[pos[i].0..] };
                    let sep = if mode == 0 { "" } else { " " };
                    let name = ["replace", "insert"][mode];
                    let t = Text::default().k(pre).choice(&pu).k(sep).k(post);
                    out.push(three(&t, "SELECT a >> 2;", format!("{}:seq-{}:{}:punct", s.id, name, i)));
                    let t = Text::default().k(pre).k(gap(pre)).uwords(MAXWORD).k(sep).k(post);
                    out.push(three(&t, "SELECT a >> 2;", format!("{}:seq-{}:{}:word", s.id, name, i)));
                }
            }
        }
        // the end of the list, whatever the input
        let mut v = self.short(&[Entry::Parse]);
        v.extend(self.whole(&[Entry::Parse]));
        out.extend(v);
        out
    }
    /// P14: an atom of any shape in expression positions
    fn atoms(&self) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let ctx: &[(&str, &str)] = &[
            ("SELECT ", ";"),
            ("SELECT ", " FROM t;"),
            ("SELECT a, ", ", b FROM t;"),
            ("SELECT f(", ");"),
            ("SELECT f(1, ", ", 2);"),
            ("SELECT (", ");"),
            ("SELECT [", "];"),
            ("SELECT x + ", " * 2;"),
            ("SELECT 1 FROM t WHERE ", " = 1;"),
            ("SELECT x IN (", ");"),
            ("SELECT CASE WHEN ", " THEN 1 END;"),
            ("SELECT CASE WHEN a THEN ", " ELSE 1 END;"),
            ("SELECT STRUCT(", ", 1);"),
            ("SELECT NOT ", ";"),
            ("SELECT a[", "];"),
            ("SELECT 1 FROM t GROUP BY ", ";"),
            ("SELECT 1 FROM t ORDER BY ", " DESC;"),
            ("SET x = ", ";"),
            ("SELECT x BETWEEN ", " AND 2;"),
        ];
        let nctx = ctx.len();
        let _ = nctx;
        for (k, (p, s)) in ctx.iter().enumerate() {
            let off = p.chars().count();
            let mut add = |t: Text, n: usize, name: String| {
                let t = t.k(s);
                out.push(t.call(format!("a{}:{}@{}@{}", k, name, off + n, off), &[Entry::Parse]));
            };
            for l in 1..=MAXWORD {
                add(Text::default().k(p).word(l), l, format!("word{}", l));
            }
            for n in 1..=if self.q() { 2 } else { 3 } {
                let mut t = Text::default().k(p);
                for _ in 0..n {
                    t = t.byte();
                }
                add(t, n, format!("bytes{}", n));
            }
            let alpha: &[(&str, &str, usize)] = &[("number", "019.eE+-", 5), ("hex", "0xXaFg.", 4), ("braces", "{}a1 ", 6), ("param", "@?`aZ_1", 5), ("quoted", "'\"`a\\", 5)];
            for (name, a, n) in alpha {
                for l in 3..=if self.q() { *n } else { *n + 1 } {
                    let mut t = Text::default().k(p);
                    for _ in 0..l {
                        t = t.set(a.as_bytes());
                    }
                    add(t, l, format!("{}{}", name, l));
                }
            }
            for (name, a, z) in [("str", "'", "'"), ("str2", "\"", "\""), ("tri", "'''", "'''"), ("bq", "`", "`"), ("tpl", "{{", "}}"), ("prm", "@", ""), ("prm2", "@@", "")] {
                let t = Text::default().k(p).k(a).byte().byte().k(z);
                add(t, a.len() + z.len() + 2, name.into());
            }
        }
        out
    }
    /// P17: X, something else, X again, in one module instance
    fn histories(&self) -> Vec<Arc<Template>> {
        let mut out = vec![];
        let xs = [
            "SELECT a.b, 1 >> 2, ARRAY<STRUCT<a INT64>>[(1)] FROM t -- c\nWHERE x >= 3 AND NOT y IN (1, 2);",
            "SELECT 1 NOT;",
            "SELECT 'unterminated",
            "",
        ];
        let pu = puncts(self.tier);
        let mut seen: HashSet<String> = HashSet::new();
        for s in &self.ok {
            for (k, x) in xs.iter().enumerate() {
                let xt = Text::default().k(x).b;
                let st = Text::default().k(&s.text).b;
                for (e, en) in [(Entry::Parse, "p"), (Entry::Tokenize, "t")] {
                    out.push(Arc::new(Template {
                        id: format!("{}:whole-{}:{}", s.id, en, k),
                        nvals: vec![],
 runs: vec![],
                        calls: vec![(e, xt.clone()), (Entry::Parse, st.clone()), (Entry::Tokenize, st.clone()), (e, xt.clone())],
                    }));
                }
            }
            // the statement itself, before and after a variation of itself
            for i in 0..s.toks.len() {
                let key = format!("{} {}", s.class(0), s.ctx(i, if self.q() { 1 } else { 4 }, 2));
                if !seen.insert(key) {
                    continue;
                }
                let (a, b) = (s.toks[i].a, s.toks[i].b);
                let t = Text::default().k(&s.text[..a]).choice(&pu).k(&s.text[b..]);
                let st = Text::default().k(&s.text).b;
                out.push(Arc::new(Template {
                    id: format!("{}:self:{}", s.id, i),
                    nvals: t.nvals.clone(),
 runs: t.runs.clone(),
                    calls: vec![(Entry::Parse, st.clone()), (Entry::FreshParse, t.b.clone()), (Entry::Parse, st.clone())],
                }));
                // rejected by the lexer or the parser half-way
                let cut = Text::default().k(&s.text[..a]).choice(&strings(&["'", "\"", "`", "/*", "{{", "@", "\"\"\"", "", "(", "NOT", "<"]));
                let x0 = Text::default().k(xs[0]).b;
                out.push(Arc::new(Template {
                    id: format!("{}:break:{}", s.id, i),
                    nvals: cut.nvals.clone(),
                    runs: vec![],
                    calls: vec![(Entry::Parse, x0.clone()), (Entry::FreshParse, cut.b.clone()), (Entry::Parse, x0)],
                }));
                let cut = Text::default().k(&s.text[..a]).word(3);
                out.push(Arc::new(Template {
                    id: format!("{}:cut:{}", s.id, i),
                    nvals: cut.nvals.clone(),
 runs: cut.runs.clone(),
                    calls: vec![(Entry::Parse, st.clone()), (Entry::FreshParse, cut.b.clone()), (Entry::Parse, st)],
                }));
            }
        }
        // many calls before: the same text, accepted, rejected by the parser or the lexer
        let mids = strings(&["SELECT 1;", "SELECT (;", "SELECT 'a", "SELECT ARRAY<INT64", "BEGIN", "", "x: LOOP END LOOP x; -- c", "SELECT a, /* b */ 'c' FROM `d`;"]);
        for n in if self.q() { &[3usize, 9, 40][..] } else { &[3, 5, 9, 20, 40, 130, 300] } {
            for (k, x) in ["SELECT a.b, 1 >> 2, ARRAY<STRUCT<a INT64>>[(1)] FROM t -- c\nWHERE x >= 3;", "SELECT 1 NOT;", "SELECT 'unterminated"].iter().enumerate() {
                for (e, en) in [(Entry::Parse, "p"), (Entry::Tokenize, "t")] {
                    let xt = Text::default().k(x).b;
                    let mut y = Text::default();
                    y.choice_of(0, &mids);
                    let mut calls = vec![(e, xt.clone())];
                    for i in 0..*n {
                        calls.push((if i % 2 == k % 2 { Entry::Parse } else { Entry::Tokenize }, y.b.clone()));
                    }
                    calls.push((e, xt));
                    out.push(Arc::new(Template { id: format!("m{}:many-{}:{}", k, en, n), nvals: vec![mids.len()], runs: vec![], calls }));
                }
            }
        }
        // similar texts one after the other: two free characters, letters in either case
        let e2 = |e: Entry| if e == Entry::Parse { Entry::FreshParse } else { Entry::FreshTokenize };
        for (k, x) in ["SELECT ab;", "SELECT a, 'b' FROM c;", "BEGIN SELECT ARRAY<ab>[1]; END;", "SET a = b >> c;", "-- a\nCALL a.b();", "ab: LOOP BREAK ab; END LOOP ab;"].iter().enumerate() {
            let xt = Text::default().k(x).b;
            for (e, en) in [(Entry::Parse, "p"), (Entry::Tokenize, "t")] {
                let mut put = |id: String, a: Text, b: Text| {
                    out.push(Arc::new(Template { id, nvals: a.nvals.clone(), runs: vec![], calls: vec![(e, b.b.clone()), (e2(e), a.b), (e, b.b)] }));
                };
                for i in 0..x.len() - 1 {
                    let y = Text::default().k(&x[..i]).byte().byte().k(&x[i + 2..]);
                    put(format!("h{}:two-{}:{}", k, en, i), y, Text { b: xt.clone(), ..Default::default() });
                }
                let mut y = Text::default();
                for c in x.bytes() {
                    y = if c.is_ascii_alphabetic() { y.set(&[c.to_ascii_lowercase(), c.to_ascii_uppercase()]) } else { y.set(&[c]) };
                }
                put(format!("h{}:case-{}", k, en), y, Text { b: xt.clone(), ..Default::default() });
            }
        }
        // two unknown words, one text after the other
        for (k, (a, b)) in [("SELECT ", ";"), ("SELECT '", "';"), ("SELECT 1 FROM t AS ", ";"), ("SELECT a ", " b;")].iter().enumerate() {
            for (e, en) in [(Entry::Parse, "p"), (Entry::Tokenize, "t")] {
                let t = Text::default().k(a).set(LET).set(LET).k(b);
                let split = t.b.len();
                let t = t.k(a).set(LET).set(LET).k(b);
                let (x, y) = (t.b[..split].to_vec(), t.b[split..].to_vec());
                out.push(Arc::new(Template { id: format!("h{}:free-{}", k, en), nvals: t.nvals.clone(), runs: vec![], calls: vec![(e, x.clone()), (e2(e), y), (e, x)] }));
            }
        }
        // short arbitrary inputs in between
        for (k, x) in xs.iter().enumerate() {
            for n in 0..=2 {
                let mut t = Text::default();
                for _ in 0..n {
                    t = t.byte();
                }
                let xt = Text::default().k(x).b;
                out.push(Arc::new(Template {
                    id: format!("h{}:short{}", k, n),
                    nvals: t.nvals.clone(),
 runs: t.runs.clone(),
                    calls: vec![(Entry::Parse, xt.clone()), (Entry::Tokenize, xt.clone()), (Entry::Tokenize, t.b.clone()), (Entry::Parse, t.b.clone()), (Entry::Parse, xt.clone())],
                }));
            }
        }
        out
    }
}
/// places where tokens are separated in `text` (byte ranges of the separators),
/// the beginning and the end included
fn gap_list(_g: &Gen, _id: &str, text: &str) -> Vec<(usize, usize)> {
    // `text` comes from plain()/spaced(): separators are single spaces outside of quotes
    let mut out = vec![(0, 0)];
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\'' | b'"' => {
                let q = b[i];
                let triple = b.get(i + 1) == Some(&q) && b.get(i + 2) == Some(&q);
                let n = if triple { 3 } else { 1 };
                i += n;
                while i < b.len() {
                    if b[i] == b'\\' {
                        i += 2;
                        continue;
                    }
                    if b[i..].starts_with(&vec![q; n]) {
                        i += n;
                        break;
                    }
                    i += 1;
                }
                continue;
            }
            b'`' => {
                i += 1;
                while i < b.len() && b[i] != b'`' {
                    i += 1;
                }
            }
            b'{' => {
                let mut n = 0;
                while b.get(i + n) == Some(&b'{') {
                    n += 1;
                }
                if n > 1 || !matches!(b.get(i + 1), Some(b'@' | b',' | b'0'..=b'9')) {
                    i += n;
                    while i < b.len() && !b[i..].starts_with(&vec![b'}'; n]) {
                        i += 1;
                    }
                    i += n - 1;
                }
            }
            b' ' => out.push((i, i + 1)),
            _ => (),
        }
        i += 1;
    }
    out.push((b.len(), b.len()));
    out
}

/// what the symbolic inputs of a property range over, in words
pub fn bounds(prop: &str, t: Tier) -> Vec<String> {
    let q = t == Tier::Quick;
    let holes = format!(
        "corpus statements with one hole: any upper-case word of up to {} characters, or any of {} symbols, literals and fragments, in place of or before any token, or as the end of a cut-off input (one position per context of {} tokens)",
        MAXWORD,
        puncts(t).len(),
        if q { "2 before and 1 after" } else { "6 before and 3 after" }
    );
    let v: Vec<String> = match prop {
        "P01" | "P02" | "P03" | "P04" => vec![
            format!("all ASCII strings of up to {} characters", if q { 3 } else { 4 }),
            format!("about 90 lexer states, each followed by up to {} arbitrary ASCII characters", if q { 2 } else { 3 }),
            format!("strings of {} characters over the alphabets of 16 constructs", if q { "5 to 7" } else { "7 to 9" }),
            "non-ASCII characters of 2, 3 and 4 bytes (22 of them) next to any ASCII character in 18 states".into(),
            format!("corpus texts with any single character replaced by any ASCII character (one per window of {} characters)", if q { "3+2" } else { "10+6" }),
        ],
        "P05" | "P13" | "P16" => vec![holes, format!("all ASCII strings of up to {} characters", if q { 2 } else { 3 })],
        "P06" | "P08" => vec![holes, "all corpus statements as they are".into()],
        "P07" | "P11" => vec![format!("every gap of every corpus statement, one at a time and all at once, as any of {} kinds of whitespace and comments", comments().len())],
        "P09" => vec![
            "every letter of every unquoted word of every corpus statement independently in either case".into(),
            format!("any word of up to {} letters in any mixture of cases in place of or before any token (one position per context)", MAXWORD),
        ],
        "P10" => vec!["expressions of up to 3 (thorough: 4) binary operators with prefix operators, field accesses, subscripts, groups, BETWEEN, IN, IS".into()],
        "P12" => vec!["every corpus statement before and after 5 representatives; scripts of 3 and 4 (thorough: 5) statements out of 11, cut everywhere; scripts of up to 67 (thorough: 301) statements; corpus statements with one hole before a representative".into()],
        "P14" => vec![format!("atoms in 19 expression contexts: words of up to {} characters in any case, all 1-2 byte texts, numbers, quotes, parameters, templates of up to 6 characters", MAXWORD)],
        "P15" => vec!["corpus statements as they are and with names, literals and expressions replaced".into()],
        "P17" => vec!["X, two calls on Y, X again in one instance: Y any corpus statement, any statement with a symbolic hole, all ASCII strings of up to 2 characters; X one of 4 or the statement itself".into()],
        "P19" => vec!["every corpus statement, alone and after one of 4 others, with any of 6 gaps before the semicolon or the end, and any name of up to 5 or number of 2 characters as its last token".into()],
        "P20" => vec![format!("every corpus statement in each of {} places in blocks (a symbolic choice)", crate::rel::BLOCKS.len())],
        "P21" => vec![
            format!("each of {} places with each of {} expressions (a symbolic choice), any name of 5 characters, and any two of 17 operators", crate::rel::EXPR_PLACES.len(), crate::rel::EXPRS.len()),
        ],
        "P22" => vec![format!("every name and literal of every corpus statement (one per context of {} tokens) as any name of 6 characters, any 3 characters of content, any number of 3 digits, and representatives of other lengths", if q { "2+2" } else { "6+4" })],
        "P23" => vec!["any two of 15 joins, 10 set operators, 25 pipe operators or 6 accesses after each of 5 to 10 heads in 6 to 10 places".into()],
        "P24" => vec![format!("each of {} places with each of the representative queries (a symbolic choice)", crate::rel::QUERY_PLACES.len())],
        "P25" => vec!["each place that takes a type with each of the representative types (a symbolic choice) and any type name".into()],
        "P26" => vec!["each list of the grammar with each of its representative elements alone and between any two others (symbolic choices)".into()],
        "P29" => vec![format!("corpus statements with one token replaced, inserted or the rest cut off (one position per context of {} tokens; any of {} fragments), in 5 layouts, 4 of them after another statement", if q { 2 } else { 5 }, if q { 12 } else { puncts(t).len() + 10 })],
        "P28" => vec![format!("{} statement forms, each with any subset of its optional clauses (symbolic choices; beyond {} combinations per form the clauses farthest away are all present or all absent)", crate::clause::FAMILIES.len(), if q { 200 } else { 3000 })],
        "P27" => vec![format!("each of {} positions with each of the representative paths (a symbolic choice), and any path of short names and dashes", crate::rel::TABLE_PLACES.len())],
        _ => vec![],
    };
    let mut v = v;
    let n = |a: usize, b: usize| if q { a } else { b };
    match prop {
        "P01" | "P02" | "P03" | "P04" => v.push(format!("36 constructs repeated up to {} times, then any ASCII character or one of 12 ends; texts of {} characters", n(300, 4500), n(66_000, 140_000))),
        "P05" | "P06" | "P07" | "P08" | "P13" | "P15" | "P16" => v.push(format!("lists, chains, scripts, comments and names of up to {} elements and nesting of up to {} levels{}", n(66, 300), n(24, 40), if matches!(prop, "P05" | "P13") { ", well-formed, broken at one place, or cut off there" } else { "" })),
        "P10" => v.push(format!("47 kinds of operands before, between and after operators; chains of up to {} operators of 14 kinds", n(40, 90))),
        "P11" => v.push(format!("up to {} comments, lines or spaces in one gap or in all of them", n(40, 150))),
        "P17" => v.push("histories of 3, 9 and 40 calls".into()),
        "P20" | "P21" | "P24" | "P25" => v.push(format!("places up to {} levels deep or {} elements away", n(20, 33), n(20, 33))),
        "P22" => v.push("names of up to 300 and strings of up to 100 characters".into()),
        "P23" => v.push(format!("heads of up to {} links", n(40, 100))),
        "P29" => v.push(format!("after up to {} statements, comments or lines", n(300, 900))),
        _ => (),
    }
    if matches!(prop, "P21" | "P24" | "P25" | "P27") {
        v.push("representatives in place of corpus leaves of that kind".into());
    }
    if matches!(prop, "P05" | "P06" | "P07" | "P08" | "P09" | "P11" | "P12" | "P13" | "P15" | "P16" | "P19" | "P20") {
        v.push(format!("{} statement forms with any subset of their optional clauses (symbolic choices, in windows of up to {} combinations){}", crate::clause::FAMILIES.len(), n(100, 1500), if matches!(prop, "P05" | "P13") { ", whole and cut off" } else { "" }));
    }
    if matches!(prop, "P06" | "P08" | "P15") {
        v.push("the texts of P21, P24, P25, P26 and P27: expressions, queries, types, list elements and table names in all their places".into());
    }
    v.into_iter().chain(["at most 60 million wasm instructions per path of a short text (more for longer ones); loops and recursion are followed concretely or by case split, without unrolling bound".to_string()]).collect()
}
