//! The properties: each is judged on the results of a template's calls, on one path.
//! `Ok` = the property holds on this path, `Err` = it is violated. A result that is
//! another property's business (a crash for anybody but P01/P05, ...) is not judged.
use crate::exec::*;
use crate::refl::*;
use crate::sym::*;
use crate::ts::Types;
use crate::val::*;
use std::collections::HashMap;

pub struct Ctx<'a> {
    pub types: &'a Types,
}
pub type R = Result<(), String>;
/// how often the interesting case was reached (vacuity guard)
pub struct Judge {
    pub hits: u64,
}

pub fn judge(prop: &str, m: &mut Machine, outs: &[ROut], cx: &Ctx, j: &mut Judge) -> R {
    match prop {
        "P01" | "P05" => total(m, outs, j),
        "P02" => p02(m, outs, j),
        "P03" => p03(m, outs, j),
        "P04" => p04(m, outs, j),
        "P06" => p06(m, outs, j),
        "P07" => p07(m, outs, j),
        "P08" => p08(m, outs, j),
        "P09" => p09(m, outs, j),
        "P10" => crate::pratt::p10(m, outs, j),
        "P11" => p11(m, outs, j),
        "P12" => p12(m, outs, j),
        "P13" => p13(m, outs, j),
        "P14" => p14(m, outs, j),
        "P15" => p15(m, outs, cx, j),
        "P16" => p16(m, outs, j),
        "P17" => p17(m, outs, j),
        "P19" => crate::rel::semicolon(m, outs, j),
        "P22" => crate::rel::opaque(m, outs, j),
        "P23" => crate::rel::chain(m, outs, j),
        "P29" => crate::rel::rejection(m, outs, j),
        "P28" => crate::clause::clauses(m, outs, j),
        "P20" | "P21" | "P24" | "P25" | "P26" | "P27" => crate::rel::place(m, outs, j),
        _ => panic!("no such property"),
    }
}

fn total(_m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    for o in outs {
        match o {
            ROut::Trap(s) => return Err(format!("the call crashes: {}", s)),
            ROut::Hang => return Err("the call does not terminate (step limit)".into()),
            ROut::Err(v) => {
                if perr(v).is_err() {
                    return Err(format!("the call throws something that is not a structured error: {:?}", v));
                }
            }
            ROut::Ok(v) => {
                if !matches!(v, Val::Arr(_)) {
                    return Err(format!("the call returns something that is not an array: {:?}", v));
                }
            }
            ROut::Missing => (),
        }
        j.hits += 1;
    }
    Ok(())
}
fn tokens_of(outs: &[ROut], i: usize) -> Option<Vec<Tok>> {
    match &outs[i] {
        ROut::Ok(v) => toks(v).ok(),
        _ => None,
    }
}
pub fn nodes_of(outs: &[ROut], i: usize) -> Option<Vec<Node>> {
    match &outs[i] {
        ROut::Ok(v) => nodes(v).ok(),
        _ => None,
    }
}

fn p02(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let ts = match tokens_of(outs, 0) {
        Some(t) => t,
        None => return Ok(()),
    };
    j.hits += 1;
    let inp = input(m, 0);
    let cs = chars(m, &inp);
    let mut s = Scan::new(m, cs);
    if ts.is_empty() {
        return Err("no end-of-input token".into());
    }
    for (n, t) in ts.iter().enumerate() {
        if n + 1 == ts.len() {
            if !t.lit.is_empty() {
                return Err("the last token is not an end-of-input token".into());
            }
            break;
        }
        if t.lit.is_empty() {
            return Err(format!("token {} has an empty literal before the end", n));
        }
        // whitespace up to the token's position
        while (s.line, s.col) != (t.line, t.col) {
            if s.at_end() || (s.line, s.col) > (t.line, t.col) {
                return Err(format!("token {} is placed at {}:{}, which is not where the text continues", n, t.line, t.col));
            }
            if !s.space() {
                return Err(format!("text at {}:{} is in no token", s.line, s.col));
            }
            s.step();
        }
        // the literal is the text there
        let mut k = 0;
        while k < t.lit.len() {
            if s.at_end() {
                return Err(format!("token {} is longer than the text", n));
            }
            let b = s.c[s.i].b.clone();
            if k + b.len() > t.lit.len() || !lit_eq(s.m, &b, &t.lit[k..k + b.len()]) {
                return Err(format!("literal of token {} at {}:{} differs from the source text", n, t.line, t.col));
            }
            k += b.len();
            s.step();
        }
    }
    while !s.at_end() {
        if !s.space() {
            return Err(format!("text at {}:{} is in no token", s.line, s.col));
        }
        s.step();
    }
    Ok(())
}

fn p03(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let ts = match tokens_of(outs, 0) {
        Some(t) => t,
        None => return Ok(()),
    };
    let inp = input(m, 0);
    let r = match lex(m, &inp) {
        RLex::Ok(r) => r,
        RLex::Err { .. } => return Ok(()), // P04
    };
    j.hits += 1;
    if ts.len() != r.len() + 1 {
        return Err(format!("{} tokens where the lexical rules give {}", ts.len() as i64 - 1, r.len()));
    }
    for (n, (t, q)) in ts.iter().zip(&r).enumerate() {
        if (t.line, t.col) != (q.line, q.col) || !lit_eq(m, &t.lit, &q.lit) {
            return Err(format!(
                "token {} is {:?} at {}:{}, by the lexical rules {:?} at {}:{}",
                n,
                show(m, &t.lit),
                t.line,
                t.col,
                show(m, &q.lit),
                q.line,
                q.col
            ));
        }
    }
    Ok(())
}

fn p04(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let inp = input(m, 0);
    match &outs[0] {
        ROut::Ok(_) => match lex(m, &inp) {
            RLex::Ok(_) => Ok(()),
            RLex::Err { line, col, .. } => {
                j.hits += 1;
                Err(format!("accepted, but malformed at {}:{}", line, col))
            }
        },
        ROut::Err(v) => {
            let e = match perr(v) {
                Ok(e) => e,
                Err(_) => return Ok(()),
            };
            j.hits += 1;
            match lex(m, &inp) {
                RLex::Ok(_) => Err("rejected, but every token is well-formed".into()),
                RLex::Err { line, col, .. } => {
                    if (e.line, e.col) != (line, col) {
                        Err(format!("error at {}:{} instead of {}:{}", e.line, e.col, line, col))
                    } else {
                        Ok(())
                    }
                }
            }
        }
        _ => Ok(()),
    }
}

/// non-comment tokens of a tokenize result, without the end-of-input token
fn significant(m: &mut Machine, ts: &[Tok]) -> Vec<Tok> {
    let mut v = vec![];
    for t in ts {
        if !t.lit.is_empty() && !is_comment(m, &t.lit) {
            v.push(t.clone());
        }
    }
    v
}

fn p06(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let (ts, ns) = match (tokens_of(outs, 0), nodes_of(outs, 1)) {
        (Some(t), Some(n)) => (t, n),
        _ => return Ok(()),
    };
    let sig = significant(m, &ts);
    j.hits += 1;
    let mut at: HashMap<(u64, u64), usize> = HashMap::new();
    for (i, t) in sig.iter().enumerate() {
        at.insert((t.line, t.col), i);
    }
    let mut seen = vec![0u32; sig.len()];
    let mut all = vec![];
    for n in &ns {
        n.walk(&mut |n| {
            if let Some(t) = &n.tok {
                all.push((t, n.ty.as_str()));
            }
        });
    }
    for (t, ty) in all {
        match at.get(&(t.line, t.col)) {
            None => return Err(format!("{} node carries {:?} at {}:{}, which is no token of the source", ty, show(m, &t.lit), t.line, t.col)),
            Some(i) => {
                if !lit_eq(m, &t.lit, &sig[*i].lit) {
                    return Err(format!("{} node at {}:{} has another literal than the token there", ty, t.line, t.col));
                }
                seen[*i] += 1;
            }
        }
    }
    for (i, c) in seen.iter().enumerate() {
        if *c != 1 {
            return Err(format!("token {:?} at {}:{} appears {} times in the tree", show(m, &sig[i].lit), sig[i].line, sig[i].col, c));
        }
    }
    Ok(())
}

fn p07(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let (ts, ns) = match (tokens_of(outs, 0), nodes_of(outs, 1)) {
        (Some(t), Some(n)) => (t, n),
        _ => return Ok(()),
    };
    // expected: leading and trailing comments of every non-comment token
    let mut lead: HashMap<(u64, u64), Vec<Tok>> = HashMap::new();
    let mut trail: HashMap<(u64, u64), Vec<Tok>> = HashMap::new();
    let mut prev: Option<(u64, u64)> = None;
    let mut pending: Vec<Tok> = vec![];
    let mut ncomments = 0;
    for t in &ts {
        if !t.lit.is_empty() && is_comment(m, &t.lit) {
            ncomments += 1;
            match prev {
                Some(p) if pending.is_empty() && p.0 == t.line => trail.entry(p).or_default().push(t.clone()),
                _ => pending.push(t.clone()),
            }
        } else {
            let k = if t.lit.is_empty() { (EOFPOS, EOFPOS) } else { (t.line, t.col) };
            lead.insert(k, std::mem::take(&mut pending));
            prev = Some(k);
        }
    }
    if ncomments > 0 {
        j.hits += 1;
    }
    let mut seen: HashMap<(u64, u64), u32> = HashMap::new();
    let mut all = vec![];
    for n in &ns {
        n.walk(&mut |n| all.push(n));
    }
    let none = vec![];
    for n in all {
        let k = match &n.tok {
            Some(t) => (t.line, t.col),
            None if n.ty == "EOF" => (EOFPOS, EOFPOS),
            None => (0, 0),
        };
        if k != (0, 0) {
            *seen.entry(k).or_default() += 1;
        }
        for (key, exp) in [("leading_comments", lead.get(&k).unwrap_or(&none)), ("trailing_comments", trail.get(&k).unwrap_or(&none))] {
            let got = match n.get(key) {
                None => &[][..],
                Some(Child::Many(v)) => &v[..],
                Some(Child::One(_)) => return Err(format!("{} is not a list", key)),
            };
            if got.len() != exp.len() {
                return Err(format!("{} node at {}:{} has {} {} instead of {}", n.ty, k.0, k.1, got.len(), key, exp.len()));
            }
            for (g, e) in got.iter().zip(exp.iter()) {
                let ok = match &g.tok {
                    Some(t) => g.ty == "Comment" && (t.line, t.col) == (e.line, e.col) && lit_eq(m, &t.lit, &e.lit),
                    None => false,
                };
                if !ok {
                    return Err(format!("{} node at {}:{}: wrong comment in {}", n.ty, k.0, k.1, key));
                }
            }
        }
    }
    // exactly once: the token a comment belongs to is in the tree exactly once
    for (k, v) in lead.iter().chain(trail.iter()) {
        if !v.is_empty() && seen.get(k).copied().unwrap_or(0) != 1 {
            return Err(format!("comments next to {}:{} appear {} times in the tree", k.0, k.1, seen.get(k).copied().unwrap_or(0)));
        }
    }
    Ok(())
}

fn p08(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let (ts, ns) = match (tokens_of(outs, 0), nodes_of(outs, 1)) {
        (Some(t), Some(n)) => (t, n),
        _ => return Ok(()),
    };
    let sig = significant(m, &ts);
    j.hits += 1;
    let at: HashMap<(u64, u64), usize> = sig.iter().enumerate().map(|(i, t)| ((t.line, t.col), i)).collect();
    // returns (first, last, count) of the subtree's tokens
    fn span(n: &Node, at: &HashMap<(u64, u64), usize>, idx: &mut Vec<usize>) -> R {
        let from = idx.len();
        if let Some(t) = &n.tok {
            if let Some(i) = at.get(&(t.line, t.col)) {
                idx.push(*i);
            }
        }
        for (k, c) in &n.ch {
            if k == "leading_comments" || k == "trailing_comments" {
                continue;
            }
            match c {
                Child::One(x) => span(x, at, idx)?,
                Child::Many(v) => list(v, at, idx, &format!("{}.{}", n.ty, k))?,
            }
        }
        let mine = &mut idx[from..];
        if mine.is_empty() {
            return Ok(());
        }
        mine.sort();
        let (a, b) = (mine[0], mine[mine.len() - 1]);
        for w in mine.windows(2) {
            if w[1] > w[0] + 1 {
                return Err(format!("{} node covers tokens {}..{} but not token {}", n.ty, a, b, w[0] + 1));
            }
        }
        Ok(())
    }
    fn list(v: &[Node], at: &HashMap<(u64, u64), usize>, idx: &mut Vec<usize>, what: &str) -> R {
        let mut last: Option<usize> = None;
        for x in v {
            let from = idx.len();
            span(x, at, idx)?;
            if idx.len() > from {
                let (a, b) = (idx[from], idx[idx.len() - 1]);
                if let Some(l) = last {
                    if a <= l {
                        return Err(format!("{}: elements are not in source order", what));
                    }
                }
                last = Some(b);
            }
        }
        Ok(())
    }
    let mut idx = vec![];
    list(&ns, &at, &mut idx, "top level")
}

fn p09(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    match (&outs[0], &outs[1]) {
        (ROut::Ok(_), ROut::Ok(_)) => {
            if let (Some(a), Some(b)) = (nodes_of(outs, 0), nodes_of(outs, 1)) {
                j.hits += 1;
                return same_nodes(m, &a, &b, &Cmp { positions: true, comments: true, nocase: true }, "");
            }
            Ok(())
        }
        (ROut::Err(a), ROut::Err(b)) => {
            if let (Ok(a), Ok(b)) = (perr(a), perr(b)) {
                if (a.line, a.col) != (b.line, b.col) {
                    return Err(format!("the letter case moves the error from {}:{} to {}:{}", a.line, a.col, b.line, b.col));
                }
            }
            Ok(())
        }
        (ROut::Ok(_), ROut::Err(_)) | (ROut::Err(_), ROut::Ok(_)) => Err("the letter case decides whether the input is accepted".into()),
        _ => Ok(()),
    }
}

fn p11(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    match (&outs[0], &outs[1]) {
        (ROut::Ok(_), ROut::Ok(_)) => {
            if let (Some(a), Some(b)) = (nodes_of(outs, 0), nodes_of(outs, 1)) {
                j.hits += 1;
                return same_nodes(m, &a, &b, &Cmp { positions: false, comments: false, nocase: false }, "");
            }
            Ok(())
        }
        (ROut::Ok(_), ROut::Err(_)) => Err("the layout makes the input unacceptable".into()),
        _ => Ok(()),
    }
}

fn last_token(n: &Node) -> Option<(u64, u64)> {
    let mut best = None;
    n.walk(&mut |n| {
        if let Some(t) = &n.tok {
            if Some((t.line, t.col)) > best {
                best = Some((t.line, t.col));
            }
        }
    });
    best
}
/// nodes of a sequence of terminated statements: the last one ends with its semicolon
pub fn terminated(ns: &[Node]) -> bool {
    if ns.len() < 2 || ns[ns.len() - 1].ty != "EOF" {
        return false;
    }
    let s = &ns[ns.len() - 2];
    let end = ns.iter().filter_map(last_token).max();
    match s.one("semicolon").and_then(|n| n.tok.as_ref()) {
        Some(t) => t.lit.len() == 1 && t.lit[0] == V::k(b';' as u64) && Some((t.line, t.col)) == end,
        None => false,
    }
}
/// calls: parse(B), parse(A), parse(A B)
fn p12(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    for o in outs.iter() {
        if let ROut::Ok(v) = o {
            if let Ok(ns) = nodes(v) {
                let eofs = ns.iter().filter(|n| n.ty == "EOF").count();
                let good = eofs == 1 && ns.last().map_or(false, |n| n.ty == "EOF" && n.tok.is_none());
                if !good {
                    return Err("the list does not end with exactly one EOF node without a token".into());
                }
            }
        }
    }
    if outs.len() < 3 {
        j.hits += 1;
        return Ok(());
    }
    let (a, b) = match (nodes_of(outs, 1), nodes_of(outs, 0)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    if !terminated(&a) || !terminated(&b) {
        return Ok(());
    }
    match &outs[2] {
        ROut::Ok(v) => {
            let ab = match nodes(v) {
                Ok(x) => x,
                _ => return Ok(()),
            };
            j.hits += 1;
            let mut exp: Vec<Node> = a[..a.len() - 1].to_vec();
            exp.extend(b.iter().cloned());
            same_nodes(m, &exp, &ab, &Cmp { positions: false, comments: false, nocase: false }, "")
        }
        ROut::Err(_) => Err("two statements accepted on their own are rejected one after the other".into()),
        _ => Ok(()),
    }
}

fn p13(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let e = match &outs[1] {
        ROut::Err(v) => match perr(v) {
            Ok(e) => e,
            _ => return Ok(()),
        },
        ROut::Ok(_) => {
            if let ROut::Err(_) = &outs[0] {
                return Err("parse accepts what tokenize rejects".into());
            }
            return Ok(());
        }
        _ => return Ok(()),
    };
    j.hits += 1;
    match &outs[0] {
        ROut::Err(v) => {
            if let Ok(t) = perr(v) {
                if (t.line, t.col) != (e.line, e.col) || !lit_eq(m, &t.msg, &e.msg) {
                    return Err("parse and tokenize reject the input with different errors".into());
                }
            }
            Ok(())
        }
        ROut::Ok(v) => {
            let ts = match toks(v) {
                Ok(t) => t,
                _ => return Ok(()),
            };
            if e.msg.is_empty() {
                return Err("empty message".into());
            }
            for t in &ts {
                if (t.line, t.col) == (e.line, e.col) && (t.lit.is_empty() || !is_comment(m, &t.lit)) {
                    return Ok(());
                }
            }
            Err(format!("the error is at {}:{}, where no token starts", e.line, e.col))
        }
        _ => Ok(()),
    }
}

pub const RESERVED: &[&str] = &[
    "ALL", "AND", "ANY", "ARRAY", "AS", "ASC", "ASSERT_ROWS_MODIFIED", "AT", "BETWEEN", "BY", "CASE", "CAST", "COLLATE", "CONTAINS",
    "CREATE", "CROSS", "CUBE", "CURRENT", "DEFAULT", "DEFINE", "DESC", "DISTINCT", "ELSE", "END", "ENUM", "ESCAPE", "EXCEPT", "EXCLUDE",
    "EXISTS", "EXTRACT", "FALSE", "FETCH", "FOLLOWING", "FOR", "FROM", "FULL", "GROUP", "GROUPING", "GROUPS", "HASH", "HAVING", "IF",
    "IGNORE", "IN", "INNER", "INTERSECT", "INTERVAL", "INTO", "IS", "JOIN", "LATERAL", "LEFT", "LIKE", "LIMIT", "LOOKUP", "MERGE",
    "NATURAL", "NEW", "NO", "NOT", "NULL", "NULLS", "OF", "ON", "OR", "ORDER", "OUTER", "OVER", "PARTITION", "PRECEDING", "PROTO",
    "QUALIFY", "RANGE", "RECURSIVE", "RESPECT", "RIGHT", "ROLLUP", "ROWS", "SELECT", "SET", "SOME", "STRUCT", "TABLESAMPLE", "THEN",
    "TO", "TREAT", "TRUE", "UNBOUNDED", "UNION", "UNNEST", "USING", "WHEN", "WHERE", "WINDOW", "WITH", "WITHIN",
];
/// The hole is an expression of its own; the tag in the template id says which
/// character offset it starts at: "...@<offset>".
fn p14(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let off: usize = m.tmpl.id.rsplit('@').next().and_then(|s| s.parse().ok()).expect("p14 template id");
    let inp = input(m, 0);
    let r = match lex(m, &inp) {
        RLex::Ok(r) => r,
        _ => return Ok(()),
    };
    // the hole must be exactly one token (otherwise it is not a literal or a name)
    let end = m.tmpl.id.rsplit('@').nth(1).and_then(|s| s.parse::<usize>().ok()).expect("p14 template id");
    let t = match r.iter().find(|t| t.start == off) {
        Some(t) => t.clone(),
        None => return Ok(()),
    };
    // nothing but this token in the hole
    if r.iter().any(|x| x.start > t.start && x.start < end) || t.end > end {
        return Ok(());
    }
    let want = match t.kind {
        Kind::Word => {
            let ascii = t.lit.iter().all(|v| v.s != 0 || v.c < 128);
            if !ascii {
                return Ok(());
            }
            if lit_in(m, &t.lit, &["TRUE", "FALSE"]) {
                "BooleanLiteral"
            } else if lit_in(m, &t.lit, &["NULL"]) {
                "NullLiteral"
            } else if lit_in(m, &t.lit, RESERVED) {
                return Ok(());
            } else {
                "Identifier"
            }
        }
        Kind::Number => {
            // complete numbers only: an exponent has digits
            let last = *t.lit.last().unwrap();
            let c = m.in_set(last, b"0123456789.");
            if !m.branch(c) {
                return Ok(());
            }
            "NumericLiteral"
        }
        Kind::Str => "StringLiteral",
        Kind::BackQuoted => "Identifier",
        Kind::Param => "Parameter",
        Kind::Template => "Template",
        Kind::Punct => {
            if t.lit.len() == 1 && lit_in(m, &t.lit, &["?"]) {
                "Parameter"
            } else {
                return Ok(());
            }
        }
        _ => return Ok(()),
    };
    let ns = match &outs[0] {
        ROut::Ok(_) => match nodes_of(outs, 0) {
            Some(n) => n,
            None => return Ok(()),
        },
        ROut::Err(_) => return Err(format!("{:?} is not accepted as an expression", show(m, &t.lit))),
        _ => return Ok(()),
    };
    j.hits += 1;
    let mut found = None;
    for n in &ns {
        n.walk(&mut |n| {
            if let Some(k) = &n.tok {
                if (k.line, k.col) == (t.line, t.col) {
                    found = Some(n);
                }
            }
        });
    }
    match found {
        None => Err(format!("no node for {:?}", show(m, &t.lit))),
        Some(n) => {
            if n.ty != want {
                return Err(format!("{:?} becomes {} instead of {}", show(m, &t.lit), n.ty, want));
            }
            let l = n.tok.as_ref().unwrap().lit.clone();
            if !lit_eq(m, &l, &t.lit) {
                return Err(format!("literal {:?} is not kept as written", show(m, &t.lit)));
            }
            Ok(())
        }
    }
}

fn p15(m: &mut Machine, outs: &[ROut], cx: &Ctx, j: &mut Judge) -> R {
    let _ = m;
    let ns = match nodes_of(outs, 0) {
        Some(n) => n,
        None => return Ok(()),
    };
    j.hits += 1;
    for n in &ns {
        cx.types.check(n)?;
    }
    Ok(())
}

fn p16(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let calls = m.tmpl.calls.clone();
    for (o, (e, _)) in outs.iter().zip(calls.iter()) {
        match o {
            ROut::Ok(v) => {
                j.hits += 1;
                match e {
                    Entry::Tokenize | Entry::FreshTokenize => {
                        toks(v)?;
                    }
                    Entry::Parse | Entry::FreshParse => {
                        nodes(v)?;
                    }
                }
            }
            ROut::Err(v) => {
                j.hits += 1;
                perr(v)?;
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn val_eq(m: &mut Machine, a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Undef, Val::Undef) | (Val::Null, Val::Null) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Num(x), Val::Num(y)) => x == y,
        (Val::Str(x), Val::Str(y)) => lit_eq(m, x, y),
        (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| val_eq(m, p, q)),
        (Val::Obj(x), Val::Obj(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| match b.get(k) {
                    Some(w) => val_eq(m, v, w),
                    None => false,
                })
        }
        (Val::Other(x), Val::Other(y)) => x == y,
        _ => false,
    }
}
/// calls: X, anything..., X again
fn p17(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let n = outs.len();
    match (&outs[0], &outs[n - 1]) {
        (ROut::Ok(a), ROut::Ok(b)) | (ROut::Err(a), ROut::Err(b)) => {
            j.hits += 1;
            if val_eq(m, a, b) {
                Ok(())
            } else {
                Err("the same call gives another result after other calls".into())
            }
        }
        (_, ROut::Missing) | (ROut::Missing, _) => Ok(()),
        (ROut::Trap(_), ROut::Trap(_)) | (ROut::Hang, ROut::Hang) => Ok(()),
        // a crash after a crash is P01/P05's business
        _ if outs[..n - 1].iter().any(|o| matches!(o, ROut::Trap(_) | ROut::Hang | ROut::Missing)) => Ok(()),
        _ => Err("the same call succeeds or fails depending on earlier calls".into()),
    }
}
