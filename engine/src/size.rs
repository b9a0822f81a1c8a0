//! Sizes: long tokens and lines, many lines, tokens, elements, statements and comments, deep
//! nesting. The rest of the templates are short; these reach what depends on a length or count.
use crate::exec::{Entry, Template};
use crate::gen::{strings, Gen, Text};
use std::sync::Arc;

/// for the lexer: something n times, then any byte or one of several ends
pub fn lex(g: &Gen, entries: &[Entry]) -> Vec<Arc<Template>> {
    let mut out = vec![];
    // start, repeated, end
    let units: &[(&str, &str, &str)] = &[
        ("", " ", ""), ("", "\n", ""), ("", "a", ""), ("", "1", ""), ("", ";", ""), ("", "a,", ""), ("", "a ", ""), ("", "'a' ", ""), ("", "--c\n", ""), ("", "/*c*/", ""), ("", "(", ""), ("", "ARRAY<", ""),
        ("", "é", ""), ("", "\t", ""), ("", "`a`.", ""), ("'", "x", "'"), ("`", "x", "`"), ("/*", "x", "*/"), ("--", "x", "\n"), ("{{", "x", "}}"), ("'''", "x\n", "'''"), ("@", "x", ""), ("/*", "\n", "*/"), ("1.", "1", ""),
        ("'", "\\'", "'"), ("\"\"\"", "\"x", "\"\"\""), ("", "{", ""), ("/*", "*", "*/"), ("#", "é", "\n"), ("'", "é", "'"), ("", "a\n", ""), ("", "? ", ""), ("", "@a ", ""), ("", "|>", ""), ("", ">", ""), ("", "a.", ""),
    ];
    let ends = strings(&["a", "'a'", "\nb", ">> c", "", "/*c*/", "'", "``", ".5", "@a", "/*", "}}"]);
    for (i, (a, u, z)) in units.iter().enumerate() {
        for n in if g.q() { &[17usize, 70, 300][..] } else { &[9, 17, 33, 70, 130, 300, 1100, 4500] } {
            let body = format!("{}{}", a, u.repeat(*n));
            if *n < 1000 {
                out.push(Text::default().k(&body).byte().k(z).call(format!("s{}:size:{}", i, n), entries));
            }
            out.push(Text::default().k(&body).k(z).choice(&ends).call(format!("s{}:size-end:{}", i, n), entries));
        }
    }
    // beyond 16 bits
    let few = strings(&["a 'b", "\n'b'", ">=1"]);
    for (i, u) in [" ", "\n", "a", "'a'"].iter().enumerate() {
        let n = if g.q() { 66_000 / u.len() } else { 140_000 / u.len() };
        out.push(Text::default().k(&u.repeat(n)).choice(&few).call(format!("s{}:size-16", i), entries));
    }
    out
}

/// valid texts that are long or deep: (name, text with ¦ where something varies, what stands there)
fn texts(g: &Gen) -> Vec<(String, String, &'static [&'static str])> {
    const E: &[&str] = &["a", "1", "f(x)", "a.b", "(SELECT 1)", "[1, 2]", "CASE WHEN a THEN b END", "'s'", "CAST(a AS INT64)", "-a", "`a`"];
    let mut v: Vec<(String, String, &'static [&'static str])> = vec![];
    for n in if g.q() { &[7usize, 20, 66][..] } else { &[5, 7, 12, 20, 40, 66, 140, 300] } {
        let n = *n;
        let mut t = |name: &str, s: String| v.push((format!("{}:{}", name, n), s, E));
        let list = |e: &str| vec![e; n].join(", ");
        t("select", format!("SELECT {}, ¦, {} FROM t;", list("a"), list("b AS c")));
        t("args", format!("SELECT f({}, ¦), ¦;", list("a + 1")));
        t("array", format!("SELECT [{}, ¦];", list("1")));
        t("struct", format!("SELECT STRUCT({}, ¦ AS b), ({}, ¦);", list("1 AS a"), list("x")));
        t("in", format!("SELECT ¦ IN ({}, ¦);", list("1")));
        t("tables", format!("SELECT 1 FROM {}, u WHERE ¦;", list("t AS a")));
        t("ctes", format!("WITH {}, b AS (SELECT ¦) SELECT ¦;", list("a AS (SELECT 1)")));
        t("values", format!("INSERT t VALUES {}, (¦);", list("(1, 'x')")));
        t("columns", format!("CREATE TABLE t ({}, b STRING DEFAULT (¦)) OPTIONS ({}, d = ¦);", list("a INT64 NOT NULL"), list("c = 1")));
        t("orderby", format!("SELECT 1 ORDER BY {}, ¦ DESC, {};", list("a"), list("b ASC NULLS LAST")));
        t("set", format!("UPDATE t SET {}, b = ¦ WHERE ¦;", list("a = 1")));
        t("plus", format!("SELECT {} ¦ {};", "a + ".repeat(n), "* b".repeat(n)));
        t("and", format!("SELECT {} ¦ {};", "a AND ".repeat(n), "OR b = c".repeat(n).replace("cOR", "c OR")));
        t("dots", format!("SELECT a{} , ¦;", ".b".repeat(n)));
        t("subscripts", format!("SELECT a{}[¦];", "[0]".repeat(n)));
        t("joins", format!("SELECT 1 FROM t {} JOIN u ON ¦;", "LEFT JOIN u USING (a) ".repeat(n)));
        t("unions", format!("SELECT ¦ {} UNION ALL SELECT ¦;", "UNION ALL SELECT 1 ".repeat(n)));
        t("pipes", format!("FROM t {} |> SELECT ¦;", "|> WHERE a ".repeat(n)));
        t("whens", format!("SELECT CASE {} WHEN ¦ THEN ¦ ELSE 1 END;", "WHEN a THEN b ".repeat(n)));
        t("statements", format!("{} SELECT ¦;", "SELECT 1; ".repeat(n)));
        t("block", format!("BEGIN {} SELECT ¦; END;", "SET a = 1; ".repeat(n)));
        t("elseifs", format!("IF a THEN {} ELSEIF ¦ THEN SELECT ¦; END IF;", "ELSEIF b THEN SELECT 1; ".repeat(n)));
        t("mergewhens", format!("MERGE t USING u ON ¦ {} WHEN MATCHED AND ¦ THEN DELETE;", "WHEN NOT MATCHED THEN INSERT ROW ".repeat(n)));
        t("comments", format!("SELECT {} ¦ -- a\n {} ;", "-- c\n".repeat(n), "/* d */ ".repeat(n)));
        t("comments2", format!("{} SELECT {}\n ¦ {} FROM t;{}", "# c\n".repeat(n), "/* d */ ".repeat(n), "-- e\n".repeat(n), " /* f */".repeat(n)));
        t("names", format!("SELECT {0}, `{0}`, @{0}, '{0}', ¦ FROM {0}.{0} AS {0};", "abcdefghi_0".repeat(n)));
        t("wide", format!("SELECT{}¦,{}¦;", " ".repeat(n * 5), " ".repeat(n * 5)));
        t("high", format!("SELECT{}¦,{}¦;", "\n".repeat(n * 5), "\n".repeat(n * 5)));
    }
    for n in if g.q() { &[6usize, 13, 24][..] } else { &[4, 6, 9, 13, 18, 24, 40] } {
        let n = *n;
        let mut t = |name: &str, a: &str, b: &str, mid: &str| {
            v.push((format!("{}:{}", name, n), mid.replace("…", &format!("{}¦{}", a.repeat(n), b.repeat(n))), E));
        };
        t("parens", "(", ")", "SELECT …, 1;");
        t("nestarray", "[", "]", "SELECT …, 1;");
        t("calls", "f(", ", 1)", "SELECT 1, … FROM t;");
        t("minus", "- ", "", "SELECT … + 1;");
        t("nots", "NOT ", "", "SELECT …;");
        t("cases", "CASE WHEN ", " THEN 1 END", "SELECT …;");
        t("subqueries", "(SELECT ", ")", "SELECT …;");
        t("fromsub", "SELECT 1 FROM (", ") AS a", "SELECT 1 FROM (…) AS b;");
        t("casts", "CAST(", " AS STRING)", "SELECT …;");
        t("structs", "STRUCT(", " AS a)", "SELECT …, 2;");
        t("ins", "1 IN (", ")", "SELECT …;");
    }
    for n in if g.q() { &[5usize, 9, 17][..] } else { &[3, 5, 9, 17, 30] } {
        let n = *n;
        let mut t = |name: &str, a: &str, b: &str| {
            v.push((format!("{}:{}", name, n), format!("{}SELECT ¦; {}", a.repeat(n), b.repeat(n)), E));
        };
        t("begins", "BEGIN ", "END; ");
        t("ifs", "IF a THEN ", "END IF; ");
        t("loops", "LOOP ", "END LOOP; ");
        t("elses", "IF a THEN ELSE ", "END IF; ");
        t("casestmts", "CASE WHEN a THEN ", "END CASE; ");
        t("labels", "x: WHILE a DO ", "END WHILE x; ");
        v.push((format!("types:{}", n), format!("SELECT CAST(a AS {}INT64{}), {}INT64{}[], ¦ >> 1;", "ARRAY<STRUCT<x ".repeat(n), ">>".repeat(n), "ARRAY<".repeat(n), ">".repeat(n)), E));
        v.push((format!("coltypes:{}", n), format!("CREATE TABLE t (a {}INT64{} DEFAULT ¦);", "STRUCT<b INT64, c ".repeat(n), ">".repeat(n)), E));
    }
    // fix the one whose inner text is a query
    for (name, text, frags) in v.iter_mut() {
        if name.starts_with("fromsub") {
            *text = text.replace('¦', "SELECT ¦");
        }
        let _ = frags;
    }
    v
}
pub fn trees(g: &Gen, entries: &[Entry]) -> Vec<Arc<Template>> {
    let mut out = vec![];
    for (i, (name, text, frags)) in texts(g).into_iter().enumerate() {
        let frags = strings(frags);
        let mut t = Text::default();
        t.nvals = vec![frags.len()];
        for (k, part) in text.split('¦').enumerate() {
            if k > 0 {
                t.choice_of(0, &frags);
            }
            t = t.k(part);
        }
        out.push(t.call(format!("z{}:size-{}", i, name), entries));
    }
    out
}

/// the same texts with something wrong at one of the places, or cut off there
pub fn broken(g: &Gen, entries: &[Entry]) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let wrong = strings(&["", ")", "]", "a b c", "SELECT", ",", ";", "CASE", "END", "(", "1 +", "NOT", "a )", "FROM", "ARRAY<", "a."]);
    for (i, (name, text, _)) in texts(g).into_iter().enumerate() {
        let parts: Vec<&str> = text.split('¦').collect();
        for at in 1..parts.len() {
            let (head, tail) = (parts[..at].join("a"), parts[at..].join("a"));
            out.push(Text::default().k(&head).choice(&wrong).k(&tail).call(format!("z{}:size-wrong-{}:{}", i, name, at), entries));
            out.push(Text::default().k(&head).choice(&wrong).call(format!("z{}:size-cut-{}:{}", i, name, at), entries));
        }
    }
    out
}

/// places that lie deep or far, for what is parsed the same everywhere
pub fn places(g: &Gen, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in if g.q() { &[4usize, 9, 20][..] } else { &[3, 4, 6, 9, 14, 20, 33] } {
        let n = *n;
        let mut nest = |head: &str, a: &str, b: &str, tail: &str| v.push((format!("{}{}", head, a.repeat(n)), format!("{}{}", b.repeat(n), tail)));
        match prop {
            "P20" => {
                nest("", "BEGIN ", "END; ", "");
                nest("", "IF a THEN ", "END IF; ", "");
                nest("", "IF a THEN ELSE ", "END IF; ", "");
                nest("", "LOOP ", "END LOOP; ", "");
                nest("", "CASE WHEN a THEN ", "END CASE; ", "");
                nest("", "x: FOR r IN (SELECT 1) DO ", "END FOR x; ", "");
                nest("BEGIN ", "SELECT 1; ", "", "END;");
                nest("IF a THEN ", "SET a = 1; ", "SELECT 2; ", "END IF;");
                nest("", "WHILE a DO SELECT 1; ", "END WHILE; ", "");
            }
            "P21" => {
                nest("SELECT ", "(", ")", ";");
                nest("SELECT ", "f(a, ", ", b)", ";");
                nest("SELECT ", "[", "]", ";");
                nest("SELECT ", "CASE WHEN a THEN ", " END", ";");
                nest("SELECT ", "(SELECT ", ")", ";");
                nest("SELECT ", "a AS b, ", "", " FROM t;");
                nest("SELECT f(", "a, ", "", ");");
                nest("SELECT 1 WHERE ", "EXISTS(SELECT 1 FROM t WHERE ", ")", ";");
            }
            "P24" => {
                nest("", "(", ")", ";");
                nest("", "SELECT 1 FROM (", ") AS a", ";");
                nest("", "WITH a AS (", ") SELECT 1", ";");
                nest("", "SELECT ARRAY(", ")", ";");
                nest("", "SELECT 1 FROM t JOIN (", ") USING (a)", ";");
                nest("", "FROM t |> UNION ALL (", ")", ";");
                nest("", "SELECT a IN (", ")", ";");
            }
            "P25" => {
                nest("SELECT CAST(x AS ", "ARRAY<", ">", ");");
                nest("SELECT CAST(x AS ", "STRUCT<a ", ">", ");");
                nest("SELECT CAST(x AS ", "STRUCT<INT64, ", ">", ");");
                nest("DECLARE a ", "ARRAY<STRUCT<b STRING, c ", ", d DATE>>", ";");
                nest("CREATE TABLE t (x ", "STRUCT<y INT64 NOT NULL, z ", ">", ");");
                nest("SELECT CAST(x AS STRUCT<", "a INT64, ", "", ">);");
            }
            _ => (),
        }
    }
    v
}
