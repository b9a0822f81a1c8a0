//! Properties that relate the trees of two or three texts: the same fragment in another
//! place, with another neighbour, with other names in it, with one more link in a chain.
use crate::exec::*;
use crate::gen::*;
use crate::props::{nodes_of, Judge, R};
use crate::refl::Kind;
use crate::val::*;
use std::collections::HashSet;
use std::sync::Arc;

// ---------------------------------------------------------------- fragments in a place

/// tokens of a subtree (comments excluded) as positions
fn spots(n: &Node) -> Vec<(u64, u64)> {
    let mut v = vec![];
    n.walk(&mut |x| {
        if let Some(t) = &x.tok {
            v.push((t.line, t.col));
        }
    });
    v
}
fn after(c: &Child, last: u64) -> bool {
    let s: Vec<(u64, u64)> = match c {
        Child::One(n) => spots(n),
        Child::Many(v) => v.iter().flat_map(spots).collect(),
    };
    !s.is_empty() && s.iter().all(|p| p.0 > last)
}
/// the nodes that consist of exactly the tokens on lines 2..=last, direct children that
/// come wholly after them (a comma, an alias, a semicolon) taken off; outermost first
fn covering(ns: &[Node], last: u64) -> Vec<Node> {
    let total: usize = ns.iter().flat_map(spots).filter(|p| p.0 >= 2 && p.0 <= last).count();
    let mut out = vec![];
    if total == 0 {
        return out;
    }
    for n in ns {
        n.walk(&mut |x| {
            let mut y = x.clone();
            y.ch.retain(|(k, c)| k == "leading_comments" || k == "trailing_comments" || !after(c, last));
            let s = spots(&y);
            if s.len() == total && s.iter().all(|p| p.0 >= 2 && p.0 <= last) {
                out.push(y);
            }
        });
    }
    out
}
/// calls: parse(fragment in its plain place), parse(fragment in another place);
/// the fragment starts at line 2, column 1; the template id ends in "@<its lines>"
pub fn place(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    if m.tmpl.id.contains(":leaf:") {
        return leaf_place(m, outs, j);
    }
    let n: u64 = m.tmpl.id.rsplit('@').next().and_then(|s| s.parse().ok()).expect("place template id");
    let base = match nodes_of(outs, 0) {
        Some(b) => b,
        None => return Ok(()),
    };
    let want = match covering(&base, n + 1).into_iter().next() {
        Some(w) => w,
        None => return Ok(()), // not one unit here
    };
    match &outs[1] {
        ROut::Ok(_) => (),
        ROut::Err(_) => return Err("what is accepted in one place is rejected in another".into()),
        _ => return Ok(()),
    }
    let there = match nodes_of(outs, 1) {
        Some(t) => t,
        None => return Ok(()),
    };
    j.hits += 1;
    let c = covering(&there, n + 1);
    if c.is_empty() {
        return Err("what is one subtree in one place is none in another".into());
    }
    let cmp = Cmp { positions: false, comments: false, nocase: false };
    let mut err = Ok(());
    for x in &c {
        err = same_node(m, &want, x, &cmp, "");
        if err.is_ok() {
            return err;
        }
    }
    err
}

struct Place<'a> {
    name: &'a str,
    base: (&'a str, &'a str),
    ctx: Vec<(String, String)>,
    frags: Vec<String>,
}
fn pairs(v: &[&str]) -> Vec<(String, String)> {
    v.iter()
        .map(|s| {
            let (a, b) = s.split_once('¦').expect("place");
            (a.to_string(), b.to_string())
        })
        .collect()
}
fn lines(s: &str) -> usize {
    s.matches('\n').count() + 1
}
fn put(out: &mut Vec<Arc<Template>>, id: String, base: (&str, &str), ctx: (&str, &str), frag: &Text) {
    let n = frag.b.iter().filter(|b| matches!(b, TB::K(b'\n'))).count() + 1;
    let wrap = |a: &str, b: &str| -> Vec<TB> {
        let mut v: Vec<TB> = a.bytes().map(TB::K).collect();
        v.push(TB::K(b'\n'));
        v.extend(frag.b.iter().cloned());
        v.push(TB::K(b'\n'));
        v.extend(b.bytes().map(TB::K));
        v
    };
    out.push(Arc::new(Template {
        id: format!("{}@{}", id, n),
        nvals: frag.nvals.clone(),
        runs: frag.runs.clone(),
        calls: vec![(Entry::Parse, wrap(base.0, base.1)), (Entry::Parse, wrap(ctx.0, ctx.1))],
    }));
}
impl Place<'_> {
    fn jobs(&self, out: &mut Vec<Arc<Template>>) {
        // all one-line fragments as one choice per place, the others one by one
        let (one, more): (Vec<String>, Vec<String>) = self.frags.iter().cloned().partition(|f| lines(f) == 1);
        for (k, c) in self.ctx.iter().enumerate() {
            for (i, ch) in one.chunks(12).enumerate() {
                put(out, format!("{}{}:frags:{}", self.name, k, i), self.base, (&c.0, &c.1), &Text::default().choice(ch));
            }
            for (i, f) in more.iter().enumerate() {
                put(out, format!("{}{}:frag:{}", self.name, k, i), self.base, (&c.0, &c.1), &Text::default().k(f));
            }
        }
    }
}

pub const EXPR_PLACES: &[&str] = &[
    "SELECT a,¦FROM t;", "SELECT DISTINCT¦;", "(SELECT 1) LIMIT 1 OFFSET¦;", "SELECT 1 ORDER BY a,¦DESC, b;", "SELECT f(a ORDER BY¦DESC NULLS LAST);", "FROM t |> ORDER BY¦ASC, a;", "SELECT ALL¦FROM t;", "SELECT a,¦, b FROM t;", "SELECT¦AS x FROM t;", "SELECT¦x FROM t;", "SELECT¦, FROM t;", "SELECT AS STRUCT¦, 1;",
    "SELECT f(¦);", "SELECT f(1,¦, 2);", "SELECT f(¦, 1);", "SELECT a.f(¦);", "SELECT f(¦ORDER BY b);", "SELECT f(¦LIMIT 1);", "SELECT f(¦IGNORE NULLS);", "SELECT f(¦HAVING MAX b);",
    "SELECT f(DISTINCT¦);", "SELECT f(a ORDER BY¦);", "SELECT f(a ORDER BY b,¦LIMIT 1);", "SELECT f(a LIMIT¦);", "SELECT f(a HAVING MIN¦);",
    "SELECT (¦);", "SELECT (1,¦);", "SELECT (¦, 1);", "SELECT ((¦));", "SELECT [¦];", "SELECT [1,¦, 2];", "SELECT ARRAY[¦];", "SELECT ARRAY<INT64>[¦, 1];",
    "SELECT STRUCT(¦);", "SELECT STRUCT(¦AS x, 1);", "SELECT STRUCT<INT64, STRING>(1,¦);", "SELECT a[¦];", "SELECT a[OFFSET(¦)];", "SELECT a.b[¦].c;",
    "SELECT CASE WHEN¦THEN 1 END;", "SELECT CASE¦WHEN 1 THEN 2 END;", "SELECT CASE x WHEN¦THEN 2 END;", "SELECT CASE WHEN a THEN¦END;", "SELECT CASE WHEN a THEN¦ELSE 1 END;",
    "SELECT CASE WHEN a THEN 1 ELSE¦END;", "SELECT CASE WHEN a THEN 1 WHEN¦THEN 2 END;", "SELECT CASE WHEN a THEN¦WHEN b THEN 2 END;",
    "SELECT a IN (¦);", "SELECT a IN (1,¦, 2);", "SELECT a NOT IN (¦, 1);", "SELECT a IN UNNEST(¦);", "SELECT a LIKE ANY (¦, 'x');", "SELECT IF(¦, 1, 2);", "SELECT IF(a,¦, 2);", "SELECT IF(a, 1,¦);",
    "SELECT CAST(¦AS INT64);", "SELECT SAFE_CAST(¦AS STRING FORMAT 'x');", "SELECT CAST(a AS STRING FORMAT¦);", "SELECT EXTRACT(DAY FROM¦);", "SELECT EXTRACT(DAY FROM¦AT TIME ZONE 'UTC');", "SELECT EXTRACT(DAY FROM a AT TIME ZONE¦);",
    "SELECT * REPLACE (¦AS x);", "SELECT * REPLACE (1 AS y,¦AS x) FROM t;", "SELECT WITH(a AS¦, a);", "SELECT WITH(a AS 1,¦);",
    "SELECT f() OVER (PARTITION BY¦);", "SELECT f() OVER (PARTITION BY a,¦ORDER BY b);", "SELECT f() OVER (ORDER BY¦);", "SELECT f() OVER (w ORDER BY a,¦ROWS 1 PRECEDING);", "SELECT f() OVER (ORDER BY a RANGE BETWEEN¦PRECEDING AND 1 FOLLOWING);",
    "SELECT f() OVER (ORDER BY a ROWS BETWEEN 1 PRECEDING AND¦FOLLOWING);", "SELECT f() OVER (ROWS¦PRECEDING);", "SELECT 1 FROM t WINDOW w AS (PARTITION BY¦);", "SELECT 1 FROM t WINDOW w AS (ORDER BY¦), v AS w;",
    "SELECT (SELECT¦);", "SELECT ARRAY(SELECT¦FROM t);", "SELECT EXISTS(SELECT 1 FROM t WHERE¦);",
    "SELECT 1 FROM t WHERE¦;", "SELECT 1 FROM t WHERE¦GROUP BY 1;", "SELECT 1 FROM t WHERE¦ORDER BY 1;", "SELECT 1 FROM t WHERE¦LIMIT 1;", "SELECT 1 FROM t WHERE¦QUALIFY x;", "SELECT 1 FROM t WHERE¦UNION ALL SELECT 2;", "SELECT 1 FROM t WHERE¦WINDOW w AS (ORDER BY 1);",
    "SELECT 1 FROM t WHERE¦|> LIMIT 1;", "SELECT 1 FROM t GROUP BY¦;", "SELECT 1 FROM t GROUP BY a,¦HAVING b;", "SELECT 1 FROM t GROUP BY¦, a ORDER BY 1;", "SELECT 1 FROM t GROUP BY ROLLUP (¦);", "SELECT 1 FROM t GROUP BY CUBE (a,¦);", "SELECT 1 FROM t GROUP BY GROUPING SETS (¦, (a));",
    "SELECT 1 FROM t GROUP BY a HAVING¦;", "SELECT 1 FROM t GROUP BY a HAVING¦QUALIFY b;", "SELECT 1 FROM t QUALIFY¦;", "SELECT 1 FROM t QUALIFY¦ORDER BY 1;", "SELECT 1 FROM t ORDER BY¦;", "SELECT 1 FROM t ORDER BY a,¦LIMIT 1;", "SELECT 1 FROM t ORDER BY¦, a;", "(SELECT 1) ORDER BY¦;",
    "SELECT 1 FROM t LIMIT¦;", "SELECT 1 FROM t LIMIT¦OFFSET 1;", "SELECT 1 FROM t LIMIT 1 OFFSET¦;", "(SELECT 1) LIMIT¦;",
    "SELECT 1 FROM t JOIN u ON¦;", "SELECT 1 FROM t JOIN u ON¦JOIN v ON b;", "SELECT 1 FROM t LEFT JOIN u ON¦WHERE b;", "SELECT 1 FROM (t JOIN u ON¦);", "SELECT 1 FROM t JOIN u ON¦, v;", "SELECT 1 FROM UNNEST(¦);", "SELECT 1 FROM UNNEST(¦) AS x WITH OFFSET;", "SELECT 1 FROM f(¦);", "SELECT 1 FROM f(1,¦) AS x;",
    "SELECT 1 FROM t FOR SYSTEM_TIME AS OF¦;", "SELECT 1 FROM t FOR SYSTEM_TIME AS OF¦WHERE b;", "SELECT 1 FROM t PIVOT (¦FOR a IN (1));", "SELECT 1 FROM t PIVOT (SUM(a) FOR b IN (¦, 1));", "SELECT 1 FROM t PIVOT (SUM(a) AS x,¦AS y FOR b IN (1));",
    "SELECT 1 FROM t TABLESAMPLE SYSTEM (¦PERCENT);", "SELECT 1 FROM t MATCH_RECOGNIZE (PATTERN (a) DEFINE a AS¦);", "SELECT 1 FROM t MATCH_RECOGNIZE (PARTITION BY¦ORDER BY b MEASURES 1 AS x PATTERN (a));", "SELECT 1 FROM t MATCH_RECOGNIZE (MEASURES¦AS x PATTERN (a));",
    "FROM t |> WHERE¦;", "FROM t |> WHERE¦|> LIMIT 1;", "FROM t |> SELECT¦;", "FROM t |> SELECT a,¦AS b |> LIMIT 1;", "FROM t |> EXTEND¦AS x, 1 AS y;", "FROM t |> AGGREGATE¦;", "FROM t |> AGGREGATE¦AS x GROUP BY a;", "FROM t |> AGGREGATE 1 GROUP BY¦;", "FROM t |> AGGREGATE 1 GROUP BY a,¦AS b;",
    "FROM t |> ORDER BY¦;", "FROM t |> LIMIT¦;", "FROM t |> LIMIT 1 OFFSET¦;", "FROM t |> JOIN u ON¦;", "FROM t |> LEFT JOIN u AS v ON¦|> LIMIT 1;", "FROM t |> CALL f(¦);", "FROM t |> PIVOT (¦FOR a IN (1));",
    "INSERT t VALUES (¦);", "INSERT INTO t (a, b) VALUES (1, 2), (¦, 3);", "DELETE t WHERE¦;", "DELETE FROM t AS a WHERE¦;", "UPDATE t SET a = 1 WHERE¦;", "UPDATE t SET a = 1 FROM u WHERE¦;", "MERGE t USING u ON¦WHEN MATCHED THEN DELETE;", "MERGE t USING u ON a WHEN MATCHED AND¦THEN DELETE;",
    "MERGE t USING u ON a WHEN NOT MATCHED AND¦THEN INSERT ROW;", "MERGE t USING u ON a WHEN NOT MATCHED BY SOURCE AND¦THEN DELETE;", "MERGE t USING u ON a WHEN NOT MATCHED THEN INSERT (b) VALUES (¦);",
    "CREATE TABLE t (a INT64 DEFAULT¦);", "CREATE TABLE t (a INT64 DEFAULT¦, b STRING);", "CREATE TABLE t PARTITION BY¦;", "CREATE TABLE t (a INT64) PARTITION BY¦AS SELECT 1;", "CREATE TABLE t PARTITION BY¦CLUSTER BY b;", "CREATE TABLE t PARTITION BY¦OPTIONS (a = 1);", "CREATE MATERIALIZED VIEW v PARTITION BY¦AS SELECT 1;",
    "CREATE FUNCTION f() AS (¦);", "CREATE FUNCTION f(a INT64) RETURNS INT64 AS (¦);", "CREATE ROW ACCESS POLICY r ON t FILTER USING (¦);", "CREATE SEARCH INDEX i ON t (a) PARTITION BY¦;", "ALTER TABLE t ALTER COLUMN a SET DEFAULT¦;", "CREATE TABLE t CLONE u FOR SYSTEM_TIME AS OF¦;", "CREATE MODEL m TRANSFORM (¦AS a) AS SELECT 1;",
    "DECLARE a DEFAULT¦;", "DECLARE a, b INT64 DEFAULT¦;", "IF¦THEN END IF;", "IF a THEN SELECT 1; ELSEIF¦THEN SELECT 2; END IF;", "WHILE¦DO SELECT 1; END WHILE;", "REPEAT SELECT 1; UNTIL¦END REPEAT;", "CASE¦WHEN 1 THEN SELECT 1; END CASE;", "CASE WHEN¦THEN SELECT 1; END CASE;", "CASE a WHEN¦THEN SELECT 1; END CASE;", "CASE WHEN a THEN SELECT 1; WHEN¦THEN END CASE;",
    "CALL p(¦);", "CALL p.q(1,¦);", "EXECUTE IMMEDIATE¦;", "EXECUTE IMMEDIATE¦INTO a;", "EXECUTE IMMEDIATE¦USING 1;", "EXECUTE IMMEDIATE 'x' USING¦;", "EXECUTE IMMEDIATE 'x' USING 1 AS a,¦AS b;", "ASSERT¦;", "ASSERT¦AS 'x';",
    "BEGIN SELECT¦; END;", "BEGIN SELECT 1 FROM t WHERE¦; END;", "WITH a AS (SELECT¦) SELECT 1;", "CREATE VIEW v AS SELECT¦;", "FOR r IN (SELECT¦) DO SELECT 1; END FOR;", "SELECT 1 UNION ALL SELECT¦;", "SELECT 1 FROM (SELECT¦) AS x;",
];
pub const EXPRS: &[&str] = &[
    "a", "`a`", "1", "1.5", "'s'", "\"s\"", "r'x'", "@p", "@@p.q", "?", "{{t}}", "TRUE", "NULL", "a.b", "a.b.c", "a[0]", "a[OFFSET(0)].b", "(a)", "(a, b)", "[1, 2]", "[]", "-a", "+1", "~a", "NOT a", "NOT NOT a",
    "a + b", "a - b", "a * b", "a / b", "a || b", "a << b", "a >> b", "a & b", "a ^ b", "a | b", "a = b", "a < b", "a > b", "a <= b", "a >= b", "a != b", "a <> b", "a AND b", "a OR b", "a + b * c", "a * b + c", "a = b AND c OR d",
    "NOT a AND b", "-a + -b", "a LIKE b", "a NOT LIKE b", "a LIKE ANY (b, c)", "a IS NULL", "a IS NOT NULL", "a IS TRUE", "a IS DISTINCT FROM b", "a IS NOT DISTINCT FROM b", "a IN (1)", "a NOT IN (1, 2)", "a IN UNNEST(b)", "a IN (SELECT 1)",
    "a BETWEEN 1 AND 2", "a NOT BETWEEN b AND c AND d", "f()", "f(a, 1)", "a.f(b).c", "f(DISTINCT a)", "f(a ORDER BY b LIMIT 1)", "f(a => 1)", "COUNT(*)", "f(a) OVER w", "f(a) OVER (PARTITION BY b ORDER BY c)", "f(a IGNORE NULLS) OVER () + 1",
    "CASE WHEN a THEN b END", "CASE a WHEN 1 THEN 2 ELSE 3 END", "CASE WHEN a THEN 1 WHEN b THEN 2 ELSE CASE c WHEN d THEN e END END", "IF(a, b, c)", "CAST(a AS INT64)", "SAFE_CAST(a AS ARRAY<STRUCT<x INT64>>)", "CAST(a AS STRING FORMAT 'x')",
    "EXTRACT(DAY FROM a)", "EXTRACT(DAY FROM a AT TIME ZONE 'b')", "DATE '2020-01-01'", "TIMESTAMP \"x\"", "JSON '{}'", "INTERVAL 1 DAY", "INTERVAL '1-2' YEAR TO MONTH", "a + INTERVAL 1 DAY", "DATE_ADD(a, INTERVAL 1 DAY)", "RANGE<DATE> '[a, b)'",
    "STRUCT(1 AS a, b)", "STRUCT<INT64>(1)", "STRUCT<a ARRAY<INT64>>([1]).a", "ARRAY[1]", "ARRAY<INT64>[1, 2]", "ARRAY<STRUCT<INT64, x STRING>>[(1, 'a')]", "ARRAY(SELECT 1)", "EXISTS(SELECT 1)", "NOT EXISTS (SELECT 1 FROM t)", "(SELECT 1)", "(SELECT a FROM b WHERE c)",
    "(SELECT 1 UNION ALL SELECT 2)", "((a + b) * c)", "(a) IN ((1), (2))", "a.b IN (SELECT c FROM d) AND NOT e", "WITH(x AS 1, x + 1)", "date", "offset", "a >> b > c", "(SELECT AS STRUCT 1 AS a).a", "-(a)", "a[b + c].d[0]", "a IS NULL = b",
];

fn exprs_place() -> Place<'static> {
    Place { name: "e", base: ("SELECT", ";"), ctx: pairs(EXPR_PLACES), frags: strings(EXPRS) }
}

pub fn expr_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let mut p = exprs_place();
    p.ctx.extend(crate::size::places(g, "P21"));
    p.jobs(&mut out);
    let bin = strings(&["*", "||", "-", "<<", "&", "^", "|", "=", ">=", "NOT LIKE", "IS NOT", "AND", "OR", "IS DISTINCT FROM", "BETWEEN 1 AND", "NOT BETWEEN x AND", "IN (1) AND"]);
    for (k, c) in p.ctx.iter().enumerate() {
        // any name, number or other short text as the whole expression or an operand of it
        put(&mut out, format!("e{}:name", k), p.base, (&c.0, &c.1), &Text::default().word(4).k("9"));
        put(&mut out, format!("e{}:ops", k), p.base, (&c.0, &c.1), &Text::default().k("a ").choice(&bin).k(" b ").choice(&bin).k(" c"));
        if !g.q() {
            put(&mut out, format!("e{}:call", k), p.base, (&c.0, &c.1), &Text::default().word(3).k("9(").choice(&strings(EXPRS)).k(")"));
        }
    }
    for (id, e) in corpus_exprs(g) {
        choose(&mut out, &format!("{}:place", id), p.base, &p.ctx, &e, 16);
    }
    out.extend(leaf_jobs(g, "P21"));
    out
}

pub const QUERY_PLACES: &[&str] = &[
    "(¦);", "((¦));", "SELECT (¦);", "SELECT 1, (¦) AS x FROM t;", "SELECT (¦) + 1;", "SELECT EXISTS(¦);", "SELECT ARRAY(¦);", "SELECT a IN (¦);", "SELECT a NOT IN (¦) AND b;", "SELECT f((¦), 1);",
    "SELECT 1 FROM (¦);", "SELECT 1 FROM (¦) AS x;", "SELECT 1 FROM (¦) x WHERE a;", "SELECT 1 FROM t JOIN (¦) USING (a);", "SELECT 1 FROM t, (¦) AS u;", "SELECT 1 FROM f((¦));", "SELECT 1 FROM t WHERE EXISTS (¦);", "SELECT 1 FROM t WHERE a = (¦);",
    "WITH a AS (¦) SELECT 1;", "WITH a AS (SELECT 1), b AS (¦) SELECT 2;", "WITH RECURSIVE a AS (¦), b AS (SELECT 1) SELECT 2;", "SELECT 1 UNION ALL (¦);", "(¦) UNION ALL SELECT 1;", "(¦) INTERSECT DISTINCT (SELECT 1);", "(¦) ORDER BY 1;", "(¦) |> LIMIT 1;",
    "CREATE TABLE t AS¦;", "CREATE OR REPLACE TEMP TABLE t (a INT64) PARTITION BY b OPTIONS (c = 1) AS¦;", "CREATE VIEW v AS¦;", "CREATE VIEW v (a) OPTIONS (b = 1) AS¦;", "CREATE MATERIALIZED VIEW v AS¦;", "CREATE TABLE FUNCTION f(a INT64) AS¦;", "CREATE MODEL m OPTIONS (a = 1) AS¦;",
    "CREATE MODEL m AS (training_data AS (¦), custom_holiday AS (SELECT 1));", "INSERT INTO t¦;", "INSERT t (a, b)¦;", "EXPORT DATA OPTIONS (a = 1) AS¦;", "EXPORT DATA WITH CONNECTION c OPTIONS (a = 1) AS¦;",
    "FOR r IN (¦) DO SELECT 1; END FOR;", "MERGE t USING (¦) AS s ON a WHEN MATCHED THEN DELETE;", "FROM t |> JOIN (¦) USING (a);", "FROM t |> UNION ALL (¦);", "FROM t |> UNION ALL (SELECT 1), (¦);", "FROM t |> WITH a AS (¦) |> LIMIT 1;", "SELECT 1 FROM (FROM t |> JOIN (¦) ON a);",
    "DECLARE a DEFAULT (¦);", "IF EXISTS (¦) THEN SELECT 1; END IF;", "BEGIN¦; END;", "BEGIN SELECT 1;¦; SELECT 2; END;", "IF a THEN¦; END IF;", "LOOP¦; END LOOP;", "CALL p((¦));", "CREATE FUNCTION f() AS ((¦));", "INSERT t VALUES (1, (¦));", "UPDATE t SET a = 1 WHERE b IN (¦);", "SELECT CASE WHEN a THEN (¦) END;", "ASSERT EXISTS(¦) AS 'x';",
];
pub const QUERIES: &[&str] = &[
    "SELECT 1", "SELECT a, b FROM t", "SELECT DISTINCT a AS b, c d, FROM t AS u WHERE x", "SELECT AS STRUCT 1 AS a, 2 AS b", "SELECT * EXCEPT (a) FROM t GROUP BY 1 HAVING x QUALIFY y", "SELECT a FROM t WHERE b GROUP BY ALL ORDER BY a DESC LIMIT 1 OFFSET 2",
    "SELECT a FROM t JOIN u USING (x) LEFT JOIN v ON y, w", "SELECT a FROM t WINDOW w AS (PARTITION BY b)", "SELECT 1 UNION ALL SELECT 2", "SELECT 1 UNION ALL SELECT 2 UNION DISTINCT SELECT 3", "SELECT 1 INTERSECT DISTINCT (SELECT 2)", "(SELECT 1) EXCEPT DISTINCT SELECT 2",
    "(SELECT 1) UNION ALL (SELECT 2)", "WITH a AS (SELECT 1) SELECT * FROM a", "WITH a AS (SELECT 1), b AS (SELECT 2) SELECT 3 UNION ALL SELECT 4", "FROM t", "FROM t |> WHERE a |> SELECT b", "SELECT 1 |> LIMIT 1", "FROM t JOIN u ON a |> AGGREGATE COUNT(*) GROUP BY b",
    "WITH a AS (SELECT 1) FROM a |> SELECT b", "SELECT (SELECT 1), ARRAY(SELECT 2)", "SELECT a FROM (SELECT b FROM c) AS d", "SELECT 1 FULL OUTER UNION ALL BY NAME SELECT 2", "SELECT a FROM t PIVOT (SUM(a) FOR b IN (1))", "SELECT a FROM t AS u TABLESAMPLE SYSTEM (1 PERCENT)",
    "SELECT a FROM UNNEST([1]) AS b WITH OFFSET AS c", "SELECT 1 ORDER BY 1", "SELECT 1 LIMIT 1", "SELECT ARRAY<STRUCT<a INT64>>[], 1 >> 2", "SELECT a FROM p-1.d.t",
];
pub fn query_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let p = Place { name: "q", base: ("", ";"), ctx: pairs(QUERY_PLACES).into_iter().chain(crate::size::places(g, "P24")).collect(), frags: strings(QUERIES) };
    p.jobs(&mut out);
    for (k, c) in p.ctx.iter().enumerate() {
        put(&mut out, format!("q{}:names", k), p.base, (&c.0, &c.1), &Text::default().k("SELECT ").word(2).k("9 FROM ").word(2).k("9"));
        put(
            &mut out,
            format!("q{}:set", k),
            p.base,
            (&c.0, &c.1),
            &Text::default().k("SELECT 1 ").choice(&strings(&["UNION ALL", "UNION DISTINCT", "INTERSECT DISTINCT", "EXCEPT DISTINCT", "INNER UNION ALL BY NAME", "LEFT OUTER UNION ALL CORRESPONDING"])).k(" SELECT a ").choice(&strings(&["", "FROM t", "WHERE x", "LIMIT 1", "FROM t, u"])),
        );
    }
    for (id, q) in corpus_queries(g) {
        choose(&mut out, &format!("{}:place", id), p.base, &p.ctx, &q, 12);
    }
    out.extend(leaf_jobs(g, "P24"));
    out
}

pub const TYPE_PLACES: &[&str] = &[
    "SELECT SAFE_CAST(x AS¦);", "SELECT CAST(x AS¦FORMAT 'y');", "SELECT CAST(x AS ARRAY<¦>);", "SELECT CAST(x AS STRUCT<¦>);", "SELECT CAST(x AS STRUCT<INT64,¦>);", "SELECT ARRAY<¦>[1];", "SELECT STRUCT<¦>(1);", "SELECT STRUCT<¦, INT64>(1, 2);", "SELECT ARRAY<STRUCT<¦>>[];",
    "DECLARE a¦;", "DECLARE a, b¦DEFAULT 1;", "CREATE FUNCTION f(a INT64) RETURNS¦AS (a);", "CREATE FUNCTION f() RETURNS¦LANGUAGE js AS 'x';", "CREATE FUNCTION f() RETURNS¦REMOTE WITH CONNECTION a OPTIONS (b = 1);", "ALTER TABLE t ALTER COLUMN a SET DATA TYPE¦;", "CREATE AGGREGATE FUNCTION f(a INT64) RETURNS¦AS (SUM(a));",
];
pub const FIELD_PLACES: &[&str] = &[
    "CREATE TABLE t (a INT64,¦);", "CREATE TABLE t (¦, b INT64);", "CREATE TABLE t (¦) AS SELECT 1;", "CREATE TABLE t (¦) PARTITION BY x;", "CREATE EXTERNAL TABLE t (¦) OPTIONS (a = 1);", "CREATE EXTERNAL TABLE t WITH PARTITION COLUMNS (¦) OPTIONS (a = 1);", "CREATE TABLE t (x STRUCT<¦>);", "CREATE TABLE t (x ARRAY<STRUCT<¦, y INT64>>);",
    "LOAD DATA INTO t (¦) FROM FILES (a = 1);", "SELECT STRUCT<¦>(1);", "SELECT CAST(x AS STRUCT<INT64,¦>);", "SELECT ARRAY<STRUCT<¦>>[];", "DECLARE x STRUCT<¦>;", "DECLARE x ARRAY<STRUCT<¦>> DEFAULT [];", "CREATE FUNCTION f(¦) AS (1);", "CREATE FUNCTION f(a INT64,¦) RETURNS INT64 AS (1);", "CREATE FUNCTION f() RETURNS STRUCT<¦> AS (1);",
    "CREATE TABLE FUNCTION f(¦) AS SELECT 1;", "CREATE TABLE FUNCTION f(a TABLE<¦>) RETURNS TABLE<b INT64> AS SELECT 1;", "CREATE TABLE FUNCTION f() RETURNS TABLE<¦> AS SELECT 1;", "CREATE PROCEDURE p(a INT64,¦) BEGIN SELECT 1; END;", "CREATE MODEL m INPUT (¦) OUTPUT (x INT64) REMOTE WITH CONNECTION c;", "CREATE MODEL m INPUT (x INT64) OUTPUT (y STRING,¦) REMOTE WITH CONNECTION c;",
];
const TYPES: &[&str] = &[
    "INT64", "STRING", "int64", "STRING(10)", "NUMERIC(5, 2)", "BYTES(5)", "ARRAY<INT64>", "STRUCT<INT64>", "STRUCT<a INT64, b STRING>", "ARRAY<STRUCT<a INT64, ARRAY<STRING>>>", "STRUCT<a ARRAY<STRUCT<b DATE>>>", "RANGE<DATE>", "DATE", "JSON", "a9", "STRUCT<>",
];
pub fn type_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let p = Place { name: "t", base: ("SELECT CAST(x AS", ");"), ctx: pairs(TYPE_PLACES).into_iter().chain(crate::size::places(g, "P25")).collect(), frags: strings(TYPES) };
    p.jobs(&mut out);
    for (k, c) in p.ctx.iter().enumerate() {
        put(&mut out, format!("t{}:name", k), p.base, (&c.0, &c.1), &Text::default().word(4).k("9"));
        put(&mut out, format!("t{}:nested", k), p.base, (&c.0, &c.1), &Text::default().k("ARRAY<STRUCT<").word(2).k("9 ").choice(&strings(TYPES)).k(", ").choice(&strings(TYPES)).k(">>"));
    }
    let f = Place { name: "f", base: ("CREATE TABLE t (", ");"), ctx: pairs(FIELD_PLACES), frags: TYPES.iter().map(|t| format!("x {}", t)).collect() };
    f.jobs(&mut out);
    for (k, c) in f.ctx.iter().enumerate() {
        put(&mut out, format!("f{}:name", k), f.base, (&c.0, &c.1), &Text::default().word(3).k("9 ").word(3).k("9"));
    }
    out.extend(leaf_jobs(g, "P25"));
    out
}

pub const TABLE_PLACES: &[&str] = &[
    "SELECT 1 FROM¦AS x;", "SELECT 1 FROM t,¦;", "SELECT 1 FROM t JOIN¦ON a;", "SELECT 1 FROM¦JOIN t USING (a);", "SELECT 1 FROM (¦);", "SELECT 1 FROM (¦JOIN t ON a);", "SELECT 1 FROM¦WHERE a;", "SELECT 1 FROM¦PIVOT (SUM(a) FOR b IN (1));", "SELECT 1 FROM¦TABLESAMPLE SYSTEM (1 PERCENT);", "SELECT 1 FROM¦FOR SYSTEM_TIME AS OF a;", "SELECT 1 FROM f(TABLE¦);", "SELECT 1 FROM f(MODEL¦, 1);",
    "FROM¦;", "FROM¦|> LIMIT 1;", "FROM t |> JOIN¦ON a;", "FROM t |> CROSS JOIN¦;", "FROM t |> LEFT JOIN¦AS x USING (a);",
    "INSERT INTO¦VALUES (1);", "INSERT¦SELECT 1;", "INSERT INTO¦(a) VALUES (1);", "DELETE FROM¦WHERE a;", "DELETE¦WHERE a;", "DELETE¦AS x WHERE a;", "UPDATE¦SET a = 1 WHERE b;", "UPDATE¦AS x SET a = 1 WHERE b;", "UPDATE t SET a = 1 FROM¦WHERE b;", "TRUNCATE TABLE¦;", "MERGE INTO¦USING t ON a WHEN MATCHED THEN DELETE;", "MERGE¦AS x USING t ON a WHEN MATCHED THEN DELETE;", "MERGE t USING¦ON a WHEN MATCHED THEN DELETE;", "MERGE t USING¦AS x ON a WHEN MATCHED THEN DELETE;",
    "CREATE TABLE¦(a INT64);", "CREATE OR REPLACE TABLE IF NOT EXISTS¦AS SELECT 1;", "CREATE TABLE t LIKE¦;", "CREATE TABLE t COPY¦;", "CREATE TABLE t CLONE¦;", "CREATE SNAPSHOT TABLE¦CLONE t;", "CREATE EXTERNAL TABLE¦OPTIONS (a = 1);", "CREATE VIEW¦AS SELECT 1;", "CREATE MATERIALIZED VIEW IF NOT EXISTS¦AS SELECT 1;", "CREATE MATERIALIZED VIEW v AS REPLICA OF¦;", "CREATE FUNCTION¦() AS (1);", "CREATE TABLE FUNCTION¦() AS SELECT 1;", "CREATE PROCEDURE¦() BEGIN END;", "CREATE MODEL¦AS SELECT 1;", "CREATE SCHEMA¦;", "CREATE ROW ACCESS POLICY r ON¦FILTER USING (a);", "CREATE SEARCH INDEX i ON¦(a);", "CREATE VECTOR INDEX i ON¦(a);",
    "ALTER TABLE¦SET OPTIONS (a = 1);", "ALTER TABLE IF EXISTS¦ADD COLUMN a INT64;", "ALTER TABLE t RENAME TO¦;", "ALTER VIEW¦SET OPTIONS (a = 1);", "ALTER MATERIALIZED VIEW¦SET OPTIONS (a = 1);", "ALTER SCHEMA¦SET OPTIONS (a = 1);", "ALTER MODEL¦SET OPTIONS (a = 1);", "ALTER TABLE¦ALTER COLUMN a DROP NOT NULL;", "ALTER VECTOR INDEX i ON¦REBUILD;", "DROP TABLE¦;", "DROP TABLE IF EXISTS¦;", "DROP VIEW¦;", "DROP FUNCTION¦;", "DROP SCHEMA¦CASCADE;", "DROP ROW ACCESS POLICY r ON¦;", "DROP ALL ROW ACCESS POLICIES ON¦;", "DROP SEARCH INDEX i ON¦;", "UNDROP SCHEMA¦;", "GRANT `r` ON TABLE¦TO 'a';", "REVOKE `r` ON SCHEMA¦FROM 'a';",
    "LOAD DATA INTO¦FROM FILES (a = 1);", "EXPORT MODEL¦OPTIONS (a = 1);", "CALL¦();", "CREATE TABLE t (a INT64 REFERENCES¦(b) NOT ENFORCED);", "CREATE TABLE t (FOREIGN KEY (a) REFERENCES¦(b) NOT ENFORCED);",
];
const NAMES: &[&str] = &["t", "`t`", "d.t", "p.d.t", "`p.d.t`", "`p`.d.`t`", "p-1.d.t", "my-project.d.t", "a-b-c.d.t", "p-1.`d`.t", "p.d.date", "region-us.INFORMATION_SCHEMA.TABLES", "d.t_2020", "d.`t-1`", "p-1.d-2.t-3", "p . d . t", "a.b.c.d"];
pub fn table_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let p = Place { name: "n", base: ("SELECT 1 FROM", ";"), ctx: pairs(TABLE_PLACES), frags: strings(NAMES) };
    p.jobs(&mut out);
    for (k, c) in p.ctx.iter().enumerate() {
        put(&mut out, format!("n{}:name", k), p.base, (&c.0, &c.1), &Text::default().word(3).k("9.").word(3).k("9"));
        put(&mut out, format!("n{}:dash", k), p.base, (&c.0, &c.1), &Text::default().word(2).k("9-").set(b"abz019").word(1).k("9.d.t"));
    }
    out.extend(leaf_jobs(g, "P27"));
    out
}

// ---------------------------------------------------------------- statements in blocks
pub const BLOCKS: &[&str] = &[
    "BEGIN¦END;", "BEGIN SELECT 1;¦SELECT 2; END;", "BEGIN¦EXCEPTION WHEN ERROR THEN SELECT 1; END;", "BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN¦END;", "IF a THEN¦END IF;", "IF a THEN¦ELSE SELECT 1; END IF;", "IF a THEN¦ELSEIF b THEN END IF;", "IF a THEN ELSE¦END IF;", "IF a THEN ELSEIF b THEN¦ELSE END IF;",
    "LOOP¦END LOOP;", "LOOP SELECT 1;¦BREAK; END LOOP;", "WHILE a DO¦END WHILE;", "REPEAT¦UNTIL a END REPEAT;", "FOR r IN (SELECT 1) DO¦END FOR;", "CASE WHEN a THEN¦END CASE;", "CASE a WHEN 1 THEN¦WHEN 2 THEN SELECT 1; END CASE;", "CASE WHEN a THEN SELECT 1; ELSE¦END CASE;",
    "CREATE PROCEDURE p() BEGIN¦END;", "x: LOOP¦END LOOP x;", "x: BEGIN¦END x;", "BEGIN BEGIN¦END; END;", "IF a THEN LOOP¦END LOOP; END IF;", "CREATE OR REPLACE PROCEDURE p(OUT a INT64) OPTIONS (b = 1) BEGIN SELECT 1;¦END;", "WHILE a DO IF b THEN¦END IF; END WHILE;", "SELECT 1;¦SELECT 2;",
];
/// one fragment, the place a symbolic choice
fn choose(out: &mut Vec<Arc<Template>>, id: &str, base: (&str, &str), ctx: &[(String, String)], frag: &str, per: usize) {
    for (i, ch) in ctx.chunks(per).enumerate() {
        // one variable for what comes before and after
        let pre: Vec<String> = ch.iter().map(|c| c.0.clone()).collect();
        let post: Vec<String> = ch.iter().map(|c| c.1.clone()).collect();
        let mut t = Text::default().choice(&pre).k("\n").k(frag).k("\n");
        t.choice_of(0, &post);
        out.push(Arc::new(Template {
            id: format!("{}:{}@{}", id, i, lines(frag)),
            nvals: t.nvals.clone(),
            runs: vec![],
            calls: vec![(Entry::Parse, format!("{}\n{}\n{}", base.0, frag, base.1).bytes().map(TB::K).collect()), (Entry::Parse, t.b)],
        }));
    }
}
pub fn blocks() -> Vec<(String, String)> {
    pairs(BLOCKS)
}
pub fn block_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let ctx = pairs(BLOCKS);
    let deep = crate::size::places(g, "P20");
    for s in g.ok.iter().filter(|s| !s.toks.is_empty() && !s.comments) {
        choose(&mut out, &format!("{}:block", s.id), ("", ""), &ctx, &s.plain(), if g.q() { 9 } else { 5 });
        let n = s.text.len() % 3;
        if g.q() {
            // a third of the deep places for each
            choose(&mut out, &format!("{}:deep", s.id), ("", ""), &deep[n * deep.len() / 3..(n + 1) * deep.len() / 3], &s.plain(), 9);
        } else {
            choose(&mut out, &format!("{}:deep", s.id), ("", ""), &deep, &s.plain(), 9);
        }
    }
    out
}
/// the queries among the corpus statements
fn corpus_queries(g: &Gen) -> Vec<(String, String)> {
    let mut v = vec![];
    for s in g.ok.iter().filter(|s| !s.toks.is_empty() && !s.comments) {
        let p = s.plain();
        let p = p.strip_suffix(';').unwrap();
        let inner = s.toks.len() - (s.tok(s.toks.len() - 1) == ";") as usize;
        if ["SELECT", "WITH", "FROM", "("].contains(&s.tok(0).to_uppercase().as_str()) && (0..inner).all(|i| s.tok(i) != ";") && !p.starts_with("((") {
            v.push((s.id.clone(), p.to_string()));
        }
    }
    v
}
/// the expressions in the SELECT lists of the corpus statements
fn corpus_exprs(g: &Gen) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut seen = HashSet::new();
    for s in g.ok.iter().filter(|s| s.toks.len() > 1 && !s.comments && s.tok(0).eq_ignore_ascii_case("SELECT")) {
        let (mut depth, mut from, mut angle) = (0i32, 1, 0i32);
        for i in 1..=s.toks.len() {
            let t = if i < s.toks.len() { s.tok(i).to_uppercase() } else { ";".into() };
            if t == "<" && ["ARRAY", "STRUCT", "RANGE"].contains(&s.tok(i - 1).to_uppercase().as_str()) {
                angle += 1;
            } else if t == ">" && angle > 0 {
                angle -= 1;
            }
            let stop = depth == 0 && ["FROM", "WHERE", "GROUP", "ORDER", "LIMIT", "HAVING", "QUALIFY", "WINDOW", "UNION", "INTERSECT", "EXCEPT", ";", "|>", "FULL", "LEFT", "INNER", "OUTER"].contains(&t.as_str());
            if depth == 0 && angle == 0 && (t == "," || stop) {
                let item: Vec<&str> = (from..i).map(|k| s.tok(k)).collect();
                let class = |k: usize| s.class(k as i64);
                let n = item.len();
                let alias = n > 1 && class(i - 1) == "a" && (["a", "1", "'", ")", "]", "END", "@", "NULL", "TRUE", "FALSE", "{", "*"].contains(&class(i - 2).as_str()));
                let odd = ["DISTINCT", "ALL", "AS", "WITH"];
                if n > 0 && !alias && !item.iter().any(|w| *w == "*") && !odd.contains(&item[0].to_uppercase().as_str()) && s.toks[i - 1].b <= s.text.len() {
                    let mut d = 0;
                    let mut has_as = false;
                    for w in &item {
                        match *w {
                            "(" | "[" => d += 1,
                            ")" | "]" => d -= 1,
                            _ => (),
                        }
                        has_as |= d == 0 && w.eq_ignore_ascii_case("AS");
                    }
                    let text: String = s.text[s.toks[from].a..s.toks[i - 1].b].split_whitespace().collect::<Vec<_>>().join(" ");
                    if !has_as && !text.ends_with('.') && !["TABLE", "MODEL"].contains(&text.to_uppercase().as_str()) && seen.insert(text.clone()) {
                        v.push((format!("{}.{}", s.id, from), text));
                    }
                }
                from = i + 1;
            }
            if stop {
                break;
            }
            match t.as_str() {
                "(" | "[" => depth += 1,
                ")" | "]" => depth -= 1,
                _ => (),
            }
        }
    }
    v
}

// ---------------------------------------------------------------- elements of lists
/// what comes before the list, after it, the separator, plain elements, elements under test
const LISTS: &[(&str, &str, &str, &str, &[&str])] = &[
    ("SELECT", "FROM t;", ",", "x", &["a", "a AS b", "a b", "t.*", "a.b", "f(x)", "a + b", "(SELECT 1)", "STRUCT(1 AS a)", "* EXCEPT (a)", "CASE WHEN a THEN b END c", "NOT a", "[1]", "'s'"]),
    ("SELECT f(", ");", ",", "x", &["a", "a + b", "(SELECT 1)", "g(1, 2)", "a => 1", "[1]", "NOT a", "CASE WHEN a THEN b END", "INTERVAL 1 DAY", "'s'", "a.b[0]"]),
    ("SELECT [", "];", ",", "x", &["a", "a + b", "(SELECT 1)", "g(1, 2)", "[1]", "NOT a", "STRUCT(1)", "(1, 2)"]),
    ("SELECT STRUCT(", ");", ",", "x", &["a", "a AS b", "a b", "1 + 2 AS c", "(SELECT 1) AS d", "[1]"]),
    ("SELECT a IN (", ");", ",", "x", &["b", "b + c", "(1)", "'s'", "f(b)", "-1", "@p"]),
    ("SELECT 1 FROM t GROUP BY", ";", ",", "x", &["a", "1", "a + b", "f(a)", "a.b", "(a, b)"]),
    ("SELECT 1 FROM t ORDER BY", "LIMIT 1;", ",", "x", &["a", "a DESC", "a ASC NULLS LAST", "f(a) DESC", "1", "a.b NULLS FIRST"]),
    ("SELECT f() OVER (PARTITION BY", "ORDER BY z);", ",", "x", &["a", "a + b", "f(a)", "a.b"]),
    ("CREATE TABLE t (", ");", ",", "x INT64", &["a INT64", "a STRING NOT NULL", "a ARRAY<STRUCT<b INT64>> OPTIONS (c = 1)", "a STRING DEFAULT 'x'", "PRIMARY KEY (a) NOT ENFORCED", "a STRUCT<b INT64, c STRING>", "a NUMERIC(1, 2)", "CONSTRAINT c FOREIGN KEY (a) REFERENCES u (b)"]),
    ("INSERT t VALUES", ";", ",", "(x)", &["(a)", "(1, 2)", "(DEFAULT, 'x')", "((SELECT 1), [1])"]),
    ("INSERT t (", ") VALUES (1);", ",", "x", &["a", "`a`"]),
    ("CREATE TABLE t OPTIONS (", ");", ",", "x = 1", &["a = 'b'", "a = [1, 2]", "a = TRUE", "a = NULL", "a = f(1)", "a = 1 + 2"]),
    ("UPDATE t SET", "WHERE z;", ",", "x = 1", &["a = 1", "a.b = c", "a = DEFAULT", "a = (SELECT 1)", "a = f(b)"]),
    ("WITH", "SELECT 1;", ",", "x AS (SELECT 2)", &["a AS (SELECT 1)", "a AS (SELECT b FROM c WHERE d)", "a AS (FROM t |> LIMIT 1)", "a AS ((SELECT 1) UNION ALL SELECT 2)"]),
    ("SELECT 1 FROM t WINDOW", ";", ",", "x AS y", &["a AS (PARTITION BY b)", "a AS b", "a AS (b ORDER BY c ROWS 1 PRECEDING)", "a AS ()"]),
    ("CREATE FUNCTION f(", ") AS (1);", ",", "x INT64", &["a INT64", "a ANY TYPE", "a ARRAY<INT64>", "a STRUCT<b INT64, c STRING>"]),
    ("CREATE PROCEDURE p(", ") BEGIN END;", ",", "x INT64", &["a INT64", "IN a INT64", "OUT a ARRAY<INT64>", "INOUT a STRUCT<b INT64>"]),
    ("SELECT CAST(x AS STRUCT<", ">);", ",", "x INT64", &["a INT64", "STRING", "ARRAY<INT64>", "a STRUCT<b INT64>", "a NUMERIC(1, 2)"]),
    ("DECLARE", "INT64;", ",", "x", &["a", "`a`"]),
    ("SELECT * EXCEPT (", ");", ",", "x", &["a", "`a`"]),
    ("SELECT * REPLACE (", ") FROM t;", ",", "1 AS x", &["a AS b", "a + 1 AS b", "f(a) AS b"]),
    ("SELECT 1 FROM t JOIN u USING (", ");", ",", "x", &["a", "`a`"]),
    ("MERGE t USING u ON z", ";", "", "WHEN MATCHED THEN DELETE", &["WHEN MATCHED THEN DELETE", "WHEN NOT MATCHED THEN INSERT ROW", "WHEN MATCHED AND a THEN UPDATE SET b = 1, c = 2", "WHEN NOT MATCHED BY SOURCE THEN DELETE", "WHEN NOT MATCHED BY TARGET AND a THEN INSERT (b) VALUES (1)"]),
    ("SELECT CASE", "END;", "", "WHEN x THEN 1", &["WHEN a THEN b", "WHEN a = 1 AND b THEN c + 1", "WHEN (SELECT 1) THEN CASE WHEN a THEN b END"]),
    ("IF z THEN", "END IF;", "", "ELSEIF x THEN SELECT 1;", &["ELSEIF a THEN", "ELSEIF a THEN SELECT 1;", "ELSEIF a = b THEN SELECT 1; SET c = 2;"]),
    ("CASE z", "END CASE;", "", "WHEN x THEN SELECT 1;", &["WHEN a THEN SELECT 1;", "WHEN 1 THEN SELECT 1; SET c = 2;"]),
    ("ALTER TABLE t", ";", ",", "ADD COLUMN x INT64", &["ADD COLUMN a INT64", "ADD COLUMN IF NOT EXISTS a STRUCT<b INT64> OPTIONS (c = 1)"]),
    ("ALTER TABLE t", ";", ",", "DROP COLUMN x", &["DROP COLUMN a", "DROP COLUMN IF EXISTS a"]),
    ("ALTER TABLE t", ";", ",", "RENAME COLUMN x TO y", &["RENAME COLUMN a TO b", "RENAME COLUMN IF EXISTS a TO b"]),
    ("GRANT", "ON TABLE t TO 'a';", ",", "`x`", &["`a`", "`roles/a.b`"]),
    ("GRANT `r` ON TABLE t TO", ";", ",", "'x'", &["'a'", "\"b\""]),
    ("EXECUTE IMMEDIATE 'x' USING", ";", ",", "1", &["a", "a AS b", "a + 1", "f(a) AS b", "(SELECT 1)"]),
    ("SELECT 1 FROM t PIVOT (SUM(a) FOR b IN (", "));", ",", "'x'", &["1", "'a' AS b", "1 a"]),
    ("SELECT 1 FROM t PIVOT (", "FOR b IN (1));", ",", "f(x)", &["SUM(a)", "SUM(a) AS b", "COUNT(*) c"]),
    ("SELECT 1 FROM t UNPIVOT (a FOR b IN (", "));", ",", "x", &["a", "a AS 'b'", "a 1"]),
    ("FROM t |> SELECT", ";", ",", "x", &["a", "a AS b", "a b", "a + 1", "f(a)"]),
    ("FROM t |> EXTEND", "|> LIMIT 1;", ",", "x", &["a AS b", "a + 1 AS c", "f(a) d"]),
    ("FROM t |> AGGREGATE", "GROUP BY z;", ",", "f(x)", &["SUM(a)", "COUNT(*) AS b", "SUM(a) + 1 AS b DESC"]),
    ("FROM t |> AGGREGATE f() GROUP BY", ";", ",", "x", &["a", "a AS b", "f(a) AS b DESC"]),
    ("FROM t |> RENAME", ";", ",", "x AS y", &["a AS b", "a b"]),
    ("FROM t |> SET", ";", ",", "x = 1", &["a = 1", "a = b + 1", "a = f(b)"]),
    ("FROM t |> DROP", ";", ",", "x", &["a", "`a`"]),
    ("FROM t |> UNION ALL", ";", ",", "(SELECT 1)", &["(SELECT a)", "(SELECT a FROM b WHERE c)"]),
    ("FROM t |> WITH", "|> LIMIT 1;", ",", "x AS (SELECT 1)", &["a AS (SELECT 1)", "a AS (SELECT b FROM c WHERE d)"]),
    ("SELECT 1 FROM t MATCH_RECOGNIZE (PATTERN (a) DEFINE", ");", ",", "x AS TRUE", &["a AS b", "a AS b > 1 AND c"]),
    ("SELECT 1 FROM t MATCH_RECOGNIZE (MEASURES", "PATTERN (a));", ",", "1 AS x", &["a AS b", "f(a) AS b"]),
    ("CREATE VIEW v (", ") AS SELECT 1;", ",", "x", &["a", "a OPTIONS (b = 1)"]),
    ("CREATE SEARCH INDEX i ON t (", ");", ",", "x", &["a", "`a`"]),
    ("CREATE TABLE t CLUSTER BY", "OPTIONS (a = 1);", ",", "x", &["a", "`a`"]),
    ("CALL p(", ");", ",", "x", &["a", "a + 1", "(SELECT 1)", "[1]"]),
    ("SELECT 1 FROM f(", ") AS g;", ",", "x", &["a", "TABLE a.b", "MODEL a", "(SELECT 1)", "a => 1"]),
    ("BEGIN", "END;", "", "SELECT 1;", &["SELECT 1;", "SET a = 1;", "BEGIN SELECT 1; END;", "IF a THEN SELECT 1; END IF;", "RAISE;", "BREAK;"]),
    ("SELECT 1 FROM t GROUP BY GROUPING SETS (", ");", ",", "(x)", &["a", "(a, b)", "()", "ROLLUP (a, b)"]),
];
pub fn list_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    for (k, (pre, post, sep, x, elems)) in LISTS.iter().enumerate() {
        let many = |n: usize| -> String { vec![*x; n].join(&format!("{} ", sep)) };
        let mut ctx: Vec<(String, String)> = vec![];
        let sizes: &[(usize, usize)] = if g.q() { &[(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (3, 4), (9, 8), (0, 17), (20, 0)] } else { &[(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 2), (3, 4), (5, 5), (7, 0), (9, 8), (0, 17), (20, 0), (33, 33), (70, 0), (0, 70)] };
        for (a, b) in sizes {
            let l = if *a > 0 { format!("{} {}{}", pre, many(*a), sep) } else { pre.to_string() };
            let r = if *b > 0 { format!("{} {} {}", sep, many(*b), post) } else { post.to_string() };
            ctx.push((l, r));
        }
        for (i, c) in ctx.iter().enumerate() {
            put(&mut out, format!("l{}:elem:{}", k, i), (pre, post), (&c.0, &c.1), &Text::default().choice(&strings(elems)));
        }
        // between neighbours of every kind
        if !sep.is_empty() {
            for (i, e) in elems.iter().enumerate() {
                let mut a: Vec<String> = vec![];
                let mut b: Vec<String> = vec![];
                for y in elems.iter() {
                    a.push(format!("{} {}{}", pre, y, sep));
                    b.push(format!("{} {} {}", sep, y, post));
                }
                let n = a.len();
                let mut t = Text::default().choice(&a).k("\n").k(e).k("\n");
                t.nvals.push(n);
                t.choice_of(1, &b);
                out.push(Arc::new(Template {
                    id: format!("l{}:between:{}@1", k, i),
                    nvals: t.nvals.clone(),
                    runs: vec![],
                    calls: vec![(Entry::Parse, format!("{}\n{}\n{}", pre, e, post).bytes().map(TB::K).collect()), (Entry::Parse, t.b)],
                }));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- the final semicolon
/// calls: parse(text;), parse(text)
pub fn semicolon(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let mut a = match nodes_of(outs, 0) {
        Some(a) if crate::props::terminated(&a) => a,
        _ => return Ok(()),
    };
    match &outs[1] {
        ROut::Ok(_) => (),
        ROut::Err(_) => return Err("rejected without its last semicolon".into()),
        _ => return Ok(()),
    }
    let b = match nodes_of(outs, 1) {
        Some(b) => b,
        None => return Ok(()),
    };
    j.hits += 1;
    let n = a.len() - 2;
    a[n].ch.retain(|(k, _)| k != "semicolon");
    same_nodes(m, &a, &b, &Cmp { positions: true, comments: false, nocase: false }, "")
}
pub fn semicolon_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let two = |id: String, t: Text| -> Arc<Template> {
        let with = t.clone().k(";");
        Arc::new(Template { id, nvals: t.nvals.clone(), runs: t.runs.clone(), calls: vec![(Entry::Parse, with.b), (Entry::Parse, t.b)] })
    };
    let first = strings(&["SELECT 1;", "BEGIN END;", "SET a = 1;", "-- c\nSELECT 1 -- d\n;"]);
    let gaps = strings(&["", " ", "\n", "-- c\n", "/* c */", "\n# c\n\n"]);
    for s in g.ok.iter().filter(|s| !s.toks.is_empty()) {
        let mut n = s.toks.len();
        if s.tok(n - 1) == ";" {
            n -= 1;
        }
        if n == 0 {
            continue;
        }
        let last = &s.toks[n - 1];
        let body = &s.text[..last.b];
        out.push(two(format!("{}:bare", s.id), Text::default().k(body).choice(&gaps)));
        out.push(two(format!("{}:script", s.id), Text::default().choice(&first).k("\n").k(body)));
        // any name or number as the last token
        let pre = &s.text[..last.a];
        if last.kind == Kind::Word && s.class(n as i64 - 1) == "a" {
            out.push(two(format!("{}:name", s.id), Text::default().k(pre).word(4).k("9")));
        }
        if last.kind == Kind::Number {
            out.push(two(format!("{}:number", s.id), Text::default().k(pre).set(b"0123456789").set(b"0123456789")));
        }
    }
    out
}

// ---------------------------------------------------------------- opaque names and literals
/// calls: parse(text), parse(text with another name or literal); the id ends in
/// "@<same length? 1 or 0>@<line>@<column>"
pub fn opaque(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let id = m.tmpl.id.clone();
    let mut it = id.rsplit('@');
    let col: u64 = it.next().unwrap().parse().expect("opaque id");
    let line: u64 = it.next().unwrap().parse().expect("opaque id");
    let exact = it.next().unwrap() == "1";
    let a = match nodes_of(outs, 0) {
        Some(a) => a,
        None => return Ok(()),
    };
    match &outs[1] {
        ROut::Ok(_) => (),
        ROut::Err(_) => return Err("another name or literal makes the input unacceptable".into()),
        _ => return Ok(()),
    }
    let b = match nodes_of(outs, 1) {
        Some(b) => b,
        None => return Ok(()),
    };
    j.hits += 1;
    let blank = |ns: Vec<Node>| -> Vec<Node> {
        fn go(n: &mut Node, line: u64, col: u64) {
            if let Some(t) = &mut n.tok {
                if (t.line, t.col) == (line, col) {
                    t.lit = vec![];
                }
            }
            for (_, c) in &mut n.ch {
                match c {
                    Child::One(x) => go(x, line, col),
                    Child::Many(v) => v.iter_mut().for_each(|x| go(x, line, col)),
                }
            }
        }
        ns.into_iter()
            .map(|mut n| {
                go(&mut n, line, col);
                n
            })
            .collect()
    };
    same_nodes(m, &blank(a), &blank(b), &Cmp { positions: exact, comments: false, nocase: false }, "")
}
pub fn opaque_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let plainbytes: Vec<u8> = (0..128u8).filter(|c| !b"'\"\\\n`{}".contains(c)).collect();
    for s in &g.ok {
        for i in 0..s.toks.len() {
            let t = &s.toks[i];
            let name = t.kind == Kind::Word && s.class(i as i64) == "a";
            let kind = match t.kind {
                Kind::Word if name => "name",
                Kind::BackQuoted => "quoted",
                Kind::Str => "string",
                Kind::Number => "number",
                Kind::Param if s.tok(i).len() > 1 => "param",
                Kind::Template => "template",
                _ => continue,
            };
            let (back, ahead) = if g.q() { (2, 2) } else { (6, 4) };
            if !seen.insert(format!("{} {} {} | {}", s.class(0), kind, s.ctx(i, back, 0), s.ctx(i + 1, 0, ahead))) {
                continue;
            }
            let (pre, post) = (&s.text[..t.a], &s.text[t.b..]);
            if pre.ends_with(|c: char| c.is_ascii_digit() || c == '.' && i > 0 && s.toks[i - 1].kind == Kind::Number) {
                continue; // glued to a number
            }
            let line = pre.matches('\n').count() as u64 + 1;
            let col = pre.rsplit('\n').next().unwrap().chars().count() as u64 + 1;
            let mut two = |fam: &str, exact: bool, base: &str, var: Text| {
                let b = Text::default().k(pre).k(base).k(post);
                let mut v = Text::default().k(pre);
                v.b.extend(var.b);
                let v = v.k(post);
                out.push(Arc::new(Template {
                    id: format!("{}:{}:{}@{}@{}@{}", s.id, fam, i, exact as u8, line, col),
                    nvals: var.nvals,
                    runs: vec![],
                    calls: vec![(Entry::Parse, b.b), (Entry::Parse, v.b)],
                }));
            };
            // dashed names are names of several tokens
            let dashed = pre.ends_with('-') || post.starts_with('-');
            match kind {
                "name" => {
                    two("name", true, "abcde9", Text::default().word(5).k("9"));
                    if !dashed {
                        two("quote", false, "abc9", Text::default().choice(&strings(&["`abc9`", "`a.b`", "`a-b`", "a", "_", "Z9", "`é`", "abcdefghijklmnopqrstuvwxyz_0123456789", "SELECT_", "END1", "_from", "`SELECT`", "`;`", "`--`", "`a b`", "`(`", "`*`", "`'`", "`p.d.t`", &"x".repeat(70), &"y".repeat(300), &format!("`{}`", "z".repeat(130))])));
                    }
                }
                "quoted" => two("quoted", true, "`abc`", Text::default().k("`").set(&plainbytes).set(&plainbytes).set(&plainbytes).k("`")),
                "string" => {
                    two("string", true, "'abc'", Text::default().k("'").set(&plainbytes).set(&plainbytes).set(&plainbytes).k("'"));
                    two("strings", false, "'abc'", Text::default().choice(&strings(&["''", "\"\"", "'a\\'b'", "\"--\"", "'/*'", "\"'\"", "'''x'''", "\"\"\"y\"\"\"", "'é あ'", "';'", "'\"'", "'SELECT'", "'{{'", "'''a\nb'''", "'\\n'", "\"\"\"\n\n\"x\\\"\"\"\"", "'#'", "'@a'", "'?'", "'`'", "'a, b) '", &format!("'{}'", "x".repeat(70)), &format!("'{}'", "あ".repeat(100))])));
                }
                "number" => {
                    two("number", true, "123", Text::default().set(b"0123456789").set(b"0123456789").set(b"0123456789"));
                    if !dashed && !pre.ends_with(|c: char| c == '.' || c == '_' || c == '@' || c.is_ascii_alphanumeric()) && !post.starts_with('.') {
                        two("numbers", false, "123", Text::default().choice(&strings(&["0", "1.5", "1e5", "1.5E-7", "0x1F", "0XaB", "00012345678901234567890123456789", "9.", &"7".repeat(70)])));
                    }
                }
                "param" => two("param", true, "@abcde9", Text::default().k("@").word(5).k("9")),
                _ => two("template", true, "{{abc}}", Text::default().k("{{").set(&plainbytes).set(&plainbytes).set(&plainbytes).k("}}")),
            }
        }
    }
    out
}

// ---------------------------------------------------------------- chains nest to the left
/// calls: parse(pre X L1 post), parse(pre X L2 post), parse(pre X L1 L2 post).
/// X starts at line 2, column 1, L1 at line 3, L2 at line 4 (line 3 of the second call is empty).
pub fn chain(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let (a, b) = match (nodes_of(outs, 0), nodes_of(outs, 1)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let want = match covering(&a, 3).into_iter().next() {
        Some(w) => w,
        None => return Ok(()),
    };
    let other = match covering(&b, 4).into_iter().next() {
        Some(w) => w,
        None => return Ok(()),
    };
    match &outs[2] {
        ROut::Ok(_) => (),
        ROut::Err(_) => return Err("a chain is rejected whose links are accepted one at a time".into()),
        _ => return Ok(()),
    }
    let ab = match nodes_of(outs, 2) {
        Some(t) => t,
        None => return Ok(()),
    };
    j.hits += 1;
    let whole = covering(&ab, 4);
    if whole.is_empty() {
        return Err("the chain is not one subtree".into());
    }
    let cmp = Cmp { positions: true, comments: false, nocase: false };
    let mut err = Err("no left operand".to_string());
    for w in &whole {
        let key = if w.one("left").is_some() { "left" } else { "func" };
        let (l, o) = match (w.one(key), other.one(key)) {
            (Some(l), Some(o)) => (l, o),
            _ => continue,
        };
        let _ = o;
        err = same_node(m, &want, l, &cmp, "left operand");
        if err.is_err() {
            continue;
        }
        let strip = |n: &Node| -> Node {
            let mut n = n.clone();
            n.ch.retain(|(k, _)| k != key);
            n
        };
        err = same_node(m, &strip(&other), &strip(w), &cmp, "last link");
        if err.is_ok() {
            return err;
        }
    }
    err
}
pub fn chain_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let tables = ["t", "p.d.t AS x", "p-1.d.t", "(SELECT 1) AS y", "UNNEST([1]) AS u WITH OFFSET", "f(1)", "(t JOIN u USING (a))", "t TABLESAMPLE SYSTEM (1 PERCENT)", "t PIVOT (SUM(a) FOR b IN (1)) AS p", "t FOR SYSTEM_TIME AS OF z"];
    let joins = [
        "JOIN b ON x = 1", "INNER JOIN b USING (k)", "LEFT JOIN b AS c ON x", "LEFT OUTER JOIN (SELECT 2) d ON x AND y", "RIGHT JOIN b ON x", "FULL JOIN b USING (k, l)", "FULL OUTER JOIN UNNEST(q) AS r ON x", "CROSS JOIN b", ", b", ", UNNEST(c) AS e WITH OFFSET AS o", ", (SELECT 3) AS g", "JOIN (b CROSS JOIN c) ON x",
        "CROSS JOIN p-1.d.b", "JOIN b", ", t.arr",
    ];
    let sets = ["UNION ALL SELECT 2", "UNION DISTINCT SELECT a FROM b", "INTERSECT DISTINCT SELECT 3 FROM c WHERE d", "EXCEPT DISTINCT (SELECT 4)", "UNION ALL BY NAME SELECT 5", "LEFT OUTER UNION ALL BY NAME ON (a) SELECT 6", "FULL OUTER INTERSECT DISTINCT STRICT CORRESPONDING (SELECT 7)", "INNER EXCEPT DISTINCT CORRESPONDING BY (a, b) SELECT 8 GROUP BY 1", "UNION ALL (SELECT 1 UNION ALL SELECT 2)", "INNER UNION ALL SELECT 9 FROM (SELECT 10)"];
    let queries = ["SELECT 1", "(SELECT 1)", "SELECT a FROM b WHERE c", "((SELECT 1) UNION ALL (SELECT 2))", "SELECT a FROM b GROUP BY 1 HAVING c"];
    let pipes = [
        "|> SELECT a, b AS c", "|> WHERE a > 1", "|> LIMIT 1", "|> LIMIT 1 OFFSET 2", "|> AGGREGATE COUNT(*) AS n GROUP BY a", "|> AGGREGATE SUM(x)", "|> JOIN u ON a = b", "|> LEFT JOIN u AS v USING (k)", "|> CROSS JOIN u", "|> ORDER BY a DESC, b", "|> EXTEND a + 1 AS c", "|> SET a = 1, b = 2", "|> DROP a, b", "|> RENAME a AS b", "|> AS z", "|> UNION ALL (SELECT 1), (SELECT 2)",
        "|> EXCEPT DISTINCT BY NAME (SELECT 1)", "|> CALL f(1) AS g", "|> TABLESAMPLE SYSTEM (1 PERCENT)", "|> PIVOT (SUM(a) FOR b IN (1)) AS p", "|> UNPIVOT (a FOR b IN (c, d))", "|> DISTINCT", "|> WITH a AS (SELECT 1)", "|> MATCH_RECOGNIZE (PATTERN (a) DEFINE a AS TRUE)", "|> SELECT DISTINCT a WINDOW w AS (ORDER BY b)",
    ];
    let froms = ["FROM t", "SELECT 1", "(SELECT 1)", "FROM t AS a JOIN u ON x", "SELECT a FROM b WHERE c", "FROM UNNEST([1]) AS a"];
    let posts = [".b", "[0]", "[OFFSET(1)]", ".`c`", "[a + b]", "[f(x).y]"];
    let atoms = ["a", "f(x)", "(a)", "[1, 2]", "STRUCT(1 AS b)", "a.b", "`a`", "@p", "CASE WHEN a THEN b END"];
    let methods = [".b", "[0]", ".f(b)", ".g()", ".(net.h)(c, 1)", "[SAFE_OFFSET(1)]", ".h(DISTINCT a ORDER BY b)", ".`k`(1)"];
    let receivers = ["(a)", "f(x)", "[1, 2]", "'s'", "1.5", "@p", "(SELECT 1)", "a[0]", "CAST(a AS STRING)", "(a).f(b)", "DATE '2020-01-01'", "(a)[0].b", "CASE WHEN a THEN b END"];
    // long heads
    let long = |v: &[&'static str], head: &str, links: &[&str]| -> Vec<&'static str> {
        let mut v = v.to_vec();
        for n in if g.q() { &[5usize, 12, 40][..] } else { &[3, 5, 8, 12, 20, 40, 100] } {
            for l in links {
                v.push(Box::leak(format!("{} {}", head, vec![*l; *n].join(" ")).into_boxed_str()));
            }
            v.push(Box::leak(format!("{} {}", head, (0..*n).map(|i| links[i % links.len()]).collect::<Vec<_>>().join(" ")).into_boxed_str()));
        }
        v
    };
    let tables = long(&tables, "t", &["JOIN b ON x", "CROSS JOIN b", ", b", "LEFT JOIN b AS c USING (k)"]);
    let queries = long(&queries, "SELECT 1", &["UNION ALL SELECT 2", "EXCEPT DISTINCT (SELECT 3)", "INTERSECT DISTINCT SELECT a FROM b"]);
    let froms = long(&froms, "FROM t", &["|> WHERE a", "|> SELECT a, b", "|> AGGREGATE COUNT(*) GROUP BY a", "|> JOIN u ON a"]);
    let atoms = long(&atoms, "a", &[".b", "[0]"]);
    let receivers = long(&receivers, "(a)", &[".f(b)", "[0]", ".b"]);
    let fam: Vec<(&str, Vec<(&str, &str)>, &[&str], &[&str])> = vec![
        ("method", vec![("SELECT", ";"), ("SELECT 1 FROM t WHERE", "= 1;"), ("SELECT f(", ", 1);"), ("SELECT - ", "+ 1;"), ("SELECT a *", "|| b;")], &receivers, &methods),
        ("join", vec![("SELECT 1 FROM", ";"), ("SELECT 1 FROM", "WHERE z GROUP BY 1;"), ("SELECT (SELECT 1 FROM", ");"), ("FROM", "|> LIMIT 1;"), ("UPDATE t SET a = 1 FROM", "WHERE z;"), ("SELECT 1 FROM (", ");"), ("WITH a AS (SELECT 1 FROM", ") SELECT 1;"), ("SELECT 1 FROM", "UNION ALL SELECT 2;"), ("BEGIN SELECT 1 FROM", "ORDER BY 1; END;")], &tables, &joins),
        ("set", vec![("", ";"), ("(", ");"), ("SELECT (", ");"), ("CREATE TABLE t AS", ";"), ("SELECT * FROM (", ") AS x;"), ("WITH a AS (", ") SELECT 1;"), ("INSERT INTO t", ";"), ("SELECT ARRAY(", ");"), ("BEGIN", "; END;"), ("SELECT a IN (", ");")], &queries, &sets),
        ("pipe", vec![("", ";"), ("(", ");"), ("CREATE VIEW v AS", ";"), ("SELECT * FROM (", ") AS x;"), ("WITH a AS (", ") SELECT 1;"), ("INSERT INTO t", ";"), ("BEGIN", "; END;"), ("SELECT (", ");")], &froms, &pipes),
        ("postfix", vec![("SELECT", ";"), ("SELECT 1 FROM t WHERE", "= 1;"), ("SELECT f(", ", 1);"), ("SELECT - ", "+ 1;"), ("SET x =", ";"), ("SELECT a,", "AS b FROM t;")], &atoms, &posts),
    ];
    for (name, ctxs, heads, links) in &fam {
        for (k, (pre, post)) in ctxs.iter().enumerate() {
            if g.q() && k > 4 && *name == "join" {
                // the join places share their code; the rest is left to thorough
            }
            for (h, head) in heads.iter().enumerate() {
                if g.q() && k > 0 && h > 2 {
                    continue;
                }
                let links1: Vec<String> = if g.q() && (k > 0 || head.len() > 40) { strings(links).into_iter().step_by(3).collect() } else { strings(links) };
                let l2 = strings(links);
                let mut a = Text::default().k(pre).k("\n").k(head).k("\n");
                a.nvals = vec![links1.len(), l2.len()];
                let mut b = a.clone();
                let mut ab = a.clone();
                a.choice_of(0, &links1);
                let a = a.k("\n\n").k(post);
                b = b.k("\n");
                b.choice_of(1, &l2);
                let b = b.k("\n").k(post);
                ab.choice_of(0, &links1);
                ab = ab.k("\n");
                ab.choice_of(1, &l2);
                let ab = ab.k("\n").k(post);
                out.push(Arc::new(Template { id: format!("{}{}:chain:{}", name, k, h), nvals: a.nvals.clone(), runs: vec![], calls: vec![(Entry::Parse, a.b), (Entry::Parse, b.b), (Entry::Parse, ab.b)] }));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- rejections
/// calls: tokenize(A), parse(A), tokenize(B), parse(B); B is A in another layout, after
/// other statements
pub fn rejection(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let e = match &outs[1] {
        ROut::Err(v) => match perr(v) {
            Ok(e) => e,
            _ => return Ok(()),
        },
        _ => return Ok(()),
    };
    let mut code = |m: &mut Machine, o: &ROut| -> Option<Vec<(u64, u64)>> {
        match o {
            ROut::Ok(v) => {
                let mut out = vec![];
                for t in toks(v).ok()? {
                    if t.lit.is_empty() || !is_comment(m, &t.lit) {
                        out.push((t.line, t.col));
                    }
                }
                Some(out)
            }
            _ => None,
        }
    };
    let (a, b) = match (code(m, &outs[0]), code(m, &outs[2])) {
        (Some(a), Some(b)) if b.len() >= a.len() => (a, b),
        _ => return Ok(()),
    };
    let f = match &outs[3] {
        ROut::Err(v) => match perr(v) {
            Ok(e) => e,
            _ => return Ok(()),
        },
        ROut::Ok(_) => return Err("what is rejected is accepted in another layout or after another statement".into()),
        _ => return Ok(()),
    };
    j.hits += 1;
    let at = |v: &[(u64, u64)], p: (u64, u64)| v.iter().position(|x| *x == p);
    match (at(&a, (e.line, e.col)), at(&b, (f.line, f.col))) {
        (Some(x), Some(y)) if x + (b.len() - a.len()) == y => Ok(()),
        (None, _) | (_, None) => Ok(()), // P13
        (Some(x), Some(y)) => Err(format!("rejected at token {} of {}, in another layout or after another statement at token {} of {}", x, a.len(), y, b.len())),
    }
}
pub fn rejection_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let mut out = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let pu = if g.q() { strings(&["", ";", ",", "(", ")", "<", "=", "1", "a b", "NOT", "SELECT", "END"]) } else { puncts(g.tier).into_iter().chain(strings(&["NOT", "AS", "SELECT", "END", "IF", "FROM", "BY", "ON", "WHEN", "THEN"])).collect() };
    let (back, ahead) = if g.q() { (1, 1) } else { (3, 2) };
    let ways: &[(&str, &str)] = &[("", "\n"), ("SELECT 1;", " "), ("SELECT ARRAY<STRUCT<a INT64>>[]; -- c\n", " -- d\n"), ("BEGIN SET a = 1; END;", "/* e\nf */"), ("IF a THEN SELECT 1; END IF; SELECT 2 >> 1;", "\n\n# g\n")];
    let firsts: Vec<String> = ways.iter().map(|w| w.0.to_string()).collect();
    let gaps: Vec<String> = ways.iter().map(|w| w.1.to_string()).collect();
    // after much more
    for n in if g.q() { &[7usize, 40, 300][..] } else { &[3, 7, 20, 40, 100, 300, 900] } {
        let n = *n;
        for (i, pre) in ["SELECT 1; ", "-- c\n", "\n", "BEGIN SELECT a >> 1; END; ", "/* d */ ", " ", "SELECT ARRAY<STRUCT<a INT64>>[]; ", "SELECT 'é'; # f\n"].iter().enumerate() {
            for (k, (bad, gap)) in [("SELECT a b c ¦;", "\n"), ("SELECT (1, ¦", " "), ("SELECT ¦ FROM", "  "), ("CREATE ¦ t;", "\n\n"), ("IF a THEN ¦;", "-- x\n"), ("SELECT 1 FROM t WHERE ¦ GROUP x;", "/**/"), ("BEGIN ¦ SELECT 1;", "\n"), ("SELECT CAST(a AS ¦);", " ")].iter().enumerate() {
                let (x, y) = bad.split_once('¦').unwrap();
                let mk = |pre: &str, gap: &str| Text::default().k(pre).k(&x.replace(' ', gap)).k(gap).choice(&pu).k(gap).k(&y.replace(' ', gap));
                let (a, b) = (mk("", " "), mk(&pre.repeat(n), gap));
                out.push(Arc::new(Template { id: format!("n{}:many:{}:{}", n, i, k), nvals: a.nvals.clone(), runs: vec![], calls: vec![(Entry::Tokenize, a.b.clone()), (Entry::Parse, a.b), (Entry::Tokenize, b.b.clone()), (Entry::Parse, b.b)] }));
            }
        }
    }
    for s in g.ok.iter().filter(|s| !s.comments) {
        let n = s.toks.len();
        for i in 0..=n {
            for mode in 0..3 {
                if mode == 0 && i == n || mode == 1 && i == n {
                    continue;
                }
                let key = match mode {
                    0 => format!("0 {} | {}", s.ctx(i, back, 0), s.ctx(i + 1, 0, ahead)),
                    1 => format!("1 {} | {}", s.ctx(i, back, 0), s.ctx(i, 0, ahead)),
                    _ => format!("2 {}", s.ctx(i, back, 0)),
                };
                if !seen.insert(format!("{} {}", s.class(0), key)) {
                    continue;
                }
                let (mut a, mut b) = (Text::default(), Text::default());
                let nvals = vec![pu.len(), ways.len()];
                b.choice_of(1, &firsts);
                b = b.k("\n");
                let sep = |a: &mut Text, b: &mut Text| {
                    a.b.push(TB::K(b' '));
                    b.choice_of(1, &gaps);
                };
                for k in 0..=n {
                    if k == i {
                        a.choice_of(0, &pu);
                        b.choice_of(0, &pu);
                        sep(&mut a, &mut b);
                        if mode == 2 {
                            break;
                        }
                        if mode == 0 {
                            continue;
                        }
                    }
                    if k < n {
                        a = a.k(s.tok(k));
                        b = b.k(s.tok(k));
                        sep(&mut a, &mut b);
                    }
                }
                out.push(Arc::new(Template { id: format!("{}:reject:{}:{}", s.id, mode, i), nvals, runs: vec![], calls: vec![(Entry::Tokenize, a.b.clone()), (Entry::Parse, a.b), (Entry::Tokenize, b.b.clone()), (Entry::Parse, b.b)] }));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- expressions in place of corpus leaves
/// where an expression of any precedence stands: "Type.key", with the token of a keyword node
const TAKES_EXPR: &[&str] = &[
    "AccessOperator.right", "ArrayLiteral.exprs", "BasePipeOperator.exprs", "CallingFunction.args", "CallingUnnest.args", "CaseExpr.expr", "CaseExprArm.expr", "CaseExprArm.result",
    "CaseStatement.expr", "CaseStatementArm.expr", "CastArgument.cast_from", "ElseIfClause.condition", "ExtractArgument.extract_from", "ForSystemTimeAsOfClause.expr", "GroupByExprs.exprs",
    "IfStatement.condition", "IntervalLiteral.expr", "LimitClause.expr", "LimitPipeOperator.exprs", "SelectPipeOperator.exprs", "SelectStatement.exprs", "StructLiteral.exprs",
    "TableSampleRatio.expr", "WhileStatement.condition", "WindowFrameClause.start", "WindowFrameClause.end", "XXXByExprs.exprs",
    "KeywordWithExpr.expr DEFAULT", "KeywordWithExpr.expr LIMIT", "KeywordWithExpr.expr MAX", "KeywordWithExpr.expr MIN", "KeywordWithExpr.expr OFFSET", "KeywordWithExpr.expr UNTIL",
    "KeywordWithExpr.expr WHERE", "KeywordWithExpr.expr HAVING", "KeywordWithExpr.expr QUALIFY", "KeywordWithExprs.exprs DEFINE", "KeywordWithExprs.exprs MEASURES", "KeywordWithExprs.exprs USING",
    "GroupedExpr.expr in SelectStatement.exprs", "GroupedExpr.expr in StructLiteral.exprs", "GroupedExpr.expr in GroupByExprs.exprs", "GroupedExpr.expr in DotOperator.left", "GroupedExpr.expr in FunctionChain.left",
    "GroupedExprs.exprs in InOperator.right", "GroupedExprs.exprs in KeywordWithExprs.exprs", "KeywordWithExpr.expr in JoinOperator.on", "KeywordWithExpr.expr in MergeStatement.on",
];
const TAKES_QUERY: &[&str] = &["*"];
const TAKES_TYPE: &[&str] = &["*"];
const TAKES_NAME: &[&str] = &[
    "AlterModelStatement.ident", "AlterSchemaStatement.ident", "AlterTableStatement.ident", "AlterViewStatement.ident", "CreateFunctionStatement.ident", "CreateModelStatement.ident",
    "CreateProcedureStatement.ident", "CreateSchemaStatement.ident", "CreateTableStatement.ident", "CreateTableStatement.source_table", "CreateViewStatement.ident",
    "CreateIndexStatement.tablename", "DeleteStatement.table_name", "DropStatement.ident", "ExportModelStatement.ident", "InsertStatement.target_name", "LoadStatement.ident",
    "MergeStatement.table_name", "TruncateStatement.table_name", "UndropStatement.ident", "UpdateStatement.table_name", "RevokeStatement.ident", "GrantStatement.ident",
    "FromStatement.expr", "JoinOperator.left", "JoinOperator.right", "JoinPipeOperator.exprs", "KeywordWithExpr.expr FROM", "KeywordWithExpr.expr CLONE", "KeywordWithExpr.expr COPY",
    "KeywordWithExpr.expr OF", "KeywordWithExpr.expr in MergeStatement.using", "KeywordWithExpr.expr in AlterVectorIndexStatement.on", "KeywordWithExpr.expr in CreateRowAccessPolicyStatement.on",
    "KeywordWithExpr.expr in DropRowAccessPolicyStatement.on", "KeywordWithExpr.expr in DropStatement.on",
];
/// the node whose token is at 2:1, with its places: from the root, (type, key, token)
fn leaf<'a>(n: &'a Node, up: &mut Vec<(&'a str, &'a str, String)>, places: &[&str], out: &mut Option<(&'a Node, Option<String>)>) {
    if n.tok.as_ref().map_or(false, |t| (t.line, t.col) == (2, 1)) {
        let mut at = None;
        if let Some((ty, key, tok)) = up.last() {
            let mut names = vec![format!("{}.{}", ty, key), format!("{}.{} {}", ty, key, tok)];
            if up.len() > 1 {
                let (a, b, _) = &up[up.len() - 2];
                names.push(format!("{}.{} in {}.{}", ty, key, a, b));
            }
            at = names.into_iter().find(|x| places.contains(&x.as_str()) || places[0] == "*");
        }
        *out = Some((n, at));
    }
    for (k, c) in &n.ch {
        up.push((&n.ty, k, n.tok.as_ref().map_or(String::new(), |t| String::from_utf8_lossy(&t.lit.iter().map(|v| v.c as u8).collect::<Vec<u8>>()).to_uppercase())));
        match c {
            Child::One(x) => leaf(x, up, places, out),
            Child::Many(v) => v.iter().for_each(|x| leaf(x, up, places, out)),
        }
        up.pop();
    }
}
/// what replaces what: P21 a name or number by expressions, P24 SELECT 1 by queries, P25 a type
/// name by types, P27 a name by table paths
struct Leaf {
    prop: &'static str,
    base: (&'static str, &'static str),
    types: &'static [&'static str],
    places: &'static [&'static str],
    frags: &'static [&'static str],
}
const LEAVES: &[Leaf] = &[
    Leaf {
        prop: "P21",
        base: ("SELECT", ";"),
        types: &["Identifier", "NumericLiteral"],
        places: TAKES_EXPR,
        frags: &["a OR b", "a = b AND NOT c", "NOT a", "a IN (1, 2)", "a NOT BETWEEN 1 AND 2", "a IS NOT NULL", "f(a) OVER w", "CASE WHEN a THEN b END", "(SELECT 1)", "a.b[0]", "- a + 1", "ARRAY<INT64>[1]", "'s'", "STRUCT(1 AS a)", "EXISTS(SELECT 1)", "`a`"],
    },
    Leaf { prop: "P24", base: ("", ";"), types: &["SelectStatement"], places: TAKES_QUERY, frags: QUERIES },
    Leaf { prop: "P25", base: ("SELECT CAST(x AS", ");"), types: &["Type"], places: TAKES_TYPE, frags: TYPES },
    Leaf { prop: "P27", base: ("SELECT 1 FROM", ";"), types: &["Identifier"], places: TAKES_NAME, frags: NAMES },
];
/// calls: parse(fragment in its plain place), parse(statement), parse(statement with the
/// fragment in place of what stands at 2:1)
pub fn leaf_place(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let l = LEAVES.iter().find(|l| m.tmpl.id.contains(&format!(":leaf:{}", l.prop))).expect("leaf template id");
    let (base, stmt) = match (nodes_of(outs, 0), nodes_of(outs, 1)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let mut found = None;
    stmt.iter().for_each(|n| leaf(n, &mut vec![], l.places, &mut found));
    let what = match found {
        Some((n, Some(at))) if l.types.contains(&n.ty.as_str()) => at,
        _ => return Ok(()),
    };
    let want = match covering(&base, 2).into_iter().next() {
        Some(w) => w,
        None => return Ok(()),
    };
    let there = match (&outs[2], nodes_of(outs, 2)) {
        (ROut::Ok(_), Some(t)) => t,
        (ROut::Err(_), _) => return Err(format!("what is accepted elsewhere is rejected in {}", what)),
        _ => return Ok(()),
    };
    j.hits += 1;
    let c = covering(&there, 2);
    if c.is_empty() {
        return Err(format!("what is one subtree elsewhere is none in {}", what));
    }
    let cmp = Cmp { positions: false, comments: false, nocase: false };
    let mut err = Ok(());
    for x in &c {
        err = same_node(m, &want, x, &cmp, &what);
        if err.is_ok() {
            return err;
        }
    }
    err
}
fn leaf_jobs(g: &Gen, prop: &str) -> Vec<Arc<Template>> {
    let l = LEAVES.iter().find(|l| l.prop == prop).expect("leaf property");
    let mut out = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    let frags = strings(l.frags);
    for s in g.ok.iter().filter(|s| !s.comments) {
        for i in 0..s.toks.len() {
            let name = s.toks[i].kind == Kind::Word && s.class(i as i64) == "a";
            let n = match prop {
                "P21" if s.toks[i].kind == Kind::Number || name => 1,
                "P27" if name => 1,
                "P25" if ["INT64", "STRING", "DATE", "FLOAT64", "BOOL", "NUMERIC", "JSON", "BYTES", "TIMESTAMP"].contains(&s.tok(i).to_uppercase().as_str()) && (i + 1 == s.toks.len() || s.tok(i + 1) != "(") => 1,
                "P24" if s.tok(i) == "SELECT" && i + 1 < s.toks.len() && s.toks[i + 1].kind == Kind::Number && (i == 0 || !["ALL", "DISTINCT", "BY", "NAME", "CORRESPONDING", ")"].contains(&s.tok(i - 1).to_uppercase().as_str())) && (i + 2 == s.toks.len() || [";", ")"].contains(&s.tok(i + 2))) => 2,
                _ => continue,
            };
            let (back, ahead) = if g.q() { (3, 2) } else { (6, 3) };
            if !seen.insert(format!("{} {} | {}", s.class(0), s.ctx(i, back, 0), s.ctx(i + n, 0, ahead))) {
                continue;
            }
            let (mut pre, mut at, mut post) = (String::new(), String::new(), String::new());
            for k in 0..s.toks.len() {
                let d = if k < i {
                    &mut pre
                } else if k < i + n {
                    &mut at
                } else {
                    &mut post
                };
                if k > 0 && k != i && s.toks[k].a > s.toks[k - 1].b {
                    d.push(' ');
                }
                d.push_str(s.tok(k));
            }
            let wrap = |pre: &str, t: Text, post: &str| -> Vec<TB> {
                let mut v = Text::default().k(pre).k("\n").b;
                v.extend(t.b);
                v.extend(Text::default().k("\n").k(post).b);
                v
            };
            let e = Text::default().choice(&frags);
            out.push(Arc::new(Template {
                id: format!("{}:leaf:{}:{}", s.id, l.prop, i),
                nvals: e.nvals.clone(),
                runs: vec![],
                calls: vec![(Entry::Parse, wrap(l.base.0, e.clone(), l.base.1)), (Entry::Parse, wrap(&pre, Text::default().k(&at), &post)), (Entry::Parse, wrap(&pre, e, &post))],
            }));
        }
    }
    out
}
