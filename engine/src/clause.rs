//! P28: the optional clauses of a statement do not influence each other.
//! A family is a list of parts, each on a line of its own; a part is a list of alternatives,
//! and one with an empty alternative is optional. For every part, the subtrees made of that
//! line's tokens (with the node type and the key they hang under) have to be the same
//! whether the other optional parts are there or not.
use crate::exec::*;
use crate::gen::*;
use crate::props::{nodes_of, Judge, R};
use crate::val::*;
use std::sync::Arc;

/// one token of the line: its node without children, what key (of which other token of the
/// line) it hangs under; nodes without a token are passed through
struct Spot {
    head: Node,
    path: String,
    under: Option<(u64, u64)>,
}
fn spots(n: &Node, line: u64, path: &str, under: Option<(u64, u64)>, out: &mut Vec<Spot>) {
    let (mut path, mut under) = (path.to_string(), under);
    match &n.tok {
        Some(t) => {
            if t.line == line {
                out.push(Spot { head: Node { tok: n.tok.clone(), ty: n.ty.clone(), ch: vec![] }, path, under });
                under = Some((t.line, t.col));
            } else {
                under = None;
            }
            path = String::new();
        }
        None => path = format!("{}{}/", path, n.ty),
    }
    for (k, c) in &n.ch {
        if k == "leading_comments" || k == "trailing_comments" {
            continue;
        }
        match c {
            Child::One(x) => spots(x, line, &format!("{}{}", path, k), under, out),
            Child::Many(v) => v.iter().for_each(|x| spots(x, line, &format!("{}{}[]", path, k), under, out)),
        }
    }
}
/// calls: parse(the part alone), parse(the part among others); the id ends in "@<line>"
pub fn clauses(m: &mut Machine, outs: &[ROut], j: &mut Judge) -> R {
    let line: u64 = m.tmpl.id.rsplit('@').next().and_then(|s| s.parse().ok()).expect("clause template id");
    let alone = match nodes_of(outs, 0) {
        Some(a) => a,
        None => return Ok(()),
    };
    match &outs[1] {
        ROut::Ok(_) => (),
        ROut::Err(_) => return Err("clauses accepted one at a time are rejected together".into()),
        _ => return Ok(()),
    }
    let both = match nodes_of(outs, 1) {
        Some(b) => b,
        None => return Ok(()),
    };
    j.hits += 1;
    let (mut a, mut b) = (vec![], vec![]);
    alone.iter().for_each(|n| spots(n, line, "", None, &mut a));
    both.iter().for_each(|n| spots(n, line, "", None, &mut b));
    if alone.len() != both.len() {
        return Err(format!("{} statement nodes alone, {} together", alone.len(), both.len()));
    }
    if a.len() != b.len() {
        return Err(format!("a clause of {} tokens has {} together with others", a.len(), b.len()));
    }
    let at = |s: &Spot| s.head.tok.as_ref().map(|t| t.col);
    a.sort_by_key(at);
    b.sort_by_key(at);
    let cmp = Cmp { positions: true, comments: false, nocase: false };
    for (x, y) in a.iter().zip(&b) {
        same_node(m, &x.head, &y.head, &cmp, &x.path)?;
        if x.path != y.path {
            return Err(format!("what is {:?} is {:?} together with others", x.path, y.path));
        }
        if x.under != y.under {
            return Err(format!("{:?} hangs under another token together with others", x.path));
        }
    }
    Ok(())
}

/// parts separated by `¦`, alternatives by `/`, the empty alternative written `?` first
pub const FAMILIES: &[&str] = &[
    // queries
    "?/WITH a AS (SELECT 1)¦SELECT¦?/DISTINCT/ALL¦?/AS STRUCT/AS VALUE¦a, b AS c¦?/FROM t/FROM t JOIN u USING (k), v¦?/WHERE x¦?/GROUP BY 1, 2/GROUP BY ALL¦?/HAVING y¦?/QUALIFY z¦?/WINDOW w AS (ORDER BY 1)¦?/ORDER BY 1 DESC¦?/LIMIT 1/LIMIT 1 OFFSET 2¦?/;",
    "?/WITH RECURSIVE a AS (SELECT 1), b AS (SELECT 2)¦FROM t¦/|> WHERE a¦/|> AGGREGATE COUNT(*) GROUP BY b¦?/;",
    "SELECT *¦?/EXCEPT (a, b)¦?/REPLACE (1 AS c)¦?/, d¦?/FROM t¦?/WHERE e;",
    "SELECT t.*¦?/EXCEPT (a, b)¦?/REPLACE (1 AS c)¦FROM t;",
    "SELECT a¦?/AS b/b¦?/, c/, c AS d¦?/,¦FROM t;",
    "SELECT 1 FROM t¦?/AS x/x¦?/FOR SYSTEM_TIME AS OF y¦?/TABLESAMPLE SYSTEM (1 PERCENT)¦?/WHERE z¦?/LIMIT 1;",
    "SELECT 1 FROM t¦?/AS x¦?/PIVOT (SUM(a) FOR b IN (1))¦?/WHERE z;",
    "SELECT 1 FROM (SELECT 2)¦?/AS x/x¦?/PIVOT (SUM(a) FOR b IN (1))/UNPIVOT (a FOR b IN (c))¦?/WHERE z;",
    "SELECT 1 FROM t PIVOT (¦SUM(a)¦?/AS b/b¦?/, COUNT(*) AS c¦FOR d IN (1¦?/AS e/e¦?/, 2¦))¦?/AS f/f¦;",
    "SELECT 1 FROM t UNPIVOT¦?/INCLUDE NULLS/EXCLUDE NULLS¦(a FOR b IN (c¦?/AS 'd'¦?/, e¦))¦?/AS f/f¦;",
    "SELECT 1 FROM UNNEST(a)¦?/AS b/b¦?/WITH OFFSET/WITH OFFSET AS c/WITH OFFSET c¦/, d¦?/WHERE e;",
    "SELECT 1 FROM f(¦?/1/TABLE a, 1/MODEL m, (SELECT 1)¦)¦?/AS b/b¦?/WHERE c;",
    "SELECT 1 FROM t MATCH_RECOGNIZE (¦?/PARTITION BY a, b¦?/ORDER BY c¦?/MEASURES d AS e, f AS g¦?/AFTER MATCH SKIP PAST LAST ROW/AFTER MATCH SKIP TO NEXT ROW¦PATTERN (a b)¦?/DEFINE a AS b¦?/OPTIONS (a = 1)¦)¦?/AS x;",
    "SELECT 1 FROM t MATCH_RECOGNIZE (PATTERN (¦?/^¦a¦?/*/+?/{1, 2}¦?/b/(b c)+¦?/$¦) DEFINE a AS TRUE);",
    "SELECT 1 FROM t¦/LEFT/LEFT OUTER/RIGHT/FULL OUTER/INNER/¦JOIN¦u¦?/AS v/v¦?/FOR SYSTEM_TIME AS OF y¦/ON x/USING (a, b)¦?/WHERE z¦?/ORDER BY 1;",
    "SELECT 1¦?/FULL/FULL OUTER/LEFT/LEFT OUTER/INNER/OUTER¦UNION¦ALL¦?/BY NAME/BY NAME ON (a)/CORRESPONDING/STRICT CORRESPONDING/CORRESPONDING BY (a, b)¦SELECT 2¦?/ORDER BY 1¦?/LIMIT 1¦;",
    "(SELECT 1)¦UNION ALL/INTERSECT DISTINCT/EXCEPT DISTINCT¦(SELECT 2)¦?/ORDER BY 1 DESC¦?/LIMIT 1/LIMIT 1 OFFSET 2¦?/;",
    "(SELECT 1¦?/FROM t¦?/ORDER BY 1¦?/LIMIT 1¦)¦?/ORDER BY 2¦?/LIMIT 2 OFFSET 3¦?/;",
    "SELECT 1 ORDER BY a¦?/ASC/DESC¦?/NULLS FIRST/NULLS LAST¦?/, b¦?/LIMIT 1/LIMIT 1 OFFSET 2¦;",
    "SELECT 1 FROM t GROUP BY¦a¦?/, ROLLUP (b, c)/, CUBE (b)¦?/HAVING d¦?/QUALIFY e¦?/ORDER BY f;",
    "WITH¦?/RECURSIVE¦a AS (SELECT 1)¦?/, b AS (SELECT 2)¦SELECT 3¦/UNION ALL SELECT 4;",
    "SELECT 1 FROM t WINDOW¦a AS (¦?/x¦?/PARTITION BY b¦?/ORDER BY c¦?/ROWS UNBOUNDED PRECEDING/ROWS 1 PRECEDING/RANGE BETWEEN 1 PRECEDING AND CURRENT ROW/ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING¦)¦?/, b AS a¦?/ORDER BY 1;",
    // expressions
    "SELECT f(¦?/DISTINCT¦a¦?/IGNORE NULLS/RESPECT NULLS¦?/HAVING MAX b/HAVING MIN b¦?/ORDER BY c DESC, d¦?/LIMIT 1¦)¦?/OVER w/OVER (ORDER BY d)/OVER ()¦?/AS e/e¦?/FROM t¦;",
    "SELECT f(¦a¦?/, b => 1¦?/, (SELECT 2)¦)¦/.c/[0]¦/+ 1¦;",
    "SELECT f() OVER (¦?/w¦?/PARTITION BY a, b¦?/ORDER BY c DESC¦?/ROWS 1 PRECEDING/RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW/ROWS CURRENT ROW¦)¦?/AS x¦;",
    "SELECT CASE¦?/a¦WHEN b THEN c¦?/WHEN d THEN e¦?/ELSE f¦END¦?/AS g/g¦?/FROM t;",
    "SELECT CAST(a AS¦INT64/STRING(5)/ARRAY<INT64>¦?/FORMAT 'x'¦)¦?/AS b¦;",
    "SELECT EXTRACT(¦DAY/WEEK(MONDAY)¦FROM¦a/TIMESTAMP 'x'¦?/AT TIME ZONE 'y'¦)¦?/AS b¦;",
    "SELECT INTERVAL¦1/'1-2'/a¦DAY/YEAR¦?/TO MONTH¦?/AS b;",
    "SELECT ARRAY¦?/<INT64>/<STRUCT<a INT64>>¦[¦?/1/1, 2¦]¦/[0]¦?/AS b¦;",
    "SELECT STRUCT¦?/<INT64, a STRING>¦(¦1¦?/AS b/b¦?/, 2/, 2 AS c¦)¦/.b¦?/AS d;",
    "SELECT a¦?/NOT¦IN¦(1, 2)/UNNEST(b)/(SELECT 1)¦/AND c¦?/AS d;",
    "SELECT a¦?/NOT¦LIKE¦?/ANY/ALL/SOME¦(b, c)¦/OR d;",
    "SELECT a IS¦?/NOT¦NULL/TRUE/DISTINCT FROM b¦/AND c¦?/AS d;",
    "SELECT a¦?/NOT¦BETWEEN 1 AND 2¦/AND c¦?/AS d;",
    // pipes
    "FROM t |> SELECT¦?/DISTINCT/ALL/AS STRUCT¦a¦?/AS b/b¦?/, c¦?/,¦/|> LIMIT 1;",
    "FROM t |> AGGREGATE¦COUNT(*)¦?/AS a/a¦?/DESC/ASC NULLS LAST¦?/, SUM(b) AS c¦?/GROUP BY d/GROUP BY d AS e/GROUP BY d, e¦/|> LIMIT 1¦;",
    "FROM t |> LIMIT 1¦?/OFFSET 2¦/|> WHERE a¦?/;",
    "FROM t |>¦/LEFT/LEFT OUTER/FULL/INNER¦JOIN¦u¦?/AS v/v¦/ON x/USING (a)¦/|> LIMIT 1¦;",
    "FROM t |>¦?/FULL OUTER/LEFT/INNER¦UNION ALL/INTERSECT DISTINCT¦?/BY NAME/STRICT CORRESPONDING¦(SELECT 1)¦?/, (SELECT 2)¦/|> LIMIT 1;",
    "FROM t |> CALL f(¦?/1/1, TABLE a/TABLE a¦)¦?/AS g/g¦/|> LIMIT 1;",
    "FROM t |> EXTEND¦a + 1¦?/AS b/b¦?/, c AS d¦?/,¦/|> WHERE e;",
    "FROM t |> PIVOT (¦SUM(a)¦?/AS b¦FOR c IN (1¦?/AS d¦))¦?/AS e/e¦/|> LIMIT 1;",
    "FROM t |> UNPIVOT¦?/INCLUDE NULLS/EXCLUDE NULLS¦(a FOR b IN (c, d))¦?/AS e¦/|> LIMIT 1;",
    "FROM t¦?/AS x/x¦?/TABLESAMPLE SYSTEM (1 PERCENT)¦/JOIN u ON y¦/, v¦/|> AS z¦/|> LIMIT 1;",
    "FROM t |> ORDER BY¦a¦?/DESC¦?/NULLS LAST¦?/, b¦/|> LIMIT 1;",
    // AS before an alias
    "SELECT¦1¦?/AS¦b¦?/, c¦?/FROM t;",
    "SELECT STRUCT(¦1¦?/AS¦b¦?/, 2¦);",
    "SELECT 1 FROM¦t/(SELECT 1)/UNNEST(a)/f(1)¦?/AS¦x¦/JOIN u ON y/, v¦?/WHERE z;",
    "SELECT 1 FROM t JOIN¦t/(SELECT 1)/UNNEST(a)/f(1)¦?/AS¦x¦ON y/USING (a)¦?/WHERE z;",
    "SELECT 1 FROM t, UNNEST(a)¦?/AS¦b¦WITH OFFSET¦?/AS¦c¦?/WHERE d;",
    "SELECT 1 FROM t PIVOT (SUM(a)¦?/AS¦b¦FOR c IN (1¦?/AS¦d¦))¦?/AS¦e¦?/WHERE f;",
    "SELECT 1 FROM t UNPIVOT (a FOR b IN (c¦?/AS¦'d'¦))¦?/AS¦e¦?/WHERE f;",
    "FROM t |>¦SELECT a/EXTEND a/AGGREGATE f(a)/RENAME a/JOIN u/CALL f()¦?/AS¦x¦/|> LIMIT 1;",
    "FROM t |> AGGREGATE f() GROUP BY a¦?/AS¦x¦?/DESC¦/|> LIMIT 1;",
    "DELETE FROM t¦?/AS¦x¦WHERE a;",
    "UPDATE t¦?/AS¦x¦SET a = 1¦?/FROM u¦WHERE b;",
    "MERGE t¦?/AS¦x¦USING u¦?/AS¦y¦ON a WHEN MATCHED THEN DELETE;",
    "EXECUTE IMMEDIATE 'x' USING a¦?/AS¦b¦?/, c;",
    "SELECT * REPLACE (1¦?/AS¦b¦) FROM t;",
    "FROM t¦?/AS¦x¦/|> LIMIT 1;",
    // DML
    "INSERT¦?/INTO¦t¦?/(a, b)¦VALUES (1, 2)/SELECT 1, 2/VALUES (1, DEFAULT), (2, 3)/WITH x AS (SELECT 1) SELECT 2¦?/;",
    "DELETE¦?/FROM¦t¦?/AS x/x¦WHERE a¦?/;",
    "UPDATE¦t¦?/AS x/x¦SET a = 1¦?/, b.c = DEFAULT¦?/FROM u/FROM u JOIN v USING (k)¦WHERE d¦?/;",
    "MERGE¦?/INTO¦t¦?/AS x/x¦USING¦u/(SELECT 1)¦?/AS y/y¦ON z¦WHEN MATCHED THEN DELETE¦?/WHEN NOT MATCHED THEN INSERT ROW¦?/;",
    "MERGE t USING u ON z¦WHEN MATCHED¦?/AND a¦THEN¦DELETE/UPDATE SET b = 1, c = 2¦?/;",
    "MERGE t USING u ON z¦WHEN NOT MATCHED¦?/BY TARGET¦?/AND a¦THEN INSERT¦?/(b, c)¦ROW/VALUES (1, 2)¦?/;",
    "MERGE t USING u ON z¦WHEN NOT MATCHED BY SOURCE¦?/AND a¦THEN¦DELETE/UPDATE SET b = 1¦?/WHEN MATCHED THEN DELETE¦?/;",
    // DDL
    "CREATE¦?/OR REPLACE¦?/TEMP/TEMPORARY¦TABLE¦?/IF NOT EXISTS¦p.t¦?/(a INT64)/(a INT64, PRIMARY KEY (a) NOT ENFORCED)¦?/DEFAULT COLLATE 'x'¦?/PARTITION BY a¦?/CLUSTER BY b, c¦?/OPTIONS (e = 1)¦?/AS SELECT 1¦?/;",
    "CREATE¦?/OR REPLACE¦?/TEMP¦TABLE¦?/IF NOT EXISTS¦p.t¦LIKE u/COPY u/CLONE u¦?/OPTIONS (e = 1)¦?/;",
    "CREATE TABLE t¦LIKE u/CLONE u FOR SYSTEM_TIME AS OF x¦?/OPTIONS (e = 1)¦?/AS SELECT 1¦?/;",
    "CREATE TABLE t (a¦STRING/ARRAY<INT64>/NUMERIC(1, 2)¦?/COLLATE 'x'¦?/PRIMARY KEY NOT ENFORCED/CONSTRAINT c REFERENCES u(b) NOT ENFORCED/REFERENCES u(b) NOT ENFORCED¦?/DEFAULT 1¦?/NOT NULL¦?/OPTIONS (c = 1)¦?/, d INT64¦);",
    "CREATE TABLE t (a INT64¦?/, PRIMARY KEY (a)/, PRIMARY KEY (a) NOT ENFORCED¦?/, CONSTRAINT c FOREIGN KEY (b) REFERENCES u(v) NOT ENFORCED¦?/, FOREIGN KEY (b, c) REFERENCES u(v, w)¦?/,¦);",
    "CREATE¦?/OR REPLACE¦EXTERNAL TABLE¦?/IF NOT EXISTS¦t¦?/(a INT64)¦?/WITH CONNECTION c¦?/WITH PARTITION COLUMNS/WITH PARTITION COLUMNS (b INT64)¦OPTIONS (d = 1)¦?/;",
    "CREATE SNAPSHOT TABLE¦?/IF NOT EXISTS¦t¦CLONE u¦?/FOR SYSTEM_TIME AS OF a¦?/OPTIONS (b = 1)¦?/;",
    "CREATE¦?/OR REPLACE¦VIEW¦?/IF NOT EXISTS¦v¦?/(a, b OPTIONS (c = 1))¦?/OPTIONS (d = 1)¦AS SELECT 1¦?/;",
    "CREATE¦?/OR REPLACE¦MATERIALIZED VIEW¦?/IF NOT EXISTS¦v¦?/PARTITION BY a¦?/CLUSTER BY b, c¦?/OPTIONS (d = 1)¦AS SELECT 1/AS REPLICA OF u¦?/;",
    "CREATE SCHEMA¦?/IF NOT EXISTS¦s¦?/DEFAULT COLLATE 'x'¦?/OPTIONS (a = 1)¦?/;",
    "CREATE EXTERNAL SCHEMA¦?/IF NOT EXISTS¦s¦?/WITH CONNECTION c¦?/OPTIONS (a = 1)¦?/;",
    "CREATE¦?/OR REPLACE¦?/TEMP/TEMPORARY¦FUNCTION¦?/IF NOT EXISTS¦f(¦?/a INT64/a ANY TYPE, b STRING¦)¦?/RETURNS INT64¦AS (1)¦?/;",
    "CREATE¦?/OR REPLACE¦?/TEMP¦FUNCTION¦?/IF NOT EXISTS¦f(¦?/a INT64¦)¦RETURNS INT64¦?/DETERMINISTIC/NOT DETERMINISTIC¦LANGUAGE js¦?/OPTIONS (a = 1)¦AS 'x'¦?/;",
    "CREATE¦?/OR REPLACE¦FUNCTION¦?/IF NOT EXISTS¦f(¦?/a INT64, b STRING¦)¦RETURNS INT64¦REMOTE WITH CONNECTION c¦?/OPTIONS (a = 1)¦?/;",
    "CREATE¦?/OR REPLACE¦?/TEMP¦AGGREGATE FUNCTION¦?/IF NOT EXISTS¦f(¦a INT64¦?/NOT AGGREGATE¦?/, b STRING¦)¦?/RETURNS INT64¦AS (1)¦?/;",
    "CREATE¦?/OR REPLACE¦TABLE FUNCTION¦?/IF NOT EXISTS¦f(¦?/a INT64, b ANY TYPE¦)¦?/RETURNS TABLE<a INT64>¦AS SELECT 1¦?/;",
    "CREATE¦?/OR REPLACE¦PROCEDURE¦?/IF NOT EXISTS¦p(¦?/a INT64/IN a INT64/OUT a INT64, INOUT b STRING¦)¦?/OPTIONS (a = 1)¦BEGIN¦?/SELECT 1;¦END¦?/;",
    "CREATE¦?/OR REPLACE¦PROCEDURE p()¦?/WITH CONNECTION c¦?/OPTIONS (a = 1)¦LANGUAGE python¦?/AS '''x'''¦?/;",
    "CREATE¦?/OR REPLACE¦MODEL¦?/IF NOT EXISTS¦m¦?/TRANSFORM (a, b AS c)¦?/OPTIONS (a = 1)¦?/AS SELECT 1/AS (training_data AS (SELECT 1), custom_holiday AS (SELECT 2))¦?/;",
    "CREATE¦?/OR REPLACE¦MODEL¦?/IF NOT EXISTS¦m¦?/INPUT (a INT64) OUTPUT (b STRING)¦REMOTE WITH CONNECTION c¦?/OPTIONS (a = 1)¦?/;",
    "CREATE¦?/OR REPLACE¦ROW ACCESS POLICY¦?/IF NOT EXISTS¦r ON t¦?/GRANT TO ('a', 'b')¦FILTER USING (c)¦?/;",
    "CREATE SEARCH INDEX¦?/IF NOT EXISTS¦i ON t (¦a, b/ALL COLUMNS¦)¦?/PARTITION BY c¦?/OPTIONS (d = 1)¦?/;",
    "CREATE¦?/OR REPLACE¦VECTOR INDEX¦?/IF NOT EXISTS¦i ON t (a)¦?/STORING (b, c)¦?/PARTITION BY c¦?/OPTIONS (d = 1)¦?/;",
    "ALTER TABLE¦?/IF EXISTS¦t¦SET OPTIONS (a = 1)/SET DEFAULT COLLATE 'x'/RENAME TO u/DROP PRIMARY KEY/DROP COLUMN a/RENAME COLUMN a TO b¦?/;",
    "ALTER TABLE t¦ADD COLUMN¦?/IF NOT EXISTS¦a STRING¦?/COLLATE 'x'¦?/DEFAULT 1¦?/NOT NULL¦?/OPTIONS (c = 1)¦?/, ADD COLUMN b INT64¦?/;",
    "ALTER TABLE t DROP COLUMN¦?/IF EXISTS¦a¦?/, DROP COLUMN b¦?/;",
    "ALTER TABLE t ALTER COLUMN¦?/IF EXISTS¦a¦SET OPTIONS (a = 1)/SET DATA TYPE INT64/DROP NOT NULL/SET DEFAULT 1/DROP DEFAULT¦?/;",
    "ALTER TABLE t ADD¦?/CONSTRAINT c¦PRIMARY KEY (a, b) NOT ENFORCED/FOREIGN KEY (a) REFERENCES u(b) NOT ENFORCED¦?/, ADD CONSTRAINT d FOREIGN KEY (e) REFERENCES f(g) NOT ENFORCED¦?/;",
    "ALTER¦SCHEMA/VIEW/MATERIALIZED VIEW¦?/IF EXISTS¦s¦SET OPTIONS (a = 1)¦?/;",
    "DROP¦TABLE/VIEW/MATERIALIZED VIEW/FUNCTION/PROCEDURE/MODEL/EXTERNAL TABLE/TABLE FUNCTION/SNAPSHOT TABLE¦?/IF EXISTS¦p.a¦?/;",
    "DROP¦?/EXTERNAL¦SCHEMA¦?/IF EXISTS¦a¦?/CASCADE/RESTRICT¦?/;",
    "DROP ROW ACCESS POLICY¦?/IF EXISTS¦r¦ON t¦?/;",
    "DROP¦SEARCH INDEX/VECTOR INDEX¦?/IF EXISTS¦i¦ON t¦?/;",
    "UNDROP SCHEMA¦?/IF NOT EXISTS¦s¦?/;",
    // other statements
    "EXPORT DATA¦?/WITH CONNECTION c¦OPTIONS (a = 1)¦AS SELECT 1¦?/;",
    "EXPORT MODEL m¦?/OPTIONS (a = 1)¦?/;",
    "LOAD DATA¦INTO/OVERWRITE¦t¦?/(a INT64, b STRING)¦?/PARTITION BY c¦?/CLUSTER BY d, e¦?/OPTIONS (f = 1)¦FROM FILES (g = 1)¦?/WITH PARTITION COLUMNS/WITH PARTITION COLUMNS (h INT64)¦?/WITH CONNECTION c¦?/;",
    "DECLARE¦a¦?/, b¦INT64/ARRAY<INT64>¦?/DEFAULT 1¦?/;",
    "EXECUTE IMMEDIATE¦'x'/a¦?/INTO b, c¦?/USING d, e AS f¦?/;",
    "BEGIN¦?/SELECT 1;¦?/SET a = 1;¦?/EXCEPTION WHEN ERROR THEN¦?/SELECT 2;¦END¦?/;",
    "IF a THEN¦?/SELECT 1;¦?/ELSEIF b THEN¦?/ELSE¦END IF¦?/;",
    "CASE¦?/a¦WHEN b THEN¦?/SELECT 1;¦?/WHEN c THEN SELECT 2;¦?/ELSE SELECT 3;¦END CASE¦?/;",
    "RAISE¦?/USING MESSAGE = 'x'¦?/;",
    "ASSERT a¦?/AS 'x'¦?/;",
    "FOR a IN (SELECT 1) DO¦?/SELECT 2;¦?/BREAK;¦END FOR¦?/;",
    "BEGIN TRANSACTION¦?/;",
    "COMMIT¦?/TRANSACTION¦?/;",
    "ROLLBACK¦?/TRANSACTION¦?/;",
    "SET¦a/(a, b)/@@a.b¦= 1¦?/;",
    "CALL p.q(¦?/1/1, (SELECT 2)¦)¦?/;",
    "GRANT¦`r`¦?/, `s`¦ON TABLE t TO¦'a'¦?/, 'b'¦?/;",
    "CREATE CAPACITY¦`p.l.c`¦OPTIONS (a = 1)/AS JSON '''x'''¦?/;",
    "DROP CAPACITY¦?/IF EXISTS¦`p.l.c`¦?/;",
];

pub fn clause_jobs(g: &Gen) -> Vec<Arc<Template>> {
    let cap = if g.q() { 200 } else { 3000 };
    let mut out = vec![];
    for (fi, fam) in FAMILIES.iter().enumerate() {
        let parts: Vec<Vec<String>> = fam
            .split('¦')
            .map(|p| {
                let alts: Vec<String> = p.split('/').map(|a| a.to_string()).collect();
                if alts.len() > 1 {
                    alts.into_iter().map(|a| if a == "?" { String::new() } else { a }).collect()
                } else {
                    alts
                }
            })
            .collect();
        let optional = |i: usize| fam.split('¦').nth(i).unwrap().starts_with("?/");
        for l in 0..parts.len() {
            // the parts nearest to this one vary freely; those beyond the bound are all
            // there or all absent
            let mut order: Vec<usize> = (0..parts.len()).filter(|i| *i != l && parts[*i].len() > 1).collect();
            order.sort_by_key(|i| (*i as i64 - l as i64).abs());
            let mine: Vec<String> = parts[l].iter().filter(|a| !optional(l) || !a.is_empty()).cloned().collect();
            let mut n = mine.len();
            let mut free = vec![];
            for i in &order {
                if n * parts[*i].len() <= cap {
                    n *= parts[*i].len();
                    free.push(*i);
                } else if n * 2 <= cap && parts[*i].len() > 2 && optional(*i) {
                    n *= 2;
                    free.push(*i + 1000);
                }
            }
            let rest: Vec<usize> = order.iter().cloned().filter(|i| !free.contains(i) && !free.contains(&(*i + 1000))).collect();
            for all in 0..if rest.is_empty() { 1 } else { 2 } {
                let (mut a, mut b) = (Text::default(), Text::default());
                let mut nvals = vec![];
                for i in 0..parts.len() {
                    let alts = if i == l {
                        mine.clone()
                    } else if free.contains(&i) {
                        parts[i].clone()
                    } else if free.contains(&(i + 1000)) {
                        parts[i][..2].to_vec()
                    } else {
                        vec![parts[i][if optional(i) { all } else { 0 }].clone()]
                    };
                    if alts.len() > 1 {
                        let v = nvals.len() as u16;
                        nvals.push(alts.len());
                        if i == l || !optional(i) {
                            a.choice_of(v, &alts);
                        }
                        b.choice_of(v, &alts);
                    } else {
                        if i == l || !optional(i) {
                            a = a.k(&alts[0]);
                        }
                        b = b.k(&alts[0]);
                    }
                    a = a.k("\n");
                    b = b.k("\n");
                }
                out.push(Arc::new(Template { id: format!("c{}:{}:{}@{}", fi, if all == 0 { "clause" } else { "clauses" }, l, l + 1), nvals, runs: vec![], calls: vec![(Entry::Parse, a.b), (Entry::Parse, b.b)] }));
            }
        }
    }
    out
}

/// the statements of the families, with any of their optional clauses, for the properties
/// that speak of every statement
pub fn statements(g: &Gen, prop: &str) -> Vec<Arc<Template>> {
    use Entry::*;
    let cap = match (g.q(), prop) {
        (true, "P11" | "P12" | "P20" | "P29" | "P09") => 40,
        (true, _) => 100,
        _ => 1500,
    };
    let case = |s: &str, k: usize| -> String {
        let mut quote = None;
        s.chars()
            .enumerate()
            .map(|(i, c)| {
                if "'\"`".contains(c) {
                    quote = if quote.is_none() { Some(c) } else if quote == Some(c) { None } else { quote };
                }
                match quote {
                    Some(_) => c,
                    None if k == 0 => c.to_ascii_lowercase(),
                    None if (i + k) % 2 == 0 => c.to_ascii_uppercase(),
                    None => c.to_ascii_lowercase(),
                }
            })
            .collect()
    };
    const COMMENTED: [(&str, &str); 4] = [(" -- c\n", " /* d */ "), ("/* c */\n", "\n"), ("\n# c\n", " -- d\n"), ("\n\n/* c\nc */ ", " ")];
    const SECOND: [&str; 4] = ["SELECT 1 >> 2, ARRAY<STRUCT<a INT64>>[(1)] FROM t;", "BEGIN SELECT 1; END;", "CREATE TABLE t (a INT64 NOT NULL, b ARRAY<STRING>) AS SELECT 1;", "FROM t |> SELECT a, b;"];
    let blocks = crate::rel::blocks();
    let mut out = vec![];
    for (fi, fam) in FAMILIES.iter().enumerate() {
        let mut parts: Vec<Vec<String>> = fam.split('¦').map(|p| p.split('/').map(|a| if a == "?" { String::new() } else { a.to_string() }).collect()).collect();
        if matches!(prop, "P12" | "P19" | "P20") {
            let last = parts.last_mut().unwrap();
            last.iter_mut().for_each(|a| *a = a.trim_end_matches(';').to_string());
            if last.iter().all(|a| a.is_empty()) {
                parts.pop();
            }
            if prop != "P19" {
                parts.push(vec![";".into()]);
            }
        }
        let many: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].len() > 1).collect();
        let all: usize = many.iter().map(|i| parts[*i].len()).product();
        // windows of parts that vary together; the others are all there, or all absent
        let mut windows: Vec<(Vec<usize>, usize)> = vec![];
        if all <= cap {
            windows.push((many.clone(), 0));
        } else {
            for (k, l) in many.iter().enumerate() {
                if k % 2 == 1 && matches!(prop, "P11" | "P12" | "P20" | "P09") && g.q() {
                    continue;
                }
                let mut near = many.clone();
                near.sort_by_key(|i| (*i as i64 - *l as i64).abs());
                let mut n = 1;
                near.retain(|i| {
                    n *= parts[*i].len();
                    n <= cap
                });
                windows.push((near.clone(), 0));
                windows.push((near, 1));
            }
        }
        windows.sort();
        windows.dedup();
        for (w, (free, rest)) in windows.iter().enumerate() {
            let build = |sep: &str, inner: &str, upto: usize, map: &dyn Fn(&str) -> String| -> Text {
                let mut t = Text::default();
                t.nvals = free.iter().map(|i| parts[*i].len()).collect();
                for (i, p) in parts.iter().enumerate().take(upto) {
                    let alts: Vec<String> = p.iter().map(|a| map(a).replace(' ', inner)).collect();
                    match free.iter().position(|x| *x == i) {
                        Some(v) => t.choice_of(v as u16, &alts),
                        None => t = t.k(&alts[if p.len() > 1 { *rest } else { 0 }]),
                    }
                    t = t.k(sep);
                }
                t
            };
            let same = |s: &str| s.to_string();
            let plain = build(" ", " ", usize::MAX, &same);
            let id = format!("f{}:statements:{}", fi, w);
            let nvals = plain.nvals.clone();
            let mut push = |id: String, calls: Vec<(Entry, Vec<TB>)>| out.push(Arc::new(Template { id, nvals: nvals.clone(), runs: vec![], calls }));
            let (a, z) = COMMENTED[(fi + w) % 4];
            match prop {
                "P05" | "P13" => {
                    // cut off somewhere
                    for upto in 1..=parts.len() {
                        if free.contains(&(upto - 1)) || all > cap && upto < parts.len() {
                            continue;
                        }
                        let t = build(" ", " ", upto, &same).b;
                        push(format!("{}:{}", id, upto), if prop == "P05" { vec![(Parse, t)] } else { vec![(Tokenize, t.clone()), (Parse, t)] });
                    }
                }
                "P15" => push(id, vec![(Parse, plain.b)]),
                "P07" => {
                    let t = build(a, z, usize::MAX, &same).b;
                    push(id, vec![(Tokenize, t.clone()), (Parse, t)]);
                }
                "P09" => push(id, vec![(Parse, plain.b), (Parse, build(" ", " ", usize::MAX, &|s| case(s, (fi + w) % 3)).b)]),
                "P11" => push(id, vec![(Parse, plain.b), (Parse, build(a, z, usize::MAX, &same).b)]),
                "P12" => {
                    let b = SECOND[(fi + w) % 4];
                    let k = |s: &str| Text::default().k(s).b;
                    let ab = plain.clone().k("\n").k(b).b;
                    push(id, vec![(Parse, k(b)), (Parse, plain.b), (Parse, ab)]);
                }
                "P19" => push(id, vec![(Parse, plain.clone().k(";").b), (Parse, plain.b)]),
                "P20" => {
                    let (pre, post) = &blocks[(fi + w) % blocks.len()];
                    let wrap = |x: &str, y: &str| -> Vec<TB> { Text::default().k(x).k("\n").b.into_iter().chain(plain.b.iter().cloned()).chain(Text::default().k("\n").k(y).b).collect() };
                    push(format!("{}@1", id), vec![(Parse, wrap("", "")), (Parse, wrap(pre, post))]);
                }
                _ => push(id, vec![(Tokenize, plain.b.clone()), (Parse, plain.b)]),
            }
        }
    }
    out
}
