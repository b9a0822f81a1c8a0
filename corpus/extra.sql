WITH a AS (FROM t |> WHERE x), b AS (FROM u) SELECT 1 FROM a, b;
WITH RECURSIVE a AS (SELECT 1), b AS ((SELECT 2)) (SELECT 3) UNION ALL SELECT 4;
WITH a AS (SELECT 1) FROM a |> SELECT x;
WITH a AS (SELECT 1) SELECT 2 |> WHERE x;
SELECT (WITH a AS (SELECT 1) SELECT x FROM a);
SELECT ARRAY(WITH a AS (SELECT 1) SELECT x FROM a);
SELECT ARRAY(SELECT AS STRUCT 1 AS x, 2 AS y), EXISTS(SELECT 1);
SELECT WITH(a AS '1', b AS a, a || b) FROM t;
SELECT a IN UNNEST([1, 2]), a NOT IN UNNEST(b.c) FROM t;
SELECT a IN (WITH b AS (SELECT 1) SELECT x FROM b), a NOT IN (SELECT 1), a IN ('x'), a IN ();
SELECT * FROM UNNEST([1, 2]) AS x WITH OFFSET y, UNNEST(b) WITH OFFSET, UNNEST(c) z WITH OFFSET AS w;
SELECT * FROM t, t.arr AS a WITH OFFSET AS o WHERE o = 1;
CREATE TABLE t (a INT64 PRIMARY KEY NOT ENFORCED REFERENCES u (b) NOT ENFORCED NOT NULL OPTIONS (d = 'x'));
CREATE TABLE t (a INT64 CONSTRAINT c PRIMARY KEY ENFORCED, b STRING(10) COLLATE 'und:ci' CONSTRAINT d REFERENCES u (x) ENFORCED);
CREATE TABLE t (a INT64, PRIMARY KEY (a, b) ENFORCED, FOREIGN KEY (a) REFERENCES p.d.t (x, y) ENFORCED, CONSTRAINT c FOREIGN KEY (b) REFERENCES u (z) NOT ENFORCED, CONSTRAINT IF NOT EXISTS d PRIMARY KEY (c));
(SELECT 1) UNION ALL (SELECT 2) ORDER BY a LIMIT 10 OFFSET 5;
(SELECT 1 FROM t WHERE a) LIMIT 1 OFFSET 2;
(SELECT 1) ORDER BY 1 DESC NULLS LAST, 2 ASC NULLS FIRST LIMIT 1;
((SELECT 1) INTERSECT DISTINCT ((SELECT 2) EXCEPT DISTINCT (SELECT 3)));
SELECT 1 UNION ALL SELECT 2 UNION DISTINCT SELECT 3 ORDER BY 1 LIMIT 1 OFFSET 1;
SELECT 1 FULL OUTER UNION ALL BY NAME ON (a, b) SELECT 2;
SELECT 1 INNER UNION ALL BY NAME SELECT 2 LEFT OUTER INTERSECT DISTINCT CORRESPONDING BY (a) SELECT 3;
SELECT 1 LEFT UNION ALL STRICT CORRESPONDING SELECT 2;
SELECT 1 OUTER UNION ALL CORRESPONDING SELECT 2;
SELECT 1 UNION ALL STRICT CORRESPONDING BY (a, b) (SELECT 2);
FROM t |> LEFT UNION ALL BY NAME (SELECT 1), (SELECT 2) |> OUTER UNION ALL STRICT CORRESPONDING BY (a) (SELECT 3);
FROM t |> FULL OUTER INTERSECT DISTINCT CORRESPONDING (SELECT 1) |> EXCEPT DISTINCT (SELECT 2);
FROM t |> UNION ALL BY NAME ON (a, b) (SELECT 1);
FROM t |> SELECT DISTINCT AS STRUCT a AS b, c d, e, WINDOW w AS (PARTITION BY x), v AS w;
FROM t |> SELECT ALL a |> EXTEND a + b AS c, d |> SET x = 1, y = 2 |> DROP a, b |> RENAME a AS b, c AS d |> AS u;
FROM t |> WHERE a > 1 AND b |> ORDER BY a DESC NULLS LAST, b |> LIMIT 10 OFFSET 5 |> DISTINCT;
FROM t |> AGGREGATE COUNT(*) AS n, SUM(x) GROUP BY a AS b, c |> AGGREGATE MAX(y) DESC GROUP BY ROLLUP (a, b);
FROM t |> AGGREGATE MAX(y) GROUP BY GROUPING SETS ((a), (b, c)) |> CALL f(1, 'x') AS g, h(2);
FROM t |> JOIN u ON a = b |> LEFT JOIN v USING (c) |> FULL OUTER JOIN (SELECT 1) AS w ON TRUE |> CROSS JOIN x |> INNER JOIN y z USING (d, e);
FROM t AS a JOIN u AS b ON a.x = b.x |> TABLESAMPLE SYSTEM (10 PERCENT) |> PIVOT (SUM(a) FOR b IN ('x' AS y, 'z')) AS p;
FROM t |> UNPIVOT (a FOR b IN (c, d)) |> UNPIVOT INCLUDE NULLS (a FOR b IN (c AS 'x', d 1)) u |> UNPIVOT EXCLUDE NULLS ((a, b) FOR c IN ((d, e) AS 'x', (f, g))) AS v;
FROM t |> WITH a AS (SELECT 1), b AS (SELECT 2) |> JOIN a ON TRUE;
FROM t |> MATCH_RECOGNIZE (PARTITION BY a ORDER BY b DESC MEASURES FIRST(c) AS d, e AS f PATTERN (x y+ (z | w)*? v{1,2}) DEFINE x AS c > 1, y AS TRUE) AS m |> SELECT *;
SELECT * FROM t MATCH_RECOGNIZE (ORDER BY a MEASURES b AS c AFTER MATCH SKIP PAST LAST ROW PATTERN (^ a? b{2} c{,3}? d{4,} | e $) DEFINE a AS TRUE OPTIONS (x = TRUE)) m;
SELECT * FROM t MATCH_RECOGNIZE (MEASURES b AS c AFTER MATCH SKIP TO NEXT ROW PATTERN (a{@m, @n} | () b) DEFINE a AS TRUE);
SELECT 1 |> WHERE a |> LIMIT 1;
(SELECT 1) |> SELECT a |> AS b;
(FROM t |> SELECT a) UNION ALL (FROM u |> SELECT b);
SELECT * FROM (FROM t |> WHERE a) AS x JOIN (SELECT 1) y ON TRUE;
SELECT * FROM (t JOIN u USING (a)) LEFT OUTER JOIN ((v)) ON b, (w CROSS JOIN x);
SELECT * FROM ((SELECT 1) UNION ALL (SELECT 2)) AS a, ((SELECT 1) AS b JOIN (SELECT 2) AS c ON TRUE);
SELECT * FROM p.d.t FOR SYSTEM_TIME AS OF TIMESTAMP_SUB(a, INTERVAL 1 HOUR) WHERE b;
SELECT * FROM t AS a FOR SYSTEM_TIME AS OF '2020-01-01' TABLESAMPLE SYSTEM (5 PERCENT) INNER JOIN u TABLESAMPLE SYSTEM (1 PERCENT) USING (x, y);
SELECT * FROM region-us.INFORMATION_SCHEMA.TABLES, my-project.d.t AS a, `p.d.u`.v, my-project-1.d-2.t;
SELECT * FROM f(TABLE p.d.t, MODEL m.n, 1) AS g, ml.predict(MODEL d.m, (SELECT 1), STRUCT(1 AS threshold)), EXTERNAL_QUERY('a', 'b');
SELECT * FROM t PIVOT (SUM(a) AS s, COUNT(*) c FOR b IN ('x', 'y' AS z, 1 w)) AS p WHERE p.x;
SELECT * FROM t UNPIVOT INCLUDE NULLS ((a, b) FOR c IN ((d, e) AS 'x', (f, g) 'y')) AS u;
SELECT * FROM t UNPIVOT EXCLUDE NULLS (a FOR b IN (c, d AS 1)) u;
SELECT a, COUNT(*) FROM t GROUP BY ALL HAVING COUNT(*) > 1 QUALIFY ROW_NUMBER() OVER (w ORDER BY b) = 1 WINDOW w AS (PARTITION BY a), v AS w ORDER BY 1 LIMIT 2 OFFSET 3;
SELECT a FROM t WHERE b GROUP BY CUBE (a, b);
SELECT a FROM t GROUP BY GROUPING SETS (a, (b, c), ()), d ORDER BY a ASC;
SELECT SUM(a) OVER (PARTITION BY b, c ORDER BY d DESC, e ROWS BETWEEN 1 PRECEDING AND CURRENT ROW), AVG(a) OVER (ORDER BY b RANGE BETWEEN UNBOUNDED PRECEDING AND x + 1 FOLLOWING) FROM t;
SELECT SUM(a) OVER (ROWS 1 PRECEDING), MAX(a) OVER (ORDER BY b ROWS CURRENT ROW), MIN(a) OVER (w ROWS UNBOUNDED PRECEDING), LAST_VALUE(a IGNORE NULLS) OVER w, COUNT(*) OVER () FROM t WINDOW w AS (ORDER BY a);
SELECT ARRAY_AGG(DISTINCT a IGNORE NULLS ORDER BY b DESC, c LIMIT 10), ANY_VALUE(a HAVING MAX b), STRING_AGG(a, ',' ORDER BY b NULLS FIRST);
SELECT APPROX_TOP(DISTINCT x RESPECT NULLS), f(), a.f(), a.b.f(c).d, safe.substr('a', 0, -2), net.host(x);
SELECT CAST(a AS STRING FORMAT 'YYYY'), SAFE_CAST(a AS ARRAY<STRUCT<x INT64, STRING>>), CAST(a AS NUMERIC(10, 2)), CAST(NULL AS RANGE<DATE>);
SELECT EXTRACT(DAY FROM a AT TIME ZONE 'UTC'), EXTRACT(WEEK(MONDAY) FROM b), EXTRACT(YEAR FROM DATE '2020-01-01');
SELECT INTERVAL 1 DAY, INTERVAL '1-2' YEAR TO MONTH, INTERVAL a + 1 HOUR + b, DATE_ADD(c, INTERVAL -1 DAY);
SELECT DATE '2020-01-01', TIMESTAMP r'x', DATETIME "x", TIME 'x', NUMERIC '1', BIGNUMERIC '1', DECIMAL '1', BIGDECIMAL '1', JSON '{}', r'x', b"x", rb'x', BR"x", R'''x''', B"""x""";
SELECT RANGE<DATE> '[2020-01-01, UNBOUNDED)', ARRAY<INT64>[1, 2], ARRAY<STRUCT<a INT64, b STRING>>[(1, 'x')], ARRAY[1], [], ARRAY<INT64>[], STRUCT<INT64, x STRING>(1, 'a'), STRUCT(1 AS a, b c, 2), STRUCT(), (1, 2), (a), ();
SELECT ARRAY<ARRAY<INT64>>[], STRUCT<a ARRAY<STRUCT<b INT64>>, c STRUCT<>>(x, y), STRUCT<ARRAY<INT64>>(z);
SELECT CASE a WHEN 1 THEN 'x' WHEN b + 1 THEN 'y' ELSE CASE WHEN c THEN d END END AS e, IF(a, b, c), COALESCE(a, b);
SELECT a.b[OFFSET(0)].c[SAFE_ORDINAL(1)], a[0][1], f(x)[0].y, (SELECT AS STRUCT 1 AS x).x, STRUCT(1 AS a).a, [1, 2][OFFSET(0)], (a).b.c, 'x'.length(), (x).f().g(1);
SELECT a IS NULL, a IS NOT NULL, a IS TRUE, a IS NOT FALSE, a IS DISTINCT FROM b, a IS NOT DISTINCT FROM b + 1, NOT a IS NULL, a LIKE 'x', a NOT LIKE ANY ('x', 'y'), a LIKE ALL UNNEST(b), a LIKE SOME ('z');
SELECT a BETWEEN 1 AND 2 AND b NOT BETWEEN c + 1 AND d OR NOT e AND f, NOT NOT g, -(-h), ~i, +j, - - k;
SELECT a * b / c + d - e || f << g >> h & i ^ j | k = l, a < b, a > b, a <= b, a >= b, a <> b, a != b;
SELECT DISTINCT a AS b, c d, t.*, t.* EXCEPT (a, b), * REPLACE (a + 1 AS a, b AS c), t.* REPLACE (x AS y), * EXCEPT (z), FROM t;
SELECT ALL AS VALUE a FROM t;
SELECT WITH DIFFERENTIAL_PRIVACY OPTIONS (epsilon = 1, delta = .1) DISTINCT a FROM t;
SELECT WITH AGGREGATION_THRESHOLD OPTIONS (threshold = 1) a FROM t;
SELECT AS STRUCT a, b, c FROM t;
SELECT @a, @@b.c, ?, @`d`, {{ e }}, {f}, TRUE, false, NULL, 1, 1.5, .5, 5., 1e10, 2.5E-3, 0x1F, 'a\'b', "c\"d", """e"f""", '''g'h''' ;
SELECT f(a => 1, b => [2], c => (SELECT 3)), ST_GEOGFROMGEOJSON(x, make_valid => TRUE), ML.F(MODEL a.b, TABLE c);
SELECT date, time, timestamp, json, interval_, array_, r, b, table, model, value, day FROM t AS offset WHERE date > time;
SELECT /* a */ 1 -- b
, 2 # c
FROM t /* d
e */ WHERE x /* f */ /* g */ -- h
;
INSERT INTO t (a, b) VALUES (1, DEFAULT), (2, (SELECT 3));
INSERT t VALUES (1, 'x');
INSERT INTO p.d.t (a) SELECT 1 FROM u WHERE v;
INSERT t (a, b) (SELECT 1) UNION ALL SELECT 2;
INSERT INTO t WITH a AS (SELECT 1) SELECT * FROM a;
INSERT INTO t FROM u |> WHERE a;
DELETE FROM t AS a WHERE a.x IN (SELECT 1);
DELETE t WHERE TRUE;
DELETE FROM p.d.t a WHERE EXISTS(SELECT 1 FROM u WHERE u.x = a.x);
TRUNCATE TABLE p.d.t;
UPDATE t SET a = 1, b.c = 2, d = DEFAULT WHERE e;
UPDATE t AS a SET a.b = c.d + 1 FROM u AS c JOIN v ON c.x = v.x WHERE a.k = c.k;
UPDATE t a SET x = (SELECT 1) FROM (SELECT 2) b WHERE TRUE;
MERGE INTO t AS a USING u AS b ON a.x = b.x WHEN MATCHED AND a.y > 1 THEN UPDATE SET y = b.y, z = DEFAULT WHEN NOT MATCHED BY TARGET AND b.k THEN INSERT (x, y) VALUES (b.x, 1) WHEN NOT MATCHED BY SOURCE THEN DELETE;
MERGE t USING (SELECT 1 AS x) s ON FALSE WHEN NOT MATCHED THEN INSERT ROW WHEN MATCHED THEN DELETE;
MERGE d.t USING d.u ON a = b WHEN NOT MATCHED THEN INSERT VALUES (1, 2);
CREATE SCHEMA IF NOT EXISTS p.d DEFAULT COLLATE 'und:ci' OPTIONS (location = 'us');
CREATE EXTERNAL SCHEMA IF NOT EXISTS d WITH CONNECTION p.c OPTIONS (a = 1);
CREATE OR REPLACE VECTOR INDEX IF NOT EXISTS i ON d.t (a) STORING (b, c) PARTITION BY d OPTIONS (x = 'y');
CREATE SEARCH INDEX i ON t (ALL COLUMNS) OPTIONS (analyzer = 'x');
CREATE SEARCH INDEX IF NOT EXISTS i ON p.d.t (a, b) PARTITION BY TIMESTAMP_TRUNC(c, DAY);
CREATE OR REPLACE TEMP TABLE IF NOT EXISTS p.d.t (a INT64 NOT NULL OPTIONS (description = 'x'), b ARRAY<STRUCT<c STRING NOT NULL, d NUMERIC(5, 2)>> DEFAULT [], e STRING(5)) DEFAULT COLLATE '' PARTITION BY DATE(a) CLUSTER BY b, c OPTIONS (x = TRUE) AS SELECT 1;
CREATE TEMPORARY TABLE t AS WITH a AS (SELECT 1) SELECT * FROM a;
CREATE TABLE t LIKE p.d.u OPTIONS (a = 1);
CREATE TABLE t COPY u;
CREATE TABLE t CLONE p.d.u FOR SYSTEM_TIME AS OF x OPTIONS (a = 1);
CREATE SNAPSHOT TABLE IF NOT EXISTS t CLONE u OPTIONS (expiration_timestamp = x);
CREATE OR REPLACE EXTERNAL TABLE IF NOT EXISTS t (a INT64, b STRING) WITH CONNECTION p.c WITH PARTITION COLUMNS (c INT64, d DATE) OPTIONS (uris = ['a', 'b']);
CREATE EXTERNAL TABLE t WITH CONNECTION DEFAULT WITH PARTITION COLUMNS OPTIONS (format = 'csv');
CREATE TABLE t AS (SELECT 1) UNION ALL (SELECT 2);
CREATE OR REPLACE VIEW IF NOT EXISTS p.d.v (a OPTIONS (description = 'x'), b, c) OPTIONS (x = 1) AS SELECT 1;
CREATE MATERIALIZED VIEW IF NOT EXISTS v PARTITION BY DATE(a) CLUSTER BY b, c OPTIONS (enable_refresh = TRUE) AS SELECT a FROM t;
CREATE MATERIALIZED VIEW v OPTIONS (x = 1) AS REPLICA OF p.d.u;
CREATE OR REPLACE TEMP FUNCTION IF NOT EXISTS f(a INT64, b ANY TYPE, ARRAY<INT64>, c STRUCT<x INT64>) RETURNS STRUCT<y INT64, z ARRAY<STRING>> AS (a + b);
CREATE TEMPORARY AGGREGATE FUNCTION d.f(a INT64, b FLOAT64 NOT AGGREGATE) RETURNS FLOAT64 AS (SUM(a) / b);
CREATE OR REPLACE TABLE FUNCTION d.f(a INT64, t TABLE<x INT64, y STRING>) RETURNS TABLE<z INT64> AS SELECT a;
CREATE FUNCTION f() RETURNS INT64 NOT DETERMINISTIC LANGUAGE js OPTIONS (library = ['x']) AS r"""return 1;""";
CREATE FUNCTION f(x STRING) RETURNS INT64 DETERMINISTIC LANGUAGE js AS 'return 1;';
CREATE FUNCTION f(x STRING) RETURNS INT64 LANGUAGE python WITH CONNECTION p.c OPTIONS (entry_point = 'g') AS "x";
CREATE FUNCTION f(x STRING) RETURNS INT64 REMOTE WITH CONNECTION p.l.c OPTIONS (endpoint = 'x');
CREATE OR REPLACE PROCEDURE IF NOT EXISTS d.p(IN a INT64, OUT b STRING, INOUT c ARRAY<INT64>, d DATE) OPTIONS (strict_mode = FALSE) BEGIN SET b = 'x'; SELECT 1; END;
CREATE PROCEDURE p() EXTERNAL SECURITY INVOKER WITH CONNECTION x.y OPTIONS (engine = 'SPARK') LANGUAGE PYTHON AS R"""x""";
CREATE OR REPLACE ROW ACCESS POLICY IF NOT EXISTS r ON p.d.t GRANT TO ('user:a', 'group:b') FILTER USING (x = SESSION_USER());
CREATE ROW ACCESS POLICY r ON t FILTER USING (TRUE);
CREATE OR REPLACE MODEL IF NOT EXISTS d.m TRANSFORM (a + 1 AS b, c, ML.F(d) OVER () AS e) INPUT (x INT64, y STRING) OUTPUT (z ARRAY<FLOAT64>) REMOTE WITH CONNECTION DEFAULT OPTIONS (model_type = 'x') AS SELECT 1;
CREATE MODEL m REMOTE WITH CONNECTION p.c OPTIONS (endpoint = 'x');
CREATE MODEL m OPTIONS (a = 1) AS (training_data AS (SELECT 1), custom_holiday AS (SELECT 2));
CREATE CAPACITY p.r.c OPTIONS (slot_count = 100);
CREATE RESERVATION p.r.c AS JSON '''{"a": 1}''';
CREATE ASSIGNMENT `p`.r.c.d OPTIONS (assignee = 'x');
ALTER SCHEMA IF EXISTS p.d SET OPTIONS (a = 1);
ALTER SCHEMA d SET DEFAULT COLLATE 'und:ci';
ALTER SCHEMA IF EXISTS d ADD REPLICA x OPTIONS (location = 'us');
ALTER SCHEMA d DROP REPLICA x;
ALTER TABLE IF EXISTS p.d.t SET OPTIONS (a = 1);
ALTER TABLE t SET DEFAULT COLLATE '';
ALTER TABLE t ADD COLUMN IF NOT EXISTS a INT64 NOT NULL OPTIONS (x = 1), ADD COLUMN b STRUCT<c INT64, d ARRAY<STRING>>;
ALTER TABLE t ADD PRIMARY KEY (a, b) NOT ENFORCED, ADD CONSTRAINT IF NOT EXISTS c FOREIGN KEY (a) REFERENCES u (b) NOT ENFORCED, ADD FOREIGN KEY (d) REFERENCES v (e);
ALTER TABLE IF EXISTS t RENAME TO u;
ALTER TABLE t RENAME COLUMN IF EXISTS a TO b, RENAME COLUMN c TO d;
ALTER TABLE t DROP COLUMN IF EXISTS a, DROP COLUMN b;
ALTER TABLE t DROP CONSTRAINT IF EXISTS c;
ALTER TABLE t DROP PRIMARY KEY IF EXISTS;
ALTER TABLE t DROP PRIMARY KEY;
ALTER TABLE IF EXISTS t ALTER COLUMN IF EXISTS a SET OPTIONS (x = 1);
ALTER TABLE t ALTER COLUMN a SET DATA TYPE STRUCT<b INT64>;
ALTER TABLE t ALTER COLUMN a SET DEFAULT CURRENT_TIME() + 1;
ALTER TABLE t ALTER COLUMN a DROP DEFAULT;
ALTER TABLE t ALTER COLUMN IF EXISTS a DROP NOT NULL;
ALTER VECTOR INDEX IF EXISTS i ON p.d.t REBUILD;
ALTER VIEW IF EXISTS v SET OPTIONS (a = 1);
ALTER VIEW p.d.v ALTER COLUMN a SET OPTIONS (x = 1);
ALTER MATERIALIZED VIEW IF EXISTS v SET OPTIONS (a = 1);
ALTER ORGANIZATION SET OPTIONS (a = 1);
ALTER PROJECT p SET OPTIONS (a = 1);
ALTER PROJECT SET OPTIONS (a = 1);
ALTER BI_CAPACITY p.r.default SET OPTIONS (size_gb = 1);
ALTER CAPACITY p.r.c SET OPTIONS (a = 1);
ALTER RESERVATION p.r.c SET OPTIONS (a = 1);
ALTER MODEL IF EXISTS d.m SET OPTIONS (a = 1);
DROP EXTERNAL TABLE IF EXISTS t;
DROP MATERIALIZED VIEW IF EXISTS p.d.v;
DROP TABLE FUNCTION IF EXISTS f;
DROP SEARCH INDEX IF EXISTS i ON t;
DROP SCHEMA IF EXISTS d CASCADE;
DROP SCHEMA d RESTRICT;
DROP ROW ACCESS POLICY IF EXISTS r ON p.d.t;
DROP ALL ROW ACCESS POLICIES ON t;
DROP ASSIGNMENT IF EXISTS p.r.c;
UNDROP SCHEMA IF NOT EXISTS p.d;
GRANT `roles/a`, `roles/b` ON SCHEMA p.d TO 'user:a', "group:b";
REVOKE `roles/a` ON TABLE d.t FROM 'user:a', 'user:b';
DECLARE a, b, c ARRAY<INT64> DEFAULT [1];
DECLARE a DEFAULT (SELECT 1);
DECLARE a STRING;
SET a = 1;
SET (a, b) = (1, (SELECT 2));
SET @@time_zone = 'UTC';
EXECUTE IMMEDIATE CONCAT('a', b) INTO c, d USING 1 AS e, f;
EXECUTE IMMEDIATE 'x' USING a, b;
EXECUTE IMMEDIATE 'x';
BEGIN END;
BEGIN DECLARE a INT64; BEGIN SELECT 1; END; EXCEPTION WHEN ERROR THEN SELECT 2; RAISE; END;
BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN END;
IF a THEN SELECT 1; SELECT 2; ELSEIF b THEN SELECT 3; ELSEIF c THEN ELSE SELECT 4; END IF;
IF a THEN IF b THEN SELECT 1; END IF; END IF;
x: LOOP SELECT 1; BREAK x; CONTINUE; LEAVE; ITERATE x; END LOOP x;
x: BEGIN SELECT 1; END;
x: WHILE a DO SELECT 1; END WHILE x;
x: REPEAT SET a = 1; UNTIL a > 1 END REPEAT x;
x: FOR r IN (SELECT 1) DO SELECT r.a; END FOR x;
LOOP END LOOP;
REPEAT SELECT 1; SELECT 2; UNTIL a END REPEAT;
WHILE a < 1 DO SET a = a + 1; IF b THEN BREAK; END IF; END WHILE;
FOR r IN (WITH a AS (SELECT 1) SELECT * FROM a) DO SELECT r.x; SELECT 2; END FOR;
CASE WHEN a THEN SELECT 1; SELECT 2; WHEN b THEN ELSE SELECT 3; END CASE;
CASE a WHEN 1 THEN SELECT 1; ELSE END CASE;
BEGIN TRANSACTION;
BEGIN;
COMMIT TRANSACTION;
ROLLBACK;
RETURN;
RAISE USING MESSAGE = 'x';
RAISE;
CALL p.d.f(a, 1, (SELECT 2));
ASSERT a = 1 AS 'x';
ASSERT EXISTS(SELECT 1);
ASSERT (SELECT COUNT(*) FROM t) > 0;
EXPORT DATA WITH CONNECTION p.c OPTIONS (uri = 'x') AS SELECT 1 FROM t;
EXPORT DATA OPTIONS (uri = 'x') AS (SELECT 1) UNION ALL SELECT 2;
EXPORT MODEL d.m OPTIONS (uri = 'x');
EXPORT MODEL d.m;
LOAD DATA OVERWRITE p.d.t (a INT64, b STRING) PARTITION BY a CLUSTER BY b, c OPTIONS (x = 1) FROM FILES (uris = ['x'], format = 'csv') WITH PARTITION COLUMNS (d INT64) WITH CONNECTION p.c;
LOAD DATA INTO t OVERWRITE PARTITIONS (_PARTITIONTIME = TIMESTAMP '2020-01-01') (a INT64) FROM FILES (a = 1) WITH PARTITION COLUMNS;
LOAD DATA INTO t PARTITIONS (a = 1) FROM FILES (a = 1) WITH CONNECTION c;
LOAD DATA INTO TEMP TABLE t FROM FILES (a = 1);
CREATE VIEW v AS FROM t |> LIMIT 1;
INSERT INTO t FROM u;
SELECT (FROM t |> SELECT a), EXISTS(FROM t), a IN (FROM t);
SELECT ((SELECT 1) UNION ALL (SELECT 2)), a IN ((SELECT 1) LIMIT 1), WITH(x AS 1, x);
SELECT ARRAY((SELECT 1) EXCEPT DISTINCT (SELECT 2));
SELECT 1 UNION ALL (SELECT 2) ORDER BY 1 LIMIT 1 OFFSET 2;
SELECT * FROM ((SELECT 1 x) LEFT JOIN b USING (x));
SELECT 1 FROM (SELECT 2) FULL OUTER UNION ALL BY NAME SELECT 3;
SELECT 1 FROM t INNER EXCEPT DISTINCT CORRESPONDING SELECT 3;
INSERT INTO t (SELECT 1) UNION ALL (SELECT 2);
INSERT INTO t ((SELECT 1));
MERGE p-1.d.t USING q-2.d.u AS s ON a WHEN MATCHED THEN DELETE;
MERGE t USING u JOIN w ON b ON a WHEN MATCHED THEN DELETE;
CALL p-1.d.f(a - 1);
SELECT * FROM (SELECT 1) |> LIMIT 1;
FROM (FROM t |> LIMIT 1) |> WHERE a;
SELECT 1 UNION ALL (SELECT 2) |> LIMIT 1;
DECLARE a STRUCT<STRING(5), b NUMERIC(1, 2)>;
(FROM t |> EXTEND 1 AS a, |> SELECT a, |> AGGREGATE COUNT(*), |> SELECT b,);
SELECT a, |> AGGREGATE COUNT(*), GROUP BY a;
