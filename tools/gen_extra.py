#!/usr/bin/env python3
"""corpus/extra.json: valid statements for branches the repository's own test statements do not reach."""
import json, os
S = open(os.path.join(os.path.dirname(__file__), '../corpus/extra.sql')).read()
out, cur = [], []
for l in S.strip("\n").split("\n"):
    cur.append(l)
    if l.endswith(";") and not l.endswith("# c"):
        out.append("\n".join(cur)); cur = []
assert not cur
def tops(t, sep):
    """split at top-level separators"""
    parts, depth, cur, i = [], 0, "", 0
    while i < len(t):
        c = t[i]
        if c in "'\"`":
            n = 3 if t[i:i+3] == c * 3 else 1
            j = i + n
            while t[j:j+n] != c * n:
                j += 2 if t[j] == "\\" else 1
            cur += t[i:j+n]; i = j + n
            continue
        if c in "([{" : depth += 1
        if c in ")]}" : depth -= 1
        if c == "<" and cur.rstrip().upper().endswith(("ARRAY", "STRUCT", "RANGE")): depth += 100
        if c == ">" and depth >= 100: depth -= 100
        if depth == 0 and t.startswith(sep, i):
            parts.append(cur.strip()); cur = ""; i += len(sep)
            continue
        cur += c; i += 1
    return parts + [cur.strip()]
# long lists and pipes are cut into short statements: the cost of a hole grows with the statement
short = []
for t in out:
    body = t[:-1]
    up = body.upper()
    pipes = tops(body, "|>")
    items = tops(body[7:], ",") if up.startswith("SELECT ") and len(tops(body, " FROM ")) == 1 else []
    if len(pipes) > 3 and up.startswith("FROM "):
        short += [" |> ".join([pipes[0], a, b]) + ";" for a, b in zip(pipes[1::2], pipes[2::2])]
        if len(pipes) % 2 == 0:
            short.append(" |> ".join([pipes[0], pipes[-1]]) + ";")
    elif len(items) > 3 and not any(k in up for k in ("UNION", "WITH", "|>", "/*", "ORDER BY 1")):
        short += ["SELECT " + ", ".join(items[k:k+2]) + ";" for k in range(0, len(items), 2)]
    else:
        short.append(t)
out = short
# statements without their final semicolon (accepted without one)
nosemi = ["SELECT a FROM t", "FROM t |> SELECT a", "DROP TABLE t", "BEGIN SELECT 1; END", "CREATE TABLE t (a INT64)", "COMMIT", "RAISE", "SET a = 1", "CALL p()", "(SELECT 1)", "WITH a AS (SELECT 1) SELECT 2", "a: BEGIN END", "a: LOOP BREAK; END LOOP a", "BREAK", "CONTINUE a"]
json.dump({"ok": out + nosemi}, open(os.path.join(os.path.dirname(__file__), "../corpus/extra.json"), "w"), indent=0)
print(len(out))
