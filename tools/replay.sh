#!/bin/bash
# replay.sh <file>: runs the calls of a counterexample against the real module built from /repo.
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
bash "$V/tools/build_real.sh" || exit 2
node -e '
const d = JSON.parse(require("fs").readFileSync(process.argv[1], "utf8"));
const path = process.argv[2] + "/build/pkg/bq2cst.js";
let m = require(path);
console.error = () => {};
console.log(d.property + ": " + d.what);
for (const c of d.calls) {
  if (!d.same_instance || c.fresh) { delete require.cache[require.resolve(path)]; m = require(path); }
  console.log(c.entry + "(" + JSON.stringify(c.text) + ")");
  try { console.log("  returns " + JSON.stringify(m[c.entry](c.text))); }
  catch (e) { console.log("  throws " + (e instanceof Error ? e : JSON.stringify(e))); }
}' "$1" "$V"
