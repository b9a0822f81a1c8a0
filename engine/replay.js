// Runs calls of the real module (wasm-bindgen's own glue) and dumps what they
// return or throw as tagged JSON. stdin: {"pkg": dir, "groups": [[{"entry","text"}]]};
// every group of calls runs in a module instance of its own.
const fs = require("fs");
const req = JSON.parse(fs.readFileSync(0, "utf8"));
console.error = () => {};
const path = require.resolve(req.pkg + "/bq2cst.js");
function fresh() {
  delete require.cache[path];
  return require(path);
}
function dump(v, d) {
  if (d > 3000) return { t: "too deep" };
  if (v === undefined) return { t: "undefined" };
  if (v === null) return { t: "null" };
  switch (typeof v) {
    case "boolean": return { t: "bool", v };
    case "number": return { t: "num", v: Number.isFinite(v) ? v : null };
    case "string": return { t: "str", v };
    case "object": break;
    default: return { t: typeof v };
  }
  if (Array.isArray(v)) return { t: "arr", v: v.map((x) => dump(x, d + 1)) };
  const p = Object.getPrototypeOf(v);
  if (p === Object.prototype || p === null) return { t: "obj", v: Object.keys(v).map((k) => [k, dump(v[k], d + 1)]) };
  return { t: p.constructor ? p.constructor.name : "object" };
}
const out = [];
for (const g of req.groups) {
  let m = fresh();
  for (const c of g) {
    if (c.fresh) m = fresh();
    try {
      const r = m[c.entry](c.text);
      out.push({ kind: "ok", v: dump(r, 0) });
    } catch (e) {
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) out.push({ kind: "trap", msg: String(e.message) });
      else out.push({ kind: "err", v: dump(e, 0) });
    }
  }
}
process.stdout.write(JSON.stringify(out));
