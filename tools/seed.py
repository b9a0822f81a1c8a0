#!/usr/bin/env python3
"""Plant a bug: tools/seed.py SPEC.py ID... [--check]. A spec file defines BUGS = {id: dict(property, edits=[(file, old, new)],
demo (js), needs, breaks)}. Makes a scratch copy of /repo, applies the edits, builds, runs the tests, runs the demo on both trees,
and keeps the bug under seeded/<id>. With --check the bug is applied to /repo, its property's check is run, and /repo is restored."""
import os, subprocess, sys, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.0', CARGO_NET_OFFLINE='true')
DEMO = r'''#!/bin/bash
# run in /repo: builds the module as users get it and runs demo.js against it
H=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.98.0 CARGO_NET_OFFLINE=true
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cargo build --release --offline --lib --target wasm32-unknown-unknown --target-dir "$T/t" >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
/opt/vp/wbg/bin/wasm-bindgen --target nodejs --out-dir "$T/pkg" "$T/t/wasm32-unknown-unknown/release/bq2cst.wasm" || exit 2
BQ="$T/pkg/bq2cst.js" node "$H/demo.js"
'''
PRE = r'''const assert = require('assert');
const bq = require(process.env.BQ);
const run = (f, s) => { try { return { ok: f(s) } } catch (e) { return { err: e } } };
const parse = s => run(bq.parse, s), tokenize = s => run(bq.tokenize, s);
// all tokens of a tree (comments included)
const toks = x => Array.isArray(x) ? x.flatMap(toks) : x && typeof x === 'object' ?
  [...(x.token && x.token.literal ? [x.token] : []), ...Object.values(x.children || {}).flatMap(c => toks(c.Node || c.NodeVec))] : [];
const walk = (x, f) => { if (Array.isArray(x)) x.forEach(y => walk(y, f)); else if (x && typeof x === 'object') { f(x); Object.values(x.children || {}).forEach(c => walk(c.Node || c.NodeVec, f)) } };
// without positions, comments and case
const shape = x => Array.isArray(x) ? x.map(shape) : { n: x.node_type, t: x.token && x.token.literal.toUpperCase(),
  c: Object.fromEntries(Object.entries(x.children).filter(([k]) => !/_comments$/.test(k)).sort().map(([k, c]) => [k, shape(c.Node || c.NodeVec)])) };
'''
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout
def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(spec['BUGS'])
    for i in ids:
        b = spec['BUGS'][i]
        S = '/tmp/seedwork/repo'
        if not os.path.isdir(S):
            os.makedirs('/tmp/seedwork', exist_ok=True)
            sh(f'cp -a /repo {S}')
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
        bad = None
        for f, old, new in b['edits']:
            t = open(f'{S}/{f}').read()
            if t.count(old) != 1:
                bad = f'edit matches {t.count(old)} times: {old[:60]!r}'
                break
            open(f'{S}/{f}', 'w').write(t.replace(old, new))
        if bad:
            print(i, 'BAD', bad); continue
        _, diff = sh('git diff', S)
        # touches only original lines?
        r, out = sh('cargo test --offline -- --test-threads 8', S)
        if r:
            print(i, 'TESTS FAIL' if 'test result: FAILED' in out else 'BUILD FAILS\n' + out[-1500:]); continue
        with tempfile.TemporaryDirectory() as d:
            open(d + '/demo.sh', 'w').write(DEMO)
            open(d + '/demo.js', 'w').write(PRE + b['demo'] + '\n')
            r1, o1 = sh(f'bash {d}/demo.sh', S)
            r0, o0 = sh(f'bash {d}/demo.sh', '/repo')
            if r0 != 0 or r1 in (0, 2):
                print(i, 'DEMO', r0, r1, o0[-600:], o1[-600:]); continue
            D = f'{V}/seeded/{i}'
            os.makedirs(D, exist_ok=True)
            for f in ('demo.sh', 'demo.js'):
                shutil.copy(f'{d}/{f}', D)
        open(D + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(D + '/meta.json', 'w'), indent=1)
        print(i, 'kept', flush=True)
        if '--check' in sys.argv:
            check(i)
def check(i, tier='quick'):
    D = f'{V}/seeded/{i}'
    m = json.load(open(D + '/meta.json'))
    r, o = sh(f'git -C /repo apply {D}/patch.diff')
    if r:
        print(i, 'DOES NOT APPLY', o); return
    t = time.time()
    try:
        r, o = sh(f'bash {V}/check.sh {m["property"]} {tier}', V, 1200)
    finally:
        sh('git -C /repo checkout -q -- .')
    print(i, m['property'], 'CAUGHT' if r == 1 and f'VIOLATION property={m["property"]}' in o else 'MISSED', f'rc={r} {time.time()-t:.0f}s', flush=True)
    if r != 1: print(o[-400:])
if __name__ == '__main__':
    if sys.argv[1] == '--run':
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            check(i)
    else:
        main()
