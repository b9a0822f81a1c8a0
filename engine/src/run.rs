//! Driver: jobs over worker threads, solver verdicts, replay, evidence.
use crate::exec::*;
use crate::gen::*;
use crate::props::*;
use crate::ts::Types;
use crate::val::*;
use crate::z3ffi::Res;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Opt {
    pub prop: String,
    pub tier: Tier,
    pub verif: String,
    pub repo: String,
    pub wasm: String,
    pub threads: usize,
    pub deadline: f64,
    pub filter: Option<String>,
    pub keep_going: bool,
    pub max_paths: usize,
    pub seed: u64,
}
fn hash(s: &str, seed: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
#[derive(Default)]
struct Tot {
    templates: u64,
    held: u64,
    inconclusive: u64,
    paths: u64,
    steps: u64,
    hits: u64,
    z3_feas: u64,
    z3_final: u64,
    z3_ms: f64,
    quick_models: u64,
    unsupported: u64,
    skipped: u64,
    notes: BTreeMap<String, u64>,
    families: BTreeMap<String, (u64, u64)>,
    executed: Vec<bool>,
    max_vars: usize,
    slow: Vec<(f64, String, usize)>,
    samples: Vec<(u64, Arc<Template>, Vec<u8>)>,
    merges: u64,
    forks: u64,
}
struct Found {
    msg: String,
    tmpl: Arc<Template>,
    model: Vec<u8>,
}
enum Verdict {
    Known(String),
    New(String),
    NotReproduced(String),
}

fn family(id: &str) -> String {
    let p: Vec<&str> = id.split(':').collect();
    p.iter().skip(1).filter(|s| s.parse::<u64>().is_err()).map(|s| s.trim_end_matches(|c: char| c.is_ascii_digit() || c == '@')).collect::<Vec<_>>().join(":")
}

pub struct Replayer {
    pkg: String,
    js: String,
    build: Option<std::thread::JoinHandle<bool>>,
    ok: bool,
}
fn call_json(t: &Template) -> Vec<Value> {
    t.calls
        .iter()
        .map(|(e, b)| {
            let bytes: Vec<u8> = b
                .iter()
                .map(|x| match x {
                    TB::K(c) => *c,
                    _ => panic!("replay of a symbolic text"),
                })
                .collect();
            json!({"entry": if e.parse() {"parse"} else {"tokenize"}, "fresh": e.fresh(), "text": String::from_utf8(bytes).expect("utf8")})
        })
        .collect()
}
impl Replayer {
    fn new(o: &Opt) -> Replayer {
        // the real module is built while the exploration runs
        let sh = format!("{}/tools/build_real.sh", o.verif);
        let skip = o.keep_going && o.prop != "P15";
        let h = std::thread::spawn(move || !skip && Command::new("bash").arg(&sh).status().map(|s| s.success()).unwrap_or(false));
        Replayer { pkg: format!("{}/build/pkg", o.verif), js: format!("{}/engine/replay.js", o.verif), build: Some(h), ok: false }
    }
    fn ensure(&mut self) -> bool {
        if let Some(h) = self.build.take() {
            self.ok = h.join().unwrap_or(false);
            if !self.ok {
                eprintln!("replay: building the real module failed");
            }
        }
        self.ok
    }
    /// each group of calls in an instance of its own
    fn node(&self, groups: Vec<Vec<Value>>) -> Vec<Vec<ROut>> {
        let ns: Vec<usize> = groups.iter().map(|g| g.len()).collect();
        let split = |v: Vec<ROut>| -> Vec<Vec<ROut>> {
            let mut it = v.into_iter();
            ns.iter().map(|n| it.by_ref().take(*n).collect()).collect()
        };
        let all = |f: &dyn Fn() -> ROut| -> Vec<Vec<ROut>> { ns.iter().map(|n| (0..*n).map(|_| f()).collect()).collect() };
        let req = json!({"pkg": self.pkg, "groups": groups}).to_string();
        let mut ch = Command::new("node")
            .arg(&self.js)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node");
        ch.stdin.take().unwrap().write_all(req.as_bytes()).ok();
        let mut so = ch.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut so, &mut s).ok();
            s
        });
        let t0 = Instant::now();
        loop {
            if let Ok(Some(_)) = ch.try_wait() {
                break;
            }
            if t0.elapsed() > Duration::from_secs(20) {
                ch.kill().ok();
                ch.wait().ok();
                rd.join().ok();
                return all(&|| ROut::Hang);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        let s = rd.join().unwrap_or_default();
        // a tree may be nested deeper than serde_json's default limit
        let mut de = serde_json::Deserializer::from_str(&s);
        de.disable_recursion_limit();
        match <Value as serde::Deserialize>::deserialize(&mut de) {
            Ok(Value::Array(v)) => split(
                v.iter()
                    .map(|o| match o["kind"].as_str() {
                        Some("ok") => ROut::Ok(from_json(&o["v"])),
                        Some("err") => ROut::Err(from_json(&o["v"])),
                        _ => ROut::Trap(o["msg"].as_str().unwrap_or("").to_string()),
                    })
                    .collect(),
            ),
            _ => all(&|| ROut::Trap("node ended abnormally".into())),
        }
    }
    /// the calls' results in the real module
    pub fn run(&mut self, t: &Template, shared: bool) -> Option<Vec<ROut>> {
        if !self.ensure() {
            return None;
        }
        let calls = call_json(t);
        if shared {
            self.node(vec![calls]).pop()
        } else {
            Some(calls.into_iter().flat_map(|c| self.node(vec![vec![c]]).pop().unwrap()).collect())
        }
    }
}
fn concrete(t: &Template, model: &[u8]) -> Template {
    Template {
        id: t.id.clone(),
        nvals: vec![],
        runs: vec![],
        calls: (0..t.calls.len()).map(|i| (t.calls[i].0, t.render(i, model).into_iter().map(TB::K).collect())).collect(),
    }
}

/// lines `known: property=<id> inputs=<JSON list of the calls' texts> what=<...>`
fn known_findings(verif: &str, prop: &str) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    for l in s.lines() {
        let rest = match l.strip_prefix(&format!("known: property={} inputs=", prop)) {
            Some(r) => r,
            None => continue,
        };
        if let Some((inputs, what)) = rest.split_once(" what=") {
            if let Ok(v) = serde_json::from_str::<Vec<String>>(inputs) {
                out.push((what.to_string(), v));
            }
        }
    }
    out
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let verif = arg("--verif").unwrap_or("/verif".into());
    let tier = if arg("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let o = Opt {
        prop: arg("--prop").expect("--prop"),
        tier,
        repo: arg("--repo").unwrap_or("/repo".into()),
        wasm: arg("--wasm").unwrap_or(format!("{}/build/t/wasm32-unknown-unknown/release/harness.wasm", verif)),
        threads: arg("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
        deadline: arg("--deadline").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600.0 } else { 7200.0 }),
        filter: arg("--filter"),
        keep_going: a.iter().any(|x| x == "--keep-going"),
        max_paths: std::env::var("MAX_PATHS").ok().and_then(|s| s.parse().ok()).unwrap_or(400_000),
        seed: arg("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
        verif,
    };
    std::process::exit(check(&o));
}

fn load_corpus(o: &Opt, m: &mut Machine) -> Vec<Stmt> {
    let mut out = vec![];
    for (f, tag) in [("base", "b"), ("extra", "x")] {
        let p = format!("{}/corpus/{}.json", o.verif, f);
        if let Ok(s) = std::fs::read_to_string(&p) {
            let v: Value = serde_json::from_str(&s).expect("corpus");
            for (i, t) in v["ok"].as_array().unwrap().iter().enumerate() {
                match Stmt::new(m, format!("{}{}", tag, i), t.as_str().unwrap()) {
                    Some(s) => out.push(s),
                    None => eprintln!("corpus text does not tokenize: {}", t),
                }
            }
        }
    }
    // the shortest statement that has a context stands for it
    out.sort_by_key(|s| s.text.len());
    out
}

fn check(o: &Opt) -> i32 {
    let t0 = Instant::now();
    let prog = Program::load(&std::fs::read(&o.wasm).expect("wasm")).expect("module");
    let rep = Mutex::new(Replayer::new(o));
    let types = Arc::new(if o.prop == "P15" {
        // what users get: the .d.ts wasm-bindgen writes next to the module
        let built = rep.lock().unwrap().ensure();
        let dts = std::fs::read_to_string(format!("{}/build/pkg/bq2cst.d.ts", o.verif)).unwrap_or_default();
        match Types::load(&dts) {
            Ok(t) if built => t,
            r => {
                eprintln!("inconclusive: the TypeScript declarations cannot be read: {:?}", r.err());
                crate::evidence::write(o, json!({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "inconclusive": "declarations not readable"}), 0, t0.elapsed().as_secs_f64());
                return 0;
            }
        }
    } else {
        Types::default()
    });
    let mut m0 = Machine::new(prog.clone());
    let g = Gen { ok: load_corpus(o, &mut m0), tier: o.tier };
    let g_corpus_len = g.ok.len();
    let mut jobs = g.jobs(&o.prop);
    if let Some(f) = &o.filter {
        jobs.retain(|t| t.id.contains(f.as_str()));
    }
    let nj = jobs.len();
    eprintln!("{}: {} templates ({:.1}s)", o.prop, nj, t0.elapsed().as_secs_f64());
    // spread expensive neighbours over the workers
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..nj).collect();
        let mut s: u64 = 0x9e3779b97f4a7c15;
        for i in (1..nj).rev() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (s >> 33) as usize % (i + 1));
        }
        v
    };
    let known = known_findings(&o.verif, &o.prop);
    let next = AtomicUsize::new(0);
    let stop = Arc::new(AtomicBool::new(false));
    let late = t0 + Duration::from_secs_f64(o.deadline);
    let tot = Mutex::new(Tot { executed: vec![false; prog.m.funcs.len()], ..Default::default() });
    let violation: Mutex<Vec<(String, String)>> = Mutex::new(vec![]); // (message, replay file)
    let known_seen: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let seen_msgs: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            let body = || {
                let mut m = Machine::new(prog.clone());
                m.fuel = 12_000_000;
                m.deadline = Some(late);
                if !o.keep_going {
                    m.stop = Some(stop.clone());
                }
                let cx = Ctx { types: &types };
                let mut l = Tot::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= nj || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > o.deadline {
                        l.skipped += 1;
                        continue;
                    }
                    let t = jobs[order[i]].clone();
                    let mut j = Judge { hits: 0 };
                    let tj = Instant::now();
                    let ex = m.explore(t.clone(), o.max_paths, &mut |m| {
                        let r = outs(m);
                        judge(&o.prop, m, &r, &cx, &mut j)
                    });
                    l.templates += 1;
                    l.paths += ex.paths as u64;
                    l.steps += ex.steps;
                    l.hits += j.hits;
                    l.unsupported += ex.unsupported as u64;
                    l.max_vars = l.max_vars.max(t.nvals.len());
                    let f = l.families.entry(family(&t.id)).or_default();
                    f.0 += 1;
                    f.1 += ex.paths as u64;
                    if std::env::var("DUMP_PATHS").is_ok() {
                        for (d, c) in ex.pcs.iter().take(2000) {
                            let show: Vec<String> = d.iter().enumerate().map(|(v, s)| {
                                let tab = t.calls.iter().flat_map(|c| c.1.iter()).find_map(|b| match b { TB::S(w, tab) if *w as usize == v => Some(tab.clone()), _ => None });
                                let n = crate::sym::set_count(s) as usize;
                                let all: Vec<u8> = crate::sym::set_iter(s).filter_map(|i| tab.as_ref().map(|t| t[i as usize])).collect();
                                if n == t.nvals[v] { "*".into() } else if n > 20 { format!("({} values)", n) } else { String::from_utf8_lossy(&all).to_string() }
                            }).collect();
                            eprintln!("  path {} cons {}", show.join(" "), c.len());
                        }
                    }
                    let mut found = vec![];
                    let (res, model) = m.verdict(&ex);
                    // one path of some templates is kept for comparison with the real module
                    let h = hash(&t.id, o.seed);
                    if l.samples.len() < 40 || l.samples.last().map_or(true, |s| h < s.0) {
                        let md = m.ps.model.clone();
                        let at = l.samples.partition_point(|s| s.0 < h);
                        l.samples.insert(at, (h, t.clone(), md));
                        l.samples.truncate(40);
                    }
                    if !ex.bad.is_empty() {
                        if let Some(md) = model {
                            found.push(Found { msg: String::new(), tmpl: t.clone(), model: md });
                        }
                        for (msg, md) in ex.bad.iter() {
                            if found.iter().filter(|f| f.msg == *msg).count() == 0 && found.len() < 4 {
                                found.push(Found { msg: msg.clone(), tmpl: t.clone(), model: md.clone() });
                            }
                        }
                    } else if res == Res::Unsat && ex.complete && ex.unsupported == 0 {
                        l.held += 1;
                    } else {
                        l.inconclusive += 1;
                        let why = if ex.unsupported > 0 {
                            format!("unsupported: {}", ex.unsupported_msg.clone().unwrap_or_default())
                        } else if !ex.complete {
                            "path limit".into()
                        } else {
                            format!("solver: {:?}", res)
                        };
                        *l.notes.entry(why).or_default() += 1;
                    }
                    let dt = tj.elapsed().as_secs_f64();
                    l.slow.push((dt, t.id.clone(), ex.paths));
                    if l.slow.len() > 200 {
                        l.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                        l.slow.truncate(20);
                    }
                    if !found.is_empty() {
                        let mut confirmed = false;
                        for f in found {
                            if stop.load(Ordering::Relaxed) && !o.keep_going {
                                break;
                            }
                            let c = Arc::new(concrete(&f.tmpl, &f.model));
                            if o.keep_going {
                                // survey mode: list, without replay
                                let mut s = seen_msgs.lock().unwrap();
                                let n = s.entry(f.msg.clone()).or_default();
                                *n += 1;
                                if *n <= std::env::var("FOUND_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(2) && !f.msg.is_empty() {
                                    let texts: Vec<String> = (0..c.calls.len()).map(|i| String::from_utf8_lossy(&c.render(i, &[])).to_string()).collect();
                                    println!("FOUND {} [{}] {:?}", f.msg, f.tmpl.id, texts);
                                }
                                confirmed = true;
                                continue;
                            }
                            match confirm(o, &rep, &mut m, &c, &cx, &f.msg, &known) {
                                Verdict::New(path) => {
                                    let mut v = violation.lock().unwrap();
                                    v.push((f.msg.clone(), path));
                                    stop.store(true, Ordering::Relaxed);
                                    confirmed = true;
                                    break;
                                }
                                Verdict::Known(w) => {
                                    *known_seen.lock().unwrap().entry(w).or_default() += 1;
                                    confirmed = true;
                                }
                                Verdict::NotReproduced(w) => {
                                    *l.notes.entry(format!("not reproduced by the real module: {}", w)).or_default() += 1;
                                }
                            }
                        }
                        if !confirmed {
                            l.inconclusive += 1;
                        }
                    }
                }
                if PROFILE {
                    let mut v: Vec<(u64, u32)> = m.prof.iter().map(|(k, v)| (*v, *k)).filter(|x| x.0 < 1 << 50).collect();
                    v.sort();
                    let t: u64 = v.iter().map(|x| x.0).sum();
                    for (n, f) in v.iter().rev().take(25) {
                        eprintln!("  {:5.1}% {}", *n as f64 * 100.0 / t as f64, prog.m.funcs[*f as usize].name);
                    }
                }
                l.z3_feas = m.stats.z3_feas;
                l.z3_final = m.stats.z3_final;
                l.z3_ms = m.stats.z3_ms;
                l.quick_models = m.stats.quick_models;
                let mut g = tot.lock().unwrap();
                g.templates += l.templates;
                g.held += l.held;
                g.inconclusive += l.inconclusive;
                g.paths += l.paths;
                g.steps += l.steps;
                g.hits += l.hits;
                g.z3_feas += l.z3_feas;
                g.z3_final += l.z3_final;
                g.z3_ms += l.z3_ms;
                g.quick_models += l.quick_models;
                g.unsupported += l.unsupported;
                g.skipped += l.skipped;
                g.max_vars = g.max_vars.max(l.max_vars);
                for (k, v) in l.notes {
                    *g.notes.entry(k).or_default() += v;
                }
                for (k, v) in l.families {
                    let e = g.families.entry(k).or_default();
                    e.0 += v.0;
                    e.1 += v.1;
                }
                for (i, e) in m.executed.iter().enumerate() {
                    if *e {
                        g.executed[i] = true;
                    }
                }
                g.slow.extend(l.slow);
                g.samples.extend(l.samples);
                g.merges += m.stats.merges;
                g.forks += m.stats.forks;
            };
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, body).unwrap();
        }
    });
    let mut g = tot.into_inner().unwrap();
    let mut viol = violation.into_inner().unwrap();
    let mut ks = known_seen.into_inner().unwrap();
    let mut validated = 0u64;
    let mut sample_docs: Vec<Value> = vec![];
    if viol.is_empty() && !o.keep_going {
        let mut m = Machine::new(prog.clone());
        m.fuel = 50_000_000;
        let cx = Ctx { types: &types };
        g.samples.sort_by_key(|s| s.0);
        g.samples.truncate(if o.tier == Tier::Quick { 60 } else { 200 });
        let cs: Vec<Arc<Template>> = g.samples.iter().map(|(_, t, md)| Arc::new(concrete(t, md))).collect();
        let mut r = rep.lock().unwrap();
        let real = if r.ensure() { r.node(cs.iter().map(|c| call_json(c)).collect()) } else { vec![] };
        drop(r);
        for (c, real) in cs.iter().zip(&real) {
            let mut mine = vec![];
            let mut verdict = Ok(());
            m.explore(c.clone(), 1, &mut |m| {
                mine = outs(m);
                let mut j = Judge { hits: 0 };
                verdict = judge(&o.prop, m, real, &cx, &mut j);
                Ok(())
            });
            let same = mine.len() == real.len() && mine.iter().zip(real.iter()).all(|(a, b)| same_out(&mut m, a, b));
            if same {
                validated += 1;
            }
            if sample_docs.len() < 6 {
                sample_docs.push(json!({"template": c.id, "calls": call_json(c), "real_module_agrees_with_the_model": same, "property_on_real_result": verdict.is_ok()}));
            }
            if !same {
                let show = |v: &[ROut]| v.iter().map(|x| show_out(x).to_string().chars().take(200).collect::<String>()).collect::<Vec<_>>().join(" ; ");
                eprintln!("the real module and the model differ on {} {:?}: {} / {}", c.id, call_json(c), show(&mine), show(real));
                *g.notes.entry("the real module and the model differ on a sampled path".into()).or_default() += 1;
            }
            if verdict.is_err() && viol.is_empty() {
                match confirm(o, &rep, &mut m, c, &cx, "", &known) {
                    Verdict::New(path) => viol.push((String::new(), path)),
                    Verdict::Known(w) => *ks.entry(w).or_default() += 1,
                    Verdict::NotReproduced(_) => (),
                }
            }
        }
    }
    g.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    g.slow.truncate(8);
    let wall = t0.elapsed().as_secs_f64();
    eprintln!(
        "{}: templates {} held {} inconclusive {} skipped {} paths {} hits {} steps {:.2e} z3 {}+{} ({:.1}s) wall {:.1}s",
        o.prop,
        g.templates,
        g.held,
        g.inconclusive,
        g.skipped,
        g.paths,
        g.hits,
        g.steps as f64,
        g.z3_feas,
        g.z3_final,
        g.z3_ms / 1e3,
        wall
    );
    for (k, v) in &g.notes {
        eprintln!("  note: {} x {}", v, k);
    }
    if std::env::var("VERBOSE").is_ok() {
        for (k, v) in &g.families {
            eprintln!("  family {}: {} templates, {} paths", k, v.0, v.1);
        }
        for (d, i, p) in &g.slow {
            eprintln!("  slow {:.2}s {} ({} paths)", d, i, p);
        }
    }
    if o.keep_going {
        for (k, v) in seen_msgs.into_inner().unwrap() {
            println!("{:6} {}", v, k);
        }
    }
    if o.filter.is_none() {
        crate::evidence::write(
            o,
            json!({
                "states": g.paths,
                "transitions": g.steps,
                "traces_validated_against_impl": validated,
                "samples": sample_docs,
                "templates": g.templates,
                "templates_decided": g.held,
                "templates_inconclusive": g.inconclusive,
                "templates_not_reached_before_the_deadline": g.skipped,
                "paths_on_which_the_property_had_something_to_say": g.hits,
                "path_splits": g.forks,
                "path_joins": g.merges,
                "solver_queries_feasibility": g.z3_feas,
                "solver_queries_verdict": g.z3_final,
                "solver_time_s": g.z3_ms / 1e3,
                "branches_decided_by_a_known_model": g.quick_models,
                "largest_number_of_symbolic_variables": g.max_vars,
                "families": g.families.iter().map(|(k, v)| (k.clone(), json!({"templates": v.0, "paths": v.1}))).collect::<serde_json::Map<_, _>>(),
                "functions_encoded": g_corpus(&g.executed, &prog),
                "statements_in_corpus": g_corpus_len,
                "notes": g.notes,
                "known_findings_seen": ks,
            }),
            viol.len(),
            wall,
        );
    }
    for w in ks.keys() {
        println!("KNOWN-FINDING: property={} {}", o.prop, w);
    }
    if let Some((msg, path)) = viol.first() {
        if !msg.is_empty() {
            println!("{}", msg);
        }
        println!("VIOLATION property={} replay={}", o.prop, path);
        return 1;
    }
    0
}
fn g_corpus(ex: &[bool], p: &Program) -> Value {
    let names: std::collections::BTreeSet<String> = ex
        .iter()
        .enumerate()
        .filter(|(i, e)| **e && p.m.funcs[*i].name.contains("bq2cst"))
        .map(|(i, _)| demangle(&p.m.funcs[i].name))
        .collect();
    json!(names.into_iter().collect::<Vec<_>>())
}
/// readable name: the path segments of a mangled Rust name
pub fn demangle(s: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let k = if b.get(j) == Some(&b'_') { j + 1 } else { j };
            if n > 1 && k + n <= b.len() && b[k..k + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$' || *c == b'.') {
                let seg = &s[k..k + n];
                if !(seg.len() == 17 && seg.starts_with('h')) {
                    out.push(seg.to_string());
                }
                i = k + n;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        s.to_string()
    } else {
        out.join("::")
    }
}

fn confirm(o: &Opt, rep: &Mutex<Replayer>, m: &mut Machine, c: &Arc<Template>, cx: &Ctx, msg: &str, known: &[(String, Vec<String>)]) -> Verdict {
    let shared = o.prop == "P17";
    let mut r = rep.lock().unwrap();
    let outs = match r.run(c, shared) {
        Some(x) => x,
        None => return Verdict::NotReproduced("the real module could not be built".into()),
    };
    m.reset(c.clone());
    let mut j = Judge { hits: 0 };
    let v = judge(&o.prop, m, &outs, cx, &mut j);
    let texts: Vec<String> = (0..c.calls.len()).map(|i| String::from_utf8_lossy(&c.render(i, &[])).to_string()).collect();
    match v {
        Ok(()) => {
            eprintln!("not reproduced: {} {:?}", msg, texts);
            Verdict::NotReproduced(msg.to_string())
        }
        Err(e) => {
            for (what, inputs) in known {
                if *inputs == texts {
                    return Verdict::Known(what.clone());
                }
            }
            let path = format!("{}/evidence/replay-{}.json", o.verif, o.prop);
            let calls: Vec<Value> = c
                .calls
                .iter()
                .zip(&texts)
                .map(|((e, _), t)| json!({"entry": if e.parse() {"parse"} else {"tokenize"}, "fresh": e.fresh(), "text": t}))
                .collect();
            let doc = json!({
                "property": o.prop, "what": e, "template": c.id, "calls": calls, "same_instance": shared,
                "observed": outs.iter().map(|o| show_out(o)).collect::<Vec<_>>(),
                "how": "bash /verif/tools/replay.sh <this file> builds the real module from /repo and runs these calls",
            });
            std::fs::create_dir_all(format!("{}/evidence", o.verif)).ok();
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
            println!("counterexample ({}): {:?}", e, texts);
            Verdict::New(path)
        }
    }
}
fn same_out(m: &mut Machine, a: &ROut, b: &ROut) -> bool {
    match (a, b) {
        (ROut::Ok(x), ROut::Ok(y)) | (ROut::Err(x), ROut::Err(y)) => val_eq(m, x, y),
        (ROut::Trap(_), ROut::Trap(_)) | (ROut::Hang, ROut::Hang) => true,
        _ => false,
    }
}
fn show_val(v: &Val) -> Value {
    match v {
        Val::Undef => json!("<undefined>"),
        Val::Null => Value::Null,
        Val::Bool(b) => json!(b),
        Val::Num(x) => json!(x),
        Val::Str(b) => json!(String::from_utf8_lossy(&b.iter().map(|x| x.c as u8).collect::<Vec<_>>())),
        Val::Arr(a) => Value::Array(a.iter().map(show_val).collect()),
        Val::Obj(a) => Value::Object(a.iter().map(|(k, v)| (k.clone(), show_val(v))).collect()),
        Val::Other(s) => json!(format!("<{}>", s)),
    }
}
fn show_out(o: &ROut) -> Value {
    match o {
        ROut::Ok(v) => json!({"returns": show_val(v)}),
        ROut::Err(v) => json!({"throws": show_val(v)}),
        ROut::Trap(s) => json!({"crashes": s}),
        ROut::Hang => json!({"hangs": true}),
        ROut::Missing => json!(null),
    }
}
