#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
mod body;
mod concretize;
mod cs;
mod cut;
mod exec;
mod ghost;
mod natives;
mod smt;
mod term;
mod val;
use rustc_public::run;
use rustc_public::CrateDef;
use std::ops::ControlFlow;

fn analyze() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    if krate.name != "proofs" { return ControlFlow::Continue(()); }
    let mut prog = body::Prog::new();
    let filter = std::env::var("MIRV_FILTER").unwrap_or_default();
    let mut harnesses = vec![];
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string(); if std::env::var("MIRV_LIST").is_ok() { eprintln!("{}", name); }
        let Some((d, _)) = it.ty().kind().fn_def().map(|(d, a)| (d, a.clone())) else { continue };
        let last = name.rsplit("::").next().unwrap().to_string();
        if name.starts_with("proofs::models::") { prog.models.insert(last.clone(), d); }
        if name.starts_with("proofs::specs::") && last.len() > 4 && last.starts_with('p') && last.as_bytes()[3] == b'_' && !it.requires_monomorphization() {
            if filter.is_empty() || filter.split(',').any(|f| match f.strip_suffix('$') { Some(e) => last == e, None => last.starts_with(f) }) { harnesses.push((last, it)); }
        }
    }
    harnesses.sort_by(|a, b| a.0.cmp(&b.0));
    for (name, it) in harnesses {
        let Ok(inst) = rustc_public::mir::mono::Instance::try_from(it) else { continue };
        let id = prog.inst_id(inst);
        let secs = std::env::var("MIRV_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let t0 = std::time::Instant::now();
        let mut mods = cut::Mods::default();
        let mut rounds = 0;
        loop {
        let mut ex = exec::Ex::new(&mut prog, secs);
        ex.deadline = t0 + std::time::Duration::from_secs(secs);
        ex.sample_max = std::env::var("MIRV_SAMPLES").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        ex.harness = name.clone();
        ex.loop_mods = std::mem::take(&mut mods);
        let mut st = exec::State::new();
        if let Err(e) = ex.push_call(&mut st, id, vec![], None, 0) { println!("HARNESS {} error {:?}", name, e); break; }
        ex.explore(st, 0);
        // a loop changes more than was assumed so far: begin again with all it changes
        rounds += 1;
        if ex.restart && rounds < 40 { mods = std::mem::take(&mut ex.loop_mods); continue; }
        report(&name, &mut ex, t0.elapsed().as_secs_f64());
        break;
        }
    }
    ControlFlow::Break(())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jmap<V: std::fmt::Display>(m: &std::collections::BTreeMap<String, V>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")) }
fn jcand(c: &concretize::Cand) -> String { format!("[{}]", c.iter().map(|(k, l, v)| format!("[{}, {}, {}]", k, js(l), js(v))).collect::<Vec<_>>().join(", ")) }

fn report(name: &str, ex: &mut exec::Ex, secs: f64) {
    let (mut ok, mut smt, mut bad) = (0, 0, 0);
    for o in ex.obs.values() { ok += o.trivial; smt += o.smt; bad += o.failed; }
    println!("HARNESS {} paths={} obligations={} (simplifier {} z3 {} failed {}) undecided={:?} covers={:?} queries={} z3={:.2}s secs={:.2} incomplete={:?}", name, ex.paths, ex.obs.len(), ok, smt, bad, ex.undecided, ex.covers, ex.z.queries, ex.z.secs, secs, ex.incomplete);
    for (l, o) in &ex.obs { if o.failed > 0 { println!("   FAILED {} {:?}", l, o); } else if std::env::var("MIRV_V").is_ok() { println!("   ok {} {:?}", l, o); } }
    let tries = std::env::var("MIRV_TRIES").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let fails = std::mem::take(&mut ex.fail_states);
    let mut fj = vec![];
    // a loop that was not shown to change only what was assumed proves nothing about what follows it
    let open_loop = ex.incomplete.is_some() || !ex.undecided.is_empty() || ex.restart;
    for (s, l) in &fails {
        let (label, detail) = l.split_once('\u{1}').unwrap();
        let mut cands: Vec<concretize::Cand> = vec![];
        for _ in 0..tries { if let Some(c) = concretize::concretise(s, &mut ex.z, &mut ex.rng) { if !cands.contains(&c) { cands.push(c); } } }
        let mut desc = String::new();
        for (_, n, v) in s.inputs.iter() { match v { val::Val::Str(r) => desc.push_str(&format!("{} = {}; ", n, s.ss.show(r))), v => desc.push_str(&format!("{} = {}; ", n, match v { val::Val::Int(t) | val::Val::Dec(t) => s.ss.term(*t).show(), o => exec::short(o) })) } }
        for f in s.ss.facts.iter() { desc.push_str(&format!("{:?}; ", s.ss.norm_fact(f))); }
        for f in s.ss.pc.iter() { desc.push_str(&format!("{}; ", f.show())); }
        if std::env::var("MIRV_V").is_ok() || std::env::var("MIRV_F").is_ok() { println!("   FAIL {} {}\n      path: {}", label, detail, desc); for c in &cands { println!("      try {:?}", c); } }
        if desc.len() > 4000 { desc = desc.chars().take(4000).collect(); }
        fj.push(format!("{{\"label\": {}, \"detail\": {}, \"path\": {}, \"tainted\": {}, \"candidates\": [{}]}}", js(label), js(detail), js(&desc), match s.ss.taint.or(if open_loop && !s.ss.taken.is_empty() { Some("after a loop that is not decided") } else { None }) { Some(t) => js(t), None => "null".into() }, cands.iter().map(jcand).collect::<Vec<_>>().join(", ")));
    }
    let samples = std::mem::take(&mut ex.samples);
    let mut sj = vec![];
    for s in &samples {
        if let Some(c) = concretize::concretise(s, &mut ex.z, &mut ex.rng) {
            sj.push(format!("{{\"covers\": [{}], \"tainted\": {}, \"inputs\": {}}}", s.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(", "), (s.ss.taint.is_some() || s.ss.facts.iter().any(|f| matches!(f, val::Fact::Cod(..)))), jcand(&c)));
        }
    }
    // inputs that start down the paths left undecided
    let open = std::mem::take(&mut ex.open);
    let mut oj: Vec<concretize::Cand> = vec![];
    let to = std::time::Instant::now();
    for s in &open { if to.elapsed().as_secs() > 12 { break; } if let Some(c) = concretize::concretise(s, &mut ex.z, &mut ex.rng) { if !oj.contains(&c) { oj.push(c); } } }
    if let Ok(d) = std::env::var("MIRV_OUT") {
        let obs: Vec<String> = ex.obs.iter().map(|(k, o)| format!("{}: {{\"simplifier\": {}, \"z3\": {}, \"failed\": {}}}", js(k), o.trivial, o.smt, o.failed)).collect();
        let j = format!("{{\"harness\": {}, \"paths\": {}, \"obligations\": {{{}}}, \"undecided\": {}, \"covers\": {}, \"functions\": {}, \"files\": {}, \"contracts_on_library\": {}, \"stubs\": [{}], \"taints\": {}, \"bounds\": [{}], \"incomplete\": {}, \"queries\": {}, \"cache_hits\": {}, \"z3_secs\": {:.3}, \"secs\": {:.3}, \"failures\": [{}], \"samples\": [{}], \"open\": [{}]}}\n",
            js(name), ex.paths, obs.join(", "), jmap(&ex.undecided), jmap(&ex.covers), jmap(&ex.funcs), jmap(&ex.lines.iter().map(|(k, v)| (k.clone(), js(v))).collect()), jmap(&ex.natives),
            ex.stubs_used.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), jmap(&ex.taints), ex.bounds.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            match &ex.incomplete { Some(s) => js(s), None => "null".into() }, ex.z.queries, ex.z.cache_hits, ex.z.secs, secs, fj.join(", "), sj.join(", "), oj.iter().map(jcand).collect::<Vec<_>>().join(", "));
        let tmp = format!("{}/{}.json.tmp", d, name);
        std::fs::write(&tmp, j).expect("write");
        std::fs::rename(&tmp, format!("{}/{}.json", d, name)).expect("rename");
    }
}

fn main() {
    if let Ok(f) = std::env::var("MIRV_SAVE") {
        // only record how the crate is compiled
        let a: Vec<String> = std::env::args().collect();
        if a.iter().any(|x| x == "proofs") {
            let mut s = String::new();
            for x in &a[1..] { s.push_str(x); s.push('\0'); }
            let _ = std::fs::write(f, s);
        }
    }
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(0); }
    let _ = run!(&args, analyze);
}
