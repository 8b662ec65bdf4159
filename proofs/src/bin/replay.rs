//! Runs the contracts natively: `replay run <cases>` replays concrete arguments,
//! `replay fuzz <harness> <seed> <secs> <iters> [<cases>]` draws arguments (from the cases by mutation, and fresh).
use proofs::ghost::{self, Item, SRC};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static MSG: Mutex<String> = Mutex::new(String::new());

struct Out { outcome: &'static str, failed: Vec<String>, covers: Vec<String>, checked: u64, log: Vec<Item>, mismatch: bool }

fn run(f: fn(), items: Option<Vec<Item>>, lenient: bool, rng: u64, dict: &[String]) -> Out {
    SRC.with(|s| { let mut s = s.borrow_mut(); s.start(items, lenient, rng, dict); });
    MSG.lock().unwrap().clear();
    let r = catch_unwind(AssertUnwindSafe(f));
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        let mut failed = std::mem::take(&mut s.failed);
        let mut outcome = "ok";
        if let Err(e) = r {
            if e.is::<ghost::Rejected>() { outcome = "rejected"; } else { failed.push("no panic".into()); outcome = "panic"; }
        }
        failed.sort(); failed.dedup();
        // an assumption that fails later than a violated obligation does not undo it
        if !failed.is_empty() && outcome == "rejected" { outcome = "ok"; }
        Out { outcome, failed, covers: std::mem::take(&mut s.covers), checked: s.checked, log: std::mem::take(&mut s.log), mismatch: s.mismatch }
    })
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }
fn ji(v: &[Item]) -> String { format!("[{}]", v.iter().map(|i| format!("[{}, {}, {}]", i.kind, js(&i.label), js(&i.value))).collect::<Vec<_>>().join(", ")) }
fn hex(s: &str) -> String { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
fn cases(path: &str) -> Vec<(String, String, Vec<Item>)> {
    let t = std::fs::read_to_string(path).expect("cases");
    let mut v: Vec<(String, String, Vec<Item>)> = vec![];
    for l in t.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "case" => v.push((p[1].into(), p[2].into(), vec![])),
            "in" => v.last_mut().unwrap().2.push(Item { kind: p[1].parse().unwrap(), label: hex(p[2]), value: hex(p[3]) }),
            _ => {}
        }
    }
    v
}
fn r(s: &mut u64) -> usize { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; (s.wrapping_mul(0x2545F4914F6CDD1D) >> 11) as usize }
const BITS: &[&str] = &["0", "1", "-1", "2", "3", "4", "8", "14", "24", "48", "100", "101", "128", "255", "256", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "9223372036854775808", "79228162514264337593543950335", "1.5", "-0", "+1", "0.1", "abc", "é", " ", "\t", "\n", "\r\n", "\n\n", "\n \n", ",", ":", "|", "\"", "/", "//", "[", "]", "$", "=", "#", "_", "漢", "\u{3000}", ",,", "::", "||"];
fn mutate(t: &str, other: &str, s: &mut u64) -> String {
    let c: Vec<char> = t.chars().collect();
    let at = |s: &mut u64| r(s) % (c.len() + 1);
    let mk = |a: &[char], m: &str, b: &[char]| -> String { a.iter().collect::<String>() + m + &b.iter().collect::<String>() };
    match r(s) % 11 {
        0 => { let (i, j) = (at(s), at(s)); mk(&c[..i.min(j)], "", &c[i.max(j)..]) }
        1 => { let i = at(s); mk(&c[..i], BITS[r(s) % BITS.len()], &c[i..]) }
        2 => { let i = at(s); let j = (i + 1).min(c.len()); mk(&c[..i], BITS[r(s) % BITS.len()], &c[j..]) }
        3 => { let (i, j) = (at(s), at(s)); let m: String = c[i.min(j)..i.max(j)].iter().collect(); let k = at(s); mk(&c[..k], &m, &c[k..]) }
        4 => { let o: Vec<char> = other.chars().collect(); let (i, j) = (r(s) % (o.len() + 1), r(s) % (o.len() + 1)); let m: String = o[i.min(j)..i.max(j)].iter().collect(); let k = at(s); mk(&c[..k], &m, &c[k..]) }
        5 | 6 | 7 => {
            // replace one field
            let seps = [',', ':', '|', '\n', ' ', '=', '[', ']'];
            let mut cuts = vec![0];
            for (i, x) in c.iter().enumerate() { if seps.contains(x) { cuts.push(i); cuts.push(i + 1); } }
            cuts.push(c.len());
            let k = r(s) % (cuts.len() / 2);
            let (a, b) = (cuts[2 * k], cuts[2 * k + 1]);
            let m = if r(s) % 2 == 0 { BITS[r(s) % BITS.len()].to_string() } else { (r(s) as i32 as i64 >> (r(s) % 32)).to_string() };
            mk(&c[..a], &m, &c[b..])
        }
        8 => {
            // swap or repeat lines
            let mut l: Vec<&str> = t.split('\n').collect();
            let (i, j) = (r(s) % l.len(), r(s) % l.len());
            if r(s) % 2 == 0 { l.swap(i, j); } else { let x = l[i]; l.insert(j, x); }
            l.join("\n")
        }
        9 => t.replace("\n", "\r\n"),
        _ => { let i = at(s); mk(&c[..i], "", &c[(i + 1).min(c.len())..]) }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| { if let Ok(mut m) = MSG.lock() { *m = i.to_string(); } }));
    let a: Vec<String> = std::env::args().collect();
    let table: BTreeMap<&str, fn()> = proofs::specs::all().into_iter().collect();
    match a[1].as_str() {
        "list" => for k in table.keys() { println!("{}", k); },
        "run" => {
            for (id, h, items) in cases(&a[2]) {
                let Some(f) = table.get(h.as_str()) else { println!("{{\"id\": {}, \"outcome\": \"unknown\"}}", js(&id)); continue };
                println!("{{\"begin\": {}}}", js(&id));
                let o = run(*f, Some(items), false, 1, &[]);
                println!("{{\"id\": {}, \"outcome\": {}, \"failed\": {}, \"covers\": {}, \"checked\": {}, \"mismatch\": {}, \"message\": {}}}", js(&id), js(o.outcome), jl(&o.failed), jl(&o.covers), o.checked, o.mismatch, js(&MSG.lock().unwrap()));
            }
        }
        "fuzz" => {
            let f = *table.get(a[2].as_str()).expect("harness");
            let mut s: u64 = a[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let dl = Instant::now() + Duration::from_millis((a[4].parse::<f64>().unwrap() * 1000.0) as u64);
            let iters: u64 = a[5].parse().unwrap();
            let mut pool: Vec<Vec<Item>> = a.get(6).map(|p| cases(p).into_iter().filter(|c| c.1 == a[2]).map(|c| c.2).collect()).unwrap_or_default();
            let dict: Vec<String> = pool.iter().flatten().filter(|i| i.kind == 0 && i.value.len() < 400).map(|i| i.value.clone()).collect();
            let (mut n, mut rej) = (0u64, 0u64);
            let mut seen: HashSet<Vec<String>> = HashSet::new();
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut labels: BTreeMap<String, u64> = BTreeMap::new();
            let mut covers: BTreeMap<String, u64> = BTreeMap::new();
            let mut fails: Vec<(Vec<String>, Vec<Item>, String)> = vec![];
            let mut perlabel: BTreeMap<Vec<String>, usize> = BTreeMap::new();
            // every case as it is first; a case that ends early is completed three times
            let first: Vec<Vec<Item>> = pool.iter().flat_map(|c| [c.clone(), c.clone(), c.clone()]).collect();
            let mut first = first.into_iter();
            while n < iters && Instant::now() < dl {
                n += 1;
                let as_is = first.next();
                let items = if as_is.is_some() { as_is } else if pool.is_empty() || r(&mut s) % 10 == 0 { None } else {
                    let mut it = pool[r(&mut s) % pool.len()].clone();
                    let rounds = 1 + r(&mut s) % 3;
                    for _ in 0..rounds {
                        if it.is_empty() { break; }
                        let k = r(&mut s) % it.len();
                        let k2 = if it[k].kind != 0 && r(&mut s) % 2 == 0 { it.iter().position(|i| i.kind == 0).unwrap_or(k) } else { k };
                        let o = if dict.is_empty() { String::new() } else { dict[r(&mut s) % dict.len()].clone() };
                        let i = &mut it[k2];
                        match i.kind {
                            0 => i.value = mutate(&i.value, &o, &mut s),
                            3 => i.value = (r(&mut s) % 2).to_string(),
                            2 => i.value = ((r(&mut s) % if r(&mut s) % 4 == 0 { 256 } else { 18 }) as u8).to_string(),
                            1 => if let Ok(v) = i.value.parse::<i32>() { i.value = match r(&mut s) % 4 { 0 => v.wrapping_add((r(&mut s) % 60) as i32 - 30), 1 => v.wrapping_neg(), 2 => v ^ (1 << (r(&mut s) % 32)), _ => (r(&mut s) as i32) >> (r(&mut s) % 32) }.to_string() },
                            4 | 5 => if let Ok(v) = i.value.parse::<i64>() { let w = match r(&mut s) % 5 { 0 => v.wrapping_add((r(&mut s) % 9) as i64 - 4), 1 => (r(&mut s) % 12) as i64, 2 => v.wrapping_neg(), 3 => v ^ (1 << (r(&mut s) % 63)), _ => r(&mut s) as i64 >> (r(&mut s) % 63) }; i.value = if i.kind == 4 { w.unsigned_abs().to_string() } else { w.to_string() } },
                            6 => i.value = match r(&mut s) % 3 { 0 => (r(&mut s) as i32 >> (r(&mut s) % 32)).to_string(), 1 => format!("{}.{}", r(&mut s) as i32 >> (r(&mut s) % 32), r(&mut s) % 1000), _ => "0".into() },
                            _ => {}
                        }
                    }
                    Some(it)
                };
                let o = run(f, items, true, r(&mut s) as u64 | 1, &dict);
                if o.outcome == "rejected" { rej += 1; continue; }
                for c in &o.covers { *covers.entry(c.clone()).or_default() += 1; }
                if o.checked > 0 || !o.covers.is_empty() {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    for i in &o.log { i.value.hash(&mut h); }
                    if distinct.len() < 3_000_000 { distinct.insert(h.finish()); }
                    if pool.len() < 4000 && (seen.insert(o.covers.clone()) || (pool.len() < 2000 && r(&mut s) % 64 == 0)) && o.log.iter().map(|i| i.value.len()).sum::<usize>() < 600 { pool.push(o.log.clone()); }
                }
                if !o.failed.is_empty() {
                    let k = perlabel.entry(o.failed.clone()).or_default();
                    *k += 1;
                    if *k <= 40 {
                        fails.push((o.failed, o.log, MSG.lock().unwrap().clone()));
                    }
                }
                for _ in 0..1 { *labels.entry("checked".into()).or_default() += o.checked; }
            }
            let fj: Vec<String> = fails.iter().map(|(l, i, m)| format!("{{\"labels\": {}, \"inputs\": {}, \"message\": {}}}", jl(l), ji(i), js(m))).collect();
            let cv: Vec<String> = covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            println!("{{\"harness\": {}, \"runs\": {}, \"rejected\": {}, \"distinct\": {}, \"checked\": {}, \"covers\": {{{}}}, \"failures\": [{}]}}", js(&a[2]), n, rej, distinct.len(), labels.get("checked").copied().unwrap_or(0), cv.join(", "), fj.join(", "));
        }
        _ => std::process::exit(2),
    }
    let _: BTreeSet<u8> = BTreeSet::new();
}
