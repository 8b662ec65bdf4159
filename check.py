#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree
   check.py --setup                       build the verifier and warm the caches
   check.py --harness name,name [secs]    developer run of single contracts

1. mirv (the verifier, /verif/mirv) reads the MIR of /repo's current source and of the contracts
   in /verif/proofs and discharges every obligation of the property's contracts.
2. The counterexample of a failed obligation is replayed against the compiled code of /repo.
3. Sampled verified paths are executed natively too (they must behave as the verifier says), and
   contracts the verifier could not finish are explored natively, labelled bounded.
"""
import fcntl, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
MIRV = HERE + "/mirv/target/release/mirv"
PROOFS = HERE + "/proofs"
WORK = HERE + "/work"
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MIRFLAGS = "-Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=off"
CFG = json.load(open(HERE + "/checks.json"))


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=None, out=None):
    e = dict(os.environ)
    e.pop("RUSTC_WORKSPACE_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def build_mirv():
    if os.path.exists(MIRV):
        src = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(HERE + "/mirv/src") for f in fs)
        if os.path.getmtime(MIRV) >= src:
            return
    r = sh([HERE + "/mirv/build.sh"], timeout=1500)
    if r.returncode != 0 or not os.path.exists(MIRV):
        raise Broken("verifier does not build\n" + r.stdout[-3000:])


def clean_dep(profile):
    # /repo may have been laid down with any modification times: always rebuild that crate
    r = sh(["cargo", "+nightly", "clean", "--offline", "-p", "osu-file-parser", "-p", "proofs"] + (["--release"] if profile == "release" else []), cwd=PROOFS, timeout=120)
    if r.returncode != 0:
        raise Broken("cargo clean\n" + r.stdout[-2000:])


def build_native():
    clean_dep("release")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--bin", "replay"], cwd=PROOFS, timeout=600)
    if r.returncode != 0:
        raise Broken("contracts do not compile against /repo\n" + r.stdout[-4000:])
    return PROOFS + "/target/release/replay"


def build_mir(args_file):
    clean_dep("debug")
    if os.path.exists(args_file):
        os.remove(args_file)
    r = sh(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=PROOFS, timeout=600,
           env={"RUSTFLAGS": MIRFLAGS, "RUSTC_WORKSPACE_WRAPPER": MIRV, "MIRV_SAVE": args_file, "MIRV_FILTER": "none$"})
    if not os.path.exists(args_file):
        raise Broken("no MIR of the contracts\n" + r.stdout[-4000:])


def verify(h, args, out, secs, samples, tries):
    env = {"MIRV_FILTER": h + "$", "MIRV_OUT": out, "MIRV_SECS": str(secs), "MIRV_SAMPLES": str(samples), "MIRV_TRIES": str(tries)}
    try:
        with open(f"{out}/{h}.log", "w") as lf:
            sh([MIRV] + args, env=env, cwd=PROOFS, timeout=secs + 120, out=lf)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.load(open(f"{out}/{h}.json"))
    except Exception:
        return None


def write_cases(path, cases):
    with open(path, "w") as f:
        for cid, h, inputs in cases:
            f.write(f"case\t{cid}\t{h}\n")
            for k, l, v in inputs:
                f.write(f"in\t{k}\t{l.encode().hex()}\t{v.encode('utf-8', 'surrogatepass').hex()}\n")


def replay(binary, cases, path):
    """-> {id: result}; a case that hangs or aborts is reported as such"""
    res = {}
    todo = list(cases)
    while todo:
        write_cases(path, todo)
        p = subprocess.Popen([binary, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        try:
            o, _ = p.communicate(timeout=60)
            why = f"process ended with {p.returncode}"
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            why = "does not finish within 60 s"
        last = None
        for l in o.splitlines():
            try:
                j = json.loads(l)
            except Exception:
                continue
            if "begin" in j:
                last = j["begin"]
            else:
                res[j["id"]] = j
                if j["id"] == last:
                    last = None
        if last is not None:
            res[last] = {"id": last, "outcome": "abort", "failed": ["no panic"], "covers": [], "mismatch": False, "message": why}
        n = len(todo)
        todo = [c for c in todo if c[0] not in res]
        if len(todo) == n:
            break
    return res


def known(pid, h, label, inputs):
    for k in CFG.get("known", []):
        if k["property"] == pid and re.fullmatch(k["harness"], h) and re.fullmatch(k["label"], label):
            vals = {l: v for _, l, v in inputs}
            if all(re.search(rx, vals.get(l, ""), re.S) for l, rx in k["inputs"].items()):
                return k
    return None


def shrink(binary, h, labels, inputs, path):
    """greedy: drop pieces of the texts while the same obligation fails"""
    best = inputs
    t0 = time.time()
    for _ in range(12):
        if time.time() - t0 > 8:
            break
        cands = []
        for i, (k, l, v) in enumerate(best):
            if k == 0:
                n = len(v)
                step = max(1, n // 12)
                for a in range(0, n, step):
                    for w in {step, 1, max(1, n // 3)}:
                        nv = v[:a] + v[a + w:]
                        if nv != v:
                            cands.append(best[:i] + [(k, l, nv)] + best[i + 1:])
        if not cands:
            break
        res = replay(binary, [(str(j), h, c) for j, c in enumerate(cands)], path)
        ok = [(sum(len(x[2]) for x in c), j) for j, c in enumerate(cands) if set(labels) & set(res.get(str(j), {}).get("failed", []))]
        if not ok:
            break
        best = cands[min(ok)[1]]
    return best


def main_check(pid, tier, only=None, secs_override=None):
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    lock = open(WORK + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = f"{WORK}/{pid}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    build_mirv()
    with ThreadPoolExecutor(2) as ex:
        nat, mir = ex.submit(build_native), ex.submit(build_mir, out + "/args")
        binary = nat.result()
        mir.result()
    args = open(out + "/args").read().split("\0")[:-1]
    # cargo hands the wrapper the path of rustc first
    tb = time.time()
    names = sh([binary, "list"]).stdout.split()
    hs = only or [h for h in names if h.startswith("p" + pid[1:] + "_")]
    if not hs:
        raise Broken("no contract for " + pid)
    cfg = dict(CFG["default"][tier])
    cfg.update(CFG.get("properties", {}).get(pid, {}).get(tier, {}))
    if secs_override:
        cfg["secs"] = secs_override
    over = CFG.get("harness", {})
    rng = random.Random(SEED)

    def job(h):
        c = over.get(h, {}).get(tier, {})
        return h, verify(h, args, out, c.get("secs", cfg["secs"]), cfg["samples"], cfg["tries"])
    # the long ones first
    hs.sort(key=lambda h: -over.get(h, {}).get(tier, {}).get("secs", 0))
    with ThreadPoolExecutor(8) as ex:
        ver = dict(ex.map(job, hs))
    fcntl.flock(lock, fcntl.LOCK_UN)
    tv = time.time()

    # -- replay the counterexamples and a sample of the verified paths
    cases, meta = [], {}
    for h in hs:
        j = ver[h]
        if not j:
            continue
        for fi, f in enumerate(j["failures"]):
            for ci, c in enumerate(f["candidates"]):
                cid = f"{h}/f{fi}/{ci}"
                cases.append((cid, h, c))
                meta[cid] = ("fail", f)
        for si, s in enumerate(j["samples"]):
            cid = f"{h}/s{si}"
            cases.append((cid, h, s["inputs"]))
            meta[cid] = ("sample", s)
    inputs_of = {c[0]: (c[1], c[2]) for c in cases}
    res = replay(binary, cases, out + "/cases")
    confirmed = []   # (harness, label, inputs, message, origin)
    validated = disagreements = 0
    disagree = []
    notes = []
    for cid, r in res.items():
        h, inp = inputs_of[cid]
        kind, m = meta[cid]
        for l in r["failed"]:
            confirmed.append((h, l, inp, r.get("message", ""), "counterexample" if kind == "fail" else "sampled path"))
        if kind == "sample" and not m["tainted"] and not r["mismatch"]:
            if r["outcome"] == "ok" and not r["failed"] and sorted(r["covers"]) == sorted(m["covers"]):
                validated += 1
            else:
                disagreements += 1
                disagree.append({"case": cid, "inputs": inp, "native": r, "verifier": m["covers"]})

    # -- bounded native exploration, seeded by the verified paths
    def fz(h):
        seeds = [(c[0], h, c[2]) for c in cases if c[1] == h]
        seeds += [(f"o{i}", h, c) for i, c in enumerate((ver[h] or {}).get("open", []))]
        corpus = f"{HERE}/corpus/{h}.json"
        if os.path.exists(corpus):
            seeds += [(f"c{i}", h, c) for i, c in enumerate(json.load(open(corpus)))]
        p = f"{out}/{h}.seeds"
        write_cases(p, seeds)
        c = over.get(h, {}).get(tier, {})
        s = c.get("fuzz", cfg["fuzz"])
        try:
            r = sh([binary, "fuzz", h, str(SEED), str(s), "1000000000", p], timeout=s + 60)
            return h, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            return h, None
    with ThreadPoolExecutor(8) as ex:
        fuzz = dict(ex.map(fz, hs))
    for h, r in fuzz.items():
        if r is None:
            notes.append(f"native exploration of {h} did not finish")
            continue
        for f in r["failures"]:
            for l in f["labels"]:
                confirmed.append((h, l, f["inputs"], f["message"], "native exploration"))
    tn = time.time()

    # -- verdict
    violations, findings = [], {}
    seen = set()
    confirmed.sort(key=lambda c: (c[0], c[1], sum(len(i[2]) for i in c[2])))
    for h, l, inp, msg, origin in confirmed:
        k = known(pid, h, l, inp)
        if k:
            findings[k["what"]] = findings.get(k["what"], 0) + 1
            continue
        if (h, l) in seen:
            continue
        seen.add((h, l))
        inp2 = shrink(binary, h, [l], inp, out + "/shrink")
        if known(pid, h, l, inp2):
            inp2 = inp
        violations.append({"harness": h, "obligation": l, "inputs": inp2, "message": msg, "origin": origin})
    unconfirmed = []
    for h in hs:
        j = ver[h]
        if not j:
            continue
        for f in j["failures"]:
            if f["tainted"] or any(c[0] == h and c[1] == f["label"] for c in confirmed):
                continue
            e = (h, f["label"])
            if e in [(u["harness"], u["obligation"]) for u in unconfirmed]:
                continue
            unconfirmed.append({"harness": h, "obligation": f["label"], "detail": f["detail"], "path": f["path"], "candidates": f["candidates"]})

    # -- evidence
    ob = dis = 0
    table, bounded, backends = {}, {}, {"simplifier": 0, "z3": 0}
    funcs, lib, stubs, taints = {}, {}, set(), {}
    queries = 0
    z3s = 0.0
    vac = []
    tainted_h = set()
    for h in hs:
        j = ver[h]
        f = fuzz.get(h) or {}
        need = CFG.get("covers", {}).get(h)
        cov = set(j["covers"]) if j else set()
        cov |= set(f.get("covers", {}))
        if not (j and j["obligations"]) and not f.get("checked"):
            vac.append(f"{h}: no obligations generated")
        elif not cov:
            vac.append(f"{h}: no cover reached")
        for c in need or []:
            if c not in cov:
                vac.append(f"{h}: cover '{c}' not reached")
        if not j:
            bounded[h] = "verifier gave no result"
            table[h] = {"status": "bounded", "paths": 0, "obligations": {}, "covers": [], "secs": 0, "z3_secs": 0, "queries": 0,
                        "native": {k: f.get(k) for k in ("runs", "rejected", "distinct", "checked", "covers")}}
            continue
        # an over-approximation only ever adds behaviour: what is discharged under it is discharged
        failing = any(o["failed"] for o in j["obligations"].values())
        taint = [t for t in j["taints"] if failing or "exact" in t]
        complete = j["incomplete"] is None and not j["undecided"] and not j["bounds"] and not taint
        for l, o in j["obligations"].items():
            if not complete and not o["failed"]:
                continue
            ob += 1
            if not o["failed"]:
                dis += 1
        if complete:
            for l, o in j["obligations"].items():
                backends["simplifier"] += o["simplifier"]
                backends["z3"] += o["z3"]
        else:
            why = []
            if j["incomplete"]: why.append(j["incomplete"])
            if j["undecided"]: why.append("outside the verifier's reach: " + ", ".join(f"{k} ({v} paths)" for k, v in list(j["undecided"].items())[:6]))
            if j["bounds"]: why.append("bounds: " + ", ".join(j["bounds"]))
            if taint: why.append("approximated: " + ", ".join(taint))
            bounded[h] = "; ".join(why)
        table[h] = {"status": "proved" if complete and not any(o["failed"] for o in j["obligations"].values()) else ("failed" if any(o["failed"] for o in j["obligations"].values()) else "bounded"),
                    "paths": j["paths"], "obligations": {l: o for l, o in j["obligations"].items()}, "covers": j["covers"], "secs": round(j["secs"], 2), "z3_secs": round(j["z3_secs"], 2), "queries": j["queries"],
                    "native": {k: f.get(k) for k in ("runs", "rejected", "distinct", "checked", "covers")}}
        queries += j["queries"]
        z3s += j["z3_secs"]
        for k, v in j["functions"].items(): funcs[k] = funcs.get(k, 0) + v
        for k, v in j["contracts_on_library"].items(): lib[k] = lib.get(k, 0) + v
        stubs |= set(j["stubs"])
        for k, v in j["taints"].items(): taints[k] = taints.get(k, 0) + v
    # names are without the crate's name; the other crates' paths start with theirs
    foreign = re.compile(r"^[<&*(\[ ]*(mut )?(std|core|alloc|proofs|nom|rust_decimal|rust_decimal_macros|either|strum|thiserror|memchr|str|String|u8|i8|u16|u32|i32|u64|i64|usize|char|bool)\b")
    repo_funcs = {k: v for k, v in funcs.items() if not foreign.match(k) and " as std::convert::Into>" not in k and " as proofs::" not in k and " as nom::" not in k}
    files = {}
    for h in hs:
        if ver[h]: files.update(ver[h]["files"])
    wall = time.time() - t0
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": f"python3 /verif/check.py {pid} {tier}",
        "trusted_base": ["mirv symbolic executor for MIR (/verif/mirv)", "z3 (z3-new)", "rustc nightly MIR construction", "library contracts listed under contracts_on_library"],
        "obligation_instances_by_backend": backends,
        "contracts": table,
        "contracts_proved": sum(1 for t in table.values() if t["status"] == "proved"),
        "bounded_contracts_not_counted": bounded,
        "functions_under_contract": sorted(repo_funcs),
        "functions_count": len(repo_funcs),
        "contracts_on_library": sorted(lib),
        "codec_contracts_used_at_call_sites": sorted(stubs),
        "solver_queries": queries, "solver_seconds": round(z3s, 2),
        "sampled_paths_validated_natively": validated, "sampled_paths_disagreeing": disagreements,
        "evaluations": sum((f or {}).get("runs", 0) for f in fuzz.values()),
        "distinct_nontrivial": sum((f or {}).get("distinct", 0) for f in fuzz.values()),
        "rule": "native runs of the same contracts on mutated path samples; non-trivial: precondition met and at least one obligation or cover reached",
        "samples": [c[2] for c in rng.sample(cases, min(5, len(cases)))],
        "phase_secs": {"build": round(tb - t0, 1), "verify": round(tv - tb, 1), "native": round(tn - tv, 1)},
        "vacuity_problems": vac,
        "notes": notes,
    }
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": CFG["levels"].get(pid, "proof"), "coverage": cov,
          "assumptions": CFG["assumptions"] + CFG.get("properties", {}).get(pid, {}).get("assumptions", []),
          "wall_s": round(wall, 1), "violations": len(violations) + len(unconfirmed)}
    if not only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        tmp = f"{HERE}/evidence/{pid}.json.tmp"
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, f"{HERE}/evidence/{pid}.json")

    for h in sorted(table):
        t = table[h]
        print(f"{h}: {t['status']} paths={t['paths']} obligations={len(t['obligations'])} {t['secs']}s native={t['native']['runs']} runs/{t['native']['distinct']} distinct" + (f" [{bounded[h][:300]}]" if h in bounded else ""))
    print(f"{pid}: {ob} obligations, {dis} discharged; {cov['contracts_proved']}/{len(hs)} contracts proved; validated {validated} sampled paths natively, {disagreements} disagree; build {tb-t0:.1f}s verify {tv-tb:.1f}s native {tn-tv:.1f}s total {wall:.1f}s")
    for k in CFG.get("known", []):
        if k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for d in disagree[:5]:
        print("DISAGREE", json.dumps(d)[:600])
    code = 0
    os.makedirs(WORK + "/replay", exist_ok=True)
    for i, v in enumerate(violations):
        p = f"{WORK}/replay/{pid}-{v['harness']}-{i}.cases"
        write_cases(p, [(f"{pid}-{i}", v["harness"], v["inputs"])])
        json.dump(v, open(p + ".json", "w"), indent=1)
        print(f"  obligation '{v['obligation']}' of {v['harness']} fails ({v['origin']}): " + json.dumps([[l, x] for _, l, x in v["inputs"]], ensure_ascii=False)[:500] + ("  " + v["message"][:200] if v["obligation"] == "no panic" else ""))
        print(f"  replay with: {binary} run {p}")
        print(f"VIOLATION property={pid} replay={p}")
        code = 1
    if not violations:
        for i, v in enumerate(unconfirmed):
            p = f"{WORK}/replay/{pid}-{v['harness']}-u{i}.txt"
            open(p, "w").write(f"failed obligation: {v['harness']} / {v['obligation']}\n{v['detail']}\npath: {v['path']}\ncandidates tried: {json.dumps(v['candidates'])}\n\n" + open(f"{out}/{v['harness']}.log").read()[-20000:])
            print(f"  obligation '{v['obligation']}' of {v['harness']} cannot be discharged: {v['detail'][:300]}")
            print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
            code = 1
    if code == 0 and vac:
        print("VACUOUS: " + "; ".join(vac))
        return 2
    return code


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            os.makedirs(WORK, exist_ok=True)
            build_mirv()
            build_native()
            build_mir(WORK + "/args")
            print("ready")
            return 0
        if a[0] == "--harness":
            return main_check("dev", "quick", a[1].split(","), int(a[2]) if len(a) > 2 else None)
        return main_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except Broken as e:
        print("BROKEN:", e)
        return 3


sys.exit(main())
