#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

usage: check.py ID [--setup] [--jobs] [--tier quick|thorough]

Exit 0: held for every input within the stated bounds. Exit 1 and a VIOLATION line: a solver
model was replayed natively and broke the property. Exit 2: the check could not decide.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSE_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
T0 = time.time()


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "kse")):
        for d, sub, fs in os.walk(root):
            sub[:] = sorted(s for s in sub if not (d == root and s in ("target", ".git", "tests", "benches", ".github")))
            for f in sorted(fs):
                if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "build.rs") or d.startswith(os.path.join(root, "src")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(hashlib.sha256(s.read()).digest())
    return h.hexdigest()[:24]


def cargo(args, cwd, log):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "--offline"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.write(r.stdout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        die("build failed: cargo " + " ".join(args))


def build():
    """Compiles the engine, and the harness together with /repo's current sources."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, "art-" + key)
        have = os.path.exists(os.path.join(out, "ok"))
        if have and os.environ.get("KSE_REUSE"):
            return key, out
        t = os.path.join(BUILD, "target")
        # the module is emitted anew on every run; the rest is rebuilt whenever the sources differ
        # (never by timestamps)
        for prof in ("release",) if have else ("release", "debug", "native"):
            fp = os.path.join(t, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if re.match(r"(kserd|kharness)-", d) or (not have and d.startswith("kse-")):
                        shutil.rmtree(os.path.join(fp, d))
        deps = os.path.join(t, "release", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith("kharness-") and f.endswith(".ll"):
                    os.remove(os.path.join(deps, f))
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(os.path.join(BUILD, "build.log"), "w") as log:
            hd = os.path.join(HERE, "harness")
            cargo(["rustc", "--lib", "--release", "--", "--emit=llvm-ir", "--cfg", "kse"], hd, log)
            if not have:
                cargo(["build", "--release"], os.path.join(HERE, "kse"), log)
                cargo(["build", "--bin", "replay"], hd, log)
                cargo(["build", "--bin", "replay", "--profile", "native"], hd, log)
        lls = [f for f in os.listdir(deps) if f.startswith("kharness-") and f.endswith(".ll")]
        if len(lls) != 1:
            die("expected one emitted module, found %d" % len(lls))
        shutil.copy(os.path.join(deps, lls[0]), os.path.join(tmp, "h.ll"))
        if have:
            for f in ("kse", "replay-dev", "replay-release"):
                shutil.copy(os.path.join(out, f), os.path.join(tmp, f))
        else:
            shutil.copy(os.path.join(t, "release", "kse"), os.path.join(tmp, "kse"))
            shutil.copy(os.path.join(t, "debug", "replay"), os.path.join(tmp, "replay-dev"))
            shutil.copy(os.path.join(t, "native", "replay"), os.path.join(tmp, "replay-release"))
        if tree_hash() != key:
            die("sources changed while building")
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        arts = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith("art-"))
        for _, d in arts[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        return key, out


# ---------------------------------------------------------------- running

class Pool:
    def __init__(self, art, seed, deadline, n):
        self.art, self.seed, self.deadline, self.n = art, seed, deadline, n
        self.lock = threading.Lock()
        self.results, self.procs, self.stop = [], set(), False

    def one(self, job):
        entry, params = job
        left = self.deadline - time.time()
        if self.stop:
            return
        if left < 2:
            with self.lock:
                self.results.append((job, None, "no time left"))
            return
        ps = ",".join(str(p) for p in params)
        cmd = [os.path.join(self.art, "kse"), "--ll", os.path.join(self.art, "h.ll"), "--entry", entry, "--params", ps,
               "--limit", "%.0f" % left, "--seed", str(self.seed), "--mem", "3000", "--max-viol", "1"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        with self.lock:
            if self.stop:
                p.kill()
            self.procs.add(p)
        out, err = p.communicate()
        with self.lock:
            self.procs.discard(p)
            if self.stop:
                return
            try:
                d = json.loads(out)
            except Exception:
                self.results.append((job, None, "engine failed (%s): %s" % (p.returncode, err.strip()[-500:])))
                return
            self.results.append((job, d, d["incomplete"]))
            if d["violations"]:
                self.stop = True
                for q in self.procs:
                    q.kill()

    def run(self, jobs):
        it = iter(jobs)

        def work():
            while True:
                with self.lock:
                    j = next(it, None)
                if j is None or self.stop:
                    return
                self.one(j)
        ts = [threading.Thread(target=work) for _ in range(min(self.n, len(jobs)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def replay(art, prof, lines):
    """Runs inputs on the natively compiled code, one process; yields a result per input."""
    try:
        r = subprocess.run([os.path.join(art, "replay-" + prof)], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return [{"status": "timeout", "failed": [], "covers": [], "obs": []}]
    res = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    if len(res) < len(lines):
        res.append({"status": "died (%d)" % r.returncode, "failed": [], "covers": [], "obs": []})
    return res


def idents(sym):
    """The path of a mangled name, roughly."""
    out, i = [], 0
    while i < len(sym):
        m = re.match(r"\d+", sym[i:])
        if m and not m.group().startswith("0"):
            n, j = int(m.group()), i + len(m.group())
            if j < len(sym) and sym[j] == "_":
                j += 1
            w = sym[j:j + n]
            if len(w) == n and re.fullmatch(r"\w+", w) and not w[0].isdigit():
                out.append(w)
                i = j + n
                continue
        i += 1
    return out


def main():
    args = sys.argv[1:]
    if "--setup" in args:
        key, art = build()
        print("built", key, "%.1fs" % (time.time() - T0))
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    P = props.PROPS[pid]
    key, art = build()
    built = time.time()
    spec = P.jobs(tier)
    jobs, need = spec.jobs, spec.need
    budget = float(os.environ.get("KSE_BUDGET", "780" if tier == "quick" else "10000"))
    pool = Pool(art, seed, T0 + budget, int(os.environ.get("KSE_PROCS", os.cpu_count() or 4)))
    pool.run(jobs)
    if "--jobs" in args:
        for job, d, inc in sorted(pool.results, key=lambda r: -(r[1] or {}).get("wall_s", 0))[:40]:
            d = d or {}
            print(job[0], ",".join(map(str, job[1])), "paths", d.get("paths"), "wall", d.get("wall_s"), "rss", d.get("rss_mb"), "solver", d.get("solver_s"), inc or "")

    tot = dict((k, 0) for k in ("paths", "infeasible", "forks", "insts", "checks", "queries", "tabled", "table_only", "cached", "sat", "unsat", "unknown"))
    solver_s, covers, funcs, errors, viol = 0.0, {}, set(), [], None
    samples = []
    for job, d, inc in pool.results:
        if inc:
            errors.append("%s %s: %s" % (job[0], job[1], inc))
        if not d:
            continue
        for k in tot:
            tot[k] += d[k]
        solver_s += d["solver_s"]
        funcs.update(d["functions"])
        ps = ",".join(str(p) for p in job[1])
        for c, (n, hx) in d["covers"].items():
            k = (job[0], int(c))
            covers.setdefault(k, [0, None])
            covers[k][0] += n
            covers[k][1] = (job[0], ps, hx)
        for s in d["samples"]:
            samples.append((job[0], ps, s))
        for v in d["violations"]:
            viol = viol or (job[0], ps, v)

    validated, mismatches, confirmed = 0, [], []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rp = os.path.join(HERE, "replays", pid + ".json")
    if viol:
        entry, ps, v = viol
        line = "%s %s %s" % (entry, ps, v["bytes"])
        for prof in ("dev", "release"):
            r = replay(art, prof, [line])[0]
            bad = v["code"] in r["failed"] if v["kind"] in ("check", "fail") else r["status"] == "panic" or r["status"].startswith("died")
            confirmed.append({"profile": prof, "reproduced": bad, "result": r})
        with open(rp, "w") as f:
            json.dump({"property": pid, "entry": entry, "params": ps, "input": v["bytes"], "kind": v["kind"], "code": v["code"],
                       "meaning": props.CODES["panic"] if v["kind"] == "panic" else props.CODES.get((entry, v["code"])) or props.CODES.get(v["code"], ""), "at": v["at"], "replayed": confirmed,
                       "how": "build with check.py --setup, then .build/art-*/replay-dev " + line + " (KSE_SHOW=1 prints the values)"}, f, indent=1)
    else:
        # the explored paths are paths of the real program: run some of them natively
        import random
        rnd = random.Random(seed)
        rnd.shuffle(samples)
        take = samples[:400]
        for prof, part in (("release", take), ("dev", take[:100])):
            res = replay(art, prof, ["%s %s %s" % (e, p, s["bytes"]) for e, p, s in part])
            for (e, p, s), r in zip(part, res):
                if r["status"] != "ok" or r["failed"] or [str(x) for x in r["obs"]] != [str(x) for x in s["obs"]] or sorted(r["covers"]) != sorted(s["covers"]):
                    mismatches.append("%s %s %s: engine %s, native(%s) %s" % (e, p, s["bytes"], s, prof, r))
                else:
                    validated += 1
        for e, c in need:
            if (e, c) not in covers:
                errors.append("nothing reached point %s of %s: the check would be vacuous" % (c, e))
            else:
                w = covers[(e, c)][1]
                r = replay(art, "release", ["%s %s %s" % w])[0]
                if c not in r["covers"]:
                    mismatches.append("witness of %s/%s not reproduced natively" % (e, c))
                else:
                    validated += 1

    mine = sorted(set("::".join(idents(f)[:6]) for f in funcs if "kserd" in f))
    import known
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
            "samples": [{"entry": e, "params": p, "input": s["bytes"]} for e, p, s in samples[:5]],
            "jobs": len(pool.results), "infeasible_branches": tot["infeasible"], "instructions": tot["insts"],
            "assertions_evaluated": tot["checks"], "solver_queries": tot["queries"], "decided_by_byte_table": tot["tabled"], "byte_table_unconfirmed": tot["table_only"],
            "decided_by_cache": tot["cached"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "solver_seconds": round(solver_s, 3), "functions_executed": len(funcs), "repo_functions": mine,
            "reached_points": {"%s/%d" % k: v[0] for k, v in sorted(covers.items())},
            "bounds": spec.bounds, "source_hash": key, "build_seconds": round(built - T0, 1),
        },
        "wall_s": round(time.time() - T0, 2), "assumptions": P.assumes, "violations": [],
    }
    if viol:
        ev["violations"] = [{"entry": viol[0], "params": viol[1], "kind": viol[2]["kind"], "code": viol[2]["code"], "input": viol[2]["bytes"], "replay": rp, "replayed": confirmed}]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    listed = known.findings(pid)
    for entry, params, code in spec.knowns if not viol else ():
        pool = Pool(art, seed, T0 + budget, 1)
        pool.run([(entry, params)])
        for _, d, inc in pool.results:
            v = d and d["violations"]
            if v and code in listed and v[0]["code"] == code and code in replay(art, "release", ["%s %s %s" % (entry, ",".join(map(str, params)), v[0]["bytes"])])[0]["failed"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, listed[code]))
            elif v or inc:
                errors.append("%s %s: %s" % (entry, params, v or inc))
    if viol:
        if not any(c["reproduced"] for c in confirmed):
            die("the model %s does not reproduce natively: %s" % (viol, confirmed))
        print("%s %s input=%s code=%s %s" % (viol[0], viol[1], viol[2]["bytes"], viol[2]["code"], props.CODES.get((viol[0], viol[2]["code"])) or props.CODES.get(viol[2]["code"], viol[2]["kind"])))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    for m in mismatches[:3]:
        print("mismatch " + m)
    if mismatches:
        die("%d explored paths do not match the native run" % len(mismatches))
    if errors:
        die("; ".join(errors[:5]))
    print("%s held: %d paths, %d assertions, %d queries, %d native replays, %.1fs" % (pid, tot["paths"], tot["checks"], tot["queries"], validated, time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
