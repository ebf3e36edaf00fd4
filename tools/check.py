#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY]

Decides one property: builds the IR of /repo's current sources together with
the property's harnesses, runs the symbolic executor on every harness entry,
replays what it reports against the real code, and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import glob, json, os, subprocess, sys, time, random, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO
import bounds
import props

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def known_findings():
    """KNOWN_FINDINGS.txt: 'known: property=C01 id=K1 <text>' and 'fixed: ...' lines."""
    out = []
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out.append((f["property"], f["id"], " ".join(l.split()[3:])))
    return out


def jsonl(path):
    if not os.path.exists(path):
        return []
    out = []
    for l in open(path, errors="replace"):
        l = l.strip()
        if l:
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def render(vj):
    """named model bytes -> readable"""
    out = []
    last = None
    for n, v in vj:
        if n == last:
            out[-1][1].append(v)
        else:
            out.append([n, [v]])
        last = n
    def ch(v):
        return chr(v) if 32 <= v < 127 and v not in (92,) else "\\x%02x" % v
    return "; ".join("%s=%s" % (n, vs[0] if len(vs) == 1 and vs[0] < 32 else "'" + "".join(ch(v) for v in vs) + "'") for n, vs in out)


def case_line(entry, vals, params):
    return "%s;%s;%s" % (entry, ",".join(str(v) for v in vals), ",".join("%s=%d" % kv for kv in sorted(params.items())))


def run_native(exe, lines, work, timeout=20, wrapper=()):
    """-> list of (verdict line)"""
    res = []
    CH = 64
    chunks = [lines[i:i + CH] for i in range(0, len(lines), CH)]
    procs = []
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    out = [None] * len(chunks)
    i = 0
    active = []
    def reap(block):
        while active:
            j, p, fn = active[0]
            if not block and p.poll() is None:
                return
            o, _ = p.communicate()
            ls = o.decode(errors="replace").splitlines()
            ls += ["LOST"] * (len(chunks[j]) - len(ls))
            out[j] = ls[:len(chunks[j])]
            active.pop(0)
            if block:
                return
    while i < len(chunks) or active:
        while i < len(chunks) and len(active) < 8:
            fn = "%s/cases.%d" % (work, i)
            with open(fn, "w") as f:
                f.write("\n".join(chunks[i]) + "\n")
            p = subprocess.Popen(list(wrapper) + [exe, "-t", str(timeout), fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
            active.append((i, p, fn))
            i += 1
        reap(True)
    for o in out:
        res += o
    return res


class Check:
    def __init__(self, pid, tier, only=None):
        self.pid, self.tier, self.only = pid, tier, only
        self.spec = props.PROPS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.total = 780 if tier == "quick" else 6 * 3600
        self.violations = []
        self.notes = []
        self.work = os.path.join(VERIF, "build", "work", "%s.%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replaydir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replaydir, exist_ok=True)
        for f in glob.glob(os.path.join(self.replaydir, pid + "-*")):
            os.unlink(f)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], harnesses=[])
        self.functions = {}
        self.known_hit = {}

    def left(self):
        return self.total - (time.time() - T0)

    def violate(self, entry, params, ev, how, vals):
        k = (entry, ev.get("msg", ""), ev.get("kind", ""))
        if any(v["key"] == k for v in self.violations) or len(self.violations) >= 8:
            return
        n = len(self.violations) + 1
        path = os.path.join(self.replaydir, "%s-%d.txt" % (self.pid, n))
        with open(path, "w") as f:
            f.write("property: %s\nharness entry: %s\nwhat: %s %s\nvalues: %s\nnative replay: %s\nstack: %s\n" % (
                self.pid, entry, ev.get("kind"), ev.get("msg"), render(ev.get("vars", [])), how, ev.get("stack", "")))
            f.write("case: %s\n" % case_line(entry, vals, params))
            f.write("to replay: python3 %s/tools/replay.py %s %s\n" % (VERIF, self.pid, path))
        self.violations.append(dict(key=k, path=path))
        log("VIOLATED", entry, ev.get("kind"), ev.get("msg"), "|", render(ev.get("vars", [])), "|", how)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def run(self):
        b = build.Builder()
        engine = b.engine()
        progs = {}
        runs = [r for r in self.spec["runs"] if (not self.only or r["entry"] == self.only) and self.tier in r.get("tiers", ("quick", "thorough"))]
        for r in runs:
            k = (r["harness"], tuple(r.get("defs", ())))
            if k not in progs:
                progs[k] = b.program(r["harness"].split(), None, r.get("defs", ()))
        eng = engine()
        bcs = {k: v[0]() for k, v in progs.items()}
        log("built")
        nat = {}
        for r in runs:
            k = (r["harness"], tuple(r.get("defs", ())))
            if self.violations and self.tier == "quick":
                self.notes.append("%s not run: a violation was already found" % r["entry"])
                continue
            if self.left() < 20:
                self.notes.append("%s not run: out of time" % r["entry"])
                self.cov["harnesses"].append(dict(entry=r["entry"], complete=False, note="not run: out of time"))
                continue
            if k not in nat:
                nat[k] = progs[k][1]()
            self.run_one(r, eng, bcs[k], nat[k], progs[k][2])
        build.prune()
        self.finish()

    def run_one(self, r, eng, bc, nat, plain):
        entry = r["entry"]
        params = dict(r.get("p", {}))
        params.update(r.get("pt" if self.tier == "thorough" else "pq", {}))
        for p, kid, _ in known_findings():
            params["known_" + kid] = 1
        out = os.path.join(self.work, entry)
        os.makedirs(out)
        budget = r.get("tt", 3600) if self.tier == "thorough" else r.get("tq", 150)
        budget = max(10, min(budget, self.left() - 60))
        cmd = [eng, bc, "-e", entry, "-o", out, "-j", "8", "-t", "%.0f" % budget, "-n", str(r.get("maxinstr", 20000000)), "-m", str(r.get("mem", 3000)), "-s", str(self.seed), "-V", "12"]
        for k, v in sorted(params.items()):
            cmd += ["-p", "%s=%d" % (k, v)]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        wall = time.time() - t
        h = dict(entry=entry, bounds=bounds.text(entry, params), params=params)
        self.cov["harnesses"].append(h)
        if p.returncode or not os.path.exists(out + "/summary.json"):
            h.update(complete=False, error=(p.stderr or b"").decode(errors="replace")[-400:])
            log(entry, "engine failed:", h["error"])
            self.notes.append(entry + ": engine failed: " + h["error"])
            return
        s = json.load(open(out + "/summary.json"))
        fns = s.pop("functions")
        for f, l in fns.items():
            if f.startswith(REPO):
                self.functions.setdefault(f[len(REPO) + 1:], set()).update(l)
        h.update(s)
        complete = not (s["dropped"] or s["dropped_deadline"] or s["cut"] or s["hangs"] or s["worker_failures"] or s["mem_stops"] or s["z3_unknown"])
        h["complete"] = complete
        self.cov["states"] += s["paths"] + s["forks"]
        self.cov["transitions"] += s["decisions"]
        log("%s: %d paths, %d cut, %d hang, %d viol, %d dropped, checks %d (%d symbolic), z3 %d (%.1fs), wall %.1fs%s" % (
            entry, s["paths"], s["cut"], s["hangs"], s["violations"], s["dropped"] + s["dropped_deadline"], s["checks"], s["checks_symbolic"], s["z3"], s["z3_seconds"], wall, "" if complete else "  INCOMPLETE"))
        # 1. what the executor reports
        evs = jsonl(out + "/violations.jsonl")
        hangs = jsonl(out + "/hangs.jsonl")[:6]
        lines = [case_line(entry, [v for _, v in e["vars"]], params) for e in evs + hangs]
        res = run_native(nat, lines, self.work, 20) if lines else []
        unconfirmed = 0
        for e, l in zip(evs + hangs, res):
            vals = [v for _, v in e["vars"]]
            if l.startswith(("VIOL", "CRASH")):
                self.violate(entry, params, e, l, vals)
            else:
                unconfirmed += 1
                log("not reproduced natively:", e.get("kind"), e.get("msg"), render(e["vars"]), "->", l)
        h["unconfirmed_reports"] = unconfirmed
        # 2. reads of uninitialised memory that a decision depends on
        un = jsonl(out + "/uninit.jsonl")[:8]
        if un:
            h["uninitialised_reads"] = len(un)
            try:
                ex = plain()()
                ul = [case_line(entry, [v for _, v in e["vars"]], params) for e in un]
                for e, l in zip(un, ul):
                    fn = self.work + "/u.case"
                    open(fn, "w").write(l + "\n")
                    q = subprocess.run(["valgrind", "-q", "--error-exitcode=77", "--trace-children=yes", ex, "-t", "60", fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    if b"uninitialised" in q.stderr:
                        self.violate(entry, params, e, "valgrind: " + q.stderr.decode(errors="replace").splitlines()[0], [v for _, v in e["vars"]])
                    else:
                        log("uninitialised read not confirmed:", e.get("msg"), e.get("stack", "")[:300])
            except Exception as x:
                self.notes.append("uninit confirmation failed: %r" % (x,))
        # 3. explored paths, and the paths the executor could not finish, against the real code
        rnd = random.Random(self.seed)
        paths = []
        for f in sorted(glob.glob(out + "/paths.*")):
            paths += jsonl(f)
        paths.sort(key=lambda q: json.dumps(q, sort_keys=True))
        n = r.get("replay", 256 if self.tier == "quick" else 2048)
        if len(paths) > n:
            paths = rnd.sample(paths, n)
        cuts = jsonl(out + "/cuts.jsonl")[:200]
        lines = [case_line(entry, q["vars"], params) for q in paths] + [case_line(entry, [v for _, v in c["vars"]], params) for c in cuts]
        res = run_native(nat, lines, self.work, 20) if lines else []
        ok = bad = 0
        for q, l in zip(paths, res):
            if l.startswith(("VIOL", "CRASH")):
                self.violate(entry, params, dict(kind="native", msg=l, vars=q["vj"]), l, q["vars"])
                continue
            w = l.split()
            if len(w) == 4 and w[0] == "END" and w[1] == q["end"] and w[2] == str(q["code"]) and w[3] == q["obs"]:
                ok += 1
            else:
                bad += 1
                if bad <= 3:
                    log("trace differs from the real code:", entry, q["end"], q["code"], q["obs"], "native:", l, render(q["vj"]))
        cr = 0
        for c, l in zip(cuts, res[len(paths):]):
            cr += 1
            if l.startswith(("VIOL", "CRASH")):
                self.violate(entry, params, dict(c, kind="native (path the executor could not finish)", msg=l), l, [v for _, v in c["vars"]])
        self.cov["traces_validated_against_impl"] += ok
        h.update(traces_validated=ok, traces_differing=bad, cut_paths_run_natively=cr)
        if bad:
            self.notes.append("%s: %d sampled paths behaved differently natively" % (entry, bad))
        for c in cuts[:3]:
            log("cut:", c["msg"], c["stack"][:300])
        for q in paths[:2]:
            self.cov["samples"].append("%s: %s -> %s" % (entry, render(q["vj"]), q["end"]))
        # 4. vacuity
        missing = [x for x in r.get("reach", []) if not s["reach"].get(x)]
        h["witnesses_missing"] = missing
        if missing:
            self.notes.append("%s: not reached: %s" % (entry, ", ".join(missing)))
            log(entry, "NOT REACHED:", missing)
        if s["checks"] == 0 and not r.get("nochecks"):
            self.notes.append("%s: no assertion was reached" % entry)
            log(entry, "NO CHECKS")
        # 5. recorded findings seen again
        for e in jsonl(out + "/known.jsonl"):
            self.known_hit.setdefault(e["msg"], (entry, e))
        shutil.rmtree(out, ignore_errors=True)

    def finish(self):
        for p, kid, text in known_findings():
            if p == self.pid:
                print("KNOWN-FINDING: property=%s %s" % (p, text) + (" [seen: %s]" % render(self.known_hit[kid][1]["vars"]) if kid in self.known_hit else ""), flush=True)
        hs = self.cov["harnesses"]
        c = self.cov
        c["samples"] = c["samples"][:24]
        c["functions_encoded"] = {f: sorted(l) for f, l in sorted(self.functions.items())}
        c["functions_encoded_count"] = sum(len(l) for l in self.functions.values())
        for k in ("paths", "queries", "decided_by_domain_or_model", "model_repair", "cache_hits", "z3", "z3_sat", "z3_unsat", "z3_unknown", "infeasible_verdicts_confirmed_by_z3", "checks", "checks_symbolic", "instructions", "assumed_away", "cut", "hangs", "dropped", "dropped_deadline", "traces_differing", "unconfirmed_reports"):
            c["total_" + k] = sum(h.get(k, 0) for h in hs)
        c["solver_seconds_total"] = round(sum(h.get("z3_seconds", 0) for h in hs), 3)
        c["exhaustive"] = bool(hs) and all(h.get("complete") for h in hs)
        c["bounds"] = {h["entry"]: h.get("bounds", "") for h in hs}
        c["explanation"] = ("states = program paths plus fork points of the symbolic execution of the compiled sources; transitions = symbolic branch decisions; "
                            "a path stands for every input satisfying its path condition. exhaustive means every path within the stated bounds was executed to its end.")
        if self.notes:
            c["notes"] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=c,
                  assumptions=list(props.COMMON_ASSUMPTIONS) + list(self.spec.get("assumptions", [])),
                  wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/%s.json.%d" % (self.pid, os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.pid)
        shutil.rmtree(self.work, ignore_errors=True)
        log("%s %s: %s, %s" % (self.pid, self.tier, "VIOLATED" if self.violations else "held", "complete within bounds" if c["exhaustive"] else "incomplete"))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    ck = Check(a[0], tier, only)
    try:
        ck.run()
    except build.BuildError as e:
        print("build failed:", e)
        sys.exit(3)
    sys.exit(1 if ck.violations else 0)


if __name__ == "__main__":
    main()
