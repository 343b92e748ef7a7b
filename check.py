#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough] [--replay FILE]

Stages of a check (see checks.py for which property has which):
  mc     TLC explores a specification exhaustively within small bounds
  gen    TLC runs scripted behaviours of a specification and prints every step with the outcome
         the implementation has to show; the Rust harness replays them on the real code
  trace  the harness records histories of the real code; TLC validates them against the specification
Every gen and trace stage is followed by a binding self-test: the same stage with one recorded
or expected value falsified has to be rejected.

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: an error of the check.
"""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, ".target")
WORKROOT = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)


class ToolError(Exception):
    pass


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow")
    # never trust time stamps of /repo: compile the library again
    run(["cargo", "clean", "--offline", "-p", "mazth"], 120, cwd=HARNESS, env=env)
    r = run(["cargo", "build", "--offline", "-q"], 600, cwd=HARNESS, env=env)
    exe = os.path.join(TARGET, "debug", "conform")
    if r.returncode != 0 or not os.path.exists(exe):
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    return exe


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def tlc(work, name, st, env=None, workers=4, heap="3g"):
    """Runs TLC on a stage; returns (output lines, stats, ok)."""
    cfg = ["CONSTANTS"] + ["  %s = %s" % (k, tla(v)) for k, v in st.get("consts", {}).items()] if st.get("consts") else []
    cfg.append("SPECIFICATION " + st.get("spec", "Spec"))
    for i in st.get("inv", []):
        cfg.append("INVARIANT " + i)
    for i in st.get("props", []):
        cfg.append("PROPERTY " + i)
    if st.get("post"):
        cfg.append("POSTCONDITION " + st["post"])
    if st.get("constraint"):
        cfg.append("CONSTRAINT " + st["constraint"])
    if st.get("view"):
        cfg.append("VIEW " + st["view"])
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if st.get("deadlock") else "FALSE"))
    cf = os.path.join(work, name + ".cfg")
    open(cf, "w").write("\n".join(cfg) + "\n")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
    e.update(env or {})
    t0 = time.time()
    r = run(["tlc", "-config", cf, "-metadir", os.path.join(work, "md_" + name), "-workers", str(workers),
             "-noGenerateSpecTE", os.path.join(SPEC, st["module"] + ".tla")], st.get("timeout", 850), cwd=work, env=e)
    out = r.stdout.splitlines()
    cases = [l for l in out if l.startswith('"{')]
    log = [l for l in out if not l.startswith('"{')]
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", "\n".join(log[-30:]))
    stats = {"stage": name, "module": st["module"], "generated": int(m.group(1)) if m else 0,
             "distinct": int(m.group(2)) if m else 0, "seconds": round(time.time() - t0, 1)}
    d = re.search(r"depth of the complete state graph search is (\d+)", "\n".join(log[-30:]))
    stats["depth"] = int(d.group(1)) if d else 0
    return cases, log, stats, r.returncode


def spec_failed(log, rc):
    return rc != 0 or not any("No error has been found" in l for l in log)


def short(log):
    txt = [l for l in log if not re.match(r"(Parsing|Semantic|Linting|Progress|Computed|Loading|Picked)", l)]
    return "\n".join(txt[-60:])


# steps by which the harness itself supplies a value; nothing is compared there
GIVEN = ("polar", "nudge")


def corrupt_line(c, fields=("exp", "res")):
    """Falsifies one expected/recorded value of a step; None when the step carries none."""
    c = json.loads(json.dumps(c))
    for f in fields:
        e = c.get(f)
        if isinstance(e, dict) and any(e.get("loose") or []):
            return None
        if isinstance(e, dict):
            for k in ("num", "v", "lo", "hi", "a", "n"):
                if isinstance(e.get(k), list) and e[k] and isinstance(e[k][0], int):
                    e[k][0] += 1 + abs(e[k][0]) * 2
                    return c
            for k in ("b", "hit", "rm"):
                if isinstance(e.get(k), bool):
                    e[k] = not e[k]
                    return c
            for k in ("verdict", "ans"):
                if e.get(k) in ("hit", "miss"):
                    e[k] = "miss" if e[k] == "hit" else "hit"
                    return c
            if e.get("k") == "none":
                e["k"] = "panic"
                return c
    return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = None
        self.stats, self.samples, self.fails = [], [], []
        self.repeated = self.replayed = self.steps = self.compared = self.traces = self.events = 0
        self.ops = {}
        self.selftests = 0
        self.t0 = time.time()

    def harness(self, args, timeout=840):
        try:
            r = subprocess.run([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timeout")
        if r.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            # stack or memory exhausted by a call of the library: no panic, the process is gone
            return r.stdout.splitlines() + [
                json.dumps({"fail": "the process died in a call of the library: " + r.stderr[-300:], "case": "not known"}),
                json.dumps({"summary": 1})]
        if r.returncode != 0:
            # a crash that is not a caught panic: report what is known, the tool decides nothing
            raise ToolError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        return r.stdout.splitlines()

    def replay(self, st, name, path):
        fails, summ = [], None
        for l in self.harness(["replay", st["domain"], st.get("suite", self.prop), path]):
            j = json.loads(l)
            if "summary" in j:
                summ = j
            elif "fail" in j:
                j["stage"] = name
                j["domain"] = st["domain"]
                j["suite"] = st.get("suite", self.prop)
                fails.append(j)
        if summ is None:
            raise ToolError("harness gave no summary")
        return fails, summ

    def stage_mc(self, st, name):
        cases, log, stats, rc = tlc(self.work, name, st, workers=st.get("workers", 4))
        if spec_failed(log, rc):
            raise ToolError("specification %s: %s" % (st["module"], short(log)))
        stats["kind"] = "exhaustive"
        stats["what"] = st.get("what", "")
        self.stats.append(stats)

    def stage_gen(self, st, name):
        cases, log, stats, rc = tlc(self.work, name, st, workers=st.get("workers", 4))
        if spec_failed(log, rc):
            raise ToolError("specification %s: %s" % (st["module"], short(log)))
        if not cases:
            raise ToolError("no behaviours generated by %s" % st["module"])
        lines = [json.loads(json.loads(l)) for l in cases]
        lines.sort(key=lambda c: (c["h"], c.get("t", 0)))
        uniq, last = [], None
        for c in lines:
            if (c["h"], c.get("t", 0)) != last:
                uniq.append(c)
                last = (c["h"], c.get("t", 0))
        lines = uniq
        path = os.path.join(self.work, name + ".ndjson")
        with open(path, "w") as f:
            for c in lines:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        stats.update(kind="generated", what=st.get("what", ""), steps=len(lines), histories=len({c["h"] for c in lines}))
        self.stats.append(stats)
        for c in lines:
            k = c.get("op", "case") + ":" + str(c.get("exp", {}).get("k", c.get("exp", {}).get("verdict", "")))
            self.ops[k] = self.ops.get(k, 0) + 1
        self.samples.append(lines[len(lines) // 2])
        self.builder.result()
        fails, summ = self.replay(st, name, path)
        for f in fails:
            hh = f["case"]["h"] if isinstance(f["case"], dict) and "h" in f["case"] else None
            f["history"] = [c for c in lines if c["h"] == hh and c.get("t", 0) <= f["case"].get("t", 0)] if hh is not None else []
        self.fails += fails
        self.replayed += summ.get("histories", 0)
        self.steps += summ.get("steps", 0)
        self.compared += summ.get("compared", 0)
        self.repeated += summ.get("repeated", 0)
        # binding self-test: falsify one expectation, the replay has to object
        if not fails:
            # (several are tried: where two answers are allowed, falsifying one of them proves nothing)
            cand = [c for c in lines if c.get("op") not in GIVEN and corrupt_line(c) is not None]
            k = max(1, len(cand) // 12)
            bad = None
            for c in (cand[len(cand) // 3:] + cand[:len(cand) // 3])[::k][:12]:
                bad = corrupt_line(c)
                p2 = os.path.join(self.work, name + "_self.ndjson")
                with open(p2, "w") as f:
                    for x in lines:
                        if x["h"] == c["h"]:
                            f.write(json.dumps(bad if x.get("t", 0) == c.get("t", 0) else x, separators=(",", ":")) + "\n")
                fl, _ = self.replay(st, name, p2)
                if fl:
                    self.selftests += 1
                    break
            else:
                raise ToolError("binding self-test: a falsified expectation was accepted: %s" % json.dumps(bad))

    def validate(self, st, name, path):
        cases, log, stats, rc = tlc(self.work, name, dict(st, spec="TraceSpec", post="TraceAccepted"),
                                    env={"TRACE": path}, workers=1)
        n = sum(1 for _ in open(path))
        ok = not spec_failed(log, rc)
        rejected = any("Postcondition TraceAccepted" in l for l in log)
        if not ok and not rejected:
            raise ToolError("trace specification %s: %s" % (st["module"], short(log)))
        return ok, stats, n

    def stage_trace(self, st, name):
        self.builder.result()
        path = os.path.join(self.work, name + ".ndjson")
        out = self.harness(["record", st["domain"], st.get("suite", self.prop), str(self.seed), str(st["count"]), path])
        for l in out:
            if l.startswith("{"):
                j = json.loads(l)
                if "fail" in j:
                    j.update(stage=name, domain=st["domain"], suite=st.get("suite", self.prop))
                    self.fails.append(j)
        if self.fails and not os.path.exists(path):
            return
        ok, stats, n = self.validate(st, name, path)
        ev = [json.loads(l) for l in open(path)]
        stats.update(kind="trace", what=st.get("what", ""), events=n)
        self.stats.append(stats)
        hist = max(1, sum(1 for e in ev if e.get("op") == "start"))
        if ok:
            self.traces += hist
            self.events += n
            for e in ev:
                k = "rec." + e.get("op", "") + ":" + str(e.get("res", {}).get("k", e.get("res", {}).get("ans", "")))
                self.ops[k] = self.ops.get(k, 0) + 1
            self.samples.append(ev[n // 2])
            # binding self-test on a prefix
            tried = 0
            for i in range(min(n - 1, 40), n):
                bad = corrupt_line(ev[i])
                if bad is not None and st.get("corruptible", lambda e: True)(ev[i]):
                    p2 = os.path.join(self.work, name + "_self.ndjson")
                    with open(p2, "w") as f:
                        for x in ev[:i] + [bad]:
                            f.write(json.dumps(x, separators=(",", ":")) + "\n")
                    ok2, _, _ = self.validate(st, name + "_self", p2)
                    if not ok2:
                        self.selftests += 1
                        break
                    tried += 1
                    if tried == 8:
                        raise ToolError("binding self-test: a falsified record was accepted: %s" % json.dumps(bad))
        else:
            k = max(0, min(stats["depth"], n) - 1)
            st0 = max([i for i in range(k + 1) if ev[i].get("op") == "start"] or [0])
            self.fails.append({"fail": "recorded call is not a behaviour of the specification", "stage": name,
                               "domain": st["domain"], "suite": st.get("suite", self.prop), "trace": True,
                               "module": st["module"], "case": ev[k], "history": ev[st0:k + 1]})

    def main(self):
        import checks
        stages = checks.stages(self.prop, self.tier, self.seed)
        os.makedirs(WORKROOT, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=self.prop + "-", dir=WORKROOT)
        try:
            with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
                self.builder = ex.submit(build)
                self.builder.add_done_callback(lambda f: setattr(self, "exe", f.result()) if not f.exception() else None)
                futs = [ex.submit(getattr(self, "stage_" + st["kind"]), st, "%s%d" % (st["kind"], i))
                        for i, st in enumerate(stages)]
                errs = []
                for f in futs + [self.builder]:
                    try:
                        f.result()
                    except ToolError as e:
                        errs.append(str(e))
                if errs and not self.fails:
                    raise ToolError(errs[0])
            return self.finish()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def finish(self):
        known, unlisted = [], []
        for f in self.fails:
            k = match_known(self.prop, f)
            (known if k else unlisted).append((k, f))
        seen = set()
        for k, f in known:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": sum(s["distinct"] for s in self.stats),
                "transitions": sum(s["generated"] for s in self.stats),
                "traces_validated_against_impl": self.replayed + self.traces,
                "samples": self.samples[:6],
                "replayed_histories": self.replayed, "replayed_steps": self.steps,
                "outcomes_compared": self.compared, "calls_made_again": self.repeated,
                "recorded_histories_validated": self.traces, "recorded_events_validated": self.events,
                "binding_selftests": self.selftests,
                "stages": self.stats, "calls_by_outcome": self.ops,
            },
            "assumptions": [
                "TLC and its Json/IOUtils modules evaluate the specification correctly",
                "the harness maps abstract values to floating point numbers and back as DESIGN.md says",
            ],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted),
        }
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        if unlisted:
            rp = os.path.join(EVID, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.prop + ".json")
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "failures": [f for _, f in unlisted[:25]],
                       "rerun": "python3 check.py %s --replay %s" % (self.prop, path)}, open(path, "w"), indent=1)
            for _, f in unlisted[:3]:
                print("  %s [%s] %s" % (f["fail"][:400], f.get("prec", ""), json.dumps(f["case"])[:500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d compared=%d wall=%.1fs" % (
            self.prop, self.tier, ev["coverage"]["states"], ev["coverage"]["traces_validated_against_impl"],
            self.compared + self.events, ev["wall_s"]))
        return 0


def match_known(prop, fail):
    """A listed finding: `finding: property=<id> match=<json> <text>`; every key of the json has to
    occur with that value in the failing case."""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return None
    for l in open(p):
        m = re.match(r"finding: property=(\w+) match=(\{.*?\}) (.*)", l)
        if m and m.group(1) == prop and isinstance(fail.get("case"), dict):
            want = json.loads(m.group(2))
            if all(fail["case"].get(k) == v for k, v in want.items()):
                return m.group(3).strip()
    return None


def rerun(prop, path):
    """Replays the failures saved by an earlier run on the current tree."""
    data = json.load(open(path))
    exe = build()
    os.makedirs(WORKROOT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=WORKROOT)
    bad = 0
    try:
        for f in data["failures"]:
            if f.get("trace"):
                print("recorded history (validate with %s.tla): %s" % (f["module"], json.dumps(f["history"])))
                continue
            p = os.path.join(work, "r.ndjson")
            with open(p, "w") as o:
                for c in f.get("history") or [f["case"]]:
                    o.write(json.dumps(c, separators=(",", ":")) + "\n")
            r = subprocess.run([exe, "replay", f["domain"], f["suite"], p], stdout=subprocess.PIPE, text=True)
            for l in r.stdout.splitlines():
                if '"fail"' in l:
                    bad += 1
                    print(l[:1000])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if "--replay" in a:
            sys.exit(rerun(prop, a[a.index("--replay") + 1]))
        sys.exit(Check(prop, tier, seed).main())
    except ToolError as e:
        print("ERROR property=%s %s" % (prop, e))
        sys.exit(2)


if __name__ == "__main__":
    main()
