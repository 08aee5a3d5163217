#!/usr/bin/env python3
"""Deterministic-simulation checks for cwahn/efp.

  check.py PROP            decide one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE     rebuild from /repo and replay a recorded violation
  check.py build [HARNESS] build the simulation harnesses
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no answer.
"""
import array
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config  # noqa: E402

REPO = os.environ.get("EFP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
NPROC = 8


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ building
def tree_hash(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        files = [p]
        if os.path.isdir(p):
            files = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, "/").encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:20]


def run_cc(cmd, out):
    """compile to a temporary name, then rename: several checks may build at once"""
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return p.stdout
    os.rename(tmp, out)
    return None


def build_runtime():
    os.makedirs(BUILD, exist_ok=True)
    objs = []
    for name, flags in (("rt", config.RT_FLAGS), ("lin", config.LIN_FLAGS)):
        src = os.path.join(HERE, "sim", name + ".cpp")
        key = tree_hash([os.path.join(HERE, "sim")], " ".join(flags))
        obj = os.path.join(BUILD, "%s-%s.o" % (name, key))
        if not os.path.exists(obj):
            err = run_cc(flags + ["-c", src], obj)
            if err:
                raise NoAnswer("the simulator does not compile:\n" + err[-3000:])
        objs.append(obj)
    return objs


def build_variant(harness, variant, objs):
    flags = config.VARIANTS[variant]
    defs = config.HARNESS_DEFS.get(harness, [])
    src = os.path.join(HERE, "harness", config.HARNESS_SRC.get(harness, harness) + ".cpp")
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(HERE, "harness"), os.path.join(HERE, "sim")],
                    " ".join(flags + defs + [harness]))
    exe = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, key))
    if os.path.exists(exe):
        return exe, None
    obj = exe + ".%d.o" % os.getpid()
    err = run_cc(flags + defs + ["-I" + os.path.join(REPO, "include"), "-c", src], obj)
    if err and harness in config.HARNESS_FALLBACK:
        # functions that no longer compile for valid arguments: a call of one is then a violation
        if not run_cc(flags + defs + config.HARNESS_FALLBACK[harness] + ["-I" + os.path.join(REPO, "include"), "-c", src], obj):
            err = None
    if err:
        return None, err
    err = run_cc(["clang++", obj] + objs + ["-ldl"], exe)
    os.unlink(obj)
    if err:
        return None, err
    prune(harness, variant, exe)
    return exe, None


def prune(harness, variant, keep):
    pre = "%s-%s-" % (harness, variant)
    olds = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(pre) and not f.endswith(".tmp") and not f.endswith(".o")]
    olds = sorted((f for f in olds if f != keep), key=os.path.getmtime)
    for f in olds[:-3]:
        try:
            os.unlink(f)
        except OSError:
            pass


def build(harness, variants):
    objs = build_runtime()
    with ThreadPoolExecutor(len(variants)) as ex:
        res = list(ex.map(lambda v: build_variant(harness, v, objs), variants))
    exes = {v: e for v, (e, err) in zip(variants, res) if e}
    errs = {v: err for v, (e, err) in zip(variants, res) if not e}
    if not exes:
        v = variants[0]
        raise NoAnswer("the harness %s does not compile against %s:\n%s" % (harness, REPO, errs[v][-4000:]))
    return exes, errs


# ------------------------------------------------------------------ replay files
def parse_replay(text):
    head, ops, chs, tail = [], [], [], {}
    for line in text.splitlines():
        k = line.split(" ", 1)[0]
        if k == "op":
            ops.append(line)
        elif k == "ch":
            chs.append(line)
        elif k in ("expect", "hash", "variant"):
            tail[k] = line.split(" ", 1)[1].strip()
        elif k.startswith("#"):
            tail.setdefault("msg", line[1:].strip())
        elif line.strip():
            head.append(line)
    return head, ops, chs, tail


def render(head, ops, chs, tail=None):
    s = "\n".join(head + ops + chs) + "\n"
    if tail:
        for k in ("variant", "expect", "hash"):
            if k in tail:
                s += "%s %s\n" % (k, tail[k])
        if "msg" in tail:
            s += "# %s\n" % tail["msg"]
    return s


def exec_file(exe, path, out):
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([exe, "exec", path, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, env=run_env())
    except subprocess.TimeoutExpired:
        return None
    if p.returncode == 10 and os.path.exists(out):
        with open(out, errors="replace") as f:
            return parse_replay(f.read())[3]
    return None


def run_env():
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    env["LC_ALL"] = "C"
    env["EFP_KNOWN"] = ",".join(sorted(f["key"] for f in known_findings() if f.get("key")))
    return env


def minimise(exe, head, ops, chs, want, work, budget):
    """drop operations, then choices, while the same kind of violation remains"""
    t0 = time.time()
    path, out = os.path.join(work, "min.txt"), os.path.join(work, "min.out")
    tries = [0]

    def bad(h, o, c):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        with open(path, "w") as f:
            f.write(render(h, o, c))
        r = exec_file(exe, path, out)
        return bool(r) and r["expect"] == want

    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            step = max(1, len(items) // n)
            i, cut = 0, False
            while i < len(items):
                cand = items[:i] + items[i + step:]
                if test(cand):
                    items = cand
                    cut = True
                else:
                    i += step
                if time.time() - t0 > budget:
                    break
            if step == 1 and not cut:
                break
            if not cut or step > 1:
                n = min(max(2, len(items)), n * 2)
        return items

    for _ in range(3):
        before = (len(ops), len(chs))
        chs = ddmin(chs, lambda c: bad(head, ops, c))
        ops = ddmin(ops, lambda o: bad(head, o, chs))
        if (len(ops), len(chs)) == before:
            break
    return head, ops, chs, tries[0]


# ------------------------------------------------------------------ known findings
def known_findings():
    """known: property=C20 key=... text   |   fixed: property=C07 <commit> text"""
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.append({"property": m.group(1), "key": m.group(2), "text": m.group(3).strip()})
    return res


# ------------------------------------------------------------------ a check
def check(prop):
    t0 = time.time()
    cfg = config.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    variants = config.QUICK_VARIANTS if tier == "quick" else config.THOROUGH_VARIANTS
    exes, errs = build(cfg["harness"], list(dict.fromkeys(variants)))
    plan = [v for v in variants if v in exes]
    while len(plan) < NPROC:
        plan.append(plan[len(plan) % len(exes)] if plan else None)
    plan = plan[:NPROC]
    work = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    count = cfg[tier]
    wall = config.WALL[tier]
    t1 = time.time()
    procs = []
    for w in range(NPROC):
        o = os.path.join(work, "w%d" % w)
        cmd = [exes[plan[w]], "run", prop, tier, str(seed), str(w), str(NPROC), str(max(1, count // NPROC)), str(wall), o]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"), env=run_env(), preexec_fn=limits), plan[w], o))
    pending = dict(enumerate(procs))
    viol, error = [], []
    deadline = t1 + wall + 120
    while pending:
        for i in list(pending):
            p, v, o = pending[i]
            rc = p.poll()
            if rc is None:
                continue
            del pending[i]
            if rc == 10:
                viol.append((v, o + ".viol"))
            elif rc != 0:
                tail = open(o + ".err", errors="replace").read()[-500:]
                error.append("worker %d ended with %s: %s" % (i, rc, tail))
        if viol and pending:
            time.sleep(0.2)
            for p, v, o in pending.values():
                if p.poll() is None:
                    p.kill()
                    p.wait()
                    pending_done = o
                elif p.returncode == 10:
                    viol.append((v, o + ".viol"))
            pending = {}
        elif pending:
            if time.time() > deadline:
                for p, v, o in pending.values():
                    p.kill()
                    p.wait()
                error.append("workers did not finish in time")
                pending = {}
            time.sleep(0.02)
    t2 = time.time()

    replay = None
    if viol:
        problems = []
        for v, path in viol:
            replay, why = confirm(prop, exes[v], v, path, work)
            if replay:
                break
            problems.append(why)
        if not replay:
            error += problems
    stats = collect(work)
    known = []
    for f in known_findings():
        if f["property"] == prop:
            known.append(f)
    write_evidence(prop, cfg, tier, seed, stats, plan, errs, t2 - t1, time.time() - t0, replay, known)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    if replay:
        head, ops, chs, tail = parse_replay(open(replay).read())
        print("property %s is broken: %s" % (prop, tail.get("expect")))
        print("  %s" % tail.get("msg", ""))
        print("  %d operations and %d scheduling or fault decisions in the replay file" % (len(ops), len(chs)))
        print("  replay: python3 %s replay %s" % (os.path.join(HERE, "check.py"), replay))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if error:
        raise NoAnswer("\n".join(error))
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    print("%s held: %d simulated runs, %d distinct, %d injected faults, %.1f s" %
          (prop, stats["runs"], stats["distinct"], sum(stats["faults"].values()), time.time() - t0))
    return 0


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def confirm(prop, exe, variant, path, work):
    """a violation counts only when a fresh process reproduces it exactly"""
    with open(path, errors="replace") as f:
        head, ops, chs, tail = parse_replay(f.read())
    out = os.path.join(work, "confirm.out")
    cand = os.path.join(work, "cand.txt")
    r = exec_file(exe, path, out)
    if not r:
        # code that keeps state from call to call: the runs before this one matter too
        pre, r = with_past(exe, head, ops, chs, path + ".past", cand, out)
        if not r:
            return None, "a violation (%s: %s) was seen but its replay gave none" % (tail.get("expect"), tail.get("msg"))
        head = head + pre
    want = r["expect"]
    h, o, c, tries = minimise(exe, head, ops, chs, want, work, config.MINIMISE_S)
    for a, b in ((o, c), (ops, chs)):
        with open(cand, "w") as f:
            f.write(render(h, a, b))
        r1 = exec_file(exe, cand, out)
        r2 = exec_file(exe, cand, out)
        if r1 and r2 and r1 == r2 and r1["expect"] == want:
            break
    else:
        return None, "the minimised replay is not repeatable"
    r1["variant"] = variant
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, "%s-%s.replay" % (prop, hashlib.sha256(open(cand, "rb").read()).hexdigest()[:10]))
    with open(final, "w") as f:
        f.write(render(h, a, b, r1))
    return final, None


def with_past(exe, head, ops, chs, past, cand, out):
    """the fewest earlier runs of the same process that make the violation appear again"""
    pre = open(past).read().split("\n")[:-1] if os.path.exists(past) else []

    def fails(p):
        with open(cand, "w") as f:
            f.write(render(head + p, ops, chs))
        return exec_file(exe, cand, out)

    n = 1
    while pre:
        p = pre[-n:]
        r = fails(p)
        if r:
            t0 = time.time()
            step = max(1, len(p) // 2)
            while step and time.time() - t0 < config.MINIMISE_S:
                i = 0
                while i < len(p) and time.time() - t0 < config.MINIMISE_S:
                    q = p[:i] + p[i + step:]
                    rq = fails(q)
                    if rq:
                        p, r = q, rq
                    else:
                        i += step
                step //= 2
            return p, r
        if n >= len(pre):
            break
        n *= 4
    return [], None


def collect(work):
    tot = {"faults": {}, "samples": [], "runs": 0, "distinct": 0}
    seen = set()
    for fn in sorted(os.listdir(work)):
        p = os.path.join(work, fn)
        if fn.endswith(".stats"):
            d = json.loads(open(p, errors="replace").read())
            for k, v in d.items():
                if k == "faults":
                    for a, b in v.items():
                        tot["faults"][a] = tot["faults"].get(a, 0) + b
                elif k == "samples":
                    tot["samples"] += v[:1]
                elif k == "wall":
                    tot["wall"] = max(tot.get("wall", 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
        elif fn.endswith(".hashes"):
            a = array.array("Q")
            a.frombytes(open(p, "rb").read())
            seen.update(a)
    tot["distinct"] = len(seen)
    return tot


def write_evidence(prop, cfg, tier, seed, st, plan, errs, wall, total, replay, known):
    rate = st["runs"] / max(wall, 0.001) * 3600
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": st["distinct"],
        "rule": cfg["rule"] + " Each run is one seed: workload, schedule and faults are all drawn from it. "
                "A run counts as non-trivial when it injected a fault, switched threads more than twice or exercised the "
                "scenario's special condition, and as distinct by the 64-bit hash of its sequence of switch points, "
                "fault positions and operations.",
        "samples": [s[:1500] for s in st["samples"][:3]] or ["(stopped before a sample was taken)"],
        "seeds_per_hour": int(rate),
        "operations": st.get("ops", 0),
        "oracle_comparisons": st.get("checks", 0),
        "oracle_inconclusive": st.get("inconclusive", 0),
        "simulated_steps": st.get("steps", 0),
        "simulated_time": "%d scheduler ticks; one tick is one instrumented memory access, lock, atomic, allocation or i/o call "
                          "(simulated clocks advance 1 microsecond per tick)" % st.get("steps", 0),
        "context_switches": st.get("switches", 0),
        "runs_with_faults": st.get("faulted_runs", 0),
        "runs_with_blocked_consumers": st.get("stuck", 0),
        "faults_injected": {k: v for k, v in st["faults"].items() if v},
        "exact_repeat_checks": st.get("repeats", 0),
        "exact_repeat_mismatches": st.get("mismatches", 0),
        "known_finding_hits": st.get("known", 0),
        "cut_by_time_limit_workers": st.get("cut", 0),
        "code_variants": {v: " ".join(config.VARIANTS[v]) for v in sorted(set(plan))},
        "variants_not_compiling": sorted(errs),
        "real_code": cfg["real"],
        "simulated_or_stubbed": cfg["stub"],
    }
    if replay:
        cov["violation_replay"] = replay
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + config.ASSUMPTIONS,
        "wall_s": round(total, 2), "violations": 1 if replay else 0,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(d, prop + ".json"))


def replay_cmd(path):
    text = open(path, errors="replace").read()
    head, ops, chs, tail = parse_replay(text)
    prop = [h.split()[1] for h in head if h.startswith("prop ")][0]
    variant = tail.get("variant", config.QUICK_VARIANTS[0])
    exes, errs = build(config.PROPS[prop]["harness"], [variant])
    os.makedirs(OUT, exist_ok=True)
    out = os.path.join(OUT, "replay-%d.out" % os.getpid())
    r = exec_file(exes[variant], path, out)
    if os.path.exists(out):
        os.unlink(out)
    if not r:
        print("the recorded run does not break %s on this tree" % prop)
        return 0
    print("%s: %s" % (r["expect"], r.get("msg", "")))
    print("the recorded execution was reproduced %s" % ("exactly" if r.get("hash") == tail.get("hash") else "with a different trace (the code changed)"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main(argv):
    try:
        if len(argv) == 2 and argv[0] == "replay":
            return replay_cmd(argv[1])
        if argv and argv[0] == "build":
            names = argv[1:] or sorted(set(c["harness"] for c in config.PROPS.values()))
            build_runtime()
            with ThreadPoolExecutor(4) as ex:
                for n, (e, errs) in zip(names, ex.map(lambda n: build(n, list(dict.fromkeys(config.QUICK_VARIANTS))), names)):
                    print(n, sorted(e), "failed: %s" % sorted(errs) if errs else "")
            return 0
        if len(argv) == 1 and argv[0] in config.PROPS:
            return check(argv[0])
    except NoAnswer as e:
        print("no answer: %s" % e, file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
