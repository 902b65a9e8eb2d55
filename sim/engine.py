"""Seeded search over scenarios: runs cases in worker processes, minimises failures, writes replay files
and evidence.  A case is a pure function of (property, seed, index); a scenario is plain JSON data and
judging it is a pure function of the scenario and the code under test."""
import sys, os, json, time, random, hashlib, copy, traceback, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sim
from world import SimError, TooLong

VERIF = os.path.dirname(HERE)
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
WORKERS = 8


class Case:
    """collects what judging one scenario found"""

    def __init__(self, env):
        self.env, self.viol, self.sig, self.nontrivial, self.digest, self.known = env, [], None, False, hashlib.sha256(), []
        self.trace = []

    def bad(self, cls, msg):
        self.viol.append((cls, msg))

    def ran(self, res):
        """feeds everything observable of a run into the case's digest"""
        d = self.digest
        for p in res.procs:
            d.update(repr((p.ended(), p.out, p.err)).encode())
        for k in sorted(res.tree):
            n = res.tree[k]
            d.update(repr((k, n.t, n.mtime, n.data)).encode())
        h = hashlib.blake2b(digest_size=8)
        for o in res.ops:
            h.update(b"%d%s%d%d%d" % (o.proc, o.kind.encode(), o.fault, o.crash, o.task))
        h.update(repr(res.switches).encode())
        self.env.interleavings.add(h.digest())
        d.update(h.digest())
        h = hashlib.blake2b(repr(sorted((k, n.t, n.data) for k, n in res.tree.items())).encode(), digest_size=8).digest()
        self.env.states.add(h)


def load(prop):
    import importlib
    return importlib.import_module("props." + prop.lower())


def run_case(mod, env, scn):
    c = Case(env)
    mod.check(c, scn)
    return c


def gen_case(mod, env, prop, seed, i, tier):
    rng = random.Random(f"{prop}:{seed}:{i}")
    scn = mod.gen(rng, env, i, tier)
    return json.loads(json.dumps(scn))


def worker(prop, seed, tier, todo, stop, conn, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    r = dict(n=0, sigs=set(), nontrivial=0, viol=[], samples=[], err=None, twice=0, diverged=0, capped=False, known={}, nerr=0)
    env = None
    try:
        mod = load(prop)
        env = sim.Env()
        for i in todo:
            if stop.value: break
            if time.time() > deadline:
                r["capped"] = True
                break
            try:
                scn = gen_case(mod, env, prop, seed, i, tier)
                c = run_case(mod, env, scn)
            except TooLong:
                env.probe("case not judged: more operations than are recorded")
                continue
            except Exception:
                # the machinery cannot judge this case (it never happens where the code works); what other cases show still counts
                r["err"] = r["err"] or traceback.format_exc()
                r["nerr"] += 1
                env.close()
                if r["nerr"] > 200: break
                continue
            r["n"] += 1
            for k in c.known: r["known"][k] = r["known"].get(k, 0) + 1
            if c.nontrivial:
                h = hashlib.blake2b(repr(c.sig).encode(), digest_size=8).digest()
                r["sigs"].add(h)
            if i < 3 * WORKERS and len(r["samples"]) < 1 and c.nontrivial: r["samples"].append((i, brief(scn)))
            if i % 61 == 0:
                c2 = run_case(mod, env, scn)
                r["twice"] += 1
                if c2.digest.digest() != c.digest.digest() or c2.viol != c.viol:
                    r["diverged"] += 1
            if c.viol:
                r["viol"].append((i, scn, c.viol))
                stop.value = 1
                break
        r["probes"], r["faults"] = env.probes, env.faults
        r["states"], r["inter"] = env.states, env.interleavings
        r["sim_ns"], r["runs"], r["ops"] = env.sim_ns, env.nruns, env.nops
    except BaseException:
        r["err"] = traceback.format_exc()
        stop.value = 1
    finally:
        if env: env.close()
    conn.send(r)
    conn.close()


def brief(scn):
    """scenario shortened for the evidence file"""
    def cut(x):
        if isinstance(x, str) and len(x) > 160: return x[:120] + "...(%d)" % len(x)
        if isinstance(x, dict): return {k: cut(v) for k, v in x.items()}
        if isinstance(x, list): return [cut(v) for v in x[:40]]
        return x
    return cut(scn)


def classes(viol):
    return {v[0] for v in viol}


def minimise(mod, env, scn, cls, budget=500, seconds=60):
    """smaller scenario showing a violation of the same class"""
    t0 = time.time()
    left = [budget]

    def fails(s):
        if left[0] <= 0 or time.time() - t0 > seconds: return False
        left[0] -= 1
        try:
            return cls in classes(run_case(mod, env, s).viol)
        except Exception:
            return False
    best = copy.deepcopy(scn)

    def try_(mut):
        nonlocal best
        s = copy.deepcopy(best)
        try:
            if mut(s) is False: return False
        except (KeyError, IndexError, TypeError):
            return False
        if fails(s):
            best = s
            return True
        return False

    def shrink_list(get, keep=0):
        """removes chunks, then single elements"""
        changed = False
        n = len(get(best) or [])
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(get(best) or []):
                if len(get(best)) - size < keep: break

                def mut(s, i=i, size=size):
                    del get(s)[i:i + size]
                if try_(mut): changed = True
                else: i += size
            size //= 2
        return changed

    def shrink_dict(get):
        changed = False
        for k in sorted(get(best) or {}, key=str):
            if try_(lambda s, k=k: get(s).__delitem__(k)): changed = True
        return changed
    for rnd in range(3):
        ch = False
        if "steps" in best:
            ch |= shrink_list(lambda s: s["steps"], 1)
            for k in range(len(best["steps"])):
                for f in ("rules", "argv", "scripts", "procs"):
                    if isinstance(best["steps"][k].get(f), list): ch |= shrink_list(lambda s, k=k, f=f: s["steps"][k][f], 1 if f == "procs" else 0)
                for f in ("env",):
                    if best["steps"][k].get(f): ch |= shrink_dict(lambda s, k=k, f=f: s["steps"][k][f])
                if isinstance(best["steps"][k].get("spec"), dict) and "doc" in best["steps"][k]["spec"]:
                    ch |= shrink_list(lambda s, k=k: s["steps"][k]["spec"]["doc"])
        for f in ("files", "links", "via", "old", "env"):
            if isinstance(best.get(f), dict): ch |= shrink_dict(lambda s, f=f: s[f])
        for f in ("rules", "argv", "dirs", "mounts", "variants", "jobs", "ops"):
            if isinstance(best.get(f), list): ch |= shrink_list(lambda s, f=f: s[f])
        for p in list(best.get("files", {})):
            sp = best["files"][p]
            if "doc" in sp: ch |= shrink_list(lambda s, p=p: s["files"][p]["doc"])
            if "mod" in sp:
                for f in ("items", "imports"):
                    if sp["mod"].get(f): ch |= shrink_list(lambda s, p=p, f=f: s["files"][p]["mod"][f])
        if hasattr(mod, "shrink"):
            for m in mod.shrink(best):
                ch |= bool(try_(m))
        if not ch: break
    return best, budget - left[0]


def write_replay(prop, seed, i, scn, viol, mod, env):
    os.makedirs(REPLAYS, exist_ok=True)
    cls = viol[0][0]
    small, tries = minimise(mod, env, scn, cls)
    c = run_case(mod, env, small)
    if cls not in classes(c.viol):
        small, c = scn, run_case(mod, env, scn)
    v = [x for x in c.viol if x[0] == cls] or viol
    path = os.path.join(REPLAYS, f"{prop}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "case": i, "class": cls, "violation": v[0][1], "digest": c.digest.hexdigest(),
                   "minimiser_runs": tries, "trace": c.trace[-400:], "scenario": small}, f, indent=1)
        f.write("\n")
    return path, v[0], small


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={prop} "):
                out.append(l[len(f"finding: property={prop} "):])
    return out


def main(prop, seed, tier, n=None, out=sys.stdout):
    t0 = time.time()
    mod = load(prop)
    N = n or mod.CASES[tier]
    cap = float(os.environ.get("SIM_SECONDS", 0)) or {"quick": 240, "thorough": 13 * 60}[tier]
    stop = mp.Value("i", 0)
    print(f"{prop}: seed {seed}, tier {tier}, {N} cases", file=out, flush=True)
    ps = []
    nw = int(os.environ.get("SIM_WORKERS", WORKERS))
    for k in range(nw):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(prop, seed, tier, range(k, N, nw), stop, b, t0 + cap))
        p.start()
        b.close()
        ps.append((p, a))
    rs = []
    for p, a in ps:
        try:
            rs.append(a.recv())
        except EOFError:
            rs.append(dict(err="worker died", viol=[], n=0))
        p.join()
    errs = [r["err"] for r in rs if r["err"]]
    viol = sorted((v for r in rs for v in r["viol"]), key=lambda v: v[0])
    code, line = 0, None
    if viol:
        i, scn, v = viol[0]
        env = sim.Env()
        try:
            path, v0, small = write_replay(prop, seed, i, scn, v, mod, env)
        finally:
            env.close()
        print(f"{prop}: case {i}: {v0[0]}: {v0[1]}"[:4000], file=out)
        line = f"VIOLATION property={prop} replay={path}"
        code = 1
    elif errs:
        print("harness error:\n" + errs[0], file=out)
        return 2
    known = {}
    if hasattr(mod, "findings"):
        env = sim.Env()
        try:
            for text in known_findings(prop):
                r = mod.findings(env, text)
                if r: print(f"KNOWN-FINDING: property={prop} {r}", file=out)
        finally:
            env.close()
    wall = time.time() - t0

    def tot(k): return sum(r.get(k, 0) for r in rs)

    def merged(k):
        d = {}
        for r in rs:
            for a, b in r.get(k, {}).items(): d[a] = d.get(a, 0) + b
        return dict(sorted(d.items()))
    union = lambda k: len(set().union(*[r.get(k, set()) for r in rs]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
          "violations": len(viol),
          "coverage": {
              "evaluations": tot("n"), "distinct_nontrivial": union("sigs"), "rule": mod.RULE,
              "samples": [{"case": i, "scenario": s} for r in rs for i, s in r.get("samples", [])][:3],
              "simulated_runs": tot("runs"), "simulated_operations": tot("ops"),
              "runs_per_hour": int(tot("runs") / wall * 3600), "seeds_per_hour": int(tot("n") / wall * 3600),
              "simulated_seconds": round(tot("sim_ns") / 1e9, 3),
              "faults_fired": merged("faults"), "probes": merged("probes"),
              "distinct_interleavings": union("inter"), "distinct_end_states": union("states"),
              "measure": "interleavings: hash of the sequence (process, task, operation kind, fault) and of the switches between tasks of a run; end states: hash of the whole simulated file tree after a run",
              "cases_run_twice": tot("twice"), "of_those_diverged": tot("diverged"),
              "stopped_early_by_time_cap": any(r.get("capped") for r in rs),
              "real_code": getattr(mod, "REAL", "the papyri binary built from /repo (compiler, CLI, Rust std, dependencies), unmodified"),
              "stubs": getattr(mod, "STUB", "operating system: in-memory file tree, stdin/stdout/stderr, clock, randomness, pid, directory order (sim/simos.c via LD_PRELOAD)"),
          },
          "assumptions": getattr(mod, "ASSUME", []) + ["the simulated operating system behaves like Linux for the calls used", "sampling: a clean batch is evidence, not proof"]}
    if not os.environ.get("SIM_NO_EVIDENCE"):
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    c = ev["coverage"]
    print(f"{prop}: {c['evaluations']} cases, {c['simulated_runs']} simulated runs, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{c['distinct_interleavings']} interleavings, {wall:.1f} s, faults {sum(c['faults_fired'].values())}, replayed twice {c['cases_run_twice']} diverged {c['of_those_diverged']}", file=out)
    if os.environ.get("SIM_VERBOSE"): print(json.dumps({k: c[k] for k in ("faults_fired", "probes")}, indent=1), file=out)
    if line: print(line, file=out, flush=True)
    return code


def replay(path):
    r = json.load(open(path))
    mod = load(r["property"])
    env = sim.Env()
    try:
        c = run_case(mod, env, r["scenario"])
    finally:
        env.close()
    for l in c.trace: print(l)
    for cls, m in c.viol: print(f"{cls}: {m}"[:6000])
    if r["class"] in classes(c.viol):
        same = c.digest.hexdigest() == r["digest"]
        print("reproduced" + (" (identical execution)" if same else " (execution differs from the recorded one)"))
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0
