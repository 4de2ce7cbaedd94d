#!/usr/bin/env python3
"""Runs one deterministic-simulation check of cpp-sort.

  run.py check <ID> quick|thorough     decide one property
  run.py replay <FILE>                 replay one violation file
  run.py build [ID]                    only build

Exit status: 0 the property held on everything explored, 1 a violation was
found, confirmed and written out as a replay file, 2 no answer.
"""
import fnmatch, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
JOBS = max(2, min(8, os.cpu_count() or 8))
CXX = os.environ.get("SIM_CXX", "g++")
BASE = ["-std=gnu++17", "-O1", "-g1", "-w", "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS"]
VARIANTS = {                     # the same simulator and library, built in different ways
    "plain": [CXX, *BASE, "-fno-lifetime-dse", "-fno-ipa-modref", "-fno-ipa-pure-const"],
    "clang": ["clang++", *BASE, "-fsized-deallocation"],       # evaluates the arguments of calls the other way round
    "asan": [CXX, *BASE, "-fno-lifetime-dse", "-fno-ipa-modref", "-fno-ipa-pure-const", "-fsanitize=address", "-fsanitize-recover=address", "-fno-omit-frame-pointer"],    # sees reads outside of live memory too
}
STATEFUL = ("C10", "C12")        # a run that depends on earlier runs breaks these
from props import PROPS          # what each check builds and explores


def log(*a):
    print("[sim]", *a, file=sys.stderr, flush=True)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def headers():
    out = []
    for root in (os.path.join(REPO, "include"), SIM):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp"))]
    return out


def build(prop, variant="plain"):
    cfg = PROPS[prop]
    cmd = VARIANTS[variant] + ["-I" + os.path.join(REPO, "include")]
    core = sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".cpp"))
    sub = sorted(f for f in os.listdir(os.path.join(SIM, "subjects")) if f.endswith(".cpp"))
    unused = json.load(open(os.path.join(SIM, "unused.json"))).get(prop, [])      # have no subject of this property
    want = [f for f in sub if f not in unused and any(fnmatch.fnmatch(f, g) for g in cfg.get("subjects", ["*"]))]
    hh = digest(headers()) + " ".join(cmd)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    for src in core + [os.path.join(SIM, "subjects", f) for f in want]:
        key = hashlib.sha256((hh + digest([src])).encode()).hexdigest()[:24]
        jobs.append((src, os.path.join(objdir, key + ".o")))
    weight = json.load(open(os.path.join(SIM, "weights.json")))     # object sizes: the longest compilations start first
    jobs.sort(key=lambda j: -weight.get(os.path.basename(j[0]), 1 << 30))

    def compile_one(j):
        src, obj = j
        if os.path.exists(obj):
            os.utime(obj)
            return None
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = subprocess.run([*cmd, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            return r.stdout[:4000]
        os.replace(tmp, obj)
        return None

    t0 = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs))
    failed = [(j[0], e) for j, e in zip(jobs, res) if e]
    for src, e in failed:
        log("cannot compile", os.path.relpath(src, HERE), "\n" + e)
    if any(os.path.dirname(s) == SIM for s, _ in failed) or len(failed) == len(want):
        log("the simulator does not build against this tree")
        sys.exit(2)
    bad = {s for s, _ in failed}
    objs = sorted(o for s, o in jobs if s not in bad)
    exe = os.path.join(BUILD, "simrun-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run([*VARIANTS[variant], *objs, "-no-pie", "-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[:4000]); sys.exit(2)
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    log(f"built {len(objs)} objects in {time.time() - t0:.1f} s")
    prune()
    return exe, sorted(os.path.basename(s) for s, _ in failed)


def prune():
    """keeps the object cache small"""
    try:
        d = os.path.join(BUILD, "obj")
        fs = [os.path.join(d, f) for f in os.listdir(d)] + [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("simrun-")]
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs), reverse=True)
        tot = 0
        for m, s, f in fs:
            tot += s
            if tot > 3 << 30 and time.time() - m > 600:
                os.unlink(f)
    except OSError:
        pass


def env():
    e = dict(os.environ)
    e.pop("SIM_REEXEC", None)
    e.pop("ASAN_OPTIONS", None)
    return e


def read_stats(path):
    st = {}
    if os.path.exists(path):
        for line in open(path):
            k, v = line.rsplit(" ", 1)
            st[k] = st.get(k, 0) + int(v)
    return st


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("findings", []):
            out.append(f)
    return out


def matches(f, prop, cls, subject, msg):
    return (f.get("property") in (prop, "*") and re.fullmatch(f.get("class", ".*"), cls) and
            re.fullmatch(f.get("subject", ".*"), subject) and re.search(f.get("message", ""), msg))


def check(prop, tier):
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t_start = time.time()
    main_ev = None
    for variant in ["plain"] + cfg.get("builds", {}).get(tier, []):
        try:
            exe, skipped = build(prop, variant)
        except SystemExit:
            if main_ev is None:
                raise
            main_ev["coverage"]["other_builds"][variant] = "does not build"
            continue
        tmp = tempfile.mkdtemp(prefix="sim-")
        try:
            rc, ev = explore(prop, tier, cfg, seed, exe, skipped, tmp, t_start, variant)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if ev is None:
            return rc
        if main_ev is None:
            main_ev = ev
            main_ev["coverage"]["other_builds"] = {}
        else:
            main_ev["coverage"]["other_builds"][variant] = {k: ev["coverage"][k] for k in ("compiler", "evaluations", "distinct_nontrivial", "library_calls", "exploration_s", "seeds_per_hour", "faults_fired", "outcomes", "distinct_event_logs", "determinism_gate", "translation_units_skipped", "candidates", "unconfirmed_candidates")}
            main_ev["violations"] += ev["violations"]
        main_ev["wall_s"] = round(time.time() - t_start, 2)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(main_ev, f, indent=1); f.write("\n")
        if rc:
            return rc
    return 0


def explore(prop, tier, cfg, seed, exe, skipped, tmp, t_start, variant):
    budget = cfg.get(tier, {"quick": 14, "thorough": 900}[tier])
    if variant != "plain":
        budget *= 0.6
    if "SIM_BUDGET" in os.environ:
        budget = float(os.environ["SIM_BUDGET"])
    maxcand = 6
    e = env()

    # 1. determinism gate: the same runs, alone in one process and spread over three, must leave the
    #    same event logs
    gate_n = cfg.get("gate", 240)
    ps = [subprocess.Popen([exe, "explore", f"prop={prop}", f"seed={seed}", "start=0", "stride=1", f"count={gate_n}", "budget=60", "hashes=1", "maxcand=1000", f"out={tmp}/ga"], env=e)]
    for w in range(3):
        ps.append(subprocess.Popen([exe, "explore", f"prop={prop}", f"seed={seed}", f"start={w}", "stride=3", f"count={gate_n}", "budget=60", "hashes=1", "maxcand=1000", f"out={tmp}/gb{w}"], env=e))
    for p in ps:
        if p.wait() not in (0,):
            log("simulator error in the determinism gate"); return 2, None
    def hashes(*names):
        d = {}
        for n in names:
            b = open(f"{tmp}/{n}.hashes", "rb").read()
            for i in range(0, len(b) - 15, 16):
                d[int.from_bytes(b[i:i + 8], "little")] = b[i + 8:i + 16]
        return d
    a, b = hashes("ga"), hashes("gb0", "gb1", "gb2")
    common = set(a) & set(b)
    differ = sorted(i for i in common if a[i] != b[i])
    gate_ok = not differ
    if differ:
        log(f"determinism gate: {len(differ)} of {len(common)} runs differ between processes, first run {differ[0]}")

    # 2. seeded search
    t0 = time.time()
    ps = [subprocess.Popen([exe, "explore", f"prop={prop}", f"seed={seed}", f"start={w}", f"stride={JOBS}", "count=1000000000000", f"budget={budget}", f"maxcand={maxcand}", "distinct=1", f"out={tmp}/e{w}"], env=e) for w in range(JOBS)]
    for p in ps:
        if p.wait() not in (0,):
            log("simulator error while exploring"); return 2, None
    explore_s = time.time() - t0
    st = {}
    cands = []
    for w in range(JOBS):
        for k, v in read_stats(f"{tmp}/e{w}.stats").items():
            st[k] = st.get(k, 0) + v
        for line in open(f"{tmp}/e{w}.cand"):
            i, start, cls, subj, *msg = line.rstrip("\n").split(" ")
            cands.append((int(i), int(start), cls, subj, " ".join(msg)))
    cands.sort()
    r = subprocess.run([exe, "distinct"] + [f"{tmp}/e{w}.distinct" for w in range(JOBS)], stdout=subprocess.PIPE, text=True, env=e)
    dist = dict(x.split("=") for x in r.stdout.split())

    # 3. minimise, replay twice in fresh processes, report
    findings = known_findings()
    confirmed, known, unconfirmed, seen = [], [], [], {}
    deadline = time.time() + (150 if tier == "quick" else 900)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    if prop in STATEFUL:
        # runs whose log depends on what ran before them in the process
        for i in differ[:2]:
            cands.append((i, 0, "stale_state", "?", "the run differs between processes"))
    for i, start, cls, subj, msg in cands:
        fam = subj.split("/")[0]
        if seen.get((cls, fam), 0) >= 1 or len(confirmed) >= 4 or (confirmed and time.time() > deadline):
            continue
        path = os.path.join(HERE, "replays", f"{prop}-{seed}-{i}{'' if variant == 'plain' else '.' + variant}.replay")
        state = msg == "the run differs between processes"
        tries = [] if state else [["shrink"]]
        tries.append(["seq", f"start={start}", f"stride={1 if state else JOBS}"] + (["differs=1"] if state else []))
        why = []
        for extra in tries:
            p = subprocess.run([exe, extra[0], f"prop={prop}", f"seed={seed}", f"index={i}", f"budget={cfg.get('shrink', 12)}", f"out={path}"] + extra[1:], stdout=subprocess.PIPE, text=True, env=e)
            if p.returncode != 0 or not p.stdout.startswith("SHRUNK"):
                why.append(extra[0] + ": " + p.stdout.strip())
                continue
            if variant != "plain":
                with open(path, "a") as f:
                    f.write(f"# build {variant}\n")
            ok = True
            for _ in range(2):
                q = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True, env=e)
                ok = ok and q.returncode == 1 and q.stdout.startswith("REPRODUCED ")
            if ok:
                break
            why.append(extra[0] + " replay: " + q.stdout.strip())
        else:
            unconfirmed.append((i, cls, subj, msg + " [" + "; ".join(why) + "]"))
            continue
        m = dict(x.split("=", 1) for x in p.stdout.strip().split(" msg=")[0].split(" ")[1:])
        smsg = p.stdout.strip().split(" msg=", 1)[1]
        seen[(cls, fam)] = seen.get((cls, fam), 0) + 1
        f = next((f for f in findings if matches(f, prop, m["class"], m["subject"], smsg)), None)
        (known if f else confirmed).append((i, m["class"], m["subject"], smsg, path, m, f))

    for i, cls, subj, msg, path, m, f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for f in findings:
        if variant == "plain" and f.get("property") == prop and not any(k[6] is f for k in known):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    wall = time.time() - t_start
    runs = st.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": int(dist.get("nontrivial", 0)),
            "rule": cfg["rule"],
            "samples": samples(exe, prop, seed, e),
            "compiler": subprocess.run([VARIANTS[variant][0], "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0],
            "library_calls": st.get("calls", 0),
            "seeds_per_hour": int(runs * 3600 / max(explore_s, 0.001)),
            "exploration_s": round(explore_s, 2),
            "simulated_time_ns": st.get("sim_time", 0),
            "simulated_steps": st.get("steps", 0),
            "faults_fired": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fired.") and v},
            "runs_with_faults": st.get("fault_runs", 0),
            "runs_without_faults": st.get("clean_runs", 0),
            "runs_with_memory_and_callback_faults": st.get("both_faults", 0),
            "outcomes": {"completed": st.get("done", 0), "callback_exception": st.get("user_exc", 0), "bad_alloc": st.get("bad_alloc", 0), "other": st.get("other", 0)},
            "distinct_event_logs": int(dist.get("all", 0)),
            "distinct_event_logs_measure": "64-bit rolling hash over every seam event of the run (comparisons, projections, moves, swaps with element identities; allocations with sizes; deallocations; faults; caller switches) and over the final state" + ("; capped, lower bound" if dist.get("capped") == "1" else ""),
            "situations_reached": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe.")},
            "calls_per_component": {k[8:]: v for k, v in sorted(st.items()) if k.startswith("subject.")},
            "determinism_gate": {"runs_compared": len(common), "differing": len(differ)},
            "real_code": "all of /repo/include that the listed components instantiate, compiled from the working tree",
            "stubbed": cfg.get("stubbed", "operator new/delete (simulated heap), element type, comparator, projection, iterators: simulator side of the seams"),
            "translation_units_skipped": skipped,
            "candidates": len(cands), "unconfirmed_candidates": len(unconfirmed), "known_findings_seen": len(known),
        },
        "assumptions": cfg.get("assumptions", []) + [
            "comparators are strict weak orders and projections are pure unless a planned fault makes them throw",
            "one standard library, and the compilers named here",
            "sampled schedules and fault sequences, not all of them",
        ],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    log(f"{prop} ({variant}): {runs} runs in {explore_s:.1f} s, {dist.get('nontrivial')} distinct fault logs, {len(cands)} candidate(s), {len(confirmed)} confirmed, total {wall:.1f} s")

    for i, cls, subj, msg, path, m, f in confirmed:
        print(f"  run {i}: {cls}: {subj}: {msg} (callers={m['callers']} elements={m['elements']} faults={m['faults']} switches={m['switches']})")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    if confirmed:
        return 1, ev
    for i, cls, subj, msg in unconfirmed:
        log(f"candidate not confirmed: run {i} {cls} {subj} {msg}")
    if any(u[1] != "hang" for u in unconfirmed):
        return 2, ev
    if runs < cfg.get("min_runs", 200):
        log(f"only {runs} runs: no answer"); return 2, ev
    return 0, ev


def samples(exe, prop, seed, e):
    out = []
    for i in (0, 1, 2):
        r = subprocess.run([exe, "spec", f"prop={prop}", f"seed={seed}", f"index={i}"], stdout=subprocess.PIPE, text=True, env=e)
        t = r.stdout.strip()
        out.append(t if len(t) < 700 else t[:700] + " ...")
    return out


def replay(path):
    prop, variant = None, "plain"
    for line in open(path):
        if line.startswith("prop "):
            prop = line.split()[1]
        elif line.startswith("# build "):
            variant = line.split()[2]
    exe, _ = build(prop, variant)
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True, env=env())
    print(r.stdout.strip())
    if r.returncode == 1:
        print(f"VIOLATION property={prop} replay={path}")
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "check":
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    if len(a) == 2 and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "build":
        for p in (a[1:] or list(PROPS)):
            for variant in ["plain"] + PROPS[p].get("builds", {}).get("thorough", []):
                build(p, variant)
        sys.exit(0)
    print(__doc__); sys.exit(2)
