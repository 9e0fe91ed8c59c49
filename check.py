#!/usr/bin/env python3
"""check.py <property> quick|thorough    decide one property on /repo's current tree
   check.py replay <file>                 execute a reported violation again
   check.py setup                         build everything

Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer (the build failed, ...)."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(VERIF, "mc")
REPLAYS = os.path.join(VERIF, "replays")
WORK = os.path.join(MC, "target-work")
FLAVOURS = {"chk": "debug assertions on", "plain": "debug assertions off"}

# seconds of exploration per build of the library
BUDGET = {"quick": 60, "thorough": 330}


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def cargo(profile, what, extra=()):
    """Builds in a target directory per profile, so that profiles can be built at the same time."""
    target = os.path.join(MC, "target-" + profile)
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", target, *what, *extra]
    r = subprocess.run(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise NoAnswer("building the harness failed:\n" + r.stderr[-6000:])
    return os.path.join(target, profile), r.stdout


def binaries(prop):
    """flavour -> worker binary, built from /repo's current tree"""
    name = "tuples" if prop == "P28" else "ecsmc"
    profiles = {f: f + ("0" if prop == "P28" else "") for f in FLAVOURS}
    with cf.ThreadPoolExecutor() as ex:
        made = {f: ex.submit(cargo, p, ["--bin", name]) for f, p in profiles.items()}
        return {f: os.path.join(m.result()[0], name) for f, m in made.items()}


# ------------------------------------------------------------------ running workers

def run_worker(binary, prop, tier, flight, budget, threads=None):
    e = env()
    if threads:
        e["ECSMC_THREADS"] = str(threads)
    try:
        r = subprocess.run([binary, "worker", prop, tier, flight, str(budget)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=budget + 240)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as t:
        rc, err = 124, "timeout"
        out = t.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
    lines = []
    for l in out.splitlines():
        try:
            lines.append(json.loads(l))
        except ValueError:
            pass
    return rc, lines, err


def replay(binary, prop, tier, job, spec, timeout=60):
    """(violated?, text)"""
    try:
        r = subprocess.run([binary, "replay", prop, tier, job, spec], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", env=env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, f"did not end within {timeout} s"
    if r.returncode == 0:
        return False, r.stdout
    if r.returncode == 2:
        raise NoAnswer("replay: " + r.stdout + r.stderr)
    if r.returncode == 1:
        return True, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "violated"
    return True, f"the process died (status {r.returncode}) {r.stderr[-300:]}"


def explore(prop, tier, flavour, binary, budget):
    """(results of the jobs, violation or None)"""
    os.makedirs(WORK, exist_ok=True)
    flight = os.path.join(WORK, f"{prop}-{flavour}-{os.getpid()}.flight")
    results, unconfirmed = [], None
    try:
        for attempt in range(3):
            rc, results, err = run_worker(binary, prop, tier, flight, budget)
            suspects = []
            for r in results:
                if r["violation"]:
                    v = r["violation"]
                    suspects.append((r["job"], v["spec"], v["history"], v["what"]))
            if rc != 0 and not suspects:
                d = subprocess.run([binary, "decode", prop, tier, flight], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=120)
                what = {98: "the process died of a signal", 97: "a history did not end", 124: "the exploration did not end"}.get(
                    rc, f"the process ended with status {rc}")
                for l in d.stdout.splitlines():
                    f = json.loads(l)
                    suspects.append((f["job"], f["spec"], f["history"], what))
            if rc == 0 and not suspects:
                return results, None
            for job, spec, history, what in suspects:
                for _ in range(3):
                    bad, text = replay(binary, prop, tier, job, spec)
                    if bad:
                        return results, dict(property=prop, tier=tier, flavour=flavour, job=job, spec=spec, history=history,
                                             what=what, again=text, confirmed="replay")
            # not reproducible by itself: look once more, with the same exploration
            if suspects:
                job, spec, history, what = suspects[0]
                unconfirmed = dict(property=prop, tier=tier, flavour=flavour, job=job, spec=spec, history=history,
                                   what=what, again="only within the exploration", confirmed="exploration repeated")
            else:
                unconfirmed = dict(property=prop, tier=tier, flavour=flavour, job="?", spec="", history="",
                                   what=f"the exploration died (status {rc}) {err[-300:]}", again="", confirmed="exploration repeated")
            print(f"note: attempt {attempt + 1}: {unconfirmed['what']} is not reproduced by replaying it alone")
        return results, unconfirmed
    finally:
        if os.path.exists(flight):
            os.remove(flight)


# ------------------------------------------------------------------ reporting

def known(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("finding: ") and f"property={prop} " in l:
                out.append(l.strip())
    return out


def write_replay(v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256((v["flavour"] + v["job"] + v["spec"]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{v['property']}-{v['flavour']}-{h}.json")
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
        f.write("\n")
    return path


def write_evidence(prop, tier, coverage, assumptions, t0, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
                   "level": "model_checking", "coverage": coverage, "assumptions": assumptions,
                   "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)
        f.write("\n")


ASSUMPTIONS = [
    "histories longer and values other than the enumerated ones are not executed",
    "handles come from the store they are used with; component types are Copy structs of non-zero size",
    "two histories with equal implementation memory (up to addresses), equal model and equal handles have equal futures",
]


def check(prop, tier):
    t0 = time.time()
    if prop == "P27":
        import shapes
        return shapes.check(tier, t0)
    if prop == "P33":
        import borrows
        return borrows.check(tier, t0)
    if prop == "P34":
        import macros
        return macros.check(tier, t0)
    bins = binaries(prop)
    built = time.time() - t0
    budget = float(os.environ.get("ECSMC_BUDGET", BUDGET[tier]))
    cover = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, builds={}, build_s=round(built, 1))
    bad = None
    for flavour, binary in bins.items():
        results, v = explore(prop, tier, flavour, binary, budget)
        jobs = []
        for r in results:
            cover["states"] += r["states"]
            cover["transitions"] += r["transitions"]
            cover["traces_validated_against_impl"] += r["histories"]
            cover["exhaustive"] &= r["complete"]
            jobs.append(dict(job=r["job"], method=r["method"], states=r["states"], transitions=r["transitions"],
                             histories=r["histories"], depth=r["depth"], within_bounds_complete=r["complete"], wall_s=r["wall"]))
            if len(cover["samples"]) < 12 and r["samples"]:
                cover["samples"].append(f"[{r['job']}] " + r["samples"][-1])
        cover["builds"][FLAVOURS[flavour]] = jobs
        if v:
            bad = v
            cover["exhaustive"] = False
            break
    write_evidence(prop, tier, cover, ASSUMPTIONS, t0, 1 if bad else 0)
    for l in known(prop):
        print("KNOWN-FINDING:", l[len("finding: "):])
    print(f"{prop} {tier}: {cover['states']} states, {cover['transitions']} transitions, "
          f"{cover['traces_validated_against_impl']} histories on the implementation, "
          f"{'complete within bounds' if cover['exhaustive'] else 'not complete'}, build {built:.0f} s, all {time.time() - t0:.0f} s")
    return report(bad)


def report(bad):
    if not bad:
        return 0
    print(f"what: {bad['what']}\nhistory ({FLAVOURS.get(bad['flavour'], bad['flavour'])}): {bad['history']}\nagain: {bad['again']}")
    print(f"VIOLATION property={bad['property']} replay={write_replay(bad)}")
    return 1


def do_replay(path):
    with open(path) as f:
        v = json.load(f)
    if v["property"] == "P27":
        import shapes
        return shapes.replay(v)
    if v["property"] == "P33":
        import borrows
        return borrows.replay(v)
    if v["property"] == "P34":
        import macros
        return macros.replay(v)
    binary = binaries(v["property"])[v["flavour"]]
    bad, text = replay(binary, v["property"], v["tier"], v["job"], v["spec"])
    print(v["history"])
    print(text)
    print("VIOLATED" if bad else "HELD")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["setup"]:
            import shapes
            with cf.ThreadPoolExecutor() as ex:
                for f in [ex.submit(binaries, "P01"), ex.submit(binaries, "P28")]:
                    f.result()
            shapes.library()
            return 0
        if len(a) == 2 and a[0] == "replay":
            return do_replay(a[1])
        if len(a) == 2 and a[1] in BUDGET:
            return check(*a)
        print(__doc__)
        return 2
    except NoAnswer as e:
        print("NO ANSWER:", e)
        return 2


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    import check as this  # one module, however it was started
    sys.exit(this.main())
