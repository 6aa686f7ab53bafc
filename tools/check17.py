"""C17: the simulator built against several feature configurations of the library.

Each configuration runs the scenarios of the other properties against the same
reference model; then the outcomes of the same sessions are compared between the
configurations."""
import json
import os
import subprocess
import sys
import time

CONFIGS = [
    "none",
    "alloc",
    "bits",
    "bits alloc",
    "std",
    "std bits",
    "std derr logging",
    "std bits derr alloc logging",
]
EV = "evidence"


def name(c):
    return c.replace(" ", "-")


def target(c):
    return os.path.abspath("sim/target/cfg-" + name(c))


def dsim(c):
    return target(c) + "/debug/dsim"


def env(c, seed, n):
    e = dict(os.environ)
    e["ZOO_CFG"] = c
    e["ZOO_SEED"] = str(seed)
    e["ZOO_N"] = str(n)
    e["DSIM_ENGINE"] = "lite " + c
    return e


def start(c, seed, n, pkg="dsim", jobs=3):
    f = "" if c == "none" else c
    if pkg == "dcore":
        f = " ".join(x for x in f.split())
    log = open("%s/C17.%s.build.log" % (EV, name(c)), "w")
    cmd = ["cargo", "build", "--offline", "-q", "-j", str(jobs), "-p", pkg, "--no-default-features", "--features", f, "--target-dir", target(c)]
    return subprocess.Popen(cmd, cwd="sim", env=env(c, seed, n), stdout=log, stderr=log), log.name


def build(configs, seed, n):
    """configurations whose message types do not compile, or None if more is broken"""
    todo = list(configs)
    running = []
    bad = []
    while todo or running:
        while todo and len(running) < 4:
            c = todo.pop()
            running.append((c,) + start(c, seed, n))
        c, p, log = running.pop(0)
        if p.wait() == 0:
            os.unlink(log)
            continue
        text = open(log).read()
        types = "could not compile `z" in text and "could not compile `dsim" not in text and "could not compile `dcore" not in text
        if types:
            q, _ = start(c, seed, n, "dcore", 8)
            types = q.wait() == 0
        if not types:
            sys.stderr.write(text[-6000:])
            for _, q, _ in running:
                q.wait()
            return None
        bad.append((c, text))
    return bad


def replay_file(d):
    path = EV + "/C17.replay.json"
    base = {"property": "C17", "replay_cmd": "./replay.sh <this file>"}
    base.update(d)
    json.dump(base, open(path, "w"), indent=1)
    return path


def outcomes(c, seed, n, runs):
    out = subprocess.run([dsim(c), "outcomes", str(runs)], env=env(c, seed, n), stdout=subprocess.PIPE, text=True)
    if out.returncode != 0:
        return None
    r = {}
    for l in out.stdout.splitlines():
        z, i, h = l.split()
        r[(z, i)] = h
    return r


def outcome(c, seed, n, z, i):
    return subprocess.run([dsim(c), "outcome", z, i], env=env(c, seed, n), stdout=subprocess.PIPE, text=True).stdout


def merge(tot, e):
    for k, v in e.items():
        if isinstance(v, dict):
            merge(tot.setdefault(k, {}), v)
        elif isinstance(v, bool) or isinstance(v, str):
            tot.setdefault(k, v)
        elif isinstance(v, (int, float)):
            tot[k] = tot.get(k, 0) + v
        elif isinstance(v, list):
            cur = tot.setdefault(k, [])
            for x in v:
                if x not in cur and len(cur) < 4:
                    cur.append(x)


def check(tier):
    t0 = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    zoos = [(1, 40)] if tier == "quick" else [(seed0, 40), (seed0 + 1000, 40), (seed0 + 2000, 40)]
    total = {}
    compared = 0
    differing = 0
    per = {}
    code = 0
    for seed, n in zoos:
        bad = build(CONFIGS, seed, n)
        if bad is None:
            return 2
        if bad:
            c, text = bad[0]
            print(text[:3000])
            path = replay_file({"class": "message types rejected", "engine": "lite " + c, "zoo_seed": str(seed), "zoo_n": str(n),
                                "detail": "with the features '%s', message types that need no other feature do not compile" % c, "build": text[:20000]})
            print("VIOLATION property=C17 replay=%s" % path)
            code = 1
            break
        for c in CONFIGS:
            ev = os.path.abspath(EV + "/C17." + name(c))
            os.makedirs(ev, exist_ok=True)
            e = env(c, seed, n)
            e["DSIM_EVIDENCE"] = ev
            e["DSIM_SCALE"] = str(0.25 * float(os.environ.get("DSIM_SCALE", "1")))
            r = subprocess.run([dsim(c), "check", "C17", tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if os.path.exists(ev + "/C17.json"):
                j = json.load(open(ev + "/C17.json"))
                merge(total, {"coverage": j["coverage"], "violations": j["violations"]})
                per[c] = per.get(c, 0) + j["coverage"]["evaluations"]
            if r.returncode == 1 and os.path.exists(ev + "/C17.replay.json"):
                p = json.load(open(ev + "/C17.replay.json"))
                json.dump(p, open(EV + "/C17.replay.json", "w"), indent=1)
                if code == 0:
                    print("with the features '%s':" % c)
                    print("\n".join(l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")))
                    print("VIOLATION property=C17 replay=%s/C17.replay.json" % EV)
                code = 1
            elif r.returncode != 0:
                sys.stderr.write(r.stdout + r.stderr)
                code = code or 2
            for f in os.listdir(ev):
                os.unlink(ev + "/" + f)
            os.rmdir(ev)
            if code:
                break
        if code:
            break
        # the same sessions, everywhere
        runs = 1500 if tier == "quick" else 10000
        known = {}
        for c in CONFIGS:
            o = outcomes(c, seed, n, runs)
            if o is None:
                sys.stderr.write("outcomes failed with the features '%s'\n" % c)
                return 2
            for k, h in o.items():
                if k not in known:
                    known[k] = (c, h)
                    continue
                compared += 1
                if known[k][1] != h:
                    differing += 1
                    if code == 0:
                        code = 1
                        a = outcome(known[k][0], seed, n, *k)
                        b = outcome(c, seed, n, *k)
                        path = replay_file({"class": "configurations differ", "engine": "lite " + c, "other": known[k][0], "zoo_seed": str(seed), "zoo_n": str(n),
                                            "types": k[0], "run": k[1], "detail": {known[k][0]: a, c: b}})
                        print("with the features '%s':\n%s\nwith the features '%s':\n%s" % (known[k][0], a, c, b))
                        print("VIOLATION property=C17 replay=%s" % path)
        if code:
            break
    cov = total.get("coverage", {})
    cov.update({"configurations": per, "sessions_compared_between_configurations": compared})
    if "samples" not in cov or not cov["samples"]:
        cov["samples"] = ["the message types did not compile in one configuration"]
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", "message types have to compile in every configuration with their features")
    secs = time.time() - t0
    cov["seeds_per_hour"] = int(cov.get("evaluations", 0) / max(secs, 1) * 3600)
    json.dump({"property": "C17", "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov,
               "assumptions": ["the reference model is the same for all configurations and knows nothing of features",
                               "types use only what the configuration offers; std is present in the simulator itself, not in the library"],
               "wall_s": round(secs, 2), "violations": 1 if code == 1 else 0},
              open(EV + "/C17.json", "w"), indent=1)
    if code == 0:
        print("ok property=C17 configurations=%d runs=%d compared=%d wall=%.1fs" % (len(CONFIGS), cov["evaluations"], compared, secs))
    return code


def replay(f):
    j = json.load(open(f))
    c = j["engine"][len("lite "):]
    seed, n = j["zoo_seed"], j["zoo_n"]
    configs = [c] + ([j["other"]] if "other" in j else [])
    bad = build(configs, seed, n)
    if bad is None:
        return 2
    if bad:
        print("reproduced: message types rejected with the features '%s'" % bad[0][0])
        return 1 if j["class"] == "message types rejected" else 3
    if j["class"] == "message types rejected":
        return 0
    if j["class"] == "configurations differ":
        o = [outcome(x, seed, n, j["types"], j["run"]) for x in configs]
        if o[0] == o[1]:
            return 0
        print("reproduced: configurations differ")
        for x, y in zip(configs, o):
            print("with the features '%s':\n%s" % (x, y))
        return 1
    return subprocess.run([dsim(c), "replay", f], env=env(c, seed, n)).returncode


if __name__ == "__main__":
    os.makedirs(EV, exist_ok=True)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
