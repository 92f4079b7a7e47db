#!/usr/bin/env python3
"""Decides one property: check.py <ID> | check.py replay <FILE> | check.py build

 1. the models of the property are checked with TLC, which also makes them write their behaviours down as cases;
 2. random cases are added (VERIF_SEED);
 3. the harness runs all cases on the real library, built from /repo, and records what happened;
 4. TLC checks the recordings against the specification (Conform.tla).
Exit 0: nothing contradicts the specification; 1: VIOLATION; 2: the check itself failed."""
import calendar
import json
import os
import random
import re
import resource
import subprocess
import sys
import threading
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import gen  # noqa: E402
import plan  # noqa: E402

SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
BIN = os.path.join(TARGET, "debug", "harness")
SHIPPED = os.path.join(TARGET, "shipped", "harness")  # without debug assertions and overflow checks
JARS = ":".join(os.path.join("/opt/veriftools/tla", j) for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
CORES = min(8, os.cpu_count() or 8)


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ the harness
def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)

    def one(profile):
        return subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", profile], cwd=HARNESS, env=env, capture_output=True, text=True, timeout=800)

    with ThreadPoolExecutor(2) as ex:
        for p in ex.map(one, ["dev", "shipped"]):
            if p.returncode != 0:
                raise Broken("the harness does not build:\n" + p.stderr[-4000:])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def count_lines(path):
    if not os.path.exists(path):
        return 0
    with open(path, "rb") as f:
        return sum(b.count(b"\n") for b in iter(lambda: f.read(1 << 20), b""))


# where and when the code runs must not matter: time zone and language of the process, its clock,
# whether another thread of it uses the library, too (in every other place), and whether the code was
# built with debug assertions and overflow checks (places 0, 1, 4, 5) or without
PLACES = [("UTC", "C", None), ("<+0530>-5:30", "tr_TR.UTF-8", "2028-02-29T13:59:50"), ("EST5EDT,M3.2.0,M11.1.0", "en_US.UTF-8", "2031-12-31T23:59:56"),
          ("NZST-12NZDT,M9.5.0,M4.1.0/3", "C.UTF-8", "2026-07-04T20:15:00"), ("<-12>12", "de_DE.UTF-8", "1999-12-31T18:30:00"),
          ("<+14>-14", "ja_JP.UTF-8", "2038-01-19T03:14:03"), ("CET-1CEST,M3.5.0,M10.5.0/3", "POSIX", "2107-03-27T16:00:00"),
          ("<-0330>3:30", "ar_EG.UTF-8", "2027-10-31T00:30:00")]


def place_of(case):
    return zlib.crc32(case["id"].encode()) % len(PLACES)


RECORDING = 300  # seconds for a harness process


def record(cases, inp, out, hang=40, most=25, hangs=None):
    """run cases, one recorded line each; a case on which the process dies or hangs is recorded as a crash"""
    lines = [json.dumps(c) for c in cases]
    zone, lang, clock = PLACES[place_of(cases[0])]
    shift = calendar.timegm(time.strptime(clock, "%Y-%m-%dT%H:%M:%S")) - int(time.time()) if clock else 0
    place = place_of(cases[0])
    env = dict(os.environ, TZ=zone, LC_ALL=lang, LANG=lang, HARNESS_SHIFT=str(shift), HARNESS_NOISE=str(place % 2))
    binary = SHIPPED if place // 2 % 2 else BIN
    open(out, "a").close()
    done = 0
    crashes = 0
    hangs = [] if hangs is None else hangs  # of all processes
    deadline = time.time() + RECORDING
    late = False
    while done < len(lines):
        with open(inp, "w") as f:
            f.write("\n".join(lines[done:]) + "\n")
        p = subprocess.Popen([binary, "run", inp, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits, env=env)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()))
        t.start()
        size, since, why = -1, time.time(), None
        while True:
            try:
                rc = p.wait(timeout=0.2 if time.time() - since < 2 else 1)
                break
            except subprocess.TimeoutExpired:
                s = os.path.getsize(out) if os.path.exists(out) else 0
                if s != size:
                    size, since = s, time.time()
                elif time.time() - since > (15 if time.time() > deadline else hang):
                    p.kill()
                    rc, why = p.wait(), "no answer for %d s" % (time.time() - since)
                    break
                if time.time() > deadline + 15:
                    p.kill()
                    rc, late = p.wait(), True  # slow, but it answers: what was recorded is judged
                    break
        t.join()
        if rc == 3:
            raise Broken("harness usage")
        # a partly written line belongs to the case that did not finish
        if os.path.exists(out):
            with open(out, "rb+") as f:
                data = f.read()
                if data and not data.endswith(b"\n"):
                    f.truncate(data.rfind(b"\n") + 1)
        done = count_lines(out)
        if late:
            log("recording stopped after %d of %d cases" % (done, len(lines)))
            break
        if rc == 0 and why is None:
            if done != len(lines):
                raise Broken("harness recorded %d of %d cases" % (done, len(lines)))
            break
        if rc == 101 and "harness/src" in (err[0] or ""):
            raise Broken("harness failed: " + err[0][-2000:])
        c = cases[done]
        with open(out, "a") as f:
            f.write(json.dumps({"id": c["id"], "k": c["k"], "c": c["c"], "o": {"crash": why or "ended with %d: %s" % (rc, (err[0] or "")[-300:])}}) + "\n")
        done += 1
        crashes += 1
        if why:
            hangs.append(c["id"])
        if crashes >= most or len(hangs) >= 4:
            log("stopped after %d crashes, %d of them without an answer" % (crashes, len(hangs)))
            break


def record_all(cases, work):
    """deal the cases to several harness processes; returns the chunk files and their case counts"""
    order = list(range(len(cases)))
    random.Random(7).shuffle(order)
    shards = [[] for _ in PLACES]
    for j in order:
        shards[place_of(cases[j])].append(cases[j])
    outs = []
    hangs = []

    def one(i):
        if shards[i]:
            record(shards[i], os.path.join(work, "in-%d.jsonl" % i), os.path.join(work, "out-%d.jsonl" % i), hangs=hangs)

    with ThreadPoolExecutor(CORES) as ex:
        for f in [ex.submit(one, i) for i in range(len(shards))]:
            f.result()
    limit = 6 << 20
    total = sum(os.path.getsize(os.path.join(work, "out-%d.jsonl" % i)) for i in range(len(shards)) if shards[i])
    limit = max(1 << 18, min(limit, total // CORES + 1))
    current, size = None, 0
    for i in range(len(shards)):
        path = os.path.join(work, "out-%d.jsonl" % i)
        if not shards[i]:
            continue
        with open(path, "rb") as f:
            for line in f:
                if current is None or size + len(line) > limit:
                    current = open(os.path.join(work, "chunk-%d.jsonl" % len(outs)), "wb")
                    outs.append(current)
                    size = 0
                current.write(line)
                size += len(line)
        os.remove(path)
        os.remove(os.path.join(work, "in-%d.jsonl" % i))
    for f in outs:
        f.close()
    return [f.name for f in outs]


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, name, work, env=None, workers=1, heap="3g", flags=(), timeout=900):
    cfgpath = os.path.join(work, name + ".cfg")
    with open(cfgpath, "w") as f:
        f.write(cfg)
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noTE", "-metadir", meta, "-config", cfgpath, *flags, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    out = p.stdout + p.stderr
    with open(os.path.join(work, name + ".log"), "w") as f:
        f.write(out)
    subprocess.run(["rm", "-rf", meta])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r"The number of states generated: (\d+)", out)  # simulation
    if m and states == (0, 0):
        states = (int(m.group(1)), int(m.group(1)))
    return p.returncode, out, states


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    raise TypeError(v)


def run_model(m, work, seed, i):
    name = "%s-%d" % (m["module"], i)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    for k, v in m.get("constants", {}).items():
        cfg += "CONSTANT %s = %s\n" % (k, tla(v))
    for x in m["invariants"]:
        cfg += "INVARIANT %s\n" % x
    for x in m.get("properties", []):
        cfg += "PROPERTY %s\n" % x
    cases = os.path.join(work, name + ".cases")
    flags = []
    if m.get("simulate"):
        num, depth = m["simulate"]
        flags = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    rc, out, states = tlc(m["module"], cfg, name, work, {"CASES": cases}, workers=1 if m.get("simulate") else 2, heap="3g", flags=flags,
                          timeout=m.get("timeout", 800))
    if rc != 0:
        raise Broken("model %s fails (%d):\n%s" % (name, rc, out[-3000:]))
    made = set()
    if os.path.exists(cases):
        with open(cases) as f:
            made = {line.strip() for line in f if line.strip()}
        os.remove(cases)
    return {"model": m["module"], "constants": {k: repr(v)[:120] for k, v in m.get("constants", {}).items()}, "generated": states[0],
            "distinct": states[1], "cases": len(made), "checked": m["invariants"] + m.get("properties", [])}, sorted(made)


SHARDS = 8
# one contradiction per recording decides; all of them are wanted for diagnosis only (TLC prints a trace for each)
ALL_CONTRADICTIONS = bool(os.environ.get("VERIF_ALL"))


def conform(path, classes, name, work):
    """one recording against the specification: contradictions, known findings, states"""
    cfg = "SPECIFICATION Spec\nINVARIANT NoContradiction\nCHECK_DEADLOCK FALSE\nCONSTANT Wanted = %s\nCONSTANT Shards = %d\n" % (tla(sorted(classes)), SHARDS)
    found, known, undefined = {}, set(), []
    with open(path) as f:
        lines = f.read().splitlines()
    removed = []
    while True:
        recs = [json.loads(x) for x in lines]
        if not recs:
            return found, known, undefined, (0, 0), 0, 0
        expected = SHARDS + sum(len(r["o"]["log"]) if r["k"] == "prog" and "log" in r["o"] else 1 for r in recs)
        if removed:
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
        rc, out, states = tlc("Conform", cfg, name, work, {"OBS": path}, workers=1, heap="3g",
                              flags=["-continue"] if ALL_CONTRADICTIONS else [])
        for m in re.finditer(r'<<\s*"CONTRADICTION",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
            found.setdefault(m.group(1), {}).setdefault(int(m.group(2)), set()).update(re.findall(r'"([^"]*)"', m.group(3)))
        known.update(re.findall(r'<<\s*"KNOWN",\s*"([^"]*)"\s*>>', out))
        if rc in (0, 12) and (found or states[1] == expected):
            if not found and rc != 0:
                raise Broken("TLC reports a violation without a contradiction: " + os.path.join(work, name + ".log"))
            return found, known, undefined, states, len(recs), sum(len(r["o"].get("log", [])) or 1 for r in recs)
        # the specification gives no meaning to a recording: find it, set it apart and go on
        m = re.findall(r"/\\ case = (\d+)", out)
        if rc in (0, 12) or not m or len(removed) >= 10 or "rror" not in out:
            raise Broken("TLC ended with %d, %d states of %d, see %s" % (rc, states[1], expected, os.path.join(work, name + ".log")))
        i = int(m[-1]) - 1
        why = re.search(r"Error: (.*?)(?:\nError: The behavior|\nThe behavior|\Z)", out, re.S)
        undefined.append((recs[i]["id"], (why.group(1) if why else "")[:300]))
        removed.append(lines.pop(i))


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'KNOWN-FINDING: property=<id> key=<key> <what>' of known-findings.txt"""
    res = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def probe(case, work):
    path = os.path.join(work, "probe")
    for p in (path + ".in", path + ".out"):
        if os.path.exists(p):
            os.remove(p)
    record([case], path + ".in", path + ".out", hang=60)
    with open(path + ".out") as f:
        return json.loads(f.readline())


def shown(x):
    """texts as strings"""
    if isinstance(x, list) and x and all(isinstance(i, int) and not isinstance(i, bool) for i in x):
        return "".join(map(chr, x))
    if isinstance(x, list):
        return [shown(i) for i in x]
    if isinstance(x, dict):
        return {k: shown(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ one property
def make_cases(prop, tier, seed, work, models, gens, corpus):
    results = []
    with ThreadPoolExecutor(max(1, CORES // 2)) as ex:
        fs = [ex.submit(run_model, m, work, seed, i) for i, m in enumerate(models)]
        for f in fs:
            results.append(f.result())
    cases, stats = [], {}
    for i, (info, made) in enumerate(results):
        for j, line in enumerate(made):
            c = json.loads(line)
            if isinstance(c, str):  # CSVWrite quotes strings
                c = json.loads(c)
            cases.append({"id": "%s.%d.%d" % (info["model"], i, j), **c})
    for i, g in enumerate(gens):
        name, n, kw = g
        r = random.Random("%s/%s/%d/%d" % (prop, name, i, seed))
        made = 0
        for j, c in enumerate(getattr(gen, name)(r, n, **kw) if n is not None else getattr(gen, name)(**kw)):
            cases.append({"id": "%s.%d.%d" % (name, i, j), **c})
            made += 1
        stats["%s.%d" % (name, i)] = made
    for j, c in enumerate(corpus):
        cases.append({"id": "corpus.%d" % j, **c})
    stats["corpus"] = len(corpus)
    return cases, [x[0] for x in results], stats


def judge(cases, classes, work):
    chunks = record_all(cases, work)
    found, known, undefined = {}, set(), []
    states = [0, 0]
    n = events = 0
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(conform, c, classes, "conform-%d" % i, work) for i, c in enumerate(chunks)]
        broken = []
        for f in fs:
            try:
                a, b, u, s, k, e = f.result()
            except Broken as x:
                broken.append(x)
                continue
            found.update(a)
            known |= b
            undefined += u
            states[0] += s[0]
            states[1] += s[1]
            n += k
            events += e
    if broken and not found:
        raise broken[0]
    return found, known, undefined, states, n, events


def sizes_of(cases):
    kinds = {}
    for c in cases:
        kinds[c["k"]] = kinds.get(c["k"], 0) + 1
    return kinds


def check(prop, tier, seed):
    start = time.time()
    work = os.path.join(ROOT, "work", "%s-%s" % (prop, tier))
    subprocess.run(["rm", "-rf", work])
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = plan.plan(prop, tier)
    build()
    t_build = time.time() - start
    cases, models, stats = make_cases(prop, tier, seed, work, p["models"], p["gens"], p.get("corpus", []))
    t_cases = time.time() - start - t_build
    log("%s %s: %d models, %d states; %d cases" % (prop, tier, len(models), sum(m["distinct"] for m in models), len(cases)))
    found, known, undefined, states, n, events = judge(cases, p["classes"], work)
    t_judge = time.time() - start - t_build - t_cases
    findings = known_findings(prop)
    extra = []
    for key, make, is_known in p.get("probes", []):
        rec = probe({"id": "probe." + key, **make()}, work)
        if is_known(rec):
            if key in findings:
                log("KNOWN-FINDING: property=%s %s" % (prop, findings[key]))
            else:
                found["probe." + key] = {0: {"probe"}}
                extra.append({"id": "probe." + key, **make()})
    if known:
        if "repeats" not in findings:
            raise Broken("unlisted known finding")
        log("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, findings["repeats"], len(known)))
    by_id = {c["id"]: c for c in cases + extra}
    for i, why in undefined:
        found.setdefault(i, {}).setdefault(0, set()).add("no meaning in the specification: " + why)
    order = sorted(found, key=lambda i: (len(json.dumps(by_id[i])), i))
    violations = []
    for i in order[:5]:
        path = os.path.join(work, "violation-%d.jsonl" % len(violations))
        with open(path, "w") as f:
            f.write(json.dumps({**by_id[i], "property": prop, "classes": sorted(p["classes"])}) + "\n")
        violations.append({"replay": path, "case": i, "contradicts": {str(k): sorted(v) for k, v in found[i].items()}})
    samples = []
    r = random.Random(seed)
    for c in r.sample(cases, min(4, len(cases))):
        s = json.dumps(shown(c), ensure_ascii=True)
        samples.append(s[:1200])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in models) + states[1],
            "transitions": sum(m["generated"] for m in models) + states[0],
            "traces_validated_against_impl": n,
            "calls_validated_against_impl": events,
            "models": models,
            "generators": stats,
            "case_kinds": sizes_of(cases),
            "classes": sorted(p["classes"]),
            "known_finding_cases": len(known),
            "samples": samples,
        },
        "violations": len(found),
        "violation_replays": violations,
        "seconds": {"build": round(t_build, 1), "models_and_generators": round(t_cases, 1), "run_and_conformance": round(t_judge, 1)},
        "wall_s": round(time.time() - start, 1),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for i in order[:5]:
        log("contradiction in %s: %s" % (i, {k: sorted(v) for k, v in found[i].items()}))
        log("  " + json.dumps(shown(by_id[i]), ensure_ascii=True)[:1500])
    log("%s %s: %d traces (%d calls) against the specification, %d contradictions, %.0f s (build %.0f, models %.0f, conformance %.0f)" %
        (prop, tier, n, events, len(found), time.time() - start, t_build, t_cases, t_judge))
    if found:
        log("VIOLATION property=%s replay=%s" % (prop, violations[0]["replay"]))
        return 1
    for i in os.listdir(work):
        if i.startswith("chunk-"):
            os.remove(os.path.join(work, i))
    return 0


def replay(path):
    work = os.path.join(ROOT, "work", "replay")
    subprocess.run(["rm", "-rf", work])
    os.makedirs(work)
    with open(path) as f:
        rows = [json.loads(x) for x in f if x.strip()]
    build()
    classes = set(plan.ALL)
    for r in rows:
        classes = set(r.get("classes", classes))
    cases = [{k: r[k] for k in ("id", "k", "c")} for r in rows]
    found, known, undefined, _, n, _ = judge(cases, classes, work)
    for i in sorted(os.listdir(work)):
        if i.startswith("chunk-"):
            with open(os.path.join(work, i)) as f:
                for line in f:
                    log(json.dumps(shown(json.loads(line)), ensure_ascii=True, indent=1))
    for i in found:
        log("CONTRADICTION", i, found[i])
    for i in undefined:
        log("NO MEANING", *i)
    return 1 if found or undefined else 0


def main():
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        return check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except Broken as e:
        log("CHECK FAILED: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("CHECK FAILED: timeout %s" % (e,))
        return 2


if __name__ == "__main__":
    sys.exit(main())
