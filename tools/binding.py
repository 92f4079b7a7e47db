#!/usr/bin/env python3
"""How much of what is recorded does the specification pin down?  binding.py PER_KIND CORRUPTIONS [KIND]

Records cases, changes one place of a recording at a time (a character, a number, a flag, the order or number of entries)
and asks TLC about each: the part of the changed recordings that contradict the specification, by kind of case and place."""
import collections
import copy
import json
import os
import random
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check  # noqa: E402
import gen  # noqa: E402
import plan  # noqa: E402
from concurrent.futures import ThreadPoolExecutor  # noqa: E402


def is_text(x):
    return isinstance(x, list) and x and all(isinstance(i, int) and not isinstance(i, bool) for i in x)


def places(x, path=()):
    """every place of a recording that can be changed"""
    if isinstance(x, dict):
        for k in sorted(x):
            yield from places(x[k], path + (k,))
    elif is_text(x) or not isinstance(x, list):
        yield path
    else:
        if x:
            yield path
        for i, v in enumerate(x):
            yield from places(v, path + (i,))


def corrupted(r, x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + r.choice([1, 2, -1])
    if isinstance(x, str):
        return r.choice([s for s in ("ok", "none", "some", "err", "x") if s != x])
    if is_text(x):
        i = r.randrange(len(x))
        return r.choice([x[:i] + [x[i] ^ 1] + x[i + 1:], x[:i] + x[i + 1:], x[:i] + [x[i]] + x[i:], x + [33]])
    way = r.choice(["drop", "double", "swap"])
    if isinstance(x[0], dict) and set(x[0]) == {"k", "p", "v"} or isinstance(x[0], list) and len(x[0]) == 2 and is_text(x[0][0]):
        way = "drop"  # recorded from a map: in no order
    i = r.randrange(len(x))
    if way == "drop":
        return x[:i] + x[i + 1:]
    if way == "swap" and len(x) > 1:
        j = (i + 1) % len(x)
        y = list(x)
        y[i], y[j] = y[j], y[i]
        if y != x:
            return y
    return x[:i + 1] + x[i:]


def at(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    x = copy.deepcopy(x)
    at(x, path[:-1])[path[-1]] = v
    return x


def general(path, o):
    """the place without positions; entries of the pool by their first user"""
    if path[0] == "pool" and len(path) > 1:
        users = sorted(k for k in o if o[k] == path[1] + 1 or (isinstance(o[k], list) and path[1] + 1 in [y for y in o[k] if isinstance(y, int)]))
        path = ("pool(%s)" % ",".join(users[:2]),) + tuple(path[2:])
    if path[0] == "log" and len(path) > 1:
        path = ("log.%s" % o["log"][path[1]]["op"]["op"],) + tuple(path[2:])
    return ".".join(str(p) for p in path if not isinstance(p, int))[:70]


def verdicts(path, name, work):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Wanted = %s\nCONSTANT Shards = 1\n" % check.tla(sorted(plan.ALL))
    bad = set()
    with open(path) as f:
        lines = f.read().splitlines()
    while lines:
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out, _ = check.tlc("Conform", cfg, name, work, {"OBS": path}, workers=1, heap="3g")
        bad.update(m.group(1) for m in re.finditer(r'<<\s*"CONTRADICTION",\s*"([^"]*)"', out))
        if rc == 0:
            return bad
        m = re.findall(r"/\\ case = (\d+)", out)
        if not m:
            raise check.Broken(out[-2000:])
        bad.add(json.loads(lines[int(m[-1]) - 1])["id"])
        lines = lines[int(m[-1]):]
    return bad


def main():
    per, many = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3:]
    work = os.path.join(check.ROOT, "work", "binding")
    subprocess.run(["rm", "-rf", work])
    os.makedirs(work)
    check.build()
    r = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    cases = []
    seen = collections.Counter()
    pools = []
    for p in range(1, 21):
        for g, n, kw in plan.plan("C%02d" % p, "quick")["gens"]:
            if n is not None and not g.startswith("huge") and not g.startswith("big"):
                pools += list(getattr(gen, g)(r, min(n, 30), **kw))
    r.shuffle(pools)
    for c in pools:
        if (not only or c["k"] in only) and seen[c["k"]] < per and len(json.dumps(c)) < 6000:
            seen[c["k"]] += 1
            cases.append({"id": "b%d" % len(cases), **c})
    chunks = check.record_all(cases, work)
    recs = []
    for ch in chunks:
        with open(ch) as f:
            recs += [json.loads(x) for x in f]
    where, files, n = {}, [open(os.path.join(work, "c%d" % i), "w") for i in range(check.CORES)], 0
    for x in recs:
        # not what the executor adds: the call, the clock, that a call without result has returned, the sizes it tried
        own = ("op", "t0", "t1", "lim", "near")
        ps = [p for p in places(x["o"]) if p and not any(k in own for k in p) and not (p[-2:] == ("r", "st") and len(at(x["o"], p[:-1])) == 1)]
        by = collections.defaultdict(list)
        for p in ps:
            by[general(p, x["o"])].append(p)
        keys = sorted(by)
        for k in (r.sample(keys, many) if len(keys) > many else keys):
            p = r.choice(by[k])
            i = "%s~%d" % (x["id"], n)
            where[i] = (x["k"], k, p, x["id"])
            files[n % len(files)].write(json.dumps({**x, "id": i, "o": put(x["o"], p, corrupted(r, at(x["o"], p)))}) + "\n")
            n += 1
    for f in files:
        f.close()
    bad = set()
    with ThreadPoolExecutor(check.CORES) as ex:
        for b in ex.map(lambda i: verdicts(files[i].name, "v%d" % i, work), range(len(files))):
            bad |= b
    kinds, table, missed = collections.defaultdict(lambda: [0, 0]), collections.defaultdict(lambda: [0, 0]), {}
    for i, (kind, k, p, c) in where.items():
        for t, key in ((kinds, kind), (table, (kind, k))):
            t[key][1] += 1
            t[key][0] += i in bad
        if i not in bad:
            missed.setdefault((kind, k), (c, p))
    for k in sorted(kinds):
        print("%-8s %d of %d" % (k, *kinds[k]))
    for k in sorted(table):
        if table[k][0] < table[k][1]:
            print("   %s %s: %d of %d; %s" % (*k, *table[k], missed[k]))


if __name__ == "__main__":
    main()
