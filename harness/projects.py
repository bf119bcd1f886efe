"""Project structures for Build.tla (only the static part; behaviour is the specification's)."""
import itertools, random


def project(kind, deps, **kw):
    n = len(kind)
    p = dict(n=n, kind=list(kind), deps=[list(d) for d in deps], deps0=None, late=[False] * n,
             glob=[[] for _ in range(n)], force=[False] * n, copy=[False] * n, exists=[True] * n,
             cond=[False] * n, dir=[0] * n, nd=0, parent=[], time0=1,
             name=["%s%d" % (k[0], i + 1) for i, k in enumerate(kind)], id=0)
    p.update(kw)
    if p["deps0"] is None:
        p["deps0"] = [list(d) for d in p["deps"]]
    return p


def small(level=0):
    """Small projects for exhaustive exploration."""
    out = []
    S, G, T, U, D = "src", "gen", "set", "upd", "dir"
    out.append(project([S, G, G], [[], [1], [2]]))
    out.append(project([S, G, G], [[], [1], [1, 2]]))
    out.append(project([S, S, G, G], [[], [], [1], [2, 3]]))
    out.append(project([S, G, T, G], [[], [1], [1, 2], [3]]))
    out.append(project([S, G, G], [[], [1], [2]], force=[False, True, False]))
    out.append(project([S, U, G], [[], [1], [1, 2]]))
    out.append(project([S, G, G], [[], [1], [2]], dir=[0, 1, 2], nd=2, parent=[0, 1]))
    out.append(project([S, D, G], [[], [], [1, 2]], dir=[0, 1, 0], nd=1, parent=[0]))
    out.append(project([S, S, G, G], [[], [], [1], [3]], glob=[[], [], [2], []], exists=[True, False, True, True]))
    out.append(project([S, G, G], [[], [1], [1, 2]], deps0=[[], [1], [1]], late=[False, True, False]))
    out.append(project([S, G, G], [[], [1], [1]], copy=[False, True, False]))
    for i, p in enumerate(out):
        p["id"] = i
    return out


def rand(rng, n=None, dirs=True, globs=True, upd=True, sets=True, force=True, late=False, copies=0.0, dirnodes=True, bare=0.0, nest=False):
    n = n or rng.randint(5 if nest else 4, 9)
    ns = rng.randint(1, max(1, n // 3))
    depth = rng.choice([2, 2, 3]) if nest else 0     # a file that depends on filesets of filesets
    n = max(n, ns + depth + 2) if nest else n
    kind, deps = [], []
    force_, copy_, cond, dir_, exists, late_ = [], [], [], [], [], []
    glob = []
    nd = rng.randint(1, 3) if dirs else 0
    parent = [rng.choice([0] + list(range(1, d))) if d > 1 else 0 for d in range(1, nd + 1)]
    for t in range(1, n + 1):
        if t <= ns:
            k = "src"
        else:
            ks = ["gen"] * 6 + (["set"] if sets else []) + (["upd"] if upd else []) + \
                 (["dir"] if dirs and dirnodes and rng.random() < .5 else [])
            k = rng.choice(ks) if t < n else rng.choice(["gen", "gen", "set" if sets else "gen"])
        d = []
        if ns < t <= ns + depth + 1:
            k = "gen" if t > ns + depth else "set"
        if k not in ("src", "dir"):
            m = rng.choice([1, 1, 2, 2, 3])
            d = rng.sample(range(1, t), min(m, t - 1))
            inner = [u for u in range(1, t) if kind[u - 1] == "set"]
            outer = [u for u in inner if any(kind[v - 1] == "set" for v in deps[u - 1])]
            pick = inner if k == "set" else outer
            if ns < t <= ns + depth + 1:
                d = [t - 1] + [u for u in d if u <= ns and rng.random() < .3] if t > ns + 1 else d
                pick = []
            if pick and rng.random() < .4:
                d = sorted(set(d) | {rng.choice(pick)})
            if k == "gen" and bare and rng.random() < bare:
                d = []
        kind.append(k); deps.append(d)
        force_.append(k == "gen" and force and rng.random() < .08)
        cond.append(k == "upd" and rng.random() < .3)
        c = False
        if k == "gen" and copies and rng.random() < copies:
            files = [u for u in range(1, t) if kind[u - 1] in ("src", "gen")]
            deps[-1] = [rng.choice(files)]
            c = True
        copy_.append(c)
        dir_.append(rng.randint(1, nd) if k == "dir" else rng.choice([0] + list(range(1, nd + 1))) if k == "gen" and nd else 0)
        exists.append(True); late_.append(False); glob.append([])
    # the last node is on top of everything nobody uses
    used = {u for d in deps for u in d}
    if not copy_[-1]:
        for t in range(1, n):
            if t not in used and kind[t - 1] != "src" and rng.random() < .8:
                deps[-1].append(t)
    # only one explicit target per directory
    seen = set()
    for t in range(n):
        if kind[t] == "dir":
            if dir_[t] in seen:
                kind[t], dir_[t] = "gen", 0
            seen.add(dir_[t])
    p = project(kind, deps, force=force_, copy=copy_, cond=cond, dir=dir_, nd=nd, parent=parent, exists=exists,
                late=late_, glob=glob)
    if globs and rng.random() < .5:
        # some new sources, only matched by the wildcard of one generated file
        gens = [t for t in range(n) if kind[t] == "gen" and not copy_[t]]
        if gens:
            g = rng.choice(gens)
            k = rng.randint(1, 2)
            p = shift(p, k)
            p["glob"][g + k] = list(range(1, k + 1))
            for i in range(k):
                p["exists"][i] = rng.random() < .3
    n = p["n"]
    if late:
        for t in range(n):
            r = rng.random()
            if p["kind"][t] != "src" and r < .3:
                p["late"][t] = True
            elif len(p["deps"][t]) > 1 and r < .7 and not p["copy"][t]:
                p["deps0"][t] = p["deps"][t][:rng.randint(0, len(p["deps"][t]) - 1)]
        # nothing declared at first may depend on what is declared later
        for t in range(n):
            p["deps0"][t] = [u for u in p["deps0"][t] if not p["late"][u - 1]]
            if p["late"][t]:
                p["deps0"][t] = list(p["deps"][t])
    return p


def shift(p, k):
    """k new sources in front (they may be missing)."""
    mv = lambda d: [u + k for u in d]
    q = dict(p)
    q["n"] = p["n"] + k
    q["kind"] = ["src"] * k + p["kind"]
    for f in ("deps", "deps0", "glob"):
        q[f] = [[] for _ in range(k)] + [mv(d) for d in p[f]]
    for f, v in (("late", False), ("force", False), ("copy", False), ("exists", True), ("cond", False), ("dir", 0)):
        q[f] = [v] * k + list(p[f])
    q["name"] = ["%s%d" % (x[0], i + 1) for i, x in enumerate(q["kind"])]
    return q
