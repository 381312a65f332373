"""C06: what applications nested in mounts and hosts see of the scope."""

import core
from drivers import routes as R


def execute(scn):
    log = []
    app = R.build(scn["table"], log)
    ev = []
    for q in scn["reqs"]:
        ev.append({**q, "t": "req06", "out": R.observe(app, log, q)})
    return {"cfg": R.strip(scn["table"]), "ev": ev}


def deep(rng):
    """a chain of mounts and hosts with decoy siblings, and requests down to its bottom"""
    g = R.Gen(rng)

    def chain(d):
        if d == 0:
            return g.table(0)
        n = g.node(1)
        while n["kind"] not in ("mount", "host") or n["leaf"]:
            n = g.node(1)
        n["routes"] = chain(d - 1)
        sib = [g.node(0) for _ in range(rng.choice([0, 0, 1]))]
        if n["kind"] == "mount" and rng.random() < 0.3:
            sib.append({**n, "routes": [], "leaf": g.pid("leaf"), "pat": n["pat"] + [R.L("x")] if n["pat"] else [R.L("/x")]})
        return sib + [n]

    t = {"routes": chain(rng.choice([2, 3, 3, 4])), "slash": True, "style": rng.choice(["starlette", "router"])}
    return {"table": t, "reqs": [g.request(t) for _ in range(8)]}


def mut_root(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "app":
            e["out"]["root"] += "/a"
            return t


def mut_ep(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "app":
            e["out"]["ep"] = "other"
            return t


def mut_approot(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "app":
            e["out"]["approot"] += "/a"
            return t


def run(c):
    c.model("MC_Routing", min_states=5000)
    scns = [deep(c.rng) for _ in range(c.n(4000, 40000))]
    for _ in range(c.n(2000, 20000)):
        g = R.Gen(c.rng)
        t = g.root(c.rng.choice([1, 2, 3]))
        scns.append({"table": t, "reqs": [g.request(t) for _ in range(8)]})
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Routing", runs, mutators=[mut_root, mut_ep, mut_approot])
