"""C04: route resolution."""

import core
from drivers import routes as R


def execute(scn):
    log = []
    app = R.build(scn["table"], log)
    ev = []
    for q in scn["reqs"]:
        ev.append({**q, "t": "req04", "out": R.observe(app, log, q)})
    return {"cfg": R.strip(scn["table"]), "ev": ev}


def small(c):
    """every pair of simple routes against every short path: exhaustive"""
    L, P = R.L, R.Pm
    pats = [[L("/")], [L("/a")], [L("/a/")], [L("/a/b")], [L("/"), P("s1", "str")], [L("/"), P("n1", "int")],
            [L("/"), P("p1", "path")], [L("/a/"), P("s1", "str")], [L("/"), P("s1", "str"), L("/b")], [L("/a.b")],
            [L("/"), P("f1", "float")]]  # fmt: skip
    nodes = []
    for i, p in enumerate(pats):
        for ms in (["GET"], ["POST"]):
            nodes.append({"kind": "route", "pat": p, "any": False, "methods": ms, "id": f"r{i}{ms[0]}", "name": ["n"], "lower": False, "default": False})
    for i, p in enumerate([[], [L("/a")], [L("/"), P("s1", "str")]]):
        for j, sub in enumerate((nodes[0], nodes[2], nodes[4], nodes[8])):
            nodes.append({"kind": "mount", "pat": p, "name": [], "leaf": "", "routes": [dict(sub, id=f"m{i}{j}")], "slash": True, "style": "routes", "trail": False})
        nodes.append({"kind": "mount", "pat": p, "name": [], "leaf": f"leaf{i}", "routes": [], "slash": True, "style": "routes", "trail": False})
    paths = ["/", "/a", "/a/", "/a/b", "/a/b/", "/b", "/1", "/1.5", "/a.b", "/axb", "/A", "/a//", "//", "/a/b/c", "/b/b", "/a\n", "/a/\n", "/1\n"]
    scns = []
    for x in nodes:
        for y in nodes:
            y2 = dict(y, id="second", leaf="second" if y.get("leaf") else y.get("leaf", "")) if y["kind"] == "route" or y.get("leaf") else y
            for slash in (True, False) if c.thorough else (True,):
                reqs = [{"type": "http", "method": m, "path": p, "root": "", "host": "h", "query": "", "scheme": "http"}
                        for p in paths for m in ("GET", "POST")]  # fmt: skip
                if not c.thorough:
                    reqs = c.rng.sample(reqs, 12)
                scns.append({"table": {"routes": [x, y2], "slash": slash, "style": c.rng.choice(["starlette", "router"]), "adds": c.rng.choice([0, 1, 2])}, "reqs": reqs})
    return scns


def mut_kind(t, rng):
    e = rng.choice(t["ev"])
    e["out"]["k"] = "404" if e["out"]["k"] != "404" else "app"
    return t


def mut_param(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "app" and e["out"]["params"]:
            e["out"]["params"][0][2] += "x"
            return t


def mut_ran(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "app":
            e["out"]["ran"].append("r1")
            return t


def mut_seen(t, rng):
    for e in t["ev"]:
        if e["out"]["k"] == "405" and e["out"]["seen"]:
            e["out"]["seen"][0]["params"].append(["zz", "str", "x"])
            return t


def run(c):
    c.model("MC_Routing", min_states=5000)
    scns = small(c)
    for _ in range(c.n(2500, 25000)):
        g = R.Gen(c.rng)
        t = g.root(c.rng.choice([0, 1, 1, 2, 3]))
        scns.append({"table": t, "reqs": [g.request(t) for _ in range(8)]})
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Routing", runs, mutators=[mut_kind, mut_param, mut_ran, mut_seen])
