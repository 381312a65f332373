"""C05: reversing names, and requesting what comes out."""

import core
from drivers import routes as R


def execute(scn):
    log = []
    app = R.build(scn["table"], log)
    ev = []
    for q, rv in scn["reqs"]:
        out = R.reverse(app, q, rv)
        netloc = q["host"] or ("testserver:80" if q["scheme"] in ("https", "wss") else "testserver")
        ev.append({"t": "rev", "name": rv["name"], "params": rv["params"], "secure": q["scheme"] in ("https", "wss"),
                   "scheme": q["scheme"], "netloc": netloc, "root": q["root"], "out": out})  # fmt: skip
        if out["k"] == "yes" and out["path"].startswith("/"):
            # ask for it: as http and as websocket, with the host it names
            for typ in ("http", "websocket"):
                q2 = {**q, "type": typ, "method": "GET" if typ == "http" else "", "path": q["root"] + out["path"],
                      "host": out["host"] or q["host"], "query": "", "scheme": "http" if typ == "http" else "ws"}  # fmt: skip
                ev.append({**q2, "t": "req04", "out": R.observe(app, log, q2)})
    return {"cfg": R.strip(scn["table"]), "ev": ev}


def mut_path(t, rng):
    for e in t["ev"]:
        if e["t"] == "rev" and e["out"]["k"] == "yes":
            e["out"]["path"] += "x"
            return t


def mut_no(t, rng):
    for e in t["ev"]:
        if e["t"] == "rev":
            e["out"] = {"k": "nomatch" if e["out"]["k"] == "yes" else "yes", "path": "/", "host": "", "abs": {"scheme": "http", "netloc": "h", "path": "/"}}
            return t


def mut_scheme(t, rng):
    for e in t["ev"]:
        if e["t"] == "rev" and e["out"]["k"] == "yes":
            e["out"]["abs"]["scheme"] = "ftp"
            return t


def run(c):
    c.model("MC_Routing", min_states=5000)
    scns = []
    for _ in range(c.n(6000, 60000)):
        g = R.Gen(c.rng)
        t = g.root(c.rng.choice([0, 1, 1, 2, 3]))
        scns.append({"table": t, "reqs": [(g.request(t), g.reversal(t)) for _ in range(8)]})
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Routing", runs, mutators=[mut_path, mut_no, mut_scheme])
