"""C21: Host headers put together by TLC and near misses against allow-lists."""

from __future__ import annotations

import core
from drivers import hosts

LISTS = [["a.t"], ["*.a.t"], ["www.a.t", "*.t"], ["[::1]", "www.x"], ["*"], [], ["example.com", "*.example.com"], ["www.example.com"], ["localhost", "127.0.0.1", "testserver"], ["*.a.t", "www.t"], ["a.t", "*"],
         ["www.example.com", "example.com"], ["www.a.t", "b.t"], ["*.example.com", "www.other.com"]]  # fmt: skip
NAMES = ["example.com", "www.example.com", "sub.example.com", "a.b.example.com", "example.com.evil.com", "notexample.com", "evilexample.com", "www.sub.example.com", "localhost", "127.0.0.1", "testserver", "a.t", "www.a.t",
         "x.a.t", "t", "www.t", "", "-", "EXAMPLE.com", "example.co", "xample.com", "example.comx", ".example.com", "www.other.com", "other.com", "www.www.example.com", "[::1]", "x", "www.x", "b.t", "*.example.com", "evil.com/.example.com", "evil.com#.a.t",
         "example.com@evil.com", "user@example.com", "example.com\\.evil.com", "exa mple.com", "sub.other.com", "*", "example.com.", "[::1", "::1", "a.t,b.t", "wwwxa.t"]  # fmt: skip
PORTS = ["", "", "", ":80", ":443", ":8000", ":", ":http", ":80:80", ":@evil.com", ":80/x", ":-1"]


def scenario(rng, cfg, hs):
    return {"cfg": cfg, "style": rng.randrange(60), "wrap": rng.random() < 0.3, "backend": rng.choice(["asyncio", "trio"]), "reqs": [hosts.req(rng, h) for h in hs]}


def conf(rng, allowed=None):
    return {"kind": "trusted", "allowed": allowed or rng.choice(LISTS), "www": rng.random() < 0.75}


def run(c):
    if c.thorough:
        c.model("MC_Hosts", min_states=100000)
    gen = [b["host"] for b in c.behaviours("MC_Hosts", "MC_Hosts_gen.cfg")]
    scns = []
    for _ in range(c.n(2, 20)):
        c.rng.shuffle(gen)
        scns += [scenario(c.rng, conf(c.rng, c.rng.choice(LISTS[:6]) or None), gen[i : i + 4]) for i in range(0, len(gen), 4)]
    for _ in range(c.n(3000, 50000)):
        cfg = conf(c.rng)
        scns.append(scenario(c.rng, cfg, [c.rng.choice(NAMES + cfg["allowed"] * 3) + c.rng.choice(PORTS) for _ in range(c.rng.choice([1, 2, 4]))]))
    for s in scns:
        for r in s["reqs"]:
            if r["host"].startswith("-"):
                r["host"] = "-"
    runs = list(zip(scns, core.run_pool(hosts.execute, scns)))
    c.validate("Trace_Hosts", runs, mutators=[hosts.mut_reach, hosts.mut_touch, hosts.mut_where, hosts.mut_status])
