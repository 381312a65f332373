"""C22: requests of all schemes, hosts, ports, paths and queries through the HTTPS redirect."""

from __future__ import annotations

import core
from drivers import hosts

NAMES = ["a.t", "example.com", "www.example.com", "localhost", "127.0.0.1", "[::1]", "[2001:db8::1]", "-", "EXAMPLE.com", "x-y.z", "80", "a.t.", "443.example"]
PORTS = ["", "", ":80", ":443", ":8000", ":8080", ":4430", ":8443", ":", ":1", ":65535", ":800"]


def run(c):
    if c.thorough:
        c.model("MC_Hosts", min_states=100000)
    else:
        c.model("MC_Hosts", "MC_Hosts_gen.cfg", min_states=20000)
    cfg = {"kind": "https", "allowed": [], "www": True}
    scns = []
    k = c.n(1, 6)
    for h in NAMES:
        for p in PORTS:
            if h == "-" and p:
                continue
            for path in hosts.PATHS:
                reqs = [hosts.req(c.rng, h + p, path=path, query=q) for q in c.rng.sample(hosts.QUERIES, 2 * k)]
                scns.append({"cfg": cfg, "style": 1, "wrap": c.rng.random() < 0.3, "backend": c.rng.choice(["asyncio", "trio"]), "reqs": reqs})
    runs = list(zip(scns, core.run_pool(hosts.execute, scns)))
    c.validate("Trace_Hosts", runs, mutators=[hosts.mut_touch, hosts.mut_where, hosts.mut_status])
