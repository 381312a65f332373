"""C32: URLs of requests, and histories of edits of URLs."""

from __future__ import annotations

import ast

from urllib.parse import quote

import asgi
import core


def parts(u):
    return {"scheme": u.scheme, "netloc": u.netloc, "path": u.path, "query": u.query, "fragment": u.fragment, "username": u.username, "password": u.password, "hostname": u.hostname, "port": str(u.port), "secure": u.is_secure}


def q(v):
    return quote(str(v), safe="")


def execute(scn):
    from starlette.datastructures import URL
    from starlette.requests import HTTPConnection, Request
    from starlette.websockets import WebSocket

    ev = []
    if scn["kind"] == "scope":
        c = scn["c"]
        mk = asgi.ws_scope if c["scheme"].startswith("ws") else asgi.http_scope
        server = None if c["server"] == "None" else (c["server"], int(c["port"]) if c["port"] != "None" else None)
        scope = mk(path=c["path"], query=c["query"].encode(), headers=[(b"x-a", b"host")] + ([(b"host", c["host"].encode("latin-1"))] if c["host"] != "None" else []) + [(b"x-host", b"z")], scheme=c["scheme"], server=server)
        scope["root_path"] = c["root"]
        if scn["mounted"]:
            scope["app_root_path"] = c["root"]
            scope["root_path"] = c["root"] + "/mounted"
        if server and server[1] is None:
            c = {**c, "server": "None"}
        if server is None and scn["bare"]:
            del scope["server"]
        if c["scheme"] == "http" and scn["bare"]:
            del scope["scheme"]
        if not c["query"] and scn["bare"]:
            del scope["query_string"]
        if scn["view"] == "url":
            u, b = URL(scope=scope), HTTPConnection(scope).base_url
        else:
            conn = {"conn": lambda: HTTPConnection(scope), "request": lambda: Request(scope) if scope["type"] == "http" else WebSocket(scope, None, None)}[scn["view"]]()
            if scn["bare"]:
                b = conn.base_url
                u = conn.url
            else:
                u, b = conn.url, conn.base_url
        c = {**c, "plain": not (c["host"] == "None" and c["server"] == "None" and c["path"].startswith("//"))}
        e = {"t": "scope", "c": c, "url": str(u), "base": str(b), "path": "", "query": ""}
        if c["plain"]:
            e.update(path=u.path, query=u.query)
        return {"cfg": {"k": "scope"}, "ev": [e]}

    def real(k, v):
        return None if v == "None" else int(v) if k == "port" else v

    if scn["make"]:
        u = URL(**{k: real(k, v) for k, v in scn["make"]})
        ev.append({"t": "make", "args": scn["make"], "url": str(u)})
    else:
        u = URL(scn["url"])
    ev.append({"t": "start", "url": str(u), "parts": parts(u)})
    for op, args in scn["edits"]:
        if op == "repr":
            r = repr(u)
            ev.append({"t": "repr", "inner": ast.literal_eval(r[4:-1]) if r.startswith("URL(") and r.endswith(")") else "?" + r})
            continue
        if op == "replace":
            v = u.replace(**{k: real(k, x) for k, x in args})
            targs = args
        elif op == "include":
            v = u.include_query_params(**dict(args))
            targs = [[q(k), q(x)] for k, x in args]
        elif op == "replaceq":
            v = u.replace_query_params(**dict(args))
            targs = [[q(k), q(x)] for k, x in args]
        else:
            v = u.remove_query_params(args[0][0] if len(args) == 1 and scn["lone"] else [k for k, _ in args])
            targs = [[q(k), ""] for k, _ in args]
        ev.append({"t": "edit", "op": op, "args": targs, "before": str(u), "after": str(v), "parts": parts(v)})
        u = v
    return {"cfg": {"k": "chain"}, "ev": ev}


PATHS = ["/", "/a", "/a b", "/é/日本", "/a%2Fb", "/a?b#c", "/100%", "/%41", "//evil.org/x", "/a\tb", "/a\r\nb", "/;x=1", "/a//b/", "/:80/", "/@x", "/a&b=c", "/[x]", "/\x01", "/a\\b", "/~u/.", "/%", "/?", "/#"]
QUERIES = ["", "", "a=1", "a=1&a=2&b=", "k", "a=%ff&b=%C3%A9", "x+y=z%20w", "a=%41&b=%2f", "&a=1&&", "=v", "a=b=c", "q=%", "q=%zz", "a=1;b=2", "%26=1", "a=?/:@", "next=http://u:p@h/x", "b=+", "c=~_.-", "a=*'()!$,"]
HOSTS = ["h", "ex.org", "EX.Org", "[::1]", "[2001:db8::1]", "127.0.0.1", "xn--e-ygb.org", "a_b"]


def rscope(rng):
    host = rng.choice(["None", "None"] + [h + p for h in HOSTS for p in ("", ":81", ":80", ":443")])
    server, port = rng.choice([("None", "None"), ("h", "80"), ("h", "443"), ("h", "8000"), ("::1", "80"), ("::1", "8000"), ("127.0.0.1", "443"), ("/run/x.sock", "None")])
    return {"kind": "scope", "c": {"scheme": rng.choice(["http", "https", "ws", "wss"]), "host": host, "server": server, "port": port, "path": rng.choice(PATHS) + rng.choice(["", "", rng.choice(PATHS)]), "query": rng.choice(QUERIES),
                                   "root": rng.choice(["", "", "/r", "/r/s", "/é?", "/r/", "/100%"])}, "mounted": rng.random() < 0.3, "bare": rng.random() < 0.4, "view": rng.choice(["url", "conn", "request"])}  # fmt: skip


def start(rng):
    scheme = rng.choice(["http", "https", "ws", "HTTP", "ftp", ""])
    user = rng.choice([None, None, "u", "", "user%40x"])
    pw = None if user is None else rng.choice([None, "secret", "p:q", "", "s@cret", "p%2Fq"])
    host = rng.choice(HOSTS + [""])
    port = rng.choice(["", "", ":81", ":8443"]) if host else ""
    net = ("" if user is None else user + ("" if pw is None else ":" + pw) + "@") + host + port
    path = rng.choice(["", "/", "/a", "/a%20b/c", "/a:b", "/x@y", "/;p"])
    if net and rng.random() < 0.1:
        path = "//x"
    return (scheme + ":" if scheme and (net or path.startswith("/")) else "") + ("//" + net if net else "") + path + rng.choice(["", "?" + rng.choice(QUERIES)]) + rng.choice(["", "", "#f", "#f?x=1", "#/a@b"])


VAL = {"scheme": ["http", "https", "wss", "ftp"], "username": ["u", "me", "None", "a.b"], "password": ["None", "pw", "p:w", "p@w"], "hostname": ["new.org", "N.org", "[::2]", "::3", "2001:db8::9", "10.0.0.1"], "port": ["None", "81", "443", "0"],
       "path": ["/", "/new", "/n/m", "", "rel"], "query": ["", "x=1", "a=1&b=2"], "fragment": ["", "frag", "a?b"], "netloc": ["o.org", "u:p@o.org:9", "[::4]:1", "o.org:80"]}  # fmt: skip


def edit(rng):
    op = rng.choice(["replace"] * 4 + ["include", "include", "replaceq", "remove", "repr", "repr"])
    if op == "repr":
        return op, []
    if op == "replace":
        ks = rng.sample(list(VAL), rng.choice([1, 1, 2, 3]))
        if "netloc" in ks:
            ks = [k for k in ks if k not in ("username", "password", "hostname", "port")]
        args = [[k, rng.choice(VAL[k])] for k in ks]
        return op, args
    keys = rng.sample(["a", "b", "q", "new", "x y", "é", "&", "", "k"], rng.choice([1, 1, 2, 3]))
    return op, [[k, rng.choice(["1", 2, "", "v w", "é", "a&b=c", "%41", "+", "#?/"])] for k in keys]


def sane(url, edits):
    """drop edits whose meaning is open: a password for nobody, a relative path in front of no host"""
    from urllib.parse import urlsplit

    out = []
    p = urlsplit(url)
    user, net = p.username is not None, p.netloc != ""
    for op, args in edits:
        if op == "replace":
            d = dict(args)
            if "netloc" in d:
                user, net = "@" in d["netloc"], True
            u = user if "username" not in d else d["username"] != "None"
            if "password" in d and d["password"] != "None" and not u:
                continue
            if "password" in d and "username" in d and d["username"] == "None":
                continue
            n = net or d.get("hostname") is not None or d.get("port", "None") != "None" or (u and "username" in d)
            if d.get("path") == "rel" and not n:
                continue
            if "port" in d and d["port"] == "None" and not net and "hostname" not in d:
                continue
            user, net = u, n
        out.append((op, args))
    return out


def chain(url, edits, rng, make=None):
    return {"kind": "chain", "url": url, "edits": sane(url, edits), "make": make, "lone": rng.random() < 0.5}


def rnd(rng):
    if rng.random() < 0.3:
        return rscope(rng)
    make = None
    url = start(rng)
    if rng.random() < 0.15:
        make = [[k, rng.choice(VAL[k])] for k in rng.sample(["scheme", "path", "query", "fragment", "hostname", "port", "username"], rng.randint(2, 5))]
        if "hostname" not in dict(make):
            make.append(["netloc", "o.org"])
            make = [m for m in make if m[0] not in ("port", "username")]
        url = "http://u@h/" if "username" in dict(make) and dict(make)["username"] != "None" else "http://h/"
    return chain(url, [edit(rng) for _ in range(rng.choice([1, 2, 3, 6]))], rng, make)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_url(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "scope")
    if e:
        k = rng.choice(["url", "base"])
        e[k] = e[k] + "x"
        return t


def mut_after(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "edit")
    if e:
        if e["after"].endswith("z"):
            return None
        e["after"] = e["after"] + "z"
        return t


def mut_parts(t, rng):
    e = pick(t, rng, lambda e: e["t"] in ("edit", "start"))
    if e:
        k = rng.choice(["scheme", "netloc", "path", "query", "fragment", "username", "password", "hostname", "port"])
        e["parts"] = {**e["parts"], k: "zz"}
        return t


def mut_args(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "edit" and e["op"] in ("include", "replaceq"))
    if e:
        e["args"] = e["args"][:-1] + [[e["args"][-1][0], "zz"]]
        return t


def mut_repr(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "repr" and "********" in e["inner"])
    if e:
        e["inner"] = e["inner"].replace("********", "secret")
        return t


def run(c):
    c.model("MC_Urls", "MC_Urls_big.cfg" if c.thorough else None, min_states=10000)
    gens = c.behaviours("MC_Urls", "MC_Urls_gen.cfg")
    gens = sorted({(g["url"], tuple(map(tuple, g["edits"]))) for g in gens})
    if not c.thorough:
        gens = c.rng.sample(gens, min(len(gens), 1500))
    scns = [chain(u, [("replace", [list(e)]) for e in es] + [edit(c.rng)], c.rng) for u, es in gens]
    scns += [rnd(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Urls", runs, mutators=[mut_url, mut_after, mut_parts, mut_args, mut_repr])
