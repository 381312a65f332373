"""C33: cookies of requests, cookies set on responses, and a browser in between."""

from __future__ import annotations

import asyncio
import re
import time
from datetime import datetime, timedelta, timezone

import asgi
import core

DATE = re.compile(r"(Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d\d) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d{4}) (\d\d):(\d\d):(\d\d) GMT$")
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def esc(s):
    return "".join(c if " " <= c <= "~" or c == "\t" else "{%02x}" % ord(c) for c in s)


def fmt(d):
    return f"{DAYS[d.weekday()]}, {d.day:02d} {MONTHS[d.month - 1]} {d.year:04d} {d.hour:02d}:{d.minute:02d}:{d.second:02d} GMT"


def when(text):
    """seconds from now of an HTTP date; None if it is none"""
    m = DATE.match(text)
    if not m:
        return None
    d = datetime(int(m[4]), MONTHS.index(m[3]) + 1, int(m[2]), int(m[5]), int(m[6]), int(m[7]), tzinfo=timezone.utc)
    return None if DAYS[d.weekday()] != m[1] else int(d.timestamp() - time.time())


class Browser:
    def __init__(self):
        self.jar = {}

    def obey(self, line):
        first, *rest = line.split(";")
        name, _, value = first.partition("=")
        at = {k.strip().lower(): v.strip() for k, _, v in (r.partition("=") for r in rest)}
        key = (name.strip(), at.get("domain"), at.get("path"))
        self.jar.pop(key, None)
        if "max-age" in at:
            gone = int(at["max-age"]) <= 0
        else:
            due = when(at.get("expires", ""))
            gone = due is not None and due <= 1
        if not gone:
            self.jar[key] = f"{name.strip()}={value.strip()}"

    def lines(self, split):
        cs = list(self.jar.values())
        return (cs if split else ["; ".join(cs)]) if cs else []


def request(headers, ws, noise):
    from starlette.requests import HTTPConnection, Request
    from starlette.websockets import WebSocket

    hs = [(b"cookie", h.encode("latin-1")) for h in headers]
    if noise:
        hs = [(b"x-cookie", b"no=1"), *hs, (b"cookies", b"no=2"), (b"set-cookie", b"no=3")]
    if ws == "ws":
        return WebSocket(asgi.ws_scope(headers=hs), None, None)
    return (Request if ws == "request" else HTTPConnection)(asgi.http_scope(headers=hs))


def seen(conn):
    return [[esc(k), esc(v)] for k, v in conn.cookies.items()]


def response(kind):
    from starlette import responses as r

    async def gen():
        yield b"x"

    hs = {"x-a": "1", "set-cookie": "mine=1; Path=/"} if "+" in kind else None
    kind = kind.strip("+")
    if kind == "plain":
        return r.Response(b"x", headers=hs)
    if kind == "json":
        return r.JSONResponse({"a": 1}, headers=hs)
    if kind == "html":
        return r.HTMLResponse("x", status_code=404, headers=hs)
    if kind == "redirect":
        return r.RedirectResponse("/x", headers=hs)
    if kind == "empty":
        return r.Response(status_code=204, headers=hs)
    return r.StreamingResponse(gen(), headers=hs)


def raw(pairs):
    return [[esc(k.decode("latin-1")), esc(v.decode("latin-1"))] for k, v in pairs]


def txt(v):
    return "None" if v is None else v


def expiry(x):
    """(argument, kind, due, date, past)"""
    if x is None:
        return None, "None", 0, "", False
    if x[0] == "in":
        return x[1], "in", x[1], "", x[1] <= 0
    if x[0] == "date":
        d = datetime(2100, 1, 1, tzinfo=timezone.utc) if x[1] == "far" else datetime.now(timezone.utc) + timedelta(seconds=x[1])
        return d, "date", 0, fmt(d), d.timestamp() < time.time()
    return x[1], "text", 0, x[1], False


def execute(scn):
    ev = []
    if scn["kind"] == "texts":
        for hs in scn["texts"]:
            for ws in scn["views"]:
                ev.append({"t": "parse", "headers": [esc(h) for h in hs], "cookies": seen(request(hs, ws, scn["noise"]))})
        return {"cfg": {"k": "texts"}, "ev": ev}
    b = Browser()
    obeyed = True
    resp = None
    for op in scn["ops"]:
        if op["op"] in ("new", "sent") and resp is not None:
            sent, exc = asyncio.run(asgi.call(resp, asgi.http_scope()))
            if exc is not None:
                raise exc
            ev.append({"t": "sent", "hdrs": raw(asgi.start_of(sent)["headers"])})
        if op["op"] == "new":
            resp = response(op["kind"])
            hs = raw(resp.headers.raw)
            ev.append({"t": "new", "hdrs": hs})
        elif op["op"] == "set":
            a = dict(op["args"])
            full = {"value": "", "max_age": None, "expires": None, "path": "/", "domain": None, "secure": False, "httponly": False, "samesite": "lax", **a}
            arg, kind, due, date, past = expiry(full["expires"])
            if "expires" in a:
                a["expires"] = arg
            key = a.pop("key")
            n = len(resp.headers.raw)
            if op["del"]:
                resp.delete_cookie(key, **a)
            else:
                resp.set_cookie(key, **a)
            lines = resp.headers.raw
            dated = False
            gap = 0
            for k, v in lines[n:]:
                at = {p.partition("=")[0].strip().lower(): p.partition("=")[2] for p in v.decode("latin-1").split(";")[1:]}
                g = when(at.get("expires", ""))
                if g is not None:
                    dated, gap = True, g
                b.obey(v.decode("latin-1"))
            spec = {"name": key, "value": esc(full["value"]), "path": txt(full["path"]), "domain": txt(full["domain"]), "secure": full["secure"], "httponly": full["httponly"], "samesite": txt(full["samesite"]),
                    "maxage": "None" if full["max_age"] is None else str(full["max_age"]), "expires": kind, "due": due, "gone": full["max_age"] is not None and full["max_age"] <= 0, "past": past, "del": op["del"]}  # fmt: skip
            ev.append({"t": "set", "a": spec, "hdrs": raw(lines), "dated": dated, "gap": gap, "date": date})
        elif op["op"] == "back":
            ev.append({"t": "back", "cookies": seen(request(b.lines(op["split"]), op["ws"], False))})
    return {"cfg": {"k": "jar"}, "ev": ev}


VALUE = ["", "x", "a b", "; a=1", '"', '""', '"q"', "\\", "\\073", '\\"', "a,b", "é", "ÿ\xa0", " lead", "trail ", "=", "a=b", "%3B", "{}", "\x80\x9f", '{"k":"v"}', "\\", "a;", ";"]
CHUNK = ["a=1", "a=2", "b=", "=v", "nov", "", " ", "a = 1 ", 'a="q"', 'a="\\073\\054"', 'b="x\\"y"', 'b="', 'c="\\', 'c="a\\"', "é=ü", "a=b=c", "==", 'd=x"y"', 'd="a"b', "\ta=3", "$Path=/", "a=\\073", 'e="\\400"', 'e="\\37"', 'e="\\377\\012"', "A=1", "k=v, l=w", '"a"=1', "f=%3B"]


def header(rng):
    if rng.random() < 0.2:
        return "".join(rng.choice('a=;"\\ 073,é') for _ in range(rng.randint(0, 20)))
    return rng.choice(["; ", ";", " ;", "; ;"]).join(rng.choice(CHUNK) for _ in range(rng.randint(0, 6)))


def headers(rng):
    return [header(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]


def args(rng, dele):
    a = {"key": rng.choice(["a", "b", "sid", "a.b", "x-y", "A"])}
    if rng.random() < 0.5:
        a["path"] = rng.choice(["/", "/p", "/p/q", None, "", "/é".encode().decode("latin-1"), "/a b"])
    if rng.random() < 0.3:
        a["domain"] = rng.choice(["d.org", ".d.org", None, "localhost"])
    for f in ("secure", "httponly"):
        if rng.random() < 0.4:
            a[f] = rng.random() < 0.7
    if rng.random() < 0.5:
        a["samesite"] = rng.choice(["lax", "strict", "none", "Strict", "None", "LAX", None])
        if a["samesite"] == "None":
            a["samesite"] = "NONE"
    if "path" in a and a["path"] and "\xc3" in a["path"]:
        a["path"] = "/x"
    if dele:
        return a
    a["value"] = rng.choice([rng.choice(VALUE), "".join(chr(rng.randint(32, 255)) for _ in range(rng.randint(0, 8))).replace("\x7f", "")])
    if rng.random() < 0.2:
        del a["value"]
    if rng.random() < 0.4:
        a["max_age"] = rng.choice([0, 1, 3600, -1, 14 * 24 * 3600, None])
    if rng.random() < 0.4:
        a["expires"] = rng.choice([None, ["in", 3600], ["in", 100], ["in", -100], ["in", 0], ["in", 10**8], ["date", "far"], ["date", 5000], ["date", -5000], ["text", "Fri, 01 Jan 2100 00:00:00 GMT"]])
    return a


def history(rng):
    ops = [{"op": "new", "kind": rng.choice(KINDS)}]
    for _ in range(rng.choice([1, 2, 4, 8])):
        if rng.random() < 0.2:
            ops.append({"op": "new", "kind": rng.choice(KINDS)})
        d = rng.random() < 0.25
        ops.append({"op": "set", "del": d, "args": args(rng, d)})
        if rng.random() < 0.4:
            ops.append(back(rng))
    return {"kind": "jar", "ops": [*ops, {"op": "sent"}, back(rng)]}


KINDS = ["plain", "plain+", "json", "html+", "redirect", "empty", "stream", "stream+"]


def back(rng):
    return {"op": "back", "split": rng.random() < 0.3, "ws": rng.choice(["request", "conn", "ws"])}


def spec_history(ops, rng):
    out = [{"op": "new", "kind": rng.choice(KINDS)}]
    for o in ops:
        a = {"key": o["name"], "value": o["value"], "path": o["path"], "domain": o["domain"]}
        a = {k: None if v == "None" else v for k, v in a.items()}
        if o["del"]:
            del a["value"]
        out += [{"op": "set", "del": o["del"], "args": a}, back(rng)]
    return {"kind": "jar", "ops": [*out, {"op": "sent"}]}


def rnd(rng):
    if rng.random() < 0.4:
        return {"kind": "texts", "texts": [headers(rng) for _ in range(6)], "views": [rng.choice(["request", "conn", "ws"])], "noise": rng.random() < 0.5}
    return history(rng)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_cookie(t, rng):
    e = pick(t, rng, lambda e: e["t"] in ("parse", "back") and e["cookies"])
    if e:
        cs = [list(c) for c in e["cookies"]]
        k = rng.choice(["value", "drop", "add", "name"])
        if k == "drop":
            cs.pop(rng.randrange(len(cs)))
        elif k == "add":
            cs.append(["zz", "1"])
        else:
            cs[rng.randrange(len(cs))][k == "value"] += "z9"
        e["cookies"] = cs
        return t


def mut_header(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "set")
    if e:
        hs = [list(h) for h in e["hdrs"]]
        k = rng.choice(["twice", "gone", "attr", "case", "value", "other"])
        if k == "twice":
            hs.append(hs[-1])
        elif k == "gone":
            hs.pop(-2) if len(hs) > 1 else hs.pop()
        elif k == "attr":
            hs[-1][1] += "; Partitioned"
        elif k == "case":
            hs[-1][1] = hs[-1][1].partition(";")[0] + "; Foo=1"
        elif k == "value":
            hs[-1][1] = "z" + hs[-1][1]
        else:
            hs[-1][0] = "x-set-cookie"
        e["hdrs"] = hs
        return t


def mut_arg(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "set")
    if e:
        a = e["a"]
        k = rng.choice(["secure", "httponly", "path", "domain", "samesite", "name", "value"])
        e["a"] = {**a, k: not a[k] if k in ("secure", "httponly") else a[k] + "z9"}
        return t


def mut_expiry(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "set" and e["dated"] and (e["a"]["expires"] == "in" or e["a"]["del"]))
    if e:
        e["gap"] += rng.choice([-3600, 60, 3600])
        return t


def mut_sent(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["hdrs"])
    if e:
        e["hdrs"] = e["hdrs"][:-1]
        return t


def run(c: core.Check):
    c.model("MC_Cookies", "MC_Cookies_big.cfg" if c.thorough else None, min_states=1000)
    c.model("MC_Cookies", "MC_Cookies_hist_big.cfg" if c.thorough else "MC_Cookies_hist.cfg", min_states=500)
    texts = [b["text"] for b in c.behaviours("MC_Cookies", "MC_Cookies_gen_big.cfg" if c.thorough else "MC_Cookies_gen.cfg")]
    hists = c.behaviours("MC_Cookies", "MC_Cookies_genhist_big.cfg" if c.thorough else "MC_Cookies_genhist.cfg")
    scns = [{"kind": "texts", "texts": [[x] for x in texts[i : i + 10]], "views": ["request"], "noise": False} for i in range(0, len(texts), 10)]
    scns += [spec_history(h["ops"], c.rng) for h in hists]
    scns += [rnd(c.rng) for _ in range(c.n(1500, 40000))]
    c.validate("Trace_Cookies", list(zip(scns, core.run_pool(execute, scns))), mutators=[mut_cookie, mut_header, mut_arg, mut_expiry, mut_sent])
