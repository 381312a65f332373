"""C25: header collections, query parameters, form data and multi-dicts under histories of operations."""

from __future__ import annotations

import copy
import io
from urllib.parse import quote, quote_plus

import core

MD = ("imm", "md", "qp", "form")
KEYS = ["a", "b", "A", "k y", ""]
VALUES = ["1", "2", "", "x y", "é"]
HKEYS = ["a", "A", "b", "B", "x-y", "X-Y"]
HVALUES = ["1", "2", "", "x, y", "caf\xe9"]


def pairs_of(ps):
    return [tuple(p) for p in ps]


def execute(scn):
    from starlette.datastructures import FormData, Headers, ImmutableMultiDict, MultiDict, MutableHeaders, QueryParams, UploadFile

    ev = []
    objs = []  # (class, object, raw list getter)
    files = {}

    def val(v):
        """'i5' is the number 5, 'f3' a file; everything else is a string."""
        if scn["typed"] and v[:1] == "i":
            return int(v[1:])
        if scn["typed"] and v[:1] == "f":
            return files.setdefault(v, UploadFile(io.BytesIO(), filename=v))
        return v

    def back(v):
        if isinstance(v, (list, tuple)):
            return [back(x) for x in v]
        if isinstance(v, UploadFile):
            return next((k for k, x in files.items() if x is v), "other file")
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        return f"i{v}"

    def raw(ps):
        return [(k.encode("latin-1"), v.encode("latin-1")) for k, v in ps]

    def unraw(ps):
        return [[k.decode("latin-1"), v.decode("latin-1")] for k, v in ps]

    def look(c, o, get):
        if c in MD:
            ps = [[back(k), back(v)] for k, v in o.multi_items()]
            return {"l": ps, "n": len(o), "ks": [back(k) for k in o], "vs": [back(v) for v in o.values()], "is": [[back(k), back(v)] for k, v in o.items()],
                    "raw": ps if agrees(o) else [[back(k), back(v)] for k in o for v in o.getlist(k)]}  # fmt: skip
        return {"l": unraw(o.raw), "n": len(o), "ks": list(o), "vs": list(o.values()), "is": [list(p) for p in o.items()], "raw": unraw(get())}

    def agrees(o):
        # getlist() agrees with the pairs for every key (then the pairs themselves are reported)
        return all([v for k2, v in o.multi_items() if k2 == k] == o.getlist(k) and k in o and o[k] == o.getlist(k)[-1] and o.get(k) == o[k] for k in o.keys())

    def made(ps, how, src):
        if how == "obj":
            return objs[src - 1][1]
        vs = [(k, val(v)) for k, v in ps]
        return dict(vs) if how == "dict" else vs

    CLS = {"imm": ImmutableMultiDict, "md": MultiDict, "qp": QueryParams, "form": FormData}

    def new(e):
        c, how = e["c"], e["how"]
        if e["share"]:
            # another view of the same list of headers
            lst = objs[e["share"] - 1][2]()
            o = (MutableHeaders if c == "mh" else Headers)(raw=lst)
            return c, o, objs[e["share"] - 1][2]
        if c in MD:
            kw = {k: val(v) for k, v in e["kw"]}
            cls = CLS[c]
            if how == "none":
                o = cls(**kw)
            elif how == "obj" and e["style"] % 3 == 0 and not kw and objs[e["from"] - 1][0] == c:
                o = copy.deepcopy(objs[e["from"] - 1][1], {id(f): f for f in files.values()})
            else:
                src = made(e["ps"], how, e["from"])
                if how == "list" and e["style"] % 4 == 1:
                    o = cls((p for p in src), **kw)
                elif how == "list" and e["style"] % 4 == 2:
                    o = cls(tuple(src), **kw)
                else:
                    o = cls(src, **kw)
                if isinstance(src, list):
                    src.append(("zz", "zz"))  # the caller's list is its own
                elif isinstance(src, dict):
                    src["zz"] = "zz"
            return c, o, None
        cls = MutableHeaders if c == "mh" else Headers
        if how == "none":
            o = cls()
            return c, o, lambda: o.raw
        if how == "dict":
            src = dict(pairs_of(e["ps"]))
            o = cls(src) if e["style"] % 2 else cls(headers=src)
            src["zz"] = "zz"
            return c, o, lambda: o.raw
        if how == "obj":
            b = objs[e["from"] - 1][1]
            o = b.mutablecopy() if c == "mh" else Headers(raw=list(b.raw)) if e["style"] % 2 else copy.deepcopy(Headers(raw=b.raw))
            return c, o, lambda: o.raw
        lst = raw(e["ps"])
        if e["style"] % 2:
            scope = {"headers": tuple(lst) if e["style"] % 4 == 1 else lst}
            o = cls(scope=scope)
            return c, o, lambda: scope["headers"]
        o = cls(raw=lst)
        return c, o, lambda: lst

    def act(e):
        c, o, _ = objs[e["i"] - 1]
        op, k, v = e["op"], e["k"], e["v"]
        tv = val(v) if c in MD else v
        if op == "set":
            o[k] = tv
        elif op == "del":
            del o[k]
        elif op == "pop":
            return o.pop(k, tv)
        elif op == "popitem":
            rk, rv = o.popitem()
            e["rk"] = back(rk)
            return rv
        elif op == "poplist":
            r = o.poplist(k)
            got = list(r)
            r.append("zz")
            return got
        elif op == "clear":
            return o.clear()
        elif op == "setdefault":
            return o.setdefault(k, tv)
        elif op == "setlist":
            vs = [val(x) for x in e["vs"]]
            r = o.setlist(k, vs)
            vs.append("zz")
            return r
        elif op == "append":
            return o.append(k, tv)
        elif op == "update":
            src = made(e["ps"], e["how"], e["from"])
            if c in MD:
                return o.update(src, **{k: val(x) for k, x in e["kw"]}) if src or not e["kw"] else o.update(**{k: val(x) for k, x in e["kw"]})
            return o.update(src)
        elif op == "ior":
            o2 = o
            o2 |= made(e["ps"], e["how"], e["from"])
            return None if o2 is o else "another object"
        elif op == "or":
            r = o | made(e["ps"], e["how"], e["from"])
            objs.append(("mh", r, lambda: r.raw))
        elif op == "notamap":
            bad = [[("a", "1")], "a", 1, None][e["style"] % 4]
            if e["style"] % 2:
                o | bad
            else:
                o |= bad
        elif op == "vary":
            return o.add_vary_header(v)
        elif op == "getitem":
            return o[k]
        elif op == "get":
            return o.get(k, tv)
        elif op == "getlist":
            r = o.getlist(k)
            got = list(r)
            r.append("zz")
            return got
        elif op == "in":
            return k in o
        elif op == "eq":
            other = objs[e["from"] - 1][1]
            r = o == other
            assert (o != other) is (not r)
            return r
        elif op == "forbid":
            n = e["style"] % 5
            if n == 0:
                o[k] = tv
            elif n == 1:
                del o[k]
            else:
                {2: lambda: o.append(k, tv), 3: lambda: o.update({k: tv}), 4: lambda: o.pop(k)}[n]()
        elif op == "poke":
            # lists and mappings the object handed out belong to the caller
            if c in MD:
                o.multi_items().append(("zz", "zz"))
                list(o.items()).clear()
                d = dict(o)
                d["zz"] = "zz"
            else:
                o.keys().append("zz")
                o.values().clear()
                o.items().append(("zz", "zz"))
                if c == "h":
                    o.raw.append((b"zz", b"zz"))
                    m = o.mutablecopy()
                    m["zz"] = "zz"
                    m.raw.clear()
        else:
            raise AssertionError(op)

    for e in scn["ops"]:
        e = dict(e)
        exc, r = "", None
        try:
            if e["t"] == "new":
                objs.append(new(e))
            elif e["t"] == "op":
                r = act(e)
            elif e["t"] == "qparse":
                q = bytes(e["q"])
                src = q if e["bytes"] else q.decode()
                got = QueryParams(src)
                e["got"] = [[list(k.encode()), list(v.encode())] for k, v in got.multi_items()]
            elif e["t"] == "qenc":
                ps = [(bytes(k).decode(), bytes(v).decode()) for k, v in e["ps"]]
                e["q"] = list(str(QueryParams(ps)).encode())
        except Exception as x:
            exc = type(x).__name__
        e["exc"] = exc
        if e["t"] == "op":
            e.setdefault("rk", "")
            e["r"] = back(r)
        if e["t"] in ("new", "op"):
            e["obs"] = [look(*o) for o in objs]
        else:
            e.setdefault("got", [])
            e.setdefault("q", [])
        e.pop("style", None)
        ev.append(e)
    return {"cfg": {"x": 0}, "ev": ev}


def op(i, op, k="a", v="9", vs=(), ps=(), how="", src=0, kw=(), style=0):
    return {"t": "op", "i": i, "op": op, "k": k, "v": v, "vs": list(vs), "ps": [list(p) for p in ps], "how": how, "from": src, "kw": [list(p) for p in kw], "style": style}


def newobj(c, how, ps=(), src=0, kw=(), share=0, style=0):
    return {"t": "new", "c": c, "how": how, "ps": [list(p) for p in ps], "from": src, "kw": [list(p) for p in kw], "share": share, "style": style}


def from_model(b, rng):
    ops = [newobj(b["c"], "raw" if b["c"] == "mh" else "list", b["init"], style=rng.randrange(12))]
    for o in b["ops"]:
        ops.append(op(1, o["op"], o["k"], o["v"], o["vs"], o["ps"], o["how"], style=rng.randrange(12)))
    n = rng.random()
    if n < 0.5:
        ops.append(op(1, rng.choice(["get", "getlist", "getitem", "in"]), rng.choice(["a", "b"] + (["A"] if b["c"] == "mh" else [])), "7"))
    return {"ops": ops, "typed": False}


def rnd(rng):
    headers = rng.random() < 0.45
    typed = not headers and rng.random() < 0.35
    K = HKEYS if headers else KEYS
    V = HVALUES if headers else (["i1", "i2", "f1", "f2", "s", ""] if typed else VALUES)

    def ps(n=5):
        return [[rng.choice(K), rng.choice(V)] for _ in range(rng.randrange(n))]

    def kws():
        return [] if rng.random() < 0.7 else [[k, rng.choice(V)] for k in rng.sample(["a", "b", "c"], rng.randrange(1, 3))]

    ops, cls = [], []

    def create():
        st = rng.randrange(12)
        if headers:
            c = rng.choice(["h", "mh", "mh"])
            n = rng.random()
            views = [j + 1 for j, x in enumerate(cls) if x == "mh"]
            if cls and n < 0.3:
                o = newobj(c, "obj", src=rng.randrange(len(cls)) + 1, style=st)
            elif views and n < 0.45:
                o = newobj(c, "raw", share=rng.choice(views), style=st)
            else:
                how = rng.choice(["raw", "raw", "dict", "none"])
                p = ps(6)
                if how == "raw":
                    p = [[k.lower(), v] for k, v in p]
                o = newobj(c, how, p if how != "none" else [], style=st)
        else:
            c = rng.choice(["imm", "md", "md", "form"] + ([] if typed else ["qp"]))
            src = rng.randrange(len(cls)) + 1 if cls else 0
            how = rng.choice(["list", "list", "dict", "none"] + (["obj"] * 3 if cls else []))
            kw = kws()
            o = newobj(c, how, ps(6) if how in ("list", "dict") else [], src=src if how == "obj" else 0, kw=kw, style=st)
        ops.append(o)
        cls.append(c)

    create()
    for _ in range(rng.randrange(3, 12)):
        if len(cls) < 4 and rng.random() < 0.2:
            create()
            continue
        i = rng.randrange(len(cls)) + 1
        c = cls[i - 1]
        k, v, st = rng.choice(K), rng.choice(V), rng.randrange(12)
        n = rng.random()
        if n < 0.25:
            ops.append(op(i, rng.choice(["get", "getlist", "getitem", "in"]), k, v, style=st))
        elif n < 0.38:
            mates = [j + 1 for j, x in enumerate(cls) if x == c or {x, c} <= {"h", "mh"}]
            ops.append(op(i, "eq", src=rng.choice(mates), style=st))
        elif n < 0.45:
            ops.append(op(i, "poke", style=st))
        elif c in ("imm", "qp", "form", "h"):
            ops.append(op(i, "forbid", k, v, style=st))
        elif c == "md":
            o = rng.choice(["set", "del", "pop", "popitem", "poplist", "clear", "setdefault", "setlist", "append", "append", "update", "update"])
            how = rng.choice(["list", "dict", "obj"])
            ops.append(op(i, o, k, v, [rng.choice(V) for _ in range(rng.randrange(3))], ps(4) if how != "obj" else [], how if o == "update" else "",
                          rng.randrange(len(cls)) + 1 if how == "obj" and o == "update" else 0, kws() if o == "update" else [], st))  # fmt: skip
        else:
            o = rng.choice(["set", "set", "del", "setdefault", "append", "append", "update", "ior", "or", "vary", "notamap"])
            if o == "or" and len(cls) >= 5:
                o = "ior"
            how = rng.choice(["dict", "obj"])
            ops.append(op(i, o, "vary" if o == "vary" else k, v, (), ps(4) if how != "obj" else [], how if o in ("update", "ior", "or") else "",
                          rng.randrange(len(cls)) + 1 if how == "obj" and o in ("update", "ior", "or") else 0, (), st))  # fmt: skip
            if o == "or":
                cls.append("mh")
            if o == "set" and rng.random() < 0.3:
                ops.append(op(i, "append", "Vary", rng.choice(["a", "b"])))
                ops.append(op(i, "vary", "vary", "c"))
    return {"ops": ops, "typed": typed}


TEXT = ["a", "b c", "a+b", "a&b", "a=b", "%41", "é", "日本", "\U0001f600", "", "~._-*", "/?:@!$'()", "\0", "\x7f", "100%", "#", ";", "a;b=1", '"<>', "\n", "\u00a0"]


def rnd_query(rng):
    ops = []
    for _ in range(6):
        ps = [["".join(rng.choice(TEXT) for _ in range(rng.randrange(3))), "".join(rng.choice(TEXT) for _ in range(rng.randrange(3)))] for _ in range(rng.randrange(5))]
        if rng.random() < 0.5:
            ops.append({"t": "qenc", "ps": [[list(k.encode()), list(v.encode())] for k, v in ps]})
            continue
        def enc(t):
            n = rng.randrange(4)
            if n == 0:
                return quote(t, safe="")
            if n == 1:
                return quote_plus(t)
            if n == 2:
                return "".join("%%%02x" % b for b in t.encode())
            return quote(t, safe="/?:@!$'()*,;")
        raw = "".join(rng.choice(["", "", "", "&", "&&"]) + enc(k) + (rng.choice(["=", "=", "=", "", "=="]) if v == "" else rng.choice(["=", "=", "=", "=="])) + enc(v) + "&" for k, v in ps)
        if rng.random() < 0.7:
            raw = raw.rstrip("&")
        if rng.random() < 0.3:
            raw += rng.choice(["%", "%2", "%zz", "%%41", "&a=%", "&%", "&=", "&=a", "a=1;b=2", "&+", "&a=1#x"])
        ops.append({"t": "qparse", "q": list(raw.encode()), "bytes": rng.random() < 0.5})
    return {"ops": ops, "typed": False}


def mut_answer(t, rng):
    for e in t["ev"]:
        if e["t"] == "op" and e["op"] in ("get", "getitem", "pop") and e["exc"] == "":
            e["r"] = "another value"
            return t


def mut_lost_pair(t, rng):
    for e in reversed(t["ev"]):
        for o in e.get("obs", []):
            if len(o["l"]) > 1:
                o["l"].pop()
                return t


def mut_raw(t, rng):
    for e in t["ev"]:
        for o in e.get("obs", []):
            if o["raw"]:
                o["raw"] = o["raw"][1:]
                return t


def mut_len(t, rng):
    for e in t["ev"]:
        for o in e.get("obs", []):
            o["n"] += 1
            return t


def mut_order(t, rng):
    for e in t["ev"]:
        for o in e.get("obs", []):
            if len(o["l"]) > 1 and o["l"][0] != o["l"][-1]:
                o["l"].reverse()
                return t


def mut_eq(t, rng):
    for e in t["ev"]:
        if e["t"] == "op" and e["op"] == "eq":
            e["r"] = not e["r"]
            return t


def mut_query(t, rng):
    for e in t["ev"]:
        if e["t"] == "qparse" and e["got"]:
            e["got"].pop()
            return t
        if e["t"] == "qenc" and e["ps"]:
            e["q"].append(43)
            return t


def run(c):
    if c.thorough:
        c.model("MC_MultiMap", min_states=1000000)
    gen = c.behaviours("MC_MultiMap", "MC_MultiMap_gen.cfg")
    gen = c.rng.sample(gen, min(len(gen), c.n(4000, 130000)))
    scns = [from_model(b, c.rng) for b in gen] + [rnd(c.rng) for _ in range(c.n(5000, 60000))] + [rnd_query(c.rng) for _ in range(c.n(1000, 15000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_MultiMap", runs, mutators=[mut_answer, mut_lost_pair, mut_raw, mut_len, mut_order, mut_eq, mut_query])
