"""C27: configurations with prefixes and files over a guarded environment, under histories of lookups and changes."""

from __future__ import annotations

import enum
import functools
import os
import pathlib
import tempfile
import warnings

import core


class Color(enum.Enum):
    RED = "red"
    ONE = "1"


class Obj:
    def __call__(self, v):
        return ("obj", int(v))


def boom(v):
    if v == "x":
        raise TypeError("no")
    return [v]


class Odd(Exception):
    pass


def odd(v):
    if v != "1":
        raise Odd
    return 1


def make_casts():
    from starlette.datastructures import CommaSeparatedStrings, Secret

    return {"int": int, "float": float, "str": str, "enum": Color, "obj": Obj(), "partial": functools.partial(int, base=16), "boom": boom, "odd": odd, "lambda": lambda v: v * 2,
            "csv": lambda v: list(CommaSeparatedStrings(v)), "secret": lambda v: str(Secret(v)), "path": pathlib.Path}  # fmt: skip


DEFAULTS = {"d:5": 5, "d:False": False, "d:True": True, "d:[]": [], "d:0.5": 0.5, "d:0": 0}


def of(v):
    return DEFAULTS[v] if v.startswith("d:") else v


def execute(scn):
    warnings.simplefilter("ignore")
    from starlette.config import Config, Environ, EnvironError

    casts = make_casts()
    cfg = scn["cfg"]
    ev = []
    seed = scn["seed"]
    used = sorted({h["cast"] for h in scn["hist"] if h["t"] == "look" and h["cast"]})
    vals = sorted(set(scn["values"]) | {h["d"] for h in scn["hist"] if h["t"] == "look" and h["dk"] == "val"})
    table = []
    for name in used:
        for v in vals:
            f = bool if name == "bool" else casts[name]
            try:
                r = ("b:" if name == "bool" else "v:") + repr(f(of(v)))
            except (TypeError, ValueError):
                r = "ValueError"
            except Exception as e:
                r = type(e).__name__
            table.append([name, v, r])

    def outcome(f, show):
        try:
            return show(f())
        except EnvironError:
            return "EnvironError"
        except KeyError:
            return "KeyError"
        except ValueError:
            return "ValueError"
        except Exception as e:
            return type(e).__name__

    saved = dict(os.environ)
    with tempfile.TemporaryDirectory() as td:
        try:
            if scn["os"]:
                os.environ.clear()
                under = os.environ
            else:
                under = {}
            under.update({k: v for k, v in cfg["env"]})
            env = Environ() if scn["os"] and seed % 2 else Environ(under)
            confs = []
            for i, c in enumerate(cfg["confs"]):
                p = os.path.join(td, f"env{i}")
                if c["lines"] or seed % 3:
                    nl = ["\n", "\n", "\r\n"][seed % 3]
                    with open(p, "w", newline="") as f:
                        f.write(nl.join(c["lines"]) + (nl if seed % 2 else ""))
                if not c["lines"] and seed % 5 == 0:
                    p = None
                kw = {} if not c["prefix"] and seed % 2 else {"env_prefix": c["prefix"]}
                confs.append(Config(pathlib.Path(p) if p and seed % 4 == 0 else p, environ=env if c["shares"] else under, **kw))
            for n, h in enumerate(scn["hist"]):
                h = dict(h)
                t = h["t"]
                if t == "look":
                    conf = confs[h["conf"] - 1]
                    kw = {}
                    cast = h["cast"]
                    if cast:
                        kw["cast"] = bool if cast == "bool" else casts[cast]
                    if h["dk"] != "none":
                        kw["default"] = None if h["dk"] == "null" else of(h["d"])

                    def show(r, cast=cast):
                        if r is None:
                            return "None"
                        if not cast:
                            return "s:" + r if isinstance(r, str) else "d:" + repr(r)
                        return ("b:" if cast == "bool" else "v:") + repr(r)

                    how = (seed + n) % 3
                    h["got"] = outcome(lambda: conf(h["key"], **kw) if how == 0 else conf.get(h["key"], **kw) if how == 1 or "default" in kw and "cast" not in kw else conf(h["key"], *kw.values()), show)
                elif t == "set":
                    h["got"] = outcome(lambda: env.__setitem__(h["key"], h["val"]) if seed % 2 else env.update({h["key"]: h["val"]}), lambda r: "ok")
                elif t == "del":
                    h["got"] = outcome(lambda: env.__delitem__(h["key"]), lambda r: "ok")
                elif t == "read":
                    f = {"item": lambda: env[h["key"]], "get": lambda: env.get(h["key"]), "in": lambda: h["key"] in env}[h["how"]]
                    h["got"] = outcome(f, lambda r: "s:" + r if isinstance(r, str) else str(r))
                elif t == "behind":
                    if h["gone"]:
                        under.pop(h["key"], None)
                    else:
                        under[h["key"]] = h["val"]
                else:
                    h["got"] = list(env)
                    h["n"] = len(env)
                ev.append(h)
        finally:
            os.environ.clear()
            os.environ.update(saved)
    return {"cfg": {**cfg, "casts": table}, "ev": ev}


KEYS = ["A", "B", "PA", "P_A", "a"]
VALUES = ["", "1", "0", "true", "TRUE", "False", "tRuE", "yes", "x", "10", "1.5", "a,b , c", "red", "ff", "a=b", "#c", " s ", "truE ", "01", "no", "None"]
CASTS = ["", "", "bool", "bool", "bool", "int", "float", "str", "enum", "obj", "partial", "boom", "odd", "lambda", "csv", "secret", "path"]


def line(rng, values):
    k = rng.choice(KEYS)
    v = rng.choice([x.strip() for x in VALUES])
    values.add(v)
    q = rng.choice(["", "", '"', "'"])
    sp = lambda: rng.choice(["", "", " ", "\t", "  "])  # noqa: E731
    r = rng.random()
    if r < 0.1:
        return rng.choice(["", "# comment", "   ", "novalue", "#" + k + "=" + v, "  # " + k + "=1"])
    if q and v != v.strip("\"'"):
        q = ""
    return f"{sp()}{k}{sp()}={sp()}{q}{v}{q}{sp()}"


def look(rng, n):
    dk = rng.choice(["none", "null", "val", "val"])
    d = rng.choice(list(DEFAULTS) + VALUES) if dk == "val" else ""
    return {"t": "look", "conf": rng.randint(1, n), "key": rng.choice(KEYS), "cast": rng.choice(CASTS), "dk": dk, "d": d}


def rnd(rng):
    values = set(VALUES)
    env = [[k, rng.choice(VALUES)] for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))]
    confs = [{"prefix": rng.choice(["", "", "P", "P_", "p"]), "lines": [line(rng, values) for _ in range(rng.choice([0, 0, 2, 5]))], "shares": rng.random() < 0.8} for _ in range(rng.choice([1, 2, 3]))]
    hist = []
    for _ in range(rng.choice([3, 8, 20])):
        r = rng.random()
        k = rng.choice(KEYS)
        if r < 0.5:
            hist.append(look(rng, len(confs)))
        elif r < 0.65:
            hist.append({"t": "set", "key": k, "val": rng.choice(VALUES)})
        elif r < 0.73:
            hist.append({"t": "del", "key": k})
        elif r < 0.87:
            hist.append({"t": "read", "key": k, "how": rng.choice(["item", "get", "in"])})
        elif r < 0.93:
            hist.append({"t": "behind", "key": k, "val": rng.choice(VALUES), "gone": rng.random() < 0.4})
        else:
            hist.append({"t": "keys"})
    return {"cfg": {"env": env, "confs": confs}, "hist": hist, "values": sorted(values), "seed": rng.randrange(1000), "os": rng.random() < 0.3}


def from_model(g, rng):
    return {"cfg": {"env": g["cfg"]["env"], "confs": g["cfg"]["confs"]}, "hist": [*g["hist"], {"t": "keys"}], "values": [], "seed": rng.randrange(1000), "os": rng.random() < 0.2}


def lines_of(gs, rng):
    lines = ["".join(g["q"]) for g in gs]
    keys = ["a", "aa", "", "'", '"', "#", "a#", "aaa", "a a", "'a", "a'", "#a", '"a"']
    hist = [{"t": "look", "conf": 1, "key": k, "cast": "", "dk": "null", "d": ""} for k in keys]
    return {"cfg": {"env": [], "confs": [{"prefix": "", "lines": lines, "shares": True}]}, "hist": hist, "values": [], "seed": rng.randrange(1000) * 6 + 1, "os": False}


def mut_got(t, rng):
    ks = [e for e in t["ev"] if isinstance(e.get("got"), str)]
    if ks:
        e = rng.choice(ks)
        e["got"] = {"EnvironError": "ok", "ok": "EnvironError", "True": "False", "False": "True", "KeyError": "s:z"}.get(e["got"], "KeyError")
        return t


def mut_keys(t, rng):
    ks = [e for e in t["ev"] if e["t"] == "keys" and e["got"]]
    if ks:
        rng.choice(ks)["got"].pop()
        return t


def mut_late(t, rng):
    """a refused change that took place"""
    for i, e in enumerate(t["ev"]):
        if e["t"] == "set" and e["got"] == "EnvironError":
            if any(x["t"] == "read" and x["key"] == e["key"] for x in t["ev"][:i]):
                t["ev"].insert(i + 1, {"t": "read", "key": e["key"], "how": "item", "got": "s:" + e["val"] + "!"})
                return t


def run(c):
    c.model("MC_Config", "MC_Config_big.cfg" if c.thorough else None, min_states=100000)
    c.model("MC_EnvLine", "MC_EnvLine_big.cfg" if c.thorough else None, min_states=50000)
    gs = c.behaviours("MC_Config", "MC_Config_gen.cfg")
    scns = [from_model(g, c.rng) for g in c.rng.sample(gs, c.n(1500, len(gs)))]
    ls = c.behaviours("MC_EnvLine", "MC_EnvLine_gen.cfg")
    scns += [lines_of([g], c.rng) for g in ls]
    scns += [lines_of(c.rng.sample(ls, 4), c.rng) for _ in range(c.n(100, 2000))]
    scns += [rnd(c.rng) for _ in range(c.n(1500, 25000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Config", runs, mutators=[mut_got, mut_keys, mut_late])
