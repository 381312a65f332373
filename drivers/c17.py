"""C17: static file applications over real directory trees in a scratch directory (read only)."""

from __future__ import annotations

import importlib
import os
import shutil
import sys
import tempfile
from urllib.parse import unquote, urlsplit

import asgi
import core
import sched

MTIME = 1_500_000_000


def execute(scn):
    from starlette.applications import Starlette
    from starlette.exceptions import HTTPException
    from starlette.middleware.exceptions import ExceptionMiddleware
    from starlette.routing import Mount
    from starlette.staticfiles import StaticFiles

    ev = []
    files = []
    root = os.path.realpath(tempfile.mkdtemp(prefix="c17-"))
    pkg = "c17pkg_" + os.path.basename(root).replace("-", "_")

    def real(p):
        # the package directory has a name of its own in every run
        return root + ("/" + pkg + p[3:] if p == "/pk" or p.startswith("/pk/") else p)

    def virtual(p):
        p = p[len(root):]
        return "/pk" + p[len(pkg) + 1:] if p.startswith("/" + pkg) else p

    async def main():
        kw = {"html": scn["html"], "follow_symlink": scn["follow"]}
        if scn["dirs"][0] == "/pk/statics":
            kw["packages"] = [(pkg, "statics")] if scn["style"] % 2 else [pkg]
        else:
            d = real(scn["dirs"][0]) + ("/" if scn["style"] % 3 == 0 else "")
            kw["directory"] = os.path.relpath(d) if scn["style"] % 5 == 0 else d
            if len(scn["dirs"]) > 1:
                kw["packages"] = [pkg]
        static = StaticFiles(**kw)
        if scn["mount"]:
            app = Starlette(routes=[Mount(scn["mount"], app=static)])
        elif scn["style"] % 2:
            app = Starlette(routes=[Mount("/", app=static)])
        else:
            app = ExceptionMiddleware(static)
        for g in scn["gets"]:
            headers = []
            stale = g["inm"] == "stale"  # the tag of what the file was before it changed, in place or without changing its size
            if stale:
                for p in files:
                    if g["style"] % 3:
                        os.utime(p, (MTIME, MTIME + [0, -7, 0.25][g["style"] % 3]))
                    else:
                        with open(p, "a") as f:
                            f.write("z")
                        os.utime(p, (MTIME, MTIME))
            try:
                e, _ = await asgi.call(app, asgi.http_scope("HEAD", scn["mount"] + g["path"]))
            except Exception:
                e = []
            etag = asgi.header(e[0], "etag") if e else None
            if stale:
                for p in files:
                    if not g["style"] % 3:
                        os.truncate(p, os.path.getsize(p) - 1)
                    os.utime(p, (MTIME, MTIME))
                g = {**g, "inm": "other"}
                headers.append(("if-none-match", etag or '"zz"'))
            elif g["inm"] != "none":
                tag = etag or '"zz"'
                headers.append(("if-none-match", {"match": [tag, "W/" + tag, f'"1", {tag}', f'{tag},"2"', f'"a",  W/{tag} , "b"'][g["style"] % 5], "star": "*",
                                                  "other": ['"zz"', tag[:-1], tag.strip('"'), '"1", W/"2"', tag.upper()][g["style"] % 5]}[g["inm"]]))  # fmt: skip
            if g["ims"] != "none":
                headers.append(("if-modified-since", {
                    "equal": "Fri, 14 Jul 2017 02:40:00 GMT", "later": ["Fri, 14 Jul 2017 02:40:01 GMT", "Sat, 01 Jan 2028 00:00:00 GMT"][g["style"] % 2],
                    "earlier": ["Fri, 14 Jul 2017 02:39:59 GMT", "Fri, 01 Jan 2010 23:59:59 GMT", "Thu, 29 Dec 2016 23:00:00 GMT"][g["style"] % 3],
                    "garbage": ["x", "", "0", "tomorrow"][g["style"] % 4]}[g["ims"]]))  # fmt: skip
            if g["style"] % 2:
                headers.reverse()
            headers.append(("host", "h.example"))
            scope = asgi.http_scope(g["method"], scn["mount"] + g["path"], g["query"], headers)
            sent, exc = await asgi.call(app, scope)
            st = asgi.start_of(sent) or {"status": 0}
            body = asgi.body_of(sent).decode("utf-8", "replace")
            loc = asgi.header(st, "location")
            u = urlsplit(loc or "")
            ok = not loc or (u.scheme, u.netloc) == ("http", "h.example")
            ev.append({"t": "get", "method": g["method"], "path": g["path"], "query": g["query"], "nul": "\0" in g["path"] or any(0xD800 <= ord(c) < 0xE000 for c in g["path"]) or any(len(x.encode("utf-8", "surrogatepass")) > 255 for x in g["path"].split("/")),
                       "inm": g["inm"], "ims": g["ims"],
                       "exc": type(exc).__name__ if exc else "", "status": st["status"], "body": body, "served": body.startswith("/"),
                       "location": (unquote(u.path) if ok else "elsewhere"), "lquery": u.query, "etag": asgi.header(st, "etag") is not None,
                       "entity": any(asgi.header(st, h) is not None for h in ("content-type", "content-length", "last-modified", "accept-ranges"))})  # fmt: skip

    try:
        for n in sorted(scn["fs"], key=lambda n: n["p"].count("/")):
            p = real(n["p"])
            if n["k"] == "dir":
                os.makedirs(p, exist_ok=True)
            elif n["k"] == "file":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(n["p"])
                files.append(p)
                os.utime(p, (MTIME, MTIME))
            elif n["k"] == "other":
                os.mkfifo(p)
            else:
                os.symlink(real(n["x"]) if n["x"].startswith("/") else n["x"], p)
        open(os.path.join(root, pkg, "__init__.py"), "w").close()
        sys.path.insert(0, root)
        importlib.invalidate_caches()
        sched.run(main, backend=scn["backend"])
    finally:
        if root in sys.path:
            sys.path.remove(root)
        shutil.rmtree(root, ignore_errors=True)
    return {"cfg": {"fs": scn["fs"], "dirs": scn["dirs"], "follow": scn["follow"], "html": scn["html"], "mount": scn["mount"]}, "ev": ev}


PATHS = ["/", "/a", "/dir", "/dir/", "/dir/index.html", "/lo/f", "/lo", "/lo/", "/lf", "/li", "/nope", "/../out/f", "/../d1x/secret", "/../d1/a",
         "/dir/../a", "/loop", "/a/x", "/./a", "//a", "/dir/../../d1/a", "/a/", "/404.html", "/a\0", "/..", "/../", "/dir/..", "/%2e%2e/out/f", "/..\\out\\f",
         "/lo/../a", "/lo/../out/f", "/" + "x" * 300, "/dir/" + "y" * 300, "/../../../../../../etc/hostname", "/.", "/dir//", "/loop/x", "/\ud800"]  # fmt: skip


def get(rng, path):
    inm = rng.choice(["none", "none", "none", "match", "other", "star", "stale"])
    ims = rng.choice(["none", "none", "none", "equal", "later", "earlier", "garbage"])
    return {"method": rng.choice(["GET"] * 8 + ["HEAD", "HEAD", "POST", "DELETE", "OPTIONS"]), "path": path, "inm": inm, "ims": ims, "style": rng.randrange(60),
            "query": rng.choice(["", "", "q=1", "a=%20b&c"])}  # fmt: skip


def from_model(b, rng):
    gets = [get(rng, p) for p in rng.sample(PATHS, 10)]
    return {**b, "gets": gets, "style": rng.randrange(60), "backend": rng.choice(["asyncio", "trio"]), "mount": rng.choice(["", "/m", "/m", "/s/t"])}


def odd(fs, link):
    """A link that loops, or that goes up from something that is not a directory."""
    at = {n["p"]: n for n in fs}
    done, rest, fuel = [], link["p"].split("/")[1:], 40
    while rest:
        s, rest = rest[0], rest[1:]
        if s in ("", "."):
            continue
        if s == "..":
            if done and at.get("/" + "/".join(done), {"k": "none"})["k"] != "dir":
                return True
            done = done[:-1]
            continue
        n = at.get("/" + "/".join(done + [s]))
        if n and n["k"] == "link":
            fuel -= 1
            if fuel == 0:
                return True
            done, rest = ([] if n["x"].startswith("/") else done), n["x"].split("/") + rest
        else:
            done = done + [s]
    return False


def rnd(rng):
    names = ["a", "b", "dir", "index.html", "404.html", "d1", "x y", "caf\u00e9", "..."]
    fs = [{"p": p, "k": "dir", "x": ""} for p in ("/d1", "/d1x", "/out", "/pk", "/pk/statics")]
    have = {n["p"]: n["k"] for n in fs}
    for _ in range(rng.randrange(3, 14)):
        parent = rng.choice([p for p, k in have.items() if k == "dir" and p not in ("/pk",)])
        p = parent + "/" + rng.choice(names)
        if p in have:
            continue
        k = rng.choice(["file", "file", "file", "dir", "dir", "link", "link", "other"])
        x = ""
        if k == "link":
            pool = [q for q in have if q != "/pk"] + ["/nowhere", p]
            x = rng.choice(pool)
            if rng.random() < 0.5 and not x.startswith("/pk"):
                if p.startswith("/pk"):
                    x = rng.choice(["a", "../../out", "dir/../b", "b/..", ".."])
                else:
                    x = rng.choice([os.path.relpath(x, parent), rng.choice(names), "../" + rng.choice(names), "dir/../b"])
        have[p] = k
        fs.append({"p": p, "k": k, "x": x})
    if rng.random() < 0.3 and "/real" not in have:
        # the served directory is itself a link
        fs.append({"p": "/dl", "k": "link", "x": "/d1"})
        dirs = ["/dl"]
    else:
        dirs = rng.choice([["/d1"], ["/d1"], ["/pk/statics"]])
    if dirs[0] != "/pk/statics" and rng.random() < 0.4:
        dirs = dirs + ["/pk/statics"]
        if rng.random() < 0.5:
            # what is a file in one of the directories is a directory in the other
            name = rng.choice(names)
            one, two = rng.sample(["/d1", "/pk/statics"], 2)
            new = [(f"{one}/{name}", "file"), (f"{two}/{name}", "dir")] + [(f"{two}/{name}/{x}", "file") for x in rng.sample(names, 3)]
            if not any(q == p or q.startswith(p + "/") for q in have for p, _ in new[:2]):
                for p, k in new:
                    have[p] = k
                    fs.append({"p": p, "k": k, "x": ""})
    while any(n["k"] == "link" and odd(fs, n) for n in fs):
        # what such a link names differs between systems: leave it out (the model's trees hold a plain loop)
        bad = next(n for n in reversed(fs) if n["k"] == "link" and odd(fs, n))
        fs.remove(bad)
    have = {n["p"]: n["k"] for n in fs}
    gets = []
    for _ in range(8):
        base = {"/d1": "/d1", "/dl": "/d1"}.get(rng.choice(dirs), "/pk/statics")
        k = rng.random()
        if k < 0.5:
            inside = [p[len(base):] for p in have if p.startswith(base + "/")] or ["/a"]
            p = rng.choice(inside) + rng.choice(["", "", "", "/", "/a", "/..", "/../a", "/index.html", "/."])
        elif k < 0.7:
            p = "/.." + rng.choice([q for q in have if "pk" not in q])
        elif k < 0.85:
            p = "/" + "/".join(rng.choice(names + ["..", ".", ""]) for _ in range(rng.randrange(1, 5)))
        else:
            p = rng.choice(PATHS)
        if p == "/\ud800" or "pk" in p:
            p = "/a"
        gets.append(get(rng, p))
    return {"fs": fs, "dirs": dirs, "follow": rng.random() < 0.4, "html": rng.random() < 0.5, "gets": gets, "style": rng.randrange(60),
            "backend": rng.choice(["asyncio", "trio"]), "mount": rng.choice(["", "/m", "/s/t"])}  # fmt: skip


def mut_escape(t, rng):
    for e in t["ev"]:
        if e["status"] == 404 and e["method"] == "GET":
            e.update(status=200, body="/out/f", served=True)
            return t


def mut_stale(t, rng):
    for e in t["ev"]:
        if e["status"] == 200 and e["inm"] == "other" or e["status"] == 200 and e["ims"] == "earlier" and e["inm"] == "none":
            e.update(status=304, body="", entity=False)
            return t


def mut_wrong_file(t, rng):
    for e in t["ev"]:
        if e["status"] == 200 and e["body"]:
            e["body"] += "x"
            return t


def mut_entity(t, rng):
    for e in t["ev"]:
        if e["status"] == 304:
            e["entity"] = True
            return t


def mut_redirect(t, rng):
    for e in t["ev"]:
        if e["status"] == 307:
            e["location"] = e["location"].rstrip("/")
            return t


def run(c):
    c.model("MC_StaticTree", min_states=100000)
    gen = c.behaviours("MC_StaticTree", "MC_StaticTree_gen.cfg")
    cap = c.n(2000, 6144)
    gen = c.rng.sample(gen, min(cap, len(gen)))
    scns = [from_model(b, c.rng) for b in gen]
    scns += [rnd(c.rng) for _ in range(c.n(2500, 30000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_StaticTree", runs, mutators=[mut_escape, mut_stale, mut_wrong_file, mut_entity, mut_redirect])
