"""Shared machinery: running TLC, validating traces recorded from the real code,
collecting verdicts, writing evidence.  Nothing in here knows about a property."""

from __future__ import annotations

import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
CAP = 25  # violations reported at most


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised by the watchdog inside a worker."""


# --------------------------------------------------------------------------- pool


_hangs = None  # scenarios that hung so far, shared by the workers
MAX_HANGS = 24


def _init_worker(hangs=None):
    global _hangs
    _hangs = hangs
    signal.signal(signal.SIGALRM, _alarm)


def _alarm(signum, frame):
    raise Hang()


def _call(args):
    fn, scn, limit = args
    if _hangs is not None and _hangs.value >= MAX_HANGS:
        return {"harness_skipped": True}  # enough is known: see validate()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 0.5)
    try:
        return fn(scn)
    except Hang:
        if _hangs is not None:
            with _hangs.get_lock():
                _hangs.value += 1
        return {"harness_hang": True}
    except BaseException as exc:  # noqa
        if isinstance(exc, (KeyboardInterrupt,)):
            raise
        # an exception the driver did not anticipate: it becomes an event no
        # specification admits, so the trace is rejected rather than lost
        return {"harness_exc": "".join(traceback.format_exception(exc))[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _call_many(batch):
    out = []
    for args in batch:
        try:
            out.append(_call(args))
        except Hang:
            out.append({"harness_hang": True})
    return out


def run_pool(fn, scns, limit=20.0, procs=WORKERS):
    """Run fn(scn) for every scenario in worker processes, in order."""
    scns = list(scns)
    n = max(1, min(200, len(scns) // (procs * 4) or 1))
    batches = [[(fn, s, limit) for s in scns[i : i + n]] for i in range(0, len(scns), n)]
    out = []
    import multiprocessing

    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(procs, mp_context=ctx, initializer=_init_worker, initargs=(ctx.Value("i", 0),)) as ex:
        for res in ex.map(_call_many, batches):
            out.extend(res)
    return out


# --------------------------------------------------------------------------- canonical JSON


def canon(v):
    """Values a TLA+ trace may contain: bool, int, str, list, non-empty dict."""
    if v is None:
        return "None"
    if isinstance(v, str):
        return ascii_only(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        if abs(v) >= 2**31:
            return "big:" + str(v)
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (bytes, bytearray)):
        return ascii_only(bytes(v).decode("latin-1"))
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        if not v:
            return []
        return {ascii_only(str(k)): canon(x) for k, x in v.items()}
    return repr(v)


def ascii_only(s):
    """TLC spools states to disk one byte per character, so strings in traces are ASCII:
    other characters are replaced one by one (a homomorphism for concatenation)."""
    if s.isascii():
        return s
    return "".join(c if ord(c) < 128 else f"\\u{ord(c):04x}" for c in s)


# --------------------------------------------------------------------------- TLC


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.lines = []
        for ln in out.splitlines():
            ln = ln.strip()
            if ln.startswith('"') and ln.endswith('"'):
                self.lines.append(_unescape(ln[1:-1]))
        gen, dis = 0, 0
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            gen, dis = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
        self.generated, self.distinct = gen, dis

    @property
    def ok(self):
        return self.rc == 0 and "Error:" not in self.out


def _unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m[1], m[1]), s)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.model_runs = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.selftest = {"corrupted": 0, "rejected": 0}
        self.extra = {}
        self.assumptions = []
        self.kf = load_known(pid)
        self.distinct_inputs = set()

    # ---- tiers
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- raw TLC
    def tlc(self, module, cfg=None, env=None, workers=WORKERS, timeout=1500, args=()):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.tmp)
        cfg = cfg or module + ".cfg"
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = [
            "java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
            "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-deadlock", "-fp", "1", "-seed", "1", *args, module + ".tla",
        ]  # fmt: skip
        t = time.time()
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
        )
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(p.stdout.decode("utf-8", "replace"), p.returncode, time.time() - t)

    # ---- model checking of the specification itself
    def model(self, module, cfg=None, env=None, min_states=1, args=()):
        r = self.tlc(module, cfg, env, args=args)
        if not r.ok:
            raise MachineryError(f"model {module}/{cfg} failed:\n{r.out[-3000:]}")
        if r.distinct < min_states:
            raise MachineryError(f"model {module} explored only {r.distinct} states (vacuous)")
        self.states += r.distinct
        self.transitions += r.generated
        self.model_runs.append(
            {"module": module, "cfg": cfg or module + ".cfg", "states": r.distinct,
             "generated": r.generated, "wall_s": round(r.wall, 2)}
        )  # fmt: skip
        return r

    # ---- scenarios enumerated by TLC (ndjson written by the module to IOEnv.OUT)
    def generate(self, module, cfg=None, env=None):
        out = os.path.join(self.tmp, f"gen-{module}-{len(self.model_runs)}.ndjson")
        e = {"OUT": out}
        e.update(env or {})
        r = self.tlc(module, cfg, e)
        if not r.ok or not os.path.exists(out):
            raise MachineryError(f"generator {module} failed:\n{r.out[-3000:]}")
        scns = [json.loads(x) for x in open(out, encoding="utf-8") if x.strip()]
        self.model_runs.append({"module": module, "generated_scenarios": len(scns), "wall_s": round(r.wall, 2)})
        return scns

    # behaviours printed by TLC while exploring a state graph: "GEN <json>"
    def behaviours(self, module, cfg=None, env=None):
        r = self.tlc(module, cfg, env)
        if not r.ok:
            raise MachineryError(f"generator {module} failed:\n{r.out[-3000:]}")
        try:
            hs = sorted({ln[4:] for ln in r.lines if ln.startswith("GEN ")})
            gs = [json.loads(h) for h in hs]
        except ValueError:
            # (several workers printing at once can garble a line)
            r = self.tlc(module, cfg, env, workers=1)
            hs = sorted({ln[4:] for ln in r.lines if ln.startswith("GEN ")})
            gs = [json.loads(h) for h in hs]
        self.states += r.distinct
        self.transitions += r.generated
        self.model_runs.append(
            {"module": module, "cfg": cfg or module + ".cfg", "states": r.distinct,
             "generated": r.generated, "behaviours_exported": len(hs), "wall_s": round(r.wall, 2)}
        )  # fmt: skip
        return gs

    # ---- trace validation
    def _tlc_traces(self, module, cfg, traces, env=None, workers=WORKERS):
        path = os.path.join(self.tmp, f"tr-{random.random()}.ndjson")
        with open(path, "w", encoding="utf-8") as f:
            for t in traces:
                f.write(json.dumps(t, ensure_ascii=True) + "\n")
        e = {"TRACES": path}
        e.update(env or {})
        r = self.tlc(module, cfg, e, workers=workers)
        os.unlink(path)
        verdicts = {}
        for ln in r.lines:
            if ln.startswith("VERDICT "):
                tid, pos, rest = ln[8:].split(" ", 2)
                verdicts.setdefault(int(tid) - 1, (int(pos), rest))
        return r, verdicts

    def _validate(self, module, cfg, traces, env=None, depth=0, workers=WORKERS):
        """-> {index: (pos, text)} for rejected traces"""
        if not traces:
            return {}
        r, verdicts = self._tlc_traces(module, cfg, traces, env, workers)
        if not r.ok:
            if len(traces) == 1:
                if os.environ.get("VERIF_DEBUG"):
                    print(r.out[-3000:])
                m = re.search(r"Error: (.{0,1000})", r.out, re.S)
                return {0: (0, "unexplainable-observation " + (m[1] if m else r.out[-300:]).replace("\n", " ")[:400])}
            if depth == 0 and os.environ.get("VERIF_DEBUG"):
                print(r.out[-3000:])
            # a value the specification cannot even evaluate: isolate it
            h = max(1, len(traces) // 8)
            out = {}
            for i in range(0, len(traces), h):
                sub = self._validate(module, cfg, traces[i : i + h], env, depth + 1)
                for k, v in sub.items():
                    out[i + k] = v
                if len(out) >= CAP:
                    break
            return out
        # completeness cross-check: every accepted trace was consumed entirely
        expect = sum(
            (verdicts[i][0] if i in verdicts else len(t["ev"]) + 1) for i, t in enumerate(traces)
        )
        if r.distinct != expect and workers != 1:
            # (several workers printing at once can garble a line)
            return self._validate(module, cfg, traces, env, depth, 1)
        self.states += r.distinct
        self.transitions += r.generated
        if r.distinct != expect:
            raise MachineryError(f"{module}: {r.distinct} distinct states, expected {expect}\n{r.out[-1500:]}")
        return verdicts

    def validate(self, module, runs, cfg=None, env=None, mutators=(), batch=20000, describe=None):
        """runs: list of (scenario, trace).  A trace is {"cfg": {...}, "ev": [...]}."""
        good = []
        todo = []
        for scn, tr in runs:
            if "harness_hang" in tr:
                self.report("hang", scn, tr, 0)
            elif "harness_skipped" in tr:
                # only after MAX_HANGS reported hangs
                self.extra["skipped_after_hangs"] = self.extra.get("skipped_after_hangs", 0) + 1
            elif "harness_exc" in tr:
                self.report("unexpected-failure", scn, tr, 0)
            else:
                todo.append((scn, canon(tr)))
        for i in range(0, len(todo), batch):
            part = todo[i : i + batch]
            trs = []
            for k, (_, t) in enumerate(part):
                trs.append(t)
            verdicts = self._validate(module, cfg, trs, env)
            self.traces += len(part)
            self.events += sum(len(t["ev"]) for t in trs)
            for k, (scn, t) in enumerate(part):
                if k in verdicts:
                    pos, text = verdicts[k]
                    self.report(text, scn, trs[k], pos)
                else:
                    good.append((scn, trs[k]))
        if good and len(self.samples) < 6:
            step = max(1, len(good) // 3)
            for scn, t in good[::step][:3]:
                s = json.dumps(t)
                self.samples.append(t if len(s) < 2500 else s[:2500] + "...")
        # binding self-test: corrupted copies of accepted traces must be rejected
        if good and mutators and not self.violations:
            bad = []
            for m in mutators:
                rng = random.Random(f"{self.pid}-{m.__name__}")
                got = 0
                for scn, t in rng.sample(good, min(len(good), 200)):
                    c = m(json.loads(json.dumps(t)), rng)
                    if c is not None:
                        bad.append((m.__name__, c))
                        got += 1
                        if got >= 5:
                            break
            if bad:
                v = self._validate(module, cfg, [c for _, c in bad], env)
                self.selftest["corrupted"] += len(bad)
                self.selftest["rejected"] += len(v)
                missed = sorted({bad[i][0] for i in range(len(bad)) if i not in v})
                if missed:
                    self.selftest.setdefault("not_rejected", []).extend(missed)
                    print(f"note: self-test: corrupted traces accepted: {missed}")
                    if os.environ.get("VERIF_DEBUG"):
                        print([bad[i] for i in range(len(bad)) if i not in v][:2])
        return good

    # ---- verdicts
    def report(self, clause, scn, trace, pos):
        f = self.kf_match(clause, scn, trace, pos)
        if f is not None:
            self.known.append(f["what"])
            return
        self.violations.append({"clause": clause, "pos": pos, "scenario": scn, "trace": trace})

    def kf_match(self, clause, scn, trace, pos):
        blob = json.dumps({"scn": scn, "trace": trace}, sort_keys=True, default=repr)
        for f in self.kf:
            if f.get("clause") and clause != json.dumps([f["clause"]], separators=(",", ":")):
                continue  # only when this is the one thing wrong with the trace
            if all(frag in blob for frag in f.get("fragments", [])):
                return f
        return None

    # ---- end
    def finish(self):
        rp = None
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, f"{self.pid}-{int(time.time())}-{os.getpid()}.json")
            with open(rp, "w") as f:
                json.dump(
                    {"property": self.pid, "seed": self.seed, "tier": self.tier,
                     "violations": self.violations[:CAP]}, f, indent=1, default=repr,
                )  # fmt: skip
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "trace_events": self.events,
            "samples": self.samples or ["(no accepted trace)"],
            "model_runs": self.model_runs,
            "binding_selftest": self.selftest,
            "known_findings_seen": sorted(set(self.known)),
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }  # fmt: skip
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for w in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.violations:
            for v in self.violations[:5]:
                print(f"# {v['clause'][:300]} (event {v['pos']}) scenario={json.dumps(v['scenario'], default=repr)[:400]}")
                if os.environ.get("VERIF_DEBUG") and "harness_exc" in v["trace"]:
                    print(v["trace"]["harness_exc"][-500:])
                elif os.environ.get("VERIF_DEBUG"):
                    evs = v["trace"].get("ev", [v["trace"]])
                    for k in range(max(0, v["pos"] - 5), min(len(evs), max(v["pos"], 1))):
                        print("#     ", k + 1, json.dumps(evs[k], default=repr)[:1500])
            print(f"# {len(self.violations)} rejected trace(s)")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(
            f"ok {self.pid}: {self.traces} traces / {self.events} events validated, "
            f"{self.states} states, selftest {self.selftest['rejected']}/{self.selftest['corrupted']}, "
            f"{ev['wall_s']} s"
        )
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    data = json.load(open(p))
    return [f for f in data.get("findings", []) if f["property"] == pid]


# --------------------------------------------------------------------------- generic mutators


def drop_event(t, rng):
    if len(t["ev"]) < 2:
        return None
    del t["ev"][rng.randrange(len(t["ev"]) - 1)]
    return t


def main(pid, run):
    sys.dont_write_bytecode = True
    c = Check(pid)
    try:
        run(c)
    except MachineryError as exc:
        print("MACHINERY ERROR:", exc)
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 3
    return c.finish()
