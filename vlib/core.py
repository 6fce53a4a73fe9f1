"""Check lifecycle: cases, coverage counters, violations, known findings."""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class Violation(Exception):
    """The property is broken: an observed execution contradicts it.

    key identifies the failing input/call site/history class for the known
    findings file; files is {name: bytes|str} that reproduces it."""

    def __init__(self, msg, key="", files=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.files = files or {}

    def __reduce__(self):
        return (Violation, (self.msg, self.key, self.files))


class Infra(Exception):
    """The machinery could not observe (port taken, tool missing...)."""


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.counters = {}
        self.maxima = {}
        self.known = {}

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"),
                                digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if sample is not None and len(self.samples) < 4:
                    self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.seen |= o.seen
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in o.counters.items():
            self.count(k, v)
        for k, v in o.maxima.items():
            self.maximum(k, v)
        self.known.update(o.known)


def load_known():
    """known_findings.txt lines:
       finding: property=<id> key=<key> <text>
       fixed: property=<id> <commit> <text>       (suppresses nothing)"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            parts = line[len("finding: "):].split(" ", 2)
            pid = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(pid, key)] = parts[2] if len(parts) > 2 else ""
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = assumptions or []
        self.stats = Stats()
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.seed = SEED
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.chmod(self.scratch, 0o755)
        self.known = load_known()
        self.violations = []
        self.retried = 0

    # --- running -----------------------------------------------------------
    def parallel(self, fn, items, workers=None, deadline=None):
        """fn(stats, item, scratch) in worker processes. A worker that
        raises anything but Violation is re-run once alone; a second failure
        is an error of the check. Stops at the first unlisted violation."""
        items = list(items)
        workers = min(workers or JOBS, max(1, len(items)))
        retry = []
        ctx = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(workers, ctx) as ex:
            futs = {}
            for i, it in enumerate(items):
                futs[ex.submit(_worker, fn, it, self.scratch, i)] = it
            for f in concurrent.futures.as_completed(futs):
                if f.cancelled():
                    continue
                try:
                    st, vio, err = f.result()
                except concurrent.futures.CancelledError:
                    continue
                except concurrent.futures.process.BrokenProcessPool as e:
                    retry.append((futs[f], "worker died: %s" % e))
                    continue
                self.stats.merge(st)
                if vio is not None:
                    self._record(vio)
                    if self.violations:
                        for g in futs:
                            g.cancel()
                elif err is not None:
                    retry.append((futs[f], err))
        if self.violations:
            return
        for j, (it, err) in enumerate(retry):
            sys.stderr.write("[verif] re-running after: %s\n" % err)
            self.retried += 1
            st, vio, err2 = _worker(fn, it, self.scratch, 10000 + j)
            self.stats.merge(st)
            if vio is not None:
                self._record(vio)
                if self.violations:
                    return
            elif err2 is not None:
                raise Infra(err2)

    def _record(self, vio):
        k = (self.pid, vio.key)
        if vio.key and k in self.known:
            self.stats.known[vio.key] = vio.msg
            return
        self.violations.append(vio)

    def known_or_raise(self, vio):
        """For checks that probe a listed finding and want to go on."""
        self._record(vio)
        if self.violations:
            raise vio

    # --- reporting ---------------------------------------------------------
    def evidence(self):
        cov = {
            "evaluations": self.stats.evaluations,
            "distinct_nontrivial": len(self.stats.seen),
            "rule": self.rule,
            "samples": self.stats.samples[:6] or ["(none)"],
            "observed": dict(sorted(self.stats.counters.items())),
        }
        if self.stats.maxima:
            cov["maxima"] = dict(sorted(self.stats.maxima.items()))
        if self.retried:
            cov["retried_items"] = self.retried
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(d, "%s.json" % self.pid))

    def write_replay(self, vio, idx):
        d = os.path.join(VERIF, "build", "replay", "%s-%d-%d" %
                         (self.pid, SEED, idx))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "what.txt"), "w", errors="replace") as f:
            f.write("property: %s\nseed: %d\ntier: %s\nkey: %s\n\n%s\n" %
                    (self.pid, SEED, TIER, vio.key, vio.msg))
        for name, data in vio.files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(data, str):
                data = data.encode("utf-8", "surrogateescape")
            with open(p, "wb") as f:
                f.write(data)
        return d

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        self.cleanup()
        self.evidence()
        for k, what in sorted(self.stats.known.items()):
            print("KNOWN-FINDING: property=%s %s" %
                  (self.pid, self.known.get((self.pid, k), what)))
        if self.violations:
            for i, v in enumerate(self.violations[:3]):
                p = self.write_replay(v, i)
                sys.stderr.write("[verif] %s: %s\n" % (self.pid, v.msg[:4000]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.stdout.flush()
            return 1
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" %
              (self.pid, self.stats.evaluations, len(self.stats.seen),
               time.time() - self.t0))
        return 0


def _worker(fn, item, scratch, idx):
    st = Stats()
    d = os.path.join(scratch, "w%d" % idx)
    os.makedirs(d, exist_ok=True)
    vio = err = None
    try:
        fn(st, item, d)
    except Violation as v:
        vio = v
    except BaseException:
        err = traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return st, vio, err


def main(pid, body, level="exploration", rule="", assumptions=None):
    """body(check) runs the exploration."""
    from . import build
    ck = Check(pid, level, rule, assumptions)
    try:
        try:
            body(ck)
        except Violation as v:
            ck._record(v)
        rc = ck.finish()
    except (Infra, build.BuildError) as e:
        sys.stderr.write("[verif] %s: machinery error: %s\n" % (pid, e))
        ck.cleanup()
        rc = 2
    except BaseException:
        traceback.print_exc()
        ck.cleanup()
        rc = 2
    sys.exit(rc)
