"""I06: an existing index is only replaced when explicitly requested."""
import os
import random
import shutil
import subprocess
import time

from vlib import build, core, http, memsector, proc, search
from vlib.model import *

RULE = ("one evaluation = one step (build, serve, serve-or-build, forced "
        "rebuild, damage, repair, attempts while a daemon serves, concurrent "
        "builds) of a random history over one index location, its exit "
        "status and afterwards the answers compared with a state model; "
        "non-trivial = the location held (parts of) an index or two programs "
        "competed; distinct by state, step and the history before")


class Set:
    """A directory of harvests of which options select parts."""

    def __init__(self, rng, d, name):
        self.rng = rng
        self.d = os.path.join(d, name)
        self.name = name
        self.version = 0
        self.write()

    def write(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        rng = self.rng
        self.version += 1
        g = Gen(rng, maxdepth=2)
        tag = "%s%d" % (self.name, self.version)
        self.files = []
        for rel in ("a.harvest", "sub/b.harvest", "c.alt", "sub/d.alt"):
            if rng.random() < .2:
                continue
            f = g.file(rel, rng.choice([0, 1, 2, 3, 3]))
            for i, it in enumerate(f.items):
                if isinstance(it, Expr):
                    it.url = "%s-%s" % (tag, it.url)
            if rng.random() < .5:
                f.items.append(Expr([T("apply", "", [
                    T("plus"), T("ci", tag)])], "%s-own" % tag))
            self.files.append(f)
        self.texts = search.write_files(self.d, self.files, Style(rng, "m"))

    def selected(self, opts):
        """(reference index, search terms) of what the options select."""
        ix = Index()
        ext = opts["e"] or ".harvest"
        for f in self.files:
            if not f.name.endswith(ext) or ("/" in f.name and not opts["r"]):
                continue
            ix.add_file(f)
        return ix


class Expected:
    """What a valid index answers."""

    def __init__(self, name, sets, opts):
        self.name = name
        self.answers = []
        refs = [s.selected(opts) for s in sets]
        self.exprs = [e for r in refs for e in r.exprs]
        self.refs = refs
        self.empty = not self.exprs

    def search(self, q):
        return [h for r in self.refs for h in r.search(q)]


def rand_opts(rng):
    return {"r": rng.random() < .5, "e": rng.choice([None, None, ".alt"])}


def opt_args(o):
    return (["-r"] if o["r"] else []) + (["-e", o["e"]] if o["e"] else [])


class History:
    def __init__(self, st, rng, scratch, seed):
        self.st = st
        self.rng = rng
        self.d = scratch
        self.loc = os.path.join(scratch, "loc", "index")
        os.makedirs(os.path.dirname(self.loc))
        os.symlink("index", os.path.join(scratch, "loc", "link"))
        self.sets = [Set(rng, scratch, "s%d" % i) for i in range(3)]
        self.state = "absent"
        self.cur = None          # Expected of a valid / damaged index
        self.stash = []          # [(name, where)]
        self.log = []
        self.seen = []           # terms ever stored
        self.seed = seed

    # --- plumbing
    def rep(self):
        r = {"history.txt": "\n".join(self.log) + "\n"}
        for s in self.sets:
            for k, v in s.texts.items():
                r["%s/%s" % (s.name, k)] = v
        return r

    def what(self, s):
        return "I06 history of %d steps: %s" % (len(self.log), s)

    def path(self):
        """Some spelling of the location."""
        return self.rng.choice([self.loc, self.loc, self.loc + "/",
                                self.loc + "//", "loc/index", "./loc/index/",
                                os.path.dirname(self.loc) + "/../loc/index"] +
                               ([os.path.join(self.d, "loc", "link")] if
                                os.path.isdir(self.loc) else []))

    def fail(self, msg):
        raise core.Violation(self.what(msg), "", self.rep())

    def questions(self, exp):
        rng = self.rng
        qs = [QVar("")]
        for pool in (exp.exprs if exp else [], self.seen):
            if pool:
                qs.append(rng.choice(pool)[2].clone())
                qs.append(Gen(rng, maxdepth=2).generalise(
                    rng.choice(pool)[2]))
        return qs

    def ask(self, dm, exp, what):
        """The daemon answers exactly from exp."""
        a = search.Asker(dm, self.what(what), self.rep())
        for q in self.questions(exp):
            want = exp.search(q)
            x = a.xml(q)
            search.compare(want, x.answers, x.total, self.what(what), a.ctx(
                x.query))
        a.close()
        self.st.count("answer sets compared", 1)

    def start(self, args, expect_up, what):
        """A daemon; expect_up None = either."""
        dm = search.start(BINS, self.d, args, self.what(what), self.rep(),
                          expect_up=False)
        if not dm.up:
            if dm.report() or dm.p.returncode != 1:
                self.fail("%s: daemon crashed\n%s" % (what, dm.describe()))
            if expect_up:
                self.fail("%s: daemon did not start\n%s" % (what,
                                                            dm.describe()))
        elif expect_up is False:
            try:
                self.fail("%s: daemon serves although it should refuse\n%s" %
                          (what, dm.describe()))
            finally:
                dm.kill()
        return dm

    def served(self, args, expect_up, exp, what):
        dm = self.start(args, expect_up, what)
        try:
            if dm.up:
                self.ask(dm, exp, what)
                dm.check_healthy(self.what(what), self.rep())
                dm.finish(self.what(what), self.rep())
            return dm.up
        finally:
            dm.kill()

    def engine(self):
        return ["-x"] if self.rng.random() < .3 else []

    def verify(self):
        """The location is what the model says."""
        if self.state == "valid":
            self.served(["-D", self.path()] + self.engine(), True, self.cur,
                        "serving the index")
        elif self.state in ("absent", "broken", "rubble"):
            self.served(["-D", self.path()] + self.engine(), False, None,
                        "no usable index")

    def choose(self):
        n = self.rng.choice([1, 1, 1, 2])
        ss = self.rng.sample(self.sets, n)
        o = rand_opts(self.rng)
        exp = Expected("+".join("%s v%d" % (s.name, s.version) for s in ss),
                       ss, o)
        self.seen.extend(exp.exprs[:3])
        args = []
        for s in ss:
            args += ["-I", s.d]
        return exp, args + opt_args(o)

    def holds(self, exp):
        self.state, self.cur, self.stash = "valid", exp, []

    # --- steps
    def build(self):
        exp, args = self.choose()
        self.log.append("build %s %s" % (exp.name, args))
        r = proc.run([BINS["mws-index"], "-o", self.path()] + args, self.d,
                     cwd=self.d)
        w = self.what("building")
        proc.check_clean(r, w, self.rep())
        self.after_build(r.rc == 0, exp, r.describe())

    def after_build(self, ok, exp, text):
        if ok and exp.empty:
            self.fail("a build without expressions reports success\n" + text)
        if self.state == "absent":
            if not ok and not exp.empty:
                self.fail("building into an unused location fails\n" + text)
            if ok:
                self.holds(exp)
            else:
                self.state = "rubble"
        elif self.state in ("valid", "broken"):
            if ok:
                self.fail("a build over an existing index reports success\n" +
                          text)
        elif ok:
            self.holds(exp)

    def serve(self):
        self.log.append("serve")
        self.verify()

    def serve_or_build(self, force=False):
        exp, args = self.choose()
        if force:
            args = args + ["-f"]
        self.log.append("serve%s from %s %s" % (" forced" if force else "",
                                                exp.name, args))
        a = ["-D", self.path()] + args + self.engine()
        if self.state == "valid":
            self.served(a, True, self.cur, "valid index, harvests given")
            return
        if self.state == "absent" or force:
            up = self.served(a, not exp.empty, exp,
                             "no valid index, harvests given")
            if up:
                self.holds(exp)
            else:
                self.state, self.cur, self.stash = "rubble", None, []
            return
        if self.state == "broken":
            self.served(a, False, None, "damaged index, no force")
            return
        dm_up = self.served(a, None if not exp.empty else False, exp,
                            "remains, harvests given")
        if dm_up:
            self.holds(exp)

    def forced(self):
        self.serve_or_build(True)

    def pieces(self):
        ms, dic = memsector.find_files(self.loc)
        dbs = [os.path.join(self.loc, x) for x in sorted(os.listdir(self.loc))
               if os.path.isdir(os.path.join(self.loc, x))]
        return ms, dic, dbs

    def damage(self):
        if self.state != "valid":
            return self.build()
        ms, dic, dbs = self.pieces()
        ps = self.rng.sample([ms, dic] + dbs, self.rng.choice([1, 1, 2]))
        how = self.rng.choice(["remove", "remove", "damage"])
        self.log.append("%s %s" % (how, ps))
        for p in ps:
            to = os.path.join(self.d, "stash%d" % len(os.listdir(self.d)))
            if how == "remove" or p == dic:
                os.rename(p, to)
            elif p == ms:
                shutil.copy(p, to)
                os.truncate(p, os.path.getsize(p) // 2)
            else:
                shutil.copytree(p, to)
                os.unlink(os.path.join(p, "CURRENT"))
            self.stash.append((p, to))
        self.state = "broken"

    def repair(self):
        if self.state != "broken":
            return self.serve_or_build()
        self.log.append("put the pieces back")
        for p, to in self.stash:
            shutil.rmtree(p, ignore_errors=True)
            if os.path.exists(p):
                os.unlink(p)
            os.rename(to, p)
        self.stash = []
        self.state = "valid"

    def rewrite(self):
        s = self.rng.choice(self.sets)
        s.write()
        self.log.append("harvests %s change to version %d" % (s.name,
                                                              s.version))

    def move(self):
        """The whole index is moved or copied."""
        if self.state != "valid":
            return self.forced()
        self.log.append("index moved away and back, as a copy")
        t = os.path.join(self.d, "loc", "other")
        shutil.copytree(self.loc, t)
        shutil.rmtree(self.loc)
        os.rename(t, self.loc)

    def busy(self):
        """Others try to use the location of a serving daemon."""
        if self.state != "valid":
            return self.forced()
        self.log.append("a daemon serves the index")
        dm = self.start(["-D", self.path()] + self.engine(), True, "serving")
        try:
            for _ in range(self.rng.randint(1, 3)):
                exp, args = self.choose()
                k = self.rng.randrange(3)
                if k == 0:
                    self.log.append("meanwhile: build %s" % args)
                    r = proc.run([BINS["mws-index"], "-o", self.path()] + args,
                                 self.d, cwd=self.d)
                    proc.check_clean(r, self.what("meanwhile"), self.rep())
                    self.after_build(r.rc == 0, exp, r.describe())
                else:
                    # either it refuses or it serves the same
                    self.log.append("meanwhile: second daemon %s" %
                                    (args if k == 1 else []))
                    self.served(["-D", self.path()] +
                                (args if k == 1 else []), None, self.cur,
                                "second daemon")
                self.ask(dm, self.cur, "daemon serving while others try")
            dm.check_healthy(self.what("serving"), self.rep())
            dm.finish(self.what("serving"), self.rep())
        finally:
            dm.kill()

    def race(self):
        """Several builds at once into one location."""
        n = self.rng.randint(2, 4)
        ch = [self.choose() for _ in range(n)]
        self.log.append("%d concurrent builds: %s" % (
            n, [e.name for e, _ in ch]))
        ps = []
        for e, args in ch:
            log = proc.newlog(self.d)
            o = open(log + "_o", "wb")
            ps.append((e, subprocess.Popen(
                [BINS["mws-index"], "-o", self.loc] + args,
                stdin=subprocess.DEVNULL, stdout=o, stderr=o, cwd=self.d,
                env=proc.san_env(log)), log, o))
            if self.rng.random() < .6:
                time.sleep(self.rng.random() * .05)
        won = []
        for e, p, log, o in ps:
            rc = p.wait(100)
            o.close()
            rp = proc.both(proc.san_report(log), proc.ub_file(log + "_o"))
            if rp or rc not in (0, 1):
                self.fail("concurrent build crashed (%s)\n%s" % (rc, rp))
            if rc == 0:
                won.append(e)
        if self.state in ("valid", "broken"):
            if won:
                self.fail("a concurrent build over an existing index reports "
                          "success")
            return
        if len(won) > 1:
            self.fail("%d of %d concurrent builds into one location report "
                      "success" % (len(won), n))
        if won:
            if won[0].empty:
                self.fail("a build without expressions reports success")
            self.st.count("concurrent builds won by one")
            self.holds(won[0])
        else:
            self.st.count("concurrent builds won by none")
            self.state = "rubble"

    def clear(self):
        self.log.append("location cleared")
        shutil.rmtree(self.loc, ignore_errors=True)
        if self.rng.random() < .5:
            os.makedirs(self.loc)
        self.state, self.cur, self.stash = "absent", None, []


STEPS = (["build"] * 5 + ["serve_or_build"] * 5 + ["forced"] * 5 +
         ["damage"] * 6 + ["repair"] * 3 + ["rewrite"] * 2 + ["move"] +
         ["busy"] * 2 + ["race"] * 2 + ["clear"] * 4 + ["serve"])


def job(st, item, scratch):
    seed, n = item
    rng = random.Random("i06-%s" % seed)
    h = History(st, rng, scratch, seed)
    for i in range(n):
        step = rng.choice(STEPS)
        before = h.state
        getattr(h, step)()
        st.case((seed, i, step, before), before not in ("absent",) or
                step == "race", {"state": before, "step": h.log[-1][:200],
                                 "state after": h.state})
        st.count("%s: %s -> %s" % (step, before, h.state))
        h.verify()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(96, 400)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), core.pick(25, 60))
                      for i in range(n)])


if __name__ == "__main__":
    core.main("I06", body, rule=RULE, assumptions=[
        "the locations are not changed by anything but the steps",
        "an interrupted or empty build may leave parts behind; whether a "
        "build over those succeeds is left open"])
