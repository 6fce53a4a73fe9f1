"""D05: daemons start, report and stop as their options say."""
import ctypes
import os
import random
import signal
import socket
import subprocess
import threading
import time

from vlib import build, core, heap, http, proc, search
from vlib.core import Infra, Violation
from vlib.model import *

RULE = ("one evaluation = one start of a daemon with one set of options, "
        "watched until it served and stopped or refused; non-trivial = every "
        "one; distinct by (daemon, options, kind of stop or of mistake)")

H = ('<?xml version="1.0"?><mws:harvest xmlns:mws="u"><mws:expr url="u1">'
     '<apply><plus/><ci>x</ci></apply></mws:expr></mws:harvest>')
Q = ('<mws:query xmlns:mws="u" output="xml"><mws:expr><apply><plus/>'
     '<mws:qvar>a</mws:qvar></apply></mws:expr></mws:query>').encode()
LONG = {"mwsd": {"p": "mws-port", "i": "pid-file", "l": "log-file",
                 "6": "enable-ipv6", "d": "daemonize",
                 "I": "include-harvest-path", "D": "data-path",
                 "x": "experimental-query-engine",
                 "n": "ignore-harvest-data", "r": "recursive",
                 "c": "enable-ci-renaming", "e": "harvest-file-extension",
                 "f": "delete-old-data", "s": "log-index-stats",
                 "v": "verbose"},
        "schemad": {"p": "schema-port", "i": "pid-file", "l": "log-file",
                    "6": "enable-ipv6", "d": "daemonize",
                    "c": "enable-ci-renaming", "v": "verbose"}}
DEFAULT = {"mwsd": 9090, "schemad": 9080}
STOP_TIMEOUT = 60


def have_ipv6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


def spell(rng, prog, opts):
    """opts: list of (letter, value or None) in any order and spelling."""
    opts = list(opts)
    rng.shuffle(opts)
    out = []
    cluster = ""
    for o, v in opts:
        k = rng.randrange(3)
        if v is None and k == 0:
            cluster += o
        elif k == 1:
            n = LONG[prog][o]
            if v is None:
                out.append("--" + n)
            elif rng.random() < .5:
                out.append("--%s=%s" % (n, v))
            else:
                out += ["--" + n, v]
        elif v is None:
            out.append("-" + o)
        elif k == 2 and v:
            out.append("-" + o + v)
        elif cluster and rng.random() < .5:
            out += ["-" + cluster + o, v]
            cluster = ""
        else:
            out += ["-" + o, v]
    if cluster:
        out.insert(0, "-" + cluster)
    return out


def descendant(children, port, timeout=90):
    """The orphaned daemon which now is a child of this process."""
    t0 = time.time()
    while time.time() - t0 < timeout:
        for e in os.listdir("/proc"):
            if not e.isdigit():
                continue
            try:
                st = open("/proc/%s/stat" % e).read()
            except OSError:
                continue
            w = st.rsplit(")", 1)[1].split()
            if int(w[1]) == os.getpid() and int(e) not in children and \
                    w[0] != "Z" and proc.pid_listens(int(e), port):
                return int(e)
        time.sleep(0.02)
    return None


def reap(pid, timeout):
    """Exit status of an adopted child, or None."""
    t0 = time.time()
    while time.time() - t0 < timeout:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p == pid:
            return os.waitstatus_to_exitcode(st)
        time.sleep(0.01)
    return None


def ask(port, v6=False, timeout=60):
    s = socket.create_connection(("::1" if v6 else "127.0.0.1", port),
                                 timeout)
    with s:
        s.sendall(http.build_request("POST", "/", Q).replace(
            b"\r\n\r\n", b"\r\nConnection: close\r\n\r\n", 1))
        out = b""
        while True:
            b = s.recv(65536)
            if not b:
                return out
            out += b


def load(rng, port, v6, stop):
    """Keeps connections in many states until told to stop."""
    idle = []
    raw = http.build_request("POST", "/", Q)
    n = rng.randrange(0, 6)
    try:
        for _ in range(n):
            s = socket.create_connection(("::1" if v6 else "127.0.0.1", port),
                                         20)
            k = rng.randrange(4)
            if k == 1:
                s.sendall(raw[:rng.randrange(1, len(raw))])
            elif k == 2:
                s.sendall(raw)
            elif k == 3:
                s.sendall(raw * 20)
            idle.append(s)
    except OSError:
        pass

    def flood():
        while not stop.is_set():
            try:
                ask(port, v6, 10)
            except OSError:
                return
    ts = [threading.Thread(target=flood) for _ in range(rng.randrange(0, 4))]
    for t in ts:
        t.start()
    return idle, ts


def serve_round(st, arg, scratch):
    prog, bins, seed, default_port, v6ok = arg
    rng = random.Random(seed)
    libc = ctypes.CDLL(None)
    libc.prctl(36, 1, 0, 0, 0)    # adopts daemons
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    open(os.path.join(hd, "a.harvest"), "w").write(H)
    opts = []
    v6 = v6ok and rng.random() < .3
    if v6:
        opts.append(("6", None))
    port = DEFAULT[prog] if default_port else proc.free_port()
    if not default_port:
        opts.append(("p", str(port)))
    if prog == "mwsd":
        k = rng.randrange(4)
        if k in (0, 3):
            opts.append(("I", hd))
        if k == 3 or k == 1:
            opts.append(("D", os.path.join(scratch, "idx")))
        if k == 1:
            search.build_index(bins, scratch, os.path.join(scratch, "idx"),
                               [hd])
        if k == 2:
            search.build_index(bins, scratch, os.path.join(scratch, "idx"),
                               [hd])
            opts += [("D", os.path.join(scratch, "idx")), ("x", None)]
        for o in "nrf":
            if rng.random() < .2:
                opts.append((o, None))
        if rng.random() < .2:
            opts.append(("e", "harvest"))
        if rng.random() < .2:
            opts.append(("s", os.path.join(scratch, "stats")))
    if rng.random() < .2:
        opts.append(("v", None))
    pidf = logf = None
    if rng.random() < .7:
        pidf = os.path.join(scratch, "the.pid")
        if rng.random() < .5:
            open(pidf, "w").write("123456789 old content\n")
        opts.append(("i", pidf))
    if rng.random() < .6:
        logf = os.path.join(scratch, "the.log")
        if rng.random() < .5:
            open(logf, "w").write("OLD LOG\n")
        opts.append(("l", logf))
    detach = rng.random() < .3
    if detach:
        opts.append(("d", None))
    args = spell(rng, prog, opts)
    what = "D05 %s %s" % (prog, " ".join(args))
    files = {"args.txt": what}
    d = proc.Daemon([bins[prog]] + args, scratch, port, wait=False)
    pid = d.p.pid
    try:
        if detach:
            try:
                rc = d.p.wait(90)
            except subprocess.TimeoutExpired:
                raise Violation(what + ": parent of the daemon stays", "",
                                files)
            if rc != 0:
                raise Violation("%s: exit %s\n%s" % (what, rc, d.describe()),
                                "", files)
            pid = descendant([], port)
            if pid is None:
                raise Violation("%s: nothing listens on port %d\n%s" %
                                (what, port, d.describe()), "", files)
        elif not d.wait_up():
            raise Violation("%s: did not start\n%s" % (what, d.describe()),
                            "", files)
        if pidf:
            try:
                got = open(pidf).read()
            except OSError as e:
                got = str(e)
            if got.strip() != str(pid):
                raise Violation("%s: pid file says %r, the daemon is %d" %
                                (what, got, pid), "", files)
        r = ask(port, v6)
        if not r.startswith(b"HTTP/1.1 200"):
            raise Violation("%s: a query is answered by %r" % (what, r[:300]),
                            "", files)
        if v6:
            try:
                if not ask(port, False).startswith(b"HTTP/1.1 200"):
                    pass
            except OSError:
                pass
        if logf and not os.path.getsize(logf):
            raise Violation(what + ": nothing in the log file", "", files)
        if logf:
            text = open(logf, errors="replace").read()
            if "OLD LOG" in text or str(port) not in text:
                raise Violation("%s: unexpected log file:\n%s" %
                                (what, text[:800]), "", files)
            own = d.output()
            if "Listening on" in own:
                raise Violation("%s: output went elsewhere:\n%s" %
                                (what, own[:800]), "", files)
        # and it stops
        sig = rng.choice([signal.SIGTERM, signal.SIGINT])
        stop = threading.Event()
        idle, ts = load(rng, port, v6, stop)
        time.sleep(rng.choice([0, 0, .01, .05, .2]))
        target = rng.choice(["once", "twice"])
        socks = proc.listening_inodes(port)
        os.kill(pid, sig)
        if target == "twice":
            time.sleep(rng.choice([0, .001, .02]))
            try:
                os.kill(pid, sig)
            except OSError:
                pass
        if detach:
            rc = reap(pid, STOP_TIMEOUT)
        else:
            try:
                rc = d.p.wait(STOP_TIMEOUT)
            except subprocess.TimeoutExpired:
                rc = None
        stop.set()
        for s in idle:
            s.close()
        for t in ts:
            t.join()
        if rc != 0:
            raise Violation("%s: after %s sent %s the daemon %s\n%s" %
                            (what, sig.name, target, "goes on" if rc is None
                             else "exited with %s" % rc, d.describe()), "",
                            files)
        if d.report():
            raise Violation("%s: sanitizer report\n%s" % (what, d.describe()),
                            "", files)
        if socks & proc.listening_inodes(port):
            raise Violation(what + ": something still listens", "", files)
        st.case((prog, tuple(sorted(o for o, v in opts)), sig, target),
                sample={"args": args, "stop": sig.name, "to": target})
        st.count("clean stops by " + sig.name)
        if detach:
            st.count("daemonized")
        if default_port:
            st.count("default port")
    finally:
        for p in (pid, d.p.pid):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        d.kill()
        if detach and pid != d.p.pid:
            try:
                os.waitpid(pid, os.WNOHANG)
            except OSError:
                pass


def window_round(st, arg, scratch):
    """A stop signal in a window stretched around the wait for it."""
    prog, bins, so, at, how, sig, seed = arg
    rng = random.Random(seed)
    libc = ctypes.CDLL(None)
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    open(os.path.join(hd, "a.harvest"), "w").write(H)
    mark = os.path.join(scratch, "mark")
    env = dict(os.environ, LD_PRELOAD=so, SIGDELAY_MARK=mark, SIGDELAY_AT=at,
               SIGDELAY_MS="700")
    port = proc.free_port()
    args = [bins[prog], "-p", str(port)]
    if prog == "mwsd":
        args += ["-I", hd]
        if rng.random() < .6:
            args += ["-D", os.path.join(scratch, "idx")]
    what = "D05 %s, %s %s in the window '%s'" % (prog, sig.name, how, at)
    d = proc.Daemon(args, scratch, port, wait=False, env=env)
    try:
        t0 = time.time()
        while not os.path.exists(mark) and d.alive() and \
                time.time() - t0 < 30:
            time.sleep(.002)
        if not d.alive():
            raise Violation(what + ": did not start\n" + d.describe(), "", {})
        hit = os.path.exists(mark)
        if not hit:      # waits in some other way: any moment will do
            if not d.wait_up():
                raise Violation(what + ": did not start\n" + d.describe())
        conns = []
        if how == "to another thread":
            t0 = time.time()
            tids = []
            while time.time() - t0 < .5:
                try:
                    if len(conns) < 3:
                        conns.append(socket.create_connection(
                            ("127.0.0.1", port), 5))
                except OSError:
                    pass
                tids = [int(x) for x in os.listdir("/proc/%d/task" % d.p.pid)
                        if int(x) != d.p.pid]
                if tids and time.time() - t0 > .1:
                    break
                time.sleep(.01)
            if not tids or libc.syscall(234, d.p.pid, rng.choice(tids),
                                        int(sig)) != 0:
                os.kill(d.p.pid, sig)
                st.count("no other thread existed in the window")
        else:
            os.kill(d.p.pid, sig)
        try:
            rc = d.p.wait(25)
        except subprocess.TimeoutExpired:
            rc = None
        for c in conns:
            c.close()
        if rc != 0:
            raise Violation("%s: the daemon %s\n%s" % (
                what, "goes on" if rc is None else "exited with %s" % rc,
                d.describe()), "", {"args.txt": " ".join(args)})
        st.case((prog, at, how, sig), sample=what)
        st.count("windows hit" if hit else "windows not passed")
    finally:
        d.kill()


def mistakes(prog, scratch, hd, idx, rng, busy):
    """(name, options) that must be refused."""
    need = [("I", hd)] if prog == "mwsd" else []
    p = ("p", str(proc.free_port()))
    out = []
    for v in ("0", "-1", "65536", "70000", "x", "", "80abc", "4294975296",
              "1e4", "0x50", "99999999999999999999", "-65000", "80 81",
              "18446744073709551696", ".", "8 0"):
        out.append(("port %r" % v, need + [("p", v)]))
    nodir = os.path.join(scratch, "no", "such", "file")
    for v in (nodir, scratch, "/dev/full", ""):
        out.append(("pid file %r" % v, need + [p, ("i", v)]))
    for v in (nodir, scratch, ""):
        out.append(("log file %r" % v, need + [p, ("l", v)]))
    out.append(("pid file %r with daemonizing parent" % nodir,
                need + [p, ("i", nodir)]))
    out.append(("occupied port", need + [("p", str(busy))]))
    if prog == "mwsd":
        out.append(("neither harvests nor index", [p]))
        out.append(("neither harvests nor index", [p, ("r", None)]))
        empty = os.path.join(scratch, "empty")
        os.makedirs(empty, exist_ok=True)
        for v in (nodir, empty, os.path.join(hd, "a.harvest"), "", hd):
            out.append(("no index in %r" % v, [p, ("D", v)]))
            out.append(("no index in %r" % v, [p, ("D", v), ("x", None)]))
        out.append(("unbuildable index", [p, ("D", nodir), ("I", hd)]))
        out.append(("index of nothing", [
            p, ("D", os.path.join(scratch, "new")), ("I", empty)]))
        out.append(("occupied port, index", [("D", idx), ("p", str(busy))]))
    return out


def refuse_round(st, arg, scratch):
    prog, bins, seed = arg
    rng = random.Random(seed)
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    open(os.path.join(hd, "a.harvest"), "w").write(H)
    idx = os.path.join(scratch, "idx")
    if prog == "mwsd":
        search.build_index(bins, scratch, idx, [hd])
    blk = socket.socket()
    blk.bind(("0.0.0.0", 0))
    blk.listen(1)
    busy = blk.getsockname()[1]
    good = [("p", str(proc.free_port()))]
    if prog == "mwsd":
        good.append(("I", hd))
    raw = []
    for name, opts in mistakes(prog, scratch, hd, idx, rng, busy):
        raw.append((name, spell(rng, prog, opts)))
    g = spell(rng, prog, good)
    for bad in (["-Z"], ["--nosuch"], ["-q"], ["extra"], ["--", "extra"],
                ["--daemonize=yes"], ["-p"], ["--pid-file"], ["-i"], ["-l"],
                ["-z9"], ["--%s-not" % LONG[prog]["p"], "9"], ["-"],
                ["--harvest"] if prog == "schemad" else ["--harvests", hd],
                ["-I", hd] if prog == "schemad" else ["-D"],
                ["-D", hd] if prog == "schemad" else ["-e"]):
        raw.append(("options %s" % bad, g + bad))
    for name, args in raw:
        what = "D05 %s with %s: %s" % (prog, name, " ".join(args))
        files = {"args.txt": what}
        ports = [int(a) for a in "\n".join(args).replace("=", "\n").replace(
            "-p", "\n").split("\n") if a.isdigit() and 0 < int(a) < 65536]
        ports += [DEFAULT[prog], 80]
        d = proc.Daemon([bins[prog]] + args, scratch, 1, wait=False)
        try:
            t0 = time.time()
            while d.alive():
                for p in ports:
                    if p != busy and proc.pid_listens(d.p.pid, p):
                        raise Violation("%s: serves on port %d\n%s" %
                                        (what, p, d.describe()), "", files)
                if time.time() - t0 > 60:
                    raise Violation("%s: neither refused nor serving\n%s" %
                                    (what, d.describe()), "", files)
                time.sleep(.004)
            rc = d.p.returncode
            if d.report() or rc < 0 or rc in proc.SAN_EXIT or rc >= 128:
                raise Violation("%s: crashed\n%s" % (what, d.describe()), "",
                                files)
            if rc == 0:
                raise Violation("%s: exit status 0\n%s" %
                                (what, d.describe()), "", files)
            st.case((prog, name), sample={"refused": args, "exit": rc})
            st.count("refusals")
        finally:
            d.kill()
    blk.close()
    for bad in (["-h"], ["--help"], ["-V"], ["--version"]):
        r = proc.run([bins[prog]] + bad, scratch)
        proc.check_clean(r, "D05 %s %s" % (prog, bad))
        if r.rc != 0 or not r.out:
            raise Violation("D05 %s %s: exit %s, output %r" %
                            (prog, bad, r.rc, r.out))
        st.case((prog, tuple(bad)))


def one(st, item, scratch):
    {"serve": serve_round, "window": window_round,
     "refuse": refuse_round}[item[0]](st, item[1:], scratch)


def body(ck):
    bins = build.build("asan", ["mwsd", "schemad", "mws-index"])
    plain = build.build("plain", ["mwsd", "schemad"])
    so = heap.shim("sigdelay", ck.scratch)
    v6 = have_ipv6()
    items = [("refuse", p, bins, ck.rng.getrandbits(40))
             for p in ("mwsd", "schemad")
             for _ in range(core.pick(1, 4))]
    for p in ("mwsd", "schemad"):
        for at in ("suspend", "mask", "after", "handler"):
            for how in ("to the process", "to another thread"):
                for sig in (signal.SIGTERM, signal.SIGINT):
                    for _ in range(core.pick(1, 6)):
                        items.append(("window", p, plain, so, at, how, sig,
                                      ck.rng.getrandbits(40)))
    for p in ("mwsd", "schemad"):
        for i in range(core.pick(32, 600)):
            free = False
            if i == 0:
                s = socket.socket()
                try:
                    s.bind(("0.0.0.0", DEFAULT[p]))
                    free = True
                except OSError:
                    ck.stats.count("default port was taken")
                s.close()
            items.append(("serve", p, bins, ck.rng.getrandbits(40), free, v6))
    ck.parallel(one, items)


if __name__ == "__main__":
    core.main("D05", body, rule=RULE, assumptions=[
        "signals sent before the daemon listens are not judged",
        "paths are absolute because a daemonized process changes directory",
        "the reaction to SIGSEGV and SIGABRT is not judged"])
