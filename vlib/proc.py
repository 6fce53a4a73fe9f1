"""Runs the instrumented programs and collects what their monitors report."""
import glob
import os
import random
import re
import signal
import socket
import subprocess
import time

from .core import Infra, Violation

START_TIMEOUT = 90
IO_TIMEOUT = 90


def san_env(logbase, leaks=False, extra=None, fill=True):
    asan = ["log_path=%s" % logbase, "detect_leaks=%d" % (1 if leaks else 0),
            "handle_segv=2", "handle_abort=2", "handle_sigbus=2",
            "handle_sigfpe=2", "handle_sigill=2", "abort_on_error=0",
            "exitcode=97", "strict_string_checks=0",
            "detect_stack_use_after_return=1", "check_initialization_order=1",
            "detect_odr_violation=0", "allocator_may_return_null=1",
            "new_delete_type_mismatch=1", "symbolize=1"]
    if fill:
        asan.append("max_malloc_fill_size=65536")
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env["ASAN_OPTIONS"] = ":".join(asan)
    env["UBSAN_OPTIONS"] = ("log_path=%s:print_stacktrace=1:halt_on_error=0:"
                            "symbolize=1" % logbase)
    env["LSAN_OPTIONS"] = "log_path=%s:exitcode=96:max_leaks=20" % logbase
    env["TSAN_OPTIONS"] = ("log_path=%s:exitcode=95:halt_on_error=0:"
                           "ignore_noninstrumented_modules=1:"
                           "report_signal_unsafe=0:history_size=4" % logbase)
    env["LC_ALL"] = "C"
    if extra:
        env.update(extra)
    return env


def san_report(logbase):
    out = []
    for p in sorted(glob.glob(glob.escape(logbase) + ".*")):
        try:
            out.append(open(p, errors="replace").read())
        except OSError:
            pass
    return "\n".join(out).strip()


# gcc's UBSan writes to stderr whatever log_path says
UB_LINE = re.compile(
    r"[^\s:]+:\d+:\d+: runtime error: [^\n]*(?:\n {4}#\d+ [^\n]*){0,12}")


def ub_report(text):
    """The undefined-behaviour reports in what a program wrote to stderr."""
    if isinstance(text, bytes):
        if b": runtime error: " not in text:
            return ""
        text = text.decode("utf-8", "replace")
    elif ": runtime error: " not in text:
        return ""
    return "\n".join(UB_LINE.findall(text)[:20])


def ub_file(path):
    try:
        return ub_report(open(path, "rb").read())
    except OSError:
        return ""


def both(a, b):
    return "\n".join(x for x in (a, b) if x)


SAN_EXIT = {97: "AddressSanitizer", 96: "LeakSanitizer",
            95: "ThreadSanitizer"}


class Result:
    def __init__(self, rc, out, err, report, timed_out, wall):
        self.rc = rc
        self.out = out
        self.err = err
        self.report = both(report, ub_report(err))
        self.timed_out = timed_out
        self.wall = wall

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 or self.rc in SAN_EXIT or
                                        self.rc in (134, 136, 139))

    def describe(self):
        return "exit=%s timed_out=%s\nstderr:\n%s\nsanitizer:\n%s" % (
            self.rc, self.timed_out,
            self.err[-3000:].decode("utf-8", "replace"), self.report[:6000])


_n = [0]


def newlog(d):
    _n[0] += 1
    return os.path.join(d, "san-%d-%d" % (os.getpid(), _n[0]))


def run(args, scratch, timeout=120, leaks=False, env=None, cwd=None,
        preexec=None, stdin=None, user_env=None):
    log = newlog(scratch)
    e = env or san_env(log, leaks, user_env)
    t0 = time.time()
    p = subprocess.Popen(args, stdin=subprocess.PIPE if stdin is not None
                         else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, cwd=cwd or scratch,
                         preexec_fn=preexec, start_new_session=True)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return Result(p.returncode, out, err, san_report(log), to,
                  time.time() - t0)


def check_clean(res, what, files=None, key=""):
    """No sanitizer report, no crash, no hang."""
    if res.timed_out:
        raise Violation("%s did not terminate\n%s" % (what, res.describe()),
                        key, files)
    if res.report or res.crashed:
        raise Violation("%s: memory/undefined-behaviour report or crash\n%s" %
                        (what, res.describe()), key, files)


_RESERVED = []


def free_port():
    """A port nobody listens on, from a range below the ephemeral ports so
    that client sockets do not take it in between. An abstract socket of the
    same number keeps the other workers from choosing it as well."""
    rng = random.Random(os.urandom(8))
    for _ in range(400):
        p = rng.randrange(12000, 31000)
        mine = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            mine.bind("\0verif-port-%d" % p)
        except OSError:
            mine.close()
            continue
        _RESERVED.append(mine)
        while len(_RESERVED) > 60:
            _RESERVED.pop(0).close()
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            s.bind(("0.0.0.0", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Infra("no free port")


def listening_inodes(port, uid=None):
    """Inodes of the sockets listening on port (owned by uid)."""
    want = "%04X" % port
    out = set()
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            for line in open(f).read().splitlines()[1:]:
                w = line.split()
                if w[3] == "0A" and w[1].rsplit(":", 1)[1] == want and \
                        (uid is None or int(w[7]) == uid):
                    out.add(w[9])
        except OSError:
            pass
    return out


def pid_listens(pid, port):
    ino = listening_inodes(port)
    if not ino:
        return False
    try:
        for fd in os.listdir("/proc/%d/fd" % pid):
            try:
                t = os.readlink("/proc/%d/fd/%s" % (pid, fd))
            except PermissionError:
                raise
            except OSError:
                continue
            if t.startswith("socket:[") and t[8:-1] in ino:
                return True
    except PermissionError:
        # another user's process, which we may not look into
        try:
            uid = [int(x.split()[2]) for x in open("/proc/%d/status" % pid)
                   if x.startswith("Uid:")][0]
        except (OSError, IndexError):
            return False
        return uid != os.getuid() and bool(listening_inodes(port, uid))
    except OSError:
        pass
    return False


class Daemon:
    """A daemon process under its monitors."""

    def __init__(self, args, scratch, port, leaks=False, env=None,
                 wait=True, timeout=START_TIMEOUT, user_env=None, cwd=None,
                 preexec=None):
        self.args = args
        self.port = port
        self.log = newlog(scratch)
        self.outpath = self.log + "_out"
        self.outf = open(self.outpath, "wb")
        self.seen = 0
        self.ub = ""
        e = env or san_env(self.log, leaks, user_env)
        self.p = subprocess.Popen(args, stdin=subprocess.DEVNULL,
                                  stdout=self.outf, stderr=subprocess.STDOUT,
                                  env=e, cwd=cwd or scratch,
                                  preexec_fn=preexec, start_new_session=True)
        self.up = False
        if wait:
            self.up = self.wait_up(timeout)

    def wait_up(self, timeout=START_TIMEOUT):
        """True when it listens, False when it exited first."""
        t0 = time.time()
        delay = 0.004
        while time.time() - t0 < timeout:
            if self.p.poll() is not None:
                return False
            if pid_listens(self.p.pid, self.port):
                return True
            time.sleep(delay)
            delay = min(delay * 1.5, 0.1)
        self.kill()
        raise Infra("daemon neither listens nor exits after %ds: %s\n%s" %
                    (timeout, self.args, self.output()[-2000:]))

    def alive(self):
        return self.p.poll() is None

    def output(self):
        try:
            return open(self.outpath, errors="replace").read()
        except OSError:
            return ""

    def report(self):
        """What the sanitizers have reported so far. The output is read
        only as far as it has grown since the last call."""
        try:
            with open(self.outpath, "rb") as f:
                # a report may be incomplete at the last position
                f.seek(max(0, self.seen - 4096))
                new = f.read()
                self.seen = f.tell()
            ub = ub_report(new)
            if ub and len(self.ub) < 20000:
                self.ub = both(self.ub, ub)
        except OSError:
            pass
        return both(san_report(self.log), self.ub)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.outf.close()

    def stop(self, sig=signal.SIGTERM, timeout=60):
        """Returns exit status, or None when it had to be killed."""
        if self.p.poll() is None:
            self.p.send_signal(sig)
            try:
                self.p.wait(timeout)
            except subprocess.TimeoutExpired:
                self.kill()
                return None
        self.outf.close()
        return self.p.returncode

    def describe(self):
        return "args=%s exit=%s\noutput tail:\n%s\nsanitizer:\n%s" % (
            self.args, self.p.poll(), self.output()[-2500:],
            self.report()[:6000])

    def check_healthy(self, what, files=None, key=""):
        if not self.alive():
            raise Violation("%s: daemon died\n%s" % (what, self.describe()),
                            key, files)
        if self.report():
            raise Violation("%s: sanitizer report\n%s" %
                            (what, self.describe()), key, files)

    def finish(self, what, files=None, expect=0, key=""):
        """Stops it; any report, or a wrong exit status, is a violation."""
        rc = self.stop()
        rep = self.report()
        if rep:
            raise Violation("%s: sanitizer report\n%s" %
                            (what, self.describe()), key, files)
        if rc is None:
            raise Violation("%s: daemon did not stop on SIGTERM\n%s" %
                            (what, self.describe()), key, files)
        if rc != expect:
            raise Violation("%s: daemon exited with %s after SIGTERM\n%s" %
                            (what, rc, self.describe()), key, files)
