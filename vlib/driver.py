"""A harness program driven over stdin, one request and answer per line."""
import os
import subprocess

from . import core, proc


class Driver:
    def __init__(self, exe, scratch, name, user=None, env=None):
        self.name = name
        self.log = proc.newlog(scratch)
        self.err = open(self.log + "_e", "wb")
        self.calls = []

        def pre():
            if user:
                os.setgroups([])
                os.setgid(user)
                os.setuid(user)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=scratch,
                                  env=env or proc.san_env(self.log),
                                  preexec_fn=pre)

    def report(self):
        return proc.both(proc.san_report(self.log),
                         proc.ub_file(self.log + "_e"))

    def rep(self):
        return {"calls.txt": "\n".join(self.calls[-3000:]) + "\n"}

    def call(self, cmd, *args):
        """Arguments are bytes, text or numbers."""
        bs = [a if isinstance(a, bytes) else str(a).encode() for a in args]
        self.calls.append("%s %s" % (cmd, " ".join(
            repr(b[:300])[1:] for b in bs)))
        line = cmd + "".join(" " + (b.hex() or "-") for b in bs) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except OSError:
            pass
        while True:
            r = self.p.stdout.readline()
            if not r:
                self.p.wait()
                raise core.Violation(
                    "%s: crash in %s\n%s\n%s" %
                    (self.name, self.calls[-1][:1500],
                     self.report()[:6000], self.output()), "",
                    self.rep())
            if r.startswith(b"@ "):
                break
        if self.report():
            raise core.Violation(
                "%s: sanitizer report in %s\n%s" %
                (self.name, self.calls[-1][:1500],
                 self.report()[:6000]), "", self.rep())
        return r[2:].strip().decode()

    def output(self):
        return open(self.log + "_e", errors="replace").read()[-2000:]

    def bad(self, want, got, what=""):
        raise core.Violation(
            "%s: wrong result of %s\n%sexpected: %.1500r\ngot:      %.1500r" %
            (self.name, self.calls[-1][:1500], what + "\n" if what else "",
             want, got), "", self.rep())

    def close(self):
        self.p.stdin.close()
        if self.p.wait(60) != 0 or self.report():
            raise core.Violation("%s: driver ends with %s\n%s\n%s" % (
                self.name, self.p.returncode,
                self.report()[:6000], self.output()), "",
                self.rep())


def un(h):
    return b"" if h == "-" else bytes.fromhex(h)
