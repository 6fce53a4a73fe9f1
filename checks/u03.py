"""U03: shared text, path and option helpers."""
import json
import os
import posixpath
import random
import re
import shutil
import socket
import subprocess

from vlib import build, core, proc

RULE = ("one evaluation = one call of a helper (JSON escaping, suffix test, "
        "space removal, byte count, boolean, formatting, file reading, "
        "directory creation and traversal, file mapping, path building, "
        "option parsing) compared with a reference; non-trivial = the input "
        "is not empty; distinct by helper and input")

WS = b" \t\n\v\f\r"


class Driver:
    def __init__(self, scratch, user=None):
        self.log = proc.newlog(scratch)
        self.err = open(self.log + "_e", "wb")

        def pre():
            if user:
                os.setgroups([])
                os.setgid(user)
                os.setuid(user)
        self.p = subprocess.Popen([DRIVER], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=scratch, env=proc.san_env(self.log),
                                  preexec_fn=pre)

    def report(self):
        return proc.both(proc.san_report(self.log),
                         proc.ub_file(self.log + "_e"))

    def call(self, cmd, *args):
        line = cmd + "".join(" " + (a.hex() or "-") for a in args) + "\n"
        rep = {"call.txt": "%s %s\n" % (cmd, [a[:2000] for a in args])}
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except OSError:
            pass
        while True:
            r = self.p.stdout.readline()
            if not r:
                self.p.wait()
                raise core.Violation(
                    "U03 %s: the helper crashed\narguments: %.1500r\n%s\n%s" %
                    (cmd, args, self.report(),
                     open(self.log + "_e", errors="replace").read()[-2000:]),
                    "", rep)
            if r.startswith(b"@ "):
                break
        if self.report():
            raise core.Violation("U03 %s: sanitizer report\narguments: %.1500r"
                                 "\n%s" % (cmd, args,
                                           self.report()), "",
                                 rep)
        return r[2:].strip().decode()

    def close(self, what="U03"):
        self.p.stdin.close()
        if self.p.wait(60) != 0 or self.report():
            raise core.Violation("%s: driver ends with %s\n%s" % (
                what, self.p.returncode, self.report()))


def un(h):
    return b"" if h == "-" else bytes.fromhex(h)


def bad(cmd, args, want, got):
    raise core.Violation(
        "U03 %s: wrong result\narguments: %.1500r\nexpected: %.1500r\n"
        "got:      %.1500r" % (cmd, args, want, got), "",
        {"call.txt": "%s %r\n" % (cmd, args)})


PIECES = [b"a", b"b", b" ", b"  ", b"\t", b"\n", b"\r\n", b"\\", b'"', b"/",
          b"\0", b"\x01", b"\x08", b"\x0b", b"\x0c", b"\x1f", b"\x7f",
          "\u00e9".encode(), "\u2028".encode(), "\U0001d400".encode(),
          b"\x80", b"\xff", b"\xc3", b"%s", b"%n", b"\\u0041", b"</script>",
          "\u00a0".encode(), b".harvest", b"word", b"\x1b[0m"]


def rand_bytes(rng, long_=True):
    k = rng.randrange(10)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
    if k == 1 and long_:
        return rng.choice(PIECES) * rng.choice([255, 256, 1000, 4096, 70000])
    return b"".join(rng.choice(PIECES) for _ in range(rng.randrange(12)))


# --- text ------------------------------------------------------------------
def t_json(d, rng, st):
    s = rand_bytes(rng)
    out = un(d.call("json", s))
    try:
        want, enc = s.decode(), "utf-8"
    except UnicodeDecodeError:
        want, enc = s.decode("latin-1"), "latin-1"
    try:
        got = json.loads('"' + out.decode(enc) + '"')
    except (ValueError, UnicodeDecodeError) as e:
        bad("json", s, "a JSON string (%s)" % e, out)
    if got != want:
        bad("json", s, want, out)
    return s


def t_suffix(d, rng, st):
    s = rand_bytes(rng)
    k = rng.randrange(5)
    if k == 0:
        t = rand_bytes(rng)
    elif k == 1:
        t = rng.choice(PIECES) + s
    else:
        t = s[rng.randrange(len(s) + 1):]
        if k == 2 and t:
            i = rng.randrange(len(t))
            t = t[:i] + bytes([t[i] ^ rng.choice([1, 32, 128])]) + t[i + 1:]
    got = d.call("suffix", s, t)
    if got != str(int(s.endswith(t))):
        bad("suffix", (s, t), s.endswith(t), got)
    return s + b"|" + t


def t_spaces(d, rng, st):
    s = rand_bytes(rng)
    want = b" ".join(s.translate(bytes.maketrans(WS, b" " * 6)).split(b" "))
    want = b" ".join(x for x in want.split(b" ") if x)
    got = un(d.call("spaces", s))
    if got != want:
        bad("spaces", s, want, got)
    return s


def t_bytes(d, rng, st):
    b = rng.choice([1000, 1024])
    k = rng.randrange(4)
    if k == 0:
        n = b ** rng.randint(0, 6) * rng.randint(1, b) + rng.randint(-2, 2)
    elif k == 1:
        n = rng.getrandbits(rng.randint(1, 64))
    elif k == 2:
        n = rng.choice([2 ** 64 - 1, 2 ** 63, 2 ** 53, 0, 1, 999, 1000, 1001,
                        1023, 1024, 1025, 999949, 999950, 10 ** 18])
    else:
        n = rng.randrange(3000)
    n = max(0, min(n, 2 ** 64 - 1))
    got = un(d.call("bytes", str(n).encode(), b"si" if b == 1000 else b"bin"))
    want = "the size, rounded, with the largest fitting unit"
    try:
        v, u = got.decode().split(" ")
        units = ["B"] + (["kB", "MB", "GB", "TB", "PB", "EB"] if b == 1000
                         else ["KiB", "MiB", "GiB", "TiB", "PiB", "EiB"])
        e = units.index(u)
        if e == 0:
            ok = v == str(n) and n < b
        else:
            whole, _, dec = v.partition(".")
            t = int(whole + dec)              # tenths
            # |v - n/b^e| <= 0.05 and a bit, in integers
            ok = len(dec) == 1 and whole == str(int(whole)) and \
                abs(t * b ** e - 10 * n) * 1000 <= 501 * b ** e and \
                (t >= 10 and t < 10 * b or
                 t == 10 * b and n < b ** (e + 1))
    except ValueError:
        ok = False
    if not ok:
        bad("bytes", (n, b), want, got)
    return b"%d %d" % (n, b)


def t_bool(d, rng, st):
    s = rng.choice([b"yes", b"no", b"1", b"0", b"true", b"", b"on", b"ye",
                    b"yess", b"00", b"01", b" yes", b"no ", b"yes\0",
                    b"\0yes", b"n\xc3\xb3", b"y\xff", b"\xff", b"-1", b"2",
                    rand_bytes(rng)])
    if rng.random() < .5:
        s = bytes(c ^ 32 if chr(c).isalpha() and c < 128 and
                  rng.random() < .5 else c for c in s)
    low = bytes(c | 32 if 65 <= c <= 90 else c for c in s)
    want = {b"yes": "yes", b"1": "yes", b"no": "no", b"0": "no"}.get(
        low, "default")
    got = d.call("bool", s)
    if got != want:
        bad("bool", s, want, got)
    return s


def t_format(d, rng, st):
    s, t = rand_bytes(rng).split(b"\0")[0], rand_bytes(rng).split(b"\0")[0]
    n = rng.randint(-10 ** 6, 10 ** 6)
    want = b"%s|%d|%d.000|%s" % (s, n, n, t)
    got = un(d.call("format", s, b"%d" % n, t))
    if got != want:
        bad("format", (s, n, t), want, got)
    return want


# --- paths -----------------------------------------------------------------
MAX = 4095


def t_path(d, rng, st):
    cur, ops = b"", []
    args = [rng.choice([b"rel", b"abs"])]
    for i in range(rng.randint(1, 6)):
        if rng.random() < .3:
            p = bytes([rng.choice(b"abc/")]) * rng.choice(
                [1, 2, 2047, 2048, 4000, 4093, 4094, 4095, 4096, 4097, 9000])
        else:
            p = rng.choice([b"a", b"a/b", b"dir/", b"/", b"", b"/abs/olute",
                            b"x" * rng.randrange(60), b".", b"..",
                            "\u00e9".encode(), b"sp ace"])
        p = p.split(b"\0")[0]
        if rng.random() < .4 or i == 0 and rng.random() < .5:
            args += [b"s", p]
            cur = p[:MAX]
        else:
            args += [b"a", p]
            if cur and not cur.endswith(b"/") and len(cur) < MAX:
                cur += b"/"
            cur = (cur + p[:MAX])[:MAX]
    got = un(d.call("path", *args))
    if got != cur:
        bad("path", args, cur, got)
    return b"|".join(args)


# --- options ---------------------------------------------------------------
def ref_getopt(argv, flags, minp):
    """flags: {char: (long, required, arg)}; returns None when refused,
    "exit" for help or version, else (values, params)."""
    flags = dict(flags)
    for c, l in (("h", "help"), ("v", "verbose"), ("V", "version")):
        flags[c] = (l, False, "N")
    vals, seen = {}, set()
    i = 1

    def record(c, v):
        seen.add(c)
        if flags[c][2] == "N":
            vals.setdefault(c, [])
        elif v is not None:
            vals.setdefault(c, []).append(v)
    while i < len(argv):
        a = argv[i]
        if a == b"--":
            i += 1
            break
        if not a.startswith(b"-") or a == b"-":
            break
        i += 1
        if a.startswith(b"--"):
            name, eq, val = a[2:].partition(b"=")
            c = [k for k, f in flags.items() if f[0].encode() == name]
            if not c:
                c = [k for k, f in flags.items()
                     if f[0].encode().startswith(name)]
            if len(c) != 1:
                return None
            c = c[0]
            if flags[c][2] == "N":
                if eq:
                    return None
                val = None
            elif not eq:
                val = None
                if flags[c][2] == "R":
                    if i >= len(argv):
                        return None
                    val = argv[i]
                    i += 1
            record(c, val)
            if c in "hV":
                return "exit"
            continue
        rest = a[1:].decode("latin-1")
        while rest:
            c, rest = rest[0], rest[1:]
            if c not in flags:
                return None
            kind = flags[c][2]
            if kind == "N":
                record(c, None)
                if c in "hV":
                    return "exit"
                continue
            val = rest.encode("latin-1") if rest else None
            rest = ""
            if kind == "R" and val is None:
                if i >= len(argv):
                    return None
                val = argv[i]
                i += 1
            record(c, val)
    params = argv[i:]
    for c, f in flags.items():
        if f[1] and c not in seen:
            return None
    if minp == -1 and params:
        return None
    if minp > 0 and len(params) < minp:
        return None
    return vals, params


LONGS = ["port", "port-number", "pid-file", "include", "include-path", "in",
         "output", "data-path", "log-file", "recursive", "enable-ipv6",
         "x", "delete-old-data", "harvest-file-extension", "verb", "he",
         "versions", "experimental-query-engine"]


def t_flags(d, rng, st):
    chars = rng.sample("abcdefgijklmnopqrstuwxyzABCDEFGHIJKLMNOPQRSTUXYZ0123"
                       "456789", rng.randint(0, 8))
    longs = rng.sample(LONGS, len(chars))
    flags = {c: (l, rng.random() < .2, rng.choice("NRO"))
             for c, l in zip(chars, longs)}
    minp = rng.choice([-1, -1, 0, 1, 2])
    argv = [rng.choice([b"prog", b"/usr/bin/prog", b""])]
    vals = [b"v", b"", b"-", b"--", b"-x", b"a=b", b"=", b"two words",
            "\u00e9".encode(), b"/some/path", b"12", b"%s", b"\xff",
            b"y" * 3000]
    every = chars + (["v"] if rng.random() < .1 else []) + \
        (["h", "V"] if rng.random() < .05 else [])
    names = {c: flags[c][0] for c in chars}
    names.update({"h": "help", "v": "verbose", "V": "version"})
    kind = {c: flags[c][2] for c in chars}
    todo = [c for c in chars if flags[c][1] and rng.random() < .9]
    for _ in range(rng.randrange(7)):
        if every:
            todo.append(rng.choice(every))
    rng.shuffle(todo)
    while todo:
        c = todo.pop()
        k = kind.get(c, "N")
        v = rng.choice(vals)
        form = rng.randrange(6)
        l = names[c].encode()
        if form == 0 and rng.random() < .5:
            l = l[:rng.randint(1, len(l))]
        if form < 3:
            if k == "N" and rng.random() < .95:
                argv.append(b"--" + l)
            elif k == "O" and rng.random() < .5:
                argv.append(b"--" + l)
            elif form == 1 and k == "R":
                argv += [b"--" + l, v]
            else:
                argv.append(b"--" + l + b"=" + v)
        else:
            a = b"-" + c.encode()
            while k == "N" and todo and rng.random() < .5:
                c = todo.pop()
                k = kind.get(c, "N")
                a += c.encode()
            if k == "R" and form == 3:
                argv += [a, v]
            elif k in "RO" and (k == "R" or rng.random() < .5):
                argv.append(a + v)
            else:
                argv.append(a)
    if rng.random() < .12:
        argv.insert(rng.randint(1, len(argv)), rng.choice(
            [b"-?", b"-:", b"--unknown", b"--", b"-", b"--=x", b"-\xff",
             b"param", b"-W", b"---", b"", b"--po"]))
    if rng.random() < (.15 if minp == -1 else .6):
        if rng.random() < .3:
            argv.append(b"--")
        argv += [rng.choice(vals[:3] + vals[5:]) or b"p"
                 for _ in range(rng.randint(1, 3))]
    ask = "".join(chars) + "vz"
    args = [b"%d" % minp, b"%d" % len(flags)]
    for c in chars:
        l, rq, k = flags[c]
        args.append(("%s:%s:%s:%s" % (c, l, "R" if rq else "O", k)).encode())
    args += [ask.encode()] + argv
    r = d.call("flags", *args)
    stat, out = r.split(" ")
    out = un(out).decode("latin-1")
    want = ref_getopt(argv, flags, minp)
    if int(stat) != 0:
        bad("flags", args, want, "exit status %s" % stat)
    if want == "exit":
        st.count("help or version")
        if "parsed" in out or not out.strip():
            bad("flags", args, "help or version text", out)
        return b"|".join(args)
    lines = [x for x in out.splitlines()
             if x.startswith(("parsed", "flag", "param", "usage"))]
    usage = un(lines[-1].split(" ")[1]).decode("latin-1")
    for c in chars:
        if "-%s|--%s" % (c, flags[c][0]) not in usage:
            bad("flags", args, "usage with -%s" % c, usage)
        m = re.search(r"(\[?)\s*-%s\|--%s *(\[?arg)?" %
                      (re.escape(c), re.escape(flags[c][0])), usage)
        if bool(m.group(1)) == flags[c][1] or \
                (m.group(2) or "") != {"N": "", "R": "arg",
                                       "O": "[arg"}[flags[c][2]]:
            bad("flags", args, "usage of -%s: %r" % (c, flags[c]), usage)
    if ("params" in usage) != (minp >= 0) and \
            not any("params" in f[0] for f in flags.values()):
        bad("flags", args, "usage with%s params" %
            ("" if minp >= 0 else "out"), usage)
    if want is None:
        st.count("argument vectors refused")
        if lines[0] != "parsed 0":
            bad("flags", args, "refused", lines)
        return b"|".join(args)
    st.count("argument vectors accepted")
    v, params = want
    exp = ["parsed 1"]
    for _ in range(2):
        for c in ask:
            got = v.get(c, [])
            first = got[0] if got else b""
            exp.append("flag %s %d %s%s" % (
                c, c in v, first.hex() or "-",
                "".join(" " + (x.hex() or "-") for x in got)))
    exp += ["param " + (p.hex() or "-") for p in params]
    if lines[:-1] != exp:
        bad("flags", args, exp, lines[:-1])
    return b"|".join(args)


TEXT = [(t_json, 3), (t_suffix, 3), (t_spaces, 3), (t_bytes, 4), (t_bool, 2),
        (t_format, 1), (t_path, 3), (t_flags, 5)]


def text_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("u03-%s" % seed)
    d = Driver(scratch)
    fs = [f for f, w in TEXT for _ in range(w)]
    for _ in range(n):
        f = rng.choice(fs)
        key = f(d, rng, st)
        st.case((f.__name__, key), bool(key), {f.__name__[2:]:
                                               repr(key[:200])})
        st.count(f.__name__[2:])
    d.close()


# --- files -----------------------------------------------------------------
def fnv(size, at):
    h = 1469598103934665603
    for i in range(0, size, 4099):
        h = (h ^ at(i)) * 1099511628211 & (2 ** 64 - 1)
    return h


def file_job(st, item, scratch):
    _, seed, n, huge = item
    rng = random.Random("u03f-%s" % seed)
    d = Driver(scratch)
    td = os.path.join(scratch, "t")
    os.mkdir(td)
    e = lambda s: s.encode()
    for i in range(n):
        # reading
        p = os.path.join(td, "f%d" % i)
        size = rng.choice([0, 1, 2, 4095, 4096, 4097, 65536,
                           rng.randrange(300000)])
        data = rng.randbytes(size)
        open(p, "wb").write(data)
        got = d.call("file", e(p))
        if got.startswith("error") or un(got) != data:
            bad("file", p, "%d bytes" % size, got[:200])
        st.case(("file", size, seed, i), size > 0, {"file read": size})
        for q in (td, p + "x", p + "/y", ""):
            got = d.call("file", e(q))
            if not got.startswith("error"):
                bad("file", q, "an error", got[:200])
        # mapping
        m = os.path.join(td, "m%d" % i)
        mark = rng.randbytes(rng.randint(1, 300))
        want = rng.choice([1, 300, 4095, 4096, 4097, rng.randrange(300, 99999)])
        got = d.call("mmap", b"create", e(m), b"%d" % want, mark)
        if want < 1:
            continue
        if got == "fail" or got.split()[1] != "0":
            bad("mmap", ("create", want), "created", got)
        sz = int(got.split()[0])
        if sz < want or sz % 4096 or sz >= want + 4096 or \
                os.path.getsize(m) != sz:
            bad("mmap", ("create", want), "a file of that size, in pages",
                (got, os.path.getsize(m)))
        mark = mark[:sz]
        content = open(m, "rb").read()
        if content[-len(mark):] != mark[::-1]:
            bad("mmap", ("create", want), mark[::-1], content[-len(mark):])
        if d.call("mmap", b"create", e(m), b"%d" % want, b"z") != "fail" or \
                open(m, "rb").read() != content:
            bad("mmap", ("create over a file", want), "refused", "done")
        got = d.call("mmap", b"load", e(m)).split()
        if got[0] == "fail" or un(got[0]) != content or got[1] != "0":
            bad("mmap", ("load", want), "its content", got[0][:200])
        got = d.call("mmap", b"load", e(p))
        if (size == 0) != (got == "fail") or \
                size and un(got.split()[0]) != data:
            bad("mmap", ("load", size), "its content", got[:200])
        got = d.call("mmap", b"remove", e(m)).split()
        if got[1:] != ["0", "0"] or os.path.exists(m):
            bad("mmap", "remove", "removed", got[1:])
        for q in (td, p + "x"):
            if d.call("mmap", b"load", e(q)) != "fail":
                bad("mmap", ("load", q), "fail", "loaded")
        st.case(("mmap", want, seed, i), True, {"file mapped": want})
        os.unlink(p)
    # creating directories
    f = os.path.join(td, "file")
    open(f, "w").close()
    s = socket.socket(socket.AF_UNIX)
    s.bind(os.path.join(td, "sock"))
    s.close()
    os.mkfifo(os.path.join(td, "fifo"))
    os.symlink("nowhere", os.path.join(td, "dangling"))
    os.mkdir(os.path.join(td, "real"))
    open(os.path.join(td, "real", "kept"), "w").close()
    os.symlink("real", os.path.join(td, "link"))
    os.symlink("file", os.path.join(td, "flink"))
    for name, strict, ok in [
            ("new", 0, True), ("new", 0, True), ("new", 1, False),
            ("new2", 1, True), ("new2", 1, False), ("file", 0, False),
            ("file", 1, False), ("sock", 0, False), ("fifo", 0, False),
            ("dangling", 0, False), ("link", 0, True), ("link", 1, False),
            ("flink", 0, False), ("real", 0, True), ("a/b", 0, False),
            ("file/x", 0, False), ("x" * 300, 0, False), ("new/", 0, True),
            ("new3/", 0, True)]:
        p = os.path.join(td, name)
        got = d.call("mkdir", e(p), b"%d" % strict)
        if (got == "ok") != ok or ok and not os.path.isdir(p):
            bad("mkdir", (name, strict), "created" if ok else "an error", got)
        st.case(("mkdir", name, strict), True, {"mkdir": name})
    if not os.path.exists(os.path.join(td, "real", "kept")):
        bad("mkdir", "real", "left alone", "emptied")
    if d.call("mkdir", b"", b"0") == "ok":
        bad("mkdir", "", "an error", "ok")
    if os.getuid() == 0:
        os.chmod(scratch, 0o755)
        os.chmod(td, 0o755)
        u = Driver(scratch, 65534)
        for name, mode, ok in (("u1", 0o555, False), ("u2", 0o777, True),
                               ("u3", 0o733, False), ("u4", 0o000, False)):
            p = os.path.join(td, name)
            os.mkdir(p)
            os.chmod(p, mode)
            got = u.call("mkdir", e(p), b"0")
            if (got == "ok") != ok:
                bad("mkdir as another user", oct(mode), ok, got)
            st.case(("mkdir", mode), True, {"mkdir, mode": oct(mode)})
        if u.call("mkdir", e(os.path.join(td, "u5")), b"0") == "ok":
            bad("mkdir as another user", "u5", "an error", "ok")
        u.close()
    shutil.rmtree(td)
    # walking
    for i in range(n):
        walk_case(st, rng, d, os.path.join(scratch, "w"), (seed, i))
        shutil.rmtree(os.path.join(scratch, "w"))
    if huge:
        p = os.path.join(scratch, "huge")
        size = (1 << 31) + 12345
        with open(p, "wb") as fh:
            fh.truncate(size)
            fh.seek(4099 * 7)
            fh.write(b"Q")
            last = (size - 1) // 4099 * 4099
            fh.seek(last)
            fh.write(b"Z")
        got = d.call("filesum", e(p))
        want = "%d:%d" % (size, fnv(size, lambda i: 81 if i == 4099 * 7 else
                                    90 if i == last else 0))
        if got != want:
            bad("file", "2 GiB and some", want, got)
        st.case(("huge", seed), True, {"file read": size})
        os.unlink(p)
    d.close()


def walk_case(st, rng, d, root, key):
    os.mkdir(root)
    dirs, files = ["."], []
    names = ["a", "b", "B", "c.harvest", "10", "9", "sp ace", "\u00e9", "%s",
             ".hid", "..x", "x" * 100, "skip"]
    for _ in range(rng.randrange(25)):
        base = rng.choice(dirs)
        p = os.path.join(base, rng.choice(names) + rng.choice(["", "1", "2"]))
        f = os.path.join(root, p)
        if os.path.lexists(f):
            continue
        k = rng.randrange(10)
        if k < 5:
            open(f, "w").close()
            files.append(p)
        elif k < 8:
            os.mkdir(f)
            dirs.append(p)
        elif k == 8:
            os.symlink(rng.choice([root, "nowhere", "."]), f)
        else:
            os.mkfifo(f)
    skip = rng.choice(["", "skip", "a"])
    hidden = lambda p: any(x.startswith(".") and x != "."
                           for x in p.split("/"))

    def entered(p):
        """All directories on the way to p are entered."""
        parts = [x for x in os.path.dirname(p).split("/") if x != "."]
        return not any(skip and skip in x for x in parts)
    wf = sorted(posixpath.normpath(p) for p in files
                if not hidden(p) and entered(p))
    wd = sorted(posixpath.normpath(p) for p in dirs[1:]
                if not hidden(p) and entered(p))
    fail = rng.choice([0, 0, 0, 1, 2, len(wf)])
    got = d.call("walk", root.encode(), skip.encode(), b"%d" % fail).split()
    gf, gd = [], []
    for x in got[1:]:
        t = x.split(":")
        v = un(t[1]).decode("utf-8", "replace")
        if t[0] == "d":
            gd.append(posixpath.normpath(v))
        else:
            v = posixpath.relpath(v, root)
            part = un(t[2]).decode("utf-8", "replace")
            if posixpath.normpath(part) != (posixpath.dirname(v) or "."):
                bad("walk", (v, part), "the directory of the file", part)
            gf.append(v)
    if fail and fail <= len(wf):
        if got[0] == "0" or len(gf) != fail or len(set(gf)) != fail or \
                not set(gf) <= set(wf):
            bad("walk", (wf, "fails at %d" % fail), "stops there", got)
    elif got[0] != "0" or sorted(gf) != wf or sorted(gd) != wd:
        bad("walk", (root, skip), (wf, wd), (got[0], sorted(gf), sorted(gd)))
    st.case(("walk", key), bool(wf), {"directory walked": "%d files, %d "
                                      "directories" % (len(wf), len(wd))})
    st.count("walks")
    for q in (root + "/none", root + "x"):
        if d.call("walk", q.encode(), b"", b"0")[0] == "0":
            bad("walk", q, "an error", "0")


def job(st, item, scratch):
    {"text": text_job, "file": file_job}[item[0]](st, item, scratch)


def body(ck):
    global DRIVER
    DRIVER = build.harness("asan", "drive_utils.cpp", ["mwsd"])
    items = [("file", "%d-%d" % (ck.seed, i), core.pick(25, 200),
              core.THOROUGH and i == 0) for i in range(core.pick(4, 16))]
    items += [("text", "%d-%d" % (ck.seed, i), core.pick(2500, 20000))
              for i in range(core.pick(16, 64))]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("U03", body, rule=RULE, assumptions=[
        "text classification and case folding in the C locale",
        "option parsing as getopt_long does it, stopping at the first "
        "parameter"])
