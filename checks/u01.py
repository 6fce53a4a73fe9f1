"""U01: sockets, control sequences and the thread wrapper."""
import os
import random
import re
import signal
import socket
import struct
import threading
import time

from vlib import build, core, proc
from vlib.driver import Driver, un

RULE = ("one evaluation = one transfer (write, read, control sequence) over "
        "a loopback connection whose other end splits, delays, shrinks "
        "buffers, interrupts, closes early or resets, compared with the bytes "
        "really sent or received; or one run of the thread wrapper with "
        "concurrent and nested starts around a shutdown; non-trivial = more "
        "than one byte or thread; distinct by kind, sizes and behaviour")


def byte_stream(seed, off, n):
    """The driver's byteAt."""
    M = 2 ** 64 - 1
    a = (seed + 1) * 0x9E3779B97F4A7C15
    out = bytearray(n)
    for i in range(n):
        x = (a + (off + i) * 0xBF58476D1CE4E5B9) & M
        x ^= x >> 29
        out[i] = (x ^ (x >> 8)) & 255
    return bytes(out)


class Stream:
    """Bytes of one direction, generated once."""

    def __init__(self, seed, n):
        self.seed = seed
        self.data = byte_stream(seed, 0, n)


def send_split(s, data, rng, slow):
    """Sends data in random pieces; False when the other end is gone."""
    i = 0
    try:
        while i < len(data):
            k = rng.choice([1, 2, 7, 100, 1500, 60000, len(data)])
            s.sendall(data[i:i + k])
            i += k
            if slow and rng.random() < min(.5, 60 * k / len(data)):
                time.sleep(rng.random() * .004)
        return True
    except OSError:
        return False


def recv_slow(s, n, rng, slow, res):
    """Receives up to n bytes (until the end if n is None)."""
    try:
        while n is None or len(res) < n:
            k = rng.choice([1, 3, 100, 4096, 200000])
            if n is not None:
                k = min(k, n - len(res))
            b = s.recv(k)
            if not b:
                break
            res += b
            if slow and rng.random() < .1:
                time.sleep(rng.random() * .003)
    except OSError:
        pass


def reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def shut(s):
    try:
        s.shutdown(socket.SHUT_WR)
    except OSError:
        pass


class Interrupter:
    """Signals the driver now and then."""

    def __init__(self, pid, rng, on):
        self.stop = False
        self.n = 0
        self.t = threading.Thread(target=self.run, args=(pid, rng.random()))
        self.on = on
        if on:
            self.t.start()

    def run(self, pid, d):
        while not self.stop:
            time.sleep(d * .004 + .0005)
            try:
                os.kill(pid, signal.SIGUSR1)
            except ProcessLookupError:
                return
            self.n += 1

    def end(self):
        self.stop = True
        if self.on:
            self.t.join()


class Link:
    """A connection between the driver and this process."""

    def __init__(self, d, rng):
        self.d = d
        self.kind = rng.choice(["accept", "connect", "connect2"])
        small = rng.random() < .4
        if self.kind == "accept":
            while True:
                port = proc.free_port()
                r = d.call("listen", port, *([rng.randint(1, 5)] if
                                             rng.random() < .5 else []))
                if r == "0":
                    break
            if rng.random() < .3 and d.call("relisten") != "0":
                d.bad("0", "enabling again fails")
            s = socket.socket()
            if small:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
            s.connect(("127.0.0.1", port))
            r = d.call("accept")
            if r != "1":
                d.bad("a connection", r)
        else:
            l = socket.socket()
            if small:
                l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
            l.bind(("127.0.0.1", 0))
            l.listen(5)
            port = l.getsockname()[1]
            a = [port] + (["127.0.0.1"] if self.kind == "connect2" else [])
            r = d.call("connect", *a)
            if r != "0":
                d.bad("0", r)
            s, _ = l.accept()
            l.close()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(60)
        self.s = s
        self.port = port

    def end(self):
        self.s.close()
        self.d.call("close")
        if self.kind == "accept":
            self.d.call("unlisten")


def sizes(rng):
    return rng.choice([0, 1, 2, 3, 100, 1448, 1460, 4096, 65535, 65536,
                       rng.randrange(5000), rng.randrange(300000)])


def do_write(st, d, rng, seed, big):
    """The driver writes several times, this end reads."""
    k = Link(d, rng)
    slow = rng.random() < .7
    total = 0
    how = rng.choice(["all", "all", "close", "reset", "idle close"])
    inter = rng.random() < .25
    n = rng.randint(1, 4)
    plan = [sizes(rng) for _ in range(n)]
    if big:
        plan = [core.pick(8, 40) * 1000000]
        n = 1
    stream = Stream(seed, sum(plan))
    take = None if how == "all" else rng.randrange(sum(plan) + 1) \
        if how != "idle close" else 0
    res = bytearray()
    done = threading.Event()

    def peer():
        if how == "idle close":
            time.sleep(rng.random() * .02)
        recv_slow(k.s, sum(plan) if take is None else take, r2, slow, res)
        if how == "reset":
            reset(k.s)
        elif how != "all":
            k.s.close()
        done.set()
    r2 = random.Random(rng.random())
    t = threading.Thread(target=peer)
    t.start()
    it = Interrupter(d.p.pid, rng, inter)
    failed = False
    try:
        for i, sz in enumerate(plan):
            r = int(d.call("write", sz, seed, total))
            if r == sz:
                total += sz
                continue
            if 0 <= r < sz and how != "all" or r == -1 and \
                    (how != "all" or inter):
                failed = True
                st.count("failures reported")
                break
            d.bad("%d or an error" % sz, r, "peer: %s" % how)
    finally:
        it.end()
    if failed:
        # (lets a peer that waits for the rest go on)
        d.call("close")
    t.join()
    if bytes(res) != stream.data[:len(res)]:
        d.bad("the bytes written", "others, from %d on" % next(
            i for i in range(len(res)) if res[i] != stream.data[i]))
    if how == "all" and not failed and len(res) != sum(plan):
        d.bad("%d bytes" % sum(plan), "%d bytes received" % len(res))
    if how != "all" and not failed and sum(plan) - len(res) > 7000000 and big:
        d.bad("an error", "success, though %d of %d bytes were never read" %
              (sum(plan) - len(res), sum(plan)))
    st.case(("write", tuple(plan), how, k.kind, inter, slow),
            sum(plan) > 1, {"write": plan, "peer": how,
                            "read by the peer": len(res)})
    st.count("writes, peer: %s" % how)
    st.count("interrupting signals", it.n)
    k.end()


def do_read(st, d, rng, seed, big):
    """This end sends in pieces, the driver reads."""
    k = Link(d, rng)
    slow = rng.random() < .7
    plan = [sizes(rng) for _ in range(rng.randint(1, 4))]
    if big:
        plan = [3000000]
    how = rng.choice(["exact", "exact", "more", "less", "less", "reset"])
    inter = rng.random() < .25
    total = sum(plan)
    n = total
    if how == "more":
        n += rng.randint(1, 5000)
    elif how in ("less", "reset"):
        n = rng.randrange(total + 1)
    stream = Stream(seed, n)
    r2 = random.Random(rng.random())

    def peer():
        if rng_delay:
            time.sleep(rng_delay)
        send_split(k.s, stream.data, r2, slow)
        if how == "reset":
            reset(k.s)
        elif how == "less":
            shut(k.s)
    rng_delay = rng.choice([0, 0, rng.random() * .02])
    t = threading.Thread(target=peer)
    t.start()
    it = Interrupter(d.p.pid, rng, inter)
    pos = 0
    try:
        for sz in plan:
            r, ok = [int(x) for x in d.call("read", sz, seed, pos).split()]
            want = min(sz, n - pos)
            if r > 0 and not ok:
                d.bad("the bytes sent", "others", "sender: %s" % how)
            if r == want and (r == sz or how != "reset"):
                pos += r
                if r < sz:
                    st.count("early ends reported")
                    break
                continue
            if how == "reset" and -1 <= r < sz or r == -1 and inter:
                st.count("failures reported")
                break
            d.bad(want, r, "sender: %s, %d of %d bytes read before" %
                  (how, pos, n))
    finally:
        it.end()
    d.call("close")
    t.join()
    st.case(("read", tuple(plan), how, n, k.kind, inter, slow), total > 1,
            {"read": plan, "sender": how, "sent": n})
    st.count("reads, sender: %s" % how)
    st.count("interrupting signals", it.n)
    k.end()


def do_control(st, d, rng, seed):
    """Control sequences sent by the driver come back split and delayed."""
    k = Link(d, rng)
    size = int(d.call("csize"))
    fs = [rng.choice([-1, 0, 1, 2, 3]) for _ in range(rng.randint(1, 6))]
    raw = []
    for f in fs:
        r = d.call("csend", f)
        if r != str(size):
            d.bad(size, r)
        b = bytearray()
        recv_slow(k.s, size, rng, False, b)
        if len(b) != size:
            d.bad("%d bytes on the wire" % size, len(b))
        raw.append(bytes(b))
    data = b"".join(raw)
    how = rng.choice(["all", "all", "cut", "cut", "reset", "garbage"])
    last = None
    if how == "garbage":
        last = bytearray(rng.choice(raw))
        for _ in range(rng.randint(1, 4)):
            last[rng.randrange(size)] = rng.choice([0, 1, 2, 3, 255, 128,
                                                    rng.randrange(256)])
        if rng.random() < .3:
            last = bytearray(rng.randbytes(size))
        data += last
    elif how != "all":
        data += rng.choice(raw)[:rng.randrange(size)]
    split = rng.random() < .8
    cuts = sorted(rng.randrange(len(data) + 1)
                  for _ in range(rng.randint(1, 2 * len(fs)))) if split else []
    dl = [rng.choice([0, .001, .004]) for _ in range(len(cuts) + 1)]

    def peer():
        i = 0
        for c, w in zip(cuts + [len(data)], dl):
            if c > i:
                try:
                    k.s.sendall(data[i:c])
                except OSError:
                    return
                i = c
                time.sleep(w)
        if how == "cut":
            shut(k.s)
        elif how == "reset":
            time.sleep(.002)
            reset(k.s)
    t = threading.Thread(target=peer)
    t.start()
    lost = False
    for f in fs:
        before = rng.choice([-1, 0, 1, 2, 3])
        r, p, g = [int(x) for x in d.call("crecv", before).split()]
        if r == size and (p, g) == (int(f >= 0), max(f, 0)):
            continue
        if how == "reset" and r != size:
            lost = True
            break
        d.bad("%d, parsed %d, format %d" % (size, f >= 0, max(f, 0)),
              (r, p, g), "over a connection split at %s" % cuts)
    if how != "all" and not lost:
        before = rng.choice([-1, 0, 1, 2, 3])
        r, p, g = [int(x) for x in d.call("crecv", before).split()]
        if how == "garbage":
            st.count("control sequences, altered")
            if p not in (0, 1) or g not in (0, 1, 2, 3):
                d.bad("a valid state", (r, p, g))
        elif r == size:
            d.bad("an error", "success after %d of %d bytes" %
                  (len(data) - size * len(fs), size))
        elif p and g != max(before, 0):
            d.bad("format %d or none" % before, g, "after a cut sequence")
        else:
            st.count("cut control sequences reported")
    t.join()
    st.case(("control", tuple(fs), how, tuple(cuts)), True,
            {"formats": fs, "then": how, "split at": cuts})
    st.count("control sequences", len(fs))
    if rng.random() < .3 and how == "all":
        # the peer goes away
        k.s.close()
        for i in range(200):
            r = int(d.call("csend", 2))
            if r != size:
                st.count("gone peers reported to control sequences")
                break
            time.sleep(.001)
        else:
            d.bad("an error in the end", "200 control sequences 'sent' to a "
                  "closed peer")
    k.end()


def do_misc(st, d, rng, seed):
    f = rng.randrange(4)
    size = d.call("csize")
    r = d.call("cfd", f)
    want = "-1 -1 %s %s 1 %d" % (size, size, f)
    if not r.startswith(want) or r.split()[-1] != "0" or \
            r.split()[-2] not in ("0", "-1"):
        d.bad(want + " 0 0", r)
    r = d.call("mime", f)
    if r != ["text/xml", "text/xml", "text/xml", "application/json"][f]:
        d.bad("the format's media type", r)
    r = d.call("closed").split(" ")
    if r != ["-1", "-1", "-1", "unknown", "unknown"]:
        d.bad("errors", r)
    # (a bound port that nobody listens on)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    if d.call("connect", s.getsockname()[1]) != "-1":
        d.bad("refused", "connected to a closed port")
    d.call("close")
    s.close()
    port = proc.free_port()
    if d.call("early", port) != "0":
        d.bad("no connection", "one, before listening")
    n = d.call("fds")
    # a port in use, then free again
    s = socket.socket()
    s.bind(("0.0.0.0", 0))
    s.listen(1)
    port = s.getsockname()[1]
    if d.call("listen", port) != "-1":
        d.bad("-1", "listens on a port in use")
    s.close()
    for i in range(3):
        if d.call("listen", port) != "0":
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("0.0.0.0", port))
                s.listen(1)
            except OSError:
                # taken by someone else
                s.close()
                break
            s.close()
            d.bad("0", "cannot listen on a free port")
        if d.call("relisten") != "0":
            d.bad("0", "enabling an enabled socket fails")
        c = socket.create_connection(("127.0.0.1", port))
        if d.call("accept") != "1":
            d.bad("1", "no connection")
        h, v, ok = d.call("info").split()
        if un(h) not in (b"localhost", b"127.0.0.1") and \
                socket.gethostname().encode() not in un(h) or \
                ok != "1" or not un(v):
            d.bad("the peer's name", (un(h), un(v), ok))
        c.close()
        d.call("close")
        d.call("unlisten")
    d.call("unlisten")
    if d.call("fds") != n:
        d.bad("%s descriptors" % n, d.call("fds"), "left open")
    st.case(("misc", seed), True)
    st.count("closed, refused and repeated uses")


def net_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("u01-%s" % seed)
    d = Driver(DRIVER["asan"], scratch, "U01")
    for i in range(n):
        s = rng.randrange(10 ** 6)
        k = rng.randrange(20)
        big = i == n // 2
        if k < 7 or big:
            (do_write if rng.random() < .5 or i % 2 else do_read)(
                st, d, rng, s, big)
            d.calls = d.calls[-50:]
        elif k < 12:
            do_read(st, d, rng, s, False)
        elif k < 19:
            do_control(st, d, rng, s)
        else:
            do_misc(st, d, rng, s)
    d.close()


def thread_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("u01t-%s" % seed)
    for i in range(n):
        variant = rng.choice(["asan", "tsan"])
        starters = rng.choice([1, 1, 2, 4, 8])
        each = rng.choice([1, 2, 10, 40])
        delay = rng.choice([0, 100, 1000, 5000])
        nest = rng.choice([0, 0, 30, 80])
        overlap = rng.choice([0, 0, 1, 200, 2000])
        limit = rng.random() < .15 and os.getuid() == 0
        args = [DRIVER[variant], "threads"] + [str(x) for x in (
            starters, each, delay, nest, rng.randrange(1000), overlap)]

        def pre():
            if limit:
                import resource
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
                resource.setrlimit(resource.RLIMIT_NPROC,
                                   (nproc, nproc))
        if limit:
            args[0] = DRIVER["plain"]
            variant = "plain"
            nproc = starters + 3 + rng.randrange(8)
            os.chmod(scratch, 0o755)
        r = proc.run(args, scratch, preexec=pre, timeout=100)
        what = "U01 threads %s%s" % (args[2:], " with few processes" if limit
                                     else "")
        rep = {"args.txt": " ".join(args)}
        if r.timed_out:
            raise core.Violation("%s: does not end\n%s" %
                                 (what, r.describe()), "", rep)
        proc.check_clean(r, what, rep)
        m = re.search(r"@ total (\d+) good (\d+) bad (\d+) refused (\d+) "
                      r"late (\d+)", r.out.decode() if isinstance(
                          r.out, bytes) else r.out)
        if limit and not m:
            # (the driver's own threads could not start)
            st.count("thread limit too low")
            continue
        if not m:
            raise core.Violation("%s: no result\n%s" % (what, r.describe()),
                                 "", rep)
        total, good, bad, refused, late = map(int, m.groups())
        if bad:
            raise core.Violation(
                "%s: %d of %d threads did not run exactly once, or had not "
                "finished when the shutdown returned" % (what, bad, total), "",
                rep)
        if good + refused != total or late != 3:
            raise core.Violation(
                "%s: of %d starts %d ran and %d were refused, %d of 3 after "
                "the shutdown" % (what, total, good, refused, late), "", rep)
        if not overlap and not limit and refused != 3:
            raise core.Violation("%s: %d starts refused before the shutdown" %
                                 (what, refused - 3), "", rep)
        st.case(("threads", tuple(args[1:]), variant), total > 4,
                {"threads": total, "refused": refused, "under": variant})
        st.count("thread runs, %s" % variant)
        st.count("threads run", good)
        st.count("starts refused around a shutdown", refused - 3)


NOBODY = 65533


def job(st, item, scratch):
    {"net": net_job, "threads": thread_job}[item[0]](st, item, scratch)


def body(ck):
    global DRIVER
    DRIVER = {v: build.harness(v, "drive_transport.cpp", ["crawlerd"],
                               like="mwsd") for v in ("asan", "tsan",
                                                      "plain")}
    items = [("net", "%d-%d" % (ck.seed, i), core.pick(40, 300))
             for i in range(core.pick(24, 128))]
    items += [("threads", "%d-%d" % (ck.seed, i), core.pick(14, 120))
              for i in range(core.pick(16, 64))]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("U01", body, rule=RULE, assumptions=[
        "loopback TCP; a write that the kernel has accepted before the peer "
        "vanished counts as delivered to the network",
        "no delivery is claimed for a call that reported an error",
        "the thread wrapper is shut down by one caller"])
