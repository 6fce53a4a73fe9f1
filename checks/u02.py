"""U02: stores and dictionaries read back what was written."""
import os
import random
import shutil
from collections import Counter

from vlib import build, core
from vlib.driver import Driver, un

RULE = ("one evaluation = one request (store, look up in a window, fetch, "
        "reopen, refuse to create over, encode, dictionary put, get, save, "
        "reload) to both store implementations in a random history, compared "
        "with a reference map; non-trivial = something was stored before; "
        "distinct by history and position")

BYTES = [b"a", b"xpath", b"/*[1]", b"\0", b"\n", b"!", b"\xff", b"\x80",
         b"http://ex.org/#", b"1", "\u00e9\u4e2d".encode(), b" ", b"<d>", b"%"]


def rand_bytes(rng, nul=True):
    k = rng.randrange(20)
    if k == 0:
        s = rng.randbytes(rng.choice([1, 127, 128, 255, 256, 4096, 70000]))
    elif k == 1:
        s = b""
    elif k == 2:
        s = rng.choice(BYTES) * rng.choice([300, 5000])
    else:
        s = b"".join(rng.choice(BYTES) for _ in range(rng.randrange(8)))
    return s if nul else s.replace(b"\0", b"0")


FIDS = [0, 1, 2, 9, 10, 11, 12, 19, 99, 100, 101, 110, 111, 123, 1000, 1234,
        4294967295, 4294967294, 429496729, 2147483648, 2147483647, 33]


def parse(r):
    w = r.split(" ")
    return int(w[0]), [tuple(x.split(":")) for x in w[1:]]


def store_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("u02-%s" % seed)
    d = Driver(DRIVER, scratch, "U02")
    top = os.path.join(scratch, "db")
    os.mkdir(top)
    forms, docs = {}, []
    gen = 0

    def check(i, name, got, want, sample=None):
        st.case((seed, i, name), bool(forms or docs), sample)
        st.count(name)
        if got != want:
            d.bad(want, got)

    def fresh(i):
        nonlocal gen, docs
        force = gen and rng.random() < .4
        if not force:
            gen += 1
            os.mkdir(os.path.join(top, str(gen)))
        check(i, "create", d.call("new", os.path.join(top, str(gen)),
                                  int(bool(force))), "ok")
        forms.clear()
        docs = []
    fresh(-1)
    few = rng.sample(FIDS, rng.randint(2, 10))
    for i in range(n):
        k = rng.randrange(100)
        if k < 40:
            for _ in range(rng.choice([1, 1, 1, 12, 40])):
                fid = rng.choice(few) if rng.random() < .9 else \
                    rng.getrandbits(rng.choice([4, 16, 32]))
                small = [x for x in docs[-60:] if len(x[2]) < 500]
                doc = rng.choice(small) if small and rng.random() < .8 else \
                    (0, 0, b"")
                x, p = rand_bytes(rng), rand_bytes(rng)
                if len(x) + len(p) > 5000 and len(forms.get(fid, ())) > 20:
                    x, p = x[:99], p[:99]
                if forms.get(fid) and rng.random() < .1:
                    _, x, p = forms[fid][0]
                check(i, "insert", d.call("ins", fid, doc[0], doc[1], x, p),
                      "0 0")
                forms.setdefault(fid, []).append((doc, x, p))
        elif k < 50:
            data = rand_bytes(rng)
            if rng.random() < .02:
                data = rng.randbytes(3000000)
            r = d.call("put", data).split(" ")
            try:
                ids = [int(x) for x in r]
            except ValueError:
                d.bad("two identifiers", r)
            for j in (0, 1):
                if ids[j] <= 0 or any(x[j] == ids[j] for x in docs):
                    d.bad("a new identifier", r)
            docs.append((ids[0], ids[1], data))
            check(i, "put", 1, 1)
        elif k < 60:
            if docs:
                m, l, data = rng.choice(docs)
                check(i, "get", [un(x) for x in d.call("get", m, l).split()],
                      [data, data], {"document of bytes": len(data)})
            bad = rng.choice([0, len(docs) + 5000000, 4294967295])
            check(i, "get unknown", d.call("get", bad, bad), "error error")
        elif k < 85:
            window(st, rng, d, few, forms, lambda nm, g, w, s=None:
                   check(i, nm, g, w, s))
        elif k < 90:
            check(i, "reopen", d.call("reopen"), "ok")
        elif k < 92:
            check(i, "create over", d.call("again"), "error error")
            check(i, "reopen", d.call("reopen"), "ok")
        elif k < 93:
            check(i, "open missing", d.call("missing"), "error error")
        elif k < 94 and i > n // 3:
            fresh(i)
        else:
            a = [rand_bytes(rng) for _ in range(rng.randint(1, 6))]
            want = []
            for j in range(len(a)):
                want += [a[j], a[j], a[-1 - j]]
            check(i, "parcel", [un(x) for x in d.call("parcel", *a).split()],
                  want)
    # everything is still there at the end
    d.call("reopen")
    for fid in list(forms):
        window(st, rng, d, [fid], forms, lambda nm, g, w, s=None:
               check(n, nm, g, w, s))
    for m, l, data in docs:
        check(n, "get", [un(x) for x in d.call("get", m, l).split()],
              [data, data])
    d.close()
    shutil.rmtree(top)


def window(st, rng, d, few, forms, check):
    fid = rng.choice(few) if rng.random() < .9 else rng.choice(FIDS)
    mine = forms.get(fid, [])
    big = 4294967295
    for store, j in (("mem", 0), ("lev", 1)):
        ret, full = parse(d.call("q" + store, fid, 0, big, 0))
        want = Counter((str(x[0][j]), x[1], x[2]) for x in mine)
        got = Counter((c, un(x), un(p)) for c, x, p in full)
        check("full look-up, " + store, (ret, got), (0, want),
              {"formula": fid, "entries": len(mine)})
        n = len(mine)
        for _ in range(2):
            lo = rng.choice([0, 0, 1, n - 1, n, n + 1, big, rng.randrange(
                n + 3)])
            sz = rng.choice([0, 1, 2, n, n + 1, big, rng.randrange(n + 3)])
            lo, sz = max(lo, 0), max(sz, 0)
            r = parse(d.call("q" + store, fid, lo, sz, 0))
            check("window, " + store, r, (0, full[lo:lo + sz]),
                  {"formula": fid, "from": lo, "size": sz, "of": n})
        # through the query manager, with the documents
        r, ans = parse(d.call("m" + store, fid, 0, big, 0))
        check("answers, " + store,
              (r, Counter(tuple(un(y) for y in x) for x in ans)),
              (0, Counter((x[0][2] if x[0][j] else b"", x[1], x[2])
                          for x in mine)))
        if n:
            k = rng.randint(1, n)
            r, ans = parse(d.call("q" + store, fid, 0, big, k))
            check("stopped look-up, " + store, (r, ans), (-1, full[:k]))
    r, ans = parse(d.call("mnone", fid, 0, big, 0))
    check("answers without documents",
          (r, Counter(tuple(un(y) for y in x) for x in ans)),
          (0, Counter((b"", x[1], x[2]) for x in mine)))


def scale_job(st, item, scratch):
    """More documents than 16 bits count, and long runs of one formula."""
    _, seed, n = item
    rng = random.Random("u02s-%s" % seed)
    d = Driver(DRIVER, scratch, "U02")
    top = os.path.join(scratch, "db")
    os.mkdir(top)
    d.call("new", top, 0)
    fids = [7, 70, 70000, 4294967295]
    docs, forms = [], {}
    for i in range(n):
        m, l = (int(x) for x in d.call("put", b"D%d" % i).split(" "))
        docs.append((m, l, b"D%d" % i))
        fid = fids[0] if rng.random() < .97 else rng.choice(fids[1:])
        if d.call("ins", fid, m, l, b"x%d" % i, b"p") != "0 0":
            d.bad("0 0", "error")
        forms.setdefault(fid, []).append(((m, l, b"D%d" % i), b"x%d" % i,
                                          b"p"))
    for j in (0, 1):
        ids = {x[j] for x in docs}
        if len(ids) != n or min(ids) <= 0:
            d.bad("%d identifiers" % n, len(ids))
    for again in (0, 1):
        for m, l, data in rng.sample(docs, 200) + docs[:3] + docs[-3:] + \
                docs[65530:65540]:
            r = d.call("get", m, l)
            if [un(x) for x in r.split()] != [data, data]:
                d.bad(data, r)
        for store in ("mem", "lev"):
            for fid in fids:
                mine = forms.get(fid, [])
                r, ans = parse(d.call("q" + store, fid, 0, 2 ** 31 - 1, 0))
                x = [un(a[1]) for a in ans]
                if sorted(x) != sorted(e[1] for e in mine):
                    d.bad("%d entries" % len(mine), len(x))
                for lo in [0, 255, 256, 32768, 65535, 65536, 65540,
                           len(mine) - 1, len(mine)]:
                    lo = max(lo, 0)
                    sz = rng.choice([1, 5, 30])
                    r, ans2 = parse(d.call("q" + store, fid, lo, sz, 0))
                    if ans2 != ans[lo:lo + sz]:
                        d.bad(ans[lo:lo + sz], ans2, "window %d+%d of %d" %
                              (lo, sz, len(mine)))
                    st.case(("scale", fid, store, lo, again), bool(mine))
                r, ans3 = parse(d.call("m" + store, fid, 0, 2 ** 31 - 1, 0))
                if Counter(un(a[0]) for a in ans3) != \
                        Counter(e[0][2] for e in mine):
                    d.bad("the documents of %d entries" % len(mine),
                          "others")
        if d.call("reopen") != "ok":
            d.bad("ok", "error")
    st.maximum("documents in one store", n)
    st.maximum("entries of one formula", len(forms[7]))
    d.close()
    shutil.rmtree(top)


def dict_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("u02d-%s" % seed)
    d = Driver(DRIVER, scratch, "U02")
    path = os.path.join(scratch, "dict")
    ids = {}
    d.call("dnew")
    pool = []
    for i in range(n):
        k = rng.randrange(100)
        if k < 50:
            key = rand_bytes(rng, False) + rng.choice([b"#", b"#x", b"q"])
            if pool and rng.random() < .3:
                key = rng.choice(pool)
                if rng.random() < .3:
                    key = key[:-1] or b"k"
            r = d.call("dput", key)
            if key in ids:
                if r != str(ids[key]):
                    d.bad(ids[key], r)
            else:
                if not r.isdigit() or int(r) in ids.values() or int(r) < 1:
                    d.bad("a new identifier", r)
                ids[key] = int(r)
                pool.append(key)
        elif k < 80:
            key = rng.choice(pool) if pool and rng.random() < .6 else \
                rand_bytes(rng, False) + b"?"
            r = d.call("dget", key)
            if r != (str(ids[key]) if key in ids else "none"):
                d.bad(ids.get(key), r)
        elif k < 88:
            if ids:
                ks = rng.sample(pool, min(5, len(pool)))
                r = d.call("drev", *[ids[x] for x in ks])
                if [un(x) for x in r.split()] != ks:
                    d.bad(ks, r)
            r = d.call("drev", max(ids.values(), default=0) + 7)
            if r != "error":
                d.bad("error", r)
        elif k < 96:
            if d.call("dsave", path) != "0":
                d.bad("saved", "error")
            if rng.random() < .9:
                if d.call("dload", path) != "ok":
                    d.bad("loaded", "error")
                for key in rng.sample(pool, min(len(pool), 40)):
                    r = d.call("dget", key)
                    if r != str(ids[key]):
                        d.bad(ids[key], r, "after reloading")
                st.count("dictionary reloads")
                st.maximum("terms in a reloaded dictionary", len(ids))
        elif k < 98:
            r = d.call("dload", os.path.join(scratch, rng.choice(
                ["none", "", "."])))
            if r != "error":
                d.bad("error", r)
        st.case(("dict", seed, i), bool(ids))
    d.call("dsave", path)
    d.call("dload", path)
    for key in pool:
        r = d.call("dget", key)
        if r != str(ids[key]):
            d.bad(ids[key], r, "after reloading")
    d.close()
    os.unlink(path)


def job(st, item, scratch):
    {"store": store_job, "dict": dict_job,
     "scale": scale_job}[item[0]](st, item, scratch)


def body(ck):
    global DRIVER
    DRIVER = build.harness("asan", "drive_stores.cpp", ["mwsd"], like="mwsd")
    items = [("scale", "%d" % ck.seed, 70000)]
    items += [("store", "%d-%d" % (ck.seed, i), core.pick(350, 3000))
             for i in range(core.pick(16, 96))]
    items += [("dict", "%d-%d" % (ck.seed, i), core.pick(800, 8000))
              for i in range(core.pick(8, 48))]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("U02", body, rule=RULE, assumptions=[
        "terms are non-empty and hold no NUL, as those of harvests",
        "the order of a formula's entries is the store's own, but the same "
        "in every look-up"])
