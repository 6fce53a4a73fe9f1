"""Reader and structural checker of a saved index (index.memsector.dat,
meanings.dat), written from the documented layout."""
import os
import struct

HEADER = 28
MAGIC = 0x88CAFE88
CONST_MIN = 161


class Bad(Exception):
    pass


def find_files(d):
    """(memsector path, dictionary path) of an index directory."""
    ms = dic = None
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if not os.path.isfile(p):
            continue
        with open(p, "rb") as f:
            h = f.read(4)
        if h == struct.pack("<I", MAGIC):
            ms = p
        else:
            dic = p
    if ms is None or dic is None:
        raise Bad("index directory holds %r" % os.listdir(d))
    return ms, dic


def meanings(path):
    b = open(path, "rb").read()
    if b and not b.endswith(b"\0"):
        raise Bad("dictionary is not terminated")
    ks = [k.decode("utf-8") for k in b.split(b"\0")[:-1]]
    if len(set(ks)) != len(ks):
        raise Bad("dictionary holds a term twice")
    if "" in ks:
        raise Bad("dictionary holds an empty term")
    return ks


class Index:
    """Walks the whole file; raises Bad on any structural defect.

    leaves: list of (token sequence ((id, arity)...), num_hits, formula id)"""

    def __init__(self, path):
        self.b = b = open(path, "rb").read()
        if len(b) < HEADER + 8:
            raise Bad("file of %d bytes" % len(b))
        magic, self.version, self.size, self.crc, root = \
            struct.unpack_from("<IIQIQ", b, 0)
        if magic != MAGIC:
            raise Bad("magic %#x" % magic)
        self.root = root * 4
        self.records = {}
        self.leaves = []
        self.internal = 0
        self.maxchildren = 0
        self.walk()

    def record(self, off):
        b = self.b
        if off < HEADER or off + 8 > len(b):
            raise Bad("record at %d outside the file of %d bytes" %
                      (off, len(b)))
        if off in self.records:
            raise Bad("two references to the record at %d" % off)
        w, = struct.unpack_from("<Q", b, off)
        t = w & 3
        if t == 3:
            self.records[off] = 8
            return ("leaf", (w >> 2) & ((1 << 30) - 1), w >> 32)
        if t not in (1, 2):
            raise Bad("record at %d has type %d" % (off, t))
        n = w >> 2
        es = 8 if t == 1 else 12
        if off + 8 + n * es > len(b):
            raise Bad("node at %d with %d children exceeds the file" %
                      (off, n))
        self.records[off] = 8 + n * es
        ents = []
        last = None
        for i in range(n):
            p = off + 8 + i * es
            tok = b[p:p + 4]
            rel, = struct.unpack_from("<I" if t == 1 else "<Q", b, p + 4)
            if last is not None and not last < tok:
                raise Bad("children of the node at %d are not strictly "
                          "ordered: %r %r" % (off, last, tok))
            last = tok
            v, = struct.unpack("<I", tok)
            if rel == 0:
                raise Bad("null reference in the node at %d" % off)
            ents.append(((v >> 8, v & 255), off - rel * 4))
        return ("node", ents)

    def walk(self):
        stack = [(self.root, (), 1)]
        while stack:
            off, path, open_ = stack.pop()
            r = self.record(off)
            if r[0] == "leaf":
                if open_ != 0:
                    raise Bad("leaf after the incomplete formula %r" %
                              (path,))
                self.leaves.append((path, r[1], r[2]))
                continue
            if open_ == 0:
                raise Bad("node continues the complete formula %r" % (path,))
            self.internal += 1
            self.maxchildren = max(self.maxchildren, len(r[1]))
            if not r[1] and path:
                raise Bad("node without children after %r" % (path,))
            for (i, a), c in r[1]:
                if c >= off:
                    raise Bad("reference to a later record")
                stack.append((c, path + ((i, a),), open_ - 1 + a))
        end = 0
        for off in sorted(self.records):
            if off < end:
                raise Bad("records overlap at %d" % off)
            end = off + self.records[off]
        ids = [l[2] for l in self.leaves]
        if len(set(ids)) != len(ids):
            raise Bad("two leaves share a formula identifier")


def decode(path, dic):
    """Token sequence -> nested (meaning, kids)."""
    it = iter(path)

    def rec():
        i, a = next(it)
        if i < CONST_MIN + 1:
            m = "?%d" % i
        else:
            j = i - CONST_MIN - 1
            if j >= len(dic):
                raise Bad("term %d is not in the dictionary of %d" %
                          (i, len(dic)))
            m = dic[j]
        return (m, tuple(rec() for _ in range(a)))
    return rec()
