"""Reads the shipped model files: signatures of a TFLite flat buffer, shape of
a libsvm model."""
import struct


class Flat:
    def __init__(self, b):
        self.b = b

    def u32(self, p):
        return struct.unpack_from("<I", self.b, p)[0]

    def i32(self, p):
        return struct.unpack_from("<i", self.b, p)[0]

    def u16(self, p):
        return struct.unpack_from("<H", self.b, p)[0]

    def root(self):
        return self.u32(0)

    def field(self, tab, n):
        vt = tab - self.i32(tab)
        if 4 + 2 * n >= self.u16(vt):
            return None
        o = self.u16(vt + 4 + 2 * n)
        return tab + o if o else None

    def ref(self, p):
        return p + self.u32(p)

    def vec(self, p):
        v = self.ref(p)
        return [v + 4 + 4 * i for i in range(self.u32(v))]

    def string(self, p):
        v = self.ref(p)
        n = self.u32(v)
        return self.b[v + 4:v + 4 + n].decode("utf-8", "replace")


def tflite_signatures(path):
    """{key: (input names, output names)}"""
    with open(path, "rb") as f:
        b = f.read()
    if b[4:8] != b"TFL3":
        raise ValueError("no TFLite identifier")
    fl = Flat(b)
    out = {}
    p = fl.field(fl.root(), 7)
    for q in fl.vec(p) if p else ():
        sd = fl.ref(q)
        names = []
        for n in (0, 1):
            v = fl.field(sd, n)
            names.append([fl.string(fl.field(fl.ref(x), 0))
                          for x in (fl.vec(v) if v else ())])
        k = fl.field(sd, 2)
        out[fl.string(k) if k else ""] = (names[0], names[1])
    return out


def libsvm_model(path):
    """(header dictionary, smallest and largest index of the vectors, whether
    every vector lists the indices 1 to n in order)"""
    head = {}
    lo, hi, dense = 10 ** 9, 0, True
    with open(path) as f:
        for ln in f:
            if ln.strip() == "SV":
                break
            w = ln.split()
            head[w[0]] = w[1:]
        for ln in f:
            ix = [int(x.split(":")[0]) for x in ln.split()[1:]]
            lo, hi = min([lo] + ix), max([hi] + ix)
            dense = dense and ix == list(range(1, len(ix) + 1))
    return head, lo, hi, dense
