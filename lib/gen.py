"""Random histories. A generator keeps a shadow of the live handles so that the
operations it asks for are meaningful; it holds no expectations: the
specification (spec/*.tla) judges every recorded outcome."""
import random

NL = ["A", "B", "C"]
EL = ["", "L", "M", "N"]
# property keys and the kind of values stored under them
NKEYS = {"i": "int", "s": "str", "l": "strs", "m": "wint", "q": "ints", "h": "mixed", "u": "mixed", "z": "any"}
SORTABLE = ["i", "s", "l", "m", "q"]
STRS = ["a", "b", "", "zz", "\u00e9", "A b"]
XK = ["true", "float", "map", "mapslice", "struct", "bytes", "int64", "func", "chan"]
BIG = 2000000
# different values that print alike in one way or another
ALIKE = [
    [["i", 1], ["s", "1"], ["ls", ["1"]], ["la", [["i", 1]]], ["la", [["s", "1"]]], ["s", "[1]"], ["li", [1]], ["n", ["i", 1]], ["la", [["la", [["i", 1]]]]]],
    [["ls", ["a", "b"]], ["ls", ["a b"]], ["s", "[a b]"], ["s", "a b"], ["la", [["s", "a"], ["s", "b"]]], ["la", [["s", "a b"]]], ["s", "a,b"], ["ls", ["a,b"]],
     ["s", "ab"], ["ls", ["ab"]], ["ls", ["a", "", "b"]]],
    [["li", [1, 2]], ["s", "[1 2]"], ["ls", ["1", "2"]], ["ls", ["1 2"]], ["li", [12]], ["i", 12], ["s", "12"], ["la", [["i", 1], ["i", 2]]], ["la", [["i", 1], ["s", "2"]]]],
    [["s", ""], ["ls", [""]], ["ls", []], ["la", []], ["ls", ["", ""]], ["i", 0], ["li", [0]], ["s", "[]"], ["s", "0"], ["n", ["s", ""]]],
    [["ls", ["A"]], ["s", "A"], ["s", "a"], ["ls", ["a"]], ["s", "A "], ["s", " A"], ["la", [["ls", ["A"]]]]],
    [["i", -1], ["s", "-1"], ["i", 1], ["li", [-1]], ["la", [["n", ["i", -1]]]]],
]


def S(x):
    return ["s", x]


def I(x):
    return ["i", x]


class Hist:
    def __init__(self, rnd, sid):
        self.r = rnd
        self.id = sid
        self.ev = []
        self.ops = []
        self.obs = []
        self.h = 0
        self.G = {}      # gid -> {"N": {h: (labels, props)}, "E": {h: [f,t,l,props]}, "nix": {}, "eix": {}}
        self.dead_n = []
        self.bytes = False
        self.many = 0   # how often a property map is a large one
        self.nl, self.el = NL, EL

    def widen(self):
        """many labels: more than any small table holds"""
        self.nl = NL + ["N%d" % i for i in range(self.r.choice([3, 6, 9, 17]))]
        self.el = EL + ["E%d" % i for i in range(self.r.choice([3, 6, 9, 17, 40]))]

    # ------------------------------------------------------------ basics
    def fresh(self):
        self.h += 1
        return self.h

    def op(self, op, **kw):
        o = {"op": op}
        o.update(kw)
        self.ops.append(o)
        return o

    def q(self, q, **kw):
        o = {"q": q}
        o.update(kw)
        self.obs.append(o)
        return o

    def end(self):
        if self.ops or self.obs:
            self.ev.append({"ops": self.ops, "obs": self.obs})
            self.ops, self.obs = [], []

    def script(self):
        self.end()
        s = {"id": self.id, "ev": self.ev}
        if self.bytes:
            s["bytes"] = True
        return s

    # ------------------------------------------------------------ values
    def val(self, kind, wide=False):
        r = self.r
        if kind == "int":
            if r.random() < 0.06:
                return I(r.choice([-1, 1]) * (BIG - r.randint(0, 2)))
            return I(r.randint(-40, 40) if wide else r.randint(-2, 3))
        if kind == "str":
            return S(r.choice(STRS) if not wide else "s%d" % r.randint(0, 60))
        if kind == "strs":
            x = [r.choice(["a", "b", ""]) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            return ["ls", x] if r.random() < 0.6 else ["la", [S(y) if r.random() < 0.8 else ["n", S(y)] for y in x]]
        if kind == "wint":
            v = I(r.randint(-2, 3))
            for _ in range(r.choice([0, 1, 1, 2])):
                v = ["n", v]
            return v
        if kind == "ints":
            x = [r.randint(0, 2) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            v = ["li", x] if r.random() < 0.6 else ["la", [I(y) for y in x]]
            return ["n", v] if r.random() < 0.15 else v
        if kind == "any":       # a value that no index and no search supports
            return ["x", "nil"] if r.random() < 0.4 else ["x", r.choice(XK)]
        # any supported value
        if r.random() < 0.3:
            return r.choice(self.family())
        k = r.choice(["int", "str", "strs", "wint", "ints", "nest"])
        if k == "nest":
            return ["la", [self.val(r.choice(["int", "str", "ints"])) for _ in range(r.randint(1, 2))]]
        return self.val(k)

    def family(self):
        """one family of lookalikes per history, mostly"""
        r = self.r
        if not hasattr(self, "fam") or r.random() < 0.1:
            self.fam = r.choice(ALIKE)
        return self.fam

    def alike(self, v):
        for f in ALIKE:
            if v in f:
                return self.r.choice(f)
        return v

    def qval(self, k, stored=None):
        """a value to ask for: often a stored one, perhaps in another guise"""
        r = self.r
        x = r.random()
        if x < 0.1:
            return ["x", r.choice(XK)]
        if x < 0.2:
            return self.val(r.choice(["int", "str", "strs", "ints", "wint"]))
        if stored and x < 0.7:
            v = r.choice(stored)
        else:
            v = self.val(NKEYS[k])
        if r.random() < 0.15:
            v = self.alike(v)
        return self.guise(v)

    def guise(self, v):
        """the same value as another Go type"""
        r = self.r
        if v == ["x", "nil"]:       # nil is no value to search for
            return ["x", "true"]
        if r.random() < 0.25:
            return ["n", v]
        if v[0] == "ls" and r.random() < 0.4:
            return ["la", [S(y) for y in v[1]]]
        if v[0] == "li" and r.random() < 0.4:
            return ["la", [I(y) for y in v[1]]]
        if v[0] == "n" and r.random() < 0.5:
            return v[1]
        if v[0] == "la" and v[1] and r.random() < 0.4:
            if all(y[0] == "s" for y in v[1]):
                return ["ls", [y[1] for y in v[1]]]
            if all(y[0] == "i" for y in v[1]):
                return ["li", [y[1] for y in v[1]]]
        return v

    def props(self, keys=None, p=0.3, wide=False):
        keys = NKEYS if keys is None else keys
        ps = {k: self.val(NKEYS[k], wide) for k in keys if self.r.random() < p}
        if self.many and self.r.random() < self.many:
            ps.update({"w%d" % i: I(i) for i in range(self.r.choice([8, 13, 20, 40]))})
        return ps

    def labels(self, pool=None, empty=0.03):
        r = self.r
        pool = pool or self.nl
        p = 0.4 if len(pool) <= 4 else r.choice([0.1, 0.3, 0.6, 0.9])
        ls = [l for l in pool if r.random() < p]
        if r.random() < empty:
            ls.append("")
        return ls

    def elabel(self):
        return self.r.choice(self.el)

    # ------------------------------------------------------- graph actions
    def ng(self):
        g = len(self.G) + 1
        self.G[g] = {"N": {}, "E": {}, "nix": {}, "eix": {}}
        self.op("ng", g=g)
        return g

    def nn(self, g, ls=None, p=None, fast=None, mut=False):
        h = self.fresh()
        kw = {}
        fast = self.r.random() < 0.3 if fast is None else fast
        if ls is None and fast and self.r.random() < 0.2:
            ls = self.others_labels(kw)
        ls = self.labels() if ls is None else ls
        p = self.props() if p is None else p
        self.G[g]["N"][h] = [list(ls), dict(p)]
        self.op("nn", g=g, h=h, ls=ls, p=p, fast=fast, mut=mut, **kw)
        return h

    def ne(self, g, f=None, t=None, l=None, p=None, fast=None, mut=False):
        G = self.G[g]
        ns = list(G["N"])
        if not ns:
            return None
        f = self.r.choice(ns) if f is None else f
        t = (f if self.r.random() < 0.1 else self.r.choice(ns)) if t is None else t
        h = self.fresh()
        l = self.elabel() if l is None else l
        p = self.props() if p is None else p
        fast = self.r.random() < 0.3 if fast is None else fast
        G["E"][h] = [f, t, l, dict(p)]
        self.op("ne", g=g, h=h, f=f, t=t, l=l, p=p, fast=fast, mut=mut)
        return h

    def copied(self, g, d, nn=None, ne=None):
        """the driver numbers what a copy adds: nodes first, then edges. Which
        copy is which is unknown here (the specification finds out)."""
        a, b = self.G[g], self.G[d]
        n, m = (len(a["N"]), len(a["E"])) if nn is None else (nn, ne)
        self.auto = getattr(self, "auto", 100000)
        for i in range(n):
            b["N"][self.auto + 1 + i] = [[], {}]
        for i in range(m):
            b["E"][self.auto + 1 + n + i] = [0, 0, "", {}]
        self.auto += n + m

    def gof(self, h):
        for g, G in self.G.items():
            if h in G["N"] or h in G["E"]:
                return g

    def rme(self, g, h):
        del self.G[g]["E"][h]
        self.op("rme", h=h)

    def det(self, g, h):
        G = self.G[g]
        if any(x[0] == 0 for x in G["E"].values()):
            G["inexact"] = True          # some ends are unknown
        for e in [e for e, x in G["E"].items() if h in (x[0], x[1]) or x[0] == 0]:
            del G["E"][e]
        self.op("det", h=h)

    def dr(self, g, h):
        self.det(g, h)
        self.ops.pop()
        del self.G[g]["N"][h]
        self.dead_n.append(h)
        self.op("dr", h=h)

    def sl(self, g, h, ls=None, mut=False):
        kw = {}
        if ls is None and self.r.random() < 0.25:
            ls = self.others_labels(kw)
        elif ls is None and self.r.random() < 0.3 and len(self.G[g]["N"][h][0]) > 1:
            ls = self.r.sample(self.G[g]["N"][h][0], len(self.G[g]["N"][h][0]) - 1)
        ls = self.labels() if ls is None else ls
        self.G[g]["N"][h][0] = list(ls)
        self.op("sl", h=h, ls=ls, mut=mut, **kw)

    def others_labels(self, kw):
        """use the labels of another node"""
        ns = [(h, x[0]) for G in self.G.values() for h, x in G["N"].items() if h < 100000]
        if not ns:
            return None
        kw["src"], ls = self.r.choice(ns)
        return list(ls)

    def ix(self, g, k=None, t=None, what=None):
        r = self.r
        k = r.choice(SORTABLE + ["h"]) if k is None else k
        t = r.choice(["b", "h"]) if t is None else t
        if k == "h":
            t = "h"
        if r.random() < 0.5 if what is None else what == "n":
            self.G[g]["nix"].setdefault(k, t)
            self.op("ixn", g=g, k=k, t=t)
        else:
            self.G[g]["eix"].setdefault(k, t)
            self.op("ixe", g=g, k=k, t=t)

    def pick(self, d, pos=None):
        ks = list(d)
        x = self.r.random() if pos is None else pos
        if x < 0.25:
            return ks[0]
        if x < 0.5:
            return ks[-1]
        return self.r.choice(ks)

    def burst(self, g):
        """nodes or loops that come and go, often until the identifiers
        given so far are close to a power of two"""
        r = self.r
        ops = [o for e in self.ev for o in e["ops"]] + self.ops
        made = sum(o.get("k") if o["op"] == "burst" else 1 for o in ops if o["op"] in ("nn", "ne", "burst") and o.get("g") == g)
        k = (1 << r.choice([6, 8, 10, 10, 12, 16])) - made - r.randint(0, 9)
        if k < 0 or r.random() < 0.3:
            k = r.choice([1, 2, 5, 30])
        self.op("burst", g=g, n=self.pick(self.G[g]["N"]), k=k, t=r.choice(["n", "e"]))

    def rand_op(self, g, w=None, mut=False, wide=False):
        """one random mutation"""
        r, G = self.r, self.G[g]
        w = dict(dict(nn=6, ne=9, sl=4, snp=4, rnp=2, sel=3, sep=4, rep=2, rme=3, det=1, dr=2, ixn=1, ixe=1, mutl=0.5, burst=0.05), **(w or {}))
        if not G["N"]:
            for k in ("ne", "sl", "snp", "rnp", "det", "dr", "mutl", "burst"):
                w[k] = 0
        if not G["E"]:
            for k in ("sel", "sep", "rep", "rme"):
                w[k] = 0
        k = r.choices(list(w), list(w.values()))[0]
        m = mut and r.random() < 0.6
        if k == "nn":
            self.nn(g, p=self.props(wide=wide), mut=m, fast=r.random() < 0.3)
        elif k == "ne":
            self.ne(g, p=self.props(wide=wide), mut=m)
        elif k == "sl":
            self.sl(g, self.pick(G["N"]), mut=m)
        elif k in ("snp", "sep") and r.random() < 0.02:
            # many properties, one by one
            h = self.pick(G["N" if k == "snp" else "E"])
            P = G["N"][h][1] if k == "snp" else G["E"][h][3]
            for i in r.sample(range(24), r.choice([2, 6, 9, 12, 17])):
                P["w%d" % i] = v = self.val(r.choice(["int", "str", "strs"]))
                self.op(k, h=h, k="w%d" % i, v=v)
        elif k == "snp":
            h, key = self.pick(G["N"]), r.choice(list(NKEYS))
            v = self.val(NKEYS[key], wide)
            if r.random() < 0.25:
                key = r.choice(["h", "u"])
                v = self.alike(G["N"][h][1].get(key) or r.choice(self.family()))
            old = G["N"][h][1].get(key)
            self.touched = [("n", key, x) for x in (old, v) if x]
            G["N"][h][1][key] = v
            self.op("snp", h=h, k=key, v=v)
        elif k == "rnp":
            h = self.pick(G["N"])
            key = r.choice(list(G["N"][h][1]) or ["i"]) if r.random() < 0.8 else r.choice(list(NKEYS))
            G["N"][h][1].pop(key, None)
            self.op("rnp", h=h, k=key)
        elif k == "sel":
            h, l = self.pick(G["E"]), self.elabel()
            G["E"][h][2] = l
            self.op("sel", h=h, l=l)
        elif k == "sep":
            h, key = self.pick(G["E"]), r.choice(list(NKEYS))
            v = self.val(NKEYS[key], wide)
            if r.random() < 0.25:
                key = r.choice(["h", "u"])
                v = self.alike(G["E"][h][3].get(key) or r.choice(self.family()))
            old = G["E"][h][3].get(key)
            self.touched = [("e", key, x) for x in (old, v) if x]
            G["E"][h][3][key] = v
            self.op("sep", h=h, k=key, v=v)
        elif k == "rep":
            h = self.pick(G["E"])
            key = r.choice(list(G["E"][h][3]) or ["i"]) if r.random() < 0.8 else r.choice(list(NKEYS))
            G["E"][h][3].pop(key, None)
            self.op("rep", h=h, k=key)
        elif k == "rme":
            self.rme(g, self.pick(G["E"]))
        elif k == "det":
            self.det(g, self.pick(G["N"]))
        elif k == "dr":
            self.dr(g, self.pick(G["N"]))
        elif k == "mutl":
            self.op("mutl", h=self.pick(G["N"]))
        elif k == "burst":
            self.burst(g)
        else:
            self.ix(g, what="n" if k == "ixn" else "e")
        return k

    # -------------------------------------------------------- observations
    def lset_q(self, pool=None):
        r = self.r
        pool = pool or (self.nl + ["X", ""])
        if len(pool) > 6 and r.random() < 0.5:
            return r.sample(pool, r.randint(1, len(pool)))
        return r.sample(pool, r.choice([0, 1, 1, 2, 2, 3]))

    def eset_q(self, sizes=(0, 1, 2, 2, 3)):
        """edge labels to ask for"""
        r = self.r
        pool = self.el + ["X"]
        if len(pool) > 6 and r.random() < 0.5:
            return r.sample(pool, r.randint(1, len(pool)))
        return r.sample(pool, r.choice(sizes))

    def stored(self, g, what, k):
        G = self.G[g]
        if what == "n":
            return [x[1][k] for x in G["N"].values() if k in x[1]]
        return [x[3][k] for x in G["E"].values() if k in x[3]]

    def qprops(self, g, what, keys=None, n=None):
        r = self.r
        keys = r.sample(keys or list(NKEYS), r.choice([1, 1, 2]) if n is None else n)
        return {k: self.qval(k, self.stored(g, what, k)) for k in keys}

    def q_snap(self, g):
        self.q("snap", g=g)

    def q_adj(self, g, n=3):
        r, G = self.r, self.G[g]
        ns = list(G["N"])
        for _ in range(n if ns else 0):
            h, d = r.choice(ns), r.choice(["in", "out", "any"])
            k = r.choice(["ged", "gel", "gea", "gea"])
            if k == "ged":
                self.q("ged", h=h, d=d)
            elif k == "gel":
                self.q("gel", h=h, d=d, l=r.choice(self.el + ["X"]))
            else:
                self.q("gea", h=h, d=d, ls=self.eset_q())

    def q_adj_all(self, g):
        for h in self.G[g]["N"]:
            for d in ("in", "out", "any"):
                self.q("ged", h=h, d=d)
                self.q("gel", h=h, d=d, l=self.elabel())
                self.q("gea", h=h, d=d, ls=self.eset_q())

    def q_lab(self, g, n=2):
        for _ in range(n):
            self.q("nal", g=g, ls=self.lset_q())
            self.q("eal", g=g, ls=self.eset_q([0, 1, 1, 2, 3, 4]))

    def q_prop(self, g, n=2):
        r = self.r
        for _ in range(n):
            k = r.choice(list(NKEYS))
            self.q("nwp", g=g, k=k)
            self.q("ewp", g=g, k=r.choice([k, r.choice(list(NKEYS))]))
            self.q("fn", g=g, ls=[] if r.random() < 0.7 else self.lset_q(), p=self.qprops(g, "n"))
            self.q("fe", g=g, ls=[] if r.random() < 0.7 else r.sample(self.el, r.choice([1, 2])), p=self.qprops(g, "e"))

        for what, k, v in getattr(self, "touched", []):     # the last change
            if r.random() < 0.5:
                self.q("fn" if what == "n" else "fe", g=g, ls=[], p={k: self.guise(v)})

    def q_find(self, g, n=2):
        r, G = self.r, self.G[g]
        for _ in range(n):
            for k in ("fn", "fe"):
                ls = self.lset_q() if k == "fn" else self.eset_q()
                p = {} if r.random() < 0.25 else self.qprops(g, k[1], n=r.choice([1, 2, 3]))
                if r.random() < 0.35 and G["N"] and k == "fn":
                    x = G["N"][r.choice(list(G["N"]))]       # satisfied by some node
                    ls = [l for l in x[0] if r.random() < 0.6]
                    p = {a: self.guise(v) for a, v in x[1].items() if r.random() < 0.5}
                if r.random() < 0.35 and G["E"] and k == "fe":
                    x = G["E"][r.choice(list(G["E"]))]
                    ls = r.choice([[], [x[2]], [x[2], "X"]])
                    p = {a: self.guise(v) for a, v in x[3].items() if r.random() < 0.5}
                if r.random() < 0.25:
                    self.q("nff" if k == "fn" else "eff", g=g, hs=list(G["N" if k == "fn" else "E"]), ls=ls, p=p)
                else:
                    self.q(k, g=g, ls=ls, p=p)

    def q_derived(self, g):
        r, G = self.r, self.G[g]
        for k in ("srci", "snki", "src", "snk"):
            self.q(k, g=g)
        self.q("fen", g=g, k=r.choice([0, 1, 2, len(G["N"])]))
        ns = list(G["N"])
        for _ in range(2 if ns else 0):
            self.q("ebn", a=r.choice(ns), b=r.choice(ns))
            self.q("nnw", h=r.choice(ns), l=self.elabel())
            self.q("pnw", h=r.choice(ns), l=self.elabel())
            self.q("tgt", h=r.choice(ns), d=r.choice(["in", "out", "any"]))
            self.q("sno", h=r.choice(ns), d=r.choice(["in", "out", "any"]))
        es = list(G["E"])
        if es:
            x = G["E"][r.choice(es)]
            self.q("ebn", a=x[0], b=x[1])

    def q_tree(self, g):
        """concatenations of iterators, nested"""
        r = self.r

        def t(d):
            if d and r.random() < 0.5:
                return ["m"] + [t(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
            x = r.random()
            if x < 0.5:
                return ["l", self.lset_q()]
            if x < 0.8:
                return ["f", self.lset_q() if r.random() < 0.5 else [], self.qprops(g, "n") if r.random() < 0.7 else {}]
            return ["k", r.choice(list(NKEYS))]
        self.q("mtree", g=g, t=["m"] + [t(2) for _ in range(r.choice([0, 1, 2, 3]))])

    def q_attr(self, g):
        r, G = self.r, self.G[g]
        if G["N"]:
            self.q("nattr", h=r.choice(list(G["N"])), ls=self.nl + ["", "X"], ks=list(NKEYS) + ["nokey"])
        if G["E"]:
            self.q("eattr", h=r.choice(list(G["E"])), ks=list(NKEYS) + ["nokey"])

    def q_ids(self, extra_n=(), extra_e=(), g=None):
        for x in ([g] if g else list(self.G)):
            self.q("ids", g=x, ns=list(self.G[x]["N"]) + list(extra_n), es=list(self.G[x]["E"]) + list(extra_e))

    def q_all(self, g, n=1):
        self.q_snap(g)
        self.q("nodes", g=g)
        self.q("edges", g=g)
        self.q_adj(g, 3 * n)
        self.q_lab(g, n)
        self.q_prop(g, n)
        self.q_find(g, n)
        self.q_derived(g)
        self.q_tree(g)


PROFILES = [
    {},                                                     # mixed
    dict(nn=3, ne=6, rme=6, dr=4, det=2),                   # churn
    dict(sl=10, sel=8, snp=1, sep=1, rnp=0.5, rep=0.5),     # relabelling
    dict(snp=10, sep=10, rnp=4, rep=4, ixn=3, ixe=3),       # properties
    dict(nn=8, dr=7, ne=2),                                 # node list ends
    dict(ne=14, rme=8, sel=3),                              # edge maps
]


def history(rnd, sid, observe, nops=24, every=(1, 3), mut=False, graphs=1, indexes=0.5, profile=None, wide=False, weights=None):
    h = Hist(rnd, sid)
    h.many = 0.05 if mut else 0.003
    if rnd.random() < 0.15:
        h.widen()
    gs = [h.ng() for _ in range(graphs)]
    for g in gs:
        if rnd.random() < indexes:
            for _ in range(rnd.randint(1, 6)):
                h.ix(g)
    w = dict(rnd.choice(PROFILES) if profile is None else profile)
    w.update(weights or {})
    for g in gs:
        for _ in range(rnd.choice([0, 0, 2, 5])):
            h.nn(g, p=h.props(wide=wide))
        for _ in range(rnd.choice([0, 2, 6])):
            h.ne(g, p=h.props(wide=wide))
    k = 0
    while k < nops:
        for _ in range(rnd.randint(*every)):
            h.rand_op(rnd.choice(gs), w, mut=mut, wide=wide)
            k += 1
        if rnd.random() < 0.02:      # empty one graph completely
            g = rnd.choice(gs)
            for n in list(h.G[g]["N"]):
                h.dr(g, n)
        observe(h, rnd.choice(gs))
        h.end()
    for g in gs:
        observe(h, g)
    return h.script()


def big_history(rnd, sid, observe, nodes=36, edges=80, rounds=5):
    """one large graph: index trees split, edge lists grow long"""
    h = Hist(rnd, sid)
    if rnd.random() < 0.25:
        h.widen()
    g = h.ng()
    early = rnd.random() < 0.5
    if early:
        for k in SORTABLE + ["h"]:
            h.ix(g, k=k, what="n")
            h.ix(g, k=k, what="e")
    for _ in range(nodes):
        h.nn(g, p=h.props(p=0.6, wide=True))
    hub = rnd.choice(list(h.G[g]["N"]))
    for _ in range(edges):
        x = rnd.random()
        h.ne(g, f=hub if x < 0.3 else None, t=hub if x > 0.8 else None, p=h.props(p=0.5, wide=True))
    h.end()
    if not early:
        for k in SORTABLE + ["h"]:
            h.ix(g, k=k, what="n")
            h.ix(g, k=k, what="e")
    for _ in range(rounds):
        for _ in range(rnd.randint(6, 16)):
            h.rand_op(g, rnd.choice(PROFILES + [dict(dr=8, rme=8, nn=1, ne=1)]), wide=True)
        observe(h, g)
        h.end()
    return h.script()


# ------------------------------------------------------------------ patterns

PEL = ["", "L", "M"]
WPK = ["i", "w1", "w2", "w3", "w4"]
POS = ["P1", "P3", "P5", "P7", "P9", "P11"]     # labels that tell the items of a pattern apart
LONG = [(1, -1), (1, 9), (4, -1), (5, 9), (6, 6), (3, 7), (1, -1), (1, 9)] * 2
BOUNDS = [(1, 2), (2, 2), (1, -1), (2, 3), (1, 3), (2, -1), (3, 3), (-1, -1), (-1, 2), (1, 2), (1, -1)]


def item(ls=(), p=None, mn=1, mx=1, left=False, und=False, name=""):
    return {"ls": list(ls), "p": p or {}, "min": mn, "max": mx, "left": left, "und": und, "name": name}


class PatGen(Hist):
    """small graphs with patterns that mostly match something"""

    def build(self, maxn=5, maxe=6, loops=0.15):
        r = self.r
        self.g = g = self.ng()
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5])
        n = min(n, maxn)
        self.ring = maxn > 3 and r.random() < 0.12
        if self.ring:
            n = r.choice([3, 4, 5, 6, 7])
        m = r.randint(0, maxe) if r.random() < 0.3 else r.randint(min(2, maxe), maxe)
        self.reals = []
        self.only = {}          # labels that one node has
        self.keyed = r.random() < 0.35      # values that one node, or one edge, has
        for j in range(n):
            own = ["U%d" % j] if r.random() < 0.5 else []
            self.reals.append(self.nn(g, ls=[l for l in ("A", "B") if r.random() < 0.5] + own + POS,
                                      p=self.unique(self.pprops(0.5), j)))
            if own:
                self.only[self.reals[-1]] = own[0]
        self.edges = []
        if self.ring:           # one long way round, and hardly another way
            for i in range(n):
                f, t = self.reals[i], self.reals[(i + 1) % n]
                if r.random() < 0.05:
                    f, t = t, f
                self.edges.append(self.ne(g, f=f, t=t, l=r.choice(PEL), p={}))
            m = r.choice([0, 0, 1, 2])
        for _ in range(m):
            f = r.choice(self.reals)
            t = f if r.random() < loops else r.choice(self.reals)
            if self.edges and r.random() < 0.15:         # parallel, either way round
                x = self.G[g]["E"][r.choice(self.edges)]
                f, t = (x[0], x[1]) if r.random() < 0.6 else (x[1], x[0])
            self.edges.append(self.ne(g, f=f, t=t, l=r.choice(PEL), p=self.unique(self.pprops(0.5), len(self.edges))))
        self.end()

    def build_wide(self, long=False):
        """larger graphs: a long chain or a star, many labels, many properties"""
        r = self.r
        self.g = g = self.ng()
        self.ring, self.reals, self.edges, self.only = True, [], [], {}
        self.keyed = False
        pool = self.pool = r.choice([PEL, PEL + ["K%d" % i for i in range(6)]])
        props = lambda: {k: I(r.randint(0, 1)) for k in WPK if r.random() < 0.7} if r.random() < 0.6 else {}

        def node(own):
            ls = [l for l in ("A", "B") if r.random() < 0.5] + POS + ["W%d" % i for i in range(6) if r.random() < 0.6]
            if own:
                ls.append("U%d" % len(self.reals))
            r.shuffle(ls)
            self.reals.append(self.nn(g, ls=ls, p=props()))
            if own:
                self.only[self.reals[-1]] = ls[[i for i, l in enumerate(ls) if l[0] == "U"][0]]
            return self.reals[-1]
        self.shape = r.choice(["chain", "chain", "star", "mesh"])
        one = r.choice(pool) if r.random() < 0.4 else None
        el = lambda: one if one is not None and r.random() < 0.9 else r.choice(pool)
        if self.shape == "chain":
            n = r.randint(12, 34) if not long or r.random() < 0.5 else r.randint(60, 90)
            ns = [node(i in (0, n - 1) or r.random() < 0.1) for i in range(n)]
            for a, b in zip(ns, ns[1:]):
                f, t = (a, b) if r.random() < 0.985 or n > 50 else (b, a)
                self.edges.append(self.ne(g, f=f, t=t, l=el(), p=props() if r.random() < 0.2 else {}))
            for _ in range(r.choice([0, 0, 1, 2])):
                self.edges.append(self.ne(g, f=r.choice(ns), t=r.choice(ns), l=el(), p={}))
        elif self.shape == "star":
            k = r.randint(10, 40) if r.random() < 0.65 else r.randint(66, 100)
            c = node(True)
            many = k > 60
            far = [node(r.random() < 0.2) for _ in range(r.choice([1, 3, 8, k]) if not many else k)]
            side = r.random() if many else 0
            for i in range(k):
                f, t = (c, far[i] if many else r.choice(far))
                if (r.random() < 0.4) if side < 0.2 else side < 0.6:
                    f, t = t, f
                self.edges.append(self.ne(g, f=f, t=t, l=el(), p=props()))
        else:
            ns = [node(r.random() < 0.3) for _ in range(r.randint(8, 20))]
            for _ in range(r.randint(12, 30)):
                self.edges.append(self.ne(g, f=r.choice(ns), t=r.choice(ns), l=el(), p=props()))
        self.end()

    def pattern_wide(self):
        """patterns that reach far, or list much"""
        r, G = self.r, self.G[self.g]
        for _ in range(60):
            pat = self.pattern_wide1()
            if not too_many(self, pat, 250) and not self.far(pat):
                return pat
        return [item()]

    def far(self, pat, cap=20000):
        """a bound on the trails a search may follow, from whatever item it starts"""
        G = self.G[self.g]

        def trails(it, back):
            out = {}
            for u in self.reals:
                n, todo = 0, [(u, frozenset())]
                while todo and n < 3000:
                    at, used = todo.pop()
                    n += 1
                    if len(used) == (99 if it["max"] == -1 else it["max"]):
                        continue
                    for e, x in G["E"].items():
                        if e not in used and (not it["ls"] or x[2] in it["ls"]):
                            for a, b, ok in ((x[0], x[1], it["left"] == back), (x[1], x[0], it["left"] != back)):
                                if (ok or it["und"]) and a == at:
                                    todo.append((b, used | {e}))
                out[u] = n if n < 3000 else 10 ** 6
            return out
        es = pat[1::2]
        f, b = [trails(it, False) for it in es], [trails(it, True) for it in es]

        def prod(xs):
            p = 1
            for x in xs:
                p *= max(x.values())
            return p
        for k in range(len(es) + 1):        # a start at node item k
            bef, aft = b[:k][::-1], f[k:]
            n = sum((bef[0][u] if bef else 1) * (aft[0][u] if aft else 1) for u in self.reals)
            if n * min(prod(bef[1:]) * prod(aft[1:]), 20) > cap:
                return True
        return False

    def pattern_wide1(self):
        r, G = self.r, self.G[self.g]
        if r.random() < 0.12:
            pat = [item(name="w0")]
        elif r.random() < 0.4:
            pat = self.pattern1(pos=r.random() < 0.3, maxlen=5)
        else:
            a = r.choice(list(self.only) or self.reals)
            b = r.choice(list(self.only) or self.reals)
            fwd = r.random() < 0.6
            bounds = r.choice([(1, -1), (1, -1), (2, -1), (1, 40), (9, -1), (8, 12), (5, 20), (1, 1), (1, 1), (1, 6)])
            mk = lambda bs: dict(item(left=not fwd, und=r.random() < 0.15), min=bs[0], max=bs[1])
            own = lambda x: [self.only[x]] if x in self.only and r.random() < 0.8 else []
            pat = [item(ls=own(a)), mk(bounds), item(ls=own(b) if r.random() < 0.6 else [])]
            if r.random() < 0.35:
                x = mk(r.choice([(1, 1), (1, 2), (1, -1)]))
                if r.random() < 0.5:
                    x["left"] = not x["left"] and not x["und"]
                pat += [x, item()]
            if r.random() < 0.3:
                pat.reverse()
                for it in pat[1::2]:
                    it["left"] = not it["left"] and not it["und"]
            for it in pat[1::2]:
                if it["und"]:
                    it["left"] = False
            for j, it in enumerate(pat):
                if r.random() < 0.4:
                    it["name"] = "w%d" % j
        for j, it in enumerate(pat):
            if j % 2:
                if it["ls"] or r.random() < 0.4:
                    it["ls"] = sorted(set(it["ls"]) | set(r.sample(self.pool, r.randint(1, len(self.pool) - 1))))
                    r.shuffle(it["ls"])
                if G["E"] and r.random() < 0.15 and it["min"] == it["max"] == 1:
                    P = r.choice(list(G["E"].values()))[3]
                    it["p"] = {k: P[k] for k in r.sample(list(P), r.randint(0, len(P)))}
            else:
                x = G["N"][r.choice(self.reals)]
                if r.random() < 0.25:
                    W = [l for l in x[0] if l[0] == "W"]
                    it["ls"] = it["ls"] + r.sample(W, r.randint(0, len(W)))
                    r.shuffle(it["ls"])
                if r.random() < 0.15:
                    it["p"] = {k: x[1][k] for k in r.sample(list(x[1]), r.randint(0, len(x[1])))}
        return pat

    def unique(self, p, j):
        if self.keyed and self.r.random() < 0.7:
            p["j"] = I(j)
        return p

    def pprops(self, many):
        r = self.r
        p = {"i": I(r.randint(0, 1))} if r.random() < many else {}
        if r.random() < 0.3:
            p["h"] = r.choice(self.family())
        return p

    def filter(self, P):
        """properties for a pattern item, given what some element has"""
        r = self.r
        p = {"i": self.guise_i(P["i"])} if "i" in P and r.random() < 0.2 else {}
        if "h" in P and r.random() < 0.35:
            p["h"] = P["h"] if r.random() < 0.4 else self.alike(P["h"])
            if "i" in P and r.random() < 0.5:
                p["i"] = P["i"]
        elif "i" in P and "i" in p and r.random() < 0.1:
            p["i"] = self.alike(P["i"])
        if "j" in P and r.random() < 0.3:
            p["j"] = P["j"]
            if r.random() < 0.4:        # the one that has it, and nothing or something else
                p["i"] = P["i"] if "i" in P and r.random() < 0.6 else I(r.choice([0, 1]))
            if "h" in P and r.random() < 0.3:
                p["h"] = P["h"] if r.random() < 0.6 else r.choice(self.family())
        return p

    def decoys(self, without, k=None, edges=0, name="Z"):
        """isolated (among themselves connected) nodes with every label but one"""
        r = self.r
        ls = [l for l in ["A", "B"] + list(self.only.values()) + POS if l != without]
        k = r.randint(1, 6) if k is None else k
        new = [self.nn(self.g, ls=ls, p=self.pprops(0.7)) for _ in range(k)]
        for _ in range(edges):
            self.ne(self.g, f=r.choice(new), t=r.choice(new), l=r.choice(PEL + [name]), p={"i": I(0)} if r.random() < 0.5 else {})
        return new

    def pattern(self, **kw):
        cap = self.r.choice([60, 60, 60, 60, 250])
        for _ in range(40):
            pat = self.pattern1(**kw)
            if not too_many(self, pat, cap):
                return pat
        return [item()]

    def pattern1(self, length=None, names=0.5, repeat_edges=True, var=0.3, pos=True, und=0.2, maxlen=11):
        r, G = self.r, self.G[self.g]
        n = length or r.choice([1, 3, 3, 3, 5, 5, 5, 7] * 3 + [9, 9, 11])
        n = min(n, maxlen)
        guided = r.random() < 0.7
        # a walk through the real graph
        cur = r.choice(self.reals)
        pat, walk = [], [cur]
        nvar = 0
        hops = []
        for i in range(1, n, 2):
            isvar = r.random() < var and nvar < 2
            steps = 1
            if isvar:
                nvar += 1
                mn, mx = r.choice(BOUNDS + LONG if self.ring else BOUNDS)
                lo = max(1, mn)
                steps = r.randint(lo, lo + 1 if mx == -1 else mx)
            cand = [e for e in self.edges if cur in (G["E"][e][0], G["E"][e][1])]
            e0 = r.choice(cand) if cand else None
            if e0 is None:
                d = r.choice(["out", "in", "any"])
                ls = r.choice([[], [], [r.choice(PEL)]])
                p = {}
            else:
                x = G["E"][e0]
                d = "out" if x[0] == cur else "in"
                if not guided and r.random() < 0.3:
                    d = r.choice(["out", "in"])
                ls = r.choice([[], [], [x[2]], [x[2], r.choice(PEL)]])
                p = self.filter(x[3])
                if isvar:
                    for s in range(steps):
                        nxt = [e for e in self.edges if G["E"][e][0 if d == "out" else 1] == cur]
                        if not nxt:
                            break
                        x = G["E"][r.choice(nxt)]
                        cur = x[1] if d == "out" else x[0]
                    ls, p = r.choice([[], [], list(PEL), ["L", "M"]]), {}
                else:
                    cur = x[1] if x[0] == cur else x[0]
                if r.random() < und:
                    d = "any"
                if r.random() < 0.03:
                    p = {r.choice("iij"): I(r.randint(0, 2))}
            if not guided:
                ls = r.choice([[], [r.choice(PEL)], ls])
            it = item(ls=sorted(set(ls)), p=p, left=d == "in", und=d == "any")
            if isvar:
                it["min"], it["max"] = mn, mx
            pat.append(it)
            walk.append(cur)
            hops.append(e0 if not isvar else None)
        # node items
        full = []
        for j, x in enumerate(walk):
            L, P = G["N"][x][0], G["N"][x][1]
            ls = [l for l in ("A", "B") if l in L and r.random() < 0.3] if guided or r.random() < 0.5 else [r.choice(["A", "B"])]
            if pos and r.random() < 0.85:
                ls = ls + ["P%d" % (2 * j + 1)]
            p = self.filter(P)
            if x in self.only and r.random() < 0.15:
                ls = ls + [self.only[x]]
            if r.random() < 0.05:           # very likely not the value that the node has
                p = {r.choice("iij"): I(r.randint(0, 2))}
            full.append(item(ls=ls, p=p))
            if j < len(pat):
                full.append(pat[j])
        # names; the same name where the walk comes back to the same entity
        byent = {}
        for j, it in enumerate(full):
            if r.random() > names:
                continue
            if j % 2 == 0:
                x = walk[j // 2]
                if ("n", x) in byent and r.random() < 0.6:
                    it["name"] = byent[("n", x)]
                elif r.random() < 0.06 and byent:
                    it["name"] = r.choice([v for k, v in byent.items() if k[0] == "n"] or [""])
                else:
                    it["name"] = "n%d" % j
                    byent[("n", x)] = it["name"]
            else:
                e = hops[j // 2]
                fixed = it["min"] == 1 and it["max"] == 1
                if fixed and repeat_edges and ("e", e) in byent and r.random() < 0.6:
                    it["name"] = byent[("e", e)]
                else:
                    it["name"] = "e%d" % j
                    if fixed:
                        byent[("e", e)] = it["name"]
        return full

    def guise_i(self, v):
        return ["n", v] if self.r.random() < 0.3 else v

    def syms(self, pat, wrong=0.08):
        """bind some names that occur once"""
        r, G = self.r, self.G[self.g]
        cnt = {}
        for it in pat:
            cnt[it["name"]] = cnt.get(it["name"], 0) + 1
        sym = {}
        ns, es = list(G["N"]), list(G["E"])
        for j, it in enumerate(pat):
            if not it["name"] or cnt[it["name"]] > 1 or r.random() < 0.4:
                continue
            kind = "n" if j % 2 == 0 else "e"
            if r.random() < wrong:
                kind = "e" if kind == "n" else "n"
            pool = ns if kind == "n" else es
            k = r.choice([0, 1, 1, 2, 2, 3, len(pool)] + ([len(pool) // 2, r.randint(1, len(pool))] if len(pool) > 8 else []))
            if k == 0 and r.random() < 0.6:
                k = 1
            sym[it["name"]] = [kind, r.sample(pool, min(k, len(pool)))]
            if kind == "e" and r.random() < 0.5 and es:     # the edges of a path, often a closed one
                at, way = r.choice(ns), []
                for _ in range(r.randint(1, 4)):
                    o = [e for e in es if G["E"][e][0] == at and e not in way]
                    if not o:
                        break
                    way.append(r.choice(o))
                    at = G["E"][way[-1]][1]
                sym[it["name"]] = [kind, way]
            if not sym[it["name"]][1] and r.random() < 0.5:
                sym[it["name"]] = ["none", []]      # a symbol that was never added to
        if r.random() < 0.1:
            sym["unused"] = ["n", r.sample(ns, min(1, len(ns)))]
        return sym

    def force(self, pat):
        """make some item of the pattern the cheapest one"""
        r = self.r
        if len(pat) == 1:
            return
        x = r.random()
        js = ["P%d" % (j + 1) for j, it in enumerate(pat) if j % 2 == 0 and "P%d" % (j + 1) in it["ls"]]
        if x < 0.55 and js:
            self.decoys(r.choice(js), k=r.randint(1, 5), edges=r.choice([0, 0, 3, 6]))
        elif x < 0.8 and js:
            # edges cheapest: many nodes that lack one needed label each
            for j in js:
                self.decoys(j, k=r.randint(2, 4))


def too_many(h, pat, cap):
    """a bound on the size of the search, not an expectation: names, properties
    and bindings are ignored"""
    G = h.G[h.g]
    cnt = [0]

    class Stop(Exception):
        pass

    def node_ok(j, n):
        return set(pat[j]["ls"]) <= set(G["N"][n][0])

    def go(j, n):
        if not node_ok(j, n):
            return
        if j + 1 >= len(pat):
            cnt[0] += 1
            if cnt[0] > cap:
                raise Stop
            return
        walk(j, n, 0, set())

    def walk(j, n, k, used):
        cnt[0] += 0.1          # a trail that may lead nowhere
        if cnt[0] > cap:
            raise Stop
        it = pat[j + 1]
        mx = 99 if it["max"] == -1 else it["max"]
        if k >= max(1, it["min"]):
            go(j + 2, n)
        else:
            cnt[0] += 0.2
        if k >= mx:
            return
        for e, x in G["E"].items():
            if e in used or (it["ls"] and x[2] not in it["ls"]):
                continue
            for a, b, ok in ((x[0], x[1], not it["left"]), (x[1], x[0], it["left"] or it["und"])):
                if ok and a == n:
                    walk(j, b, k + 1, used | {e})
    try:
        for n in G["N"]:
            go(0, n)
    except Stop:
        return True
    return False


def index_some(h, g, r):
    for _ in range(r.choice([0, 0, 1, 2])):
        h.ix(g, k=r.choice("iij"), what=r.choice(["n", "e"]))


def pattern_case(rnd, sid, prop, sizes=(5, 6)):
    h = PatGen(rnd, sid)
    r = rnd
    wide = r.random() < 0.06
    if wide:
        h.build_wide()
    else:
        h.build(*sizes)
    index_some(h, h.g, r)
    if prop == "C08":
        for k in range(r.choice([1, 2])):
            pat = h.pattern_wide() if wide else h.pattern(repeat_edges=False)
            if wide and len([1 for it in pat[1::2] if it["name"]]) > len({it["name"] for it in pat[1::2] if it["name"]}):
                continue
            sym = h.syms(pat, wrong=0) if r.random() < 0.15 else {}
            key = "k%d" % k
            api = r.choice(["run", "plan", "paths", "nodes", "run"])

            def ask(api=api):
                kw = dict(sym=sym) if sym else {}
                if not too_many(h, pat, 300):
                    h.q("pat", g=h.g, pat=pat, api=api, key=key + api, **kw)
                h.end()
            ask()
            js = [j for j, it in enumerate(pat) if j % 2 == 0 and "P%d" % (j + 1) in it["ls"]]
            r.shuffle(js)
            for j in js[:3]:
                if len(pat) > 1:
                    h.decoys("P%d" % (j + 1), k=r.randint(4, 8), edges=r.choice([0, 0, 5]))
                    ask()
            keys = {k for it in pat for k in it["p"]}
            if r.random() < (0.5 if "j" not in keys else 0.8):
                for k in r.choice(["i", "i", "h", "ih"] if "j" not in keys else ["j", "j", "ij", "jh"]):
                    h.ix(h.g, k=k, what="n")
                    h.ix(h.g, k=k, what="e")
                ask()
        return h.script()
    for _ in range(r.choice([1, 2, 3])):
        h.end()         # what follows would change the answers that are due
        pat = h.pattern_wide() if wide else h.pattern()
        if r.random() < 0.6:
            h.force(pat)
        api = r.choice(["run", "plan", "paths", "nest", "nodes"] if prop != "C09" else ["run", "plan", "paths", "nest"])
        kw = {}
        if prop == "C27" or (prop in ("C09", "C19") and r.random() < (0.2 if prop == "C09" else 0.5)):
            for j, it in enumerate(pat):       # names are the point here
                if not it["name"] and r.random() < 0.7:
                    it["name"] = "x%d" % j
            kw["sym"] = h.syms(pat)
        if too_many(h, pat, 300):
            continue
        h.q("pat", g=h.g, pat=pat, api=api, key="", **kw)
        if prop == "C19":
            h.q_snap(h.g)
        if r.random() < 0.3:
            h.end()
            for _ in range(r.randint(1, 3)):     # change the graph between searches
                x = r.random()
                if x < 0.5 and h.edges and h.G[h.g]["E"].get(h.edges[-1]):
                    h.rme(h.g, h.edges.pop())
                elif x < 0.8:
                    h.edges.append(h.ne(h.g, f=r.choice(h.reals), t=r.choice(h.reals), l=r.choice(PEL), p={}))
                else:
                    h.ix(h.g, k=r.choice("iihj"))
    return h.script()


def trails_case(rnd, sid):
    h = PatGen(rnd, sid)
    r = rnd
    wide = r.random() < 0.05
    if wide:
        h.build_wide(long=True)
    else:
        h.build(maxn=4, maxe=7, loops=0.2)
    G = h.G[h.g]
    for _ in range(r.randint(2, 5)):
        u, d = r.choice(h.reals if not wide else [h.reals[0], h.reals[0], h.reals[-1], r.choice(h.reals)]), r.choice(["out", "in", "any"])
        mn, mx = r.choice(BOUNDS + [(1, 1), (1, 4), (4, -1), (2, 1), (1, -1), (1, -1)] + (LONG if h.ring else []))
        kw = {}
        cand = [e for e, x in G["E"].items() if (d != "in" and x[0] == u) or (d != "out" and x[1] == u)]
        if r.random() < 0.2:
            kw["nest"] = True
        if r.random() < 0.4:
            kw["first"] = [e for e in cand if r.random() < 0.6]
        ls = r.choice([[], [], [r.choice(PEL)], ["L", "M"], ["", "L"]])
        if wide and r.random() < 0.7:
            ls = r.choice([[], r.sample(h.pool, r.randint(1, len(h.pool)))])
            mn, mx = r.choice([(1, -1), (1, -1), (8, -1), (1, 30), (10, 12), (1, 1)])
        p = {"i": I(r.randint(0, 1))} if r.random() < 0.15 else {}
        nd = dict(ls=[], p={}, min=1, max=1, left=False, und=False, name="")
        if too_many(h, [dict(nd, ls=[h.only[u]] if u in h.only else []), dict(nd, ls=ls, min=mn, max=mx, left=d == "in", und=d == "any"), nd], 2500):
            continue
        h.q("trails", g=h.g, h=u, d=d, ls=ls, p=p, min=mn, max=mx, stop=r.choice([0, 0, 0, 1, 2, 3] + ([0, 9, 17] if wide else [])), **kw)
        if r.random() < 0.3:
            h.q_snap(h.g)
    return h.script()


# ------------------------------------------------------------ paths, cursors

def src(E, s):
    return E[s[0]][1] if s[1] else E[s[0]][0]


def tgt(E, s):
    return E[s[0]][0] if s[1] else E[s[0]][1]


class PathGen(Hist):
    """keeps the shadow paths needed to ask for meaningful operations"""

    def build(self, n=5, m=9, big=0.08):
        r = self.r
        self.g = self.ng()
        self.big = r.random() < big
        if self.big:
            n, m = r.choice([(3, 20), (3, 20), (8, 40), (20, 60), (40, 60)])
            for _ in range(n):
                self.nn(self.g, p={})
            ns = list(self.G[self.g]["N"])
            if r.random() < 0.7:            # a long way through
                for a, b in zip(ns, ns[1:]):
                    self.ne(self.g, f=a, t=b, p={})
            for _ in range(r.randint(m // 2, m)):
                self.ne(self.g, p=self.some())
            n = m = 0
        for _ in range(r.randint(2, n) if n else 0):
            self.nn(self.g, p=self.some())
        for _ in range(r.randint(1, m) if m else 0):
            self.ne(self.g, p=self.some())
        # loops have no direction in a path: prefixes are asked for only where
        # none is crossed backwards
        self.plain = r.random() < 0.6
        self.slot, self.nslot = [], 0
        self.P = {}     # path handle -> [nodes, steps] ; steps = [[e, rev]..]
        self.E0 = {e: list(x) for e, x in self.G[self.g]["E"].items()}   # ends, also of removed edges
        self.q_snap(self.g)
        self.end()

    def some(self):
        """mostly nothing, sometimes a few properties"""
        r = self.r
        if not hasattr(self, "dressed"):
            self.dressed = r.random() < 0.35
        return {k: I(r.randint(0, 1)) for k in r.sample(WPK, r.choice([0, 1, 2, 3, 5]))} if self.dressed else {}

    def chain(self, at=None, n=None):
        """a connected sequence of steps over live edges"""
        r = self.r
        E = self.G[self.g]["E"]
        n = r.choice([1, 1, 2, 2, 3, 4] + ([5, 9, 16, 17, 33, 40, 65] if self.big else [])) if n is None else n
        out = []
        for _ in range(n):
            opts = [[e, rev] for e in E for rev in (False, True) if (at is None or src(E, [e, rev]) == at) and
                    not (rev and self.plain and E[e][0] == E[e][1])]
            if not opts:
                break
            s = r.choice(opts)
            out.append(s)
            at = tgt(E, s)
        return out

    def last(self, p):
        nodes, steps = self.P[p]
        return nodes[-1] if nodes else None


def paths_case(rnd, sid, prop="C11", nops=14):
    h = PathGen(rnd, sid)
    h.build()
    r, g = rnd, h.g
    N, E = h.G[g]["N"], h.G[g]["E"]
    cnt = [0]

    def newp():
        cnt[0] += 1
        return cnt[0]

    def setp(p, nodes, steps):
        h.P[p] = [list(nodes), [list(s) for s in steps]]

    def nodes_of(steps):
        return [src(h.E0, steps[0])] + [tgt(h.E0, s) for s in steps]

    def obs():
        for p in list(h.P):
            h.q("path", h=p)
            if h.plain and r.random() < 0.3:
                h.q("pprefixp", h=p, s=r.choice(list(h.P)))
            if h.plain and r.random() < 0.4:
                nodes, steps = h.P[p]
                k = r.randint(0, len(steps))
                els = [s for s in steps[:k] if True]
                if True:
                    if r.random() < 0.5 and E:
                        e = r.choice(list(E))
                        if e not in [s[0] for s in steps] and h.E0[e][0] != h.E0[e][1]:
                            els = els + [[e, r.random() < 0.5]]
                            els = els[-len(els):] if r.random() < 0.7 else [els[-1]] + els[:-1]
                    if els or len(nodes) >= 2:
                        h.q("pprefix", h=p, els=els)
                    if len(els) > 4 and len(E) > 1:     # one edge another one
                        j, e = r.randrange(len(els)), r.choice(list(E))
                        if h.E0[e][0] != h.E0[e][1]:
                            h.q("pprefix", h=p, els=els[:j] + [[e, els[j][1]]] + els[j + 1:])
        h.q_snap(g)
        h.end()

    focus = []          # what to do next, to which paths: copies and their originals
    for _ in range(nops):
        x = r.random()
        if not focus and h.P and x > 0.9:
            ps = [p for p in h.P if h.P[p][1]]
            if ps:
                p = r.choice(ps)
                q = cnt[0] + 1
                if h.big:               # a long one, most often
                    p = max(ps, key=lambda p: len(h.P[p][1]) * r.random())
                focus = [(p, r.choice(["pclone", "pclone", "pslice"] + ["pslice", "pslice"] * h.big))]
                focus += [(r.choice([p, p, q]), r.choice(["prml", "prml", "pappend", "pappendp"])) for _ in range(r.randint(1, 2))]
                focus += [(r.choice([p, p, q]), r.choice(["pappend", "pappend", "pappendp"]))]
                if r.random() < 0.35:
                    # the same for a path appended to an empty one
                    focus[0] = (p, "pinto")
        if not focus and (not h.P or x < 0.2):
            p = newp()
            k = r.choice(["pnode", "pels", "pedges", "pempty", "pels"])
            if k == "pnode":
                n = r.choice(list(N))
                h.op("pnode", h=p, n=n)
                setp(p, [n], [])
            elif k == "pels":
                els = h.chain()
                if r.random() < 0.1:
                    els = []
                if r.random() < 0.3 and (h.slot or els):
                    # a slice that the caller keeps; its edges may be gone by now
                    if h.slot and all(e in E for e, _ in h.slot):
                        els = h.slot
                    else:
                        h.slot, h.nslot = els, h.nslot + 1
                    if els:
                        h.op("pels", h=p, els=els, sl=h.nslot)
                    else:
                        h.slot = []
                        h.op("pels", h=p, els=els)
                else:
                    h.op("pels", h=p, els=els)
                setp(p, nodes_of(els) if els else [], els)
            elif k == "pedges":
                els = []
                at = None
                for _ in range(r.randint(1, 40 if h.big and r.random() < 0.5 else 3)):
                    o = [e for e in E if at is None or E[e][0] == at]
                    if not o:
                        break
                    e = r.choice(o)
                    els.append([e, False])
                    at = E[e][1]
                h.op("pedges", h=p, es=[e for e, _ in els])
                setp(p, nodes_of(els) if els else [], els)
            else:
                h.op("pempty", h=p)
                setp(p, [], [])
        else:
            p, k0 = focus.pop(0) if focus else (r.choice(list(h.P)), None)
            if p not in h.P:
                continue
            nodes, steps = h.P[p]
            k = k0 or r.choice(["pclone", "pslice", "pslice", "ponly", "pclear", "pappend", "pappend", "pappend", "pbad", "pappendp",
                          "pappendp", "prml", "prml", "prmf"])
            if k == "pclone":
                q = newp()
                h.op("pclone", h=q, s=p)
                setp(q, nodes, steps)
            elif k == "pinto":
                q = newp()
                if len(h.P) > 1 and r.random() < 0.5:
                    o = r.choice([o for o in h.P if o != p])
                    h.op("pclear", h=o)
                    del h.P[o]
                    focus[:] = [(o if x == q else x, y) for x, y in focus]
                    q = o
                else:
                    h.op("pempty", h=q)
                h.op("pappendp", h=q, s=p)
                setp(q, nodes, steps)
            elif k == "pslice" and nodes:
                L = len(nodes)
                opts = [(0, 0)]
                for a in range(L):
                    for b in list(range(a, L + 2)) + [-1]:
                        e = L if b == -1 or b > L else b
                        if e >= a + 2 or (a == L - 1 and e == L) or (a == b and a < len(steps)):
                            opts.append((a, b))
                a, b = r.choice(opts)
                if h.big and r.random() < 0.5:      # most of it
                    a, b = r.choice([o for o in opts if (L if o[1] == -1 or o[1] > L else o[1]) - o[0] > 0.7 * L] or opts)
                q = newp()
                h.op("pslice", h=q, s=p, a=a, b=b)
                e = L if b == -1 or b > L else b
                if (a, b) == (0, 0):
                    setp(q, nodes[:1], [])
                elif a == b or a == L - 1:
                    setp(q, [nodes[a]], [])
                else:
                    setp(q, nodes[a:e], steps[a:e - 1])
            elif k == "ponly":
                n = r.choice(list(N))
                h.op("ponly", h=p, n=n)
                setp(p, [n], [])
            elif k == "pclear":
                h.op("pclear", h=p)
                setp(p, [], [])
            elif k == "pappend":
                els = h.chain(nodes[-1] if nodes else None)
                h.op("pappend", h=p, els=els, mut=r.random() < 0.5)
                if els:
                    setp(p, (nodes or [src(h.E0, els[0])]) + [tgt(h.E0, s) for s in els], steps + els)
            elif k == "pbad" and E:
                # very likely not connected; the specification knows
                els = [[r.choice(list(E)), r.random() < 0.5] for _ in range(r.randint(1, 3))]
                if r.random() < 0.5:
                    # a chain with one element exchanged
                    els = h.chain(nodes[-1] if nodes else None, r.choice([None, 5, 7])) or els
                    els[r.randrange(len(els))] = [r.choice(list(E)), r.random() < 0.5]
                if h.plain:
                    els = [[e, v and E[e][0] != E[e][1]] for e, v in els]
                ok = all(tgt(E, els[i]) == src(E, els[i + 1]) for i in range(len(els) - 1)) and \
                    (not nodes or nodes[-1] == src(E, els[0]))
                h.op("pappend", h=p, els=els)
                if ok:
                    setp(p, (nodes or [src(h.E0, els[0])]) + [tgt(h.E0, s) for s in els], steps + els)
            elif k == "pappendp":
                q = r.choice(list(h.P))
                if r.random() < 0.6:            # one that fits
                    q = newp()
                    els = h.chain(nodes[-1] if nodes else None)
                    h.op("pels", h=q, els=els)
                    setp(q, nodes_of(els) if els else [], els)
                n2, s2 = h.P[q]
                if len(n2) == 1 and nodes and nodes[-1] != n2[0]:
                    continue
                h.op("pappendp", h=p, s=q)
                if not nodes:
                    setp(p, n2, s2)
                elif s2 and nodes[-1] == n2[0]:
                    setp(p, nodes + n2[1:], steps + s2)
            elif k == "prml":
                h.op("prml", h=p)
                if nodes:
                    setp(p, nodes[:-1], steps[:-1])
            elif k == "prmf" and not steps:
                h.op("prmf", h=p)           # no edge to remove
                setp(p, [], [])
            elif k == "prmf" and len(steps) >= 2 and r.random() < 0.4:
                e = steps[0][0]
                if e in E and all(s[0] != e for s in steps[1:]):
                    h.op("prmf", h=p)
                    setp(p, nodes[1:], steps[1:])
                    del E[e]
                    # paths over the removed edge are not looked at again
                    for q in [q for q in h.P if any(s[0] == e for s in h.P[q][1])]:
                        del h.P[q]
                    h.end()
                    obs()
        obs()
        if len(h.P) > 6:
            del h.P[r.choice(list(h.P))]
    return h.script()


def cursor_case(rnd, sid, nops=14):
    h = PathGen(rnd, sid)
    h.build()
    r, g = rnd, h.g
    N, E = h.G[g]["N"], h.G[g]["E"]
    h.op("cnew", h=1)
    cur, path, base = None, None, None

    def obs():
        h.q("cpath", h=1)
        for _ in range(2):
            m = r.choice(["edges", "with", "fwd", "bwd", "fwdw", "bwdw"])
            h.q("cedges", h=1, m=m, **(dict(d=r.choice(["in", "out", "any"])) if m in ("edges", "with") else {}),
                **(dict(l=h.elabel()) if m in ("with", "fwdw", "bwdw") else {}))
            m = r.choice(["nodes", "with", "next", "prev", "nextw", "prevw", "nodes"])
            h.q("cnodes", h=1, m=m, **(dict(d=r.choice(["in", "out", "any"])) if m in ("nodes", "with") else {}),
                **(dict(l=h.elabel()) if m in ("with", "nextw", "prevw") else {}))
        h.q_snap(g)
        h.end()
    obs()
    if h.big:
        nops = r.randint(30, 90)
    sets = 0.12 if not h.big else 0.02
    for k in range(nops):
        x = r.random()
        if cur is None or x < sets:
            n = r.choice(list(N))
            h.op("cset", h=1, n=n)
            cur = n
            h.op("cstart", h=1)
            path = []
            base = n
        elif x < 0.65:
            o = [e for e in E if E[e][0] == cur]
            if o and r.random() < 0.85:
                e = r.choice(o)
            elif E:
                e = r.choice(list(E))
            if path is None or not E:
                continue
            h.op("cpush", h=1, e=e)
            if E[e][0] == cur:
                path.append((e, cur))
                cur = E[e][1]
        elif x < 0.72 and path is not None and E:
            # the path is extended directly, also against the direction of edges
            els = h.chain(at=cur, n=r.choice([1, 1, 2, 3]))
            if not els:
                continue
            h.op("capp", h=1, els=els)
            for s in els:
                path.append((s[0], cur))
                cur = tgt(E, s)
            o = [e for e in E if E[e][0] == cur]
            if o and r.random() < 0.3:
                e = r.choice(o)
                h.op("cpush", h=1, e=e)
                path.append((e, cur))
                cur = E[e][1]
            else:
                h.op("cpop", h=1)
                cur = path.pop()[1]
        elif x < 0.8 and len(E) < 14:
            h.ne(g, p=h.some())
        elif x < 0.86:
            e = r.choice(list(E)) if E else None
            if e and e not in [y[0] for y in path or ()]:
                h.rme(g, e)
        elif path:
            for _ in range(1 if not h.big or r.random() < 0.7 else r.randint(1, len(path))):
                h.op("cpop", h=1)
                cur = path.pop()[1]
        if not h.big or k % 4 == 0 or k > nops - 3:
            obs()
    return h.script()


# --------------------------------------------------------------------- copies

def copy_case(rnd, sid, nops=8, c19=False):
    h = Hist(rnd, sid)
    r = rnd
    a, b = h.ng(), h.ng()
    big = r.random() < 0.05
    long = big and r.random() < 0.3     # one long way
    if big:
        nops = 3 if not long else 2
    for g in (a, b):
        for _ in range(r.randint(0, 4) if g == b else r.randint(102, 125) if long else r.randint(10, 60) if big else r.randint(1, 6)):
            h.nn(g)
        if big and g == a:
            ns = list(h.G[g]["N"])
            x = r.random() if not long else 0
            if long and r.random() < 0.7:
                h.ne(g, f=ns[-1], t=ns[-1])
            for f, t in zip(ns, ns[1:]) if x < 0.6 else [(ns[0], t) for t in ns] if x < 0.8 else []:
                h.ne(g, f=f, t=t)
        for _ in range(r.randint(0, 3 if long else 60 if big and g == a else 8) if h.G[g]["N"] else 0):
            h.ne(g)
    for g in (a, b):
        for _ in range(r.choice([0, 2, 4])):
            h.ix(g)
    h.q_snap(a)
    h.end()
    cms = [1]
    CF = ["id", "deep", "const", "tag"]
    back, lost = False, 0
    mixed = [False, False]      # the target, the source hold values of changed kinds

    def obs():
        for g in (a, b):
            h.q_snap(g)
            h.q("nal", g=g, ls=h.lset_q())
            h.q("eal", g=g, ls=r.sample(h.el, r.choice([1, 2, 3])))
            h.q_prop(g, 1)
            h.q("nodes", g=g)
        h.q_adj(a, 2)
        h.q_adj(b, 3)
        h.end()

    def reach(g, n):
        G = h.G[g]
        R = {n}
        while True:
            R2 = R | {x[1] for x in G["E"].values() if x[0] in R}
            if R2 == R:
                return R
            R = R2
    used = {}
    for _ in range(nops):
        A = h.G[a]
        k = r.choice(["copyg", "copyf", "copysub", "copysub", "copyn", "clonee", "mut", "mut", "mut"] if not long else ["copysub", "copysub", "copyg"])
        if h.G[b]["nix"] or h.G[b]["eix"]:
            cf = r.choice(CF[:2])     # copies that change kinds must not land in a sorted index
        else:
            cf = r.choice(CF)
        if k != "mut" and cf in ("const", "tag"):
            mixed[0] = True
        if not A["N"]:
            h.nn(a)
        if len(h.G[b]["N"]) > (120 if big else 14) and k in ("copyg", "copyf", "copysub"):
            k = "mut"
        B = h.G[b]
        if back and (k in ("copyf", "copysub") or k == "copyg" and A.get("inexact")):
            k = "mut"       # the ends of some edges are unknown here
        if mixed[1] and k != "mut":
            if B["nix"] or B["eix"]:
                continue
            mixed[0] = True
        if k in ("copyg", "copyn", "clonee") and r.random() < 0.2 and not B.get("inexact") and B["N"] and len(A["N"]) <= 14:
            # the other way round: copies of copies
            mixed[1] = mixed[1] or mixed[0] or cf in ("const", "tag")
            if A["nix"] or A["eix"]:
                if mixed[1]:
                    continue
                cf = r.choice(CF[:2])
            if k == "copyg":
                cms.append(cms[-1] + 1)
                h.op("copyg", g=b, d=a, cf=cf, cm=cms[-1])
                back = True
                h.copied(b, a)
            elif k == "copyn":
                n, hh = r.choice(list(B["N"])), h.fresh()
                h.op("copyn", n=n, d=a, cf=cf, h=hh)
                A["N"][hh] = [list(B["N"][n][0]), {}]
            elif B["E"]:
                e, hh = r.choice(list(B["E"])), h.fresh()
                f, t = r.choice(list(A["N"])), r.choice(list(A["N"]))
                h.op("clonee", f=f, t=t, e=e, d=a, cf=cf, h=hh)
                A["E"][hh] = [f, t, B["E"][e][2], {}]
        elif k == "copyg":
            cms.append(cms[-1] + 1)
            h.op("copyg", g=a, d=b, cf=cf, cm=cms[-1])
            h.copied(a, b)
            if A["E"] and r.random() < 0.7:
                e, hh = r.choice(list(A["E"])), h.fresh()
                h.op("copye", e=e, d=b, cf=cf, cm=cms[-1], h=hh)
                h.G[b]["E"][hh] = [0, 0, "", {}]
        elif k == "copyf":
            skn = [n for n in A["N"] if r.random() < 0.25]
            ske = [e for e in A["E"] if r.random() < 0.2]
            kw, on = {}, []
            if B["N"] and not back and r.random() < 0.5:
                # nodes of the target take the place of copies, perhaps one of several
                there = r.sample(list(B["N"]), min(len(B["N"]), r.choice([1, 1, 2])))
                on = [n for n in A["N"] if n not in skn and r.random() < 0.5]
                kw["onto"] = [[n, r.choice(there)] for n in on]
            h.op("copyf", g=a, d=b, cf=cf, skipn=skn, skipe=ske, **kw)
            h.copied(a, b, len(A["N"]) - len(skn) - len(on),
                     len([1 for e, x in A["E"].items() if e not in ske and x[0] not in skn and x[1] not in skn]))
        elif k == "copysub":
            gone = len([x for x in h.dead_n if x > 100000])     # copies that are no longer there
            if r.random() < 0.6 or used.get(cms[-1]) is None or gone != lost:
                cms.append(cms[-1] + 1)
                used[cms[-1]] = set()
                lost = gone
            n = r.choice(list(A["N"])[:1 if long else 2 if big and r.random() < 0.7 else None])
            old = used[cms[-1]]
            if any(x not in A["N"] for x in old):
                continue
            h.op("copysub", n=n, d=b, cf=cf, cm=cms[-1])
            R, todo = set(), [] if n in old else [n]
            while todo:
                x = todo.pop()
                if x in R:
                    continue
                R.add(x)
                todo += [y[1] for y in A["E"].values() if y[0] == x and y[1] not in old]
            h.copied(a, b, len(R), len([1 for x in A["E"].values() if x[0] in R]))
            used[cms[-1]] = old | R
        elif k == "copyn":
            n, hh = r.choice(list(A["N"])), h.fresh()
            h.op("copyn", n=n, d=b, cf=cf, h=hh)
            h.G[b]["N"][hh] = [list(A["N"][n][0]), {}]
        elif k == "clonee" and A["E"] and h.G[b]["N"]:
            e, hh = r.choice(list(A["E"])), h.fresh()
            f, t = r.choice(list(h.G[b]["N"])), r.choice(list(h.G[b]["N"]))
            h.op("clonee", f=f, t=t, e=e, d=b, cf=cf, h=hh)
            h.G[b]["E"][hh] = [f, t, A["E"][e][2], {}]
        elif k == "mut":
            for _ in range(r.randint(1, 4)):
                g = r.choice([a, b, b])
                ixw = 0 if mixed[0 if g == b else 1] else 0.5
                w = dict(ixn=ixw, ixe=ixw)
                if g == a:
                    # nodes that were copied stay, so that node maps stay usable
                    w["dr"] = 0.5
                h.rand_op(g, w)
        obs()
    return h.script()


# ----------------------------------------------------------------- isomorphism

def cycles(*lens):
    out, k = [], 0
    for n in lens:
        out += [(k + i, k + (i + 1) % n) for i in range(n)]
        k += n
    return out


REGULAR = [          # graphs that agree in all local counts
    [cycles(6), cycles(3, 3), cycles(2, 4), cycles(1, 5), cycles(1, 2, 3), cycles(2, 2, 2)],
    [cycles(7), cycles(3, 4), cycles(2, 5), cycles(1, 3, 3)],
    [cycles(5), cycles(2, 3), cycles(1, 4), cycles(1, 1, 3)],
    [cycles(4), cycles(2, 2), cycles(1, 3)],
    # both ways: hexagon, triangles
    [[e for x, y in c for e in ((x, y), (y, x))] for c in (cycles(6), cycles(3, 3))],
    # prism and K33, oriented by index
    [[(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (0, 3), (1, 4), (2, 5)], [(i, 3 + j) for i in range(3) for j in range(3)],
     [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)], [(0, 1), (1, 2), (2, 0), (3, 5), (5, 4), (4, 3), (0, 3), (1, 4), (2, 5)]],
    # tournaments on four nodes with the same degrees
    [[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)], [(0, 1), (1, 2), (2, 0), (3, 0), (1, 3), (3, 2)]],
]


def iso_regular(rnd, sid):
    h = Hist(rnd, sid)
    r = rnd
    a, b = h.ng(), h.ng()
    fam = r.choice(REGULAR)
    x = r.choice(fam)
    y = x if r.random() < 0.4 else r.choice(fam)
    n = 1 + max(max(e) for e in x)
    twist = r.random()
    el = lambda e, k: "" if twist < 0.5 else ["", "L"][k % 2] if twist < 0.8 else r.choice(["", "L"])
    nl = [[] for _ in range(n)] if r.random() < 0.6 else [["A"] if i % r.choice([2, 3]) == 0 else [] for i in range(n)]
    xl = [el(e, k) for k, e in enumerate(x)]
    yl = xl if len(x) == len(y) else [""] * len(y)
    if r.random() < 0.3 and len(x) > 1 and len(yl) == len(x):
        yl = list(yl)
        i, j = r.sample(range(len(yl)), 2)
        yl[i], yl[j] = yl[j], yl[i]
    for g, es, ls in ((a, x, xl), (b, y, yl)):
        perm = r.sample(range(n), n) if g == b or r.random() < 0.3 else list(range(n))
        N = {}
        for i in perm:
            N[i] = h.nn(g, ls=nl[i], p={})
        es = list(zip(es, ls))
        r.shuffle(es)
        for (f, t), l in es:
            h.ne(g, f=N[f], t=N[t], l=l, p={})
    for p, q in ((a, b), (b, a)):
        h.q("iso", a=p, b=q, ne=r.choice(["true", "labels"]), ee=r.choice(["true", "labels"]))
    return h.script()


def iso_wide(rnd, sid):
    """bundles of parallel edges, or many nodes told apart by their labels"""
    h = Hist(rnd, sid)
    r = rnd
    a, b = h.ng(), h.ng()
    apart = r.random() < 0.4
    n = r.choice([8, 12, 17, 25]) if apart else r.choice([1, 2, 2, 3])
    m = r.choice([3, 6, 9, 10, 12, 17, 18, 33, 40])
    pairs = [(r.randrange(n), r.randrange(n)) for _ in range(max(1, m // 2) if apart else r.choice([1, 1, 2]))]
    lab = r.choice([["L"], ["L"], ["", "L"], ["L", "M", "N"]])
    pr = r.choice([[{}], [{"i": I(0)}], [{"i": I(0)}, {}], [{"i": I(0)}, {"i": I(1)}, {"s": S("")}]])
    es = [list(r.choice(pairs)) + [r.choice(lab), r.choice(pr)] for _ in range(m)]
    nl = [["A", "N%d" % i] for i in range(n)] if apart else [r.choice([[], ["A"]]) for _ in range(n)]
    es2 = [list(e) for e in es]
    nl2 = [list(x) for x in nl]
    ch = r.choice(["same", "same", "prop", "lab", "relabel", "move", "flip", "swap", "twins", "nlab"])
    e = r.choice(es2)
    if ch == "prop":
        e[3] = r.choice([{}, {"i": I(0)}, {"i": I(1)}])
    elif ch == "lab":
        e[2] = r.choice(["", "L", "M", "Z"])
    elif ch == "relabel":       # the same up to the labels of the edges
        f = {l: r.choice(["", "L", "M", "N", "Z"]) for l in lab}
        for x in es2:
            x[2] = f[x[2]]
    elif ch == "move":
        e[r.randrange(2)] = r.randrange(n)
    elif ch == "flip":
        e[0], e[1] = e[1], e[0]
    elif ch == "swap":
        x = r.choice(es2)
        x[1], e[1] = e[1], x[1]
    elif ch == "twins":         # the same values, in other numbers
        x = r.choice(es2)
        x[2:] = e[2:]
    elif ch == "nlab":
        nl2 = [x + ["B"] for x in nl2]
    for g, el, ls in ((a, es, nl), (b, es2, nl2)):
        N = {}
        for i in r.sample(range(n), n):
            N[i] = h.nn(g, ls=ls[i], p={})
        if r.random() < 0.7:
            r.shuffle(el)
        for e in el:
            h.ne(g, f=N[e[0]], t=N[e[1]], l=e[2], p=e[3])
    for x, y in ((a, b), (b, a)):
        h.q("iso", a=x, b=y, ne="labels" if apart else r.choice(["true", "labels", "lp"]), ee=r.choice(["true", "labels", "lp", "lp"]))
    return h.script()


def iso_case(rnd, sid):
    if rnd.random() < 0.15:
        return iso_regular(rnd, sid)
    if rnd.random() < 0.15:
        return iso_wide(rnd, sid)
    h = Hist(rnd, sid)
    r = rnd
    a, b = h.ng(), h.ng()
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 4, 5])
    m = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7]) if n else 0
    ls = [r.choice([[], [], ["A"], ["A", "B"]]) for _ in range(n)]
    ps = [r.choice([{}, {}, {"i": I(r.randint(0, 1))}]) for _ in range(n)]
    es = [[r.randrange(n), r.randrange(n), r.choice(["", "", "L"]), r.choice([{}, {}, {"i": I(r.randint(0, 1))}])] for _ in range(m)]
    if r.random() < 0.3 and m > 1:
        es[-1][:2] = es[0][:2]
    if r.random() < 0.35 and n > 2:
        # two components of the same kind
        es = [[i, (i + 1) % n, "", {}] for i in range(n)] if r.random() < 0.5 else es
    hub = n > 1 and r.random() < 0.12
    if hub:
        # one node has an edge to (or from) every node, or every other node
        es = [[0, i, r.choice(["", "", "L"]), r.choice([{}, {}, {"i": I(r.randint(0, 1))}])] for i in range(r.choice([0, 0, 1]), n)]
        es += [[r.randrange(n), r.randrange(n), "", {}] for _ in range(r.choice([0, 0, 0, 1]))]
        if r.random() < 0.4:
            es = [[x[1], x[0]] + x[2:] for x in es]
    A = [h.nn(a, ls=ls[i], p=ps[i]) for i in range(n)]
    perm = list(range(n))
    r.shuffle(perm)
    for e in es:
        h.ne(a, f=A[e[0]], t=A[e[1]], l=e[2], p=e[3])
    # b: the same up to order, then perhaps one change that keeps the counts
    B = {}
    ls2, ps2, es2 = [list(x) for x in ls], [dict(x) for x in ps], [[x[0], x[1], x[2], dict(x[3])] for x in es]
    ch = r.choice(["same", "same", "move", "flip", "lab", "nlab", "prop", "eprop", "add", "addn", "swap", "swap", "regular"] if not hub else ["same", "lab", "lab", "lab", "eprop", "eprop", "move", "flip"])
    if ch == "move" and es2:
        e = r.choice(es2)
        e[r.randrange(2)] = r.randrange(n)
    elif ch == "flip" and es2:
        e = r.choice(es2)
        e[0], e[1] = e[1], e[0]
    elif ch == "lab" and es2:
        r.choice(es2)[2] = r.choice(["", "L"])
    elif ch == "nlab" and n:
        ls2[r.randrange(n)] = r.choice([[], ["A"], ["A", "B"]])
    elif ch == "prop" and n:
        ps2[r.randrange(n)] = {"i": I(r.randint(0, 1))}
    elif ch == "eprop" and es2:
        r.choice(es2)[3] = {"i": I(r.randint(0, 1))}
    elif ch == "add" and n:
        es2.append([r.randrange(n), r.randrange(n), "", {}])
    elif ch == "addn":
        n += 1
        ls2.append([])
        ps2.append({})
        perm.append(n - 1)
    elif ch == "swap" and len(es2) > 1:
        x, y = r.sample(es2, 2)
        x[1], y[1] = y[1], x[1]
    for i in perm:
        B[i] = h.nn(b, ls=ls2[i], p=ps2[i])
    r.shuffle(es2)
    for e in es2:
        h.ne(b, f=B[e[0]], t=B[e[1]], l=e[2], p=e[3])
    for _ in range(2):
        x, y = r.choice([(a, b), (b, a), (a, b), (a, a)])
        kw = {}
        z = r.random()
        if z < 0.25:
            kw["cancel"] = r.randint(0, 12)
        elif z < 0.35:
            kw["cancelled"] = True
        h.q("iso", a=x, b=y, ne=r.choice(["true", "labels", "lp"]), ee=r.choice(["true", "labels", "lp"]), **kw)
    h.q("iso", a=a, b=b, ne="lp", ee="lp")
    if r.random() < 0.5:        # a relation that looks at nothing the graphs hold
        kw = {}
        k = r.choice([1, 2, 2, 3])
        nc, ec = [[x, r.randrange(k)] for x in A], [[x, r.randrange(k)] for x in h.G[a]["E"]]
        other = lambda mine, at: r.choice(mine)[1] if mine and r.random() < 0.1 else at
        if n == len(A):
            nc += [[B[i], other(nc, nc[i][1])] for i in range(n)]
        else:
            nc += [[B[i], r.randrange(k)] for i in range(n)]
        if len(es2) == len(es):
            mine = [x[1] for x in ec]
            if r.random() < 0.7:        # as the edges were made, else in any order
                last = {}
                for i, e in enumerate(es):
                    last.setdefault(tuple(e[:2]), []).append(mine[i])
                mine = [last[tuple(e[:2])].pop() if last.get(tuple(e[:2])) else r.randrange(k) for e in es2]
            ec += [[x, other(ec, mine[i])] for i, x in enumerate(h.G[b]["E"])]
        else:
            ec += [[x, r.randrange(k)] for x in h.G[b]["E"]]
        kw["nc"], kw["ec"] = nc, ec
        h.q("iso", a=a, b=b, ne=r.choice(["true", "labels", "cls", "cls"]), ee="cls", **kw)
        h.q("iso", a=b, b=a, ne="cls", ee=r.choice(["true", "cls", "lp"]), **kw)
    h.q_snap(a)
    h.q_snap(b)
    return h.script()


# ---------------------------------------------------------------------- values

def cmp_case(rnd, sid, n=9):
    r = rnd

    def cs():
        return ["cs", [r.choice([0, 97, 97, 98, 65, 195, 255, 32]) for _ in range(r.choice([0, 1, 1, 2, 3]))]]

    def iv():
        return r.choice([r.randint(-2, 2), r.randint(-1000, 1000), BIG - r.randint(0, 2), -BIG + r.randint(0, 2)])

    def lst(k, depth):
        m = r.choice([0, 1, 1, 2, 2, 3] * 4 + [9, 17, 33]) if depth == 0 else r.choice([0, 1, 2])
        if k == "i":
            x = [iv() for _ in range(m)]
            return ["li", x] if r.random() < 0.5 else ["la", [["i", y] for y in x]]
        if k == "s":
            x = [cs() for _ in range(m)]
            return ["lcs", [y[1] for y in x]] if r.random() < 0.5 else ["la", x]
        return ["la", [v(r.choice(["i", "s", "li", "ls"]), depth + 1) for _ in range(m)]]

    def v(k, depth=0):
        if k == "i":
            x = ["i", iv()]
        elif k == "s":
            x = cs()
        elif k == "li":
            x = lst("i", depth)
        elif k == "ls":
            x = lst("s", depth)
        elif k == "x":
            return ["x", r.choice(XK + ["nil"])]
        else:
            x = lst("n", depth) if depth < 2 else lst("i", depth)
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            x = ["n", x]
        return x
    kind = r.choice(["i", "s", "li", "ls", "mix", "mix", "nest"])
    vs = []
    for _ in range(n):
        k = kind
        if kind == "mix":
            k = r.choice(["i", "s", "li", "ls", "x", "nest"])
        x = v(k)
        if vs and r.random() < 0.35:
            # derived from another: extended, shortened, one element changed, wrapped
            y = r.choice(vs)
            while y[0] == "n":
                y = y[1]
            if y[0] in ("li", "lcs", "la") and y[1]:
                z = list(y[1])
                c = r.random()
                if len(z) > 8:
                    c = c * r.choice([0.2, 0.6])
                if c < 0.12 and y[0] == "lcs" or c < 0.12 and y[0] == "la" and all(e[0] == "cs" for e in z):
                    # the same text in other portions
                    t = sum(z if y[0] == "lcs" else [e[1] for e in z], [])
                    cut = sorted(r.randint(0, len(t)) for _ in range(len(z) - 1))
                    if r.random() < 0.7:        # only one border moves
                        ends = [len(e) if y[0] == "lcs" else len(e[1]) for e in z]
                        cut = [sum(ends[:i + 1]) for i in range(len(z) - 1)]
                        if cut:
                            i = r.randrange(len(cut))
                            cut[i] = r.randint(cut[i - 1] if i else 0, cut[i + 1] if i + 1 < len(cut) else len(t))
                    z = [t[a:b] for a, b in zip([0] + cut, cut + [len(t)])]
                    if y[0] == "la":
                        z = [["cs", e] for e in z]
                elif c < 0.2:
                    i, j = r.randrange(len(z)), r.randrange(len(z))     # two elements exchanged
                    z[i], z[j] = z[j], z[i]
                elif c < 0.3:
                    z = z[:-1]
                elif c < 0.6:
                    z = z + [z[0]]
                elif c < 0.8:
                    z[-1] = z[0]
                x = [y[0], z]
                if y[0] == "li" and r.random() < 0.5:
                    x = ["la", [["i", e] for e in z]]
                if y[0] == "lcs" and r.random() < 0.5:
                    x = ["la", [["cs", e] for e in z]]
            elif y[0] in ("i", "cs"):
                x = ["n", y]
        vs.append(x)
    h = Hist(r, sid)
    h.bytes = True
    h.q("cmps", vs=vs, share=r.random() < 0.5)
    a, b = r.choice(vs), r.choice(vs)
    h.q("cmp", a=a, b=b)
    return h.script()


# ----------------------------------------------------------- string sets etc.

def sets_case(rnd, sid, nops=16):
    h = Hist(rnd, sid)
    r = rnd
    U = ["a", "b", "c", "d", "e", ""]
    sep = ""
    if r.random() < 0.35:       # strings that run together when they are joined
        c = sep = r.choice(["|", "|", ",", ",", ", ", " ", "\u0000", "/", ":", ";", "\n", "\t", ".", "-", "_", "\u001f", '","', '"', "\\"])
        U = ["a" + c + "b", "b" + c + "c", "a", "b", "c", "d" + c + "e"] + r.sample([c, "a" + c, c + "b", "", c + c], 2)
    big = r.random() < 0.2
    if big:
        U = U + ["s%d" % i for i in range(r.choice([6, 14, 34]))]
    g = h.ng()
    h.nn(g, ls=r.sample(U, 2 if not big else len(U) // 2), p={})
    h.nn(g, ls=[], p={})
    nodes = [1, 2]
    live = []

    def new():
        x = len(live) + 1
        live.append(x)
        return x
    some = lambda lo=0, hi=3: [r.choice(U) for _ in range(r.randint(lo, hi if not big or r.random() < 0.4 else r.choice([len(U) // 2, len(U), 2 * len(U)])))]
    h.op("sszero", h=new())
    h.op("ssnew", h=new(), ls=some(0, 4) if not big else r.sample(U, r.randint(len(U) // 2, len(U))))
    for _ in range(nops):
        k = r.choice(["ssnew", "sszero", "sscopy", "sscopy", "ssclone", "ssclone", "ssadd", "ssadd", "ssadd", "ssaddset", "ssaddset",
                      "ssrm", "ssrm", "ssunm", "ssjson", "ssnode", "sssetl", "ssbadunm"])
        s = r.choice(live)
        if k in ("sscopy", "ssclone"):
            # over an existing set as well
            t = new() if len(live) < 6 else r.choice(live)
            h.op(k, h=t, s=s)
        elif k == "ssjson":
            h.op(k, h=r.choice(live), s=s)
        elif k == "ssnew":
            h.op(k, h=new() if len(live) < 6 else s, ls=some(0, 4))
        elif k == "sszero":
            h.op(k, h=new() if len(live) < 6 else s)
        elif k in ("ssadd", "ssrm", "ssunm"):
            h.op(k, h=s, ls=some())
        elif k == "ssaddset":
            h.op(k, h=s, s=r.choice(live))
        elif k == "ssnode":
            h.op(k, h=new() if len(live) < 6 else s, n=r.choice(nodes))
        elif k == "sssetl":
            h.op(k, n=r.choice(nodes), s=s)
        elif k == "ssbadunm":
            h.op(k, h=s, txt=r.choice(['{"a":1}', "[1]", '"a"', '["a",2]', "[[]]"]))
        for s in live:
            h.q("ss", h=s, u=U)
        h.q("sscmp", a=r.choice(live), b=r.choice(live))
        if r.random() < 0.25 and len(live) > 1:         # two sets of one size
            a, b = r.sample(live, 2)
            n = r.randint(2, 4)
            h.end()
            if sep and r.random() < 0.6:
                more = r.sample([x for x in U if x not in ("a" + sep + "b", "b" + sep + "c", "a", "c")], n - 2)
                h.op("ssnew", h=a, ls=["a" + sep + "b", "c"] + more)
                h.op("ssnew", h=b, ls=["a", "b" + sep + "c"] + more)
            else:
                h.op("ssnew", h=a, ls=r.sample(U, n))
                h.op("ssnew", h=b, ls=r.sample(U, n))
            h.q("sscmp", a=a, b=b)
        h.q("sshas", h=r.choice(live), ls=some())
        h.q("snap", g=g)
        h.end()
    return h.script()


def coll_case(rnd, sid, nops=18):
    """node sets, edge sets, node maps"""
    h = Hist(rnd, sid)
    r = rnd
    g = h.ng()
    if r.random() < 0.25:
        h.widen()
    big = r.random() < 0.2
    huge = big and r.random() < 0.25
    size = lambda: r.randint(1, 6) if not big else r.randint(15, 40) if not huge else r.randint(60, 140)
    for _ in range(size()):
        h.nn(g, p={})
    for _ in range(size()):
        h.ne(g, p={})
    N, E = list(h.G[g]["N"]), list(h.G[g]["E"])
    if big:
        nops *= 3
    h.op("nsnew", h=1)
    h.op("esnew", h=1)
    h.op("nmnew", h=1)
    reg = set()
    if huge:            # most of them at once
        nops = 10
        for x in r.sample(N, len(N)):
            if r.random() < 0.9:
                h.op("nsadd", h=1, n=x)
            if r.random() < 0.9:
                h.op("nmadd", h=1, n=x)
                reg.add(x)
        for x in r.sample(E, len(E)):
            if r.random() < 0.9:
                h.op("esadd", h=1, e=x)

    def obs():
        h.q("ns", h=1, u=N)
        h.q("es", h=1)
        h.q("nmit", h=1)
        h.q("nmempty", h=1)
        for _ in range(3):
            ls = h.lset_q()
            if reg and r.random() < 0.4:       # satisfied by a registered node
                ls = [l for l in h.G[g]["N"][r.choice(sorted(reg))][0] if r.random() < 0.5]
            h.q("nmall", h=1, ls=ls)
        h.q("multi", g=g, lss=[h.lset_q() for _ in range(r.randint(0, 3))])
        h.q_tree(g)
        h.end()
    obs()
    for _ in range(nops):
        k = r.choice(["nsadd", "nsadd", "nsrm", "esadd", "esadd", "esrm", "nmadd", "nmadd", "nmrm", "nmrelabel", "nmrelabel"])
        if k in ("nsrm", "esrm") and r.random() < 0.4:
            # some go, the same or others come, in another order
            u, t = (N, "n") if k == "nsrm" else (E, "e")
            x = r.sample(u, min(len(u), r.randint(1, 4)))
            for y in x:
                h.op(k, h=1, **{t: y})
            r.shuffle(x)
            for y in x:
                if r.random() < 0.8:
                    h.op(k[:2] + "add", h=1, **{t: y if r.random() < 0.7 else r.choice(u)})
        elif k in ("nsadd", "nsrm"):
            h.op(k, h=1, n=r.choice(N))
        elif k in ("esadd", "esrm"):
            h.op(k, h=1, e=r.choice(E))
        elif k == "nmadd":
            n = r.choice(N)
            if n not in reg:
                h.op(k, h=1, n=n)
                reg.add(n)
        elif k == "nmrm" and reg:
            n = r.choice(sorted(reg))
            h.op(k, h=1, n=n)
            reg.discard(n)
        elif k == "nmrelabel" and reg:
            n = r.choice(sorted(reg))
            ls = h.labels(empty=0.1)
            h.G[g]["N"][n][0] = list(ls)
            h.op(k, h=1, n=n, ls=ls, first=r.random() < 0.5)
        obs()
    return h.script()


# ------------------------------------------------------------------------ JSON

import json as _json

KEYS = ["k", "name", "a b", "\u00fc", "nodes", "n", "x\"y", "labels", "k2"]


TOK = ["a", "B", "\\", "\"", "\\u003c", "\\u0041", "<", ">", "&", "\n", "\t", "\r", "\b", "\f", "\x01", "\x7f", "/", "\u00e9", "e\u0301", "\u2028",
       "\u2029", "\ufeff", "\ufffd", "\U0001f600", "'", "{", "}", "[", "]", ":", ",", "0", "null", "true", " ", "  ", "\\n", "%s", "$"]


def jstr(r, pool):
    """a string: mostly from the pool, sometimes put together from pieces that need care in JSON"""
    x = r.random()
    if x < 0.75:
        return r.choice(pool)
    return "".join(r.choice(TOK) for _ in range(r.choice([1, 2, 2, 3, 5]) if x < 0.98 else r.choice([40, 300])))


def jval(r, depth=0):
    """a property value whose JSON image is exact"""
    x = r.random()
    if x < 0.3:
        return I(r.randint(-5, 1000))
    if x < 0.6:
        return S(jstr(r, ["a", "", "q\"uote", "back\\slash", "\u00e9\u4e16", "line\nbreak", "<&>", "{}", "]"]))
    if x < 0.7:
        return ["ls", [jstr(r, ["a", "b", ""]) for _ in range(r.randint(0, 3))]]
    if x < 0.78:
        return ["li", [r.randint(0, 9) for _ in range(r.randint(0, 3))]]
    if x < 0.88 and depth < 2:
        return ["la", [jval(r, depth + 1) for _ in range(r.randint(0, 3))]]
    return ["j", tree(r)]


def tree(r, depth=0):
    x = r.random()
    if x < 0.25:
        return ["d", r.choice(["0", "12", "-3", "1.5", "-0.25", "100000"])]
    if x < 0.5:
        return ["s", jstr(r, ["a", "", "q\"u", "b\\s", "\u00e9", "n\nl", "{", "}]"])]
    if x < 0.6:
        return ["b", r.random() < 0.5]
    if x < 0.66:
        return ["z"]
    if depth > 2:
        return ["s", "deep"]
    if x < 0.83:
        return ["a", [tree(r, depth + 1) for _ in range(r.randint(0, 3))]]
    return ["o", {jstr(r, KEYS) or "e": tree(r, depth + 1) for _ in range(r.randint(0, 3))}]


def unknown(r):
    """the value of a member nobody knows: perhaps deep, with familiar names inside"""
    if r.random() < 0.75:
        return tree(r)
    word = lambda: ["s", r.choice(["edges", "nodes", "labels", "n", "properties", "{", "]", "from"])]
    t = r.choice([word(), tree(r), ["a", [word(), word()]], ["o", {}], ["a", []]])
    for _ in range(r.choice([2, 4, 7, 9, 14, 30])):
        x = r.random()
        if x < 0.5:
            t = ["a", [word() for _ in range(r.choice([0, 0, 1, 2]))] + [t] + [word() for _ in range(r.choice([0, 0, 1]))]]
        else:
            t = ["o", {k: t if i == 0 else word() for i, k in enumerate(r.sample(["edges", "nodes", "labels", "n", "x", "properties"], r.choice([1, 1, 2, 3])))}]
    return t


def jstored(v):
    """a "j" value is stored as the Go value of its tree; its image is the tree"""
    return v


def jprops(r, p=0.5):
    ps = {k: jval(r) for k in r.sample(KEYS, r.choice([0, 0, 1, 1, 2, 3]))} if r.random() < p + 0.2 else {}
    if r.random() < 0.1:
        ps[jstr(r, KEYS)] = jval(r)
    if r.random() < 0.01:
        ps.update({"w%d" % i: I(i) for i in range(r.choice([9, 17, 40]))})
    ps.pop("", None)
    return ps


def jgraph(h, g, n=None, m=None):
    r = h.r
    wide = n is None and r.random() < 0.02
    n = r.choice([0, 1, 1, 2, 3, 4, 5]) if n is None else n
    if wide:
        n, m = r.choice([12, 30]), r.choice([20, 60])
    for _ in range(n):
        ls = r.sample(["A", "B", "", "\u00e9\"", "C\\"], r.choice([0, 1, 1, 2]))
        if r.random() < 0.1:
            ls += [x for x in {jstr(r, ["Z"]) for _ in range(r.choice([1, 1, 2, 12]))} if x not in ls]
        h.nn(g, ls=ls, p=jprops(r))
    m = (r.choice([0, 1, 2, 3, 5]) if n else 0) if m is None else m
    for _ in range(m):
        h.ne(g, l=jstr(r, ["", "L", "M", "e\"l", "\u00fc"]) if r.random() < 0.3 else r.choice(["", "L", "M", "e\"l", "\u00fc"]), p=jprops(r))
    for _ in range(r.choice([0, 0, 0, 1, 2])):     # holes in the numbering
        G = h.G[g]
        if G["N"]:
            h.dr(g, h.pick(G["N"]))
    return g


def hook(r):
    names = r.sample(KEYS, r.choice([0, 0, 2, 3, len(KEYS)]))
    return {"pre": r.choice(["", "p_", "x:"]), "swap": dict(zip(names, names[1:] + names[:1])), "drop": r.sample(KEYS, r.choice([0, 0, 1, 2])),
            "fail": r.sample(KEYS, r.choice([0, 0, 0, 0, 1])), "wrap": r.random() < 0.4,
            "bad": r.sample(KEYS, 1) if r.random() < 0.06 else [],
            "kinds": r.random() < 0.2, "dropk": r.sample(["d", "s", "b", "z", "a", "o"], r.choice([1, 2])) if r.random() < 0.15 else []}


def no_json(r):
    """a value without a JSON representation"""
    v = ["x", r.choice(["func", "chan", "nan", "unjson"])]
    return v if r.random() < 0.7 else ["la", [I(1)] * r.randint(0, 2) + [v] + [S("a")] * r.randint(0, 1)]


def enc_case(rnd, sid, prop):
    h = Hist(rnd, sid)
    g = h.ng()
    r = rnd
    jgraph(h, g)
    if prop == "C15" and h.G[g]["N"] and r.random() < 0.1:
        # integers a float64 can not hold: compare the text, do not decode it
        for x in r.sample(list(h.G[g]["N"]) + list(h.G[g]["E"]), 1):
            h.op("snp" if x in h.G[g]["N"] else "sep", h=x, k=r.choice(KEYS), v=["j", r.choice([["d", r.choice(BIGINT)], ["a", [["d", r.choice(BIGINT)]]]])])
        h.q("enc", g=g, sep=False)
        h.q("enc", g=g, sep=True)
        return h.script()
    for _ in range(2):
        for sep in (False, True):
            if prop == "C25":
                h.q("enc", g=g, sep=sep, hook=hook(r))
            elif prop == "C26" and r.random() < 0.25 and h.G[g]["N"]:
                # a value that JSON cannot express, somewhere
                h.end()
                x = r.choice(list(h.G[g]["N"]) + list(h.G[g]["E"]))
                v = no_json(r)
                op = "np" if x in h.G[g]["N"] else "ep"
                k = r.choice(KEYS)
                h.op("snp" if op == "np" else "sep", h=x, k=k, v=v)
                h.q("enc", g=g, sep=sep)
                h.q("enc", g=g, sep=not sep)
                h.q("dotfail", g=g)
                h.end()
                h.op("rnp" if op == "np" else "rep", h=x, k=k)
                (h.G[g]["N"][x][1] if op == "np" else h.G[g]["E"][x][3]).pop(k, None)
            elif prop == "C26":
                h.q("encfail", g=g, sep=sep)
                h.q("dotfail", g=g)
            else:
                h.q("rt", g=g, sep=sep, intern=r.choice(["no", "log", "map"]))
        h.q_snap(g) if prop == "C19" else None
        h.end()
        if r.random() < 0.6:
            break
        jgraph(h, g, n=r.randint(0, 2))
    return h.script()


def jtext(s, r):
    """a JSON string, some of its characters escaped without need"""
    esc = r.random() < 0.1
    asc = r.random() < 0.5
    return '"' + "".join("\\u%04x" % ord(c) if esc and ord(c) < 0x10000 and r.random() < 0.3 else
                         "\\/" if esc and c == "/" else _json.dumps(c, ensure_ascii=asc)[1:-1] for c in s) + '"'


def ser(t, r, order=None):
    """text of a tree, with arbitrary white space and member order"""
    ws = r.choice(["", "", " ", "\n\t"])
    if t[0] == "o":
        items = list(t[1].items())
        if order is None:
            r.shuffle(items)
        return "{" + ws + ("," + ws).join(jtext(k, r) + r.choice(["", "", " "]) + ":" + ws + ser(v, r) for k, v in items) + ws + "}"
    if t[0] == "a":
        return "[" + ws + ("," + ws).join(ser(v, r) for v in t[1]) + ws + "]"
    if t[0] == "s":
        return jtext(t[1], r)
    if t[0] == "d":
        return t[1]
    if t[0] == "b":
        return "true" if t[1] else "false"
    return "null"


UNK = ["foo", "x", "extra", "meta", "version"]


BIGINT = ["9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "1234567890123456789"]
TOO_BIG = ["1e999", "-1e999", "1E+400", "12345e308"]


def unreadable(d, r):
    """d with a number no property value can hold somewhere in a property;
    None if there is no place for it"""
    top = d[1]
    nds = [x[1] for x in top.get("nodes", ["a", []])[1]]
    es = [e[1] for n in nds for e in n.get("edges", ["a", []])[1]] + [e[1] for e in top.get("edges", ["a", []])[1]]
    if not nds:
        return None
    big = ["d", r.choice(TOO_BIG)]
    hd = r.choice(r.choice([nds, es or nds]))
    p = hd.setdefault("properties", ["o", {}])[1]
    for _ in range(r.choice([0, 0, 1, 2])):
        big = ["a", [tree(r), big]] if r.random() < 0.5 else ["o", {"u": big, "a": tree(r)}]
    p[r.choice(KEYS)] = big
    return d


def doc_tree(r, dangling=0.12, illtyped=0.12, unk=0.35, nodes=None):
    """a document in the documented format (mostly)"""
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 5]) if nodes is None else nodes
    wide = nodes is None and r.random() < 0.04      # a long document
    if wide:
        n = r.choice([2, 3, 12, 30])
        illtyped, dangling, unk = illtyped / 3, dangling / 40, unk / 3
    few = 2 if wide and r.random() < 0.7 else 0     # many edges between few nodes
    idx = r.sample(range(0, max(12, 3 * n)), n) if r.random() < 0.6 else list(range(n))
    if n and r.random() < 0.1:
        idx[r.randrange(n)] = -1
    nowhere = [13, 20, 40]
    if r.random() < 0.2:                # far apart node numbers
        for i in range(n):
            if r.random() < 0.6:
                x = r.choice([100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4096, 65535, 65536, 100000, 999999, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 53, -100, -70000])
                if x not in idx:
                    idx[i] = x
        nowhere += [101, 1001, 5000, 70000, 2 ** 32, -3]
    D = lambda k: ["d", str(k)]
    PT = lambda: ["o", {k: tree(r) for k in r.sample(KEYS, r.choice([0, 1, 2]))}]

    def edge(sep, me=None):
        e = {}
        f, t = (r.choice(idx), r.choice(idx)) if idx else (0, 0)
        if few and r.random() < 0.8:
            f, t = idx[0], idx[-1]
        if r.random() < dangling:
            if r.random() < 0.5 or not sep:
                t = r.choice(nowhere)
            else:
                f = r.choice(nowhere)
        if sep and not (f == 0 and r.random() < 0.5):
            e["from"] = D(f)
        if not (t == 0 and r.random() < 0.5):
            e["to"] = D(t)
        if r.random() < 0.7:
            e["label"] = ["s", r.choice(["", "L", "M", "q\""])]
        if r.random() < 0.5:
            e["properties"] = PT()
        if r.random() < unk * 0.3:
            e[r.choice(UNK)] = unknown(r)
        return ["o", e]
    nds = []
    for i in idx:
        nd = {}
        if not (i == 0 and r.random() < 0.4):
            nd["n"] = D(i)
        if r.random() < 0.7:
            nd["labels"] = ["a", [["s", x] for x in r.sample(["A", "B", "", "\u00e9"], r.choice([0, 1, 2]))]]
            if r.random() < 0.05:       # given twice
                nd["labels"][1] += r.choices(nd["labels"][1] or [["s", "A"]], k=r.choice([1, 2, 3]))
        if r.random() < 0.6:
            nd["properties"] = PT()
        if r.random() < 0.5:
            nd["edges"] = ["a", [edge(False) for _ in range(r.choice([0, 1, 1, 2] if not wide else [0, 1, 3, 24]))]]
        if r.random() < unk * 0.3:
            nd[r.choice(UNK)] = unknown(r)
        nds.append(["o", nd])
    r.shuffle(nds)
    if wide and r.random() < 0.5:
        # every node but the last refers to nodes that come later
        nds.sort(key=lambda x: len(x[1].get("edges", ["a", []])[1]), reverse=True)
    top = {}
    if n or r.random() < 0.7:
        top["nodes"] = ["a", nds]
    if r.random() < 0.7:
        top["edges"] = ["a", [edge(True) for _ in range(r.choice([20, 40] if wide else [0, 1, 2, 3]) if n else r.choice([0, 0, 0, 1]))]]
    while r.random() < unk:
        top[r.choice(UNK)] = unknown(r)
    doc = ["o", top]
    if r.random() < illtyped:
        wrong = r.choice([["s", "str"], ["b", True], ["d", "1.5"], ["a", []], ["o", {}], ["a", [["d", "1"]]]])
        spots = []
        for holder, keys in [(top, ["nodes", "edges"])] + [(x[1], ["n", "labels", "properties", "edges"]) for x in nds] + \
                [(x[1], ["from", "to", "label", "properties"]) for x in top.get("edges", ["a", []])[1]]:
            spots += [(holder, k) for k in keys]
        if r.random() < 0.15:
            return wrong if wrong[0] != "o" else ["a", [doc]]
        hl, k = r.choice(spots)
        hl[k] = wrong
    return doc


def has_dup(t):
    return False


BAD = ["", "{", "{\"nodes\":[}", "nope", "{\"nodes\":[{\"n\":0}],}", "{\"nodes\":[{\"n\":0}]", "[", "{\"nodes\" [ ]}", "{\"a\":[1,}", "\"unterminated",
       "{\"nodes\":[{\"n\":0,\"edges\":[{\"to\":0}]}", "{\"edges\":[{\"from\":0,\"to\":0}],\"nodes\":[{\"n\":0}}", "{\"nodes\":[{\"n\":0}{\"n\":1}]}",
       "{\"x\":{\"y\":[1,2,{\"z\":}]}}", "tru", "{nodes:[]}"]


def dec_case(rnd, sid, prop):
    h = Hist(rnd, sid)
    r = rnd
    for _ in range(4):
        kw = {}
        if prop == "C26":
            d = doc_tree(r, dangling=0, illtyped=0)
            while "edges" in d[1] and d[1]["edges"][1] and not d[1].get("nodes", ["a", []])[1]:
                d = doc_tree(r, dangling=0, illtyped=0)
            h.q("trunc", text=ser(d, r), sep=False)
            d = unreadable(d, r)
            if d:
                h.q("dec", text=ser(d, r), doc=d, intern="no")
            continue
        if prop == "C16" and r.random() < 0.06:
            h.q("dec", text=r.choice(BAD), doc=["z"], bad=True, intern="no")
            continue
        if prop == "C25":
            d = doc_tree(r, dangling=0.02, illtyped=0.02)
            kw["hook"] = hook(r)
        else:
            d = doc_tree(r)
            if prop == "C16" and r.random() < 0.04:
                d = unreadable(doc_tree(r, dangling=0, illtyped=0), r) or d
        if r.random() < 0.15:
            kw["into"] = True
        if r.random() < 0.15:
            kw["stream"] = True
        h.q("dec", text=ser(d, r), doc=d, intern=r.choice(["no", "log", "map"]), **kw)
    return h.script()


# ------------------------------------------------------------------------- DOT

DOTL = ["", "L", " ", "  ", "\t", "\n", " L", "L ", "0", "null", "\u00a0", "has space", "q\"uote", "back\\slash", "end\\", "\u00e9", "a->b", "[x]", "semi;", "two\nlines", "\\\"", "node", "graph", "\\n", "{", "}",
        "tab\there", "nb\u00a0sp", "zw\u200bsp", "bel\x07l", "del\x7f", "\u4e16\u754c", "\U0001f600", "cr\rlf", "/*c*/", "//c", "#", "<b>x</b>", "<", "100%", "%s%d", "$1", "&amp;", "'", ";", ",", "=", "\\", "\"", "a\\\"b", "\\l", "\\N"]


def dot_case(rnd, sid):
    h = Hist(rnd, sid)
    r = rnd
    g = h.ng()
    big = r.random() < 0.015            # node and edge numbers of several digits
    for _ in range(r.choice([0, 1, 2, 3, 4, 5]) if not big else r.choice([15, 101, 130, 270])):
        h.nn(g, p={})
    for _ in range((r.choice([0, 1, 3, 5, 7]) if not big else r.choice([20, 110])) if h.G[g]["N"] else 0):
        h.ne(g, l=r.choice(DOTL), p={})
    for _ in range(2):
        for _ in range(r.choice([0, 1, 2])):
            h.rand_op(g, dict(sel=0, ixn=0, ixe=0, ne=3, nn=5))
        N, E = list(h.G[g]["N"]), list(h.G[g]["E"])
        some = lambda s, p: [x for x in s if r.random() < p]
        name = r.choice(["G", "g1", "T_x", "G", ""])       # a graph need not have a name
        h.q("dot", g=g, mode="default", name=name)
        h.q("dot", g=g, mode="custom", name=name, rejn=some(N, 0.2), failn=[], reje=some(E, 0.2), faile=[], part=r.random() < 0.3)
        h.q("dot", g=g, mode="custom", name=name, rejn=some(N, 0.2), failn=some(N, 0.1), reje=some(E, 0.2), faile=some(E, 0.15))
        h.end()
    return h.script()


# ------------------------------------------------------------------- identity

def ident_case(rnd, sid, nops=14):
    h = Hist(rnd, sid)
    r = rnd
    gs = [h.ng(), h.ng()]
    big = r.random() < 0.04
    if big:
        nops = 6
    for g in gs:
        for _ in range(r.randint(10, 45) if big else r.randint(1, 3)):
            h.nn(g, p={})
        for _ in range(r.randint(10, 60) if big else 0):
            h.ne(g)
    h.end()

    def obs(adj=False):
        for g in gs:
            h.q("snap", g=g)
            if adj:
                h.q_adj_all(g) if len(h.G[g]["N"]) <= 4 else h.q_adj(g, 8)
        h.q_ids()
        h.end()
    obs()
    cm = 0
    late = r.random() < 0.15
    for i in range(nops):
        g = r.choice(gs)
        o = gs[1] if g == gs[0] else gs[0]
        G, O = h.G[g], h.G[o]
        if late and i in (3, 5) and G["N"]:
            h.burst(g)
            for _ in range(6):
                h.rand_op(g, dict(nn=9, ne=9, ixn=0, ixe=0))
        k = r.choice(["ok", "ok", "ok", "foreign", "foreign", "clonef", "copyn", "clonee", "dead", "copyg"])
        fast = r.random() < 0.5
        if k == "foreign" and G["N"] and O["N"]:
            f, t = r.choice(list(G["N"])), r.choice(list(O["N"]))
            c = r.random()
            if c < 0.4:
                f, t = t, f
            elif c < 0.6:
                f, t = t, r.choice(list(O["N"]))
            h.op("ne", g=g, h=h.fresh(), f=f, t=t, l="L", p={"i": I(1)}, fast=fast)
        elif k == "dead" and h.dead_n and G["N"]:
            # a removed node does not belong to the graph any more
            d = r.choice(h.dead_n)
            f, t = r.choice([(d, r.choice(list(G["N"]))), (r.choice(list(G["N"])), d), (d, d)])
            h.op("ne", g=g, h=h.fresh(), f=f, t=t, l="L", p={}, fast=fast)
        elif k == "clonef" and G["E"] and O["N"] and G["N"]:
            e, f, t = r.choice(list(G["E"])), r.choice(list(G["N"])), r.choice(list(O["N"]))
            if r.random() < 0.5:
                f, t = t, f
            h.op("clonee", f=f, t=t, e=e, d=r.choice(gs), cf="id", h=h.fresh())
        elif k == "clonee" and O["E"] and G["N"]:
            e, f, t = r.choice(list(O["E"])), r.choice(list(G["N"])), r.choice(list(G["N"]))
            hh = h.fresh()
            h.op("clonee", f=f, t=t, e=e, d=g, cf="id", h=hh)
            G["E"][hh] = [f, t, O["E"][e][2], {}]
        elif k == "copyn" and O["N"]:
            n, hh = r.choice(list(O["N"])), h.fresh()
            h.op("copyn", n=n, d=g, cf="id", h=hh)
            G["N"][hh] = [list(O["N"][n][0]), {}]
        elif k == "copyg" and (len(O["N"]) < 6 and len(G["N"]) < 12 or big and len(G["N"]) < 60) and not O.get("inexact"):
            cm += 1
            h.op("copyg", g=o, d=g, cf="id", cm=cm)
            h.copied(o, g)
        else:
            h.rand_op(g, dict(ixn=0.2, ixe=0.2, dr=4, rme=4))
        # what is refused leaves no trace
        obs(k in ("foreign", "clonef", "dead") or r.random() < 0.1)
    return h.script()


def plain(v):
    """the value as the driver reports it"""
    if v[0] == "la":
        return ["la", [plain(x) for x in v[1]]]
    if v[0] != "j":
        return v
    t = v[1]
    if t[0] == "s":
        return t
    if t[0] == "a":
        return ["la", [plain(["j", x]) for x in t[1]]]
    return ["x", {"d": "float", "b": "true", "z": "nil", "o": "map"}[t[0]]]


def mixed_readonly(rnd, sid):
    """encodings, renderings and copies between two looks at the graph"""
    h = Hist(rnd, sid)
    r = rnd
    g, d = h.ng(), h.ng()
    jgraph(h, g)
    for op in h.ops:
        if "p" in op:
            op["p"] = {k: plain(v) for k, v in op["p"].items()}
            if r.random() < 0.2:
                op["p"][r.choice(KEYS)] = ["x", "nil"]
    h.q_snap(g)
    for _ in range(3):
        k = r.choice(["rt", "enc", "dot", "copyg", "encfail"])
        if k == "rt":
            h.q("rt", g=g, sep=r.random() < 0.5, intern="no")
        elif k == "enc":
            h.q("enc", g=g, sep=r.random() < 0.5, hook=hook(r))
        elif k == "encfail":
            h.q("encfail", g=g, sep=r.random() < 0.5)
        elif k == "dot":
            h.q("dot", g=g, mode="default", name="G")
        else:
            h.op("copyg", g=g, d=d, cf="deep")
        h.q_snap(g)
        h.end()
    return h.script()


# ------------------------------------------------------------------ odd names

ODD = ["A", "B", "L", "a", "b", "AB", "A:B", "A B", "A,B", " A", "A ", ":A", "A|B", "\u00e9", "e\u0301", "0", "1", "-1", "\"q\"", "it's", "back\\slash",
       "tab\tx", "nl\nx", "label", "labels", "n", "properties", "name", "id", "_", "$", "{}", "[a]", "%s", "%d", "nil", "null", "true", "<b>", "&",
       "\u4e16\u754c", "\U0001f600", "x" * 70, "x" * 71, "y" * 300, "AA", "AAA", "aB", "Ab", "L1", "L10", "L2", "P1", "P10", "i", "I", "ii", "s", "Zz", "~"]


def cases(rnd):
    """names, many of which are the same but for upper and lower case"""
    out = []
    for w in rnd.sample(["x", "ab", "\u00e9a", "edge", "knows"], 5):
        v = [""]
        for c in w:
            v = [a + b for a in v for b in (c.lower(), c.upper())]
        out += rnd.sample(v, len(v))
    return out[::-1]


def rename(script, rnd):
    """the same history with other labels, property keys and variable names:
    nothing may depend on how they are spelled"""
    qs = {o.get("q") for ev in script["ev"] for o in ev["obs"]} | {o["op"] for ev in script["ev"] for o in ev["ops"]}
    if qs & {"enc", "dec", "rt", "encfail", "trunc"}:
        return script
    maps = [{"": ""}, {}, {"": ""}]
    pools = [rnd.sample(ODD, len(ODD)) for _ in maps]
    pools[1].insert(rnd.randrange(len(ODD) - 8, len(ODD)), "")      # a key may be empty
    if rnd.random() < 0.4:              # names that differ in case only
        pools = [cases(rnd) for _ in maps]

    def ren(i, x):
        m = maps[i]
        if x not in m:
            m[x] = pools[i].pop() if pools[i] else x + "\u2026"
        return m[x]
    lab = lambda x: ren(0, x)
    key = lambda x: ren(1, x)

    def P(p):
        return {key(k): v for k, v in p.items()}

    def tree(t):
        if t[0] == "m":
            return ["m"] + [tree(x) for x in t[1:]]
        if t[0] == "l":
            return ["l", [lab(x) for x in t[1]]]
        if t[0] == "f":
            return ["f", [lab(x) for x in t[1]], P(t[2])]
        return ["k", key(t[1])]

    def one(o):
        o = dict(o)
        n = o.get("op") or o.get("q")
        if "ls" in o:
            o["ls"] = [lab(x) for x in o["ls"]]
        if "lss" in o:
            o["lss"] = [[lab(x) for x in y] for y in o["lss"]]
        if isinstance(o.get("l"), str):
            o["l"] = lab(o["l"])
        if n == "ss":
            o["u"] = [lab(x) for x in o["u"]]
        if n == "mtree":
            o["t"] = tree(o["t"])
        if "p" in o:
            o["p"] = P(o["p"])
        if isinstance(o.get("k"), str):
            o["k"] = key(o["k"])
        if "ks" in o:
            o["ks"] = [key(x) for x in o["ks"]]
        if n == "pat":
            o["pat"] = [dict(it, ls=[lab(x) for x in it["ls"]], p=P(it["p"]), name=ren(2, it["name"])) for it in o["pat"]]
            if "sym" in o:
                o["sym"] = {ren(2, k): v for k, v in o["sym"].items()}
        return o
    out = dict(script)
    out["ev"] = [{"ops": [one(o) for o in ev["ops"]], "obs": [one(o) for o in ev["obs"]]} for ev in script["ev"]]
    out["renamed"] = True
    return out


def huge_history(rnd, sid, observe):
    """beyond any small threshold: one label list, one index value and one
    adjacency list with well over a hundred members, later emptied in part"""
    h = Hist(rnd, sid)
    g = h.ng()
    late = rnd.random() < 0.5
    keys = [("i", "n"), ("s", "n"), ("i", "e"), ("l", "e")]

    def index():
        for k, what in keys:
            h.ix(g, k=k, what=what)
    if not late:
        index()
    nodes, edges = rnd.choice([(140, 150), (70, 280), (280, 40)])
    few = rnd.random() < 0.5            # few values with many holders, or many values
    wide = not few
    for _ in range(nodes):
        h.nn(g, ls=["A"] + (["B"] if rnd.random() < 0.7 else []), p={k: v for k, v in h.props(p=0.7, wide=wide).items() if k in ("i", "s", "h")})
    ns = list(h.G[g]["N"])
    hub = rnd.choice(ns)
    l = rnd.choice(h.el)
    for _ in range(edges):
        x = rnd.random()
        h.ne(g, f=hub if x < 0.5 else None, t=hub if x > 0.8 else None, l=l if rnd.random() < 0.8 else None,
             p={k: v for k, v in h.props(p=0.6, wide=wide).items() if k in ("i", "l", "h")})
    if late:
        index()
    pair = rnd.choice(ns)
    for _ in range(rnd.choice([0, 18, 40])):        # many edges between the same two nodes
        h.ne(g, f=hub, t=pair, p={})
    observe(h, g)
    h.q("ebn", a=hub, b=pair)
    h.q("ged", h=hub, d="any")
    h.q("gea", h=hub, d=rnd.choice(["in", "out", "any"]), ls=rnd.sample(h.el, 2))
    h.end()
    es = list(h.G[g]["E"])
    for e in rnd.sample(es, len(es) * 2 // 3):
        h.rme(g, e)
    for n in rnd.sample(ns, len(ns) // 2):
        h.dr(g, n) if rnd.random() < 0.8 else h.sl(g, n)
    for n in list(h.G[g]["N"])[:40]:
        h.op("snp", h=n, k="i", v=I(0))
        h.G[g]["N"][n][1]["i"] = I(0)
    h.q("fn", g=g, ls=[], p={"i": I(0)})
    observe(h, g)
    if hub in h.G[g]["N"]:
        h.q("ged", h=hub, d="any")
    return h.script()
