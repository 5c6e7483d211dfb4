"""From the behaviours printed by the models to scripts for the real code."""
import gen
from gen import Hist, I, S


def graph_impl(n0, observe):
    """GraphImpl: a history whose last operation is the transition to cover"""

    def expand(raw, rnd, prop):
        h = Hist(rnd, 0)
        g = h.ng()
        N, E = {}, {}
        for i in range(n0):
            N[i + 1] = h.nn(g, ls=[], p={}, fast=False)
        P = lambda ps: {k: I(v) for k, v in ps}
        for o in raw:
            k = o[0]
            if k == "nn":
                N[o[1]] = h.nn(g, ls=o[2], p=P(o[3]))
            elif k == "ne":
                E[o[1]] = h.ne(g, f=N[o[2]], t=N[o[3]], l=o[4], p=P(o[5]))
            elif k == "dr":
                h.dr(g, N[o[1]])
            elif k == "det":
                h.det(g, N[o[1]])
            elif k == "sl":
                h.sl(g, N[o[1]], ls=o[2])
            elif k == "rme":
                h.rme(g, E[o[1]])
            elif k == "sel":
                h.G[g]["E"][E[o[1]]][2] = o[2]
                h.op("sel", h=E[o[1]], l=o[2])
            elif k == "snp":
                h.G[g]["N"][N[o[1]]][1][o[2]] = I(o[3])
                h.op("snp", h=N[o[1]], k=o[2], v=I(o[3]))
            elif k == "rnp":
                h.G[g]["N"][N[o[1]]][1].pop(o[2], None)
                h.op("rnp", h=N[o[1]], k=o[2])
            elif k == "sep":
                h.G[g]["E"][E[o[1]]][3][o[2]] = I(o[3])
                h.op("sep", h=E[o[1]], k=o[2], v=I(o[3]))
            elif k == "rep":
                h.G[g]["E"][E[o[1]]][3].pop(o[2], None)
                h.op("rep", h=E[o[1]], k=o[2])
            elif k in ("ixn", "ixe"):
                h.ix(g, k=o[1], t=o[2], what=k[2])
        observe(h, g)
        if any(o[0] in ("snp", "rnp", "sep", "rep", "ixn", "ixe") for o in raw):
            for v in (1, 2):
                h.q("fn", g=g, ls=[], p={"i": h.guise(I(v))})
                h.q("fe", g=g, ls=[], p={"i": h.guise(I(v))})
            h.q("nwp", g=g, k="i")
            h.q("ewp", g=g, k="i")
        if any(o[0] in ("nn", "sl") and o[2] for o in raw):
            for ls in ([], ["A"], ["B"], ["A", "B"]):
                h.q("nal", g=g, ls=ls)
        if prop == "C03":
            for ls in (["L"], ["M"], ["L", "M"]):
                h.q("eal", g=g, ls=ls)
        return h.script()
    return expand


def pattern_engine(raw, rnd, prop):
    """PatternEngine: the graph and pattern of a run; nodes and edges are added
    that make its start item the cheapest one, and that match nothing"""
    en = [x[5] for x in raw["pat"][1::2] if x[5]]
    if prop == "C08" and len(set(en)) < len(en):
        return None            # which of the edge items gives the value its orientation is not specified
    h = gen.PatGen(rnd, 0)
    g = h.g = h.ng()
    pat = [gen.item(ls=list(x[0]), mn=x[1], mx=x[2], left=x[3], und=x[4], name=x[5]) for x in raw["pat"]]
    n, start = len(pat), raw["start"]
    P = ["P%d" % j for j in range(1, n + 1, 2)]
    h.reals = [h.nn(g, ls=(["A"] if i == 0 else []) + P, p={}, fast=False) for i in range(raw["n"])]
    h.edges = [h.ne(g, f=h.reals[f - 1], t=h.reals[t - 1], l=l, p={}) for f, t, l in raw["e"]]
    for j in range(0, n, 2):
        pat[j]["ls"] = pat[j]["ls"] + [P[j // 2]]
    kw = {}
    if raw["sym"]:
        kw["sym"] = {k: [kd, [(h.reals if kd == "n" else h.edges)[x - 1] for x in xs]] for k, kd, xs in raw["sym"]}
    api = rnd.choice(["run", "run", "plan", "paths"] + ([] if prop == "C09" else ["nodes"]))

    def ask():
        h.q("pat", g=g, pat=pat, api=api, key="k" if prop == "C08" else "", **kw)
        if prop == "C19":
            h.q_snap(g)
        h.end()
    if prop == "C08":
        ask()

    def dec(without, k, m):
        new = [h.nn(g, ls=["A"] + [p for p in P if p != without], p={}, fast=False) for _ in range(k)]
        for i in range(m):
            h.ne(g, f=new[i % k], t=new[(i + 1) % k], l="Z", p={})
    if n > 1:
        if start % 2 == 1:
            # every other node item and every edge item costs more
            dec("P%d" % start, raw["n"] + 1, raw["n"] + 1)
        else:
            m = len(raw["e"])
            for p in P:
                dec(p, m // (len(P) - 1) + 1, 1 if p == P[0] else 0)
            pat[start - 1] = dict(pat[start - 1], ls=["L", "M"])   # all edges of the run, not the added one
    ask()
    return h.script()


def trails(raw, rnd, prop):
    """TrailsImpl: one traversal"""
    h = Hist(rnd, 0)
    g = h.ng()
    N = [h.nn(g, ls=[], p={}, fast=False) for _ in range(raw["n"])]
    acc = set(raw["acc"])
    how = rnd.choice(["l", "p"])           # the filter looks at labels or at properties
    E = []
    for i, (f, t) in enumerate(raw["e"]):
        ok = i + 1 in acc
        E.append(h.ne(g, f=N[f - 1], t=N[t - 1], l="L" if ok or how == "p" else "X", p={"i": I(1 if ok else 2)} if how == "p" else {}))
    kw = {} if raw["all"] and rnd.random() < 0.7 else {"first": [E[i - 1] for i in raw["first"]]}
    h.q("trails", g=g, h=N[raw["u"] - 1], d=raw["d"], ls=["L"] if how == "l" else [], p={"i": I(1)} if how == "p" else {},
        min=raw["min"], max=raw["max"], stop=raw["stop"], **kw)
    if prop == "C19":
        h.q_snap(g)
    return h.script()


def path_impl(raw, rnd, prop):
    """PathImpl: a history of path operations; the last one is the transition to cover"""
    h = Hist(rnd, 0)
    g = h.ng()
    N = [h.nn(g, ls=[], p={}, fast=False) for _ in range(2)]
    E = [h.ne(g, f=N[f - 1], t=N[t - 1], l="L", p={}) for f, t in ((1, 2), (2, 1), (1, 1))]
    els = lambda s: [[E[e - 1], rev] for e, rev in s]
    P = {}                      # the paths that may be looked at
    for i, o in enumerate(raw):
        k, p = o[0], o[1]
        if k in ("pnode", "ponly"):
            h.op(k, h=p, n=N[o[2] - 1])
            P[p] = []
        elif k in ("pels", "pslot"):
            kw = {"sl": 1} if k == "pslot" else {}
            if k == "pels" and o[2] and not any(x[1] for x in o[2]) and rnd.random() < 0.4:
                h.op("pedges", h=p, es=[E[e - 1] for e, _ in o[2]])
            elif k == "pels" and not o[2] and rnd.random() < 0.5:
                h.op("pempty", h=p)
            else:
                h.op("pels", h=p, els=els(o[2]), **kw)
            P[p] = o[2]
        elif k == "pclone":
            h.op(k, h=p, s=o[2])
            P[p] = P[o[2]]
        elif k == "pslice":
            h.op(k, h=p, s=o[2], a=o[3], b=o[4])
            P[p] = P[o[2]]      # at most these edges
        elif k == "pclear":
            h.op(k, h=p)
            P[p] = []
        elif k == "pappend":
            h.op(k, h=p, els=els(o[2]), mut=rnd.random() < 0.5)
            P[p] = list(P[p]) + o[2]
        elif k == "pappendp":
            h.op(k, h=p, s=o[2])
            P[p] = list(P[p]) + list(P[o[2]])
        elif k == "prml":
            h.op(k, h=p)
        elif k == "prmf":
            h.op(k, h=p)
            e = o[2]
            for q in [q for q in P if q != p and any(x[0] == e for x in P[q])]:
                del P[q]
            P[p] = [x for x in P[p] if x[0] != e]
    for p in sorted(P):
        h.q("path", h=p)
        for q in sorted(P):
            h.q("pprefixp", h=p, s=q)
    h.q_snap(g)
    return h.script()


def cursor_impl(raw, rnd, prop):
    """CursorImpl: a walk while edges come and go"""
    h = Hist(rnd, 0)
    g = h.ng()
    N = [h.nn(g, ls=[], p={}, fast=False) for _ in range(2)]
    E = {}
    h.op("cnew", h=1)
    for o in raw:
        k = o[0]
        if k == "cset":
            h.op(k, h=1, n=N[o[1] - 1])
        elif k in ("cstart", "cpop"):
            h.op(k, h=1)
        elif k == "cpush":
            h.op(k, h=1, e=E[o[1]])
        elif k == "ne":
            E[o[1]] = h.ne(g, f=N[o[2] - 1], t=N[o[3] - 1], l=o[4], p={})
        elif k == "rme":
            h.rme(g, E[o[1]])
    h.q("cpath", h=1)
    for d in ("in", "out", "any"):
        h.q("cedges", h=1, m="edges", d=d)
        h.q("cnodes", h=1, m="nodes", d=d)
        h.q("cedges", h=1, m="with", d=d, l="L")
        h.q("cnodes", h=1, m="with", d=d, l="L")
    for m in ("fwd", "bwd", "fwdw", "bwdw"):
        h.q("cedges", h=1, m=m, **({"l": "M"} if m[-1] == "w" else {}))
    for m in ("next", "prev", "nextw", "prevw"):
        h.q("cnodes", h=1, m=m, **({"l": "M"} if m[-1] == "w" else {}))
    h.q_snap(g)
    return h.script()


def iso_impl(raw, rnd, prop):
    """IsoImpl: two graphs"""
    h = Hist(rnd, 0)
    gs = []
    for ls, es in zip(raw["n"], raw["e"]):
        g = h.ng()
        gs.append(g)
        ids = list(range(len(ls)))
        rnd.shuffle(ids)
        N = {}
        for i in ids:
            N[i] = h.nn(g, ls=ls[i], p={}, fast=False)
        es = list(es)
        rnd.shuffle(es)
        for f, t, l in es:
            h.ne(g, f=N[f - 1], t=N[t - 1], l=l, p={})
    h.q("iso", a=gs[0], b=gs[1], ne=raw["rel"][0], ee=raw["rel"][1])
    if rnd.random() < 0.1:
        h.q("iso", a=gs[0], b=gs[1], ne=raw["rel"][0], ee=raw["rel"][1], cancelled=True)
    if rnd.random() < 0.1:
        h.q("iso", a=gs[0], b=gs[1], ne=raw["rel"][0], ee=raw["rel"][1], cancel=rnd.randint(0, 8))
    if prop == "C19":
        h.q_snap(gs[0])
        h.q_snap(gs[1])
    return h.script()


def copy_impl(raw, rnd, prop):
    """CopyImpl: a copy (or two with one node map), then a change on one side"""
    h = Hist(rnd, 0)
    a, b = h.ng(), h.ng()
    ixs = rnd.sample(["s", "t"], rnd.choice([0, 1, 2]))
    if "t" in ixs:
        h.ix(b, k="i", what="n")
        h.ix(b, k="i", what="e")
    N = [h.nn(a, ls=["A", "B"][:1 + n % 2], p={"i": I(n % 2), "l": ["ls", ["x%d" % n]]}, fast=False) for n in range(raw["n"])]
    E = [h.ne(a, f=N[f - 1], t=N[t - 1], l="L" if i % 2 else "M", p={"i": I(i), "l": ["ls", ["y"]]}) for i, (f, t) in enumerate(raw["e"])]
    if "s" in ixs:
        h.ix(a, k="i", what="n")
        h.ix(a, k="i", what="e")
    A, B = h.G[a], h.G[b]
    cf = rnd.choice(["id", "deep"] + ([] if "t" in ixs else ["const", "tag"]))
    call = raw["call"]
    if call[0] == "sub":
        R = set()
        for s in call[1:]:
            if s:
                new, todo = set(), [] if s in R else [s]
                while todo:
                    x = todo.pop()
                    if x in new:
                        continue
                    new.add(x)
                    todo += [t for f, t in raw["e"] if f == x and t not in R]
                h.op("copysub", n=N[s - 1], d=b, cf=cf, cm=1)
                h.copied(a, b, len(new), len([1 for f, t in raw["e"] if f in new]))
                R |= new
    elif call[0] == "g":
        h.op("copyg", g=a, d=b, cf=cf, cm=1)
        h.copied(a, b)
    else:
        skn, ske = [N[n - 1] for n in call[1]], [E[e - 1] for e in call[2] if e <= len(E)]
        h.op("copyf", g=a, d=b, cf=cf, skipn=skn, skipe=ske)
        h.copied(a, b, len(N) - len(skn), len([1 for e, x in A["E"].items() if e not in ske and x[0] not in skn and x[1] not in skn]))

    def obs():
        for g in (a, b):
            h.q_snap(g)
            h.q("nal", g=g, ls=["A"])
            h.q("eal", g=g, ls=["L"])
            h.q("nwp", g=g, k="i")
            h.q("fn", g=g, ls=[], p={"i": I(1)})
            h.q("fe", g=g, ls=[], p={"i": I(0)})
        h.q_adj(b, 3)
        h.end()
    obs()
    if raw["mut"]:
        side, k, n = raw["mut"]
        g = a if side == "s" else b
        x = N[n - 1] if side == "s" else list(B["N"])[n - 1]
        if k == "snp":
            h.op("snp", h=x, k="i", v=I(7) if cf in ("id", "deep") or side == "s" else ["s", "z"])
        elif k == "sl":
            h.sl(g, x, ls=["B", "C"])
        else:
            h.det(g, x)
        obs()
    return h.script()


def set_impl(raw, rnd, prop):
    """SetImpl: operations on set variables and on the labels of nodes"""
    h = Hist(rnd, 0)
    g = h.ng()
    nodes = [h.nn(g, ls=[], p={}) for _ in range(2)]
    U = ["a", "b", "z"]
    nv = 3
    for s in range(1, nv + 1):
        h.op("sszero", h=s)
    for o in raw:
        k = o[0]
        if k in ("ssnew", "ssadd", "ssrm", "ssunm"):
            ls = list(o[2])
            if k in ("ssnew", "ssadd") and ls and rnd.random() < 0.2:
                ls.append(rnd.choice(ls))
            rnd.shuffle(ls)
            h.op(k, h=o[1], ls=ls)
        elif k == "sszero":
            h.op(k, h=o[1])
        elif k in ("sscopy", "ssclone", "ssjson", "ssaddset"):
            h.op(k, h=o[1], s=o[2])
        elif k == "ssnode":
            h.op(k, h=o[1], n=nodes[o[2] - 1])
        elif k == "sssetl":
            h.op(k, n=nodes[o[1] - 1], s=o[2])
        if prop != "C20" or rnd.random() < 0.3:
            h.q("snap", g=g)
    for s in range(1, nv + 1):
        h.q("ss", h=s, u=U)
        for t in range(1, nv + 1):
            h.q("sscmp", a=s, b=t)
        for ls in ([], ["a"], ["a", "b"], ["b", "z"]):
            h.q("sshas", h=s, ls=ls)
    h.q("snap", g=g)
    return h.script()


def coll_impl(raw, rnd, prop):
    """CollImpl: a node set, an edge set that follows it, a node map"""
    h = Hist(rnd, 0)
    g = h.ng()
    N = [h.nn(g, ls=[], p={}) for _ in range(4)]
    E = [h.ne(g, f=N[i], t=N[(i + 1) % 4], l="L", p={}) for i in range(4)]
    h.op("nsnew", h=1)
    h.op("esnew", h=1)
    h.op("nmnew", h=1)
    for o in raw:
        k, n = o[0], o[1] - 1
        if k in ("nsadd", "nsrm"):
            h.op(k, h=1, n=N[n])
            h.op("es" + k[2:], h=1, e=E[n])
        elif k == "sl":
            h.sl(g, N[n], ls=o[2])
        elif k in ("nmadd", "nmrm"):
            h.op(k, h=1, n=N[n])
        else:
            h.op(k, h=1, n=N[n], ls=o[2], first=rnd.random() < 0.5)
    h.q("ns", h=1, u=N)
    h.q("es", h=1)
    h.q("nmit", h=1)
    h.q("nmempty", h=1)
    for ls in ([], ["A"], ["B"], ["A", "B"], ["C"], ["A", "C"], ["A", "B", "C"]):
        h.q("nmall", h=1, ls=ls)
    if prop == "C18":
        h.q("multi", g=g, lss=[["A"], ["B"], []])
    return h.script()


def ident_impl(raw, rnd, prop):
    """IdentImpl: who is in which graph, refused edges, copies"""
    h = Hist(rnd, 0)
    gs = [h.ng(), h.ng()]
    nodes, edges = [], []             # [handle, graph, live], [handle, graph, f, t, live]
    for i, o in enumerate(raw):
        k = o[0]
        refused = False
        g = gs[o[1] - 1] if k in ("nn", "ne", "copyn", "clonee") else None
        if k == "nn":
            nodes.append([h.nn(g, ls=["A"], p={"i": I(1)}), g, True])
        elif k == "copyn":
            x = h.fresh()
            h.op("copyn", n=nodes[o[2] - 1][0], d=g, cf="id", h=x)
            h.G[g]["N"][x] = [["A"], {}]
            nodes.append([x, g, True])
        elif k in ("ne", "clonee"):
            f, t = nodes[o[2] - 1], nodes[o[3] - 1]
            x = h.fresh()
            if k == "ne":
                h.op("ne", g=g, h=x, f=f[0], t=t[0], l="L", p={}, fast=rnd.random() < 0.5)
            else:
                h.op("clonee", f=f[0], t=t[0], e=edges[o[4] - 1][0], d=g, cf="id", h=x)
            if f[1] == g == t[1] and f[2] and t[2]:
                h.G[g]["E"][x] = [f[0], t[0], "L", {}]
                edges.append([x, g, f, t, True])
            else:
                refused = True
        elif k == "rme":
            e = edges[o[1] - 1]
            h.rme(e[1], e[0])
            e[4] = False
        else:
            n = nodes[o[1] - 1]
            h.dr(n[1], n[0])
            n[2] = False
        if i == len(raw) - 1 or rnd.random() < 0.2:
            for g in gs:
                h.q("snap", g=g)
                if refused:     # what is refused leaves no trace
                    for x in h.G[g]["N"]:
                        for d in ("in", "out"):
                            h.q("ged", h=x, d=d)
            h.q_ids()
            h.end()
    return h.script()


def compare_impl(raw, rnd, prop):
    """CompareImpl: one value against all the others"""
    h = Hist(rnd, 0)
    h.bytes = True
    for x in raw["v"]:
        h.q("cmp", a=raw["a"], b=x)
    return h.script()


def dot_impl(raw, rnd, prop):
    """DotImpl: a small graph and what the renderers say"""
    h = Hist(rnd, 0)
    g = h.ng()
    N = [h.nn(g, ls=[], p={}, fast=False) for _ in range(raw["n"])]
    E = [h.ne(g, f=N[f - 1], t=N[t - 1], l=rnd.choice(["", "L", "M", "q\"", "b\\"]), p={}) for f, t in raw["e"]]
    if prop == "C26":
        h.q("dotfail", g=g)
        return h.script() if all(v == "accept" for v in raw["vn"] + raw["ve"]) else None
    pick = lambda hs, vs, v: [x for x, y in zip(hs, vs) if y == v]
    name = rnd.choice(["G", "g1"])
    h.q("dot", g=g, mode="custom", name=name, rejn=pick(N, raw["vn"], "reject"), failn=pick(N, raw["vn"], "fail"),
        reje=pick(E, raw["ve"], "reject"), faile=pick(E, raw["ve"], "fail"))
    if all(v == "accept" for v in raw["vn"] + raw["ve"]):
        h.q("dot", g=g, mode="default", name=name)
    return h.script()


def encode_impl(raw, rnd, prop):
    """EncodeImpl: a small graph, written with separate or embedded edges"""
    h = Hist(rnd, 0)
    g = h.ng()
    if prop == "C26":       # what fails is the value itself
        P = lambda item: {"k": gen.no_json(rnd) if raw["bad"] == item else gen.jval(rnd)}
    else:
        P = lambda item: {("bad" if raw["bad"] == item else "k"): gen.jval(rnd)}
    N = [h.nn(g, ls=rnd.sample(["A", "B", ""], rnd.choice([1, 2])) if i in raw["lab"] else [],
              p=P(["n", i]) if i in raw["prp"] else {}, fast=False) for i in range(1, raw["n"] + 1)]
    E = raw["e"]
    for j, (f, t) in enumerate(E, 1):
        h.ne(g, f=N[f - 1], t=N[t - 1], l=rnd.choice(["", "L"]), p=P(["e", j]))
    failing = raw["bad"][0] != "none"
    if prop == "C25":
        hk = gen.hook(rnd)
        hk["fail"] = ["bad"] if failing else []
        h.q("enc", g=g, sep=raw["sep"], hook=hk)
    elif failing and prop == "C26":
        h.q("enc", g=g, sep=raw["sep"])
    elif failing:
        return None
    elif prop == "C26":
        h.q("encfail", g=g, sep=raw["sep"])
    else:
        h.q("rt", g=g, sep=raw["sep"], intern=rnd.choice(["no", "log", "map"]))
    return h.script()


UNKNOWN = {"scalar": lambda r: r.choice([["d", "1"], ["z"], ["b", True], ["s", "x"]]), "name": lambda r: ["s", r.choice(["nodes", "edges"])],
           "empty": lambda r: r.choice([["o", {}], ["a", []]]),
           "array": lambda r: ["a", [["d", "1"], ["a", []], ["s", "edges"]]],
           "nested": lambda r: ["o", {"nodes": ["a", [["o", {"n": ["d", "3"]}]]], "edges": ["a", []]}],
           "deep": lambda r: ["a", [["o", {"x": ["o", {}]}], ["a", [["a", []]]]]]}


def decode_impl(raw, rnd, prop):
    """DecodeImpl: a document, its members in the order given"""
    D = lambda k: ["d", str(k)]
    bad = raw["bad"]
    edges = []

    def props(o, item):
        if bad == item:
            o["properties"] = ["o", {"bad": gen.tree(rnd)}]
        elif prop == "C25" or rnd.random() < 0.6:
            o["properties"] = ["o", {"k": gen.tree(rnd)}]

    def num(o, k, v):
        if v or rnd.random() < 0.6:
            o[k] = D(v)
    top, idx = {}, set()
    for m in raw["d"]:
        if m[0] == "nodes":
            l = []
            for nd in m[1]:
                o = {}
                idx.add(nd["ix"])
                num(o, "n", nd["ix"])
                if rnd.random() < 0.5:
                    o["labels"] = ["a", [["s", x] for x in rnd.sample(["A", "B", ""], rnd.choice([0, 1, 2]))]]
                props(o, ["n", nd["ix"], 0])
                if nd["to"]:
                    es = []
                    for j, t in enumerate(nd["to"], 1):
                        e = {}
                        num(e, "to", t)
                        e["label"] = ["s", "E%d" % j]
                        props(e, ["m", nd["ix"], j])
                        es.append(["o", e])
                        edges.append((nd["ix"], t))
                    o["edges"] = ["a", es]
                l.append(["o", o])
            top["nodes"] = ["a", l]
        elif m[0] == "edges":
            l = []
            for j, x in enumerate(m[1], 1):
                e = {}
                num(e, "from", x["f"])
                num(e, "to", x["t"])
                e["label"] = ["s", "S%d" % j]
                props(e, ["s", j, 0])
                l.append(["o", e])
                edges.append((x["f"], x["t"]))
            top["edges"] = ["a", l]
        else:
            top[rnd.choice(["foo", "x", "meta"]) + str(len(top))] = UNKNOWN[m[1]](rnd)
    d = ["o", top]
    failing = bad[0] != "none"
    h = Hist(rnd, 0)
    text = gen.ser(d, rnd, order=True)
    if prop == "C25":
        hk = gen.hook(rnd)
        hk["fail"] = ["bad"] if failing else []
        h.q("dec", text=text, doc=d, intern=rnd.choice(["no", "log", "map"]), hook=hk)
    elif failing:
        return None
    elif prop == "C26":
        if any(f not in idx or t not in idx for f, t in edges):
            return None
        h.q("trunc", text=text, sep=False)
    else:
        h.q("dec", text=text, doc=d, intern=rnd.choice(["no", "log", "map"]))
    return h.script()


def itr_impl(raw, rnd, prop):
    """ItrImpl: a tree of iterators; its leaves become searches with these results"""
    h = Hist(rnd, 0)
    g = h.ng()
    labels, props = {}, {}             # node -> what the leaves need
    leaves = [0]

    def den(t):
        k = t["k"]
        if k == "empty":
            return set()
        if k == "single":
            return {t["v"]}
        if k == "list":
            return set(t["q"])
        if k == "lists":
            return set(t["cur"]) | {v for q in t["rest"] for v in q}
        if k == "filter":
            return den(t["t"]) & set(t["S"])
        if k in ("unique", "sized"):
            return den(t["t"])
        return {v for c in t["rest"] for v in den(c)}

    def leaf(S):
        leaves[0] += 1
        x = "q%d" % leaves[0]
        how = rnd.choice("lfk")
        for v in S:
            if how == "k":
                props.setdefault(v, {})[x] = I(1)
            else:
                labels.setdefault(v, []).append(x)
        return {"l": ["l", [x]], "f": ["f", [x], {}], "k": ["k", x]}[how]

    def walk(t):
        k = t["k"]
        if k == "multi":
            return ["m"] + [walk(c) for c in t["rest"]]
        if k == "sized":
            return walk(t["t"])
        if k == "filter" and t["t"]["k"] not in ("multi", "sized"):
            leaves[0] += 1
            y = "p%d" % leaves[0]
            for v in den(t["t"]):
                props.setdefault(v, {})[y] = I(1 if v in t["S"] else 2)
            if rnd.random() < 0.5:
                h.ix(g, k=y, t=rnd.choice("bh"), what="n")
            x = leaf(den(t["t"]))
            return ["f", x[1] if x[0] in "lf" else [], {y: I(1)}]
        return leaf(den(t))
    t = walk(raw)
    for v in (1, 2, 3):
        h.nn(g, ls=labels.get(v, []), p=props.get(v, {}), fast=False)
    h.q("mtree", g=g, t=t)
    return h.script()
