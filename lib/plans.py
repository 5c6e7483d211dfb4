"""What each check explores: models, and histories for the real code."""
import os
import random
import engine
import gen


def rep(rnd, n, f, start=0):
    return [f(random.Random(rnd.getrandbits(64)), start + i) for i in range(n)]


def obs_c01(h, g):
    h.q_snap(g)
    h.q("nodes", g=g)
    h.q("edges", g=g)
    h.q_attr(g)


def obs_c02(h, g):
    h.q_adj_all(g) if len(h.G[g]["N"]) <= 6 else h.q_adj(g, 20)


def obs_c03(h, g):
    h.q_lab(g, 4)


def obs_c04(h, g):
    h.q_prop(g, 4)


def obs_c05(h, g):
    h.q_find(g, 5)


def obs_c06(h, g):
    h.q_snap(g)
    h.q_adj(g, 8)
    h.q_lab(g, 2)
    h.q_prop(g, 2)
    h.q_find(g, 1)


def obs_c18(h, g):
    h.q_all(g, 2)


def obs_c19(h, g):
    h.q_find(g, 2)
    h.q_lab(g, 1)
    h.q_adj(g, 2)
    h.q_prop(g, 1)
    h.q_derived(g)
    h.q_snap(g)


def obs_c24(h, g):
    h.q_derived(g)
    h.q_derived(g)


def histories(rnd, n, obs, big=4, **kw):
    out = []

    def one(r, i):
        k = dict(nops=r.choice([6, 14, 24, 40]), graphs=1 if r.random() < 0.85 else 2, indexes=0.5)
        k.update(kw)
        return gen.history(r, i, obs, **k)
    out += rep(rnd, n, one)
    out += rep(rnd, big, lambda r, i: gen.big_history(r, i, obs, nodes=r.choice([8, 20, 36]), edges=r.choice([20, 50, 90])), n)
    out += rep(rnd, max(1, big // 2), lambda r, i: gen.huge_history(r, i, obs), n)
    return out


def scripts(prop, tier, rnd):
    """random histories for one property"""
    q = tier == "quick"
    k = 2 if q else 12

    def H(n, obs, big=4, **kw):
        return histories(rnd, n * k, obs, big * k, **kw)
    R = lambda n, f: rep(rnd, n * k, f)
    if prop == "C01":
        return H(500, obs_c01)
    if prop == "C02":
        return H(350, obs_c02)
    if prop == "C03":
        return H(500, obs_c03)
    if prop == "C04":
        return H(350, obs_c04, indexes=0.9, weights=dict(ixn=2, ixe=2))
    if prop == "C05":
        return H(350, obs_c05, indexes=0.6)
    if prop == "C06":
        return H(300, obs_c06, weights=dict(rme=7, dr=5, det=3, ne=12, nn=7), indexes=0.7)
    if prop == "C07":
        return R(700, lambda r, i: gen.pattern_case(r, i, prop))
    if prop == "C08":
        return R(500, lambda r, i: gen.pattern_case(r, i, prop))
    if prop == "C09":
        return R(700, lambda r, i: gen.pattern_case(r, i, prop))
    if prop == "C10":
        return R(700, gen.trails_case)
    if prop == "C11":
        return R(500, lambda r, i: gen.paths_case(r, i))
    if prop == "C12":
        return R(500, gen.cursor_case)
    if prop == "C13":
        return R(350, gen.copy_case)
    if prop == "C14":
        return R(700, gen.iso_case)
    if prop == "C15":
        return R(500, lambda r, i: gen.enc_case(r, i, prop))
    if prop == "C16":
        return R(700, lambda r, i: gen.dec_case(r, i, prop))
    if prop == "C17":
        return R(500, gen.cmp_case)
    if prop == "C18":
        return H(150, obs_c18, indexes=0.7) + R(60, gen.cursor_case) + R(100, gen.coll_case)
    if prop == "C19":
        return (H(120, obs_c19, mut=True) + R(100, lambda r, i: gen.pattern_case(r, i, prop)) + R(40, gen.copy_case)
                + R(60, gen.iso_case) + R(60, gen.mixed_readonly) + R(100, gen.cmp_case) + R(60, gen.trails_case)
                + R(60, gen.paths_case))
    if prop == "C20":
        return R(500, gen.sets_case)
    if prop == "C21":
        return R(450, gen.ident_case)
    if prop == "C22":
        return R(600, gen.dot_case)
    if prop == "C23":
        return R(500, gen.coll_case)
    if prop == "C24":
        return H(350, obs_c24)
    if prop == "C25":
        return R(300, lambda r, i: gen.enc_case(r, i, prop)) + R(350, lambda r, i: gen.dec_case(r, i, prop))
    if prop == "C26":
        return R(150, lambda r, i: gen.enc_case(r, i, prop)) + R(250, lambda r, i: gen.dec_case(r, i, prop))
    if prop == "C27":
        return R(700, lambda r, i: gen.pattern_case(r, i, prop))
    raise KeyError(prop)


def models(prop, tier):
    """the model checking runs of a property"""
    import mscripts as ms
    q = tier == "quick"
    out = []

    def M(name, module, expand=None, cap=None, tcap=20000, thorough=True, **kw):
        """a model with configuration NAME.cfg, in the thorough tier NAME_T.cfg if it exists"""
        cfg = name + ".cfg"
        if not q and thorough and os.path.exists(os.path.join(engine.SPEC, name + "_T.cfg")):
            cfg = name + "_T.cfg"
        if "VIEW" not in open(os.path.join(engine.SPEC, cfg)).read():
            kw.setdefault("workers", 4)      # what is printed does not depend on the order of the search
        out.append(dict(name=name, module=module + ".tla", cfg=cfg, expand=expand, cap=cap if q else tcap, **kw))
    obs = {"C01": obs_c01, "C02": obs_c02, "C03": obs_c03, "C04": obs_c04, "C05": obs_c05, "C06": obs_c06, "C18": obs_c18,
           "C19": obs_c19, "C24": obs_c24}

    # the invariants of the storage that are about the property (the others are checked by the other properties' runs)
    inv = {"C06": ["InvC01", "InvC02", "InvC03", "InvC04", "InvC05"], "C19": ["InvC01"]}.get(prop, sorted({"InvC01", "Inv" + prop}))

    def GI(name, n0, cap):
        M(name, "GraphImpl", ms.graph_impl(n0, obs[prop]), cap, invs=inv)
    if prop in ("C01", "C06", "C19"):
        GI("GI_nodes", 0, 300)
    if prop in ("C01", "C02", "C06", "C24", "C18"):
        GI("GI_edges", 2, 1200)
    if prop in ("C01", "C03", "C05", "C06", "C18"):
        GI("GI_labels", 0, 800)
    if prop in ("C03",):
        GI("GI_edges", 2, 800)
    if prop in ("C04", "C05", "C06", "C18", "C19"):
        GI("GI_nprops", 0, 800)
        GI("GI_eprops", 1, 800)
    
    def PE(name, cap):
        M(name, "PatternEngine", ms.pattern_engine, cap)
    if prop in ("C07", "C08", "C09"):
        PE("PE_3", 900)
        PE("PE_5", 500)
        if prop == "C07" or not q:
            PE("PE_ring", 250)
    if prop in ("C27", "C19"):
        PE("PE_sym", 900)
    if prop == "C10":
        M("TR", "TrailsImpl", ms.trails, 2500, tcap=60000)
        M("TR_ring", "TrailsImpl", ms.trails, 700)
        M("TR_live", "TrailsImpl")
    if prop in ("C11", "C19"):
        M("PATH", "PathImpl", ms.path_impl, 2000 if prop == "C11" else 300)
        M("PATH_append", "PathImpl", ms.path_impl, 1500 if prop == "C11" else 200, tcap=30000)
        M("PATH_alias", "PathImpl", ms.path_impl, 2000 if prop == "C11" else 300, tcap=30000)
    if prop in ("C12", "C18"):
        M("CUR", "CursorImpl", ms.cursor_impl, 2500 if prop == "C12" else 200)
    if prop == "C14":
        M("ISO_2", "IsoImpl", ms.iso_impl, 2500, tcap=40000)
        M("ISO_3", "IsoImpl", ms.iso_impl, 2500, tcap=40000)
    if prop in ("C13", "C19"):
        M("COPY", "CopyImpl", ms.copy_impl, 1500 if prop == "C13" else 200)
    if prop in ("C20", "C19"):
        M("SET", "SetImpl", ms.set_impl, 1800 if prop == "C20" else 250)
        M("SET_alias", "SetImpl", ms.set_impl, 1800 if prop == "C20" else 250)
    if prop in ("C23", "C18"):
        M("COLL_set", "CollImpl", ms.coll_impl, 600 if prop == "C23" else 60)
        M("COLL_map", "CollImpl", ms.coll_impl, 3000 if prop == "C23" else 150)
    if prop in ("C18", "C23"):
        M("ITR", "ItrImpl", ms.itr_impl, 900 if prop == "C18" else 300)
    if prop == "C21":
        M("ID", "IdentImpl", ms.ident_impl, 1500, tcap=40000)
        M("ID_copy", "IdentImpl", ms.ident_impl, 1500, tcap=40000)
    if prop == "C17":
        M("CMP", "CompareImpl", ms.compare_impl)
        M("CMP_laws", "CompareImpl")
    if prop in ("C22", "C26"):
        M("DOT", "DotImpl", ms.dot_impl, 1000)
        if prop == "C22":
            M("DOT_3", "DotImpl", ms.dot_impl, 2500, tcap=40000)
    if prop in ("C15", "C25", "C26"):
        M("ENC", "EncodeImpl", ms.encode_impl, 1000 if prop != "C26" else 300)
    if prop in ("C16", "C25", "C26"):
        cap = 300 if prop == "C26" else 900
        M("DEC", "DecodeImpl", ms.decode_impl, cap)
        M("DEC_emb", "DecodeImpl", ms.decode_impl, cap)
        M("DEC_sep", "DecodeImpl", ms.decode_impl, cap)
        if prop != "C25":
            M("DEC_cut", "DecodeImpl", ms.decode_impl, cap)
    return out
