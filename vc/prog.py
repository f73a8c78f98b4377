"""Loads the exporter's JSON (one file per translation unit) into one program."""
import json, os

class Ty:
    __slots__ = ("k", "s", "n", "args", "t", "w", "sg", "c", "id", "r", "p", "va", "cl", "size", "u", "tu")
    def __repr__(self): return "<%s>" % self.s
    def strip(self):
        return self.t if self.k in ("ref", "rref") else self

class Fn:
    __slots__ = ("key", "q", "r", "p", "va", "ta", "cls", "virt", "static", "const", "ov", "pure", "kind",
                 "copy", "move", "dflt", "nt", "our", "file", "line", "d", "tu", "del_", "implicit", "pd")
    def __repr__(self): return "<fn %s>" % self.q

class Rec:
    pass

class Program:
    def __init__(self):
        self.fns = {}; self.recs = {}; self.globals = {}; self.gorder = []
        self.tt = {}; self.byq = {}; self.ctors = {}; self.types = {}

    def load(self, path):
        d = json.load(open(path)); tu = d["tu"]
        tys = [Ty() for _ in d["types"]]
        def g(i): return tys[i] if isinstance(i, int) else i
        for t, j in zip(tys, d["types"]):
            j = j or {"k": "?", "s": "?"}
            t.k = j.get("k"); t.s = j.get("s"); t.n = j.get("n") if t.k in ("rec", "enum") else None
            t.args = [g(x) for x in j.get("a", [])]; t.t = g(j["t"]) if "t" in j else None
            t.w = j.get("w"); t.sg = bool(j.get("sg")); t.c = bool(j.get("c")); t.id = j.get("id")
            t.r = g(j["r"]) if "r" in j else None
            t.p = [g(x) for x in j.get("p", [])]; t.va = bool(j.get("va")); t.cl = g(j["cl"]) if "cl" in j else None
            t.size = j.get("n") if t.k == "arr" else None; t.u = g(j["u"]) if "u" in j else None; t.tu = tu
        self.tt[tu] = tys
        for k, j in d["fns"].items():
            if not j or (k in self.fns and (self.fns[k].d or k not in d["defs"])): continue
            f = Fn(); f.key = k; f.q = j["q"]; f.r = g(j["r"]); f.p = [g(x) for x in j["p"]]; f.va = j.get("va")
            f.ta = [g(x) for x in j.get("ta", [])]; f.cls = g(j["cls"]) if "cls" in j else None
            f.virt = j.get("virt"); f.static = j.get("static"); f.const = j.get("const"); f.ov = j.get("ov", [])
            f.pure = j.get("pure"); f.kind = j["kind"]; f.copy = j.get("copy"); f.move = j.get("move"); f.dflt = j.get("def")
            f.nt = j.get("nt"); f.our = j.get("our"); f.file = j.get("file"); f.line = j.get("line"); f.del_ = j.get("del")
            f.implicit = j.get("implicit"); f.pd = j.get("pd")
            f.d = d["defs"].get(k); f.tu = tu
            if f.d and f.d.get("body") is None and not (f.d.get("inits")): f.d = None if f.kind != "ctor" else f.d
            self.fns[k] = f
        for k, j in d["recs"].items():
            if k in self.recs or not j: continue
            r = Rec(); r.key = k; r.q = j["q"]; r.fields = [(x["n"], g(x["t"]), x.get("init")) for x in j["f"]]
            r.bases = [g(b) for b in j.get("b", [])]; r.dtor = j.get("dtor"); r.lam = j.get("lambda"); r.call = j.get("call"); r.calls = j.get("calls")
            r.vm = j.get("vm", []); r.tu = tu; r.agg = j.get("agg"); r.union = j.get("union"); r.poly = j.get("poly")
            self.recs[k] = r
        for k in d["gorder"]:
            if k in self.globals: 
                if "init" in self.globals[k][0] or "init" not in d["globals"][k]: continue
            self.globals[k] = (d["globals"][k], tu)
            self.gorder.append(k)

    def finish(self):
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)
            if f.kind == "ctor" and f.cls is not None and f.cls.id: self.ctors.setdefault(f.cls.id, []).append(f)
        for tys in self.tt.values():
            for t in tys: self.types.setdefault(t.s, t)
        return self

    def find(self, q, nparams=None, pred=None, need_def=True):
        c = [f for f in self.byq.get(q, []) if (not need_def or f.d) and (nparams is None or len(f.p) == nparams) and (pred is None or pred(f))]
        return c

    def bases_all(self, rec):
        out = []
        for b in rec.bases:
            if b.id and b.id in self.recs:
                out.append(self.recs[b.id]); out += self.bases_all(self.recs[b.id])
        return out
    def all_fields(self, rec):
        fs = []
        for b in rec.bases:
            if b.id and b.id in self.recs: fs += self.all_fields(self.recs[b.id])
        return fs + rec.fields
    def derives(self, rk, bk):
        if rk == bk: return True
        r = self.recs.get(rk)
        return bool(r) and any(b.id and self.derives(b.id, bk) for b in r.bases)
