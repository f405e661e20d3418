"""P13: parameter tables.  P20: the C interface (with exceptions: a called C++ function either returns or throws)."""
from .common import *
from .. import ir
from ..sym import THROW, Forks, END
# documented order (option table and struct of the header) with kind
OPTS = [("tau_L", "d"), ("tau_U", "d"), ("kappa_d", "d"), ("kappa", "d"), ("alpha_L", "d"), ("alpha_U", "d"), ("rho", "d"), ("c_d", "d"), ("c_h", "d"), ("N", "i"),
        ("verbose", "i"), ("rf_par", "i"), ("reorder", "i"), ("spd", "i"), ("check", "i"), ("pre_scale", "i"), ("symm_pre_lvls", "i"), ("threads", "i"), ("mumps_blr", "i"),
        ("fat_schur_1st", "i"), ("rrqr_cond", "d"), ("pivot", "i"), ("gamma", "d"), ("beta", "d"), ("is_symm", "i"), ("no_pre", "i"), ("nzp_thres", "d"), ("dense_thres", "i")]
CSLOT = ["tau_L", "tau_U", "kappa_d", "kappa", "alpha_L", "alpha_U", "verbose", "reorder", "symm_pre_lvls", "threads", "rrqr_cond", "pivot", "beta", "is_symm", "no_pre", "nzp_thres", "dense_thres"]
KIND = dict(OPTS)
def layout():
    off, o = {}, 0
    for n, k in OPTS:
        z = 8 if k == "d" else 4
        o = (o + z - 1) // z * z; off[n] = o; o += z
    return off
OFF = layout()
def trunc(v):
    r = z3.ToInt(v); return z3.If(z3.And(v < 0, z3.ToReal(r) != v), r + 1, r)
class PTask(Task):
    driver = "params.cpp"; fp2int_checked = False; must_cover = (1,); prop = "P13"
    templates = ()
    def opt_fields(s, ex, st, reg, nm):
        """give every field of an options object a symbolic value"""
        reg = st.regs[reg].copy(); reg.content = dict(reg.content); vals = {}
        for n, k in OPTS:
            v = z3.Real(nm + "." + n) if k == "d" else ex.int_(st, nm + "." + n, -(1 << 31), (1 << 31) - 1)
            reg.content[OFF[n]] = (8 if k == "d" else 4, v); vals[n] = v
        st.regs[reg.id] = reg
        return vals
    def opt(s, ex, st, nm):
        r = ex.cells(st, nm, 176); s.o[nm] = r.id; s.ov[nm] = s.opt_fields(ex, st, r.id, nm)
        return Ptr(r.id)
    def field(s, ex, st, reg, n): return zv(ex.load(st, Ptr(reg).add(Lin(OFF[n])), ir.F64 if KIND[n] == "d" else ir.INT(32)), KIND[n])
    def setup(s, ex, st): s.o = {}; s.ov = {}; return s.args(ex, st)
    def ensure(s, ex, st, tag, a): s.post(ex, st, tag, a)
def zv(v, k): return zr(v) if k == "d" else zi(v)
from ..sym import Lin, Ptr, NULL, zr, zi, isz
import re
class SetAttr(PTask):
    ty = "d"; exc_types = ("_ZTISt12out_of_range",)
    def at(s, ex, st, ins, v):
        if "unknown" in st.ghost: raise Unsupported("two lookups")
        s1, s2 = st, st.copy()
        s2.ghost["unknown"] = True; s1.ghost["unknown"] = False
        pos = z3.Int("pos"); s1.assume(z3.And(0 <= pos, pos < len(OPTS))); s1.ghost["pos"] = pos
        t = ex.cells(s1, "entry", 4); t.content[0] = (4, pos)
        return Forks([(s1, Ptr(t.id)), (s2, THROW)])
    @property
    def contracts(s): return [(re.compile(r"unordered_map<.*>::at\("), lambda ex, st, ins, v: s.at(ex, st, ins, v))]
    def args(s, ex, st):
        s.v = z3.Real("v") if s.ty == "d" else ex.int_(st, "v", -(1 << 31), (1 << 31) - 1)
        if s.ty == "d": st.assume(z3.And(s.v > -(1 << 31), s.v < (1 << 31)))
        return [s.v, s.opt(ex, st, "o")]
    def post(s, ex, st, tag, a):
        unk = st.ghost["unknown"]
        ex.prove(st, zi(a[0]) == (1 if unk else 0), "post: unknown names are refused, known ones are accepted")
        for k, (n, kd) in enumerate(OPTS):
            new, old = s.field(ex, st, s.o["o"], n), s.ov["o"][n]
            want = (z3.ToReal(s.v) if s.ty == "i" else s.v) if kd == "d" else (s.v if s.ty == "i" else trunc(s.v))
            if unk: ex.prove(st, new == old, "post: an unknown name changes nothing")
            else: ex.prove(st, z3.If(st.ghost["pos"] == k, new == want, new == old), "post: exactly the named parameter takes the value (%s)" % n)
class Stream(PTask):
    def args(s, ex, st):
        s.d = ex.region(st, "d", "double", len(OPTS), writable=False); s.i = ex.region(st, "i", "i32", len(OPTS), writable=False)
        return [ex.ptr(s.d), ex.ptr(s.i), s.opt(ex, st, "o")]
    def post(s, ex, st, tag, a):
        ex.prove(st, zi(a[0]) == len(OPTS), "post: one token is read per parameter")
        for k, (n, kd) in enumerate(OPTS):
            ex.prove(st, s.field(ex, st, s.o["o"], n) == (s.d if kd == "d" else s.i).content[k], "post: the parameter takes the token at its documented position (%s)" % n)
class Defaults(PTask):
    def args(s, ex, st): return [s.opt(ex, st, "a"), s.opt(ex, st, "b"), s.opt(ex, st, "c")]
    def post(s, ex, st, tag, a):
        for n, k in OPTS:
            x, y, z = (s.field(ex, st, s.o[q], n) for q in "abc")
            ex.prove(st, z3.And(x == y, y == z), "post: the same default through every function (%s)" % n)
class DefInit(PTask):
    """the initialiser of DEFAULT_PARAMS"""
    must_cover = ()
    fn = "irv_default_init"
    def args(s, ex, st):
        f = [n for n, f in ex.mod.funcs.items() if n.startswith("__cxx_global_var_init") and any("sret(%struct.hif_Options) align 8 @_ZN3hifL14DEFAULT_PARAMSE" in l for l in (f.raw or s.raws.get(n, ())))]
        if len(f) != 1: raise Unsupported("initialiser of DEFAULT_PARAMS")
        s.raws[f[0]] = ex.mod.funcs[f[0]].raw or s.raws.get(f[0])
        ex.mod.funcs[s.fn] = ex.mod.funcs[f[0]]
        g = ex.global_ptr(st, "_ZN3hifL14DEFAULT_PARAMSE"); s.g = g.reg; s.opt_fields(ex, st, s.g, "D")
        return []
    raws = {}
    def on_return(s, ex, st, v):
        if ex.mode != "final": return
        d = ex.cells(st, "ref", 176); st2 = st
        f = ex.mod.funcs.get("_Z23hif_get_default_optionsv") or ex.mod.funcs.get("_ZL23hif_get_default_optionsv") or ex.mod.funcs.get("hif_get_default_options")
        if f is None: raise Unsupported("hif_get_default_options")
        ex.call_inline(st, f.name, [Ptr(d.id)])
        for n, k in OPTS:
            ex.prove(st, s.field(ex, st, s.g, n) == s.field(ex, st, d.id, n), "post: DEFAULT_PARAMS holds the default (%s)" % n, "initialiser of DEFAULT_PARAMS")
class CDefaults(PTask):
    def args(s, ex, st):
        g = ex.global_ptr(st, "_ZN3hifL14DEFAULT_PARAMSE"); s.dv = s.opt_fields(ex, st, g.reg, "D")
        s.p = ex.region(st, "p", "double", len(CSLOT)); return [ex.ptr(s.p)]
    def post(s, ex, st, tag, a):
        ex.prove(st, zi(a[0]) == 0, "post: status is success")
        for k, n in enumerate(CSLOT):
            w = s.dv[n] if KIND[n] == "d" else z3.ToReal(s.dv[n])
            ex.prove(st, st.regs[s.p.id].content[k] == w, "post: the C default slot holds the C++ default (%s)" % n)
def expect_params(slot, dflt):
    """options built from the C slots"""
    r = dict(dflt)
    for k, n in enumerate(CSLOT): r[n] = slot[k] if KIND[n] == "d" else trunc(slot[k])
    return r
class CreateParams(PTask):
    def args(s, ex, st):
        s.p = ex.region(st, "p", "double", len(CSLOT), writable=False); 
        for k in range(len(CSLOT)): st.assume(z3.And(s.p.content[k] > -(1 << 31), s.p.content[k] < (1 << 31)))
        return [ex.ptr(s.p), s.opt(ex, st, "o")]
    def gdp(s, ex, st, ins, v):
        r = v[0].reg; s.dv = s.opt_fields(ex, st, r, "D"); return None
    @property
    def contracts(s): return [("_ZN3hif18get_default_paramsEv", lambda ex, st, ins, v: s.gdp(ex, st, ins, v))]
    def post(s, ex, st, tag, a):
        e = expect_params(s.p.content, s.dv)
        for n, k in OPTS: ex.prove(st, s.field(ex, st, s.o["o"], n) == e[n], "post: each C slot controls exactly its own option (%s)" % n)
class SetTwo(PTask):
    slots = ()
    def args(s, ex, st): s.v = z3.Real("v"); s.p = ex.region(st, "p", "double", len(CSLOT)); return [s.v, ex.ptr(s.p)]
    def post(s, ex, st, tag, a):
        ex.prove(st, zi(a[0]) == 0, "post: status is success")
        for k, n in enumerate(CSLOT):
            ex.prove(st, st.regs[s.p.id].content[k] == (s.v if n in s.slots else s.p.content[k]), "post: exactly the two slots are set (%s)" % n)
def mk(base, nm, fn_, **kw): return type(nm, (base,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk(SetAttr, "par_set_double", "drv_set_double"), mk(SetAttr, "par_set_int", "drv_set_int", ty="i"), mk(SetAttr, "par_set_alias", "drv_set_param"), mk(Stream, "par_stream", "drv_stream"),
         mk(Defaults, "par_defaults", "drv_defaults"), mk(DefInit, "par_default_init", "irv_default_init"), mk(CDefaults, "par_c_defaults", "drv_cdefaults"), mk(CreateParams, "par_create", "drv_create_params"),
         mk(SetTwo, "par_droptol", "drv_droptol", slots=("tau_L", "tau_U")), mk(SetTwo, "par_alpha", "drv_alpha", slots=("alpha_L", "alpha_U")), mk(SetTwo, "par_kappa", "drv_kappa", slots=("kappa", "kappa_d"))]
