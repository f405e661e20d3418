"""irv: contract-based deductive verifier over LLVM IR (symbolic execution with loop cutting).

Semantics and modelling decisions (all recorded as assumptions in evidence):
 * integers: mathematical Int, canonical signed value of the N-bit pattern; every add/sub/mul carries a
   no-overflow obligation; size_t values that go through zero are exact.
 * floating point: exact real arithmetic (mode "real").
 * memory: disjoint regions (arguments do not alias unless the contract says so), every load/store carries a
   bounds obligation.
 * loops: cut at the header; modified state is havocked; only invariants that are themselves proved
   (initiation + consecution) are assumed.
"""
import re, time
from fractions import Fraction
import z3
import hashlib
from . import ir
from .ir import IRError

class Unsupported(Exception): pass

z3.set_param("smt.auto_config", False)
z3.set_param("smt.mbqi", False)
z3.set_param("smt.arith.nl", False)

I = z3.IntSort(); R = z3.RealSort()
AI = z3.ArraySort(I, I); AR = z3.ArraySort(I, R)
_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])
def fint(p="i"): return z3.Int(fresh_name(p))
def freal(p="f"): return z3.Real(fresh_name(p))
def fbool(p="b"): return z3.Bool(fresh_name(p))

def isz(x): return isinstance(x, z3.AstRef)
def zi(x): return x if isz(x) else z3.IntVal(int(x))
def zr(x):
    if isz(x): return x
    if not isinstance(x, (int, Fraction)): raise Unsupported("not a number: %r" % (x,))
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + "/" + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.RealVal(x)
def zb(x): return x if isz(x) else z3.BoolVal(bool(x))

def has_q(f, d=0):
    if not isz(f): return False
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_bool(x): st += x.children()
    return False

# ------------------------------------------------------------------ linear offsets
class Lin:
    __slots__ = ("c", "t")
    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}
    def add(s, o):
        t = dict(s.t)
        for k, (e, c) in o.t.items():
            c2 = c + (t[k][1] if k in t else 0)
            if c2 == 0: t.pop(k, None)
            else: t[k] = (e, c2)
        return Lin(s.c + o.c, t)
    def scale(s, k):
        if k == 0: return Lin()
        return Lin(s.c * k, {i: (e, c * k) for i, (e, c) in s.t.items()})
    def neg(s): return s.scale(-1)
    def is_const(s): return not s.t
    def div(s, d):
        """exact division or None"""
        if s.c % d: return None
        for e, c in s.t.values():
            if c % d: return None
        return Lin(s.c // d, {i: (e, c // d) for i, (e, c) in s.t.items()})
    def z(s):
        if not s.t: return s.c
        r = None
        for e, c in s.t.values():
            x = e if c == 1 else (c * e)
            r = x if r is None else r + x
        return r if s.c == 0 else r + s.c
    def key(s): return (s.c, tuple(sorted((k, c) for k, (e, c) in s.t.items())))

def lin_of(e):
    """linear form of an integer value"""
    if not isz(e): return Lin(int(e))
    if z3.is_int_value(e): return Lin(e.as_long())
    if z3.is_add(e):
        r = Lin()
        for c in e.children(): r = r.add(lin_of(c))
        return r
    if z3.is_sub(e):
        ch = e.children(); r = lin_of(ch[0])
        for c in ch[1:]: r = r.add(lin_of(c).neg())
        return r
    if z3.is_app_of(e, z3.Z3_OP_UMINUS): return lin_of(e.arg(0)).neg()
    if z3.is_mul(e) and e.num_args() == 2:
        a, b = e.children()
        if z3.is_int_value(a): return lin_of(b).scale(a.as_long())
        if z3.is_int_value(b): return lin_of(a).scale(b.as_long())
    return Lin(0, {e.get_id(): (e, 1)})

class Ptr:
    __slots__ = ("reg", "off")
    def __init__(s, reg, off=None): s.reg = reg; s.off = off or Lin()
    def add(s, l): return Ptr(s.reg, s.off.add(l))
    def __repr__(s): return "Ptr(%s,%s)" % (s.reg, s.off.z())
NULL = Ptr(0)
class FnPtr:
    def __init__(s, name): s.name = name
class PtrInt:
    def __init__(s, p): s.p = p
class Undef: pass
UNDEF = Undef()

class Region:
    """static description; adopted element type lives here per state copy"""
    __slots__ = ("id", "name", "kind", "esz", "ety", "len", "bytes", "heap", "writable", "content", "freed", "zero", "origin", "gptr")
    def __init__(s, id, name): 
        s.id = id; s.name = name; s.kind = "lazy"; s.esz = None; s.ety = None; s.len = None; s.bytes = None
        s.heap = None; s.writable = True; s.content = None; s.freed = False; s.zero = False; s.origin = None; s.gptr = None
    def copy(s):
        r = Region(s.id, s.name)
        for a in s.__slots__: setattr(r, a, getattr(s, a))
        return r

def prim_sort(t):
    if t.k == "i": return "i"
    if t.k in ("double", "float", "x86_fp80"): return "f"
    if t.k == "ptr": return "p"
    raise Unsupported("prim " + repr(t))

class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "env", "ret", "allocas", "fid", "iters", "name")
    def copy(s):
        f = Frame(); f.fn = s.fn; f.block = s.block; f.idx = s.idx; f.prev = s.prev; f.env = dict(s.env)
        f.ret = s.ret; f.allocas = list(s.allocas); f.fid = s.fid; f.iters = dict(s.iters); f.name = s.name
        return f

class LoopCtx:
    __slots__ = ("key", "base", "depth", "fid", "header", "body", "vals", "entry", "snap", "maxreg", "meta")
    def copy(s): return s   # immutable once set

class State:
    def __init__(s):
        s.frames = []; s.regs = {}; s.facts = []; s.loops = []; s.nn = set(); s.ghost = {}; s.trace = []; s.vac = None; s.nextreg = 1; s.sites = {}
    def copy(s):
        n = State(); n.frames = [f.copy() for f in s.frames]; n.regs = dict(s.regs); n.facts = list(s.facts)
        n.loops = list(s.loops); n.nn = set(s.nn); n.ghost = dict(s.ghost); n.trace = list(s.trace); n.nextreg = s.nextreg; n.sites = dict(s.sites)
        return n
    def assume(s, f):
        if f is True or f is None: return
        if isinstance(f, (list, tuple)):
            for x in f: s.assume(x)
            return
        s.facts.append(zb(f))

class Oblig:
    __slots__ = ("kind", "loc", "status", "detail", "t", "solver")
    def __init__(s, kind, loc, status, detail="", t=0.0, solver="z3"):
        s.kind, s.loc, s.status, s.detail, s.t, s.solver = kind, loc, status, detail, t, solver

class Template:
    def __init__(s, name, holes, fn, when=None, sym=False, only=None): s.name = name; s.holes = holes; s.fn = fn; s.when = when; s.sym = sym; s.only = only   # sym: symmetric in the first two holes; only: names of admissible arrays

class View:
    """what a template / spec sees"""
    def __init__(s, ex, st, vals=None): s.ex = ex; s.st = st; s.vals = vals or {}
    def arr(s, name):
        rid = s.ex.names.get(name)
        if rid is None or rid not in s.st.regs: raise KeyError(name)
        return s.st.regs[rid].content
    def reg(s, rid): return s.st.regs[rid]

MAXI = 1 << 62

class Exec:
    def __init__(s, mod, task, opts=None):
        s.mod = mod; s.task = task; s.names = {}; s.obl = []; s.axioms = []
        s.celltype = {}; s.cands = {}; s.modset = {}; s.explore = False; s.incon = []; s.mode = "final"; s.changed = False
        s.opts = dict(timeout=8000, qf_timeout=300, hout=3000, maxpaths=4000, unroll=70)
        s.opts.update(opts or {})
        s.time0 = time.time(); s.solver_time = 0.0; s.nq = 0
        s.pats = []
        s.covers = {}; s.hints = None; s.funcs_seen = {}
        s.deadline = None; s.nofail = False; s.fid = 0
        s._qf = None; s._qf_state = None; s._qf_n = 0
        s.errors = []; s.retstates = []

    # ----------------------------------------------------------- helpers for specs
    def int_(s, st, name, lo=None, hi=None):
        x = z3.Int(name + "$")      # never captured by a bound variable
        if lo is not None: st.assume(x >= lo); 
        if lo is not None and not isz(lo) and lo >= 0: st.nn.add(x.get_id())
        if hi is not None: st.assume(x <= hi)
        return x
    def real(s, name): return z3.Real(name)
    def region(s, st, name, ety, length, writable=True, heap=None):
        """array region with element type 'i32','i64','i8','double' """
        r = Region(st.nextreg, name); st.nextreg += 1
        r.kind = "array"
        t = {"double": ir.F64, "float": ir.F32}.get(ety) or ir.INT(int(ety[1:]))
        r.ety = t; r.esz = s.mod.size(t); r.len = length; r.writable = writable; r.heap = heap
        r.content = z3.Const(fresh_name(name), AR if prim_sort(t) == "f" else AI)
        st.regs[r.id] = r; s.names[name] = r.id
        return r
    def ptr(s, r, off=0): return Ptr(r.id, lin_of(off).scale(r.esz))
    def cells(s, st, name, size=None, heap=None):
        r = Region(st.nextreg, name); st.nextreg += 1
        r.kind = "cells"; r.bytes = size; r.content = {}; r.heap = heap
        st.regs[r.id] = r; s.names[name] = r.id
        return r

    # ----------------------------------------------------------- solver
    def qf_check(s, st, f):
        """quick quantifier-free check: returns True if facts imply f (proved)"""
        if not isz(f): return bool(f)
        if s._qf is None or s._qf_state is not st:
            s._qf = z3.SolverFor("QF_AUFLIRA") if False else z3.SimpleSolver()
            s._qf.set("timeout", s.opts["qf_timeout"])
            s._qf_state = st; s._qf_n = 0
        q = s._qf
        while s._qf_n < len(st.facts):
            g = st.facts[s._qf_n]; s._qf_n += 1
            if not has_q(g): q.add(g)
        t = time.time(); s.nq += 1
        q.push(); q.add(z3.Not(f)); r = q.check(); q.pop()
        s.solver_time += time.time() - t
        return r == z3.unsat
    def feasible(s, st, c):
        if not isz(c): return bool(c)
        return not s.qf_check(st, z3.Not(c))

    def prove_raw(s, st, f, timeout, extra=()):
        if not isz(f):
            if f: return "proved", ""
            f = z3.BoolVal(False)
        t = time.time(); s.nq += 1
        sol = z3.SimpleSolver(); sol.set("timeout", timeout)
        for a in s.axioms: sol.add(a)
        for a in st.facts: sol.add(a)
        for a in extra: sol.add(a)
        sol.add(z3.Not(f))
        r = sol.check()
        dt = time.time() - t; s.solver_time += dt
        if r == z3.unsat: return "proved", dt
        return ("failed", str(sol.reason_unknown()) if r == z3.unknown else "sat")

    def prove(s, st, f, kind, loc=None):
        """record an obligation"""
        if s.mode == "houdini": return True
        loc = loc or s.loc(st)
        if not isz(f) and f:
            s.obl.append(Oblig(kind, loc, "proved", "concrete")); return True
        t = time.time()
        r, d = s.prove_raw(st, f, s.opts["timeout"])
        if r != "proved":
            # one retry, different seed and longer time
            sol = z3.SimpleSolver(); sol.set("timeout", s.opts["timeout"]); sol.set("random_seed", 7)
            sol.set("smt.arith.nl", True)
            for a in s.axioms: sol.add(a)
            for a in st.facts: sol.add(a)
            sol.add(z3.Not(zb(f)))
            s.nq += 1
            r2 = sol.check()
            if r2 == z3.unsat: r = "proved"
            elif r2 == z3.unknown and "incomplete" not in sol.reason_unknown() and "incomplete" not in str(d) and d != "sat": s.incon.append("%s: solver gave up (%s)" % (kind, sol.reason_unknown()))
        s.obl.append(Oblig(kind, loc, r, str(d), time.time() - t))
        if r != "proved":
            s.errors.append((kind, loc, str(f)[:2000], " > ".join(st.trace[-12:])))
        return r == "proved"

    def lemma(s, st, name, vs, hyp, concl):
        """a lemma over fresh variables: proved on its own (nonlinear arithmetic on), then usable by instantiation"""
        key = ("lemma", name)
        if s.mode == "final" and key not in s.covers:
            sol = z3.SimpleSolver(); sol.set("timeout", 20000); sol.set("smt.arith.nl", True); sol.add(hyp); sol.add(z3.Not(concl)); s.nq += 1
            t = time.time(); ok = sol.check() == z3.unsat; s.solver_time += time.time() - t
            s.covers[key] = 1
            s.obl.append(Oblig("lemma " + name, s.task.name, "proved" if ok else "failed", "", time.time() - t))
            if not ok: s.errors.append(("lemma " + name, s.task.name, str(concl), ""))
        def use(*args):
            sub = list(zip(vs, [zi(a) if z3.is_int(v) else zr(a) for v, a in zip(vs, args)]))
            st.assume(z3.Implies(z3.substitute(z3.And(hyp, True), *sub), z3.substitute(concl, *sub)))
        return use

    def valid(s, name, hyp, concl):
        """a closed lemma step (e.g. of an induction), proved once on its own in the final pass"""
        key = ("lemma", name)
        if s.mode != "final" or key in s.covers: return
        s.covers[key] = 1
        sol = z3.SimpleSolver(); sol.set("timeout", 20000); sol.set("smt.arith.nl", True)
        for h in hyp: sol.add(h)
        sol.add(z3.Not(concl)); s.nq += 1
        t = time.time(); ok = sol.check() == z3.unsat; s.solver_time += time.time() - t
        s.obl.append(Oblig("lemma " + name, s.task.name, "proved" if ok else "failed", "", time.time() - t))
        if not ok: s.errors.append(("lemma " + name, s.task.name, str(concl), ""))

    def safety(s, st, f, kind):
        if not isz(f):
            if f: return
        st.ghost.setdefault("pend", None)
        p = st.ghost.get("pend") or []
        st.ghost["pend"] = p + [(f, kind, s.loc(st))]
    def flush(s, st):
        p = st.ghost.get("pend")
        if not p: return
        st.ghost["pend"] = None
        if s.mode == "houdini" :
            for f, k, l in p: st.assume(zb(f))
            return
        allf = [zb(f) for f, k, l in p]
        t = time.time()
        cj = z3.And(*allf) if len(allf) > 1 else allf[0]
        ok = s.qf_check(st, cj)
        if not ok:
            r, d = s.prove_raw(st, cj, s.opts["timeout"]); ok = r == "proved"
        if ok:
            for f, k, l in p: s.obl.append(Oblig(k, l, "proved", "", (time.time() - t) / len(p)))
        else:
            for f, k, l in p: s.prove(st, f, k, l)
        for f in allf: st.assume(f)   # continue after reporting

    def loc(s, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][min(fr.idx, len(fr.fn.blocks[fr.block]) - 1)]
        return "%s:%d" % (fr.name, ins.line)

    # ----------------------------------------------------------- integer helpers
    def nonneg(s, st, x):
        if not isz(x): return x >= 0
        i = x.get_id()
        if i in st.nn: return True
        if s.qf_check(st, x >= 0): st.nn.add(i); st.ghost.setdefault("keep", []).append(x); return True
        return False
    def uns(s, st, x, n):
        if not isz(x): return x if x >= 0 else x + (1 << n)
        if s.nonneg(st, x): return x
        return z3.If(x < 0, x + (1 << n), x)
    def wrap(s, x, n):
        if not isz(x):
            x &= (1 << n) - 1
            return x - (1 << n) if x >= 1 << (n - 1) else x
        h = 1 << (n - 1)
        return (x + h) % (1 << n) - h
    def inrange(s, x, n):
        h = 1 << (n - 1)
        if not isz(x): return -h <= x < h
        return z3.And(x >= -h, x < h)

    # ----------------------------------------------------------- memory
    def elem_fact(s, st, r, v):
        if r.ety.k == "i" and isz(v): 
            h = 1 << (r.ety.n - 1)
            if r.ety.n <= 64: st.assume(z3.And(v >= -h, v < h))

    def adopt(s, st, r, ty):
        """give a lazily typed region its element type"""
        r = r.copy()
        r.kind = "array"; r.ety = ty; r.esz = s.mod.size(ty)
        b = lin_of(r.bytes); d = b.div(r.esz)
        if d is not None: r.len = d.z()
        else:
            q = fint("len"); st.assume(q * r.esz <= zi(r.bytes)); st.assume(zi(r.bytes) < (q + 1) * r.esz); r.len = q
        if r.zero: r.content = z3.K(I, z3.RealVal(0)) if prim_sort(ty) == "f" else z3.K(I, z3.IntVal(0))
        else: r.content = z3.Const(fresh_name(r.name), AR if prim_sort(ty) == "f" else AI)
        st.regs[r.id] = r
        if s.task.on_adopt: s.task.on_adopt(s, st, r)
        return r

    def getreg(s, st, p, what):
        if not isinstance(p, Ptr): raise Unsupported("%s through %r at %s" % (what, p, s.loc(st)))
        if p.reg == 0:
            s.flush(st); s.prove(st, False, "null-dereference"); raise PathEnd()
        r = st.regs.get(p.reg)
        if r is None: raise Unsupported("dangling region")
        if r.freed: s.prove(st, False, "use-after-free"); 
        return r

    def index(s, st, r, p, ty):
        d = p.off.div(r.esz)
        if d is None: raise Unsupported("misaligned access %s in %s at %s" % (p, r.name, s.loc(st)))
        return d.z()

    def compat(s, r, ty):
        return s.mod.size(ty) == r.esz and prim_sort(ty) == prim_sort(r.ety)

    def load(s, st, p, ty):
        ty = s.mod.resolve(ty)
        if ty.k in ("struct", "array"):
            return [s.load(st, p.add(Lin(o)), t) for o, t in s.fields(ty)]
        r = s.getreg(st, p, "load")
        if r is None: return None
        if r.kind == "lazy": r = s.adopt(st, r, ty)
        if r.kind == "array":
            if not s.compat(r, ty):
                raise Unsupported("load %r from region %s of %r at %s" % (ty, r.name, r.ety, s.loc(st)))
            i = s.index(st, r, p, ty)
            s.safety(st, z3.And(zi(i) >= 0, zi(i) < zi(r.len)) if isz(i) or isz(r.len) else 0 <= i < r.len, "in-bounds read " + r.name)
            v = z3.Select(r.content, zi(i))
            s.elem_fact(st, r, v)
            if s.task.on_load: s.task.on_load(s, st, r, i, v)
            return v
        if not p.off.is_const(): raise Unsupported("symbolic offset into struct %s at %s" % (r.name, s.loc(st)))
        o = p.off.c; sz = s.mod.size(ty)
        c = r.content.get(o)
        if c is not None and c[0] == sz:
            v = c[1]
            if prim_sort(ty) == "p" and not isz(v) and v == 0 and not isinstance(v, (Ptr, Undef, FnPtr)): return NULL
            if prim_sort(ty) == "f" and isinstance(v, int): return Fraction(v) if v == 0 else s.bad_cell(st, r, o)
            if ty.k == "i" and ty.n == 1 and not isinstance(v, bool) and not z3.is_bool(v): return v != 0
            return v
        if c is None:
            v = s.zero_of(ty) if r.zero else s.fresh_of(st, ty, r.name + "+%d" % o)
            if r.heap == "param" or True:
                r = r.copy(); r.content = dict(r.content); r.content[o] = (sz, v); st.regs[r.id] = r
            return v
        raise Unsupported("mixed-size load at %s+%d at %s" % (r.name, o, s.loc(st)))

    def bad_cell(s, st, r, o): raise Unsupported("type-punned load of %s+%d at %s" % (r.name, o, s.loc(st)))
    def fields(s, ty):
        ty = s.mod.resolve(ty)
        if ty.k == "struct": return [s.mod.field_off(ty, i) for i in range(len(ty.el))]
        sz = s.mod.size(ty.el)
        return [(i * sz, ty.el) for i in range(ty.n)]

    def zero_of(s, ty):
        k = prim_sort(ty)
        if k == "i": return False if ty.n == 1 else 0
        if k == "f": return Fraction(0)
        return NULL
    def fresh_of(s, st, ty, nm="u"):
        ty = s.mod.resolve(ty)
        if ty.k in ("struct", "array"): return [s.fresh_of(st, t, nm) for o, t in s.fields(ty)]
        if ty.k == "void": return None
        k = prim_sort(ty)
        if k == "i":
            if ty.n == 1: return fbool(nm)
            x = fint(nm); h = 1 << (ty.n - 1); st.assume(z3.And(x >= -h, x < h)); return x
        if k == "f": return freal(nm)
        return UNDEF

    def wrote(s, st, r, off=None):
        for l in st.loops:
            if r.id >= l.maxreg: continue
            m = s.modset.setdefault(l.base, set())
            k = (r.name, off if r.kind == "cells" else None)
            if k not in m:
                m.add(k); s.restart = True

    def store(s, st, p, ty, v):
        ty = s.mod.resolve(ty)
        if ty.k in ("struct", "array"):
            for (o, t), x in zip(s.fields(ty), v): s.store(st, p.add(Lin(o)), t, x)
            return
        r = s.getreg(st, p, "store")
        if r is None: return
        if r.kind == "lazy": r = s.adopt(st, r, ty)
        if not r.writable: s.prove(st, False, "frame: write to read-only " + r.name)
        if r.kind == "array":
            if not s.compat(r, ty): raise Unsupported("store %r to region %s of %r at %s" % (ty, r.name, r.ety, s.loc(st)))
            if isinstance(v, Undef): v = s.fresh_of(st, ty)
            if isinstance(v, Ptr): raise Unsupported("pointer store to array")
            i = s.index(st, r, p, ty)
            s.safety(st, z3.And(zi(i) >= 0, zi(i) < zi(r.len)) if isz(i) or isz(r.len) else 0 <= i < r.len, "in-bounds write " + r.name)
            s.wrote(st, r)
            if s.task.on_store: s.task.on_store(s, st, r, i, v)
            if z3.is_bool(v) or isinstance(v, bool): v = z3.If(zb(v), 1, 0)
            r = r.copy(); r.content = z3.Store(r.content, zi(i), zr(v) if prim_sort(ty) == "f" else zi(v)); st.regs[r.id] = r
            return
        if not p.off.is_const(): raise Unsupported("symbolic offset store into struct %s at %s" % (r.name, s.loc(st)))
        o = p.off.c; sz = s.mod.size(ty)
        s.wrote(st, r, o); s.celltype[(r.name, o)] = ty
        r = r.copy(); r.content = dict(r.content)
        for o2 in list(r.content):
            if o2 != o and o2 < o + sz and o < o2 + r.content[o2][0]: del r.content[o2]
        r.content[o] = (sz, v); st.regs[r.id] = r

    def alloc(s, st, ty, name):
        r = Region(st.nextreg, s.site(st, name)); st.nextreg += 1
        fl = s.mod.flat(ty)
        r.bytes = s.mod.size(ty)
        prims = set((t.k, t.n) for o, t in fl) if fl else set()
        if fl and len(fl) > 1 and len(prims) == 1 and fl[0][1].k in ("double", "float", "i") and s.mod.resolve(ty).k == "array" and (len(fl) > 8 or s.task.array_allocas):
            r.kind = "array"; r.ety = fl[0][1]; r.esz = s.mod.size(r.ety); r.len = len(fl)
            r.content = z3.Const(fresh_name("alloca"), AR if prim_sort(r.ety) == "f" else AI)
        else:
            r.kind = "cells"; r.content = {}
        st.regs[r.id] = r
        return r
    def site(s, st, name):
        k = st.sites.get(name, 0) + 1; st.sites[name] = k
        return "%s#%d" % (name, k)
    def heap_alloc(s, st, nbytes, name="heap"):
        r = Region(st.nextreg, s.site(st, name)); st.nextreg += 1
        r.heap = "new"; r.bytes = nbytes
        if not isz(nbytes) and nbytes <= 256 and not s.task.small_arrays:
            r.kind = "cells"; r.content = {}
        else: r.kind = "lazy"
        st.regs[r.id] = r
        return r

    def mark_write(s, st, r):
        s.wrote(st, r)

    def mem_copy(s, st, dst, src, nbytes, move=True):
        if not isz(nbytes) and nbytes == 0: return
        rs = s.getreg(st, src, "memcpy"); rd = s.getreg(st, dst, "memcpy")
        if rs is None or rd is None: return
        if rs.kind == "cells" or rd.kind == "cells":
            if isz(nbytes) or (rs.kind == "cells" and not src.off.is_const()) or (rd.kind == "cells" and not dst.off.is_const()): raise Unsupported("symbolic memcpy on struct at " + s.loc(st))
            if rs.kind == "cells" and rd.kind == "cells":
                so, do = src.off.c, dst.off.c
                items = [(o, c) for o, c in rs.content.items() if so <= o < so + nbytes]
                rd = rd.copy(); rd.content = {o: c for o, c in rd.content.items() if not (do <= o < do + nbytes)}
                for o, c in items: rd.content[o - so + do] = c; 
                for o, c in items: s.wrote(st, rd, o - so + do)
                st.regs[rd.id] = rd
                return
            # one side array: elementwise
            a = rs if rs.kind != "cells" else rd
            if a.kind == "lazy": raise Unsupported("memcpy lazy/struct")
            for k in range(0, nbytes, a.esz):
                s.store(st, dst.add(Lin(k)), a.ety, s.load(st, src.add(Lin(k)), a.ety))
            return
        if rs.kind == "lazy" and rd.kind == "lazy": raise Unsupported("memcpy between untyped at " + s.loc(st))
        if rs.kind == "lazy": rs = s.adopt(st, rs, rd.ety)
        if rd.kind == "lazy": rd = s.adopt(st, rd, rs.ety)
        if rs.esz != rd.esz or prim_sort(rs.ety) != prim_sort(rd.ety): raise Unsupported("memcpy type mismatch at " + s.loc(st))
        n = s.divx(st, nbytes, rs.esz)
        s.copy_range(st, rd, s.index(st, rd, dst, rd.ety), rs, s.index(st, rs, src, rs.ety), n)

    def divx(s, st, e, d):
        l = lin_of(e).div(d)
        if l is not None: return l.z()
        if isz(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
            return z3.If(e.arg(0), zi(s.divx(st, e.arg(1), d)), zi(s.divx(st, e.arg(2), d)))
        q = fint("q"); st.assume(zi(e) == d * q + zi(e) % d)
        s.safety(st, zi(e) % d == 0, "exact division"); st.assume(zi(e) == d * q)
        return q

    def copy_range(s, st, rd, di, rs, si, n):
        """rd[di..di+n) := rs[si..si+n) (values at call time)"""
        s.range_ok(st, rs, si, n, "read"); s.range_ok(st, rd, di, n, "write")
        if not rd.writable: s.prove(st, z3.Or(zi(n) <= 0), "frame: write to read-only " + rd.name)
        s.wrote(st, rd)
        old = rd.content; src = rs.content
        if not isz(n) and n <= 4:
            new = old
            for k in range(n): new = z3.Store(new, zi(di) + k, z3.Select(src, zi(si) + k))
            rd = rd.copy(); rd.content = new; st.regs[rd.id] = rd
            return
        new = z3.Const(fresh_name(rd.name), old.sort())
        k = z3.Int("k")
        st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(zi(di) <= k, k < zi(di) + zi(n)), z3.Select(src, k - zi(di) + zi(si)), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        # second trigger: reads of the source lead to the copy
        st.assume(z3.ForAll([k], z3.Implies(z3.And(zi(si) <= k, k < zi(si) + zi(n)), z3.Select(new, k - zi(si) + zi(di)) == z3.Select(src, k)), patterns=[z3.Select(src, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < zi(di), k >= zi(di) + zi(n)), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(old, k)]))
        rd = rd.copy(); rd.content = new; st.regs[rd.id] = rd

    def fill_range(s, st, rd, di, n, v):
        s.range_ok(st, rd, di, n, "write")
        if not rd.writable: s.prove(st, z3.Or(zi(n) <= 0), "frame: write to read-only " + rd.name)
        s.wrote(st, rd)
        old = rd.content
        new = z3.Const(fresh_name(rd.name), old.sort()); k = z3.Int("k")
        v = zr(v) if prim_sort(rd.ety) == "f" else zi(v)
        st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(zi(di) <= k, k < zi(di) + zi(n)), v, z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < zi(di), k >= zi(di) + zi(n)), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(old, k)]))
        rd = rd.copy(); rd.content = new; st.regs[rd.id] = rd

    def range_ok(s, st, r, i, n, what):
        """[i,i+n) within r, or n==0 ; negative n is an error"""
        i, n, L = zi(i), zi(n), zi(r.len)
        s.safety(st, z3.And(n >= 0, z3.Or(n == 0, z3.And(i >= 0, i + n <= L))), "in-bounds range %s %s" % (what, r.name))

    def havoc_region(s, st, r):
        s.wrote(st, r)
        r = r.copy(); r.content = z3.Const(fresh_name(r.name), r.content.sort()); st.regs[r.id] = r
        return r

    # ----------------------------------------------------------- operand evaluation
    def val(s, st, o, ty=None):
        k = o[0]
        if k == "l": return st.frames[-1].env[o[1]]
        if k == "c":
            if isinstance(o[1], tuple):    # inf / nan
                return z3.Real("const_" + o[1][1].replace("-", "m"))
            return o[1]
        if k == "null": return NULL
        if k == "undef":
            return s.fresh_of(st, ty) if ty is not None and s.mod.resolve(ty).k != "ptr" else UNDEF
        if k == "zero":
            t = s.mod.resolve(ty)
            if t.k in ("struct", "array"): return [s.val(st, ("zero",), x) for _, x in s.fields(t)]
            return s.zero_of(t)
        if k == "g":
            if o[1] in s.mod.funcs or o[1] in s.mod.decls: return FnPtr(o[1])
            return s.global_ptr(st, o[1])
        if k == "agg": return [s.val(st, v, t) for t, v in o[1]]
        if k == "gep":
            base = s.val(st, o[2][0][1], o[2][0][0])
            return s.gep(st, o[1], base, [s.val(st, v, t) for t, v in o[2][1:]])
        if k == "cast":
            v = s.val(st, o[3], o[2])
            return v
        raise Unsupported("operand %r" % (o,))

    def global_ptr(s, st, name):
        key = "@" + name
        rid = s.names.get(key)
        if rid is None or rid not in st.regs:
            r = Region(st.nextreg, key); st.nextreg += 1; r.kind = "cells"; r.content = {}; r.heap = "global"
            s.init_global(r, name)
            st.regs[r.id] = r; s.names[key] = r.id
            if getattr(r, "gptr", None): r.content[0] = (8, s.global_ptr(st, r.gptr))
            return Ptr(r.id)
        return Ptr(rid)
    def init_global(s, r, name):
        d = s.mod.globals.get(name, "")
        m = re.search(r"\bconstant (\S+) (\S+?)(,|$)", d)
        if not m and (d.startswith("internal ") or name.startswith("_ZZ")):
            # internal variable the module never stores to (its address is only handed to external callees whose contracts leave it alone)
            m = re.search(r"\bglobal (\S+) (\S+?)(,|$)", d)
            pat = re.compile(r"^\s*store [^@]*, \S+ @\"?" + re.escape(name) + r"\"?[, ]")
            if m and any(pat.search(l) for l in s.mod.text): m = None
        if m and re.fullmatch(r"i\d+", m.group(1)) and re.fullmatch(r"-?\d+", m.group(2)):
            r.content[0] = (s.mod.size(ir.INT(int(m.group(1)[1:]))), int(m.group(2)))
        elif m and m.group(1) == "ptr" and re.fullmatch(r"@[\w.$]+", m.group(2)): r.gptr = m.group(2)[1:]
        elif m and m.group(1) == "double":
            v = ir.fpconst(m.group(2), ir.F64)
            if not isinstance(v, tuple): r.content[0] = (8, v)

    def gep(s, st, bt, base, idx):
        if isinstance(base, Undef): return UNDEF
        if not isinstance(base, Ptr): raise Unsupported("gep on %r at %s" % (base, s.loc(st)))
        off = lin_of(idx[0]).scale(s.mod.size(bt)); t = bt
        for i in idx[1:]:
            t = s.mod.resolve(t)
            if t.k == "struct":
                o, t = s.mod.field_off(t, int(i)); off = off.add(Lin(o))
            else:
                off = off.add(lin_of(i).scale(s.mod.size(t.el))); t = t.el
        return base.add(off)

    # ----------------------------------------------------------- arithmetic
    def binop(s, st, op, ty, a, b, flags):
        if ty.k in ("double", "float", "x86_fp80"):
            if isinstance(a, Undef) or isinstance(b, Undef): return freal("undef")
            return s.fop(st, op, a, b)
        n = ty.n
        if n == 1:
            if op == "and": 
                if a is True: return b
                if b is True: return a
                if a is False or b is False: return False
                return z3.And(zb(a), zb(b))
            if op == "or":
                if a is False: return b
                if b is False: return a
                if a is True or b is True: return True
                return z3.Or(zb(a), zb(b))
            if op in ("xor", "add", "sub"):
                if not isz(a) and not isz(b): return bool(a) != bool(b)
                if b is True: return z3.Not(zb(a))
                return z3.Xor(zb(a), zb(b))
            raise Unsupported("i1 " + op)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.reg != b.p.reg: raise Unsupported("pointer difference between regions at " + s.loc(st))
                return a.p.off.add(b.p.off.neg()).z()
            if op == "add" and isinstance(a, PtrInt): return PtrInt(a.p.add(lin_of(b)))
            raise Unsupported("ptrint op " + op)
        conc = not isz(a) and not isz(b)
        if op in ("add", "sub", "mul"):
            if conc:
                r = a + b if op == "add" else a - b if op == "sub" else a * b
                return s.wrap(r, n)
            if op == "mul" and isz(a) and isz(b): r = s.task.muli(s, st, a, b) if s.task.muli else a * b
            else:
                if op == "mul": r = lin_of(a).scale(b).z() if not isz(b) else lin_of(b).scale(a).z()
                else: r = lin_of(a).add(lin_of(b) if op == "add" else lin_of(b).neg()).z()
            if not isz(r): return r
            if (a if not isz(a) else 1) != 0:
                s.safety(st, s.inrange(r, n), "no integer overflow (%s i%d)" % (op, n))
            return r
        if op in ("sdiv", "srem"):
            if conc:
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return q if op == "sdiv" else a - b * q
            if op == "sdiv" and "exact" in flags and not isz(b): return s.divx(st, a, b)
            s.safety(st, zi(b) != 0, "division by zero")
            if isz(b) :
                q = fint("q"); r_ = fint("r"); a_, b_ = zi(a), zi(b)
                st.assume(a_ == b_ * q + r_)
                st.assume(z3.Implies(z3.And(a_ >= 0, b_ > 0), z3.And(r_ >= 0, r_ < b_, q >= 0, q <= a_)))
                return q if op == "sdiv" else r_
            if s.nonneg(st, a) and b > 0: return a / b if op == "sdiv" else a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q if op == "sdiv" else a - b * q
        if op in ("udiv", "urem"):
            if conc:
                a = a % (1 << n); b = b % (1 << n)
                return s.wrap(a // b if op == "udiv" else a % b, n)
            if not isz(b): s.safety(st, b != 0, "division by zero")
            else: s.safety(st, b != 0, "division by zero")
            ua, ub = s.uns(st, a, n), s.uns(st, b, n)
            if "exact" in flags and not isz(b): return s.divx(st, ua, b)
            if isz(ub):
                a_ = zi(ua); q = UDIV(a_, ub); r_ = UREM(a_, ub)
                st.assume(a_ == ub * q + r_); st.assume(z3.And(r_ >= 0, r_ < ub, q >= 0, q <= a_)); st.assume(z3.Implies(a_ >= ub, q >= 1))
                st.nn.add(q.get_id()); st.nn.add(r_.get_id()); st.ghost.setdefault("keep", []).extend([q, r_])
                if s.task.on_div: s.task.on_div(s, st, a_, ub, q, r_)
                return q if op == "udiv" else r_
            return zi(ua) / b if op == "udiv" else zi(ua) % b
        if op == "shl":
            if not isz(b):
                if conc: return s.wrap(a << b, n)
                r = lin_of(a).scale(1 << b).z(); s.safety(st, s.inrange(r, n), "no integer overflow (shl)"); return r
        if op in ("lshr", "ashr") and not isz(b):
            if conc: return (a % (1 << n)) >> b if op == "lshr" else a >> b
            if "exact" in flags: return s.divx(st, a if op == "ashr" else s.uns(st, a, n), 1 << b)
            return zi(a if op == "ashr" else s.uns(st, a, n)) / (1 << b)
        if op in ("and", "or", "xor") and conc:
            m = (1 << n) - 1
            a &= m; b &= m
            return s.wrap(a & b if op == "and" else a | b if op == "or" else a ^ b, n)
        if op == "and":
            if isz(b) and not isz(a): a, b = b, a
            if not isz(b):
                if b == -1: return a
                if b >= 0 and (b & (b + 1)) == 0: return s.uns(st, a, n) % (b + 1)
                if b < 0 and ((-b) & (-b - 1)) == 0: return a - a % (-b)
        if op == "xor" and not isz(b) and b == -1: return -zi(a) - 1
        if op == "or" and not isz(b) and b == 0: return a
        x = fint("bit"); st.assume(s.inrange(x, n))
        if op in ("and", "or", "xor"):
            a_, b_ = zi(a), zi(b)
            nn = z3.And(a_ >= 0, b_ >= 0)
            st.assume(z3.Implies(nn, x >= 0))
            if op == "and": st.assume(z3.Implies(nn, z3.And(x <= a_, x <= b_)))
            bit = z3.And(a_ >= 0, a_ <= 1, b_ >= 0, b_ <= 1)
            st.assume(z3.Implies(bit, x == z3.If({"and": z3.And(a_ == 1, b_ == 1), "or": z3.Or(a_ == 1, b_ == 1), "xor": a_ != b_}[op], z3.IntVal(1), z3.IntVal(0))))
        return x

    def fop(s, st, op, a, b):
        if not isz(a) and not isz(b):
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if op == "fdiv" and b != 0: return Fraction(a) / b
        if op == "fadd":
            if not isz(a) and a == 0: return b
            if not isz(b) and b == 0: return a
            return zr(a) + zr(b)
        if op == "fsub":
            if not isz(b) and b == 0: return a
            return zr(a) - zr(b)
        if op == "fmul":
            if s.task.mulf and isz(a) and isz(b): return mulf(a, b)
            return zr(a) * zr(b)
        if op == "fdiv":
            if not isz(b) and b != 0: return zr(a) * zr(Fraction(1) / Fraction(b))
            s.inv_fact(st, zr(b))
            if s.task.mulf: return mulf(zr(a), INV(zr(b)))
            return zr(a) * INV(zr(b))
        raise Unsupported(op)
    def inv_fact(s, st, b):
        st.assume(z3.Implies(b != 0, b * INV(b) == 1))
        if s.task.inv_facts: st.assume(s.task.inv_facts(b, INV))

    def icmp(s, st, pr, ty, a, b):
        if ty.k == "ptr":
            if isinstance(a, PtrInt): a = a.p
            if isinstance(b, PtrInt): b = b.p
            if isinstance(a, Undef) or isinstance(b, Undef): return fbool("undefcmp")
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                return (pr == "ne") if isinstance(a, Ptr) or isinstance(b, Ptr) else (a.name == b.name) == (pr == "eq")
            if a.reg == b.reg:
                d = a.off.add(b.off.neg()).z(); 
                if not isz(d):
                    return {"eq": d == 0, "ne": d != 0, "ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0}[pr]
                x = a.off.add(b.off.neg())
                # divide out a common factor
                import math
                g = abs(x.c)
                for e, c in x.t.values(): g = math.gcd(g, abs(c))
                if g > 1: x = x.div(g)
                pos = Lin(max(x.c, 0), {k: (e, c) for k, (e, c) in x.t.items() if c > 0}); neg = Lin(max(-x.c, 0), {k: (e, -c) for k, (e, c) in x.t.items() if c < 0})
                l, r = zi(pos.z()), zi(neg.z())
                return {"eq": l == r, "ne": z3.Not(l == r), "ult": l < r, "ule": l <= r, "ugt": l > r, "uge": l >= r}[pr]
                d = x.z()
                return {"eq": d == 0, "ne": d != 0, "ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0}[pr]
            if pr == "eq": return False
            if pr == "ne": return True
            raise Unsupported("pointer order across regions at " + s.loc(st))
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): return s.icmp(st, pr, ir.PTR, a.p, b.p)
        n = ty.n
        if n == 1:
            if not isz(a) and not isz(b): return (a == b) if pr == "eq" else (a != b)
            return zb(a) == zb(b) if pr == "eq" else zb(a) != zb(b)
        if pr[0] == "u":
            if isz(a) or isz(b):
                # both sides: unsigned compare
                a, b = s.uns(st, a, n), s.uns(st, b, n)
            else: a, b = a % (1 << n), b % (1 << n)
            pr = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}[pr]
        if isz(a) or isz(b): a, b = zi(a), zi(b)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[pr]()

    def fcmp(s, st, pr, a, b):
        if pr in ("ord",): return True
        if pr in ("uno",): return False
        if isz(a) or isz(b): a, b = zr(a), zr(b)
        k = pr[1:]
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[k]()

UDIV = z3.Function("udiv", I, I, I); UREM = z3.Function("urem", I, I, I)
INV = z3.Function("inv", R, R)
MULF = z3.Function("mul_", R, R, R)
_mx, _my = z3.Reals("mx my")
MULAX = [z3.ForAll([_mx, _my], MULF(_mx, _my) == MULF(_my, _mx), patterns=[MULF(_mx, _my)])]
def _sgn(a):
    """(sign, base)"""
    if z3.is_app_of(a, z3.Z3_OP_UMINUS): g, b = _sgn(a.arg(0)); return -g, b
    if z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).as_fraction() == -1: g, b = _sgn(a.arg(1)); return -g, b
    return 1, a
def mulf(a, b):
    """real product as a commutative uninterpreted function, odd in each argument (sound abstraction: everything proved for it holds for the product)"""
    (g, a), (h, b) = _sgn(a), _sgn(b)
    m = MULF(a, b)
    return m if g * h == 1 else -m
SQRT = z3.Function("sqrt_", R, R)

END = object(); PUSHED = object()

class PathEnd(Exception): pass

def cs(x): return x

class Runner(Exec):
    def short(s, name):
        d = s.mod.demangled.get(name, name)
        d = re.sub(r"^(void|[\w:]+(<.*?>)?[ *&]+)(?=hif::|std::)", "", d)
        d = d.split("(")[0]
        return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", d)))[:70]

    # ----------------------------------------------------------- running
    def run_pass(s, mode):
        """one exploration; returns True when no restart/changes"""
        s.mode = mode; s.restart = False; s.changed = False
        s.obl = []; s.errors = []; s.npaths = 0; s.ends = 0; s.covers = {}
        s.names = {}; _ctr[0] = 0
        s.axioms = list(MULAX) if s.task.mulf else []; s.retstates = []
        st = State(); s.fid = 0
        fn = s.mod.funcs.get(s.task.fn)
        if fn is None and not s.task.fn.startswith("irv_"): raise Unsupported("driver function %s not found" % s.task.fn)
        args = s.task.setup(s, st)
        if fn is None: fn = s.mod.funcs[s.task.fn]
        s.tmpl = {t.name: t for t in s.task.templates}
        s.pre_count = len(st.facts)
        if mode == "final":
            # vacuity: preconditions must be satisfiable (not provably false)
            r, d = s.prove_raw(st, z3.BoolVal(False), 3000)
            s.obl.append(Oblig("vacuity: precondition consistent", s.task.name, "proved" if r != "proved" else "failed"))
            if r == "proved": s.errors.append(("vacuous precondition", s.task.name, "", ""))
        s.push_frame(st, fn, args, None)
        work = [st]
        while work:
            x = work.pop()
            if s.deadline and time.time() > s.deadline: raise TimeoutError("task deadline")
            if s.restart: return False
            res = s.run_state(x)
            work += res
            s.npaths += 1
            if s.npaths > s.opts["maxpaths"]: raise Unsupported("too many paths")
        return not s.restart and not s.changed

    def push_frame(s, st, fn, args, ret):
        fn.parse_body()
        f = Frame(); f.fn = fn; f.block = fn.order[0]; f.idx = 0; f.prev = None; f.env = {}; f.ret = ret; f.allocas = []
        s.fid += 1; f.fid = s.fid; f.iters = {}; f.name = s.short(fn.name)
        s.funcs_seen[fn.name] = f.name
        if len(args) != len(fn.params): raise Unsupported("arity of %s" % fn.name)
        for (t, n), a in zip(fn.params, args): f.env[n] = a
        st.frames.append(f)
        if len(st.frames) > 60: raise Unsupported("call depth")

    def run_state(s, st):
        while True:
            if s.restart: return []
            if s.deadline and time.time() > s.deadline: raise TimeoutError("task deadline")
            try:
                r = s.step(st)
            except PathEnd:
                return []
            if r is None: continue
            if r is END: return []
            return r

    def setres(s, st, ins, v):
        if ins.res is not None: st.frames[-1].env[ins.res] = v

    def step(s, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        op = ins.op
        if op == "phi":
            fr.idx += 1; return None     # handled at block entry
        if op in ir.BIN:
            a = s.val(st, ins.a[0], ins.ty); b = s.val(st, ins.a[1], ins.ty)
            s.setres(st, ins, s.binop(st, op, ins.ty, a, b, ins.flags))
        elif op == "icmp":
            a = s.val(st, ins.a[1], ins.ty); b = s.val(st, ins.a[2], ins.ty)
            s.setres(st, ins, s.icmp(st, ins.a[0], ins.ty, a, b))
        elif op == "fcmp":
            s.setres(st, ins, s.fcmp(st, ins.a[0], s.val(st, ins.a[1], ins.ty), s.val(st, ins.a[2], ins.ty)))
        elif op == "fneg":
            a = s.val(st, ins.a[0], ins.ty); s.setres(st, ins, -a)
        elif op == "load":
            p = s.val(st, ins.a[0], ir.PTR)
            s.setres(st, ins, s.load(st, p, ins.ty))
        elif op == "store":
            v = s.val(st, ins.a[0], ins.ty); p = s.val(st, ins.a[1], ir.PTR)
            s.store(st, p, ins.ty, v)
        elif op == "getelementptr":
            base = s.val(st, ins.a[0][1], ins.a[0][0])
            s.setres(st, ins, s.gep(st, ins.ty, base, [s.val(st, v, t) for t, v in ins.a[1:]]))
        elif op == "alloca":
            r = s.alloc(st, ins.ty, "%s.%s" % (fr.name, ins.res)); s.setres(st, ins, Ptr(r.id)); fr.allocas.append(r.id)
        elif op in ir.CASTS:
            s.setres(st, ins, s.cast(st, ins))
        elif op == "select":
            c = s.val(st, ins.a[0], ir.INT(1)); 
            if isz(c) and (z3.is_true(c) or z3.is_false(c)): c = z3.is_true(c)
            if not isz(c): v = s.val(st, ins.a[1] if c else ins.a[2], ins.ty)
            else:
                t = s.mod.resolve(ins.ty)
                a = s.val(st, ins.a[1], ins.ty); b = s.val(st, ins.a[2], ins.ty)
                if t.k == "i" and t.n == 1: v = z3.simplify(z3.If(c, zb(a), zb(b)))
                elif t.k == "i" and not isinstance(a, PtrInt) and not isinstance(b, PtrInt): v = z3.If(c, zi(a), zi(b))
                elif t.k in ("double", "float"): v = z3.If(c, zr(a), zr(b))
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and a.off.key() == b.off.key(): v = a
                else: return s.fork(st, c, lambda st2, b2: s.set_and_next(st2, ins, s.val(st2, ins.a[1] if b2 else ins.a[2], ins.ty)))
            s.setres(st, ins, v)
        elif op == "br":
            if len(ins.a) == 1: return s.goto(st, ins.a[0])
            c = s.val(st, ins.a[0], ir.INT(1))
            if isz(c):
                if z3.is_true(c): c = True
                elif z3.is_false(c): c = False
            if not isz(c): return s.goto(st, ins.a[1] if c else ins.a[2])
            return s.fork(st, c, lambda st2, b: s.goto(st2, ins.a[1] if b else ins.a[2]))
        elif op == "switch":
            v = s.val(st, ins.a[0], ins.ty)
            cases = [(s.val(st, cv, ins.ty), l) for cv, l in ins.a[2]]
            if not isz(v):
                for cv, l in cases:
                    if cv == v: return s.goto(st, l)
                return s.goto(st, ins.a[1])
            s.flush(st); out = []
            rest = []
            for cv, l in cases:
                if s.feasible(st, v == cv):
                    st2 = st.copy(); st2.assume(v == cv); r = s.safe_goto(st2, l)
                    if r is None: out.append(st2)
                    elif r is not END: out += r
                rest.append(v != cv)
            st.assume(z3.And(*rest)) if rest else None
            if s.feasible(st, z3.BoolVal(True)):
                r = s.safe_goto(st, ins.a[1])
                if r is None: out.append(st)
                elif r is not END: out += r
            return out
        elif op == "ret":
            v = s.val(st, ins.a[0], ins.ty) if ins.a else None
            return s.do_ret(st, v)
        elif op == "unreachable":
            s.flush(st)
            s.task.on_unreachable(s, st)
            return END
        elif op == "call":
            return s.do_call(st, ins)
        elif op == "extractvalue":
            v = s.val(st, ins.a[0], ins.ty)
            for i in ins.a[1]: v = v[i]
            s.setres(st, ins, v)
        elif op == "insertvalue":
            v = s.val(st, ins.a[0], ins.ty); x = s.val(st, ins.a[2], ins.a[1])
            s.setres(st, ins, s.insval(v, x, ins.a[3]))
        elif op == "freeze":
            s.setres(st, ins, s.val(st, ins.a[0], ins.ty))
        elif op == "landingpad":
            sel = 0
            for k, v in ins.a:
                if k == "catch" and (v == ("null",) or v[1] in s.task.exc_types): sel = s.typeid(v); break
            s.setres(st, ins, [st.ghost["exc"], sel])
        elif op == "resume":
            return s.unwind(st, pop=True)
        else:
            raise Unsupported("instruction %s at %s" % (ins.a, s.loc(st)))
        fr.idx += 1
        return None

    def typeid(s, v): return 1 if v == ("null",) else 2 + (sum(map(ord, v[1])) % 1000)
    def throw(s, st):
        """an exception leaves the current call: make the exception object and unwind to the next landing pad (result for a contract)"""
        if "exc" not in st.ghost:
            e = s.cells(st, "exception", 64); vt = s.cells(st, "vtable", 64); m = s.cells(st, "what", 8)
            e.content[0] = (8, Ptr(vt.id))
            for k in (0, 8, 16): vt.content[k] = (8, FnPtr("irv_what"))
            st.ghost["exc"] = Ptr(e.id); st.ghost["what"] = Ptr(m.id)
        st.ghost["thrown"] = st.ghost.get("thrown", 0) + 1
        return s.unwind(st, pop=False)
    def unwind(s, st, pop):
        s.flush(st)
        while True:
            if pop:
                fr = st.frames.pop()
                for a in fr.allocas: st.regs.pop(a, None)
                if not st.frames: s.task.on_error(s, st, "an exception escapes"); return END
            fr = st.frames[-1]; ins = fr.fn.blocks[fr.block][fr.idx]
            if not pop or ins.op == "call":
                if ins.flags and ins.flags[0] == "invoke": return s.goto(st, ins.flags[2])
            pop = True

    def insval(s, v, x, idx):
        v = list(v)
        v[idx[0]] = x if len(idx) == 1 else s.insval(v[idx[0]], x, idx[1:])
        return v

    def set_and_next(s, st, ins, v):
        s.setres(st, ins, v); st.frames[-1].idx += 1
        return None

    def safe_goto(s, st, l):
        try: return s.goto(st, l)
        except PathEnd: return END

    def fork(s, st, c, cont):
        s.flush(st)
        out = []
        t_ok = s.feasible(st, c); f_ok = s.feasible(st, z3.Not(c))
        if not t_ok and not f_ok: return END
        alts = ([(True, c)] if t_ok else []) + ([(False, c.arg(0) if z3.is_not(c) else z3.Not(c))] if f_ok else [])
        for j, (b, g) in enumerate(alts):
            st2 = st if j == len(alts) - 1 else st.copy()
            if len(alts) > 1 or True: st2.assume(g)
            st2.trace.append("%s%s" % (s.loc(st2), "T" if b else "F"))
            try: r = cont(st2, b)
            except PathEnd: r = END
            if r is None: out.append(st2)
            elif r is not END: out += r
        return out

    def cast(s, st, ins):
        ft, v0 = ins.a; tt = s.mod.resolve(ins.ty); v = s.val(st, v0, ft); op = ins.op
        if isinstance(v, Undef) and tt.k != "ptr": return s.fresh_of(st, tt)
        if op == "zext":
            if ft.n == 1: return (1 if v else 0) if not isz(v) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return s.uns(st, v, ft.n)
        if op == "sext":
            if ft.n == 1: return (-1 if v else 0) if not isz(v) else z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == "trunc":
            if isinstance(v, PtrInt): raise Unsupported("trunc ptr")
            if tt.n == 1:
                if not isz(v): return bool(v & 1)
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                    a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    return v.arg(0) if (a, b) == (1, 0) else z3.Not(v.arg(0)) if (a, b) == (0, 1) else bool(a)
                return v % 2 == 1
            if not isz(v): return s.wrap(v, tt.n)
            if s.qf_check(st, s.inrange(v, tt.n)): return v
            if s.task.trunc_checked:
                s.safety(st, s.inrange(v, tt.n), "value-preserving narrowing to i%d" % tt.n); return v
            return s.wrap(v, tt.n)
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.reg == 0: return v.off.z()
            return PtrInt(v)
        if op == "inttoptr":
            if isinstance(v, PtrInt): return v.p
            if v == 0 and not isz(v): return NULL
            raise Unsupported("inttoptr")
        if op in ("bitcast", "addrspacecast"): return v
        if op in ("fpext", "fptrunc"): return v
        if op == "sitofp": return Fraction(v) if not isz(v) else z3.ToReal(v)
        if op == "uitofp":
            if ft.n == 1: return Fraction(1 if v else 0) if not isz(v) else z3.If(v, z3.RealVal(1), z3.RealVal(0))
            u = s.uns(st, v, ft.n); return Fraction(u) if not isz(u) else z3.ToReal(u)
        if op in ("fptosi", "fptoui"):
            if not isz(v): return int(v)
            v1 = z3.simplify(v)
            if z3.is_app(v1) and v1.decl().kind() == z3.Z3_OP_TO_REAL: r = v1.arg(0)
            else: r = z3.ToInt(v); r = z3.If(z3.And(v < 0, z3.ToReal(r) != v), r + 1, r)
            if s.task.fp2int_checked: s.safety(st, s.inrange(r, tt.n), "float-to-int in range")
            else: st.assume(s.inrange(r, tt.n))
            return r
        raise Unsupported(op)

    # ----------------------------------------------------------- control flow
    def do_ret(s, st, v):
        fr = st.frames[-1]
        # leaving: drop active loops of this frame
        st.loops = [l for l in st.loops if l.fid != fr.fid]
        st.frames.pop()
        if not st.frames:
            s.flush(st)
            s.task.on_return(s, st, v)
            s.ends += 1
            return END
        for a in fr.allocas:
            if a in st.regs and not s.task.keep_allocas: del st.regs[a]
        c = st.frames[-1]
        if fr.ret is not None:
            if callable(fr.ret): 
                fr.ret(st, v)
            else: c.env[fr.ret] = v
        c.idx += 1
        s.site_exit = None
        return None

    def goto(s, st, target):
        fr = st.frames[-1]; frm = fr.block; fn = fr.fn
        # leave loops not containing target
        st.loops = [l for l in st.loops if l.fid != fr.fid or target in l.body]
        phis = []
        for ins in fn.blocks[target]:
            if ins.op != "phi": break
            for v, l in ins.a:
                if l == frm: phis.append((ins, s.val(st, v, ins.ty))); break
            else: raise Unsupported("phi edge")
        if target in fn.loops:
            act = [l for l in st.loops if l.fid == fr.fid and l.header == target]
            if act: return s.backedge(st, act[-1], phis)
            return s.loop_entry(st, target, phis)
        for ins, v in phis: fr.env[ins.res] = v
        fr.block = target; fr.idx = len(phis); fr.prev = frm
        return None

    def try_unroll(s, st, target, phis):
        fr = st.frames[-1]
        n = fr.iters.get(target, 0)
        if n >= s.opts["unroll"] or s.task.no_unroll: return False
        # does the header (and any concretely decided continuation) decide the exit?
        env = dict(fr.env)
        save = fr.env; fr.env = env
        ok = False
        try:
            for ins, v in phis: env[ins.res] = v
            for ins in fr.fn.blocks[target]:
                if ins.op == "phi": continue
                if ins.op in ir.BIN and ins.ty.k == "i":
                    a = s.val(st, ins.a[0], ins.ty); b = s.val(st, ins.a[1], ins.ty)
                    if isz(a) or isz(b) or isinstance(a, PtrInt) or isinstance(b, PtrInt): break
                    env[ins.res] = s.binop(st, ins.op, ins.ty, a, b, ins.flags)
                elif ins.op == "icmp":
                    a = s.val(st, ins.a[1], ins.ty); b = s.val(st, ins.a[2], ins.ty)
                    if isz(a) or isz(b): break
                    r = s.icmp(st, ins.a[0], ins.ty, a, b)
                    if isz(r): break
                    env[ins.res] = r
                elif ins.op in ("zext", "sext", "trunc"):
                    v = s.val(st, ins.a[1], ins.a[0])
                    if isz(v): break
                    env[ins.res] = s.cast(st, ins)
                elif ins.op == "load":
                    p = s.val(st, ins.a[0], ir.PTR)
                    if not isinstance(p, Ptr) or st.regs.get(p.reg) is None or st.regs[p.reg].kind != "cells" or not p.off.is_const(): break
                    c = st.regs[p.reg].content.get(p.off.c)
                    if c is None: break
                    env[ins.res] = c[1]
                elif ins.op == "getelementptr":
                    base = s.val(st, ins.a[0][1], ins.a[0][0])
                    env[ins.res] = s.gep(st, ins.ty, base, [s.val(st, v, t) for t, v in ins.a[1:]])
                elif ins.op == "br":
                    if len(ins.a) == 3:
                        c = s.val(st, ins.a[0], ir.INT(1)); ok = not isz(c)
                    break
                elif ins.op == "call" and "llvm.lifetime" in str(ins.a[0][1]): continue
                else: break
        except (KeyError, Unsupported): ok = False
        finally: fr.env = save
        if not ok and len(fr.fn.blocks) <= 40: ok = s.try_unroll2(st, target, phis)
        return ok

    def try_unroll2(s, st, target, phis):
        """bottom-tested loop whose exit condition depends only on concrete header values"""
        fr = st.frames[-1]; fn = fr.fn; body = fn.loops[target]
        env = dict(fr.env); save = fr.env
        for ins, v in phis: env[ins.res] = v
        defs = {}
        for b in body:
            for ins in fn.blocks[b]:
                if ins.res is not None: defs[ins.res] = ins
        for ins, _ in phis: defs.pop(ins.res, None)
        for r in defs: env.pop(r, None)
        def need(o):
            if not (isinstance(o, tuple) and o and o[0] == "l") or o[1] in env: return True
            d = defs.get(o[1])
            if d is None: return False
            if d.op in ir.BIN and d.ty.k == "i":
                if not (need(d.a[0]) and need(d.a[1])): return False
                a, b = s.val(st, d.a[0], d.ty), s.val(st, d.a[1], d.ty)
                if isz(a) or isz(b) or isinstance(a, (PtrInt, Undef)) or isinstance(b, (PtrInt, Undef)): return False
                env[d.res] = s.binop(st, d.op, d.ty, a, b, d.flags)
            elif d.op == "icmp":
                if not (need(d.a[1]) and need(d.a[2])): return False
                a, b = s.val(st, d.a[1], d.ty), s.val(st, d.a[2], d.ty)
                if isz(a) or isz(b): return False
                r = s.icmp(st, d.a[0], d.ty, a, b)
                if isz(r): return False
                env[d.res] = r
            elif d.op in ("zext", "sext", "trunc"):
                if not need(d.a[1]) or isz(s.val(st, d.a[1], d.a[0])): return False
                env[d.res] = s.cast(st, d)
            elif d.op == "getelementptr":
                if not need(d.a[0][1]) or not all(need(v) for t, v in d.a[1:]): return False
                env[d.res] = s.gep(st, d.ty, s.val(st, d.a[0][1], d.a[0][0]), [s.val(st, v, t) for t, v in d.a[1:]])
            else: return False
            return True
        fr.env = env
        try:
            for b in body:
                t = fn.blocks[b][-1]
                if t.op == "br" and len(t.a) == 3 and (t.a[1] not in body or t.a[2] not in body):
                    try:
                        if need(t.a[0]) and not isz(s.val(st, t.a[0], ir.INT(1))): return True
                    except (KeyError, Unsupported): pass
        finally: fr.env = save
        return False

    def loop_key(s, st, target):
        parts = []
        for f in st.frames[:-1]: parts.append("%s@%s:%d" % (f.name, f.block, f.idx))
        fr = st.frames[-1]
        parts.append("%s#%d" % (fr.name, fr.fn.loop_index[target]))
        return ">".join(parts)

    def loop_entry(s, st, target, phis):
        fr = st.frames[-1]; fn = fr.fn
        if s.try_unroll(st, target, phis):
            fr.iters[target] = fr.iters.get(target, 0) + 1
            frm = fr.block
            for ins, v in phis: fr.env[ins.res] = v
            fr.block = target; fr.idx = len(phis); fr.prev = frm
            return None
        s.flush(st)
        key = s.loop_key(st, target)
        L = LoopCtx(); L.key = L.base = key; L.depth = len(st.frames); L.fid = fr.fid; L.header = target; L.body = fn.loops[target]
        L.maxreg = st.nextreg; L.snap = st.regs
        mods = s.modset.setdefault(key, set())
        # ---- entry values
        ent = {}; ptrreg = {}
        for ins, v in phis: s.add_var(st, ent, ptrreg, ins.res, v)
        modregs = []; modcells = []
        for r in list(st.regs.values()):
            if r.kind == "cells":
                for (nm, off) in sorted(m for m in mods if m[0] == r.name and m[1] is not None):
                    modcells.append((r.id, off))
                    c = r.content.get(off)
                    if c is not None: s.add_var(st, ent, ptrreg, "%s+%d" % (r.name, off), c[1])
            elif (r.name, None) in mods: modregs.append(r.id)
        L.entry = ent
        # paths on which a pointer is null or a modified array does not exist have their own invariant candidates
        have = set(r.name for r in st.regs.values())
        shape = sorted(n for n, p in ptrreg.items() if isinstance(p, Ptr) and p.reg == 0) + sorted(n for n, off in mods if n not in have)
        if shape: L.key = key = key + "~" + hashlib.md5("|".join(shape).encode()).hexdigest()[:6]
        L.meta = dict(ptrreg=ptrreg, modregs=modregs, modcells=modcells, phis=[i.res for i, _ in phis], inv=s.loop_invs(st, fr, L))
        L.vals = ent
        cands = s.candidates(st, L)
        # ---- initiation
        s.check_cands(st, L, cands, ent, "init")
        # ---- havoc
        regs_before = dict(st.regs)
        new = {}
        pre_nn = st
        for ins, v in phis:
            hv = s.havoc_val(st, v, ins.ty, ins.res); fr.env[ins.res] = hv; s.add_var(st, new, {}, ins.res, hv)
        for rid in modregs:
            r = st.regs[rid]
            if r.kind == "array":
                r = r.copy(); r.content = z3.Const(fresh_name(r.name), r.content.sort()); st.regs[rid] = r
        for rid, off in modcells:
            r = st.regs[rid].copy(); r.content = dict(r.content); c = r.content.get(off)
            if c is None: continue
            cty = s.celltype.get((r.name, off))
            if cty is not None and isinstance(c[1], int) and not isinstance(c[1], bool) and c[1] == 0 and prim_sort(cty) == "f": c = (c[0], Fraction(0))
            hv = s.havoc_val2(st, c[1], c[0], "%s+%d" % (r.name, off))
            r.content[off] = (c[0], hv); st.regs[rid] = r
            s.add_var(st, new, {}, "%s+%d" % (r.name, off), hv)
        L2 = LoopCtx()
        for a in L.__slots__: setattr(L2, a, getattr(L, a))
        L2.vals = new
        st.loops = st.loops + [L2]
        view = s.view(st, L2)
        for c in cands:
            f = s.eval_cand(st, L2, c, new, view)
            if f is not None: st.assume(f)
        for x in new.values():
            if isz(x) and z3.is_int(x): s.task.unfold(s, st, x)
        s.task.on_loop(s, st, L2)
        frm = fr.block; fr.block = target; fr.idx = len(phis); fr.prev = frm
        st.trace.append("loop " + key.split(">")[-1])
        return None

    def add_var(s, st, d, pr, name, v):
        if isinstance(v, Ptr):
            r = st.regs.get(v.reg)
            if r is None or v.reg == 0: pr[name] = v; return
            esz = r.esz if r.kind == "array" else 1
            o = v.off.div(esz)
            if o is None: 
                pr[name] = v; return
            d[name] = o.z(); pr[name] = v
        elif isinstance(v, (PtrInt, Undef, list, FnPtr)) : pass
        elif v is None: pass
        else: d[name] = v

    def havoc_val(s, st, v, ty, nm):
        ty = s.mod.resolve(ty)
        if ty.k == "ptr": return s.havoc_ptr(st, v, nm)
        if isinstance(v, PtrInt): raise Unsupported("loop-carried ptrtoint")
        return s.fresh_of(st, ty, nm)
    def havoc_ptr(s, st, v, nm):
        if isinstance(v, (Undef, FnPtr)): return v
        if v.reg == 0: return v
        r = st.regs[v.reg]
        if r.kind == "array":
            o = fint(nm); b = v.off
            # keep residue of the byte offset
            c = b.div(r.esz)
            if c is None: raise Unsupported("misaligned loop pointer")
            return Ptr(v.reg, Lin(0, {o.get_id(): (o, r.esz)}))
        if r.kind == "lazy":
            raise Unsupported("loop pointer into untyped region")
        return v   # struct pointer must stay constant (checked at back edge)
    def havoc_val2(s, st, v, sz, nm):
        if isinstance(v, Ptr): return s.havoc_ptr(st, v, nm)
        if isinstance(v, bool) or z3.is_bool(v): return fbool(nm)
        if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)): return freal(nm)
        if isinstance(v, (Undef, FnPtr, PtrInt)): return v
        x = fint(nm); h = 1 << (8 * sz - 1); st.assume(z3.And(x >= -h, x < h)); return x

    def view(s, st, L):
        v = View(s, st); v.L = L; return v

    def loop_invs(s, st, fr, L):
        """loop-invariant integer / pointer-offset values compared inside the loop (bound candidates)"""
        out = {}
        for b in L.body:
            for ins in fr.fn.blocks[b]:
                if ins.op == "icmp":
                    for o in (ins.a[1], ins.a[2]):
                        if o[0] == "l" and o[1] in fr.env and o[1] not in [p for p in L.entry]:
                            dfn_in = s.defined_in(fr.fn, o[1], L.body)
                            if not dfn_in:
                                d = {}; s.add_var(st, d, {}, o[1], fr.env[o[1]])
                                out.update(d)
                        elif o[0] == "c" and not isinstance(o[1], bool) and isinstance(o[1], int): out["c%d" % o[1]] = o[1]
        return {k: v for k, v in out.items() if not isinstance(v, (bool, Fraction)) and not (isz(v) and not z3.is_int(v))}
    def defined_in(s, fn, name, body):
        for b in body:
            for ins in fn.blocks[b]:
                if ins.res == name: return True
        return False

    # ----------------------------------------------------------- candidates
    def int_vars(s, d): return sorted(k for k, v in d.items() if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v)))
    def real_vars(s, d): return sorted(k for k, v in d.items() if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)))

    def candidates(s, st, L):
        key = L.key
        if key in s.cands: return s.cands[key]
        out = {}
        def add(k, c):
            if s.hints is not None and k not in s.hints.get(key, ()): return
            out[k] = c
        iv = s.int_vars(L.entry)
        iv += [v for v in sorted(L.meta["inv"]) if False]
        for x in iv:
            add("ge0|" + x, ("auto", "ge", x)); add("le0|" + x, ("auto", "le", x))
            for e in sorted(L.meta["inv"]):
                add("leb|%s|%s" % (x, e), ("auto", "leb", x, e)); add("geb|%s|%s" % (x, e), ("auto", "geb", x, e))
            for e in s.task.bounds(s, st):
                add("let|%s|%s" % (x, e), ("auto", "let", x, e)); add("get|%s|%s" % (x, e), ("auto", "get", x, e))
        for i, x in enumerate(iv):
            for y in iv[i + 1:]:
                add("ls+|%s|%s" % (x, y), ("auto", "ls", x, y, 1)); add("ls-|%s|%s" % (x, y), ("auto", "ls", x, y, -1))
                for q in s.task.ratios:
                    add("ls%d|%s|%s" % (q, x, y), ("auto", "ls", x, y, q)); add("ls%d|%s|%s" % (q, y, x), ("auto", "ls", y, x, q))
        # spec templates
        outer = {}
        for j, l in enumerate(st.loops):
            for k, v in l.vals.items(): outer["%d:%s" % (j, k)] = v
        doms = {"k": iv, "i": iv + ["^" + k for k in s.int_vars(outer)], "o": ["^" + k for k in s.int_vars(outer)],
                "f": s.real_vars(L.entry), "F": ["@%s" % st.regs[r].name for r in L.meta["modregs"] if st.regs[r].kind == "array" and prim_sort(st.regs[r].ety) == "f"],
                "I": ["@%s" % st.regs[r].name for r in L.meta["modregs"] if st.regs[r].kind == "array" and prim_sort(st.regs[r].ety) == "i"],
                "W": ["@%s" % st.regs[r].name for r in L.meta["modregs"] if st.regs[r].kind == "array" and prim_sort(st.regs[r].ety) == "i" and st.regs[r].ety.n == 64],
                "J": ["@%s" % st.regs[r].name for r in L.meta["modregs"] if st.regs[r].kind == "array" and prim_sort(st.regs[r].ety) == "i" and st.regs[r].ety.n == 32],
                "b": sorted(k for k, v in L.entry.items() if isinstance(v, bool) or (isz(v) and z3.is_bool(v)))}
        import itertools
        for t in s.task.templates:
            if t.when and not t.when(s, st, L): continue
            n = 0
            for combo in itertools.product(*[doms[h] for h in t.holes]):
                if len(set(combo)) != len(combo): continue
                if t.sym and combo[1][0] != "^" and combo[0] > combo[1]: continue
                if t.only and any(h[0] == "@" and (not t.only(h[1:]) if callable(t.only) else h[1:] not in t.only) for h in combo): continue
                add("t:%s|%s" % (t.name, "|".join(combo)), ("tmpl", t.name, combo)); n += 1
                if n > 600: break
        s.cands[key] = out
        return out

    def eval_cand(s, st, L, ck, vals, view):
        c = s.cands[L.key].get(ck) if isinstance(ck, str) else ck
        if c is None: return None
        try:
            if c[0] == "auto":
                if c[1] in ("ge", "le"):
                    a, b = vals[c[2]], L.entry[c[2]]
                    return (zi(a) >= zi(b)) if c[1] == "ge" else (zi(a) <= zi(b))
                if c[1] in ("leb", "geb"):
                    a, b = vals[c[2]], L.meta["inv"][c[3]]
                    return zi(a) <= zi(b) if c[1] == "leb" else zi(a) >= zi(b)
                if c[1] in ("let", "get"):
                    a, b = vals[c[2]], s.task.bounds(s, st)[c[3]]
                    return zi(a) <= zi(b) if c[1] == "let" else zi(a) >= zi(b)
                if c[1] == "ls":
                    x, y, k = c[2], c[3], c[4]
                    return zi(vals[x]) - zi(L.entry[x]) == k * (zi(vals[y]) - zi(L.entry[y]))
            t, combo = s.tmpl[c[1]], c[2]
            args = []
            for h in combo:
                if h[0] == "^":
                    j, k = h[1:].split(":", 1)
                    args.append(st.loops[int(j)].vals[k])
                elif h[0] == "@":
                    rr = [r for r in st.regs.values() if r.name == h[1:]]
                    if not rr or rr[0].kind != "array": return None
                    args.append(rr[0])
                else: args.append(vals[h])
            view.L = L; view.vals = vals
            f = t.fn(view, *args)
            return f
        except (KeyError, IndexError): return None

    def check_cands(s, st, L, cands, vals, phase):
        if s.explore: return
        view = s.view(st, L)
        items = []
        for ck in list(cands):
            f = s.eval_cand(st, L, ck, vals, view)
            if f is None:
                if phase == "init" or True:
                    if s.mode == "houdini": cands.pop(ck); s.changed = True; continue
                    s.prove(st, False, "loop invariant %s undefined (%s)" % (ck, phase)); continue
            items.append((ck, f))
        if not items: return
        if s.mode == "final":
            t0 = time.time()
            fs = [zb(f) for _, f in items]
            cj = z3.And(*fs) if len(fs) > 1 else fs[0]
            ok = s.qf_check(st, cj) if not has_q(cj) else False
            if not ok: ok = s.prove_raw(st, cj, min(4000, s.opts["timeout"]))[0] == "proved"
            if ok:
                for ck, f in items: s.obl.append(Oblig("loop invariant %s (%s)" % (ck, phase), L.key.split(">")[-1], "proved", "", (time.time() - t0) / len(items)))
                return
            for ck, f in items: s.prove(st, f, "loop invariant %s (%s)" % (ck, phase), L.key.split(">")[-1])
            return
        # houdini
        rem = []
        for ck, f in items:
            if not isz(f):
                if f: continue
                cands.pop(ck); s.changed = True; continue
            if not has_q(f):
                if s.qf_check(st, f): continue
            rem.append((ck, f))
        if not rem: return
        fs = [f for _, f in rem]
        if len(fs) > 1 and s.prove_raw(st, z3.And(*fs), s.opts["hout"])[0] == "proved": return
        for ck, f in rem:
            r, d = s.prove_raw(st, f, s.opts["hout"])
            if r != "proved" and "incomplete" not in str(d) and d != "sat" and ck.startswith("t:"):
                # the solver ran out of time on a specification template: try harder before dropping it
                sol = z3.SimpleSolver(); sol.set("timeout", 3 * s.opts["hout"]); sol.set("random_seed", 11)
                for a in s.axioms: sol.add(a)
                for a in st.facts: sol.add(a)
                sol.add(z3.Not(f)); s.nq += 1
                r2 = sol.check()
                if r2 == z3.unsat: r = "proved"
                elif r2 == z3.unknown and "incomplete" not in sol.reason_unknown(): s.incon.append("loop invariant candidate %s (%s): solver gave up" % (ck, phase))
            if r != "proved":
                cands.pop(ck); s.changed = True

    def backedge(s, st, L, phis):
        s.flush(st)
        fr = st.frames[-1]
        vals = {}
        pr = {}
        for ins, v in phis: s.add_var(st, vals, pr, ins.res, v)
        for rid, off in L.meta["modcells"]:
            c = st.regs[rid].content.get(off)
            nm = "%s+%d" % (st.regs[rid].name, off)
            if c is not None: s.add_var(st, vals, pr, nm, c[1])
        # pointer phis stay in the same region
        for nm, p0 in L.meta["ptrreg"].items():
            p1 = pr.get(nm)
            if p1 is not None and isinstance(p1, Ptr):
                if p1.reg != p0.reg: raise Unsupported("loop-carried pointer changes region: %s at %s" % (nm, s.loc(st)))
                r = st.regs.get(p0.reg)
                if r is not None and r.kind != "array" and p1.off.key() != p0.off.key(): raise Unsupported("loop pointer into struct moves: " + nm + " at " + s.loc(st))
        # consecution is evaluated with the loops stack of the header (enclosing only)
        keep = st.loops; st.loops = [l for l in st.loops if l is not L]
        idx = keep.index(L); st.loops = keep[:idx]
        s.task.on_backedge(s, st, L, vals)
        s.check_cands(st, L, s.cands[L.key], vals, "preserved")
        if s.mode == "final": s.covers[L.key] = s.covers.get(L.key, 0) + 1
        return END

    # ----------------------------------------------------------- calls
    def do_call(s, st, ins):
        fr = st.frames[-1]
        callee, args = ins.a
        if callee[0] == "x":
            if callee[1] == "asm": fr.idx += 1; return None
            raise Unsupported("call " + str(callee))
        if callee[0] == "l":
            fp = fr.env[callee[1]]
            if not isinstance(fp, FnPtr): raise Unsupported("indirect call at " + s.loc(st))
            name = fp.name
        else: name = callee[1]
        if name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.experimental.noalias", "llvm.stack", "llvm.donothing", "llvm.prefetch", "llvm.va_")):
                if ins.res is not None: s.setres(st, ins, UNDEF)
                fr.idx += 1; return None
        vals = [s.val(st, v, t) for t, v in args]
        dem = s.mod.demangled.get(name, name)
        h = s.find_contract(name, dem)
        if h is not None:
            r = h(s, st, ins, vals)
            if r is PUSHED: return None
            if r is not NotImplemented: return s.finish_call(st, ins, r)
        if name.startswith("llvm."):
            return s.finish_call(st, ins, s.intrinsic(st, name, ins, vals))
        r = builtin_call(s, st, name, dem, ins, vals)
        if r is not NotImplemented: return s.finish_call(st, ins, r)
        f = s.mod.funcs.get(name)
        if f is None: raise Unsupported("external function %s at %s" % (dem, s.loc(st)))
        if any(g.fn is f for g in st.frames): raise Unsupported("recursion in " + dem)
        s.push_frame(st, f, vals, ins.res)
        return None

    def finish_call(s, st, ins, r):
        if r is END: return END
        if r is THROW: return s.throw(st)
        if isinstance(r, Forks):
            out = []
            for st2, v in r.alts:
                if v is END: continue
                if v is THROW:
                    r2 = s.throw(st2)
                    if r2 is None: out.append(st2)
                    elif r2 is not END: out += r2
                    continue
                s.setres(st2, ins, v); st2.frames[-1].idx += 1; out.append(st2)
            return out
        s.setres(st, ins, r); st.frames[-1].idx += 1
        return None

    def find_contract(s, name, dem):
        c = s.task.contracts
        for pat, h in c:
            if (pat == name) if isinstance(pat, str) else pat.search(dem): return h
        return None

    def call_inline(s, st, name, args):
        """evaluate a (straight-line, driver-defined) accessor function on a state; returns value"""
        f = s.mod.funcs[name]; f.parse_body()
        keep_mode = s.mode
        depth = len(st.frames); box = []
        if depth == 0:
            fake = Frame(); fake.fn = f; fake.block = f.blocks and f.order[0]; fake.idx = 0; fake.prev = None; fake.env = {}; fake.ret = None
            fake.allocas = []; fake.fid = -1; fake.iters = {}; fake.name = "spec"
            st.frames.append(fake)
        base = len(st.frames); cidx = st.frames[-1].idx
        s.push_frame(st, f, args, lambda st2, v: box.append(v))
        while len(st.frames) > base:
            r = s.step(st)
            if r is not None: raise Unsupported("accessor %s is not straight-line" % name)
        st.frames[-1].idx = cidx
        if depth == 0: st.frames.pop()
        return box[0]

    def intrinsic(s, st, name, ins, v):
        if name.startswith("llvm.eh.typeid.for"): return s.typeid(ins.a[1][0][1])
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            s.mem_copy(st, v[0], v[1], v[2]); return None
        if name.startswith("llvm.memset"):
            return s.memset(st, v[0], v[1], v[2])
        if name.startswith("llvm.expect"): return v[0]
        if name.startswith("llvm.fabs"):
            return abs(v[0]) if not isz(v[0]) else z3.If(v[0] >= 0, v[0], -v[0])
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return s.fop(st, "fadd", s.fop(st, "fmul", v[0], v[1]), v[2])
        if name.startswith("llvm.sqrt"): return s.sqrt(st, v[0])
        if name.startswith("llvm.umul.with.overflow"):
            if isz(v[0]) or isz(v[1]):
                r = zi(v[0]) * zi(v[1]) if isz(v[0]) and isz(v[1]) else (lin_of(v[0]).scale(v[1]) if isz(v[0]) else lin_of(v[1]).scale(v[0])).z()
                # size overflow excluded as an obligation (allocation sizes)
                s.safety(st, z3.And(zi(v[0]) >= 0, zi(v[1]) >= 0, s.inrange(r, ins.ty.el[0].n)), "allocation size does not overflow")
                return [r, False]
            return [v[0] * v[1], False]
        if name.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")):
            a, b = v
            if name[5] == "u": a, b = s.uns(st, a, ins.ty.n), s.uns(st, b, ins.ty.n)
            a, b = zi(a), zi(b)
            return z3.If(a >= b, a, b) if "max" in name else z3.If(a <= b, a, b)
        if name.startswith(("llvm.maxnum", "llvm.minnum")):
            a, b = zr(v[0]), zr(v[1]); return z3.If(a >= b, a, b) if "max" in name else z3.If(a <= b, a, b)
        if name.startswith("llvm.abs"):
            return abs(v[0]) if not isz(v[0]) else z3.If(v[0] >= 0, v[0], -v[0])
        if name.startswith("llvm.is.constant"): return False
        if name.startswith("llvm.objectsize"): return -1
        if name.startswith("llvm.trap"): s.prove(st, False, "trap"); return END
        if name.startswith("llvm.ceil"):
            x = v[0]
            if not isz(x): import math; return Fraction(math.ceil(x))
            return -z3.ToReal(z3.ToInt(-x))
        if name.startswith("llvm.floor"):
            x = v[0]
            if not isz(x): import math; return Fraction(math.floor(x))
            return z3.ToReal(z3.ToInt(x))
        raise Unsupported("intrinsic " + name)

    def sqrt(s, st, x):
        x = zr(x); r = SQRT(x)
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))); st.assume((x == 0) == (r == 0))
        st.assume(z3.Implies(x > 0, r > 0))
        return r

    def memset(s, st, p, v, n):
        if not isz(n) and n == 0: return None
        r = s.getreg(st, p, "memset")
        if r is None: return None
        if r.kind == "lazy":
            if v == 0 and not isz(v) and p.off.is_const() and p.off.c == 0 and s.qf_check(st, zi(n) == zi(r.bytes)):
                r = r.copy(); r.zero = True; st.regs[r.id] = r; s.wrote(st, r); return None
            if not isz(v) and v in (0, 255, -1): 
                r = s.adopt(st, r, ir.INT(8))
            else: raise Unsupported("memset untyped at " + s.loc(st))
        if r.kind == "cells":
            if isz(n) or not p.off.is_const() or isz(v) or v != 0: raise Unsupported("memset on struct")
            o0 = p.off.c
            r = r.copy(); r.content = {o: c for o, c in r.content.items() if not (o0 <= o < o0 + n)}
            if o0 == 0 and r.bytes == n: r.zero = True
            else:
                if n % 8 == 0:
                    for o in range(o0, o0 + n, 8): r.content[o] = (8, 0)
                else: raise Unsupported("memset size")
            st.regs[r.id] = r
            return None
        k = s.divx(st, n, r.esz)
        if isz(v):
            if r.esz == 1:
                s.fill_range(st, r, s.index(st, r, p, r.ety), k, v); return None
            raise Unsupported("memset value")
        vv = 0
        if v not in (0,):
            if prim_sort(r.ety) != "i": raise Unsupported("memset fp")
            vv = s.wrap(int.from_bytes(bytes([v & 255]) * r.esz, "little"), r.esz * 8)
        s.fill_range(st, r, s.index(st, r, p, r.ety), k, Fraction(0) if prim_sort(r.ety) == "f" else vv)
        return None

THROW = "THROW"
class Forks:
    def __init__(s, alts): s.alts = alts

# -------------------------------------------------------------------- builtin contracts (trusted library model)
def parr(s, st, p):
    if not isinstance(p, Ptr) or p.reg == 0: return None
    r = st.regs.get(p.reg)
    return r

PRIMS = {"int": ir.INT(32), "unsigned int": ir.INT(32), "long": ir.INT(64), "unsigned long": ir.INT(64), "double": ir.F64, "float": ir.F32,
         "bool": ir.INT(8), "signed char": ir.INT(8), "unsigned char": ir.INT(8), "char": ir.INT(8)}
ARRT = re.compile(r"hif::Array<(?:std::complex<)?(\w+(?: \w+)?)(?: ?> ?)?>::")
LOGRX = re.compile(r"^(std::chrono::_V2::|std::__cxx11::basic_string<|std::allocator<|std::__new_allocator<|std::basic_ostream|std::basic_ios|std::ios_base|std::__cxx11::basic_stringstream|std::operator<< ?<|std::ostream)")

def builtin_call(s, st, name, dem, ins, v):
    if name in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
        r = s.heap_alloc(st, v[0], "new@%s:%d" % (st.frames[-1].name, ins.line))
        m = ARRT.search(s.mod.demangled.get(st.frames[-1].fn.name, ""))
        if m and r.kind == "lazy" and m.group(1) in PRIMS and name in ("_Znam", "_ZnamRKSt9nothrow_t"): s.adopt(st, r, PRIMS[m.group(1)])
        s.task.on_alloc(s, st, st.regs[r.id])
        return Ptr(r.id)
    if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdaPvRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t"):
        p = v[0]
        if isinstance(p, Ptr) and p.reg == 0: return None
        if not isinstance(p, Ptr): raise Unsupported("free of undef at " + s.loc(st))
        r = st.regs[p.reg]
        s.prove(st, (r.heap == "new") and not r.freed and p.off.is_const() and p.off.c == 0, "release of an owned live buffer (%s)" % r.name)
        for l in st.loops:
            if r.id < l.maxreg: raise Unsupported("release of an outer buffer inside a loop at " + s.loc(st))
        r = r.copy(); r.freed = True; st.regs[r.id] = r
        return None
    if name == "irv_what": return st.ghost["what"]
    if name == "__cxa_begin_catch": return v[0]
    if name in ("__cxa_end_catch", "__cxa_free_exception"): return None
    if name.startswith("llvm.eh.typeid.for"): return None
    if name == "abort" or name == "exit" or name == "_ZSt9terminatev":
        s.flush(st); s.task.on_error(s, st, name); return END
    if dem.startswith("hif::error("):
        s.flush(st); s.task.on_error(s, st, "hif::error"); return END
    if dem.startswith(("hif::warning(", "hif::info(")): return None
    if name == "strrchr": return NULL
    if name in ("memmove", "memcpy"): s.mem_copy(st, v[0], v[1], v[2]); return v[0]
    if LOGRX.search(dem) or dem.startswith(("std::to_string", "std::__cxx11::to_string")):
        if ins.ty.k == "ptr": return v[0] if v else NULL
        return s.fresh_of(st, ins.ty) if ins.ty.k != "void" else None
    if name in ("sqrt", "sqrtf"): return s.sqrt(st, v[0])
    if name.startswith("irv_"): return s.task.irv(s, st, name, v, ins)
    m = re.match(r"(?:[\w:]+(?:<[^()]*>)?[ *&]+(?:const[ *&]+)?)?std::(nth_element|max_element|min_element)<", dem)
    if m and "'lambda" in dem: return order_algo(s, st, m.group(1), dem, v)
    if "std::_V2::rotate<" in dem: return rotate_algo(s, st, dem, v)
    m = re.search(r"\bstd::(copy|copy_n|fill|fill_n|move|copy_backward|sort|lower_bound|upper_bound|rotate|max_element|min_element|find|reverse|iota|nth_element|accumulate)<[^()]*>\(", dem)
    if m and dem.startswith(("std::", "void std::")) or (m and re.match(r"^[\w\s:*&<>,]+? ?std::%s<" % m.group(1), dem)):
        return std_algo(s, st, m.group(1), dem, ins, v)
    return NotImplemented

def std_algo(s, st, f, dem, ins, v):
    if f in ("copy", "copy_n", "move") and len(v) == 3 and all(isinstance(x, Ptr) for x in (v[0], v[2])):
        if f == "copy_n":
            n = s.uns(st, v[1], 64)
            if s.qf_check(st, zi(v[1]) <= 0) : return v[2]
        rs, rd = parr(s, st, v[0]), parr(s, st, v[2])
        if f != "copy_n":
            if not isinstance(v[1], Ptr) or v[1].reg != v[0].reg:
                return NotImplemented
            diff = v[1].off.add(v[0].off.neg())
            if diff.is_const() and diff.c == 0: return v[2]
        if rs is None or rd is None: return NotImplemented
        if rs.kind == "cells" or rd.kind == "cells": return NotImplemented
        if rs.kind == "lazy" and rd.kind == "lazy": return NotImplemented
        types = re.search(r"<(.*)>\(", dem).group(1)
        if rs.kind == "lazy" or rd.kind == "lazy":
            # adopt from the pointer type in the demangled name when it differs
            a = rs if rs.kind == "array" else rd
            tys = [x.strip() for x in types.split(",")]
            def pty(x):
                x = x.replace("const", "").replace("*", "").strip()
                return {"int": ir.INT(32), "unsigned int": ir.INT(32), "long": ir.INT(64), "unsigned long": ir.INT(64), "double": ir.F64, "float": ir.F32, "signed char": ir.INT(8), "unsigned char": ir.INT(8), "char": ir.INT(8), "bool": ir.INT(8)}.get(x)
            ty_s, ty_d = pty(tys[0]), pty(tys[-1])
            if rs.kind == "lazy": rs = s.adopt(st, rs, ty_s or a.ety)
            if rd.kind == "lazy": rd = s.adopt(st, rd, ty_d or a.ety)
        if prim_sort(rs.ety) != prim_sort(rd.ety): return NotImplemented
        if f != "copy_n":
            n = diff.div(rs.esz)
            if n is None: return NotImplemented
            n = n.z()
        # element width of the template argument vs region (e.g. std::array<double,2>)
        mult = elem_mult(s, dem, rs, f)
        if f == "copy_n" and mult != 1: n = lin_of(n).scale(mult).z()
        if prim_sort(rs.ety) == "i" and rd.esz < rs.esz: return NotImplemented
        s.copy_range(st, rd, s.index(st, rd, v[2], rd.ety), rs, s.index(st, rs, v[0], rs.ety), n)
        return v[2].add(lin_of(n).scale(rd.esz))
    if f in ("fill", "fill_n") and isinstance(v[0], Ptr):
        r = parr(s, st, v[0])
        val = v[2]
        vpair = None
        if isinstance(val, Ptr) and re.search(r", (unsigned long, |int, |long, )?std::complex<double> ?>\(", dem):
            vpair = [s.load(st, val, ir.F64), s.load(st, val.add(Lin(8)), ir.F64)]
        elif isinstance(val, Ptr):
            mt = re.search(r"<(.*)>\(", dem).group(1); mt = mt.split(",")[-1].strip()
            ty = {"int": ir.INT(32), "long": ir.INT(64), "unsigned long": ir.INT(64), "double": ir.F64, "float": ir.F32, "bool": ir.INT(8), "signed char": ir.INT(8), "unsigned char": ir.INT(8), "char": ir.INT(8)}.get(mt)
            if ty is None: return NotImplemented
            val = s.load(st, val, ty)
        if f == "fill":
            if not isinstance(v[1], Ptr): return NotImplemented
            if v[1].reg != v[0].reg: return NotImplemented
            d = v[1].off.add(v[0].off.neg())
            if d.is_const() and d.c == 0: return None
        if r is None: return NotImplemented
        if vpair is not None: return fill_pair(s, st, f, v, r, vpair)
        et = re.search(r"<([^<>]*?)\*?[,>]", dem).group(1).replace("*", "").strip()
        ty2 = {"int": ir.INT(32), "long": ir.INT(64), "unsigned long": ir.INT(64), "double": ir.F64, "float": ir.F32, "bool": ir.INT(8), "signed char": ir.INT(8), "unsigned char": ir.INT(8), "char": ir.INT(8)}.get(et)
        if r.kind == "lazy":
            if ty2 is None: return NotImplemented
            r = s.adopt(st, r, ty2)
        if r.kind != "array": return NotImplemented
        if ty2 is None or s.mod.size(ty2) != r.esz: return NotImplemented
        if prim_sort(r.ety) == "f" and ((isz(val) and z3.is_int(val)) or isinstance(val, int)): val = z3.ToReal(zi(val)) if isz(val) else Fraction(val)
        if isz(val) and z3.is_bool(val): val = z3.If(val, z3.IntVal(1), z3.IntVal(0))
        if isinstance(val, bool): val = int(val)
        if prim_sort(r.ety) == "i" and (isinstance(val, Fraction) or (isz(val) and z3.is_real(val))): return NotImplemented
        if f == "fill":
            n = d.div(r.esz)
            if n is None: return NotImplemented
            n = n.z()
        else:
            n = v[1]
        s.fill_range(st, r, s.index(st, r, v[0], r.ety), n, val)
        return None if f == "fill" else v[0].add(lin_of(n).scale(r.esz))
    if f in ("lower_bound", "find") and len(v) == 3 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and isinstance(v[2], Ptr) and v[0].reg == v[1].reg:
        r = parr(s, st, v[0])
        if r is None or r.kind != "array" or prim_sort(r.ety) != "i": return NotImplemented
        lo = s.index(st, r, v[0], r.ety); hi = s.index(st, r, v[1], r.ety)
        mt = re.search(r"<(.*)>\(", dem).group(1); mt = mt.split(",")[-1].strip().replace("const", "").strip()
        ty = {"int": ir.INT(32), "long": ir.INT(64), "unsigned long": ir.INT(64)}.get(mt)
        if ty is None: return NotImplemented
        x = zi(s.load(st, v[2], ty))
        s.range_ok(st, r, lo, zi(hi) - zi(lo), "read")
        p = fint("pos"); k = z3.Int("k"); A = r.content
        lo, hi = zi(lo), zi(hi)
        st.assume(z3.And(lo <= p, p <= hi))
        if f == "lower_bound":
            k2 = z3.Int("k2")
            s.flush(st)
            s.prove(st, z3.ForAll([k, k2], z3.Implies(z3.And(lo <= k, k <= k2, k2 < hi), A[k] <= A[k2])), "lower_bound precondition: range sorted")
            st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < p), A[k] < x), patterns=[A[k]]))
            st.assume(z3.ForAll([k], z3.Implies(z3.And(p <= k, k < hi), A[k] >= x), patterns=[A[k]]))
            st.assume(z3.Implies(p < hi, A[p] >= x)); st.assume(z3.Implies(p > lo, A[p - 1] < x))
        else:
            st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < p), A[k] != x), patterns=[A[k]]))
            st.assume(z3.Implies(p < hi, A[p] == x))
        s.task.unfold(s, st, p)
        return Ptr(v[0].reg, lin_of(p).scale(r.esz))
    if f == "sort" and len(v) == 2 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and v[0].reg == v[1].reg:
        r = parr(s, st, v[0])
        if r is None or r.kind != "array" or prim_sort(r.ety) != "i": return NotImplemented
        lo = zi(s.index(st, r, v[0], r.ety)); hi = zi(s.index(st, r, v[1], r.ety))
        s.range_ok(st, r, lo, hi - lo, "sort")
        s.wrote(st, r)
        old = r.content; new = z3.Const(fresh_name(r.name + "_sorted"), old.sort())
        k, k2 = z3.Int("k"), z3.Int("k2")
        pi = z3.Function(fresh_name("perm"), I, I); pv = z3.Function(fresh_name("perminv"), I, I)
        rng = lambda q: z3.And(lo <= q, q < hi)
        st.assume(z3.ForAll([k, k2], z3.Implies(z3.And(lo <= k, k <= k2, k2 < hi), new[k] <= new[k2]), patterns=[z3.MultiPattern(new[k], new[k2])]))
        st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(pi(k)), new[k] == old[pi(k)], pv(pi(k)) == k)), patterns=[new[k]]))
        st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(pv(k)), old[k] == new[pv(k)], pi(pv(k)) == k)), patterns=[old[k]]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Not(rng(k)), new[k] == old[k]), patterns=[new[k]]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Not(rng(k)), new[k] == old[k]), patterns=[old[k]]))
        r = r.copy(); r.content = new; st.regs[r.id] = r
        s.task.on_sort(s, st, r, old, new, lo, hi, pi, pv)
        return None
    return NotImplemented

def rotate_algo(s, st, dem, v):
    """std::rotate(first, middle, last): new[i] = old[first + (i - first + middle - first) mod (last - first)]; the range read backwards for reverse iterators"""
    rev = "reverse_iterator" in dem.split("(")[0]
    if rev:
        if len(v) != 4: return NotImplemented
        b = [s.load(st, x, ir.PTR) for x in v[1:]]; f, m, l = b[2], b[1], b[0]     # a rotation of [last base, first base)
    else:
        if len(v) != 3: return NotImplemented
        f, m, l = v
    if not all(isinstance(x, Ptr) for x in (f, m, l)) or len(set(x.reg for x in (f, m, l))) != 1: return NotImplemented
    r = parr(s, st, f)
    if r is None or r.kind != "array": return NotImplemented
    lo, mi, hi = [zi(s.index(st, r, x, r.ety)) for x in (f, m, l)]
    s.flush(st); s.prove(st, z3.And(lo <= mi, mi <= hi), "rotate: middle inside the range")
    s.range_ok(st, r, lo, hi - lo, "rotate"); s.wrote(st, r)
    r = st.regs[r.id]; old = r.content; new = z3.Const(fresh_name(r.name + "_rot"), old.sort()); k = z3.Int("k")
    a = mi - lo       # both directions: element at middle becomes first (reversed: the element just below the middle becomes last)
    src = z3.If(k < hi - a, k + a, k - (hi - lo) + a); dst = z3.If(k < mi, k + (hi - lo) - a, k - a); rng = z3.And(lo <= k, k < hi)
    st.assume(forall(k, z3.Implies(rng, new[k] == old[src]), [new[k]])); st.assume(forall(k, z3.Implies(rng, old[k] == new[dst]), [old[k]]))
    st.assume(forall(k, z3.Implies(z3.Not(rng), new[k] == old[k]), [new[k]])); st.assume(forall(k, z3.Implies(z3.Not(rng), new[k] == old[k]), [old[k]]))
    r = r.copy(); r.content = new; st.regs[r.id] = r
    if rev:
        s.store(st, v[0], ir.PTR, f.add(lin_of(hi - mi).scale(r.esz))); return None
    return f.add(lin_of(hi - mi).scale(r.esz))

def last_param(dem):
    i = dem.rindex(")"); d = 0; j = i - 1; out = ""
    while j >= 0:
        c = dem[j]
        if c in ")>}]": d += 1
        elif c in "(<{[":
            if d == 0: break
            d -= 1
        elif c == "," and d == 0: break
        j -= 1
    return dem[j + 1:i].strip()

def last_targ(dem, f):
    i = dem.index("std::" + f + "<") + len("std::" + f + "<"); d = 0; j = k = i
    while j < len(dem):
        c = dem[j]
        if c in "(<{[": d += 1
        elif c in ")>}]":
            if d == 0: break
            d -= 1
        elif c == "," and d == 0: k = j + 1
        j += 1
    return dem[k:j].strip()

def order_algo(s, st, f, dem, v):
    """nth_element / max_element / min_element of an index range under a lambda comparator; the comparator is evaluated
    symbolically on two arbitrary elements of the range and checked to be a strict weak order"""
    k0 = 3 if f == "nth_element" else 2
    if not all(isinstance(x, Ptr) for x in v[:k0]) or len(set(x.reg for x in v[:k0])) != 1: return NotImplemented
    r = parr(s, st, v[0])
    if r is None or r.kind != "array" or not (prim_sort(r.ety) == "i" or f == "max_element"): return NotImplemented
    for c in (last_param(dem), last_targ(dem, f)):   # the demangler gets some back references to closure types wrong
        cmpn = re.sub(r"^void ", "", c) + "::operator()("
        fn = [n for n in s.mod.funcs if cmpn in s.mod.demangled.get(n, "") and "'lambda" in cmpn]
        if fn: break
    if not fn: return NotImplemented
    fn = fn[0]
    lo = zi(s.index(st, r, v[0], r.ety)); hi = zi(s.index(st, r, v[k0 - 1], r.ety))
    nth = zi(s.index(st, r, v[1], r.ety)) if f == "nth_element" else None
    s.range_ok(st, r, lo, hi - lo, f)
    s.flush(st)
    if nth is not None: s.prove(st, z3.And(lo <= nth, nth <= hi), "nth_element: position inside the range")
    old = r.content
    if len(v) == k0 + 1 and isinstance(v[k0], Ptr) and st.regs[v[k0].reg].kind == "cells" and closure_byval(s, dem, v[k0]): clo = v[k0]
    else:
        c = Region(st.nextreg, "closure"); st.nextreg += 1; c.kind = "cells"; c.bytes = 8 * max(1, len(v) - k0); c.content = {}; st.regs[c.id] = c
        for j, x in enumerate(v[k0:]): s.store(st, Ptr(c.id, Lin(8 * j)), ir.PTR, x)
        clo = Ptr(c.id)
    names = []
    def cmp(x, y, hyps):
        t = st.copy()
        for h in hyps: t.assume(h)
        b = s.call_inline(t, fn, [clo, x, y]); s.flush(t)
        return zb(b), t
    # comparator on three arbitrary elements: safety, irreflexive, transitive, incomparability transitive
    p, q, w = fint("cp"), fint("cq"), fint("cw"); rg = [z3.And(lo <= x, x < hi) for x in (p, q, w)]
    a, b, c = old[p], old[q], old[w]
    cab, t = cmp(a, b, rg); 
    xa, xb = z3.Const(fresh_name("xa"), a.sort()), z3.Const(fresh_name("xb"), a.sort())
    gen = z3.substitute(cab, (a, xa), (b, xb))
    C = lambda x, y: z3.substitute(gen, (xa, x), (xb, y))
    aux = [h for h in t.facts[len(st.facts):]]
    s.prove(st, z3.Not(C(a, a)), f + ": comparator irreflexive")
    s.prove(st, z3.Implies(z3.And(C(a, b), C(b, c)), C(a, c)), f + ": comparator transitive")
    s.prove(st, z3.Implies(z3.And(z3.Not(C(a, b)), z3.Not(C(b, c))), z3.Not(C(a, c))), f + ": comparator is a weak order")
    k, k2 = z3.Int("k"), z3.Int("k2")
    if f != "nth_element":
        # first extremal element
        pos = fint("pos"); st.assume(z3.And(lo <= pos, pos <= hi, z3.Implies(lo < hi, pos < hi)))
        if f == "max_element": st.assume(forall([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Not(C(old[pos], old[k]))), [old[k]]))
        else: st.assume(forall([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Not(C(old[k], old[pos]))), [old[k]]))
        trig(st, old[pos])
        s.task.unfold(s, st, pos)
        return v[0].add(lin_of(pos - lo).scale(r.esz))
    s.wrote(st, r)
    r = st.regs[r.id]
    new = z3.Const(fresh_name(r.name + "_nth"), old.sort())
    pi = z3.Function(fresh_name("perm"), I, I); pv = z3.Function(fresh_name("perminv"), I, I)
    rng = lambda q: z3.And(lo <= q, q < hi)
    st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(pi(k)), new[k] == old[pi(k)], pv(pi(k)) == k)), patterns=[new[k]]))
    st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(pv(k)), old[k] == new[pv(k)], pi(pv(k)) == k)), patterns=[old[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.Not(rng(k)), new[k] == old[k]), patterns=[new[k]]))
    st.assume(z3.ForAll([k], z3.Implies(z3.Not(rng(k)), new[k] == old[k]), patterns=[old[k]]))
    st.assume(z3.ForAll([k, k2], z3.Implies(z3.And(lo <= k, k <= nth, nth <= k2, k2 < hi), z3.Not(C(new[k2], new[k]))), patterns=[z3.MultiPattern(new[k], new[k2])]))
    r = r.copy(); r.content = new; st.regs[r.id] = r
    s.task.on_nth(s, st, r, old, new, lo, nth, hi, pi, pv)
    return None

def closure_byval(s, dem, p): return False

def fill_pair(s, st, f, v, r, vp):
    """fill of std::complex<double> elements (two reals each)"""
    if r.kind == "lazy": r = s.adopt(st, r, ir.F64)
    if f == "fill":
        n2 = v[1].off.add(v[0].off.neg()).div(8)
        if n2 is None: return NotImplemented
        n2 = n2.z()
    else: n2 = lin_of(v[1]).scale(2).z()
    end = v[0].add(lin_of(n2).scale(8))
    if r.kind == "cells":
        if isz(n2): return NotImplemented
        for k in range(n2): s.store(st, v[0].add(Lin(8 * k)), ir.F64, vp[k % 2])
        return None if f == "fill" else end
    if r.esz != 8 or prim_sort(r.ety) != "f": return NotImplemented
    if not isz(vp[0]) and not isz(vp[1]) and vp[0] == vp[1]:
        s.fill_range(st, r, s.index(st, r, v[0], r.ety), n2, vp[0]); return None if f == "fill" else end
    return NotImplemented

def elem_mult(s, dem, r, f):
    m = re.search(r"std::array<(\w+), (\d+)ul>", dem)
    return int(m.group(2)) if m else 1

class Task:
    """Base class of a verification task: one driver function of /verif/drivers and its contract."""
    name = "?"; fn = "?"; driver = "?"
    templates = (); contracts = ()
    exc_types = ("_ZTISt9exception", "_ZTISt13runtime_error")
    array_allocas = False; small_arrays = False; keep_allocas = False; no_unroll = False
    trunc_checked = True; fp2int_checked = True
    opts = {}
    mulf = False; muli = None
    inv_facts = None; must_cover = (); ratios = ()
    on_load = None; on_store = None; on_adopt = None; on_div = None
    def setup(s, ex, st): raise NotImplementedError
    def bounds(s, ex, st): return {}
    def unfold(s, ex, st, x): pass
    def on_loop(s, ex, st, L): pass
    def on_backedge(s, ex, st, L, vals): pass
    def on_alloc(s, ex, st, r): pass
    def on_sort(s, *a): pass
    def on_nth(s, *a): pass
    def on_return(s, ex, st, v): pass
    def on_error(s, ex, st, what): ex.prove(st, False, "no error/abort reachable under the precondition (%s)" % what)
    def on_unreachable(s, ex, st): ex.prove(st, False, "unreachable instruction not reached")
    def ensure(s, ex, st, tag, args): raise NotImplementedError
    def irv(s, ex, st, name, v, ins):
        if name == "irv_ensure" or name.startswith("irv_ensure_"):
            ex.flush(st)
            tag = v[0]
            ex.covers[("ensure", tag)] = ex.covers.get(("ensure", tag), 0) + 1
            if ex.mode == "final":
                s.ensure(ex, st, tag, v[1:])
                if ("cov", tag) not in ex.covers:
                    r, d = ex.prove_raw(st, z3.BoolVal(False), 2000)
                    if r != "proved": ex.covers[("cov", tag)] = 1
            return None
        if name == "irv_stop": ex.flush(st); ex.ends += 1; return END
        if name.startswith("irv_havoc"):
            return s.havoc(ex, st, name, v, ins)
        raise Unsupported(name)
    def havoc(s, ex, st, name, v, ins):
        p = v[0]
        if isinstance(p, Ptr) and p.reg:
            r = st.regs[p.reg]
            if r.kind == "lazy": return None
            if r.kind == "array": ex.havoc_region(st, r)
        return None

TRIG = {}
def trig(st, *terms):
    """mention terms so that quantified facts get instantiated for them (no logical content)"""
    for t in terms:
        f = TRIG.setdefault(t.sort().name(), z3.Function("trig_" + t.sort().name(), t.sort(), z3.BoolSort()))
        st.assume(f(t))

def psimp(p):
    """patterns are matched against rewritten terms: rewrite their argument positions the same way"""
    if not z3.is_app(p) or p.num_args() == 0: return p
    k = p.decl().kind()
    if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        a0 = [p.arg(i) for i in range(p.num_args())]
        if k == z3.Z3_OP_SELECT: return z3.Select(a0[0], z3.simplify(a0[1]))
        return p.decl()(*[z3.simplify(a) for a in a0])
    return p

def bad_pat(p):
    st = [p]
    while st:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE) or (z3.is_bool(x) and not z3.is_const(x)): return True
        st += x.children()
    return False

def forall(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats and any(bad_pat(q) for p in pats for q in (p if isinstance(p, (list, tuple)) else [p])): pats = None    # only happens in goals
    if pats: pats = [[psimp(q) for q in p] if isinstance(p, (list, tuple)) else psimp(p) for p in pats]
    if pats: return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    return z3.ForAll(list(vs), body)
