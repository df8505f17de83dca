"""Symbolic execution of LLVM IR: the verification-condition generator.

Every memory access yields a bounds obligation, every call is either inlined (code of the repository or of header-only
libraries) or replaced by a contract (see lib.py); loops whose exit depends on symbolic data stop at a cut point and are
handled by sim.py with an inductive relation.
"""
import subprocess
import z3
from irparse import materialize, succs, FLOATS, Ty, IRError, PTR, IntTy
from core import *
import core

CXXFILT = "/usr/lib/llvm-18/bin/llvm-cxxfilt"


class Region:
    __slots__ = ("id", "kind", "size", "meta", "const")

    def __init__(self, id, kind, size=None, meta=None, const=False):
        self.id = id
        self.kind = kind      # obj | buf | func | glob | sd (string data) | ext (opaque)
        self.size = size
        self.meta = meta
        self.const = const

    def __repr__(self):
        return "<%s>" % self.id


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r = r
        self.o = o

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.r.id if self.r else "null", self.o)

    def key(self):
        if not isinstance(self.o, int):
            raise Unsupported("object access at a symbolic offset of %s" % self.r)
        return (self.r.id, int(self.o))


NULL = Ptr(None, 0)


class PInt:
    """ptrtoint of a pointer into a region (+ off)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class FP:
    """opaque floating point value: a z3 FP term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


UNDEF = object()


class Frame:
    __slots__ = ("f", "mod", "blk", "i", "regs", "prev", "ret", "depth", "sites", "eh", "symloop", "visits", "path", "onret")

    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f
        n.mod = self.mod
        n.blk = self.blk
        n.i = self.i
        n.regs = dict(self.regs)
        n.prev = self.prev
        n.ret = self.ret
        n.depth = self.depth
        n.sites = self.sites
        n.symloop = self.symloop
        n.visits = dict(self.visits)
        n.path = self.path
        n.onret = self.onret
        return n


class State:
    def __init__(self):
        self.mem = {}       # rid -> {off: (size, val)}
        self.bufs = {}      # rid -> z3 array
        self.objs = {}      # (rid, off) -> abstract object value
        self.frames = []
        self.pc = []
        self.model = None
        self.ghost = {}
        self.heap_n = {}
        self.freed = frozenset()
        self.exc = None     # current in-flight / caught exceptions
        self.regions = {}   # rid -> Region (objects allocated in this state)
        self.trace = ()
        self._own = set()

    def copy(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.bufs = dict(self.bufs)
        n.objs = dict(self.objs)
        n.frames = [f.copy() for f in self.frames]
        n.pc = list(self.pc)
        n.model = self.model
        n.ghost = dict(self.ghost)
        n.heap_n = dict(self.heap_n)
        n.freed = self.freed
        n.exc = self.exc
        n.regions = dict(self.regions)
        n.trace = self.trace
        n._own = set()
        self._own = set()
        return n

    def cells(self, rid):
        m = self.mem.get(rid)
        if m is None:
            m = self.mem[rid] = {}
            self._own.add(rid)
        elif rid not in self._own:
            m = self.mem[rid] = dict(m)
            self._own.add(rid)
        return m

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        self.pc.append(c)


class Throw:
    def __init__(self, tname, ptr=None, what=None):
        self.tname = tname
        self.ptr = ptr or NULL
        self.what = what


class Multi:
    def __init__(self, outs):
        self.outs = outs


class Cut(Exception):
    pass


class NeedRestart(Exception):
    """a loop turned out to be data dependent: it becomes a cut point and exploration restarts"""


class Ob:
    __slots__ = ("name", "kind", "status", "where", "model", "pc", "goal", "info", "trace")


import re
_norm_rules = [
    ("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string"),
    ("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string"),
    ("boost::unordered::", "boost::"),
    ("std::unordered_multimap<string, string, pion::ihash, pion::iequal_to, std::allocator<std::pair<string const, string>>>", "ihash_multimap"),
]


class Program:
    """several IR modules linked by symbol name"""

    def __init__(self):
        self.mods = []
        self.fn = {}
        self.gl = {}
        self.decl = {}
        self.dem = {}

    def add(self, m):
        self.mods.append(m)
        for n, f in m.funcs.items():
            if n not in self.fn or self.fn[n][0].linkage == "linkonce_odr":
                if n in self.fn and f.linkage == "linkonce_odr":
                    continue
                self.fn[n] = (f, m)
        for n, d in m.decls.items():
            self.decl[n] = (d, m)
        for n, g in m.globals.items():
            if n not in self.gl or (self.gl[n][0][2] is None and g[2] is not None):
                self.gl[n] = (g, m)
        for n, t in m.aliases.items():
            self.gl.setdefault("alias:" + n, t)

    def finish(self):
        names = [n for n in set(self.fn) | set(self.decl) | set(self.gl) if not n.startswith("alias:")]
        p = subprocess.run([CXXFILT], input="\n".join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")):
            for a, b in _norm_rules:
                d = d.replace(a, b)
            self.dem[n] = d

    def resolve(self, n):
        seen = 0
        while n not in self.fn and ("alias:" + n) in self.gl and seen < 5:
            n = self.gl["alias:" + n]
            seen += 1
        return n

    def find(self, regex):
        r = re.compile(regex)
        return [n for n in self.fn if r.search(self.dem[n])]


class Liveness:
    """registers live on entry to a block"""
    cache = {}

    @classmethod
    def get(cls, f):
        r = cls.cache.get(id(f))
        if r is not None:
            return r
        use, dfn = {}, {}

        def regs_of(v, out):
            if isinstance(v, tuple):
                if v and v[0] == "r" and len(v) == 2 and isinstance(v[1], str):
                    out.add(v[1])
                    return
                for x in v:
                    regs_of(x, out)
            elif isinstance(v, list):
                for x in v:
                    regs_of(x, out)
        phiuse = {}
        for b, ins in f.blocks.items():
            u, d = set(), set()
            for i in ins:
                if i.op == "phi":
                    for v, pb in i.a:
                        s = set()
                        regs_of(v, s)
                        phiuse.setdefault(pb, set()).update(s)
                else:
                    s = set()
                    regs_of(i.a, s)
                    u |= (s - d)
                if i.dst is not None:
                    d.add(i.dst)
            use[b], dfn[b] = u, d
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set(phiuse.get(b, ()))
                for s in succs(f.blocks[b][-1]):
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # hold the function to keep id() stable
        cls.cache[id(f)] = live
        cls.cache[("keep", id(f))] = f
        return live


def loop_bodies(f):
    """head -> set of blocks of the loop"""
    r = getattr(loop_bodies, "c", None)
    if r is None:
        r = loop_bodies.c = {}
    if id(f) in r:
        return r[id(f)]
    preds = {}
    for b in f.order:
        for s in succs(f.blocks[b][-1]):
            preds.setdefault(s, []).append(b)
    # reachability
    out = {}
    for h in f.loopheads:
        # blocks reachable from h
        fw = set()
        st = [h]
        while st:
            x = st.pop()
            for s in succs(f.blocks[x][-1]):
                if s not in fw:
                    fw.add(s)
                    st.append(s)
        bw = set()
        st = [h]
        while st:
            x = st.pop()
            for p in preds.get(x, ()):
                if p not in bw:
                    bw.add(p)
                    st.append(p)
        out[h] = fw & bw
    r[id(f)] = out
    return out


class VM:
    UNROLL = 400
    MAXPATHS = 20000

    def __init__(self, prog, contracts, cuts=None):
        self.p = prog
        self.contracts = contracts   # function(demangled, mangled) -> handler or None
        self.hcache = {}
        self.cuts = cuts if cuts is not None else set()   # (func, block)
        self.gregions = {}
        self.obs = []
        self.check_oob = True
        self.inlined = set()
        self.contracted = set()
        self.extra_axioms = []
        self.on_ob = None
        self.nocut_all = False
        self.npaths = 0
        self.site_axioms = []
        self.deadline = None

    # ------------------------------------------------------------ solver helpers
    def feasible(self, st, c):
        c = tobool(c)
        if isinstance(c, bool):
            return c
        if st.model is not None:
            try:
                v = st.model.eval(c, model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        r, m = check(st.pc + [c], model=True)
        if r == "sat":
            st._m2 = m
            return True
        return r == "unknown"

    def branch(self, st, c):
        """-> [(state, True/False)] for the feasible outcomes"""
        c = simp(tobool(c))
        if isinstance(c, (bool, int)):
            return [(st, bool(c))]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verifier exhausted")
        st._m2 = None
        if st.model is None:
            r, m = check(st.pc, model=True)
            if r == "unsat":
                return []
            st.model = m
        ft = ff = None
        mt = mf = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                ft, mt = True, st.model
            elif z3.is_false(v):
                ff, mf = True, st.model
        if ft is None:
            r, mt = check(st.pc + [c], model=True)
            ft = r != "unsat"
        if ff is None:
            r, mf = check(st.pc + [z3.Not(c)], model=True)
            ff = r != "unsat"
        out = []
        if ft and ff:
            s2 = st.copy()
            st.pc.append(c)
            st.model = mt
            s2.pc.append(z3.Not(c))
            s2.model = mf
            return [(st, True), (s2, False)]
        if ft:
            st.pc.append(c)
            return [(st, True)]
        if ff:
            st.pc.append(z3.Not(c))
            return [(st, False)]
        return []

    def entails(self, st, c):
        c = simp(tobool(c))
        if isinstance(c, (bool, int)):
            return bool(c)
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_false(v):
                return False
        r, m = check(st.pc + [z3.Not(c)], model=True)
        if r == "sat" and st.model is None:
            st.model = m
        return r == "unsat"

    def entails_many(self, st, goals):
        """which of the goals follow from the path condition; one query when all of them do"""
        out = [None] * len(goals)
        left = []
        first = {}
        twins = []
        for i, g in enumerate(goals):
            g = simp(tobool(g))
            if isinstance(g, (bool, int)):
                out[i] = bool(g)
            elif g.get_id() in first:
                twins.append((i, first[g.get_id()]))
            else:
                first[g.get_id()] = i
                left.append((i, g))
        self._entails_many(st, left, out)
        for i, j in twins:
            out[i] = out[j]
        return out

    def _entails_many(self, st, left, out):
        m = st.model
        while left:
            if m is not None:
                rest = []
                for i, g in left:
                    if z3.is_false(m.eval(g, model_completion=True)):
                        out[i] = False
                    else:
                        rest.append((i, g))
                if m is not st.model and len(rest) == len(left):
                    # the model does not decide any of them: one at a time
                    for i, g in left:
                        out[i] = check(st.pc + [z3.Not(g)]) == "unsat"
                    return out
                left = rest
                if not left:
                    break
            r, m = check(st.pc + [z3.Not(z3.And([g for _, g in left]))], model=True)
            if r == "unsat":
                for i, _ in left:
                    out[i] = True
                break
            if r != "sat":
                for i, g in left:
                    out[i] = check(st.pc + [z3.Not(g)]) == "unsat"
                break
            if st.model is None:
                st.model = m
                # evaluated in the next round against all that are left
                rest = []
                for i, g in left:
                    if z3.is_false(m.eval(g, model_completion=True)):
                        out[i] = False
                    else:
                        rest.append((i, g))
                if len(rest) == len(left):
                    for i, g in left:
                        out[i] = check(st.pc + [z3.Not(g)]) == "unsat"
                    break
                left = rest
        return out

    def oblige(self, st, c, name, kind, info=None):
        """emit and discharge one proof obligation under the current path condition"""
        c = simp(tobool(c))
        ob = Ob()
        ob.name, ob.kind, ob.info = name, kind, info
        ob.where = self.where(st)
        ob.pc, ob.goal, ob.model = None, None, None
        ob.trace = None
        if isinstance(c, (bool, int)) and c:
            ob.status = "trivial"
        elif kind == "safety" and any(c.eq(x) for x in st.ghost.get("_ok", ())):
            ob.status = "trivial"        # proved before on this path
        else:
            goal = z3.BoolVal(False) if isinstance(c, (bool, int)) else c
            r, m = check(st.pc + [z3.Not(goal)], model=True)
            if r == "unsat":
                ob.status = "proved"
                if kind == "safety":
                    st.ghost["_ok"] = st.ghost.get("_ok", ()) + (c,)
                if core.DUMP is not None:
                    core.DUMP.append((list(st.pc), goal, name))
            else:
                ob.status = "failed" if r == "sat" else "unknown"
                ob.pc, ob.goal, ob.model = list(st.pc), goal, m
                ob.trace = st.ghost.get("env")
        self.obs.append(ob)
        if self.on_ob:
            self.on_ob(ob)
        if ob.status in ("failed", "unknown"):
            st.assume(c)
        return ob.status in ("trivial", "proved")

    def where(self, st):
        if not st.frames:
            return "end"
        return " < ".join("%s:%s" % (self.short(fr.f.name), fr.blk) for fr in reversed(st.frames[-3:]))

    def short(self, n):
        d = self.p.dem.get(n, n)
        i = d.find("(")
        return d if i < 0 else d[:i]

    # ------------------------------------------------------------ memory
    def new_region(self, st, rid, kind, size=None, meta=None):
        r = Region(rid, kind, size, meta)
        st.regions[rid] = r
        if kind == "obj":
            st.mem[rid] = {}
            st._own.add(rid)
        return r

    def new_heap(self, st, tag, size, kind="obj"):
        n = st.heap_n.get(tag, 0)
        st.heap_n[tag] = n + 1
        return self.new_region(st, "heap:%s:%d" % (tag, n), kind, size)

    def drop_region(self, st, rid):
        st.mem.pop(rid, None)
        st.bufs.pop(rid, None)
        st.regions.pop(rid, None)
        for k in [k for k in st.objs if k[0] == rid]:
            del st.objs[k]

    def gregion(self, name):
        name2 = self.p.resolve(name)
        r = self.gregions.get(name2)
        if r is None:
            if name2 in self.p.fn or name2 in self.p.decl:
                r = Region("fn:" + name2, "func", None, name2)
            else:
                g = self.p.gl.get(name2)
                if g is None:
                    r = Region("gl:" + name2, "glob", None, name2)
                else:
                    (nm, ty, init, const), m = g
                    try:
                        sz = m.size(ty)
                    except IRError:
                        sz = None
                    r = Region("gl:" + name2, "glob", sz, name2, const)
            self.gregions[name2] = r
        return r

    def ginit(self, st, r):
        """materialize the initializer of a global into cells"""
        g = self.p.gl.get(r.meta)
        if g is None or g[0][2] is None:
            return {}
        c = getattr(self, "_gi", None)
        if c is None:
            c = self._gi = {}
        if r.id not in c:
            (nm, ty, init, const), m = g
            cells = {}
            self._init(cells, 0, ty, init, m, st)
            c[r.id] = cells
        return c[r.id]

    def _init(self, cells, off, ty, v, m, st):
        k = v[0]
        if ty.k == "arr":
            es = m.size(ty.el)
            if k == "str":
                for i, ch in enumerate(v[1]):
                    cells[off + i] = (1, ch)
            elif k == "agg":
                for i, (t, x) in enumerate(v[1]):
                    self._init(cells, off + i * es, t, x, m, st)
            elif k in ("zero", "undef"):
                if ty.n * es > 65536:
                    raise Unsupported("huge zero array")
                for i in range(ty.n):
                    self._init(cells, off + i * es, ty.el, ("zero",), m, st)
        elif ty.k == "struct":
            offs = m.offsets(ty)
            if k == "agg":
                for (t, x), o in zip(v[1], offs):
                    self._init(cells, off + o, t, x, m, st)
            else:
                for t, o in zip(ty.elems, offs):
                    self._init(cells, off + o, t, ("zero",), m, st)
        else:
            if k in ("zero", "undef"):
                val = NULL if ty.k == "ptr" else 0
                if ty.k in FLOATS:
                    val = self.fpconst("0.0", ty)
            else:
                fr = Frame()
                fr.regs = {}
                fr.mod = m
                val = self.val(st, fr, v, ty)
            cells[off] = (m.size(ty), val)

    def fpsort(self, ty):
        return {"float": z3.FPSort(8, 24), "double": z3.FPSort(11, 53), "x86_fp80": z3.FPSort(15, 64)}[ty.k]

    def fpconst(self, s, ty):
        so = self.fpsort(ty)
        if s.startswith("0xK"):
            bits = int(s[3:], 16)
            sign, ex, man = bits >> 79, (bits >> 64) & 0x7fff, bits & ((1 << 64) - 1)
            # explicit integer bit dropped (normal numbers and zero only)
            return FP(z3.fpFP(z3.BitVecVal(sign, 1), z3.BitVecVal(ex, 15), z3.BitVecVal(man & ((1 << 63) - 1), 63)))
        if s.startswith("0x"):
            import struct
            d = struct.unpack(">d", int(s[2:], 16).to_bytes(8, "big"))[0]
            return FP(z3.FPVal(d, so))
        return FP(z3.FPVal(float(s), so))

    def cellmap(self, st, r):
        if r.kind == "glob":
            if r.id in st.mem:
                return st.mem[r.id]
            return self.ginit(st, r)
        m = st.mem.get(r.id)
        if m is None:
            if r.id in st.freed:
                return None
            raise Unsupported("access to region %s with no memory" % r.id)
        return m

    def bounds(self, st, p, n, what):
        """obligation: n bytes at p lie inside the region"""
        r = p.r
        if r is None:
            self.oblige(st, False, "null-dereference:" + what, "safety")
            raise PathEnd()
        if r.id in st.freed:
            self.oblige(st, False, "use-after-free:" + what, "safety")
            raise PathEnd()
        size = r.size
        if r.kind == "sd":
            size = add(self.strlen_of(st, r), 1)
        if size is None:
            return
        o = p.o
        if isinstance(o, int) and isinstance(size, int):
            if signed(o, 64) >= 0 and o + n <= size:
                return
            self.oblige(st, False, "out-of-bounds:" + what, "safety", "%s size %s" % (p, size))
            raise PathEnd()
        c = And(ule(n, size), ule(o, sub(size, n)))
        self.oblige(st, c, "in-bounds:" + what, "safety", "%s" % r.id)

    def strkey(self, r):
        return r.meta

    def strlen_of(self, st, r):
        ob = st.objs.get(r.meta)
        if ob is None:
            raise Unsupported("string data of a dead string %s" % (r.meta,))
        return s_len(ob[1])

    def load(self, st, p, ty, mod):
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported("load through a non-pointer %r" % (p,))
        n = mod.size(ty)
        self.bounds(st, p, n, "read")
        r = p.r
        if ty.k == "struct":
            return [self.load(st, Ptr(r, add(p.o, o)), e, mod) for e, o in zip(ty.elems, mod.offsets(ty))]
        if r.kind == "sd":
            t = st.objs[r.meta][1]
            if n == 1 and not isinstance(eq(p.o, s_len(t)), bool) and self.entails(st, ult(p.o, s_len(t))):
                return simp(s_at(t, p.o))
            return self.compose(ty, [self.sd_at(t, add(p.o, k)) for k in range(n)])
        if r.kind == "buf":
            a = st.bufs[r.id]
            if isinstance(a, dict):      # array of abstract/int elements wider than a byte
                raise Unsupported("typed buffer")
            return self.compose(ty, [simp(z3.Select(a, b64(add(p.o, k)))) for k in range(n)])
        if r.kind == "log":
            t = st.objs[r.meta][1]
            self.oblige(st, ule(add(p.o, n), s_len(t)), "initialised:read", "safety", r.id)
            return self.compose(ty, [s_at(t, add(p.o, k)) for k in range(n)])
        if r.kind == "func":
            raise Unsupported("load from function")
        if r.kind == "ext":
            return self.ext_load(st, p, ty, mod)
        cells = self.cellmap(st, r)
        if isinstance(p.o, int):
            return self.load_cells(st, r, cells, int(p.o), n, ty)
        # symbolic offset into a cell region
        return self.load_symoff(st, r, cells, p.o, n, ty)

    def sd_at(self, t, i):
        # the byte after the last one is the terminating NUL
        l = s_len(t)
        e = eq(i, l)
        if e is True:
            return 0
        if e is False:
            return s_at(t, i)
        c = ult(i, l)
        return simp(If(c, s_at(t, i), 0, 8))

    def ext_load(self, st, p, ty, mod):
        raise Unsupported("load from opaque object %s+%s" % (p.r.id, p.o))

    def compose(self, ty, bs):
        if ty.k == "ptr":
            raise Unsupported("pointer loaded from a byte buffer")
        if ty.k in FLOATS:
            raise Unsupported("float loaded from bytes")
        if len(bs) == 1:
            v = bs[0]
            if ty.n < 8:
                return simp(z3.Extract(ty.n - 1, 0, bv(v, 8))) if not isinstance(v, int) else v & mask(ty.n)
            return v
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def undef(self, ty, tag="undef"):
        if ty.k == "int":
            if ty.n == 1:
                return fresh_bool(tag)
            return fresh_bv(tag, ty.n)
        if ty.k == "ptr":
            return UNDEF
        if ty.k in FLOATS:
            return FP(z3.Const(fresh_name(tag), self.fpsort(ty)))
        if ty.k == "struct":
            return [self.undef(e, tag) for e in ty.elems]
        return UNDEF

    def load_cells(self, st, r, cells, o, n, ty):
        c = cells.get(o)
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k == "ptr":
                if isinstance(v, (Ptr, PInt)) or v is UNDEF:
                    return v.p if isinstance(v, PInt) else v
                if isinstance(v, int) and v == 0:
                    return NULL
                raise Unsupported("integer reinterpreted as pointer")
            if ty.k == "int":
                if isinstance(v, Ptr):
                    return 0 if v.r is None and v.o == 0 else PInt(v)
                if isinstance(v, FP) or v is UNDEF:
                    if v is UNDEF:
                        return self.undef(ty)
                    raise Unsupported("float bits as integer")
                if ty.n == 1 and isinstance(v, z3.BitVecRef):
                    return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            if ty.k == "struct":
                raise Unsupported("aggregate load")
            return v
        if ty.k == "struct":
            raise Unsupported("aggregate load")
        # uninitialised?
        ov = [k for k, (s, _) in cells.items() if k < o + n and o < k + s]
        if not ov:
            if r.kind == "glob" and r.id not in st.mem:
                raise Unsupported("read of external global %s" % r.id)
            v = self.undef(ty)
            if v is not UNDEF:
                st.cells(r.id)[o] = (n, v)
            return v
        bs = []
        for k in range(n):
            bs.append(self.byte_of(st, r, cells, o + k))
        return self.compose(ty, bs)

    def byte_of(self, st, r, cells, o):
        c = cells.get(o)
        if c is not None and c[0] == 1:
            return c[1]
        for k, (s, v) in cells.items():
            if k <= o < k + s:
                if isinstance(v, (Ptr, PInt, FP)) or v is UNDEF:
                    raise Unsupported("byte of a pointer or float")
                if isinstance(v, int):
                    return (v >> (8 * (o - k))) & 255
                v = bv(v, 8 * s)
                return simp(z3.Extract(8 * (o - k) + 7, 8 * (o - k), v))
        v = fresh_bv("undef", 8)
        st.cells(r.id)[o] = (1, v)
        return v

    def load_symoff(self, st, r, cells, o, n, ty):
        """table lookup: cells of equal size n; piecewise (constant or slope one) summary"""
        key = (r.id, n, id(cells)) if r.const else None
        offs = sorted(cells)
        vals = []
        for k in offs:
            s, v = cells[k]
            if s != n or ty.k != "int":
                raise Unsupported("symbolic offset into a non-array object %s" % r.id)
            vals.append(v)
        if not offs:
            raise Unsupported("symbolic offset into uninitialised %s" % r.id)
        w = 8 * n
        expr = None
        if all(isinstance(v, int) for v in vals):
            segs = []
            for k, v in zip(offs, vals):
                if segs:
                    a, b, v0, sl = segs[-1]
                    if k == b + n:
                        if sl == 0 and v == v0 or (sl is None and v == v0):
                            segs[-1] = (a, k, v0, 0)
                            continue
                        if n == 1 and sl in (1, None) and v == (v0 + (k - a)) & mask(w):
                            segs[-1] = (a, k, v0, 1)
                            continue
                segs.append((k, k, v, None))
            oo = b64(o)
            for a, b, v0, sl in reversed(segs):
                if sl == 1:
                    val = z3.Extract(w - 1, 0, oo) + bv(v0 - a, w)
                else:
                    val = bv(v0, w)
                expr = val if expr is None else z3.If(z3.ULE(oo, bv(b, 64)), val, expr)
        else:
            oo = b64(o)
            for k, v in zip(reversed(offs), reversed(vals)):
                if isinstance(v, Ptr) or v is UNDEF:
                    raise Unsupported("symbolic offset into pointers")
                expr = bv(v, w) if expr is None else z3.If(oo == bv(k, 64), bv(v, w), expr)
        return simp(expr)

    def store(self, st, p, v, ty, mod):
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported("store through a non-pointer %r" % (p,))
        n = mod.size(ty)
        self.bounds(st, p, n, "write")
        r = p.r
        if r.kind == "glob" and r.const:
            self.oblige(st, False, "write-to-constant", "safety")
            raise PathEnd()
        if r.kind == "sd":
            if n != 1:
                raise Unsupported("wide store into string")
            ob = st.objs[r.meta]
            if r.meta[0][:3] in ("dn:", "dr:"):
                raise Unsupported("change of a character within a dictionary")
            st.objs[r.meta] = (ob[0], s_set(ob[1], p.o, v)) + ob[2:]
            return
        if r.kind == "buf":
            a = st.bufs[r.id]
            for k in range(n):
                b = v if n == 1 else ((v >> (8 * k)) & 255 if isinstance(v, int) else z3.Extract(8 * k + 7, 8 * k, v))
                a = z3.Store(a, b64(add(p.o, k)), bv(b, 8))
            st.bufs[r.id] = a
            return
        if r.kind == "log":
            self.log_write(st, p, v, s_app(s_empty, v) if n == 1 else None)
            return
        if r.kind not in ("obj", "glob"):
            raise Unsupported("store to %s" % r.kind)
        if r.kind == "glob" and r.id not in st.mem:
            st.mem[r.id] = dict(self.ginit(st, r))
            st._own.add(r.id)
        if ty.k == "struct":
            offs = mod.offsets(ty)
            for e, x, o in zip(ty.elems, v, offs):
                self.store(st, Ptr(r, add(p.o, o)), x, e, mod)
            return
        if isinstance(p.o, int):
            self.put(st, r.id, int(p.o), n, v)
            return
        # symbolic offset: conditional update of every element
        cells = st.cells(r.id)
        for k in sorted(cells):
            s, old = cells[k]
            if s != n or isinstance(old, (Ptr, PInt)) or old is UNDEF:
                raise Unsupported("symbolic store into a non-array object")
            cells[k] = (s, simp(z3.If(b64(p.o) == bv(k, 64), bv(v, 8 * n), bv(old, 8 * n))))
        if r.size is not None and len(cells) * n < r.size:
            raise Unsupported("symbolic store into partly initialised array")

    def log_write(self, st, p, v, text):
        """a buffer filled from its start: a write continues it, or changes what is there"""
        ob = st.objs[p.r.meta]
        t = ob[1]
        if text is None:
            raise Unsupported("wide store into a buffer")
        if eq(p.o, s_len(t)) is True or self.entails(st, eq(p.o, s_len(t))):
            new = s_cat(t, text) if v is None else s_app(t, v)
        elif v is not None and self.entails(st, ult(p.o, s_len(t))):
            new = s_set(t, p.o, v)
        else:
            raise Unsupported("write that leaves a gap in a buffer")
        st.objs[p.r.meta] = (ob[0], new) + ob[2:]

    def put(self, st, rid, o, n, v):
        cells = st.cells(rid)
        c = cells.get(o)
        if c is not None and c[0] == n:
            cells[o] = (n, v)
            return
        ov = [k for k, (s, _) in cells.items() if k < o + n and o < k + s]
        for k in ov:
            s, x = cells.pop(k)
            if k >= o and k + s <= o + n:
                continue
            # split the rest into bytes
            for j in range(k, k + s):
                if not (o <= j < o + n):
                    if isinstance(x, Ptr) and x.r is not None and x.r.kind == "ctext":
                        continue        # text no longer known: the bytes are left unset
                    if isinstance(x, (Ptr, PInt, FP)) or x is UNDEF:
                        raise Unsupported("partial overwrite of a pointer: %s+%s %s by %s+%d" % (rid, k, x, o, n))
                    b = (x >> (8 * (j - k))) & 255 if isinstance(x, int) else simp(z3.Extract(8 * (j - k) + 7, 8 * (j - k), bv(x, 8 * s)))
                    cells[j] = (1, b)
        cells[o] = (n, v)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, v, ty):
        k = v[0]
        if k == "r":
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported("unset register %s" % v[1])
        if k == "c":
            return v[1]
        if k == "null":
            return NULL
        if k == "g":
            return Ptr(self.gregion(v[1]), 0)
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            if ty.k == "int":
                return 0
            if ty.k == "ptr":
                return NULL
            if ty.k == "struct":
                return [self.val(st, fr, ("zero",), e) for e in ty.elems]
            if ty.k in FLOATS:
                return self.fpconst("0.0", ty)
        if k == "f":
            return self.fpconst(v[1], ty)
        if k == "gep":
            return self.gep(st, fr, v[1], self.val(st, fr, v[2], PTR), v[3], fr.mod)
        if k == "cast":
            x = self.val(st, fr, v[3], v[2])
            return self.cast(v[1], x, v[2], v[4])
        if k == "agg":
            return [self.val(st, fr, x, t) for t, x in v[1]]
        if k == "bin":
            return self.arith(st, v[1], self.val(st, fr, v[3], v[2]), self.val(st, fr, v[4], v[2]), v[2], [])
        raise Unsupported("operand %r" % (v,))

    def gep(self, st, fr, ty, base, idxs, mod):
        if isinstance(base, PInt):
            base = base.p
        if base is UNDEF:
            raise Unsupported("arithmetic on an undefined pointer")
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = base.o
        cur = ty
        for n, (it, iv) in enumerate(idxs):
            i = self.val(st, fr, iv, it)
            if isinstance(i, PInt):
                raise Unsupported("pointer as index")
            if n == 0:
                sz = mod.size(cur)
            elif cur.k == "struct":
                off = add2(off, mod.offsets(cur)[i])
                cur = cur.elems[i]
                continue
            else:
                sz = mod.size(cur.el)
                cur = cur.el
            if isinstance(i, int):
                d = signed(i, it.n) * sz
                off = add2(off, d)
            else:
                ii = i if it.n == 64 else z3.SignExt(64 - it.n, i)
                off = add(off, simp(ii * bv(sz, 64)) if sz != 1 else simp(ii))
        if base.r is not None and base.r.kind in ("sd", "buf") and isinstance(off, int) and off != base.o:
            off = AInt(off)
        return Ptr(base.r, off)

    def cast(self, op, x, t1, t2):
        if op in ("bitcast", "addrspacecast"):
            return x
        if op == "ptrtoint":
            if isinstance(x, Ptr):
                if x.r is None:
                    return x.o
                return PInt(x)
            return x
        if op == "inttoptr":
            if isinstance(x, PInt):
                return x.p
            if isinstance(x, int):
                return Ptr(None, x)
            raise Unsupported("inttoptr of a symbolic integer")
        if isinstance(x, PInt):
            if t2.n == 64 or op == "trunc":
                if op == "trunc" and t2.n < 64:
                    return fresh_bv("ptrbits", t2.n)   # address bits: arbitrary
                return x
            raise Unsupported("cast of pointer bits")
        w1, w2 = t1.n, getattr(t2, "n", 0)
        if op == "trunc":
            if isinstance(x, int):
                return type(x)(x & mask(w2)) if isinstance(x, AInt) else x & mask(w2)
            if isinstance(x, z3.BoolRef):
                return x
            if w2 == 1:
                return simp(z3.Extract(0, 0, x) == z3.BitVecVal(1, 1))
            return simp(z3.Extract(w2 - 1, 0, x))
        if op == "zext":
            if isinstance(x, int):
                return x
            if isinstance(x, z3.BoolRef):
                return simp(z3.If(x, bv(1, w2), bv(0, w2)))
            return simp(z3.ZeroExt(w2 - w1, x))
        if op == "sext":
            if isinstance(x, int):
                r = signed(x, w1) & mask(w2)
                return AInt(r) if isinstance(x, AInt) else r
            if isinstance(x, z3.BoolRef):
                return simp(z3.If(x, bv(mask(w2), w2), bv(0, w2)))
            return simp(z3.SignExt(w2 - w1, x))
        raise Unsupported("cast " + op)

    def arith(self, st, op, a, b, ty, flags):
        w = ty.n
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.r is b.p.r or (a.p.r and b.p.r and a.p.r.id == b.p.r.id):
                    return sub(a.p.o, b.p.o)
                raise Unsupported("difference of unrelated pointers")
            if op == "add":
                if isinstance(a, PInt):
                    return PInt(Ptr(a.p.r, add(a.p.o, b)))
                return PInt(Ptr(b.p.r, add(b.p.o, a)))
            if op == "sub" and isinstance(a, PInt):
                return PInt(Ptr(a.p.r, sub(a.p.o, b)))
            if op == "and" and isinstance(b, int) and b < 16:
                return 0       # alignment / pointer-tag test on an aligned object
            raise Unsupported("integer arithmetic on pointer")
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = signed(a, w), signed(b, w)
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op == "and":
                return a & b
            elif op == "or":
                return a | b
            elif op == "xor":
                return (a ^ b) & mask(w)
            elif op == "shl":
                return (a << b) & mask(w)
            elif op == "lshr":
                return a >> b
            elif op == "ashr":
                return (sa >> b) & mask(w)
            elif op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.oblige(st, False, "division-by-zero", "safety")
                    raise PathEnd()
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                r = q if op == "sdiv" else sa - q * sb
                return r & mask(w)
            return AInt(r & mask(w))
        if w == 1:
            A, B = zbool(a), zbool(b)
            if op == "and":
                return simp(z3.And(A, B))
            if op == "or":
                return simp(z3.Or(A, B))
            if op == "xor":
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + op)
        A, B = bv(a, w), bv(b, w)
        if op == "add":
            r = A + B
        elif op == "sub":
            r = A - B
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op == "shl":
            r = A << B
        elif op == "lshr":
            r = z3.LShR(A, B)
        elif op == "ashr":
            r = A >> B
        elif op in ("udiv", "urem", "sdiv", "srem"):
            if isinstance(b, int):
                if b == 0:
                    self.oblige(st, False, "division-by-zero", "safety")
                    raise PathEnd()
            else:
                self.oblige(st, B != 0, "division-by-zero", "safety")
            r = {"udiv": z3.UDiv, "urem": z3.URem}[op](A, B) if op[0] == "u" else (A / B if op == "sdiv" else z3.SRem(A, B))
        else:
            raise Unsupported(op)
        return simp(r)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer compared with a symbolic integer")
            ra, rb = (a.r.id if a.r else None), (b.r.id if b.r else None)
            if ra != rb:
                if a.r is not None and b.r is not None and a.r.kind == "diter" and b.r.kind == "diter" and a.r.meta[:2] == b.r.meta[:2] and pred in ("eq", "ne"):
                    # an iterator of a range and another one: they may agree only where the range ends
                    x, y = (a, b) if len(a.r.meta) == 5 else (b, a)
                    if len(x.r.meta) != 5:
                        raise Unsupported("comparison of such iterators")
                    n = uf("dcount", D, S, BV(64))(x.r.meta[4], term(x.r.meta[3]))
                    # the range of a key that is not there is (end, end)
                    same = And(eq(x.o, n), Or(And(eq(n, 0), eq(y.o, d_size(x.r.meta[4]))), fresh_bool("iter")))
                    return same if pred == "eq" else Not(same)
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
                raise Unsupported("ordering of pointers into different objects")
            a, b = a.o, b.o
            w = 64
        elif a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of an undefined pointer")
        else:
            w = ty.n if ty.k == "int" else 64
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub, sa, sb = a & mask(w), b & mask(w), signed(a, w), signed(b, w)
            return {"eq": ua == ub, "ne": ua != ub, "ugt": ua > ub, "uge": ua >= ub, "ult": ua < ub, "ule": ua <= ub,
                    "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[pred]
        if w == 1:
            A, B = zbool(a), zbool(b)
            if pred == "eq":
                return simp(A == B)
            if pred == "ne":
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + pred)
        A, B = bv(a, w), bv(b, w)
        return simp({"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
                     "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B,
                     "sge": lambda: A >= B, "slt": lambda: A < B, "sle": lambda: A <= B}[pred]())

    # ------------------------------------------------------------ calls
    def push(self, st, name, args, ret=None, onret=None):
        f, m = self.p.fn[name]
        materialize(f, m)
        self.inlined.add(name)
        fr = Frame()
        fr.f, fr.mod = f, m
        fr.blk, fr.i, fr.prev = f.order[0], 0, None
        fr.regs = {}
        fr.ret = ret
        fr.onret = onret
        fr.depth = len(st.frames)
        parent = st.frames[-1].path if st.frames else ""
        fr.path = parent + "/" + name
        fr.symloop = frozenset()
        fr.visits = {}
        fr.sites = None
        if fr.depth > 60:
            raise Unsupported("call depth (recursion) at " + self.short(name))
        if len(args) != len(f.params) and not f.vararg:
            raise Unsupported("arity mismatch calling " + name)
        for (t, nm, byval), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        return fr

    def handler(self, name):
        h = self.hcache.get(name, 0)
        if h == 0:
            h = self.contracts(self.p.dem.get(name, name), name)
            self.hcache[name] = h
        return h

    def call(self, st, name, args, ins):
        """-> None when a frame was pushed or the handler acted in place; list of states otherwise"""
        name = self.p.resolve(name)
        h = self.handler(name)
        fr = st.frames[-1]
        if h is not None:
            self.contracted.add(name)
            r = h(self, st, args, ins)
            if isinstance(r, Multi):
                outs = []
                for s2, v in r.outs:
                    outs.extend(self.finish_call(s2, v, ins))
                return outs
            return self.finish_call(st, r, ins)
        if name in self.p.fn:
            self.push(st, name, args)
            return [st]
        raise Unsupported("call to %s, which has neither a body nor a contract" % self.p.dem.get(name, name))

    def finish_call(self, st, v, ins):
        if v is PUSHED:
            return [st]
        if isinstance(v, Throw):
            return self.throw(st, v, ins)
        fr = st.frames[-1]
        if ins is not None:
            if ins.dst is not None:
                if v is None:
                    raise Unsupported("contract of a value-returning function gave no value: " + repr(ins.a[0]))
                if isinstance(v, bool):
                    v = int(v)
                fr.regs[ins.dst] = v
            if ins.extra:
                self.goto(st, fr, ins.extra[0])
            else:
                fr.i += 1
        return [st]

    def throw(self, st, ex, ins):
        """ins: the call/invoke in the top frame that raised"""
        first = True
        while st.frames:
            fr = st.frames[-1]
            cur = fr.f.blocks[fr.blk][fr.i]
            if cur.op == "call" and cur.extra:
                pad = cur.extra[1]
                lp = fr.f.blocks[pad]
                k = 0
                while lp[k].op == "phi":
                    k += 1
                cleanup, clauses = lp[k].a
                sel = None
                for kind, cv in clauses:
                    if kind == "catch":
                        if cv[0] == "null":
                            sel = self.typeid(None)
                            break
                        tn = cv[1] if cv[0] == "g" else None
                        if tn and self.is_base(ex.tname, tn):
                            sel = self.typeid(tn)
                            break
                    else:
                        sel = 0xffffffff
                        break
                if sel is not None or cleanup:
                    st.exc = ex
                    self.goto(st, fr, pad)
                    fr.regs["$landing"] = [ex.ptr if ex.ptr.r else Ptr(Region("exc", "ext"), 0), sel if sel is not None else 0]
                    return [st]
            self.pop_frame(st)
        st.exc = ex
        return [("throw", st, ex)]

    def typeid(self, tn):
        if tn is None:
            return 9999
        t = getattr(self, "_tids", None)
        if t is None:
            t = self._tids = {}
        return t.setdefault(tn, len(t) + 1)

    def is_base(self, tn, base):
        seen = set()
        st = [tn]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            g = self.p.gl.get(x)
            if g and g[0][2] and g[0][2][0] == "agg":
                for t, v in g[0][2][1]:
                    if v[0] == "g" and v[1].startswith("_ZTI"):
                        st.append(v[1])
            # standard exception hierarchy known a priori
            st.extend(STD_BASES.get(x, ()))
        return False

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in [r for r in st.regions if r.startswith("A:" + fr.path + ":")]:
            self.drop_region(st, rid)
        return fr

    def goto(self, st, fr, blk):
        fr.prev = fr.blk
        fr.blk = blk
        fr.i = 0
        # phis are evaluated in parallel
        ins = fr.f.blocks[blk]
        k = 0
        vals = []
        while ins[k].op == "phi":
            for v, pb in ins[k].a:
                if pb == fr.prev:
                    vals.append((ins[k].dst, self.val(st, fr, v, ins[k].ty)))
                    break
            else:
                raise Unsupported("phi without predecessor")
            k += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.i = k

    # ------------------------------------------------------------ main loop
    def run(self, st, skip_first_cut=False):
        """execute until every path returns / throws / reaches a cut point. Yields ('ret',st,v) ('throw',st,exc) ('cut',st,loc)"""
        work = [(st, skip_first_cut)]
        while work:
            s, skip = work.pop()
            try:
                for out in self.run_path(s, skip):
                    if isinstance(out, State):
                        work.append((out, False))
                    else:
                        yield out
            except PathEnd:
                continue
            self.npaths += 1
            if self.npaths > self.MAXPATHS:
                raise Unsupported("path explosion")

    def run_path(self, st, skip):
        while True:
            fr = st.frames[-1]
            # loop heads
            if fr.blk in fr.f.loopheads and not skip:
                nphi = 0
                ins0 = fr.f.blocks[fr.blk]
                while ins0[nphi].op == "phi":
                    nphi += 1
                if fr.i == nphi:
                    key = (fr.f.name, fr.blk)
                    if key in self.cuts:
                        return [("cut", st, key)]
                    n = fr.visits.get(fr.blk, 0) + 1
                    fr.visits[fr.blk] = n
                    if not self.nocut_all and (fr.blk in fr.symloop and n > 1 or n > self.UNROLL):
                        self.cuts.add(key)
                        raise NeedRestart()
                    if n > self.UNROLL * 4:
                        raise Unsupported("unbounded concrete loop")
            skip = False
            ins = fr.f.blocks[fr.blk][fr.i]
            op = ins.op
            if op == "load":
                p = self.val(st, fr, ins.a[0], PTR)
                fr.regs[ins.dst] = self.load(st, p, ins.ty, fr.mod)
                fr.i += 1
            elif op == "store":
                v = self.val(st, fr, ins.a[0], ins.ty)
                p = self.val(st, fr, ins.a[1], PTR)
                if ins.ty.k == "int" and ins.ty.n == 1:
                    v = self.cast("zext", v, IntTy(1), IntTy(8)) if not isinstance(v, int) else v
                if v is UNDEF:
                    fr.i += 1
                    continue
                if isinstance(v, bool):
                    v = int(v)
                self.store(st, p, v, ins.ty, fr.mod)
                fr.i += 1
            elif op == "alloca":
                n = self.val(st, fr, ins.a[0], IntTy(64))
                if not isinstance(n, int):
                    raise Unsupported("dynamic alloca")
                rid = "A:%s:%s" % (fr.path, ins.dst)
                r = self.new_region(st, rid, "obj", fr.mod.size(ins.ty) * n)
                fr.regs[ins.dst] = Ptr(r, 0)
                fr.i += 1
            elif op == "gep":
                b = self.val(st, fr, ins.a[0], PTR)
                fr.regs[ins.dst] = self.gep(st, fr, ins.ty, b, ins.a[1], fr.mod)
                fr.i += 1
            elif op == "br":
                self.goto(st, fr, ins.a[0])
            elif op == "condbr":
                c = tobool(self.val(st, fr, ins.a[0], IntTy(1)))
                if not isinstance(c, bool):
                    c = simp(c)
                if isinstance(c, bool):
                    self.goto(st, fr, ins.a[1] if c else ins.a[2])
                else:
                    self.mark_symloop(fr, [ins.a[1], ins.a[2]])
                    outs = self.branch(st, c)
                    for s2, v in outs:
                        self.goto(s2, s2.frames[-1], ins.a[1] if v else ins.a[2])
                    if len(outs) != 1:
                        return [s for s, _ in outs]
                    st = outs[0][0]
            elif op == "switch":
                c = self.val(st, fr, ins.a[0], ins.ty)
                w = ins.ty.n
                if isinstance(c, int):
                    for k, b in ins.a[2]:
                        if k == c & mask(w):
                            self.goto(st, fr, b)
                            break
                    else:
                        self.goto(st, fr, ins.a[1])
                else:
                    self.mark_symloop(fr, [ins.a[1]] + [x[1] for x in ins.a[2]])
                    groups = {}
                    for k, b in ins.a[2]:
                        groups.setdefault(b, []).append(k)
                    outs = []
                    rest = st
                    C = bv(c, w)
                    alive = True
                    for b, ks in groups.items():
                        cond = Or(*[C == bv(k, w) for k in ks])
                        br = self.branch(rest, cond)
                        rest = None
                        for s2, v in br:
                            if v:
                                self.goto(s2, s2.frames[-1], b)
                                outs.append(s2)
                            else:
                                rest = s2
                        if rest is None:
                            break
                    if rest is not None:
                        self.goto(rest, rest.frames[-1], ins.a[1])
                        outs.append(rest)
                    return outs
            elif op == "icmp":
                a = self.val(st, fr, ins.a[0], ins.ty)
                b = self.val(st, fr, ins.a[1], ins.ty)
                r = self.icmp(st, ins.extra, a, b, ins.ty)
                fr.regs[ins.dst] = int(r) if isinstance(r, bool) else r
                fr.i += 1
            elif op == "call":
                outs = self.do_call(st, fr, ins)
                if len(outs) == 1 and outs[0] is st:
                    continue
                return outs
            elif op == "ret":
                v = None
                if ins.a:
                    v = self.val(st, fr, ins.a[0], ins.ty)
                self.pop_frame(st)
                if fr.onret is not None:
                    v = fr.onret(self, st, v)
                if not st.frames:
                    return [("ret", st, v)]
                pf = st.frames[-1]
                cur = pf.f.blocks[pf.blk][pf.i]
                if cur.dst is not None:
                    pf.regs[cur.dst] = v
                if cur.extra:
                    self.goto(st, pf, cur.extra[0])
                else:
                    pf.i += 1
            elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
                a = self.val(st, fr, ins.a[0], ins.ty)
                b = self.val(st, fr, ins.a[1], ins.ty)
                fr.regs[ins.dst] = self.arith(st, op, a, b, ins.ty, ins.extra)
                fr.i += 1
            elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                x = self.val(st, fr, ins.a[0], ins.extra)
                fr.regs[ins.dst] = self.cast(op, x, ins.extra, ins.ty)
                fr.i += 1
            elif op == "select":
                c = tobool(self.val(st, fr, ins.a[0], IntTy(1)))
                a = self.val(st, fr, ins.a[1], ins.ty)
                b = self.val(st, fr, ins.a[2], ins.ty)
                if not isinstance(c, bool) and ins.ty.k == "int" and not isinstance(a, PInt) and not isinstance(b, PInt):
                    if ins.ty.n == 1:
                        fr.regs[ins.dst] = simp(z3.If(c, zbool(a), zbool(b)))
                    else:
                        fr.regs[ins.dst] = simp(z3.If(c, bv(a, ins.ty.n), bv(b, ins.ty.n)))
                    fr.i += 1
                elif isinstance(c, bool):
                    fr.regs[ins.dst] = a if c else b
                    fr.i += 1
                else:
                    outs = self.branch(st, c)
                    for s2, v in outs:
                        f2 = s2.frames[-1]
                        f2.regs[ins.dst] = a if v else b
                        f2.i += 1
                    if len(outs) != 1:
                        return [s for s, _ in outs]
                    st = outs[0][0]
            elif op == "extractvalue":
                v = self.val(st, fr, ins.a[0], ins.ty)
                for k in ins.a[1]:
                    v = v[k]
                fr.regs[ins.dst] = v
                fr.i += 1
            elif op == "insertvalue":
                v = self.val(st, fr, ins.a[0], ins.ty)
                x = self.val(st, fr, ins.a[1], ins.a[3])
                v = list(v) if isinstance(v, list) else [UNDEF] * len(ins.ty.elems)
                if len(ins.a[2]) != 1:
                    raise Unsupported("nested insertvalue")
                v[ins.a[2][0]] = x
                fr.regs[ins.dst] = v
                fr.i += 1
            elif op == "landingpad":
                fr.regs[ins.dst] = fr.regs["$landing"]
                fr.i += 1
            elif op == "resume":
                ex = st.exc
                self.pop_frame(st)
                outs = self.throw(st, ex, None)
                if len(outs) == 1 and outs[0] is st:
                    continue
                return outs
            elif op == "unreachable":
                raise PathEnd()
            elif op == "freeze":
                fr.regs[ins.dst] = self.val(st, fr, ins.a[0], ins.ty)
                fr.i += 1
            elif op == "fence":
                fr.i += 1
            elif op == "atomicrmw":
                p = self.val(st, fr, ins.a[0], PTR)
                v = self.val(st, fr, ins.a[1], ins.ty)
                old = self.load(st, p, ins.ty, fr.mod)
                fr.regs[ins.dst] = old
                if ins.extra == "xchg":
                    new = v
                else:
                    new = self.arith(st, ins.extra, old, v, ins.ty, [])
                self.store(st, p, new, ins.ty, fr.mod)
                fr.i += 1
            elif op == "cmpxchg":
                p = self.val(st, fr, ins.a[0], PTR)
                c = self.val(st, fr, ins.a[1], ins.ty)
                n = self.val(st, fr, ins.a[2], ins.ty)
                old = self.load(st, p, ins.ty, fr.mod)
                e = self.icmp(st, "eq", old, c, ins.ty)
                outs = self.branch(st, e)
                res = []
                for s2, v in outs:
                    f2 = s2.frames[-1]
                    if v:
                        self.store(s2, p, n, ins.ty, f2.mod)
                    f2.regs[ins.dst] = [old, int(v)]
                    f2.i += 1
                    res.append(s2)
                return res
            elif op in ("fadd", "fsub", "fmul", "fdiv"):
                a = self.val(st, fr, ins.a[0], ins.ty)
                b = self.val(st, fr, ins.a[1], ins.ty)
                rm = z3.RNE()
                f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
                fr.regs[ins.dst] = FP(z3.simplify(f(rm, a.t, b.t)))
                fr.i += 1
            elif op == "fcmp":
                a = self.val(st, fr, ins.a[0], ins.ty).t
                b = self.val(st, fr, ins.a[1], ins.ty).t
                f = {"oeq": z3.fpEQ, "olt": z3.fpLT, "ole": z3.fpLEQ, "ogt": z3.fpGT, "oge": z3.fpGEQ}
                if ins.extra in f:
                    r = f[ins.extra](a, b)
                elif ins.extra == "une":
                    r = z3.Not(z3.fpEQ(a, b))
                else:
                    raise Unsupported("fcmp " + ins.extra)
                r = simp(r)
                fr.regs[ins.dst] = int(r) if isinstance(r, bool) else r
                fr.i += 1
            elif op in ("sitofp", "uitofp"):
                x = self.val(st, fr, ins.a[0], ins.extra)
                x = bv(x, ins.extra.n)
                so = self.fpsort(ins.ty)
                fr.regs[ins.dst] = FP(z3.simplify(z3.fpSignedToFP(z3.RNE(), x, so) if op[0] == "s" else z3.fpToFPUnsigned(z3.RNE(), x, so)))
                fr.i += 1
            elif op in ("fpext", "fptrunc"):
                x = self.val(st, fr, ins.a[0], ins.extra)
                fr.regs[ins.dst] = FP(z3.simplify(z3.fpFPToFP(z3.RNE(), x.t, self.fpsort(ins.ty))))
                fr.i += 1
            elif op in ("fptosi", "fptoui"):
                x = self.val(st, fr, ins.a[0], ins.extra)
                r = z3.fpToSBV(z3.RTZ(), x.t, BV(ins.ty.n)) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), x.t, BV(ins.ty.n))
                fr.regs[ins.dst] = simp(r)
                fr.i += 1
            elif op == "fneg":
                fr.regs[ins.dst] = FP(z3.simplify(-self.val(st, fr, ins.a[0], ins.ty).t))
                fr.i += 1
            else:
                raise Unsupported("instruction " + op)

    def mark_symloop(self, fr, targets):
        if self.nocut_all:
            return
        for h, body in loop_bodies(fr.f).items():
            if fr.blk in body and any(t not in body for t in targets):
                fr.symloop = fr.symloop | {h}

    def do_call(self, st, fr, ins):
        cal, args = ins.a
        if cal[0] == "asm":
            raise Unsupported("inline assembly")
        if cal[0] == "g":
            n = cal[1]
            if n.startswith("llvm."):
                if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.invariant")):
                    fr.i += 1
                    return [st]
        av = [self.val(st, fr, v, t) if t.k != "metadata" else None for t, v in args]
        # function pointers / virtual calls
        if cal[0] == "g":
            return self.call(st, cal[1], av, ins)
        p = self.val(st, fr, cal, PTR)
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == "func":
            return self.call(st, p.r.meta, av, ins)
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == "glob" and p.r.meta in self.p.decl:
            return self.call(st, p.r.meta, av, ins)
        raise Unsupported("indirect call through %r" % (p,))


class PathEnd(Exception):
    pass


PUSHED = object()


def add2(off, d):
    if isinstance(off, int):
        return (int(off) + d) & mask(64)
    return add(off, d & mask(64))


STD_BASES = {
    "_ZTISt12out_of_range": ("_ZTISt11logic_error",), "_ZTISt12length_error": ("_ZTISt11logic_error",),
    "_ZTISt11logic_error": ("_ZTISt9exception",), "_ZTISt13runtime_error": ("_ZTISt9exception",),
    "_ZTISt9bad_alloc": ("_ZTISt9exception",), "_ZTISt8bad_cast": ("_ZTISt9exception",),
    "_ZTISt16invalid_argument": ("_ZTISt11logic_error",),
}
