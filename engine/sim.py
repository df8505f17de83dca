"""Loop reasoning: inductive relations between the code at its cut points and an executable specification.

The specification is a deterministic machine (class Spec: step by step over the input).  For every cut point of the code,
every combination of control values and every control state of the specification there is a node carrying an inductive
relation: equalities between memory cells and specification variables (found by Houdini-style weakening from the first
arrival), and the specification's own invariants.  Every obligation is discharged for all states described by the node.
"""
import time
import z3
from core import *
from vm import *
from lib import explore
from irparse import succs


class SpecState:
    __slots__ = ("ctrl", "data")

    def __init__(self, ctrl, data):
        self.ctrl = ctrl
        self.data = data

    def copy(self):
        return SpecState(dict(self.ctrl), dict(self.data))

    def __getattr__(self, n):
        if n in SpecState.__slots__:
            raise AttributeError(n)
        if n in self.data:
            return self.data[n]
        if n in self.ctrl:
            return self.ctrl[n]
        raise AttributeError(n)

    def set(self, **kw):
        for k, v in kw.items():
            if k in self.data:
                self.data[k] = v
            else:
                self.ctrl[k] = v


# ------------------------------------------------------------------ dead scalar locals
_dead = {}


def alloca_liveness(f):
    """-> (scalars, live_in per block) for allocas used only by direct loads and stores"""
    r = _dead.get(id(f))
    if r:
        return r[0], r[1]
    allocas = set()
    esc = set()

    def regs(v, out):
        if isinstance(v, tuple):
            if v and v[0] == "r" and len(v) == 2 and isinstance(v[1], str):
                out.add(v[1])
                return
            for x in v:
                regs(x, out)
        elif isinstance(v, list):
            for x in v:
                regs(x, out)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == "alloca":
                allocas.add(i.dst)
                continue
            if i.op == "load":
                continue
            if i.op == "store":
                regs(i.a[0], esc)
                continue
            regs(i.a, esc)
    sc = allocas - esc
    live = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            cur = set()
            for s in succs(f.blocks[b][-1]):
                cur |= live[s]
            cur = back(f.blocks[b], len(f.blocks[b]), cur, sc, 0)
            if cur != live[b]:
                live[b] = cur
                ch = True
    _dead[id(f)] = (sc, live, f)
    return sc, live


def back(ins, upto, cur, sc, frm):
    cur = set(cur)
    for i in reversed(ins[frm:upto]):
        if i.op == "store" and i.a[1][0] == "r" and i.a[1][1] in sc:
            cur.discard(i.a[1][1])
        elif i.op == "load" and i.a[0][0] == "r" and i.a[0][1] in sc:
            cur.add(i.a[0][1])
    return cur


def live_scalars(fr, incall):
    sc, live = alloca_liveness(fr.f)
    ins = fr.f.blocks[fr.blk]
    out = set()
    for s in succs(ins[-1]):
        out |= live[s]
    return sc, back(ins, len(ins), out, sc, fr.i + (1 if incall else 0))


def live_regs(fr, incall):
    from vm import Liveness
    live = Liveness.get(fr.f)
    ins = fr.f.blocks[fr.blk]
    out = set()

    def regs(v):
        if isinstance(v, tuple):
            if v and v[0] == "r" and len(v) == 2 and isinstance(v[1], str):
                out.add(v[1])
                return
            for x in v:
                regs(x)
        elif isinstance(v, list):
            for x in v:
                regs(x)
    defined = set()
    for s in succs(ins[-1]):
        out |= live[s]
        for i in fr.f.blocks[s]:
            if i.op == "phi":
                for v, pb in i.a:
                    if pb == fr.blk:
                        regs(v)
    rest = ins[fr.i + (1 if incall else 0):]
    for i in reversed(rest):
        if i.dst is not None:
            out.discard(i.dst)
        if i.op != "phi":
            regs(i.a)
    return out


# ------------------------------------------------------------------ flattening
def flatten(st):
    """-> (data/int cells: {id: (kind, width, value)}, control items list)"""
    cells = {}
    ctrl = []

    def put(cid, v, size):
        if isinstance(v, Ptr) or isinstance(v, PInt):
            p = v if isinstance(v, Ptr) else v.p
            ctrl.append((cid + ("R",), p.r.id if p.r else None))
            if p.r is None:
                ctrl.append((cid + ("O",), int(p.o)))
            else:
                cells[cid + ("O",)] = ("int", 64, p.o)
        elif isinstance(v, (int, z3.BitVecRef)):
            w = v.size() if isinstance(v, z3.BitVecRef) else size * 8
            cells[cid] = ("int", w, v)
        elif isinstance(v, z3.BoolRef):
            cells[cid] = ("bool", 1, v)
        elif isinstance(v, FP):
            cells[cid] = ("fp", 0, v.t)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                put(cid + (i,), x, size)
        elif v is UNDEF or v is None:
            pass
        elif isinstance(v, z3.ExprRef):
            cells[cid] = (str(v.sort()), 0, v)
        else:
            ctrl.append((cid, v))
    dead = set()
    for d, fr in enumerate(st.frames):
        incall = d < len(st.frames) - 1
        sc, lv = live_scalars(fr, incall)
        for a in sc - lv:
            dead.add("A:%s:%s" % (fr.path, a))
        for rg in live_regs(fr, incall):
            if rg in fr.regs:
                v = fr.regs[rg]
                put(("r", d, rg), v, 8)
    for rid in st.mem:
        if rid in dead:
            continue
        for off, (size, v) in st.mem[rid].items():
            put(("m", rid, off, size), v, size)
    for (rid, off), o in st.objs.items():
        for i, x in enumerate(o):
            if isinstance(x, z3.ExprRef) or isinstance(x, Ptr):
                put(("o", rid, off, i), x, 8)
            else:
                ctrl.append((("o", rid, off, i), x))
    for rid, a in st.bufs.items():
        put(("b", rid), a, 0)
    for g, v in st.ghost.items():
        if g.startswith("_"):
            continue
        put(("g", g), v, 8)
    return cells, ctrl, dead


def setcell(st, cid, v):
    k = cid[0]
    ptr = cid[-1] == "O"
    if k == "m":
        _, rid, off, size = cid[:4]
        cells = st.cells(rid)
        old = cells[off][1]
        if ptr:
            v = Ptr(old.r, v) if isinstance(old, Ptr) else PInt(Ptr(old.p.r, v))
        cells[off] = (size, v)
    elif k == "r":
        _, d, rg = cid[:3]
        fr = st.frames[d]
        rest = cid[3:]
        if ptr:
            rest = rest[:-1]
        if rest:
            old = fr.regs[rg]
            lst = list(old)
            o = lst[rest[0]]
            lst[rest[0]] = Ptr(o.r, v) if ptr else v
            fr.regs[rg] = lst
        else:
            old = fr.regs[rg]
            if ptr:
                v = Ptr(old.r, v) if isinstance(old, Ptr) else PInt(Ptr(old.p.r, v))
            fr.regs[rg] = FP(v) if isinstance(old, FP) else v
    elif k == "o":
        _, rid, off, i = cid[:4]
        o = list(st.objs[(rid, off)])
        o[i] = Ptr(o[i].r, v) if ptr else v
        st.objs[(rid, off)] = tuple(o)
    elif k == "b":
        st.bufs[cid[1]] = v
    elif k == "g":
        old = st.ghost[cid[1]]
        st.ghost[cid[1]] = Ptr(old.r, v) if ptr else v


def delcell(st, cid):
    if cid[0] == "m":
        st.cells(cid[1]).pop(cid[2], None)
    elif cid[0] == "r":
        st.frames[cid[1]].regs.pop(cid[2], None)


def symbols(e, memo={}):
    """free constants of a z3 term"""
    i = e.get_id()
    r = memo.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    if len(memo) > 200000:
        memo.clear()
    memo[i] = (e, out)
    return out


def generalised(v):
    """does the value mention what an earlier cut point already forgot?"""
    return isinstance(v, z3.ExprRef) and any("@" in n for n in symbols(v))


def fresh_like(kind, w, tag):
    if kind == "int":
        return fresh_bv(tag, w)
    if kind == "bool":
        return fresh_bool(tag)
    if kind == "Str":
        return fresh_str(tag)
    if kind == "Dict":
        return fresh_dict(tag)
    if kind.startswith("Array"):
        return fresh_buf(tag)
    raise Unsupported("cannot generalise a value of kind %s at a loop head" % kind)


def veq(kind, w, a, b):
    if kind == "int":
        return eq(a, b, w)
    if kind == "bool":
        return eq(a, b)
    if kind == "Str":
        return s_eq(a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return True
        return norm(a == b)
    return a == b


def skind(v):
    """kind of a spec variable value"""
    if isinstance(v, int):
        return "int", 64
    if isinstance(v, z3.BitVecRef):
        return "int", v.size()
    if isinstance(v, z3.BoolRef):
        return "bool", 1
    return str(v.sort()), 0


class Node:
    def __init__(self):
        self.edges = {}
        self.obs = []
        self.dirty = True


class Sim:
    K = 5            # specification steps a single code segment may take
    KRET = 6        # specification steps allowed at a return
    MAXNODES = 4000

    def __init__(self, contract, persist):
        self.c = contract
        self.per = persist
        self.vm = VM(contract.prog, contract.lookup, persist["cuts"])
        self.vm.deadline = contract.deadline
        self.nodes = {}
        self.work = []
        self.sync_obs = []
        self.retpaths = 0

    # ---------------------------------------------------------------- helpers
    def rel(self, cand, kind, w, v, sd):
        """the relation a candidate states about value v, under spec data sd"""
        if cand[0] == "keep":
            return veq(kind, w, v, cand[1])
        if cand[0] == "inv":
            return cand[1](v)
        if cand[0] in ("ge", "le"):
            sv = sd[cand[1]]
            sw = 64 if isinstance(sv, int) else sv.size()
            ww = max(w, sw)
            a = v if w == ww or isinstance(v, int) else z3.ZeroExt(ww - w, v)
            b = sv if sw == ww or isinstance(sv, int) else z3.ZeroExt(ww - sw, sv)
            return ule(b, a, ww) if cand[0] == "ge" else ule(a, b, ww)
        _, var, k, mode = cand
        sv = sd[var]
        if kind == "int":
            sw = 64 if isinstance(sv, int) else sv.size()
            t = add(sv, k & mask(sw), sw)
            if mode == "same":
                return eq(v, t, w)
            if mode == "zext":
                return eq(simp(z3.ZeroExt(sw - w, bv(v, w))), t, sw)
            if mode == "sext":
                return eq(simp(z3.SignExt(sw - w, bv(v, w))), t, sw)
            if mode == "szext":
                return eq(v, simp(z3.ZeroExt(w - sw, bv(t, sw))), w)
        return veq(kind, w, v, sv)

    def value_of(self, cand, kind, w, sd):
        if cand[0] == "keep":
            return cand[1]
        if cand[0] in ("inv", "ge", "le"):
            return None
        _, var, k, mode = cand
        sv = sd[var]
        if kind == "int":
            sw = 64 if isinstance(sv, int) else sv.size()
            t = add(sv, k & mask(sw), sw)
            if isinstance(t, int):
                t = int(t)
            if mode == "same":
                return t
            if mode in ("zext", "sext"):
                return t & mask(w) if isinstance(t, int) else simp(z3.Extract(w - 1, 0, t))
            return simp(z3.ZeroExt(w - sw, bv(t, sw)))
        return sv

    def model(self, st):
        if st.model is None:
            r, m = check(st.pc, model=True)
            if r == "unsat":
                return None
            st.model = m
        return st.model

    def mval(self, m, v, w):
        if isinstance(v, int):
            return v & mask(w)
        r = m.eval(v, model_completion=True)
        try:
            return r.as_long()
        except Exception:
            return None

    def link_cands(self, st, kind, w, v, sd, small=8):
        out = []
        m = self.model(st)
        for var, sv in sd.items():
            k2, sw = skind(sv)
            if kind == "int":
                if k2 != "int":
                    continue
                if m is None:
                    continue
                mv, ms = self.mval(m, v, w), self.mval(m, sv, sw)
                if mv is None or ms is None:
                    continue
                if w == sw:
                    modes = [("same", (mv - ms) & mask(w), w)]
                elif w < sw:
                    modes = [("zext", (mv - ms) & mask(sw), sw), ("sext", (signed(mv, w) - ms) & mask(sw), sw)]
                else:
                    modes = [("szext", (mv - ms) & mask(w), w)]
                for mode, k, kw in modes:
                    k = signed(k, kw)
                    if abs(k) > small or (mode == "szext" and k != 0):
                        continue
                    c = ("spec", var, k, mode)
                    if self.vm.entails(st, self.rel(c, kind, w, v, sd)):
                        out.append(c)
                        break
            elif k2 == kind:
                c = ("spec", var, 0, "same")
                if self.vm.entails(st, self.rel(c, kind, w, v, sd)):
                    out.append(c)
        return out

    # ---------------------------------------------------------------- synchronisation with the specification
    def step(self, st, s):
        def f(D, _):
            c = s.copy()
            self.c.spec.step(D, c)
            return c
        return explore(self.vm, st, f)

    def sync(self, st, s, loc, fresh_loc):
        if self.c.spec.transient(s) and s.ctrl.get("done") is None:
            return [r for y, sp in self.step(st, s) for r in self.sync(y, sp, loc, fresh_loc)]
        anch = self.per["anchors"].get(loc)
        posn = self.c.spec.posvar
        cells, ctrl, dead = flatten(st)
        exact = self.c.spec.exact
        if anch is None and exact:
            return self.first_exact(st, s, loc, cells)
        if anch is None:
            # first arrival: whatever sits at a constant distance from the specification's position
            found = {}
            inner = self.inner_state(st, s) if self.c.spec.inner(s) is not None else None
            if inner is not None:
                st, s = inner
                self.per["inner"].add(loc)
                posn = self.c.spec.inner(s)
                cells, ctrl, dead = flatten(st)
            for cid, (kind, w, v) in cells.items():
                if kind == "int" and w in (32, 64) and cid[0] in ("m", "r"):
                    if isinstance(v, int) and (loc, cid) not in self.per["demoted"]:
                        continue
                    for c in self.link_cands(st, kind, w, v, {posn: s.data[posn]}, small=4):
                        found[cid] = c
            self.per["anchors"][loc] = dict(found)
            if inner is not None:
                raise NeedRestart()
            return [(st, s, 0)]
        if not anch:
            return [(st, s, 0)]
        out = []
        work = [(st, s, 0, None)]
        cnt = 0
        while work:
            x, sp, n, best = work.pop(0)
            cnt += 1
            if cnt > 600:
                if best is not None:
                    self.per["anchors"][loc] = best[3]
                    raise NeedRestart()
                self.vm.oblige(x, False, "lockstep: the code's position does not correspond to any specification step", "simulation",
                               "at %s spec %s" % (loc, sp.ctrl))
                break
            hold = {}
            for cid, c in anch.items():
                if cid not in cells:
                    continue
                kind, w, v = cells[cid]
                if self.vm.entails(x, self.rel(c, kind, w, v, sp.data)):
                    hold[cid] = c
            if exact and self.per["tag"].get(loc) != self.c.spec.inner(sp):
                hold = {}
            if len(hold) == len(anch) and not (loc in self.per["inner"] and not self.c.spec.inner(sp)):
                out.append((x, sp, n))
                continue
            idle = best is not None and best[2] == 0 and n > 0 and not set(hold) & set(best[3]) and \
                all(isinstance(cells[i][2], int) for i in best[3])      # constants that happened to be near the position
            if hold and (best is None or idle or len(hold) >= len(best[3])):
                best = (x.copy(), sp, n, hold)
            if sp.ctrl.get("done") is not None and best is None and not (exact and loc in self.per["tag"] and n > 0):
                out.append((x, sp, n))       # the specification has finished; the code winds down
                continue
            if sp.ctrl.get("done") is not None or n >= self.K:
                if best is not None:
                    self.per["anchors"][loc] = best[3]
                    raise NeedRestart()
                if exact and loc in self.per["tag"]:
                    for cid in anch:
                        self.per["black"].add((loc, cid, self.per["tag"][loc]))
                    del self.per["anchors"][loc], self.per["tag"][loc]
                    raise NeedRestart()
                self.vm.oblige(x, False, "lockstep: the code's position does not correspond to any specification step", "simulation",
                               "at %s spec %s" % (loc, sp.ctrl))
                continue
            stop = self.c.spec.paused(sp)
            if stop is not None:
                br = explore(self.vm, x, lambda D, _: D(stop))
            else:
                br = [(x, False)]
            for x2, v in br:
                if v:
                    if best is not None:
                        self.per["anchors"][loc] = best[3]
                        raise NeedRestart()
                    self.vm.oblige(x2, False, "lockstep: the code continues past the end of the specification's input", "simulation",
                                   "at %s spec %s" % (loc, sp.ctrl))
                    continue
                for y, sp2 in self.step(x2, sp):
                    if not self.c.spec.progress(sp, sp2) and sp2.ctrl.get("done") is None:
                        if not self.vm.entails(y, lexless(self.c.spec.measure(sp), self.c.spec.measure(sp2))):
                            raise Unsupported("specification step without progress: %s -> %s" % (sp.ctrl, sp2.ctrl))
                    work.append((y, sp2, n + 1, best))
        return out

    def first_exact(self, st, s, loc, cells):
        """first arrival, for specifications with several counters: the next state whose own counter the code holds"""
        fr = st.frames[-1]
        stored = loop_stores(fr.f, fr.blk)

        def varies(cid, tag):
            if cid[0] != "m":
                return False
            if not cid[1].startswith("A:"):     # what has been computed, not what was there
                return tag is None and (isinstance(cells[cid][2], AInt) or not isinstance(cells[cid][2], int))
            return cid[1].startswith("A:%s:" % fr.path) and cid[1].split(":")[-1] in stored
        work = [(st.copy(), s, 0)]
        while work:
            x, sp, n = work.pop(0)
            tag = self.c.spec.inner(sp)
            posn = tag or self.c.spec.posvar
            found = {}
            if sp.ctrl.get("done") is None:
                for cid, (kind, w, v) in cells.items():
                    if kind == "int" and w in (16, 32, 64) and varies(cid, tag) and (loc, cid, tag) not in self.per["black"]:
                        for c in self.link_cands(x, kind, w, v, {posn: sp.data[posn]}, small=0):
                            found[cid] = c
            if found:
                self.per["anchors"][loc] = found
                self.per["tag"][loc] = tag
                raise NeedRestart()
            if sp.ctrl.get("done") is None and n < self.K:
                work += [(y, sp2, n + 1) for y, sp2 in self.step(x, sp)]
        self.per["anchors"][loc] = {}
        return [(st, s, 0)]

    def inner_state(self, st, s):
        """does the code here run a loop of its own inside one larger step of the specification?"""
        if self.c.spec.inner(s):
            return st, s
        if s.ctrl.get("done") is not None:
            return None
        for y, sp in self.step(st.copy(), s):
            if self.c.spec.inner(sp):
                return y, sp
        return None

    # ---------------------------------------------------------------- nodes
    def arrive(self, st, s, loc, src, n):
        cells, ctrl, dead = flatten(st)
        dem = self.per["demoted"]
        key_ctrl = []
        data = {}
        for cid, (kind, w, v) in cells.items():
            lc = (loc, cid)
            if kind == "int" and isinstance(v, int) and (loc, cid) not in dem:
                if isinstance(v, AInt):
                    dem.add(lc)
                    raise NeedRestart()
                if lc in self.per["sym"]:
                    dem.add(lc)
                    raise NeedRestart()
                vs = self.per["vals"].setdefault(lc, set())
                vs.add(v)
                if len(vs) > 48:
                    dem.add(lc)
                    raise NeedRestart()
                key_ctrl.append((cid, v))
            else:
                if kind == "int" and not isinstance(v, int) and lc not in dem:
                    self.per["sym"].add(lc)
                    if lc in self.per["vals"]:
                        dem.add(lc)
                        raise NeedRestart()
                data[cid] = (kind, w, v)
        key = (loc, tuple(sorted(map(repr, key_ctrl))), tuple(sorted(map(repr, ctrl))), tuple(sorted(s.ctrl.items(), key=repr)))
        nd = self.nodes.get(key)
        if nd is None:
            if len(self.nodes) >= self.MAXNODES:
                raise Unsupported("too many product nodes")
            nd = Node()
            nd.key = key
            nd.id = len(self.nodes)
            nd.loc = loc
            nd.base = st.copy()
            nd.base.model = None
            for rid in dead:
                if rid in nd.base.mem:
                    nd.base.mem[rid] = {}
                    nd.base._own.add(rid)
            for fr in nd.base.frames:
                fr.visits = {}
                fr.symloop = frozenset()
            nd.spec = s.copy()
            nd.cells = {}
            nd.sym = {}
            nd.keepv = {}
            opaque = self.c.spec.opaque
            for var, v in s.data.items():
                if var not in opaque and not generalised(v):
                    nd.keepv[var] = v            # dropped when an arrival disagrees
            extra = self.c.cell_invariants
            held = self.per["anchors"].get(loc) or {}
            frame = st.frames[-1]
            own, stored = "A:%s:" % frame.path, loop_stores(frame.f, frame.blk)

            def unstored(cid):          # a local of this function that its loop does not assign
                return cid[0] == "m" and cid[1].startswith(own) and cid[1].split(":")[-1] not in stored
            for cid, (kind, w, v) in data.items():
                cands = []
                if not (kind == "int" and isinstance(v, int)) and not generalised(v):
                    cands.append(("keep", v))
                cands += self.link_cands(st, kind, w, v, s.data)
                if any(c[0] == "spec" and c[1] in opaque for c in cands):
                    cands = [c for c in cands if c[0] != "keep"]
                if kind == "int" and w in (32, 64):
                    for var, sv in s.data.items():
                        if skind(sv)[0] == "int" and skind(sv)[1] in (32, 64):
                            for c in (("ge", var), ("le", var)):
                                if self.vm.entails(st, self.rel(c, kind, w, v, s.data)):
                                    cands.append(c)
                if kind == "int" and isinstance(v, int) and (not cands or cid not in held and unstored(cid) or self.c.spec.exact and not any(c[0] == "spec" for c in cands)):
                    cands.append(("keep", int(v)))
                cands += [("inv", f) for f in extra(self, cid, kind, w, v) if self.vm.entails(st, f(v))]
                nd.cells[cid] = (kind, w, cands)
            nd.facts = [f for f in self.c.spec.facts(s) if self.vm.entails(st, f(s.data))]
            # path facts over symbols the template keeps
            ks = set(self.c.envsyms)
            for cid, (kind, w, cands) in nd.cells.items():
                for c in cands:
                    if c[0] == "keep" and isinstance(c[1], z3.ExprRef):
                        ks |= symbols(c[1])
            nd.pcf = [p for p in st.pc if symbols(p) <= ks]
            self.nodes[key] = nd
            self.work.append(nd)
            nd.parent = (src.id if src else None)
            nd.edges_in = 1
        else:
            changed = False
            todo = []           # (goal, what to do when it does not follow)
            for var in list(nd.keepv):
                kind, w = skind(nd.keepv[var]) if not isinstance(nd.keepv[var], int) else skind(s.data[var])
                # once generalised, links stated against this variable are re-checked below at every arrival
                todo.append((veq(kind, w, s.data[var], nd.keepv[var]), ("var", var)))
            # cells
            for cid in list(nd.cells):
                kind, w, cands = nd.cells[cid]
                if cid not in data:
                    if cid in cells and cells[cid][0] == kind:
                        v = cells[cid][2]
                    else:
                        del nd.cells[cid]
                        nd.dropped = getattr(nd, "dropped", []) + [cid]
                        changed = True
                        continue
                else:
                    if data[cid][0] != kind or data[cid][1] != w:
                        raise Unsupported("cell changes type")
                    v = data[cid][2]
                for c in cands:
                    todo.append((self.rel(c, kind, w, v, s.data), ("cell", cid, c)))
            for f in nd.facts:
                todo.append((f(s.data), ("fact", f)))
            for p in nd.pcf:
                todo.append((p, ("pcf", p)))
            res = self.vm.entails_many(st, [g for g, _ in todo])
            lost = {}
            for (g, w), ok in zip(todo, res):
                if ok:
                    continue
                changed = True
                if w[0] == "var":
                    del nd.keepv[w[1]]
                elif w[0] == "cell":
                    lost.setdefault(w[1], []).append(w[2])
                elif w[0] == "fact":
                    nd.facts.remove(w[1])
                else:
                    nd.pcf[:] = [p for p in nd.pcf if p is not w[1]]
            for cid, ls in lost.items():
                kind, w, cands = nd.cells[cid]
                nd.cells[cid] = (kind, w, [c for c in cands if not any(c is x for x in ls)])
            if changed and not nd.dirty:
                nd.dirty = True
                self.work.append(nd)
        if src is not None:
            e = src.edges
            e[nd.id] = min(e.get(nd.id, 99), n)
        return nd

    def instance(self, nd):
        st = nd.base.copy()
        st.ghost.pop("_ok", None)
        s = nd.spec.copy()
        sd = {}
        for var, v in nd.spec.data.items():
            if var in nd.keepv:
                sd[var] = nd.keepv[var]
            else:
                if ("s", var) not in nd.sym:
                    kind, w = skind(v)
                    nd.sym[("s", var)] = fresh_like(kind, w, "%s@%d" % (var, nd.id))
                sd[var] = nd.sym[("s", var)]
        s.data = sd
        pc = list(self.c.envpc) + list(nd.pcf)
        for cid in getattr(nd, "dropped", []):
            delcell(st, cid)
        for cid, (kind, w, cands) in nd.cells.items():
            val = None
            rest = []
            exact = {c[1] for c in cands if c[0] == "spec"}
            for c in cands:
                if c[0] in ("ge", "le") and c[1] in exact:
                    continue
                if val is None:
                    val = self.value_of(c, kind, w, sd)
                    if val is not None and (c[0] != "spec" or c[3] == "same"):
                        continue
                rest.append(c)
            if val is None:
                if cid not in nd.sym:
                    nd.sym[cid] = fresh_like(kind, w, "c@%d" % nd.id)
                val = nd.sym[cid]
            if isinstance(val, int) and kind == "int":
                val = int(val)
            setcell(st, cid, val)
            for c in rest:
                r = tobool(self.rel(c, kind, w, val, sd))
                if r is not True:
                    pc.append(r if not isinstance(r, bool) else z3.BoolVal(r))
        for f in nd.facts:
            r = tobool(f(sd))
            if r is not True:
                pc.append(r if not isinstance(r, bool) else z3.BoolVal(r))
        st.pc = pc
        st.model = None
        return st, s

    # ---------------------------------------------------------------- run
    def loc_of(self, st):
        return tuple((fr.f.name, fr.blk, fr.i) for fr in st.frames)

    def explore_from(self, st, s, src, skip):
        for out in self.vm.run(st, skip):
            kind = out[0]
            if kind == "cut":
                _, x, k = out
                loc = self.loc_of(x)
                for y, sp, n in self.sync(x, s, loc, True):
                    self.arrive(y, sp, loc, src, n)
            elif kind == "ret":
                _, x, v = out
                self.retpaths += 1
                self.finish(x, s, src, lambda y, sp: self.c.on_return(self, y, v, sp))
            else:
                _, x, exc = out
                self.finish(x, s, src, lambda y, sp: self.c.on_throw(self, y, exc, sp))

    def finish(self, st, s, src, k):
        """run the specification to its end, then the postcondition; k may hand back (state, spec, entry) to continue"""
        work = [(st, s, 0)]
        cnt = 0
        while work:
            x, sp, n = work.pop(0)
            cnt += 1
            if cnt > 400:
                self.vm.oblige(x, False, "lockstep: the code returned while the specification is still running", "simulation", repr(sp.ctrl))
                return
            if sp.ctrl.get("done") is None:
                if n > self.KRET:
                    self.vm.oblige(x, False, "lockstep: the code returned while the specification is still running", "simulation", repr(sp.ctrl))
                    continue
                stop = self.c.spec.paused(sp)
                if stop is not None:
                    outs = explore(self.vm, x, lambda D, _: D(stop))
                    for y, v in outs:
                        if v:
                            self.deliver(y, sp, src, k, n)
                        else:
                            for z, sp2 in self.step(y, sp):
                                work.append((z, sp2, n + 1))
                    continue
                for y, sp2 in self.step(x, sp):
                    work.append((y, sp2, n + 1))
                continue
            self.deliver(x, sp, src, k, n)

    def deliver(self, st, sp, src, k, n):
        for (y, sp2, entry) in (k(st, sp) or []):
            self.arrive(y, sp2, ("entry", entry), src, n)

    def run(self):
        for st, s, entry in self.c.start(self):
            if entry is None:
                self.vm.obs = []
                self.explore_from(st, s, None, False)
                self.sync_obs += self.vm.obs
            else:
                self.arrive(st, s, ("entry", entry), None, 0)
        while self.work:
            nd = self.work.pop()
            if not nd.dirty:
                continue
            nd.dirty = False
            self.vm.obs = []
            nd.edges = {}
            st, s = self.instance(nd)
            if nd.loc[0] == "entry":
                for st2, s2 in self.c.enter(self, st, s, nd.loc[1]):
                    self.explore_from(st2, s2, nd, False)
            else:
                self.explore_from(st, s, nd, True)
            nd.obs = self.vm.obs
        obs = list(self.sync_obs)
        for nd in self.nodes.values():
            obs += nd.obs
        # termination: no cycle of code segments that consumes no specification step
        zero = {nd.id: [m for m, n in nd.edges.items() if n == 0] for nd in self.nodes.values() if nd.loc[0] != "entry"}
        cyc = find_cycle(zero)
        ob = Ob()
        ob.name, ob.kind, ob.where, ob.model, ob.pc, ob.goal, ob.info, ob.trace = "termination: every loop iteration consumes input", "termination", "", None, None, None, cyc, None
        ob.status = "proved" if cyc is None else "failed"
        if self.nodes and self.c.check_termination:
            obs.append(ob)
        return obs


def loop_stores(f, head):
    """the scalar locals stored to in the natural loop with this head"""
    sc = {b: list(succs(f.blocks[b][-1])) for b in f.order}
    pred = {b: [c for c in f.order if b in sc[c]] for b in f.order}
    free, todo = {f.order[0]} - {head}, [f.order[0]]
    while todo:                             # reached without passing the head
        for c in sc[todo.pop()]:
            if c not in free and c != head:
                free.add(c)
                todo.append(c)
    body = {head}
    todo = [b for b in pred[head] if b not in free]
    while todo:
        b = todo.pop()
        if b not in body:
            body.add(b)
            todo += pred[b]
    return {i.a[1][1] for b in body for i in f.blocks[b] if i.op == "store" and i.a[1][0] == "r"}


def find_cycle(g):
    color = {}
    for r in g:
        if color.get(r):
            continue
        stack = [(r, iter(g[r]))]
        color[r] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in g:
                    continue
                if color.get(y, 0) == 1:
                    return [z for z, _ in stack]
                if color.get(y, 0) == 0:
                    color[y] = 1
                    stack.append((y, iter(g[y])))
                    break
            else:
                color[x] = 2
                stack.pop()
    return None


def lexless(a, b):
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = Or(ult(x, y), And(eq(x, y, 64), r))
    return r


class Spec:
    posvar = "pos"
    exact = False       # several counters: the code's loops are matched by the counter each state counts with
    opaque = ()         # data whose value is forgotten at cut points although it never changes

    def measure(self, s):
        """grows lexicographically at every step"""
        return [s.data[self.posvar]]

    def step(self, D, s):
        raise NotImplementedError

    def facts(self, s):
        return []

    def inner(self, s):
        """the variable counting an inner loop of the specification in this state; '' outside one; None: there are none"""
        return None

    def transient(self, s):
        """the specification never rests in this state at a cut point"""
        return False

    def progress(self, a, b):
        return False

    def paused(self, s):
        """None, or the condition under which the specification waits here for more input"""
        return None


class Contract:
    """one function (or one object protocol) under contract"""
    check_termination = True
    deadline = None
    spec = None
    envpc = ()
    envsyms = ()
    lookup = None

    def cell_invariants(self, sim, cid, kind, w, v):
        return []

    def on_throw(self, sim, st, exc, s):
        sim.vm.oblige(st, False, "no exception escapes (%s)" % exc.tname, "post")

    def enter(self, sim, st, s, entry):
        raise NotImplementedError


def verify(contract, budget=600):
    per = {"cuts": set(), "anchors": {}, "inner": set(), "demoted": set(), "sym": set(), "vals": {}, "tag": {}, "black": set()}
    t0 = time.time()
    contract.deadline = t0 + budget
    core.INC_TIMEOUT = 120 if contract.spec.exact else 800
    for attempt in range(200):
        nd, nc = len(per["demoted"]), len(per["cuts"])
        try:
            sim = Sim(contract, per)
            obs = sim.run()
            return obs, sim
        except NeedRestart:
            if len(per["demoted"]) != nd or len(per["cuts"]) != nc:
                per["anchors"] = {}
                per["tag"] = {}
            continue
    raise Unsupported("no stable set of cut points")
