"""Shared pieces of the contracts."""
import z3
from core import *
from vm import *
import lib
from sim import Spec, SpecState, Contract, verify
from lib import explore

TRUST = ["assumed contracts of libstdc++/libc/boost calls listed under assumed_contracts"]
ASSUME = ["a std::string holds fewer than 2^62 bytes and allocation does not fail",
          "the C locale (ctype functions classify ASCII only)",
          "LLVM IR generated by clang 18 at -O0 has the semantics of the source; machine integers are exact bit-vectors, not mathematical"]


class StrFn(Contract):
    """a function over strings.  sig: list of 'sret', 'in', 'out'; the specification's start state is given"""

    def __init__(self, prog, pat, sig, spec, src, init, post, envpc=(), lookup=None):
        self.prog = prog
        self.pat = pat
        self.sig = sig
        self.spec = spec
        self.src = src
        self.init = init
        self.post = post
        self.envpc = list(envpc)
        self.envsyms = {str(s) for s in src}
        self.lookup = lookup or lib.make_lookup()

    def start(self, sim):
        st = State()
        vm = sim.vm
        args = []
        k = 0
        for i, a in enumerate(self.sig):
            r = vm.new_region(st, "%s%d" % (a, i), "obj", 32)
            if a == "in":
                st.objs[(r.id, 0)] = ("str", self.src[k])
                k += 1
            elif a == "out":
                st.objs[(r.id, 0)] = ("str", z3.Const("old_out", S))
                self.envsyms = self.envsyms | {"old_out"}
            args.append(Ptr(r, 0))
        st.pc = list(self.envpc)
        names = self.prog.find(self.pat)
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (self.pat, len(names)))
        vm.push(st, names[0], args)
        return [(st, self.init(), None)]

    def on_return(self, sim, st, ret, s):
        self.post(sim, st, ret, s, lambda i: lib.gets(st, Ptr(st.regions["%s%d" % (self.sig[i], i)], 0)))


class Straight:
    """functions without data-dependent loops: every path is executed symbolically, for all inputs"""

    def __init__(self, prog, body, lookup=None):
        self.prog = prog
        self.body = body
        self.lookup = lookup or lib.make_lookup()

    def custom(self, budget):
        import time
        vm = VM(self.prog, self.lookup, set())
        vm.deadline = time.time() + budget
        self.body(self, vm)
        return vm.obs, vm

    def call(self, vm, st, pat, args):
        """-> list of ('ret', state, value) | ('throw', state, exc)"""
        names = self.prog.find(pat) if not pat in self.prog.fn else [pat]
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (pat, len(names)))
        try:
            return list(self.run(vm, st, names[0], args))
        except NeedRestart:
            raise Unsupported("data-dependent loop where none was expected in %s" % pat)

    def run(self, vm, st, name, args):
        vm.push(st, name, args)
        for o in vm.run(st):
            if o[0] == "cut":
                raise Unsupported("data-dependent loop where none was expected")
            yield o


# ------------------------------------------------------------------ lemmas over specification steps
class LemmaCtx:
    def __init__(self):
        self.vm = VM(None, None, set())
        self.out = []

    def prove(self, name, pc, goal):
        g = simp(tobool(goal))
        if isinstance(g, (bool, int)) and g:
            # a trivially true goal still needs satisfiable hypotheses to mean anything
            self.out.append((name, "proved", "by simplification"))
            return
        g = z3.BoolVal(False) if isinstance(g, (bool, int)) else g
        r, m = check(list(pc) + [z3.Not(g)], model=True)
        self.out.append((name, "proved" if r == "unsat" else "failed" if r == "sat" else "unknown", "" if m is None else str(m)[:300]))

    def cover(self, name, pc):
        r = check(list(pc))
        self.out.append((name + " (reachable)", "proved" if r == "sat" else "failed", ""))

    def steps(self, spec, s, pc, n=1):
        st = State()
        st.pc = [p for p in pc if p is not True]
        work = [(st, s)]
        for _ in range(n):
            nxt = []
            for x, sp in work:
                if sp.ctrl.get("done") is not None:
                    nxt.append((x, sp))
                    continue

                def f(D, _x, sp=sp):
                    c = sp.copy()
                    spec.step(D, c)
                    return c
                nxt += explore(self.vm, x, f)
            work = nxt
        return work


def chunk(before, after):
    """characters appended between two string terms"""
    out = []
    t = after
    while not t.eq(before):
        if head(t) != "sapp":
            return None
        out.append(norm(t.arg(1)))
        t = t.arg(0)
    return list(reversed(out))


# ------------------------------------------------------------------ random strings
def rbytes(rng, n, alpha=None):
    if alpha:
        return bytes(rng.choice(alpha) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def mutate(rng, b, alpha=None):
    b = bytearray(b)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.randrange(5)
        if k == 0 and b:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif k == 1 and b:
            del b[rng.randrange(len(b))]
        elif k == 2:
            b.insert(rng.randrange(len(b) + 1), rng.choice(alpha) if alpha else rng.randrange(256))
        elif k == 3 and b:
            i = rng.randrange(len(b))
            b[i] ^= 1 << rng.randrange(8)
        elif b:
            i = rng.randrange(len(b))
            j = min(len(b), i + rng.randrange(1, 6))
            b[i:i] = b[i:j]
    return bytes(b)


def fromhex(x):
    return b"" if x == "-" else bytes.fromhex(x)


class Fn(Contract):
    """a function with arbitrary parameters.  sig entries:
       'sret' | ('in', term) | 'out' | ('dict', term) | ('buf', array, length term) (pointer) | ('val', value) | ('cell', size, value)"""

    def __init__(self, prog, pat, sig, spec, init, post, envpc=(), lookup=None, env=(), throws=None, prep=None):
        self.prog, self.pat, self.sig, self.spec = prog, pat, sig, spec
        self.init, self.post, self.envpc, self.lookup = init, post, list(envpc), lookup or lib.make_lookup()
        self.envsyms = {str(e) for e in env}
        self.throws = throws
        self.prep = prep

    def start(self, sim):
        st = State()
        st.pc = list(self.envpc)
        args = layout(self, sim.vm, st)
        names = self.prog.find(self.pat) if self.pat not in self.prog.fn else [self.pat]
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (self.pat, len(names)))
        if self.prep:
            self.prep(sim.vm, st)
        sim.vm.push(st, names[0], args)
        return [(st, self.init(), None)]

    def on_return(self, sim, st, ret, s):
        self.post(sim, st, ret, s, self)

    def on_throw(self, sim, st, exc, s):
        if self.throws:
            return self.throws(sim, st, exc, s, self)
        Contract.on_throw(self, sim, st, exc, s)

    def string(self, st, i):
        return lib.gets(st, Ptr(st.regions["a%d" % i], 0))

    def dict(self, st, i):
        return lib.getd(st, Ptr(st.regions["a%d" % i], 0))

    def cell(self, sim, st, i, ty):
        return sim.vm.load(st, Ptr(st.regions["a%d" % i], 0), ty, self.prog.mods[0])


def layout(self, vm, st):
    args = []
    for i, a in enumerate(self.sig):
        k = a if isinstance(a, str) else a[0]
        if k == "val":
            args.append(a[1])
            continue
        if k == "buf":
            r = vm.new_region(st, "a%d" % i, "buf", a[2])
            st.bufs[r.id] = a[1]
            self.envsyms = self.envsyms | {str(a[1])}
        else:
            r = vm.new_region(st, "a%d" % i, "obj", 56 if k == "dict" else a[1] if k in ("cell", "obj") else 32)
            if k == "in":
                st.objs[(r.id, 0)] = ("str", a[1])
            elif k == "out":
                t = z3.Const("old_a%d" % i, S)
                st.objs[(r.id, 0)] = ("str", t)
                self.envsyms = self.envsyms | {"old_a%d" % i}
            elif k == "dict":
                st.objs[(r.id, 0)] = ("dict", a[1])
            elif k == "cell":
                st.mem[r.id][0] = (a[1], a[2])
        args.append(Ptr(r, 0))
    return args
