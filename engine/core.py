"""Values, terms and solver access.

Integers are Python ints when concrete, z3 bit-vectors otherwise (i1: z3 Bool).  Strings and multimaps are terms over
uninterpreted sorts; their operations are rewritten at construction by the (true) laws of finite byte sequences.
"""
import time
import z3

BV = z3.BitVecSort
S = z3.DeclareSort("Str")
D = z3.DeclareSort("Dict")
BUF = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))

MAXLEN = 1 << 62


class Unsupported(Exception):
    """The construct is outside what the verifier accepts: no verdict (a bounded stand-in takes over)."""


class AInt(int):
    """A concrete integer produced by arithmetic (candidate counter; used for control/data classification only)."""
    __slots__ = ()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def mask(w):
    return (1 << w) - 1


_bvcache = {}


def bv(v, w):
    if isinstance(v, z3.BoolRef):
        if w == 1:
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        k = (v & mask(w), w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(k[0], w)
        return r
    return v


def b64(v):
    return bv(v, 64)


def tobool(v):
    """i1 value -> Python bool or z3 Bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if isinstance(v, z3.BoolRef):
        return v
    return v == z3.BitVecVal(1, 1)


def zbool(v):
    v = tobool(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def signed(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def norm(e):
    """fold a z3 expression to a Python constant when it is one"""
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def simp(e):
    if not isinstance(e, z3.ExprRef):
        return e
    return norm(z3.simplify(e))


def eq(a, b, w=None):
    """equality of two int values -> bool or z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        if w:
            return (a & mask(w)) == (b & mask(w))
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        a, b = tobool(a), tobool(b)
        if isinstance(b, bool):
            return a if b else z3.Not(a)
        if isinstance(a, bool):
            return b if a else z3.Not(b)
        return a == b
    if isinstance(b, int):
        b = bv(b, a.size())
    if a.eq(b):
        return True
    return norm(a == b)


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return AInt((a + b) & mask(w)) if b and a is not None else (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    r = bv(a, w) + bv(b, w)
    return simp(r)


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return AInt((a - b) & mask(w))
    if isinstance(b, int) and b == 0:
        return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return 0
    return simp(bv(a, w) - bv(b, w))


def ult(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a & mask(w)) < (b & mask(w))
    return simp(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a & mask(w)) <= (b & mask(w))
    return simp(z3.ULE(bv(a, w), bv(b, w)))


def slt(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return signed(a, w) < signed(b, w)
    return simp(bv(a, w) < bv(b, w))


def Not(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b, w):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def zext(v, w1, w2):
    if isinstance(v, int):
        return v & mask(w1)
    return simp(z3.ZeroExt(w2 - w1, v))


def bits(v, hi, lo, w):
    """v[hi:lo] as a value of the same width"""
    if isinstance(v, int):
        return (v >> lo) & mask(hi - lo + 1)
    return simp(z3.ZeroExt(w - (hi - lo + 1), z3.Extract(hi, lo, v)))


def bor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    return simp(bv(a, w) | bv(b, w))


def shl(a, k, w):
    if isinstance(a, int):
        return (a << k) & mask(w)
    return simp(bv(a, w) << bv(k, w))


def inrange(c, lo, hi, w=8):
    return And(ule(lo, c, w), ule(c, hi, w))


def oneof(c, cs, w=8):
    return Or(*[eq(c, x, w) for x in cs])


# ------------------------------------------------------------------ strings
_f_len = z3.Function("slen", S, BV(64))
_f_at = z3.Function("sat", S, BV(64), BV(8))
_f_app = z3.Function("sapp", S, BV(8), S)
_f_cat = z3.Function("scat", S, S, S)
_f_sub = z3.Function("ssub", S, BV(64), BV(64), S)
_f_mk = z3.Function("smk", BUF, BV(64), BV(64), S)
_f_set = z3.Function("sset", S, BV(64), BV(8), S)
s_empty = z3.Const("sempty", S)

_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])


def reset_fresh():
    _fresh[0] = 0


def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


def fresh_str(p="s"):
    return z3.Const(fresh_name(p), S)


def fresh_dict(p="d"):
    return z3.Const(fresh_name(p), D)


def fresh_buf(p="buf"):
    return z3.Const(fresh_name(p), BUF)


def s_lit(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    t = s_empty
    for c in b:
        t = _f_app(t, bv(c, 8))
    return t


def conc(*xs):
    """concrete mode: strings are Python bytes"""
    return all(isinstance(x, (bytes, bytearray, int)) for x in xs)


def term(x):
    return s_lit(x) if isinstance(x, (bytes, str)) else x


def s_app(s, c):
    if isinstance(s, bytes):
        if isinstance(c, int):
            return s + bytes([c & 255])
        s = s_lit(s)
    return _f_app(s, bv(c, 8))


def head(t):
    return t.decl().name()


def s_cat(a, b):
    """normal form: right operand is folded in character by character as far as its structure is known"""
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    a, b = term(a), term(b)
    if b.eq(s_empty):
        return a
    if a.eq(s_empty):
        return b
    h = head(b)
    if h == "sapp":
        return s_app(s_cat(a, b.arg(0)), b.arg(1))
    if h == "scat":
        return s_cat(s_cat(a, b.arg(0)), b.arg(1))
    return _f_cat(a, b)


def s_isconst(t):
    """python bytes of a fully literal term, else None"""
    if isinstance(t, bytes):
        return t
    out = []
    while True:
        if t.eq(s_empty):
            return bytes(reversed(out))
        if head(t) != "sapp":
            return None
        c = t.arg(1)
        if not isinstance(c, z3.BitVecNumRef):
            c = norm(z3.simplify(c))
            if not isinstance(c, int):
                return None
            out.append(c)
        else:
            out.append(c.as_long())
        t = t.arg(0)


def s_len(t):
    if isinstance(t, bytes):
        return len(t)
    n = 0
    while True:
        if t.eq(s_empty):
            return n
        h = head(t)
        if h == "sapp":
            n += 1
            t = t.arg(0)
            continue
        if h == "scat":
            r = add(s_len(t.arg(0)), s_len(t.arg(1)))
        elif h == "smk":
            r = norm(t.arg(2))
        elif h == "ssub":
            r = norm(t.arg(2))
        elif h == "sset":
            r = s_len(t.arg(0))
        elif h == "if":
            r = z3.If(t.arg(0), b64(s_len(t.arg(1))), b64(s_len(t.arg(2))))
        else:
            r = _f_len(t)
        return add(r, n) if n else r


def s_at(t, i):
    if isinstance(t, bytes):
        if isinstance(i, int):
            return t[i] if i < len(t) else 0
        t = s_lit(t)
    if t.eq(s_empty):
        return _f_at(t, b64(i))
    h = head(t)
    if h == "sapp":
        c = eq(i, s_len(t.arg(0)))
        if c is True:
            return norm(t.arg(1))
        if c is False:
            return s_at(t.arg(0), i)
        return z3.If(c, t.arg(1), bv(s_at(t.arg(0), i), 8))
    if h == "scat":
        l0 = s_len(t.arg(0))
        return If(ult(i, l0), s_at(t.arg(0), i), s_at(t.arg(1), sub(i, l0)), 8)
    if h == "smk":
        return z3.Select(t.arg(0), b64(add(norm(t.arg(1)), i)))
    if h == "ssub":
        return s_at(t.arg(0), add(norm(t.arg(1)), i))
    if h == "sset":
        return If(eq(i, norm(t.arg(1))), norm(t.arg(2)), s_at(t.arg(0), i), 8)
    if h == "if":
        return If(t.arg(0), s_at(t.arg(1), i), s_at(t.arg(2), i), 8)
    return _f_at(t, b64(i))


def s_sub(t, p, n):
    """substring; requires p+n <= len(t)"""
    if isinstance(t, bytes) and isinstance(p, int) and isinstance(n, int):
        return t[p:p + n]
    t = term(t)
    if isinstance(n, int) and n == 0:
        return s_empty
    c = s_isconst(t)
    if c is not None and isinstance(p, int) and isinstance(n, int):
        return s_lit(c[p:p + n])
    if isinstance(p, int) and p == 0 and (eq(n, s_len(t)) is True):
        return t
    h = head(t)
    if isinstance(p, int) and p == 0 and h in ("sapp", "scat"):
        q = t
        while head(q) in ("sapp", "scat"):
            q = q.arg(0)
            if eq(n, s_len(q)) is True:
                return q
    if h == "smk":
        return s_mk(t.arg(0), add(norm(t.arg(1)), p), n)
    if h == "ssub":
        return s_sub(t.arg(0), add(norm(t.arg(1)), p), n)
    if isinstance(n, int) and n <= 8:
        r = s_empty
        for k in range(n):
            r = s_app(r, s_at(t, add(p, k)))
        return r
    return _f_sub(t, b64(p), b64(n))


def s_mk(arr, off, n):
    if isinstance(n, int) and n <= 64:
        r = s_empty
        for k in range(n):
            r = s_app(r, simp(z3.Select(arr, b64(add(off, k)))))
        return r
    return _f_mk(arr, b64(off), b64(n))


def s_set(t, i, c):
    if isinstance(t, bytes):
        return t[:i] + bytes([c]) + t[i + 1:]
    if head(t) == "sapp":
        e = eq(i, s_len(t.arg(0)))
        if e is True:
            return s_app(t.arg(0), c)
        if e is False:
            return s_app(s_set(t.arg(0), i, c), t.arg(1))
    return _f_set(t, b64(i), bv(c, 8))


def s_eq(a, b):
    """equality of strings -> bool / z3 Bool (decomposed as far as the structure allows; injectivity of append)"""
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    a, b = term(a), term(b)
    if a.eq(b):
        return True
    ca, cb = s_isconst(a), s_isconst(b)
    if ca is not None and cb is not None:
        return ca == cb
    la, lb = s_len(a), s_len(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    if head(a) == "sapp" and head(b) == "sapp":
        return And(eq(norm(a.arg(1)), norm(b.arg(1)), 8), s_eq(a.arg(0), b.arg(0)))
    for x, y, lx in ((a, cb, la), (b, ca, lb)):
        if y is not None and len(y) <= 40:
            # x == literal y, character by character
            le = eq(lx, len(y))
            if le is False:
                return False
            return And(le, *[eq(s_at(x, k), y[k], 8) for k in range(len(y))])
    return norm(a == b)


NPOS = (1 << 64) - 1


def s_findc(t, c, pos):
    """index of the first c at or after pos, or NPOS"""
    if isinstance(t, bytes):
        i = t.find(bytes([c]), pos)
        return NPOS if i < 0 else i
    return uf("sfindc", S, BV(8), BV(64), BV(64))(t, bv(c, 8), b64(pos))


def s_find(t, n, pos):
    if isinstance(t, bytes):
        i = t.find(n, pos)
        return NPOS if i < 0 else i
    return uf("sfind", S, S, BV(64), BV(64))(t, term(n), b64(pos))


def s_lexok(t, w):
    """does boost::lexical_cast to a signed/unsigned integer of |w| bits succeed (w < 0: signed)"""
    if isinstance(t, bytes):
        return _lex(t, w) is not None
    return uf("lexok%d" % w, S, z3.BoolSort())(t)


def s_lexval(t, w):
    if isinstance(t, bytes):
        return _lex(t, w) & ((1 << abs(w)) - 1)
    return uf("lexval%d" % w, S, BV(abs(w)))(t)


def _lex(t, w):
    d = t[1:] if t[:1] in (b"+", b"-") else t
    if not d or not all(48 <= c <= 57 for c in d):
        return None
    v = int(d)
    if t[:1] == b"-":
        v = -v
    if w < 0:
        return v if -(1 << (-w - 1)) <= v < 1 << (-w - 1) else None
    if v >= 1 << w or -v >= 1 << w:
        return None
    return v & ((1 << w) - 1)


# case-insensitive comparison, opaque otherwise
_f_ieq = z3.Function("ieq", S, S, z3.BoolSort())


def s_ieq(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a.lower() == b.lower()
    a, b = term(a), term(b)
    if a.eq(b):
        return True
    ca, cb = s_isconst(a), s_isconst(b)
    if ca is not None and cb is not None:
        return ca.lower() == cb.lower()
    for x, y in ((a, cb), (b, ca)):
        if y is not None and len(y) <= 24 and isinstance(s_len(x), int):
            le = eq(s_len(x), len(y))
            if le is False:
                return False
            parts = [le]
            for k in range(len(y)):
                ch = s_at(x, k)
                lo, up = ord(chr(y[k]).lower()), ord(chr(y[k]).upper())
                parts.append(Or(eq(ch, lo, 8), eq(ch, up, 8)) if y[k] < 128 else eq(ch, y[k], 8))
            return And(*parts)
    if str(a) > str(b):
        a, b = b, a
    return Or(a == b, _f_ieq(a, b))


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(k)
    if f is None:
        f = _ufs[k] = z3.Function(name, *sorts)
    return f


def s_uf(name, *args):
    """opaque spec function with a string result"""
    sorts = [a.sort() for a in args] + [S]
    return uf(name, *sorts)(*args)


# ------------------------------------------------------------------ dictionaries (multimap string -> string)
_f_dins = z3.Function("dins", D, S, S, D)
_f_derase = z3.Function("derase", D, S, D)
d_empty = z3.Const("dempty", D)
_f_dsize = z3.Function("dsize", D, BV(64))
_f_dkey = z3.Function("dkey", D, BV(64), S)
_f_dval = z3.Function("dval", D, BV(64), S)
_f_dfind = z3.Function("dfind", D, S, BV(64))


def d_size(d):
    """number of entries; entries are numbered in iteration order"""
    if isinstance(d, tuple):
        return len(d)
    return 0 if d.eq(d_empty) else _f_dsize(d)


def d_key(d, i):
    return d[i][0] if isinstance(d, tuple) else _f_dkey(d, b64(i))


def d_val(d, i):
    return d[i][1] if isinstance(d, tuple) else _f_dval(d, b64(i))


def d_find(d, k):
    """number of the entry a lookup of k gives; d_size(d) when there is none"""
    if isinstance(d, tuple):
        return next((i for i, e in enumerate(d) if e[0].lower() == k.lower()), len(d))
    k = term(k)
    if d.eq(d_empty):
        return 0
    if d.decl().name() == "derase" and s_ieq(d.arg(1), k) is True:
        return _f_dsize(d)
    return _f_dfind(d, k)


def d_has(d, k):
    return Not(eq(d_find(d, k), d_size(d)))


def d_get(d, k):
    return d_val(d, d_find(d, k))


def d_facts(d, k):
    """what a lookup guarantees"""
    if isinstance(d, tuple):
        return True
    i, n = d_find(d, k), d_size(d)
    return Or(eq(i, n), And(ult(i, n), s_ieq(d_key(d, i), k)))


def d_ins(d, k, v):
    if isinstance(d, tuple):
        return d + ((k, v),)
    k, v = term(k), term(v)
    return _f_dins(d, k, v)


def d_erase(d, k):
    if isinstance(d, tuple):
        return tuple(x for x in d if x[0].lower() != k.lower())
    k = term(k)
    if d.eq(d_empty):
        return d
    return _f_derase(d, k)


# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


STATS = Stats()
TIMEOUT = 20000
DUMP = None       # optional list collecting (hyps, goal) of discharged obligations for the cross-check


def base_axioms(exprs):
    """length bounds for every string symbol/opaque string term occurring in the query; slen/sat of those only"""
    out = []
    seen = set()
    stack = list(exprs)
    lens = []
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().name() == "slen":
                lens.append(e)
            stack.extend(e.children())
    for e in lens:
        out.append(z3.ULT(e, bv(MAXLEN, 64)))
        a = e.arg(0)
        # injectivity of length on the empty string
        out.append((e == bv(0, 64)) == (a == s_empty))
    return out


class Inc:
    """one incremental solver whose assertion stack follows the path condition"""

    def __init__(self):
        self.s = z3.Solver()
        self.stack = []      # asserted constraints, one scope each
        self.lens = []       # per scope: ids of slen terms covered
        self.known = {}

    def axioms(self, c, new):
        out = []
        for e in slens(c):
            i = e.get_id()
            if i in self.known:
                continue
            self.known[i] = e
            new.append(i)
            out.append(z3.ULT(e, bv(MAXLEN, 64)))
            out.append((e == bv(0, 64)) == (e.arg(0) == s_empty))
        return out

    def goto(self, cs):
        k = 0
        st = self.stack
        n = min(len(st), len(cs))
        while k < n and st[k].eq(cs[k]):
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            for l in self.lens[k:]:
                for i in l:
                    del self.known[i]
            del st[k:]
            del self.lens[k:]
        for c in cs[k:]:
            self.s.push()
            new = []
            self.s.add(c)
            for a in self.axioms(c, new):
                self.s.add(a)
            st.append(c)
            self.lens.append(new)


_slmemo = {}


def slens(c):
    i = c.get_id()
    r = _slmemo.get(i)
    if r is not None and r[0].eq(c):
        return r[1]
    out, seen, stack = [], set(), [c]
    while stack:
        e = stack.pop()
        j = e.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(e):
            if e.decl().name() == "slen":
                out.append(e)
            stack.extend(e.children())
    if len(_slmemo) > 100000:
        _slmemo.clear()
    _slmemo[i] = (c, out)
    return out


INC = [None, 0]
INC_TIMEOUT = 800


def check_inc(cs, model):
    if INC[0] is None or INC[1] > 3000:
        INC[0] = Inc()
        INC[1] = 0
    INC[1] += 1
    inc = INC[0]
    inc.goto(cs[:-1])
    inc.s.set("timeout", INC_TIMEOUT)
    inc.s.push()
    new = []
    inc.s.add(cs[-1])
    for a in inc.axioms(cs[-1], new):
        inc.s.add(a)
    r = str(inc.s.check())
    m = inc.s.model() if r == "sat" and model else None
    inc.s.pop()
    for i in new:
        del inc.known[i]
    return r, m


class Lia:
    """bit-vector constraints as linear integer arithmetic: sums wrap explicitly, everything else is an arbitrary value of its
    width (an abstraction: unsat carries over)"""

    def __init__(self):
        self.memo = {}
        self.cells = {}
        self.side = []
        self.n = 0

    def fresh(self, w, why="v"):
        self.n += 1
        x = z3.Int("%s!%d" % (why, self.n))
        if w is not None:
            self.side += [x >= 0, x < (1 << w)]
        return x

    def norm(self, e, w):
        """the value modulo 2^w"""
        k = self.fresh(None, "k")
        self.side += [e - k * (1 << w) >= 0, e - k * (1 << w) < (1 << w)]
        return e - k * (1 << w)

    def term(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = (e, self._term(e))
        return r[1]

    def _term(self, e):
        w = e.size()
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_BNUM:
            return z3.IntVal(e.as_long())
        if k == z3.Z3_OP_BADD:
            return self.norm(z3.Sum([self.factor(c) for c in ch]), w)
        if k == z3.Z3_OP_BSUB:
            return self.norm(self.term(ch[0]) - z3.Sum([self.term(c) for c in ch[1:]]), w)
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
            return self.norm(self.factor(e), w)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.term(ch[0])
        if k == z3.Z3_OP_CONCAT:
            at, parts = w, []
            for c in ch:
                at -= c.size()
                if not (z3.is_bv_value(c) and c.as_long() == 0):
                    parts.append(self.term(c) * (1 << at) if at else self.term(c))
            return parts[0] if len(parts) == 1 else z3.Sum(parts) if parts else z3.IntVal(0)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = self.term(ch[0])
            q, m = self.fresh(ch[0].size() - lo), self.fresh(lo)
            self.side.append(x == q * (1 << lo) + m)
            if hi == ch[0].size() - 1:
                return q
            return self.norm(q, w)
        if k == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.term(ch[1]), self.term(ch[2]))
        r = self.fresh(w)
        if k == z3.Z3_OP_SELECT and z3.is_bv(ch[1]):        # equal places hold equal values
            x = self.term(ch[1])
            for y, q in self.cells.setdefault(ch[0].get_id(), []):
                self.side.append(z3.Or(x != y, q == r))
            self.cells[ch[0].get_id()].append((x, r))
        return r

    def factor(self, e):
        ch = e.children()
        if e.decl().kind() == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
            c = ch[0].as_signed_long()
            return c * self.term(ch[1])
        return self.term(e)

    def form(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = (e, self._form(e))
        return r[1]

    def _form(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if k == z3.Z3_OP_AND:
            return z3.And([self.form(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.form(ch[0]) == self.form(ch[1])
        if ch and z3.is_bv(ch[0]) and len(ch) == 2:
            ops = {z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b,
                   z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
            if k in ops:
                return ops[k](self.term(ch[0]), self.term(ch[1]))
            ops = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SGT: lambda a, b: a > b}
            if k in ops:
                h = 1 << ch[0].size() - 1
                return ops[k](*[z3.If(x >= h, x - 2 * h, x) for x in (self.term(ch[0]), self.term(ch[1]))])
        self.n += 1
        return z3.Bool("b!%d" % self.n)


def check_lia(cs, ms=6000):
    """is the last constraint refuted by linear arithmetic alone?"""
    l = Lia()
    fs = [l.form(c) for c in {c.get_id(): c for c in cs}.values()]
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", ms)
    s.add(l.side)
    s.add(fs)
    return s.check() == z3.unsat


def check(constraints, timeout=None, model=False):
    """-> 'sat' | 'unsat' | 'unknown' (and the model)"""
    cs = []
    for c in constraints:
        if c is True:
            continue
        if c is False:
            return ("unsat", None) if model else "unsat"
        cs.append(c)
    t0 = time.time()
    r = "unknown"
    m = None
    if cs:
        r, m = check_inc(cs, model)
    if r == "unknown" and len(cs) > 1 and check_lia(cs):
        r = "unsat"
    if r == "unknown":
        s = z3.Solver()
        s.set("timeout", timeout or TIMEOUT)
        s.add(cs)
        ax = base_axioms(cs)
        if ax:
            s.add(ax)
        r = str(s.check())
        m = s.model() if r == "sat" and model else None
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == "unknown":
        STATS.unknown += 1
    if model:
        return r, m
    return r
