"""Assumed contracts of the dependencies (libc, libstdc++, boost): the trusted base of every proof.

A contract is a Python function over the symbolic state; it is used in place of the callee's body.
"""
import re
import z3
from core import *
from vm import *


REG = []      # (compiled regex, handler)
DESCR = {}


def contract(*pats):
    def deco(f):
        for p in pats:
            REG.append((re.compile(p), f))
        return f
    return deco


def make_lookup(extra=None, exclude=None):
    """extra: list of (regex, handler) consulted first (contracts of functions of the repository)"""
    ex = [(re.compile(p), h) for p, h in (extra or [])]

    def look(dem, name):
        for r, h in ex:
            if r.search(dem) or r.search(name):
                return h
        if exclude and exclude(dem):
            return None
        for r, h in REG:
            if r.search(dem):
                return h
        return None
    return look


def key(p):
    if isinstance(p, PInt):
        p = p.p
    if not isinstance(p, Ptr) or p.r is None:
        raise Unsupported("object operation on %r" % (p,))
    return p.key()


GLOBSTR = {}


def init_globals(prog):
    """std::string constants at namespace or class scope: the text their (dynamic) initialiser gives them"""
    GLOBSTR.clear()
    from irparse import materialize
    for m in prog.mods:
        for n, f in list(m.funcs.items()):
            if not n.startswith("__cxx_global_var_init"):
                continue
            try:
                f = materialize(f, m)
            except Exception:
                continue
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op != "call" or not isinstance(i.a[0], tuple) or i.a[0][0] != "g":
                        continue
                    d = prog.dem.get(prog.resolve(i.a[0][1]), "")
                    if not re.match(r"^string::basic_string(<.*>)?\(", d):
                        continue
                    args = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x for x in i.a[1]]
                    tgt = args[0]
                    if not (isinstance(tgt, tuple) and tgt[0] == "g"):
                        continue
                    if len(args) >= 2 and args[1][0] == "g":
                        g = prog.gl.get(args[1][1])
                        if g and g[0][2] is not None and g[0][2][0] in ("str", "zero"):
                            txt = g[0][2][1] if g[0][2][0] == "str" else b"\0"
                            GLOBSTR[("gl:" + tgt[1], 0)] = ("str", s_lit(txt.split(b"\0")[0]))


def gets(st, p):
    o = st.objs.get(key(p)) or GLOBSTR.get(key(p))
    if o is None or o[0] != "str":
        raise Unsupported("use of a string that was not constructed at %s" % (key(p),))
    return o[1]


def sets(st, p, t):
    k = key(p)
    if k[0][:3] in ("dn:", "dr:"):
        d_write(st, p, k, t)
    st.objs[k] = ("str", t)


def d_write(st, p, k, t):
    """assignment to the value of a dictionary entry through an iterator"""
    m = p.r.meta
    if k[1] != 32 or not m or m[0] != "entry":
        raise Unsupported("change of a dictionary entry")
    dk, d0, kk, o = m[1:]
    if not st.objs[dk][1].eq(d0):
        raise Unsupported("change of an entry of a dictionary changed before")
    if not (isinstance(o, int) and o == 0):
        raise Unsupported("change of another entry than the first of its name")
    new = d_set1(d0, kk, t)
    st.ghost["set1:%s+%d" % dk] = new
    st.assume(eq(d_rm(new, kk, 1, 1), new))
    st.objs[dk] = ("dict", d_rm(new, kk, 1, 1))


def d_set1(d, k, t):
    """the first entry for a key gets another value"""
    return uf("dset1", D, S, S, D)(d, term(k), term(t))


def d_rm(d, k, a, b):
    """the entries number a to b-1 for a key are gone"""
    return uf("drm", D, S, BV(64), BV(64), D)(d, term(k), b64(a), b64(b))


def d_gone(st, dk, it):
    """the possible dictionaries in which exactly entries before an iterator of a range are gone"""
    k, d0 = it.r.meta[3:5]
    out = [d_rm(d0, k, 0, it.o)]
    x = st.ghost.get("set1:%s+%d" % dk)
    if x is not None:
        out.append(d_rm(x, k, 1, it.o))
    return out


def d_alive(vm, st, it):
    """the entry an iterator stands at has not been erased"""
    dk, k, d0 = it.r.meta[:2], it.r.meta[3], it.r.meta[4]
    d = st.objs[dk][1]
    x = st.ghost.get("set1:%s+%d" % dk)
    if d.eq(d0) or x is not None and d.eq(d_rm(x, k, 1, 1)):
        return
    vm.oblige(st, Or(eq(d, d0), *[eq(d, g) for g in d_gone(st, dk, it)], *([eq(d, x)] if x is not None else [])), "iterator-still-valid", "safety")


def sdptr(st, p, off=0):
    k = key(p)
    rid = "sd:%s+%d" % k
    r = st.regions.get(rid)
    if r is None:
        r = Region(rid, "sd", None, k)
        st.regions[rid] = r
    return Ptr(r, off)


def explore(vm, st, fn):
    """run fn(D, state) for every outcome of its decisions; -> [(state, result)]"""
    out = []
    work = [(st, [])]
    while work:
        s, dec = work.pop()
        cur = [s]
        i = [0]

        def Dd(c):
            c = simp(tobool(c))
            if isinstance(c, (bool, int)):
                return bool(c)
            if i[0] < len(dec):
                i[0] += 1
                return dec[i[0] - 1]
            outs = vm.branch(cur[0], c)
            if not outs:
                raise PathEnd()
            if len(outs) == 2:
                (s1, v1), (s2, v2) = outs
                cur[0] = s1
                work.append((s2, dec + [v2]))
                dec.append(v1)
                i[0] += 1
                return v1
            (s1, v1), = outs
            cur[0] = s1
            dec.append(v1)
            i[0] += 1
            return v1
        Dd.assume = lambda c: cur[0].assume(c)
        try:
            r = fn(Dd, s)
        except PathEnd:
            continue
        out.append((cur[0], r))
    return out


def byte_at(vm, st, p, k):
    return vm.load(st, Ptr(p.r, add2(p.o, k)), IntTy(8), vm.p.mods[0])


def cstring(vm, st, p, maxn=256):
    """NUL-terminated string at p -> [(state, term)]"""
    if not isinstance(p, Ptr) or p.r is None:
        vm.oblige(st, False, "null-C-string", "safety")
        raise PathEnd()
    if p.r.kind == "sd":
        t = st.objs[p.r.meta][1]
        c = s_isconst(t)
        if c is not None and isinstance(p.o, int) and 0 not in c:
            return [(st, s_lit(c[p.o:]))]
        if isinstance(p.o, int) and p.o == 0:
            return [(st, s_cstr(t))]
        raise Unsupported("C string in the middle of a string")
    if p.r.kind == "buf":
        raise Unsupported("C string in a raw buffer")
    if p.r.kind == "obj" and isinstance(p.o, int):
        c = st.mem.get(p.r.id, {}).get(p.o)
        if c is not None and isinstance(c[1], Ptr) and c[1].r is not None and c[1].r.kind == "ctext":
            return [(st, c[1].r.meta)]
    outs = []

    def f(Dd, s):
        t = s_empty
        for k in range(maxn):
            c = byte_at(vm, s, p, k)
            if Dd(eq(c, 0, 8)):
                return t
            t = s_app(t, c)
        raise Unsupported("long C string")
    return explore(vm, st, f)


def s_cstr(t):
    """the prefix of t before its first NUL (t itself when it has none)"""
    c = s_isconst(t)
    if c is not None:
        return s_lit(c.split(b"\0")[0])
    return s_uf("cstr", t)


def rng(vm, st, a, b):
    """string made of the bytes [a, b)"""
    if isinstance(a, PInt):
        a = a.p
    if isinstance(b, PInt):
        b = b.p
    if a.r is None and b.r is None:
        return s_empty
    if a.r is None or b.r is None or a.r.id != b.r.id:
        raise Unsupported("range over two objects")
    n = sub(b.o, a.o)
    return raw(vm, st, a, n)


def raw(vm, st, p, n):
    """string made of n bytes at p (obligation: they are readable, and n is a possible length)"""
    if isinstance(n, int) and n == 0:
        return s_empty
    if not isinstance(n, int) or n >= MAXLEN:
        vm.oblige(st, ult(n, MAXLEN), "length-in-range", "safety")
    if isinstance(p, PInt):
        p = p.p
    r = p.r
    if r is None:
        vm.oblige(st, eq(n, 0), "null-range", "safety")
        return s_empty
    if r.id in st.freed:
        vm.oblige(st, False, "use-after-free:range", "safety")
        raise PathEnd()
    if r.kind == "sd":
        t = st.objs[r.meta][1]
        size = s_len(t)
        vm.oblige(st, And(ule(p.o, add(p.o, n)), ule(add(p.o, n), size)), "in-bounds:range", "safety")
        return s_sub(t, p.o, n)
    if r.kind == "log":
        t = st.objs[r.meta][1]
        vm.oblige(st, And(ule(p.o, add(p.o, n)), ule(add(p.o, n), s_len(t))), "in-bounds:range", "safety")
        return s_sub(t, p.o, n)
    if r.kind == "buf":
        size = r.size
        vm.oblige(st, And(ule(p.o, add(p.o, n)), ule(add(p.o, n), size)), "in-bounds:range", "safety")
        return s_mk(st.bufs[r.id], p.o, n)
    if isinstance(n, int) and n <= 4096:
        t = s_empty
        for k in range(n):
            t = s_app(t, byte_at(vm, st, p, k))
        return t
    raise Unsupported("symbolic range over %s" % r.kind)


def lenof(t):
    return s_len(t)


def check_fits(vm, st, t):
    pass


# ------------------------------------------------------------------ std::string
def sub_checked(vm, st, t, pos, n):
    """substr with clamping -> (state list) [(state, term | Throw)]"""
    L = s_len(t)

    def f(D, s):
        if D(ult(L, pos)):
            return Throw("_ZTISt12out_of_range")
        rest = sub(L, pos)
        if D(ule(rest, n)):
            return s_sub(t, pos, rest)
        return s_sub(t, pos, n)
    return explore(vm, st, f)


A = r"(, std::allocator<char> const&)?"


@contract(r"^string::basic_string\(\)$", r"^string::basic_string\(std::allocator<char> const&\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_empty)


@contract(r"^string::basic_string\(string const&" + A + r"\)$")
def _(vm, st, a, ins):
    sets(st, a[0], gets(st, a[1]))


@contract(r"^string::basic_string\(string&&" + A + r"\)$")
def _(vm, st, a, ins):
    sets(st, a[0], gets(st, a[1]))
    if key(a[0]) != key(a[1]):
        sets(st, a[1], s_empty)


@contract(r"^string::basic_string(<.*>)?\(char const\*" + A + r"\)$")
def _(vm, st, a, ins):
    outs = cstring(vm, st, a[1])
    for s, t in outs:
        sets(s, a[0], t)
    return Multi([(s, None) for s, t in outs])


@contract(r"^string::basic_string(<.*>)?\(char const\*, unsigned long" + A + r"\)$")
def _(vm, st, a, ins):
    sets(st, a[0], raw(vm, st, a[1], a[2]))


@contract(r"^string::basic_string(<.*>)?\(unsigned long, char" + A + r"\)$")
def _(vm, st, a, ins):
    sets(st, a[0], repeat(a[1], a[2]))


@contract(r"^string::basic_string<(char const\*|char\*|__gnu_cxx::__normal_iterator<char( const)?\*, string>|unsigned char const\*), void>\(")
def _(vm, st, a, ins):
    sets(st, a[0], rng(vm, st, a[1], a[2]))


@contract(r"^string::basic_string\(string const&, unsigned long\)$", r"^string::basic_string\(string const&, unsigned long, unsigned long\)$")
def _(vm, st, a, ins):
    outs = sub_checked(vm, st, gets(st, a[1]), a[2], a[3] if len(a) > 3 else MASK64)
    return fin_str(outs, a[0])


MASK64 = (1 << 64) - 1


def fin_str(outs, dst, ret=None):
    res = []
    for s, t in outs:
        if isinstance(t, Throw):
            res.append((s, t))
        else:
            sets(s, dst, t)
            res.append((s, ret))
    return Multi(res)


def repeat(n, c):
    if isinstance(n, int) and n <= 4096:
        t = s_empty
        for _ in range(n):
            t = s_app(t, c)
        return t
    return uf("srep", BV(64), BV(8), S)(b64(n), bv(c, 8))


@contract(r"^string::~basic_string\(\)$")
def _(vm, st, a, ins):
    st.objs.pop(key(a[0]), None)


@contract(r"^std::allocator<.*>::~?allocator\(", r"^__gnu_cxx::new_allocator<.*>::~?new_allocator\(", r"^std::__new_allocator<.*>::~?__new_allocator\(")
def _(vm, st, a, ins):
    return None


@contract(r"^string::operator=\(string const&\)$", r"^string::assign\(string const&\)$")
def _(vm, st, a, ins):
    sets(st, a[0], gets(st, a[1]))
    return a[0]


@contract(r"^string::operator=\(string&&\)$", r"^string::assign\(string&&\)$")
def _(vm, st, a, ins):
    t = gets(st, a[1])
    if key(a[0]) != key(a[1]):
        sets(st, a[1], s_empty)
    sets(st, a[0], t)
    return a[0]


@contract(r"^string::operator=\(char const\*\)$", r"^string::assign\(char const\*\)$")
def _(vm, st, a, ins):
    return fin_str(cstring(vm, st, a[1]), a[0], a[0])


@contract(r"^string::operator=\(char\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_app(s_empty, a[1]))
    return a[0]


@contract(r"^string::assign\(char const\*, unsigned long\)$")
def _(vm, st, a, ins):
    sets(st, a[0], raw(vm, st, a[1], a[2]))
    return a[0]


@contract(r"^string::assign<.*>\((char const\*, char const\*|__gnu_cxx::__normal_iterator<char( const)?\*, string>, __gnu_cxx::__normal_iterator<char( const)?\*, string>)\)$")
def _(vm, st, a, ins):
    sets(st, a[0], rng(vm, st, a[1], a[2]))
    return a[0]


@contract(r"^string::assign\(unsigned long, char\)$")
def _(vm, st, a, ins):
    sets(st, a[0], repeat(a[1], a[2]))
    return a[0]


@contract(r"^string::assign\(string const&, unsigned long(, unsigned long)?\)$")
def _(vm, st, a, ins):
    outs = sub_checked(vm, st, gets(st, a[1]), a[2], a[3] if len(a) > 3 else MASK64)
    return fin_str(outs, a[0], a[0])


@contract(r"^string::operator\+=\(char\)$", r"^string::push_back\(char\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_app(gets(st, a[0]), a[1]))
    return a[0]


@contract(r"^string::operator\+=\(string const&\)$", r"^string::append\(string const&\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(gets(st, a[0]), gets(st, a[1])))
    return a[0]


@contract(r"^string::operator\+=\(char const\*\)$", r"^string::append\(char const\*\)$")
def _(vm, st, a, ins):
    outs = [(s, s_cat(gets(s, a[0]), t)) for s, t in cstring(vm, st, a[1])]
    return fin_str(outs, a[0], a[0])


@contract(r"^string::append\(char const\*, unsigned long\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(gets(st, a[0]), raw(vm, st, a[1], a[2])))
    return a[0]


@contract(r"^string::append\(unsigned long, char\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(gets(st, a[0]), repeat(a[1], a[2])))
    return a[0]


@contract(r"^string::append<.*>\((char const\*, char const\*|__gnu_cxx::__normal_iterator<char( const)?\*, string>, __gnu_cxx::__normal_iterator<char( const)?\*, string>)\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(gets(st, a[0]), rng(vm, st, a[1], a[2])))
    return a[0]


@contract(r"^string::append\(string const&, unsigned long(, unsigned long)?\)$")
def _(vm, st, a, ins):
    outs = sub_checked(vm, st, gets(st, a[1]), a[2], a[3] if len(a) > 3 else MASK64)
    outs = [(s, t if isinstance(t, Throw) else s_cat(gets(s, a[0]), t)) for s, t in outs]
    return fin_str(outs, a[0], a[0])


@contract(r"^string::clear\(\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_empty)


@contract(r"^string::reserve\(", r"^string::shrink_to_fit\(")
def _(vm, st, a, ins):
    return None


@contract(r"^string::(size|length)\(\) const$")
def _(vm, st, a, ins):
    return s_len(gets(st, a[0]))


@contract(r"^string::(max_size)\(\) const$")
def _(vm, st, a, ins):
    return MAXLEN


@contract(r"^string::empty\(\) const$")
def _(vm, st, a, ins):
    return eq(s_len(gets(st, a[0])), 0)


@contract(r"^string::operator\[\]\(unsigned long\)( const)?$")
def _(vm, st, a, ins):
    vm.oblige(st, ule(a[1], s_len(gets(st, a[0]))), "in-bounds:string-index", "safety")
    return sdptr(st, a[0], a[1])


@contract(r"^string::at\(unsigned long\)( const)?$")
def _(vm, st, a, ins):
    outs = vm.branch(st, ult(a[1], s_len(gets(st, a[0]))))
    return Multi([(s, sdptr(s, a[0], a[1]) if v else Throw("_ZTISt12out_of_range")) for s, v in outs])


@contract(r"^string::(c_str|data)\(\)( const)?$", r"^string::c?begin\(\)( const)?$", r"^string::(front)\(\)( const)?$")
def _(vm, st, a, ins):
    return sdptr(st, a[0], 0)


@contract(r"^string::c?end\(\)( const)?$")
def _(vm, st, a, ins):
    return sdptr(st, a[0], s_len(gets(st, a[0])))


@contract(r"^string::back\(\)( const)?$")
def _(vm, st, a, ins):
    L = s_len(gets(st, a[0]))
    vm.oblige(st, Not(eq(L, 0)), "in-bounds:back", "safety")
    return sdptr(st, a[0], sub(L, 1))


@contract(r"^string::pop_back\(\)$")
def _(vm, st, a, ins):
    t = gets(st, a[0])
    L = s_len(t)
    vm.oblige(st, Not(eq(L, 0)), "in-bounds:pop_back", "safety")
    sets(st, a[0], t.arg(0) if head(t) == "sapp" else s_sub(t, 0, sub(L, 1)))


@contract(r"^string::swap\(string&\)$")
def _(vm, st, a, ins):
    x, y = gets(st, a[0]), gets(st, a[1])
    sets(st, a[0], y)
    sets(st, a[1], x)


@contract(r"^string::substr\(unsigned long, unsigned long\) const$")
def _(vm, st, a, ins):
    # sret, this, pos, n
    return fin_str(sub_checked(vm, st, gets(st, a[1]), a[2], a[3]), a[0])


@contract(r"^string::erase\(unsigned long, unsigned long\)$")
def _(vm, st, a, ins):
    t = gets(st, a[0])
    L = s_len(t)

    def f(D, s):
        if D(ult(L, a[1])):
            return Throw("_ZTISt12out_of_range")
        rest = sub(L, a[1])
        if D(ule(rest, a[2])):
            return s_sub(t, 0, a[1])
        e = add(a[1], a[2])
        return s_cat(s_sub(t, 0, a[1]), s_sub(t, e, sub(L, e)))
    return fin_str(explore(vm, st, f), a[0], a[0])


@contract(r"^string::resize\(unsigned long(, char)?\)$")
def _(vm, st, a, ins):
    t = gets(st, a[0])
    L = s_len(t)
    c = a[2] if len(a) > 2 else 0

    def f(D, s):
        if D(ule(a[1], L)):
            return s_sub(t, 0, a[1])
        return s_cat(t, repeat(sub(a[1], L), c))
    return fin_str(explore(vm, st, f), a[0])


def find_char(vm, st, t, c, pos):
    """first index >= pos holding c, or npos.  Opaque function with its defining facts (no quantifier: index is a
    witness; 'no earlier occurrence' is only available for the character at pos)"""
    i = s_findc(t, c, pos)
    L = s_len(t)
    st.assume(Or(eq(i, MASK64), And(ule(pos, i), ult(i, L), eq(s_at(t, i), c, 8))))
    return i


@contract(r"^string::find(_first_of)?\(char, unsigned long\) const$")
def _(vm, st, a, ins):
    return find_char(vm, st, gets(st, a[0]), a[1], a[2])


@contract(r"^string::rfind\(char, unsigned long\) const$", r"^string::find_last_of\(char, unsigned long\) const$")
def _(vm, st, a, ins):
    t = gets(st, a[0])
    i = uf("srfindc", S, BV(8), BV(64), BV(64))(t, bv(a[1], 8), b64(a[2]))
    L = s_len(t)
    st.assume(Or(eq(i, MASK64), And(ule(i, a[2]), ult(i, L), eq(s_at(t, i), a[1], 8))))
    return i


def find_str(vm, st, t, n, pos):
    i = s_find(t, n, pos)
    L, N = s_len(t), s_len(n)
    st.assume(Or(eq(i, MASK64), And(ule(pos, i), ule(i, L), ule(N, sub(L, i)))))
    return i


@contract(r"^string::find\(string const&, unsigned long\) const$")
def _(vm, st, a, ins):
    return find_str(vm, st, gets(st, a[0]), gets(st, a[1]), a[2])


@contract(r"^string::find\(char const\*, unsigned long\) const$")
def _(vm, st, a, ins):
    outs = cstring(vm, st, a[1])
    return Multi([(s, find_str(vm, s, gets(s, a[0]), t, a[2])) for s, t in outs])


def str_eq(a, b):
    return s_eq(a, b)


@contract(r"^bool std::operator==<.*>\(string const&, string const&\)", r"^std::operator==\(string const&, string const&\)")
def _(vm, st, a, ins):
    return b2i(str_eq(gets(st, a[0]), gets(st, a[1])))


@contract(r"^bool std::operator!=<.*>\(string const&, string const&\)")
def _(vm, st, a, ins):
    return b2i(Not(str_eq(gets(st, a[0]), gets(st, a[1]))))


@contract(r"^bool std::operator==<.*>\(string const&, char const\*\)")
def _(vm, st, a, ins):
    return Multi([(s, b2i(str_eq(gets(s, a[0]), t))) for s, t in cstring(vm, st, a[1])])


@contract(r"^bool std::operator==<.*>\(char const\*, string const&\)")
def _(vm, st, a, ins):
    return Multi([(s, b2i(str_eq(gets(s, a[1]), t))) for s, t in cstring(vm, st, a[0])])


@contract(r"^bool std::operator!=<.*>\(string const&, char const\*\)")
def _(vm, st, a, ins):
    return Multi([(s, b2i(Not(str_eq(gets(s, a[0]), t)))) for s, t in cstring(vm, st, a[1])])


def b2i(c):
    c = simp(tobool(c))
    return int(c) if isinstance(c, (bool, int)) else c


def cmp_result(vm, st, a, b):
    e = str_eq(a, b)
    r = uf("scmp", S, S, BV(32))(a, b)
    st.assume(eq(b2z(e), eq(r, 0)))
    return r


def b2z(c):
    return zbool(c)


@contract(r"^string::compare\(string const&\) const$")
def _(vm, st, a, ins):
    return cmp_result(vm, st, gets(st, a[0]), gets(st, a[1]))


@contract(r"^string::compare\(char const\*\) const$")
def _(vm, st, a, ins):
    return Multi([(s, cmp_result(vm, s, gets(s, a[0]), t)) for s, t in cstring(vm, st, a[1])])


@contract(r"^string::compare\(unsigned long, unsigned long, string const&\) const$")
def _(vm, st, a, ins):
    outs = []
    for s, t in sub_checked(vm, st, gets(st, a[0]), a[1], a[2]):
        outs.append((s, t if isinstance(t, Throw) else cmp_result(vm, s, t, gets(s, a[3]))))
    return Multi(outs)


@contract(r"^string::compare\(unsigned long, unsigned long, char const\*\) const$")
def _(vm, st, a, ins):
    outs = []
    for s, t in sub_checked(vm, st, gets(st, a[0]), a[1], a[2]):
        if isinstance(t, Throw):
            outs.append((s, t))
            continue
        for s2, u in cstring(vm, s, a[3]):
            outs.append((s2, cmp_result(vm, s2, t, u)))
    return Multi(outs)


# operator+
@contract(r"^string std::operator\+<.*>\(string( const)?&&?, string( const)?&&?\)")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(gets(st, a[1]), gets(st, a[2])))


@contract(r"^string std::operator\+<.*>\(string( const)?&&?, char const\*\)")
def _(vm, st, a, ins):
    return fin_str([(s, s_cat(gets(s, a[1]), t)) for s, t in cstring(vm, st, a[2])], a[0])


@contract(r"^string std::operator\+<.*>\(char const\*, string( const)?&&?\)")
def _(vm, st, a, ins):
    return fin_str([(s, s_cat(t, gets(s, a[2]))) for s, t in cstring(vm, st, a[1])], a[0])


@contract(r"^string std::operator\+<.*>\(string( const)?&&?, char\)")
def _(vm, st, a, ins):
    sets(st, a[0], s_app(gets(st, a[1]), a[2]))


@contract(r"^string std::operator\+<.*>\(char, string( const)?&&?\)")
def _(vm, st, a, ins):
    sets(st, a[0], s_cat(s_app(s_empty, a[1]), gets(st, a[2])))


# ------------------------------------------------------------------ libc
def between(c, lo, hi, w=32):
    return And(ule(lo, c, w), ule(c, hi, w))


def ctype(pred):
    def h(vm, st, a, ins):
        c = a[0]
        vm.oblige(st, Or(ule(c, 255, 32), eq(c, 0xffffffff, 32)), "ctype-argument-range", "safety")
        r = simp(tobool(pred(c)))
        if isinstance(r, (bool, int)):
            return int(r)
        k = fresh_bv("ctype", 32)
        st.assume(k != 0)
        return z3.If(r, k, bv(0, 32))
    return h


def rng32(*ps):
    return lambda c: Or(*[between(c, ord(x), ord(y)) for x, y in ps])


for nm, f in {"isxdigit": rng32("09", "af", "AF"), "isdigit": rng32("09"), "isalpha": rng32("az", "AZ"),
              "isalnum": rng32("az", "AZ", "09"), "isupper": rng32("AZ"), "islower": rng32("az"),
              "isspace": lambda c: Or(eq(c, 32, 32), between(c, 9, 13))}.items():
    REG.append((re.compile("^%s$" % nm), ctype(f)))


@contract(r"^tolower$")
def _(vm, st, a, ins):
    c = a[0]
    vm.oblige(st, Or(ule(c, 255, 32), eq(c, 0xffffffff, 32)), "ctype-argument-range", "safety")
    if isinstance(c, int):
        return ord(chr(c).lower()) if 65 <= c <= 90 else c
    return simp(z3.If(zbool(between(c, 65, 90)), c + 32, c))


@contract(r"^toupper$")
def _(vm, st, a, ins):
    c = a[0]
    vm.oblige(st, Or(ule(c, 255, 32), eq(c, 0xffffffff, 32)), "ctype-argument-range", "safety")
    if isinstance(c, int):
        return c - 32 if 97 <= c <= 122 else c
    return simp(z3.If(zbool(between(c, 97, 122)), c - 32, c))


def all_hex(t):
    """nothing but hexadecimal digits"""
    if isinstance(t, bytes):
        return all(c in b"0123456789abcdefABCDEF" for c in t)
    r = True
    while head(t) == "sapp":
        c = norm(t.arg(1))
        r = And(r, Or(inrange(c, 48, 57), inrange(c, 65, 70), inrange(c, 97, 102)))
        t = t.arg(0)
    if t.eq(s_empty):
        return r
    return And(r, uf("allhex", S, z3.BoolSort())(t))


def strtol_fact(t):
    """at most 15 hexadecimal digits make a number below 2^60"""
    return Or(Not(And(all_hex(t), ule(s_len(t), 15))), ult(uf("strtol16", S, BV(64))(t), 1 << 60))


def hexval(D, c):
    """value of hex digit c (8-bit) or None"""
    if not D(Or(inrange(c, 48, 57), inrange(c, 65, 70), inrange(c, 97, 102))):
        return None
    return simp(If(ule(c, 57, 8), sub(c, 48, 8), If(ule(c, 70, 8), sub(c, 55, 8), sub(c, 87, 8), 8), 8))


@contract(r"^strtol$", r"^strtoul$", r"^__isoc23_strtol$", r"^__isoc23_strtoul$", r"^strtoll$", r"^strtoull$")
def _(vm, st, a, ins):
    p, endp, base = a
    if not isinstance(base, int) or base != 16:
        raise Unsupported("strtol base")
    if p.r is not None and p.r.kind == "sd":
        t = st.objs[p.r.meta][1]
        if endp.r is not None or p.o != 0:
            raise Unsupported("strtol end pointer")
        st.assume(strtol_fact(t))
        return uf("strtol16", S, BV(64))(t)
    if endp.r is not None:
        raise Unsupported("strtol end pointer")

    def f(D, s):
        k = 0

        def at(i):
            return byte_at(vm, s, p, i)
        while D(Or(eq(at(k), 32, 8), And(ule(9, at(k), 8), ule(at(k), 13, 8)))):
            k += 1
        neg = False
        if D(eq(at(k), ord("-"), 8)):
            neg = True
            k += 1
        elif D(eq(at(k), ord("+"), 8)):
            k += 1
        if D(eq(at(k), 48, 8)) and D(Or(eq(at(k + 1), ord("x"), 8), eq(at(k + 1), ord("X"), 8))):
            if hexval(D, at(k + 2)) is not None:
                k += 2
        v = 0
        n = 0
        while n < 15:
            h = hexval(D, at(k))
            if h is None:
                break
            h64 = h if isinstance(h, int) else z3.ZeroExt(56, h)
            v = simp(bv(v, 64) * bv(16, 64) + bv(h64, 64))
            k += 1
            n += 1
        else:
            raise Unsupported("long number")
        if neg:
            v = simp(-bv(v, 64))
        return v
    return Multi(explore(vm, st, f))


def hexdigit(n, upper=True):
    """n: 4-bit value as BV8"""
    base = 55 if upper else 87
    if isinstance(n, int):
        return n + 48 if n < 10 else n + base
    return simp(z3.If(z3.ULT(n, bv(10, 8)), n + bv(48, 8), n + bv(base, 8)))


@contract(r"^sprintf$", r"^snprintf$")
def _(vm, st, a, ins):
    sn = "snprintf" in ins.a[0][1]
    dst = a[0]
    fmt = a[2] if sn else a[1]
    va = a[3:] if sn else a[2:]
    outs = cstring(vm, st, fmt)
    (st2, ft), = outs
    f = s_isconst(ft)
    if f is None:
        raise Unsupported("non-literal format")
    text = []
    i = 0
    f = f.decode("latin-1")
    vi = 0
    while i < len(f):
        if f[i] != "%":
            text.append(ord(f[i]))
            i += 1
            continue
        m = re.match(r"%(0?)(?:\.?)(\d*)(h{0,2}|l{0,2}|z?)([xXucdsi%])", f[i:])
        if not m:
            raise Unsupported("format " + f)
        i += m.end()
        if m.group(4) == "%":
            text.append(37)
            continue
        v = va[vi]
        vi += 1
        if m.group(4) in "xX":
            prec = int(m.group(2) or 0)
            w = 32
            if isinstance(v, int):
                text.extend(ord(ch) for ch in ("%0*x" if m.group(4) == "x" else "%0*X") % (prec, v))
                continue
            if prec != 2 or not vm.entails(st, ule(v, 255, v.size())):
                raise Unsupported("hex format of a wide value")
            v8 = z3.Extract(7, 0, v)
            text.append(hexdigit(simp(z3.LShR(v8, bv(4, 8))), m.group(4) == "X"))
            text.append(hexdigit(simp(v8 & bv(15, 8)), m.group(4) == "X"))
        elif m.group(4) == "c":
            text.append(v & 255 if isinstance(v, int) else simp(z3.Extract(7, 0, v)))
        else:
            raise Unsupported("format " + f)
    if sn:
        cap = a[1]
        if not isinstance(cap, int):
            raise Unsupported("snprintf size")
        shown = text[:max(cap - 1, 0)]
    else:
        shown = text
        cap = 1 << 30
    if cap > 0:
        for k, c in enumerate(shown + [0]):
            vm.store(st, Ptr(dst.r, add2(dst.o, k)), c, IntTy(8), vm.p.mods[0])
    return len(text)


@contract(r"^strlen$")
def _(vm, st, a, ins):
    return Multi([(s, s_len(t)) for s, t in cstring(vm, st, a[0])])


@contract(r"^llvm\.memcpy\.", r"^llvm\.memmove\.", r"^memcpy$", r"^memmove$")
def _(vm, st, a, ins):
    copy_bytes(vm, st, a[0], a[1], a[2])
    return a[0]


def copy_bytes(vm, st, d, s, n):
    if isinstance(n, int) and n == 0:
        return
    if not isinstance(n, int):
        # whole symbolic range
        vm.bounds(st, s, n, "copy-source") if s.r is not None else vm.oblige(st, eq(n, 0), "null-copy", "safety")
        if s.r is None:
            return
        vm.bounds(st, d, n, "copy-destination")
        if d.r.kind == "log":
            vm.log_write(st, d, None, raw(vm, st, s, n))
            return
        if d.r.kind == "buf":
            src = raw(vm, st, s, n)
            st.bufs[d.r.id] = uf("bcopy", BUF, BV(64), S, BUF)(st.bufs[d.r.id], b64(d.o), src)
            return
        raise Unsupported("symbolic memcpy into an object")
    vm.bounds(st, s, n, "copy-source")
    vm.bounds(st, d, n, "copy-destination")
    if s.r.kind in ("obj", "glob") and d.r.kind == "obj" and isinstance(s.o, int) and isinstance(d.o, int):
        cells = vm.cellmap(st, s.r)
        items = [(k, c) for k, c in cells.items() if k >= s.o and k + c[0] <= s.o + n]
        if any(k[0] == s.r.id and s.o <= k[1] < s.o + n for k in st.objs):
            raise Unsupported("bytewise copy of a library object")
        dst = st.cells(d.r.id)
        for k in [k for k, (z, _) in dst.items() if k < d.o + n and d.o < k + z]:
            del dst[k]
        for k, c in items:
            vm.put(st, d.r.id, int(k - s.o + d.o), c[0], c[1])
        return
    for k in range(n):
        v = byte_at(vm, st, s, k)
        vm.store(st, Ptr(d.r, add2(d.o, k)), v, IntTy(8), vm.p.mods[0])


@contract(r"^llvm\.memset\.", r"^memset$")
def _(vm, st, a, ins):
    p, c, n = a[0], a[1], a[2]
    if isinstance(c, int):
        c &= 255
    elif c.size() > 8:
        c = z3.Extract(7, 0, c)
    if not isinstance(n, int):
        vm.bounds(st, p, n, "memset")
        if p.r.kind == "buf" and isinstance(c, int):
            st.bufs[p.r.id] = uf("bset", BUF, BV(64), BV(8), BV(64), BUF)(st.bufs[p.r.id], b64(p.o), bv(c, 8), b64(n))
            return p
        raise Unsupported("memset of symbolic size")
    if n == 0:
        return p
    vm.bounds(st, p, n, "memset")
    if n <= 4096:
        if p.r.kind == "obj" and isinstance(p.o, int) and n % 8 == 0 and c == 0:
            cells = st.cells(p.r.id)
            for k in [k for k, (z, _) in cells.items() if k < p.o + n and p.o < k + z]:
                del cells[k]
            for k in range(0, n, 8):
                cells[int(p.o) + k] = (8, 0)
            return p
        if p.r.kind == "obj" and isinstance(p.o, int):
            cells = st.cells(p.r.id)
            for k in [k for k, (z, _) in cells.items() if p.o <= k and k + z <= p.o + n]:
                del cells[k]
        for k in range(n):
            vm.store(st, Ptr(p.r, add2(p.o, k)), c, IntTy(8), vm.p.mods[0])
        return p
    raise Unsupported("large memset")


@contract(r"^memcmp$", r"^bcmp$", r"^strncmp$", r"^__gnu_cxx::char_traits<char>::compare", r"^std::char_traits<char>::compare\(")
def _(vm, st, a, ins):
    if ins.a[0][1] == "strncmp":
        raise Unsupported("strncmp")
    n = a[2]
    if not isinstance(n, int):
        x, y = raw(vm, st, a[0], n), raw(vm, st, a[1], n)
        return cmp_result(vm, st, x, y)
    x, y = raw(vm, st, a[0], n), raw(vm, st, a[1], n)
    e = simp(tobool(s_eq(x, y)))
    if isinstance(e, (bool, int)):
        if e:
            return 0
    r = fresh_bv("memcmp", 32)
    st.assume(eq(zbool(e), eq(r, 0)))
    return r


@contract(r"^operator new\(unsigned long\)$", r"^operator new\[\]\(unsigned long\)$", r"^malloc$")
def _(vm, st, a, ins):
    fr = st.frames[-1]
    n = a[0]
    tag = "%s:%s" % (fr.path, ins.dst)
    kind = "obj" if isinstance(n, int) else "buf"
    r = vm.new_heap(st, tag, n if not isinstance(n, int) else int(n), kind)
    if kind == "buf":
        st.bufs[r.id] = fresh_buf("heapbuf")
    return Ptr(r, 0)


@contract(r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$", r"^free$")
def _(vm, st, a, ins):
    p = a[0]
    if p.r is None:
        return None
    if p.r.id in st.freed:
        vm.oblige(st, False, "double-free", "safety")
        raise PathEnd()
    if not p.r.id.startswith("heap:") or not (isinstance(p.o, int) and p.o == 0):
        vm.oblige(st, False, "invalid-free", "safety", repr(p))
        raise PathEnd()
    st.freed = st.freed | {p.r.id}
    vm.drop_region(st, p.r.id)
    return None


@contract(r"^llvm\.eh\.typeid\.for")
def _(vm, st, a, ins):
    return vm.typeid(a[0].r.meta if a[0].r else None)


@contract(r"^__cxa_allocate_exception$")
def _(vm, st, a, ins):
    r = vm.new_heap(st, "exc:" + st.frames[-1].path, a[0])
    return Ptr(r, 0)


@contract(r"^__cxa_free_exception$", r"^__cxa_end_catch$", r"^__cxa_guard_release$", r"^__cxa_guard_abort$", r"^__cxa_atexit$")
def _(vm, st, a, ins):
    return 0 if ins.dst else None


@contract(r"^__cxa_guard_acquire$")
def _(vm, st, a, ins):
    return 1


@contract(r"^__cxa_begin_catch$", r"^__cxa_get_exception_ptr$")
def _(vm, st, a, ins):
    return a[0]


@contract(r"^__cxa_throw$")
def _(vm, st, a, ins):
    return Throw(a[1].r.meta, a[0])


@contract(r"^__cxa_rethrow$")
def _(vm, st, a, ins):
    return st.exc


@contract(r"^std::terminate\(\)$", r"^__clang_call_terminate$", r"^abort$", r"^__cxa_pure_virtual$")
def _(vm, st, a, ins):
    vm.oblige(st, False, "terminate-unreachable", "safety")
    raise PathEnd()


for nm, ti in {"length_error": "_ZTISt12length_error", "out_of_range(_fmt)?": "_ZTISt12out_of_range", "logic_error": "_ZTISt11logic_error",
               "bad_alloc": "_ZTISt9bad_alloc", "bad_cast": "_ZTISt8bad_cast", "runtime_error": "_ZTISt13runtime_error"}.items():
    def _mk(ti):
        def h(vm, st, a, ins):
            return Throw(ti)
        return h
    REG.append((re.compile(r"^std::__throw_%s\(" % nm), _mk(ti)))


@contract(r"^isinf$", r"^std::isinf")
def _(vm, st, a, ins):
    raise Unsupported("isinf")


# boost exceptions: only the fact that an exception of the named type leaves the function
@contract(r"^void boost::throw_exception<(.*)>\(")
def _(vm, st, a, ins):
    d = vm.p.dem[ins.a[0][1]]
    m = re.match(r"^void boost::throw_exception<(.*?)>\(", d)
    return Throw(find_ti(vm, m.group(1)), a[0] if isinstance(a[0], Ptr) else NULL)


def find_ti(vm, cls):
    for n, d in vm.p.dem.items():
        if n.startswith("_ZTI") and d == "typeinfo for " + cls:
            return n
    return "_ZTI?" + cls


# ------------------------------------------------------------------ std::locale, boost string algorithms
@contract(r"^std::locale::(~?locale)\(", r"^std::locale::operator=")
def _(vm, st, a, ins):
    pass


def strarg(vm, st, p, dem, k):
    """argument k of a boost range function over string / char array"""
    return gets(st, p)


@contract(r"^bool boost::algorithm::iequals<string, string>\(")
def _(vm, st, a, ins):
    return b2i(s_ieq(gets(st, a[0]), gets(st, a[1])))


@contract(r"^bool boost::algorithm::iequals<string, char \[\d+\]>\(", r"^bool boost::algorithm::iequals<string, char const\*>\(")
def _(vm, st, a, ins):
    return Multi([(s, b2i(s_ieq(gets(s, a[0]), t))) for s, t in cstring(vm, st, a[1])])


@contract(r"^bool boost::algorithm::equals<string, char \[\d+\]>\(")
def _(vm, st, a, ins):
    return Multi([(s, b2i(s_eq(gets(s, a[0]), t))) for s, t in cstring(vm, st, a[1])])


# ------------------------------------------------------------------ ihash_multimap
# The contents are an abstract dictionary; entries are numbered in iteration order; an iterator is a position.
def getd(st, p):
    o = st.objs.get(key(p))
    if o is None or o[0] != "dict":
        raise Unsupported("use of a dictionary that was not constructed at %s" % (key(p),))
    return o[1]


def setd(st, p, t):
    st.objs[key(p)] = ("dict", t)


def dregion(st, p, tag=""):
    k = key(p)
    rid = "di%s:%s+%d" % (tag, k[0], k[1])
    r = st.regions.get(rid)
    if r is None:
        r = st.regions[rid] = Region(rid, "diter", None, k)
    return r


def diter(st, p, i):
    return Ptr(dregion(st, p), i)


def pairat(st, p, off=0):
    """the two strings of a std::pair<string, string>"""
    q = p.p if isinstance(p, PInt) else p
    return gets(st, Ptr(q.r, add2(q.o, off))), gets(st, Ptr(q.r, add2(q.o, off + 32)))


@contract(r"^ihash_multimap::unordered_multimap\(\)$")
def _(vm, st, a, ins):
    setd(st, a[0], d_empty)


@contract(r"^ihash_multimap::~unordered_multimap\(\)$")
def _(vm, st, a, ins):
    st.objs.pop(key(a[0]), None)


@contract(r"^ihash_multimap::(unordered_multimap|operator=)\(ihash_multimap const&\)$")
def _(vm, st, a, ins):
    setd(st, a[0], getd(st, a[1]))
    return a[0]


@contract(r"^ihash_multimap::clear\(\)$")
def _(vm, st, a, ins):
    setd(st, a[0], d_empty)


@contract(r"ihash_multimap::insert(<.*>)?\(std::pair<string( const)?, string>( const)?&&?\)$")
def _(vm, st, a, ins):
    k, v = pairat(st, a[1])
    setd(st, a[0], d_ins(getd(st, a[0]), k, v))
    return Ptr(dregion(st, a[0], "ins"), 0)


@contract(r"^ihash_multimap::(size)\(\) const$")
def _(vm, st, a, ins):
    return d_size(getd(st, a[0]))


@contract(r"^ihash_multimap::(empty)\(\) const$")
def _(vm, st, a, ins):
    return b2i(eq(d_size(getd(st, a[0])), 0))


@contract(r"^ihash_multimap::c?begin\(\)( const)?$")
def _(vm, st, a, ins):
    return diter(st, a[0], 0)


@contract(r"^ihash_multimap::c?end\(\)( const)?$")
def _(vm, st, a, ins):
    return diter(st, a[0], d_size(getd(st, a[0])))


@contract(r"^ihash_multimap::find\(string const&\)( const)?$")
def _(vm, st, a, ins):
    d, k = getd(st, a[0]), gets(st, a[1])
    st.assume(d_facts(d, k))
    return diter(st, a[0], d_find(d, k))


@contract(r"^ihash_multimap::count\(string const&\) const$")
def _(vm, st, a, ins):
    d, k = getd(st, a[0]), gets(st, a[1])
    n = uf("dcount", D, S, BV(64))(d, term(k))
    st.assume(eq(n != 0, zbool(d_has(d, k))))
    return n


@contract(r"^ihash_multimap::erase\(string const&\)$")
def _(vm, st, a, ins):
    d, k = getd(st, a[0]), gets(st, a[1])
    n = uf("dcount", D, S, BV(64))(d, term(k))
    setd(st, a[0], d_erase(d, k))
    return n


@contract(r"^ihash_multimap::equal_range\(string const&\)( const)?$")
def _(vm, st, a, ins):
    # both ends carry the key in the name of their region; only a whole range is ever erased or tested for emptiness
    d, k = getd(st, a[0]), gets(st, a[1])
    r = Region("der:%s+%d" % key(a[0]), "diter", None, key(a[0]) + ("range", k, d))
    st.regions[r.id] = r
    n = uf("dcount", D, S, BV(64))(d, term(k))
    st.assume(eq(n != 0, zbool(d_has(d, k))))
    st.assume(eq(d_rm(d, k, 0, 0), d))
    return [Ptr(r, 0), Ptr(r, n)]


@contract(r"^ihash_multimap::erase\(std::__detail::_Node_(const_)?iterator<.*>, std::__detail::_Node_(const_)?iterator<.*>\)$")
def _(vm, st, a, ins):
    b, e = a[1], a[2]
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r.id == e.r.id and len(b.r.meta) == 5 and b.r.meta[:2] == key(a[0])):
        raise Unsupported("erase of an arbitrary range")
    k, d0 = b.r.meta[3:5]
    d = getd(st, a[0])
    n = uf("dcount", D, S, BV(64))(d0, term(k))
    if not (isinstance(b.o, int) and b.o in (0, 1)):
        raise Unsupported("erase of part of a range")
    vm.oblige(st, And(ule(b.o, e.o), ule(e.o, n)), "erase-of-a-range-of-entries", "safety")
    x = st.ghost.get("set1:%s+%d" % key(a[0]))
    if b.o == 1 and x is not None and d.eq(d_rm(x, k, 1, 1)):
        setd(st, a[0], d_rm(x, k, 1, e.o))
    elif b.o == 0 and d.eq(d0):
        vm.oblige(st, eq(e.o, n), "erase-range-ends-at-its-end", "safety")
        setd(st, a[0], d_erase(d, k))
    else:
        raise Unsupported("erase of part of a range")
    return e


@contract(r"^ihash_multimap::erase\(std::__detail::_Node_(const_)?iterator<[^,]*, [^,]*, [^,]*, [^,]*>\)$")
def _(vm, st, a, ins):
    it = a[1]
    if not (isinstance(it, Ptr) and it.r is not None and it.r.kind == "diter" and it.r.meta[:2] == key(a[0])):
        raise Unsupported("erase of such an iterator")
    d = getd(st, a[0])
    if len(it.r.meta) == 2:
        raise Unsupported("erase of a single entry outside a range")
    k, d0 = it.r.meta[3:5]
    n = uf("dcount", D, S, BV(64))(d0, term(k))
    vm.oblige(st, ult(it.o, n), "erase-before-the-end", "safety")
    x = st.ghost.get("set1:%s+%d" % key(a[0]))
    cands = [d_rm(d0, k, 0, it.o)] + ([d_rm(x, k, 1, it.o)] if x is not None else [])
    for c, (y, lo) in zip(cands, [(d0, 0), (x, 1)]):
        if vm.entails(st, eq(d, c)):
            setd(st, a[0], d_rm(y, k, lo, add(it.o, 1)))
            return Ptr(it.r, add(it.o, 1))
    d_alive(vm, st, it)
    raise Unsupported("erase of an entry in the middle of a range")


@contract(r"^std::__detail::_Node_iterator_base<std::pair<string const, string>, true>::_M_incr\(\)$")
def _(vm, st, a, ins):
    it = vm.load(st, a[0], PTR, vm.p.mods[0])
    if not isinstance(it, Ptr) or it.r is None or it.r.kind != "diter":
        raise Unsupported("increment of such an iterator")
    if len(it.r.meta) == 2:
        size = d_size(st.objs[it.r.meta[:2]][1])
    else:
        size = uf("dcount", D, S, BV(64))(it.r.meta[4], term(it.r.meta[3]))
        d_alive(vm, st, it)
    vm.oblige(st, ult(it.o, size), "iterator-increment-before-end", "safety")
    vm.store(st, a[0], Ptr(it.r, add(it.o, 1)), PTR, vm.p.mods[0])


@contract(r"^std::__detail::_Hash_node_value_base<std::pair<string const, string>>::_M_v(alptr)?\(\)( const)?$")
def _(vm, st, a, ins):
    it = a[0]
    if not isinstance(it, Ptr) or it.r is None or it.r.kind != "diter":
        raise Unsupported("dereference of such an iterator")
    return dderef(vm, st, it, sub(it.o, 8))


@contract(r"^std::__detail::_Node_(const_)?iterator<std::pair<string const, string>, false, true>::operator(->|\*)\(\) const$")
def _(vm, st, a, ins):
    it = vm.load(st, a[0], PTR, vm.p.mods[0])
    if not isinstance(it, Ptr) or it.r is None or it.r.kind != "diter":
        raise Unsupported("dereference of such an iterator")
    return dderef(vm, st, it, it.o)


def dderef(vm, st, it, o):
    dk = it.r.meta[:2]
    if len(it.r.meta) != 2:
        k, d = it.r.meta[3:5]
        d_alive(vm, st, Ptr(it.r, o))
        vm.oblige(st, ult(o, uf("dcount", D, S, BV(64))(d, term(k))), "iterator-dereference-before-end", "safety")
        rid = "dr:%s+%d" % dk + ":" + st.frames[0].path
        r = Region(rid, "obj", 64, ("entry", dk, d, k, o))
        st.regions[rid] = r
        st.cells(rid)
        st.objs[(rid, 0)] = ("str", uf("drkey", D, S, BV(64), S)(d, term(k), b64(o)))
        st.objs[(rid, 32)] = ("str", d_rval(d, k, o))
        x = st.ghost.get("set1:%s+%d" % dk)
        if x is not None:
            st.objs[(rid, 32)] = ("str", If_s(eq(o, 0), x.arg(2), d_rval(d, k, o)))
        return Ptr(r, 0)
    d = st.objs[dk][1]
    vm.oblige(st, ult(o, d_size(d)), "iterator-dereference-before-end", "safety")
    rid = "dn:%s+%d" % dk + ":" + st.frames[0].path
    r = st.regions.get(rid)
    if r is None:
        r = vm.new_region(st, rid, "obj", 64)
    st.objs[(rid, 0)] = ("str", d_key(d, o))
    st.objs[(rid, 32)] = ("str", d_val(d, o))
    return Ptr(r, 0)


def If_s(c, a, b):
    return a if c is True else b if c is False else z3.If(tobool(c), a, b)


def d_count(d, k):
    """number of entries for a key"""
    return uf("dcount", D, S, BV(64))(d, term(k))


def d_rval(d, k, i):
    """value of the i-th entry for a key"""
    return uf("drval", D, S, BV(64), S)(d, term(k), b64(i))


INTW = {"int": -32, "unsigned int": 32, "long": -64, "unsigned long": 64, "short": -16, "unsigned short": 16}


@contract(r"^(int|unsigned int|long|unsigned long|short|unsigned short) boost::lexical_cast<(int|unsigned int|long|unsigned long|short|unsigned short), string>\(string const&\)$")
def _(vm, st, a, ins):
    w = INTW[vm.p.dem[vm.p.resolve(ins.a[0][1])].split(" boost::")[0]]
    t = gets(st, a[0])
    outs = []
    for s, ok in vm.branch(st, s_lexok(t, w)):
        outs.append((s, s_lexval(t, w) if ok else Throw(find_ti(vm, "boost::bad_lexical_cast"))))
    return Multi(outs)


@contract(r"^string boost::lexical_cast<string, (int|unsigned int|long|unsigned long|unsigned short)>\(")
def _(vm, st, a, ins):
    m = re.search(r"lexical_cast<string, ([a-z ]+)>", vm.p.dem[vm.p.resolve(ins.a[0][1])])
    w = INTW[m.group(1)]
    v = vm.load(st, a[1], IntTy(abs(w)), vm.p.mods[0])
    sets(st, a[0], uf("lexstr%d" % w, BV(abs(w)), S)(bv(v, abs(w))))


def buf_search(st, a, b, n, pc=None):
    """std::search over the bytes [a, b) of a buffer for the nonempty string n -> offset"""
    arr = st.bufs[a.r.id]
    i = uf("bsearch", BUF, BV(64), BV(64), S, BV(64))(arr, b64(a.o), b64(b.o), n)
    return i


@contract(r"^(unsigned )?char const\* std::search<(unsigned )?char const\*, __gnu_cxx::__normal_iterator<char const\*, string>>\(")
def _(vm, st, a, ins):
    p, e, x, y = [z.p if isinstance(z, PInt) else z for z in a[:4]]
    n = rng(vm, st, x, y)
    if p.r is None or p.r.kind != "buf" or e.r.id != p.r.id:
        raise Unsupported("search outside a buffer")
    size = p.r.size
    vm.oblige(st, And(ule(p.o, e.o), ule(e.o, size)), "in-bounds:search", "safety")
    i = buf_search(st, p, e, n)
    z = add(i, s_len(n))
    st.assume(Or(eq(i, e.o), And(ule(p.o, i), ule(i, z), ule(z, e.o))))
    return Ptr(p.r, i)


# ------------------------------------------------------------------ locks and calendar functions
def ctext(st, p, n, t):
    """n bytes at p now hold the text t (without NULs) and its terminator, then unspecified bytes; only usable as a C string"""
    st.cells(p.r.id)
    return Ptr(Region("ctext:" + str(t), "ctext", None, t), 0)


def lock(vm, st, p, m):
    vm.oblige(st, st.ghost.get("locked", 0) == 0, "lock-not-held-already", "safety")
    st.ghost["locked"] = 1
    st.objs[key(p)] = ("lock", 1)


def unlock(vm, st, p, must):
    o = st.objs.get(key(p))
    if o is None or o[0] != "lock":
        raise Unsupported("unknown lock")
    if must:
        vm.oblige(st, o[1] == 1, "unlock-of-a-held-lock", "safety")
    if o[1]:
        st.ghost["locked"] = 0
    st.objs[key(p)] = ("lock", 0)


L_ = r"^boost::(unique_lock|lock_guard)<boost::mutex>::"


@contract(r"^boost::mutex::~?mutex\(\)$")
def _(vm, st, a, ins):
    pass


@contract(L_ + r"(unique_lock|lock_guard)\(boost::mutex&\)$")
def _(vm, st, a, ins):
    lock(vm, st, a[0], a[1])


@contract(L_ + r"unlock\(\)$")
def _(vm, st, a, ins):
    unlock(vm, st, a[0], True)


@contract(L_ + r"~(unique_lock|lock_guard)\(\)$")
def _(vm, st, a, ins):
    unlock(vm, st, a[0], False)
    st.objs.pop(key(a[0]), None)


@contract(r"^gmtime$")
def _(vm, st, a, ins):
    # the C library has one buffer for the result, shared by all threads; NULL when the year does not fit
    vm.oblige(st, st.ghost.get("locked", 0) == 1, "the lock is held while the shared calendar buffer is written", "safety")
    t = vm.load(st, a[0], IntTy(64), vm.p.mods[0])
    outs = []
    for s, ok in vm.branch(st, uf("year_fits", BV(64), z3.BoolSort())(b64(t))):
        if not ok:
            outs.append((s, NULL))
            continue
        r = s.regions.get("gmtime") or vm.new_region(s, "gmtime", "tm", 56)
        s.regions["gmtime"] = r
        s.ghost["tm"] = b64(t)
        outs.append((s, Ptr(r, 0)))
    return Multi(outs)


@contract(r"^gmtime_r$")
def _(vm, st, a, ins):
    t = vm.load(st, a[0], IntTy(64), vm.p.mods[0])
    outs = []
    for s, ok in vm.branch(st, uf("year_fits", BV(64), z3.BoolSort())(b64(t))):
        if ok:
            s.objs[key(a[1])] = ("tm", b64(t))
        outs.append((s, a[1] if ok else NULL))
    return Multi(outs)


@contract(r"^strftime$")
def _(vm, st, a, ins):
    p, n, fmt, tm = a[:4]
    vm.oblige(st, isinstance(tm, Ptr) and tm.r is not None, "strftime-of-a-broken-down-time", "safety")
    if not (isinstance(tm, Ptr) and tm.r is not None):
        raise PathEnd()
    own = st.objs.get(key(tm))
    if own is not None and own[0] != "tm" or own is None and tm.r.id != "gmtime" or p.r.kind != "obj" or not isinstance(n, int) or not isinstance(p.o, int):
        raise Unsupported("strftime of such arguments")
    if own is None:
        vm.oblige(st, st.ghost.get("locked", 0) == 1, "the lock is held while the shared calendar buffer is read", "safety")
    vm.oblige(st, ule(add(p.o, n), p.r.size), "in-bounds:strftime", "safety")
    (s1, f), = cstring(vm, st, fmt)
    if s_isconst(f) is None:
        raise Unsupported("unknown date format")
    t = s_uf("strftime_" + "".join("%02x" % c for c in s_isconst(f)), own[1] if own else st.ghost["tm"])
    size = s_len(t)
    outs = []
    for s, ok in vm.branch(s1, And(ult(size, n), ult(0, size))):
        if ok:
            vm.put(s, p.r.id, p.o, n, ctext(s, p, n, t))
            outs.append((s, size))
        else:
            vm.put(s, p.r.id, p.o, n, Ptr(Region("unspecified", "ctext", None, fresh_str("garbage")), 0))
            outs.append((s, 0))
    return Multi(outs)


# ------------------------------------------------------------------ std::vector<char>: a byte string
V = r"^std::vector<char, std::allocator<char>>::"


@contract(V + r"vector\(\)$", V + r"clear\(\)$")
def _(vm, st, a, ins):
    sets(st, a[0], s_empty)


@contract(V + r"~vector\(\)$")
def _(vm, st, a, ins):
    st.objs.pop(key(a[0]), None)


@contract(V + r"(vector|operator=)\(std::vector<char, std::allocator<char>> const&\)$")
def _(vm, st, a, ins):
    sets(st, a[0], gets(st, a[1]))
    return a[0]


@contract(V + r"size\(\) const$")
def _(vm, st, a, ins):
    return s_len(gets(st, a[0]))


@contract(V + r"empty\(\) const$")
def _(vm, st, a, ins):
    return b2i(eq(s_len(gets(st, a[0])), 0))


@contract(V + r"push_back\(char( const&|&&)\)$")
def _(vm, st, a, ins):
    c = vm.load(st, a[1], IntTy(8), vm.p.mods[0])
    sets(st, a[0], s_app(gets(st, a[0]), c))


@contract(V + r"(c?begin|data)\(\)( const)?$")
def _(vm, st, a, ins):
    return sdptr(st, a[0], 0)


@contract(V + r"c?end\(\)( const)?$")
def _(vm, st, a, ins):
    return sdptr(st, a[0], s_len(gets(st, a[0])))


@contract(V + r"operator\[\]\(unsigned long\)( const)?$")
def _(vm, st, a, ins):
    vm.oblige(st, ult(a[1], s_len(gets(st, a[0]))), "in-bounds:vector-index", "safety")
    return sdptr(st, a[0], a[1])


@contract(r"^char\* std::copy<__gnu_cxx::__normal_iterator<char( const)?\*, std::vector<char, std::allocator<char>>>, char\*>\(")
def _(vm, st, a, ins):
    x, y = [z.p if isinstance(z, PInt) else z for z in a[:2]]
    n = sub(y.o, x.o)
    copy_bytes(vm, st, a[2], x, n)
    return Ptr(a[2].r, add(a[2].o, n))


# ------------------------------------------------------------------ payload handler (boost::function): what it is given is recorded
def handler_set(vm, st, p):
    v = vm.load(st, p, PTR, vm.p.mods[0])
    if not isinstance(v, Ptr):
        raise Unsupported("unknown function object")
    return v.r is not None


@contract(r"^boost::function2<void, char const\*, unsigned long>::operator!\(\) const$", r"^boost::function_base::empty\(\) const$")
def _(vm, st, a, ins):
    return int(not handler_set(vm, st, a[0]))


@contract(r"^boost::function2<void, char const\*, unsigned long>::operator void \(boost::.*\)\(\)\(\) const$")
def _(vm, st, a, ins):
    return [1 if handler_set(vm, st, a[0]) else 0, 0]


@contract(r"^boost::function2<void, char const\*, unsigned long>::operator\(\)\(char const\*, unsigned long\) const$")
def _(vm, st, a, ins):
    if not handler_set(vm, st, a[0]):
        vm.oblige(st, False, "call-of-an-empty-function", "safety")
        raise PathEnd()
    st.ghost["payload"] = s_cat(st.ghost.get("payload", s_empty), raw(vm, st, a[1], a[2]))
