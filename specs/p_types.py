"""C07: the texts written by http::types: query strings, Set-Cookie headers, dates."""
from runner import Unit, Property, Audit, concrete_run
from common import *
from p_http import DRV, LIBS, fromhex, some, pick, url_decode_of, UPW, CKW
import p_algo

SRC = ["src/http_types.cpp"]
DICT = z3.Const("dict0", D)
NAME, VALUE, PATH = z3.Const("name", S), z3.Const("value", S), z3.Const("path", S)
AGE = z3.BitVec("max_age", 64)


def enc(t):
    if isinstance(t, bytes):
        return p_algo.oracle(p_algo.UrlEnc, t).out
    return s_uf("url_encode", term(t))


def url_encode_contract(vm, st, a, ins):
    lib.sets(st, a[0], enc(lib.gets(st, a[1])))


class QueryString(Spec):
    """name=value for every entry in iteration order, both URL-encoded, separated by '&'"""

    def __init__(self, d):
        self.d = d

    def start(self):
        return SpecState({"first": 1}, {"pos": 0, "out": b"" if isinstance(self.d, tuple) else s_empty})

    def facts(self, s):
        return [lambda d: ule(d["pos"], self.size())] + ([] if s.first else [lambda d: ult(0, d["pos"]), lambda d: Not(eq(s_len(d["out"]), 0))])

    def size(self):
        return len(self.d) if isinstance(self.d, tuple) else d_size(self.d)

    def step(self, D, s):
        if D(ule(self.size(), s.pos)):
            s.ctrl["done"] = 1
            s.set(pos=self.size())
            return
        k, v = (self.d[s.pos] if isinstance(self.d, tuple) else (d_key(self.d, s.pos), d_val(self.d, s.pos)))
        out = s.out
        if not s.first:
            out = s_app(out, 38)
        s.ctrl["first"] = 0
        out = s_cat(s_app(s_cat(out, enc(k)), 61), enc(v))
        s.set(pos=add(s.pos, 1), out=out)


def qs_post(sim, st, ret, s, f):
    sim.vm.oblige(st, s_eq(f.string(st, 0), s.out), "the query string is the encoded pairs, joined", "post")
    sim.vm.oblige(st, f.dict(st, 1).eq(DICT), "the pairs are left as they are", "frame")


U_QS = Unit("make_query_string", SRC, lambda prog: Fn(prog, r"^pion::http::types::make_query_string\(", ["sret", ("dict", DICT)], QueryString(DICT), QueryString(DICT).start, qs_post,
            lookup=lib.make_lookup(extra=[(r"^pion::algorithm::url_encode\(", url_encode_contract)]), env=[DICT]))


def lexstr(v):
    return b"%d" % v if isinstance(v, int) else uf("lexstr64", BV(64), S)(v)


class SetCookie(Spec):
    def __init__(self, name, value, path, has, age):
        self.a = name, value, path, has, age

    def start(self):
        return SpecState({}, {"out": b"" if isinstance(self.a[0], bytes) else s_empty})

    def step(self, D, s):
        name, value, path, has, age = self.a
        con = isinstance(name, bytes)
        L = (lambda t: t) if con else s_lit
        out = s_cat(s_cat(s_cat(name, L(b"=\"")), value), L(b"\"; Version=1"))
        if not D(eq(s_len(path), 0)):
            out = s_cat(s_cat(out, L(b"; Path=")), path)
        if D(has):
            out = s_cat(s_cat(out, L(b"; Max-Age=")), lexstr(age))
        s.ctrl["done"] = 1
        s.set(out=out)


def sc_post(sim, st, ret, s, f):
    sim.vm.oblige(st, s_eq(f.string(st, 0), s.out), "the header is name=\"value\" and the attributes asked for", "post")


def cat_all(*xs):
    out = s_empty
    for x in xs:
        out = s_cat(out, x if is_sym(x) else s_lit(x))
    return out


def set_cookie(self, vm):
    HAS = z3.BitVec("has_max_age", 1)
    st = State()
    names = []
    args = []
    for n, t in (("out", None), ("name", NAME), ("value", VALUE), ("path", PATH)):
        r = vm.new_region(st, n, "obj", 32)
        if t is not None:
            st.objs[(n, 0)] = ("str", t)
        args.append(Ptr(r, 0))
    n = 0
    for kind, s, v in self.call(vm, st, r"^pion::http::types::make_set_cookie_header\(", args + [HAS, AGE]):
        n += 1
        if kind != "ret":
            vm.oblige(s, False, "no exception", "post")
            continue
        got = lib.gets(s, args[0])
        for s2, nopath in vm.branch(s, eq(s_len(PATH), 0)):
            for s3, has in vm.branch(s2, eq(HAS, 1, 1)):
                want = cat_all(NAME, b"=\"", VALUE, b"\"; Version=1")
                if not nopath:
                    want = s_cat(s_cat(want, s_lit(b"; Path=")), PATH)
                if has:
                    want = s_cat(s_cat(want, s_lit(b"; Max-Age=")), lexstr(AGE))
                vm.oblige(s3, s_eq(got, want), "the header is the name, the quoted value and the attributes asked for", "post")
    vm.oblige(st, n > 0, "the function returns", "post")


U_SC = Unit("make_set_cookie_header", SRC, lambda prog: Straight(prog, set_cookie))


FORMAT = b"%a, %d %b %Y %H:%M:%S GMT"


def date(self, vm):
    st = State()
    T = z3.BitVec("t", 64)
    r = vm.new_region(st, "out", "obj", 32)
    text = s_uf("strftime_" + FORMAT.hex(), T)
    fits = And(uf("year_fits", BV(64), z3.BoolSort())(T), ult(s_len(text), 100), ult(0, s_len(text)))
    for kind, s, v in self.call(vm, st, r"^pion::http::types::get_date_string", [Ptr(r, 0), T]):
        vm.oblige(s, kind == "ret", "no exception", "post")
        if kind != "ret":
            continue
        vm.oblige(s, s.ghost.get("locked", 0) == 0, "the lock is given back", "post")
        got = lib.gets(s, Ptr(r, 0))
        for s2, ok in vm.branch(s, fits):
            vm.oblige(s2, s_eq(got, text if ok else s_empty), "the text is the date in the format of RFC 1123; empty if it cannot be given", "post")


U_DATE = Unit("get_date_string", SRC, lambda prog: Straight(prog, date))


# ------------------------------------------------------------------ concrete contract evaluation on the real code
DAYS = [b"Thu", b"Fri", b"Sat", b"Sun", b"Mon", b"Tue", b"Wed"]
MONTHS = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]


def date_of(t):
    """proleptic Gregorian calendar; the year must fit an int counted from 1900"""
    d, x = divmod(t, 86400)
    z = d + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + 400 * era + (1 if m <= 2 else 0)
    if not -2 ** 31 <= y - 1900 < 2 ** 31:
        return b""
    return b"%s, %02d %s %d %02d:%02d:%02d GMT" % (DAYS[d % 7], doy - (153 * mp + 2) // 5 + 1, MONTHS[m - 1], y, x // 3600, x // 60 % 60, x % 60)


def gen_types(rng, n, hints):
    for t in (0, -1, 951782400, 951868800, 4107542400, 253402300799, 253402300800, 67767976233532799, 67768036191676799, 67768036191676800, -67768040609740800, -67768040609740801,
              2 ** 63 - 1, -2 ** 63):
        yield ("types", "date", str(t))
    yield ("types", "qs")
    for a in range(256):
        yield ("types", "qs", b"n" + bytes([a]), bytes([a]) + b"v", b"m", b"")
    for has in ("0", "1"):
        for path in (b"", b"/", b"/a b"):
            for age in ("0", "1", "4294967296", "18446744073709551615"):
                yield ("types", "sc", b"name", b"va lue", path, has, age)
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            yield ("types", "date", str(rng.randrange(2 ** rng.randrange(1, 57)) * rng.choice([1, 1, 1, -1])))
        elif k == 1:
            yield ("types", "sc", pick(rng, CKW, rng.randrange(4)), pick(rng, CKW, rng.randrange(4)), pick(rng, CKW, rng.randrange(3)), str(rng.randrange(2)), str(rng.randrange(2 ** 40)))
        else:
            yield ("types", "qs") + tuple(pick(rng, UPW, rng.randrange(5)) for _ in range(2 * rng.randrange(5)))


def judge_types(case, out):
    got = fromhex(out[0])
    if case[1] == "date":
        t = int(case[2])
        if 67767976233532800 <= t < 67768036191676800:
            return None         # the C library prints these years, beyond an int, as it likes
        want = date_of(t)
        return None if got == want else "expected %r, got %r" % (want, got)
    if case[1] == "sc":
        name, value, path = case[2:5]
        want = name + b"=\"" + value + b"\"; Version=1" + (b"; Path=" + path if path else b"") + (b"; Max-Age=" + case[6].encode() if case[5] == "1" else b"")
        return None if got == want else "expected %r, got %r" % (want, got)
    want = sorted(enc(case[i]) + b"=" + enc(case[i + 1]) for i in range(2, len(case), 2))
    return None if sorted(got.split(b"&")) == (want or [b""]) else "expected %r, got %r" % (want, got)


def head_audit(name, gen, judge, quick=3000):
    return Audit(name, [DRV[0].replace("http.cpp", "head.cpp")] + DRV[1:], gen, judge, shim=True, libs=LIBS, quick=quick, deep=40000)


A_TYPES = head_audit("http_types", gen_types, judge_types)


def property(pid):
    if pid == "C07":
        return Property(pid, [U_QS, U_SC, U_DATE], [], A_TYPES, TRUST, ASSUME)
    raise KeyError(pid)
