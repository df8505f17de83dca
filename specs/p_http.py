"""C10-C13: the field parsers of http::parser (URL-encoded pairs, cookies, multipart bodies, URIs)."""
from runner import Unit, Lemma, Audit, Property, concrete_run
from common import *
import p_algo

SRC = ["src/http_parser.cpp", "src/http_types.cpp"]
NAME_MAX = 1024
VALUE_MAX = 1024 * 1024
BUFV = z3.Const("input", BUF)
LEN = z3.BitVec("len", 64)
DICT = z3.Const("dict0", D)
TEXT = s_mk(BUFV, 0, LEN)


def is_ctl(c):
    return Or(inrange(c, 0, 31), eq(c, 127, 8))


def url_decode_of(t):
    if isinstance(t, bytes):
        return p_algo.oracle(p_algo.UrlDec, t).out
    return s_uf("url_decode", term(t))


def url_decode_contract(vm, st, a, ins):
    lib.sets(st, a[0], s_uf("url_decode", lib.gets(st, a[1])))


LOOK = lib.make_lookup(extra=[(r"^pion::algorithm::url_decode\(", url_decode_contract)])


class TextSpec(Spec):
    """reads self.src left to right; name, value, dict"""

    def __init__(self, src):
        self.src = src

    def base(self, ctrl, dic, **more):
        e = b"" if isinstance(self.src, bytes) else s_empty
        c = dict(ctrl, ok=None)
        d = {"pos": 0, "name": e, "value": e, "dict": dic}
        d.update({k: (e if v == "" else v) for k, v in more.items()})
        return SpecState(c, d)

    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(self.src)), lambda d: ule(s_len(d["name"]), NAME_MAX), lambda d: ule(s_len(d["value"]), VALUE_MAX)]

    def fin(self, s, ok):
        s.ctrl["done"], s.ctrl["ok"] = 1, ok
        s.set(pos=s_len(self.src))

    def empty(self):
        return b"" if isinstance(self.src, bytes) else s_empty


class UrlPairs(TextSpec):
    """application/x-www-form-urlencoded: name=value pairs separated by '&'; ',' starts another value of the same name"""

    def start(self, dic):
        return self.base({"mode": "name"}, dic)

    def put(self, s):
        s.set(dict=d_ins(s.dict, url_decode_of(s.name), url_decode_of(s.value)))

    def step(self, D, s):
        if D(ule(s_len(self.src), s.pos)):
            if not D(eq(s_len(s.name), 0)):
                self.put(s)
            return self.fin(s, True)
        c = s_at(self.src, s.pos)
        if s.mode == "name":
            if D(eq(c, 61, 8)):
                s.set(mode="value")
            elif D(eq(c, 38, 8)):
                if not D(eq(s_len(s.name), 0)):
                    self.put(s)
                    s.set(name=self.empty())
            elif D(oneof(c, b"\r\n\t")):
                pass
            elif D(Or(is_ctl(c), ule(NAME_MAX, s_len(s.name)))):
                return self.fin(s, False)
            else:
                s.set(name=s_app(s.name, c))
        else:
            if D(eq(c, 38, 8)):
                if not D(eq(s_len(s.name), 0)):
                    self.put(s)
                    s.set(name=self.empty())
                s.set(value=self.empty(), mode="name")
            elif D(eq(c, 44, 8)):
                if not D(eq(s_len(s.name), 0)):
                    self.put(s)
                s.set(value=self.empty())
            elif D(oneof(c, b"\r\n\t")):
                pass
            elif D(Or(is_ctl(c), ule(VALUE_MAX, s_len(s.value)))):
                return self.fin(s, False)
            else:
                s.set(value=s_app(s.value, c))
        s.set(pos=add(s.pos, 1))


def pairs_post(sim, st, ret, s, f):
    sim.vm.oblige(st, Not(eq(ret, 0, 1)) if s.ok else eq(ret, 0, 1), "the result says whether the text was accepted", "post")
    d = f.dict(st, 0)
    sim.vm.oblige(st, d == s.dict, "exactly the decoded pairs were added, in order", "post")


def null_post(sim, st, ret, s, f):
    sim.vm.oblige(st, Not(eq(ret, 0, 1)), "a null text is accepted", "post")
    sim.vm.oblige(st, f.dict(st, 0) == DICT, "nothing is added", "post")


class Nothing(Spec):
    def start(self):
        return SpecState({"done": 1}, {})


def unit(name, pat, spec, start, post, extra=(), env=(), envpc=(), sig=None):
    return Unit(name, SRC, lambda prog: Fn(prog, pat, sig or [("dict", DICT), ("buf", BUFV, LEN), ("val", LEN)] + list(extra), spec, start, post,
                envpc=[ult(LEN, MAXLEN)] + list(envpc), lookup=LOOK, env=[LEN, DICT] + list(env)))


PU = r"^pion::http::parser::parse_url_encoded\(.*char const\*, unsigned long\)$"
U_URLPAIRS = unit("parse_url_encoded", PU, UrlPairs(TEXT), lambda: UrlPairs(TEXT).start(DICT), pairs_post)
U_URLNULL = unit("parse_url_encoded(null)", PU, Nothing(), Nothing().start, null_post, sig=[("dict", DICT), ("val", NULL), ("val", LEN)])


ATTRS = [b"Comment", b"Domain", b"Max-Age", b"Path", b"Secure", b"Version", b"Expires", b"HttpOnly"]


class Cookies(TextSpec):
    """Cookie / Set-Cookie header: name=value pairs separated by ';' or ','; values may be quoted"""

    def __init__(self, src, setc):
        self.src, self.setc = src, setc

    def start(self, dic):
        return self.base({"mode": "name", "quoted": False}, dic, q=0)

    def facts(self, s):
        f = TextSpec.facts(self, s)
        return f + [lambda d: oneof(d["q"], b"'\"")] if s.quoted else f

    def attr(self, n):
        c = Or(eq(s_len(n), 0), And(ult(0, s_len(n)), eq(s_at(n, 0), 36, 8)) if not (isinstance(n, bytes) and not n) else True)
        if self.setc:
            c = Or(c, *[s_ieq(n, a) for a in ATTRS])
        return c

    def put(self, D, s):
        if not D(self.attr(s.name)):
            s.set(dict=d_ins(s.dict, s.name, s.value))

    def step(self, D, s):
        if D(ule(s_len(self.src), s.pos)):
            self.put(D, s)
            return self.fin(s, True)
        c = s_at(self.src, s.pos)
        e = self.empty()
        if s.mode == "name":
            if D(eq(c, 61, 8)):
                s.set(mode="value")
            elif D(oneof(c, b";,")):
                if not D(eq(s_len(s.name), 0)):
                    self.put(D, s)
                    s.set(name=e)
            elif D(eq(c, 32, 8)):
                pass
            elif D(Or(is_ctl(c), ule(NAME_MAX, s_len(s.name)))):
                return self.fin(s, False)
            else:
                s.set(name=s_app(s.name, c))
        elif s.mode == "value":
            if s.quoted:
                if D(eq(c, s.q, 8)):
                    self.put(D, s)
                    s.set(name=e, value=e, mode="ignore", quoted=False, q=0)
                elif D(ule(VALUE_MAX, s_len(s.value))):
                    return self.fin(s, False)
                else:
                    s.set(value=s_app(s.value, c))
            elif D(oneof(c, b";,")):
                self.put(D, s)
                s.set(name=e, value=e, mode="name")
            elif D(And(oneof(c, b"'\""), eq(s_len(s.value), 0))):
                s.set(quoted=True, q=c)
            elif D(And(eq(c, 32, 8), eq(s_len(s.value), 0))):
                pass
            elif D(Or(is_ctl(c), ule(VALUE_MAX, s_len(s.value)))):
                return self.fin(s, False)
            else:
                s.set(value=s_app(s.value, c))
        elif D(oneof(c, b";,")):
            s.set(mode="name")
        s.set(pos=add(s.pos, 1))


PC = r"^pion::http::parser::parse_cookie_header\(.*char const\*, unsigned long, bool\)$"


def u_cookie(setc):
    sp = Cookies(TEXT, setc)
    return unit("parse_cookie_header(%s)" % ("Set-Cookie" if setc else "Cookie"), PC, sp, lambda: sp.start(DICT), pairs_post, extra=[("val", setc)])


# ------------------------------------------------------------------ multipart/form-data
CT = z3.Const("content_type", S)


def bsearch(src, p, n):
    """first occurrence of n at or after p in the text, or its length"""
    if isinstance(src, bytes):
        i = src.find(n, p)
        return len(src) if i < 0 else i
    return uf("bsearch", BUF, BV(64), BV(64), S, BV(64))(BUFV, b64(p), b64(LEN), n)


def found_at(D, t, i, n, pos):
    """what a successful or failed find guarantees"""
    if not isinstance(t, bytes):
        D.assume(Or(eq(i, NPOS), And(ule(pos, i), ule(i, s_len(t)), ule(len(n), sub(s_len(t), i)))))
    return i


def b64_of(t, typ):
    if isinstance(t, bytes):
        import base64
        return b"data:" + typ + b"; base64, " + base64.b64encode(t)
    return s_uf("data_uri", term(t), term(typ))


def clamp(D, t, p, n):
    rest = sub(s_len(t), p)
    return s_sub(t, p, rest if D(ule(rest, n)) else n)


class Multipart(TextSpec):
    opaque = ("boundary",)

    def transient(self, s):
        return s.mode == "init"

    def inner(self, s):
        return "k" if s.mode == "scan" else ""

    def __init__(self, src, ctype):
        self.src, self.ctype = src, ctype

    def start(self, dic):
        s = self.base({"mode": "init", "found": False, "mime": False}, dic, field="", ctype="", boundary="", k=0)
        return s

    def facts(self, s):
        f = [lambda d: ule(d["pos"], s_len(self.src)), lambda d: ule(d["k"], s_len(d["value"])), lambda d: ult(1, s_len(d["boundary"]))]
        if s.mode == "scan":
            f.append(lambda d: ult(d["pos"], s_len(self.src)))
        if s.mode == "start":
            f.append(lambda d: Or(eq(d["pos"], s_len(self.src)), And(ule(d["pos"], add(d["pos"], s_len(d["boundary"]))), ule(add(d["pos"], s_len(d["boundary"])), s_len(self.src)))))
        return f

    def measure(self, s):
        return [s.pos, 1 if s.mode == "start" else 0, s.k]

    def search(self, D, s, p):
        i, n = bsearch(self.src, p, s.boundary), s_len(self.src)
        if not isinstance(self.src, bytes):
            e = add(i, s_len(s.boundary))
            D.assume(Or(eq(i, n), And(ule(p, i), ule(i, e), ule(e, n))))
        return i

    def next_part(self, D, s, p):
        s.set(mode="start", pos=self.search(D, s, p))

    def named(self, D, s):
        if D(eq(s_len(s.field), 0)):
            self.next_part(D, s, s.pos)
            return True
        s.set(mode="data")

    def step(self, D, s):
        src, e = self.src, self.empty()
        n = s_len(src)
        if s.mode == "init":
            i = found_at(D, self.ctype, s_find(self.ctype, b"boundary=", 0), b"boundary=", 0)
            if D(eq(i, NPOS)):
                return self.fin(s, False)
            b = s_sub(self.ctype, add(i, 9), sub(s_len(self.ctype), add(i, 9)))
            s.set(boundary=s_cat(b"--" if isinstance(b, bytes) else s_lit(b"--"), b))
            self.next_part(D, s, 0)
            return
        if s.mode == "scan":
            if not D(ult(s.k, s_len(s.value))) or D(eq(s_at(s.value, s.k), 34, 8)):
                s.set(name=e, value=e, k=0, mode="lf" if D(eq(s_at(src, s.pos), 13, 8)) else "name", pos=add(s.pos, 1))
            else:
                s.set(field=s_app(s.field, s_at(s.value, s.k)), k=add(s.k, 1))
            return
        if D(ule(n, s.pos)):
            return self.fin(s, s.found)
        if s.mode == "start":
            s.set(name=e, value=e, field=e, ctype=e, mime=False, mode="cr", pos=add(s.pos, s_len(s.boundary)))
            return
        if s.mode == "data":
            nx = self.search(D, s, s.pos)
            end = nx
            if D(ule(2, sub(nx, s.pos))):
                if D(And(eq(s_at(src, sub(nx, 2)), 13, 8), eq(s_at(src, sub(nx, 1)), 10, 8))):
                    end = sub(nx, 2)
            body = s_sub(src, s.pos, sub(end, s.pos))
            s.set(dict=d_ins(s.dict, s.field, b64_of(body, s.ctype) if s.mime else body), found=True, mode="start", pos=nx)
            return
        c = s_at(src, s.pos)
        if s.mode == "cr":
            if D(eq(c, 13, 8)):
                s.set(mode="lf")
            elif D(eq(c, 10, 8)):
                s.set(mode="name")
            elif D(eq(c, 45, 8)) and D(ult(add(s.pos, 1), n)) and D(eq(s_at(src, add(s.pos, 1)), 45, 8)):
                return self.fin(s, True)
            else:
                return self.fin(s, False)
        elif s.mode == "lf":
            if not D(eq(c, 10, 8)):
                return self.fin(s, False)
            s.set(mode="name")
        elif s.mode == "name":
            if D(oneof(c, b"\r\n")):
                cr = D(eq(c, 13, 8))
                if D(eq(s_len(s.name), 0)):
                    if cr:
                        s.set(mode="lastlf")
                    elif self.named(D, s):
                        return
                else:
                    s.set(name=e, mode="lf" if cr else "name")
            elif D(eq(c, 58, 8)):
                s.set(mode="space")
            else:
                s.set(name=s_app(s.name, c))
        elif s.mode == "space":
            if D(eq(c, 13, 8)):
                s.set(name=e, mode="lf")
            elif D(eq(c, 10, 8)):
                s.set(name=e, mode="name")
            elif not D(eq(c, 32, 8)):
                s.set(value=s_app(s.value, c), mode="value")
        elif s.mode == "value":
            if D(oneof(c, b"\r\n")):
                if D(s_ieq(s.name, b"Content-Type")):
                    s.set(ctype=s.value, mime=not D(s_ieq(clamp(D, s.value, 0, 5), b"text/")))
                elif D(s_ieq(s.name, b"Content-Disposition")):
                    i = found_at(D, s.value, s_find(s.value, b'name="', 0), b'name="', 0)
                    if not D(eq(i, NPOS)):
                        s.set(mode="scan", k=add(i, 6))
                        return
                s.set(name=e, value=e, mode="lf" if D(eq(c, 13, 8)) else "name")
            else:
                s.set(value=s_app(s.value, c))
        elif s.mode == "lastlf":
            if not D(eq(c, 10, 8)):
                return self.fin(s, False)
            if self.named(D, s):
                return
        s.set(pos=add(s.pos, 1))


def data_uri_contract(vm, st, a, ins):
    if not isinstance(a[1], Ptr) or a[1].r is None:
        return 0
    t = lib.raw(vm, st, a[1], a[2])
    lib.sets(st, a[0], s_uf("data_uri", t, lib.gets(st, a[3])))
    return 1


LOOK2 = lib.make_lookup(extra=[(r"^pion::algorithm::url_decode\(", url_decode_contract), (r"^pion::http::parser::binary_2base64\(", data_uri_contract)])
PM = r"^pion::http::parser::parse_multipart_form_data\("
MP = Multipart(TEXT, CT)
MSIG = [("dict", DICT), ("in", CT), ("buf", BUFV, LEN), ("val", LEN)]
U_MP = Unit("parse_multipart_form_data", SRC, lambda prog: Fn(prog, PM, MSIG, MP, lambda: MP.start(DICT), pairs_post,
            envpc=[ult(LEN, MAXLEN), ult(0, LEN)], lookup=LOOK2, env=[LEN, DICT, CT]))
U_MPNULL = Unit("parse_multipart_form_data(null)", SRC, lambda prog: Fn(prog, PM, [("dict", DICT), ("in", CT), ("val", NULL), ("val", LEN)], Nothing(), Nothing().start, null_post,
                lookup=LOOK2, env=[LEN, DICT, CT]))
U_MPEMPTY = Unit("parse_multipart_form_data(empty)", SRC, lambda prog: Fn(prog, PM, [("dict", DICT), ("in", CT), ("buf", BUFV, LEN), ("val", 0)], Nothing(), Nothing().start, null_post,
                 lookup=LOOK2, env=[LEN, DICT, CT]))

URI = z3.Const("uri", S)


class SplitUri(Spec):
    """proto://host:port/path?query"""

    def __init__(self, uri):
        self.uri = uri

    def start(self):
        e = b"" if isinstance(self.uri, bytes) else s_empty
        return SpecState({"ok": None}, {"proto": e, "host": e, "port": 0, "path": e, "query": e})

    def step(self, D, s):
        u = self.uri
        n = s_len(u)
        e = b"" if isinstance(u, bytes) else s_empty
        s.ctrl["done"] = 1
        i = s_find(u, b"://", 0)
        proto, rest = e, 0
        if not D(eq(i, NPOS)):
            proto, rest = s_sub(u, 0, i), add(i, 3)
        j = s_findc(u, 47, rest)
        haspath = not D(eq(j, NPOS))
        if not haspath:
            j = n
        server = s_sub(u, rest, sub(j, rest))
        k = s_findc(server, 58, 0)
        hasport = not D(eq(k, NPOS))
        host = s_sub(server, 0, k) if hasport else server
        s.ctrl["ok"] = False
        if D(eq(s_len(host), 0)):
            return
        if hasport:
            pt = s_sub(server, add(k, 1), sub(s_len(server), add(k, 1)))
            if not D(s_lexok(pt, -32)):
                return
            v = s_lexval(pt, -32)
            if D(ult(65535, v, 32)):
                return
            port = bits(v, 15, 0, 16)
        elif D(Or(s_eq(proto, b"http"), s_eq(proto, b"HTTP"))):
            port = 80
        elif D(Or(s_eq(proto, b"https"), s_eq(proto, b"HTTPS"))):
            port = 443
        else:
            port = 0
        path, query = (b"/" if isinstance(u, bytes) else s_lit(b"/")), e
        if haspath:
            path = s_sub(u, j, sub(n, j))
            q = s_findc(path, 63, 0)
            if not D(eq(q, NPOS)):
                query = s_sub(path, add(q, 1), sub(s_len(path), add(q, 1)))
                path = s_sub(path, 0, q)
        s.ctrl["ok"] = True
        s.set(proto=proto, host=host, port=port, path=path, query=query)


def uri_post(sim, st, ret, s, f):
    vm = sim.vm
    vm.oblige(st, Not(eq(ret, 0, 1)) if s.ok else eq(ret, 0, 1), "the result says whether the URI was accepted", "post")
    if s.ok:
        for i, n in ((1, "proto"), (2, "host"), (4, "path"), (5, "query")):
            vm.oblige(st, s_eq(f.string(st, i), s.data[n]), "the %s is split off exactly" % n, "post")
        vm.oblige(st, eq(f.cell(sim, st, 3, IntTy(16)), s.port, 16), "the port is the number given, or the scheme's", "post")


U_URI = unit("parse_uri", r"^pion::http::parser::parse_uri\(", SplitUri(URI), lambda: SplitUri(URI).start(), uri_post,
             sig=[("in", URI), "out", "out", ("cell", 2, z3.BitVec("port0", 16)), "out", "out"], env=[URI, z3.BitVec("port0", 16)])


# ------------------------------------------------------------------ concrete contract evaluation on the real code
DRV = ["/verif/drivers/http.cpp", "src/http_parser.cpp", "src/http_message.cpp", "src/http_types.cpp", "src/algorithm.cpp"]
LIBS = ["-lboost_regex", "-lboost_thread", "-lboost_system", "-lpthread", "-lssl", "-lcrypto"]
OLD = ((b"Old", b"kept"),)


def fromhex(h):
    return b"" if h == "-" else bytes.fromhex(h)


def readdict(ws):
    return sorted((fromhex(w.split(":")[0]), fromhex(w.split(":")[1])) for w in ws if w)


def dict_judge(spec, start):
    def judge(case, out):
        if len(case[1]) > 500000:       # the limit on values: too long for the executable specification
            ok = case[1].count(b"b") <= VALUE_MAX
            return None if out[0] == ("1" if ok else "0") else "value limit: expected %s" % ("acceptance" if ok else "rejection")
        s = concrete_run(spec(case), start(spec(case)))
        if out[0] != ("1" if s.ok else "0"):
            return "expected %s" % ("acceptance" if s.ok else "rejection")
        want = sorted(s.dict)
        got = readdict(out[1:])
        return None if got == want else "expected the pairs %r, got %r" % (want, got)
    return judge


def pick(rng, words, n):
    return b"".join(rng.choice(words) for _ in range(n))


def some(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


UPW = [b"a", b"b", b"name", b"=", b"&", b"%41", b"%", b"%0", b"+", b",", b"\r", b"\n", b"\t", b"\0", b"\x7f", b"\xe9", b"A=B", b"&&", b"==", b"Old"]
CKW = [b"a", b"b", b"=", b";", b",", b" ", b"'", b'"', b"\t", b"\x01", b"\x7f", b"\xe9", b"$Path", b"Path", b"path", b"expires", b"Expires", b"HttpOnly", b"Max-Age",
       b"Secure", b"Domain", b"Comment", b"Version", b"x=1; ", b'x="y"', b"$", b"= ", b"=\"", b"Old"]
MPW = [b"--XX", b"--XX--", b"--XX", b"\r\n", b"\r\n", b"\r", b"\n", b"Content-Disposition: form-data; name=\"f\"", b"content-disposition:name=\"g\"; filename=\"x\"", b"Content-Type: text/plain",
       b"Content-Type: application/x", b"Content-Type: TEXT/x", b"X-Other: y", b"name=\"", b":", b" ", b"-", b"data", b"--X", b"\0\xff", b"Content-Disposition: name=\"\"",
       b"--XX\r\nContent-Disposition: form-data; name=\"h\"\r\n\r\nvalue\r\n", b"\r\n--XX--"]
CTW = [b"multipart/form-data; boundary=XX", b"boundary=XX", b"multipart/form-data", b"x; boundary=", b"boundary=X", b"boundary=boundary=XX", b""]
URW = [b"http", b"https", b"HTTP", b"HTTPS", b"ftp", b"://", b":", b"/", b"//", b"?", b"host", b"h", b"80", b"65535", b"65536", b"99999999999", b"-1", b"+7", b"08", b" ", b"a b", b"#", b"0", b"", b"\xff"]


def gen_up(rng, n, hints):
    for a in range(256):
        yield ("up", b"n" + bytes([a]) + b"=v" + bytes([a]) + b"&x=y")
    for k in (NAME_MAX - 1, NAME_MAX, NAME_MAX + 1):
        yield ("up", b"a" * k + b"=b")
        yield ("up", b"a=" + b"b" * k)
    for k in (VALUE_MAX - 1, VALUE_MAX, VALUE_MAX + 1):
        yield ("up", b"a=" + b"b" * k + b"&c=d")
    for _ in range(n):
        yield ("up", pick(rng, UPW, rng.randrange(12)))


def gen_ck(rng, n, hints):
    for z in (0, 1):
        for a in range(256):
            yield ("ck", b"n" + bytes([a]) + b"=v" + bytes([a]) + b"; x=y", z)
            yield ("ck", b"n=\"v" + bytes([a]) + b"\"" + bytes([a]) + b"; x=y", z)
        for k in (NAME_MAX - 1, NAME_MAX, NAME_MAX + 1):
            yield ("ck", b"a" * k + b"=b", z)
        for k in (VALUE_MAX - 1, VALUE_MAX, VALUE_MAX + 1):
            yield ("ck", b"a=" + b"b" * k + b";c=d", z)
            yield ("ck", b"a=\"" + b"b" * k + b"\";c=d", z)
    for _ in range(n):
        yield ("ck", pick(rng, CKW, rng.randrange(12)), rng.randrange(2))


def gen_mp(rng, n, hints):
    good = b"--XX\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nvalue\r\n--XX\r\nContent-Type: image/x\r\nContent-Disposition: form-data; name=\"b\"; filename=\"q\"\r\n\r\n\0\1\2\xff\r\n--XX--\r\n"
    for k in range(len(good)):
        yield ("mp", good[:k], CTW[0])
        for c in (10, 13, 45, 58, 34, 32, 0, 255):
            yield ("mp", good[:k] + bytes([c]) + good[k + 1:], CTW[0])
        yield ("mp", good[:k] + good[k + 1:], CTW[0])
    for w in CTW:
        yield ("mp", good, w)
    for _ in range(n):
        yield ("mp", pick(rng, MPW, rng.randrange(14)), rng.choice(CTW) if rng.random() < 0.1 else CTW[0])


def gen_uri(rng, n, hints):
    for w in (b"http://h/p?q", b"http://h", b"http://h:81/p", b"https://h/", b"h:1/p?", b"h?q", b"HTTP://h:0/a?b?c", b"http:///p", b"http://h:/p", b"http://h:65536/p", b"http://h:65535/p", b"://h", b""):
        yield ("uri", w)
    for k in range(0, 70000, 4999):
        yield ("uri", b"http://h:%d/p" % k)
    for _ in range(n):
        yield ("uri", pick(rng, URW, rng.randrange(9)))


def judge_uri(case, out):
    s = concrete_run(SplitUri(case[1]), SplitUri(case[1]).start())
    if out[0] != ("1" if s.ok else "0"):
        return "expected %s" % ("acceptance" if s.ok else "rejection")
    if s.ok:
        want = [s.proto, s.host, s.port, s.path, s.query]
        got = [fromhex(out[1]), fromhex(out[2]), int(out[3]), fromhex(out[4]), fromhex(out[5])]
        if want != got:
            return "expected %r, got %r" % (want, got)


def audit(name, gen, judge, quick=3000):
    return Audit(name, DRV, gen, judge, shim=True, libs=LIBS, quick=quick, deep=40000)


A_UP = audit("http_up", gen_up, dict_judge(lambda c: UrlPairs(c[1]), lambda s: s.start(OLD)))
A_CK = audit("http_ck", gen_ck, dict_judge(lambda c: Cookies(c[1], c[2]), lambda s: s.start(OLD)))
A_MP = audit("http_mp", gen_mp, dict_judge(lambda c: Multipart(c[1], c[2]) if c[1] else Empty(), lambda s: s.start(OLD)))
A_URI = audit("http_uri", gen_uri, judge_uri)


class Empty(Spec):
    def start(self, dic):
        return SpecState({"done": 1, "ok": True}, {"dict": dic})


def property(pid):
    if pid == "C10":
        return Property(pid, [U_URLPAIRS, U_URLNULL], [], A_UP, TRUST, ASSUME)
    if pid == "C11":
        return Property(pid, [u_cookie(0), u_cookie(1)], [], A_CK, TRUST, ASSUME)
    if pid == "C13":
        return Property(pid, [U_URI], [], A_URI, TRUST, ASSUME)
    if pid == "C12":
        return Property(pid, [U_MP, U_MPNULL, U_MPEMPTY], [], A_MP, TRUST, ASSUME)
    raise KeyError(pid)
