"""C08: the dictionaries of a message; C09: what a message is written as."""
from runner import Unit, Property, Lemma
from common import *
from objs import *
from p_types import date_of, enc, head_audit
from p_http import fromhex

MSRC = ["/verif/harness/h_message.cpp", "src/http_types.cpp"]
HDRS, COOK, QUER = z3.Const("headers0", D), z3.Const("cookies0", D), z3.Const("queries0", D)
KEY, VAL, PATHV = z3.Const("key", S), z3.Const("val", S), z3.Const("path", S)
BODY = z3.Const("body0", S)
CBLEN = z3.BitVec("cblen0", 64)
TEXT0 = z3.Const("written0", S)
DIC0 = z3.Const("dict0", D)
X = z3.BitVec("x", 64)


def lit(t):
    return s_lit(t if isinstance(t, bytes) else t.encode())


def cat(*xs):
    out = s_empty
    for x in xs:
        out = s_cat(out, x if is_sym(x) else lit(x))
    return out


def lexstr(v, w):
    return uf("lexstr%d" % w, BV(abs(w)), S)(bv(v, abs(w)))


REQ_FIELDS = {"m_method": STR, "m_resource": STR, "m_original_resource": STR, "m_query_string": STR, "m_query_params": DIC}
RES_FIELDS = {"m_status_code": U32, "m_status_message": STR, "m_request_method": STR}
BOOLS = ("m_is_valid", "m_is_chunked", "m_chunks_supported", "m_do_not_send_content_length", "m_has_missing_packets", "m_has_data_after_missing")


class Obj:
    """an arbitrary request or response"""

    def __init__(self, prog, req, rid="msg", tag="m"):
        self.prog, self.req, self.rid, self.tag = prog, req, rid, tag
        self.K = K = konst(prog)
        self.f = {}
        for pre, fields in (("m_", MESSAGE), ("rq_" if req else "rs_", REQ_FIELDS if req else RES_FIELDS)):
            for n, (kind, size) in fields.items():
                if pre + n not in K:
                    raise Unsupported("no field " + n)
                self.f[n] = (K[pre + n], kind, size)
        self.f["cb_len"] = (K["m_m_content_buf"] + K["cb_len"], "int", 8)
        self.f["m_chunk_cache"] = (K["m_m_chunk_cache"], "str", 24)
        self.v0 = {}
        self.syms = set()

    def place(self, vm, st):
        K = self.K
        vm.konst, vm.msgclass, vm.fresh_regions = K, "request" if self.req else "response", 0
        vm.new_region(st, self.rid, "obj", K["size_request" if self.req else "size_response"])
        for n, (off, kind, size) in self.f.items():
            nm = "%s.%s" % (self.tag, n)
            v = {"m_headers": HDRS, "m_cookie_params": COOK, "m_query_params": QUER, "cb_len": CBLEN}.get(n) if self.tag == "m" else None
            if v is None:
                v = z3.Const(nm, S) if kind == "str" else z3.Const(nm, D) if kind == "dict" else z3.BitVec(nm, 8 * size)
            self.syms |= {str(v)}
            self.v0[n] = v
            if n in BOOLS:
                st.assume(ule(v, 1, 8))
            if kind in ("str", "dict"):
                st.objs[(self.rid, off)] = (kind, v)
            else:
                st.cells(self.rid)[off] = (size, v)
        body = "body" + ("" if self.tag == "m" else self.tag)
        t = z3.Const(body + "0", S)
        self.syms |= {body + "0", str(self.v0["cb_len"])}
        st.objs[(body, 0)] = ("str", t)
        r = vm.new_region(st, "content" + self.tag, "log", self.v0["cb_len"])
        r.meta = (body, 0)
        st.assume(eq(s_len(t), self.v0["cb_len"]))
        st.assume(ult(self.v0["cb_len"], MAXLEN))
        for n in ("cb_ptr", "cb_buf"):
            st.cells(self.rid)[K["m_m_content_buf"] + K[n]] = (8, Ptr(r, 0))
        st.cells(self.rid)[0] = (8, Ptr(vm.gregion("_ZTVN4pion4http7requestE" if self.req else "_ZTVN4pion4http8responseE"), 16))
        return Ptr(st.regions[self.rid], 0)

    def get(self, vm, st, n):
        off, kind, size = self.f[n]
        p = Ptr(st.regions[self.rid], off)
        return lib.gets(st, p) if kind == "str" else lib.getd(st, p) if kind == "dict" else vm.load(st, p, IntTy(8 * size), self.prog.mods[0])

    def body(self, vm, st):
        """the bytes get_content() gives"""
        p = vm.load(st, Ptr(st.regions[self.rid], self.K["m_m_content_buf"] + self.K["cb_ptr"]), PTR, self.prog.mods[0])
        if not isinstance(p, Ptr) or p.r is None or p.o != 0:
            raise Unsupported("content buffer")
        return st.objs[p.r.meta][1] if p.r.kind == "log" else s_empty

    def same(self, vm, st, changed=(), why="nothing else of the message changes"):
        """frame: fields other than those given are as they were"""
        for n in self.f:
            if n in changed:
                continue
            off, kind, size = self.f[n]
            v = self.get(vm, st, n)
            g = s_eq(v, self.v0[n]) if kind == "str" else (True if v.eq(self.v0[n]) else eq(v, self.v0[n])) if kind == "dict" else eq(v, self.v0[n], 8 * size)
            vm.oblige(st, g, why + ": " + n, "frame")


# ------------------------------------------------------------------ contracts of what is called
def changed(d, k, v):
    """the dictionary with v as the only value of k"""
    return d_ins(d_erase(d, k), k, v)


def c_change(vm, st, a, ins):
    lib.setd(st, a[0], changed(lib.getd(st, a[0]), lib.gets(st, a[1]), lib.gets(st, a[2])))


C_CHANGE = (r"^void pion::http::message::change_value<", c_change)


def c_setcookie(vm, st, a, ins):
    lib.sets(st, a[0], setcookie(lib.gets(st, a[1]), lib.gets(st, a[2]), lib.gets(st, a[3]), a[4], a[5]))


def setcookie(name, value, path, has, age):
    return uf("set_cookie_header", S, S, S, BV(1), BV(64), S)(term(name), term(value), term(path), bv(has, 1), b64(age))


def c_date(vm, st, a, ins):
    lib.sets(st, a[0], uf("date_string", BV(64), S)(b64(a[1])))


def c_query(vm, st, a, ins):
    lib.sets(st, a[0], uf("query_string", D, S)(lib.getd(st, a[1])))


C_TYPES = [(r"^pion::http::types::make_set_cookie_header", c_setcookie), (r"^pion::http::types::get_date_string", c_date), (r"^pion::http::types::make_query_string", c_query)]


def c_resize(vm, st, a, ins):
    K = vm.konst
    p, n = a[0], a[1]
    vm.fresh_regions += 1
    b = ("body%d" % vm.fresh_regions, 0)
    st.objs[b] = ("str", s_empty)
    r = vm.new_region(st, "content%d" % vm.fresh_regions, "log", n)
    r.meta = b
    vm.store(st, Ptr(p.r, add(p.o, K["cb_len"])), n, IntTy(64), vm.p.mods[0])
    vm.store(st, Ptr(p.r, add(p.o, K["cb_ptr"])), Ptr(r, 0), PTR, vm.p.mods[0])


C_RESIZE = (r"^pion::http::message::content_buffer_t::resize\(", c_resize)


# write buffers: the text they refer to, one after the other
WB = r"^std::vector<boost::asio::const_buffer, std::allocator<boost::asio::const_buffer>>::"


def wb(st, p):
    o = st.objs.get(lib.key(p))
    if o is None or o[0] != "wb":
        raise Unsupported("write buffers that were not constructed")
    return o


def c_wb_push(vm, st, a, ins):
    m = vm.p.mods[0]
    data, n = vm.load(st, a[1], PTR, m), vm.load(st, Ptr(a[1].r, add(a[1].o, 8)), IntTy(64), m)
    t = lib.raw(vm, st, data, n)
    o = wb(st, a[0])
    st.objs[lib.key(a[0])] = ("wb", s_cat(o[1], t), uf("wadd", D, S, D)(o[2], t))


WEMPTY = z3.Const("wempty", D)


def w_size(w):
    return uf("wsize", D, BV(64))(w)


def w_at(w, i):
    return uf("wat", D, BV(64), S)(w, b64(i))


def c_wb_new(vm, st, a, ins):
    st.objs[lib.key(a[0])] = ("wb", s_empty, WEMPTY)


def c_wb_del(vm, st, a, ins):
    st.objs.pop(lib.key(a[0]), None)


def wb_iter(st, p, i):
    k = lib.key(p)
    rid = "wi:%s+%d" % k
    r = st.regions.get(rid) or Region(rid, "witer", None, k)
    st.regions[rid] = r
    return Ptr(r, i)


def c_wb_begin(vm, st, a, ins):
    return wb_iter(st, a[0], 0)


def c_wb_end(vm, st, a, ins):
    return wb_iter(st, a[0], w_size(wb(st, a[0])[2]))


C_WB = [(WB + r"push_back\(boost::asio::const_buffer( const&|&&)\)$", c_wb_push), (WB + r"vector\(\)$", c_wb_new), (WB + r"~vector\(\)$", c_wb_del),
        (WB + r"c?begin\(\)( const)?$", c_wb_begin), (WB + r"c?end\(\)( const)?$", c_wb_end)]


def c_toupper(vm, st, a, ins):
    c = a[0]
    if isinstance(c, int):
        return c - 32 if 97 <= (c & 255) <= 122 else c
    return z3.If(tobool(inrange(c, 97, 122)), bv(c, 8) - 32, bv(c, 8))


def c_combine(vm, st, a, ins):
    m = vm.p.mods[0]
    s, c = vm.load(st, a[0], IntTy(64), m), vm.load(st, a[1], IntTy(8), m)
    vm.store(st, a[0], comb(s, c), IntTy(64), m)


def comb(s, c):
    return uf("hash_combine", BV(64), BV(8), BV(64))(b64(s), bv(c, 8))


def c_tolower(vm, st, a, ins):
    c = a[0]
    if isinstance(c, int):
        return c + 32 if 65 <= (c & 255) <= 90 else c
    return z3.If(tobool(inrange(c, 65, 90)), bv(c, 8) + 32, bv(c, 8))


C_CASE = [(r"^char std::toupper<char>\(", c_toupper), (r"^char std::tolower<char>\(", c_tolower), (r"^void boost::hash_combine<char>\(", c_combine)]
LOOK = lambda *extra: lib.make_lookup(extra=EXTRA + list(extra))


# ------------------------------------------------------------------ C08: ihash and iequal_to
class Fold(Spec):
    """the hash depends on the upper-case (or lower-case) characters alone, in order"""

    def __init__(self, up):
        self.up = up

    def start(self):
        return SpecState({}, {"pos": 0, "seed": 0})

    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(KEY))]

    def step(self, D, s):
        if D(ule(s_len(KEY), s.pos)):
            s.ctrl["done"] = 1
            s.set(pos=s_len(KEY))
            return
        c = s_at(KEY, s.pos)
        s.set(pos=add(s.pos, 1), seed=comb(s.seed, (c_toupper if self.up else c_tolower)(None, None, [c], None)))


def hash_post(sim, st, ret, s, f):
    sim.vm.oblige(st, eq(ret, s.seed, 64), "the hash is a function of the characters without their case", "post")


def hash_unit(up):
    return lambda prog: Fn(prog, r"^pion::ihash::operator\(\)", [("cell", 1, z3.BitVec("this", 8)), ("in", KEY)], Fold(up), Fold(up).start, hash_post, lookup=LOOK(*C_CASE), env=[KEY, z3.BitVec("this", 8)])


U_HASH = Unit("ihash::operator()", MSRC, hash_unit(True), extra=NOACC, other=hash_unit(False))


def iequal(self, vm):
    st = State()
    for n, t in (("this", None), ("x", KEY), ("y", VAL)):
        vm.new_region(st, n, "obj", 32)
        if t is not None:
            st.objs[(n, 0)] = ("str", t)
    for kind, s, v in self.call(vm, st, r"^pion::iequal_to::operator\(\)", [Ptr(st.regions[n], 0) for n in ("this", "x", "y")]):
        vm.oblige(s, kind == "ret", "no exception", "post")
        if kind == "ret":
            vm.oblige(s, eq(zbool(Not(eq(v, 0, 1))), zbool(s_ieq(KEY, VAL))), "names are equal if their characters are, without regard to case", "post")


U_IEQ = Unit("iequal_to::operator()", MSRC, lambda prog: Straight(prog, iequal, LOOK(*C_CASE)), extra=NOACC)


def lemma_hash():
    """equal names have equal hashes: one step of the induction, for both foldings"""
    L = LemmaCtx()
    a, b, s = z3.BitVec("a", 8), z3.BitVec("b", 8), z3.BitVec("s", 64)
    for f in (c_toupper, c_tolower):
        fa, fb = f(None, None, [a], None), f(None, None, [b], None)
        L.prove("characters equal without regard to case keep equal hashes equal (%s)" % f.__name__, [c_tolower(None, None, [a], None) == c_tolower(None, None, [b], None)], comb(s, fa) == comb(s, fb))
        L.cover("two characters that differ in case (%s)" % f.__name__, [fa == fb, a != b])
    return L.out


# ------------------------------------------------------------------ C08: get, has, add, change, delete
class Change(Spec):
    """the first value is replaced, the others are removed one after the other"""

    def start(self):
        return SpecState({}, {"pos": 1, "dict": self.at(1)})

    def at(self, i):
        return lib.d_rm(lib.d_set1(DIC0, KEY, VAL), KEY, 1, i)

    def facts(self, s):
        return [lambda d: Or(Not(d_has(DIC0, KEY)), ule(d["pos"], lib.d_count(DIC0, KEY))), lambda d: ule(1, d["pos"]), lambda d: eq(d["dict"], self.at(d["pos"]))]

    def step(self, D, s):
        n = lib.d_count(DIC0, KEY)
        if not D(d_has(DIC0, KEY)) or D(ule(n, s.pos)):
            s.ctrl["done"] = 1
            return
        s.set(pos=add(s.pos, 1), dict=self.at(add(s.pos, 1)))


def change_post(sim, st, ret, s, f):
    vm = sim.vm
    d, n = f.dict(st, 0), lib.d_count(DIC0, KEY)
    for s2, had in vm.branch(st, d_has(DIC0, KEY)):
        forms = [changed(DIC0, KEY, VAL)]
        if had:
            forms.append(lib.d_rm(lib.d_set1(DIC0, KEY, VAL), KEY, 1, n))
        else:
            forms.append(d_ins(DIC0, KEY, VAL))
        vm.oblige(s2, Or(*[True if d.eq(x) else eq(d, x) for x in forms]), "the new value is the only one of its name; other names keep theirs", "post")


class ChangeOnce(Spec):
    def start(self):
        return SpecState({}, {"pos": 0})

    def step(self, D, s):
        s.ctrl["done"] = 1


CV = r"^void pion::http::message::change_value<"


def change_unit(spec):
    return lambda prog: Fn(prog, CV, [("dict", DIC0), ("in", KEY), ("in", VAL)], spec, spec.start, change_post, lookup=LOOK(), env=[DIC0, KEY, VAL])


U_CHANGE = Unit("message::change_value", MSRC, change_unit(Change()), extra=NOACC, other=change_unit(ChangeOnce()))


def strargs(vm, st, **kw):
    out = []
    for n, t in kw.items():
        vm.new_region(st, n, "obj", 32)
        st.objs[(n, 0)] = ("str", t)
        out.append(Ptr(st.regions[n], 0))
    return out


class ObjRun(Straight):
    """member functions of arbitrary requests and responses"""

    def __init__(self, prog, body, *contracts):
        Straight.__init__(self, prog, body, LOOK(*contracts))

    def globals(self, vm, st):
        for n in sorted(self.prog.fn):
            if n.startswith("_GLOBAL__sub_I_http_types"):
                outs = list(self.run(vm, st, n, []))
                if len(outs) != 1 or outs[0][0] != "ret":
                    raise Unsupported("initialisers of the string constants")
                st = outs[0][1]
        return st

    def obj(self, vm, req):
        o = Obj(self.prog, req)
        st = self.globals(vm, State())
        st.ghost["calls"] = ""
        return o, st, o.place(vm, st)

    def runs(self, vm, st, pat, args, what):
        n = 0
        for kind, s, v in self.call(vm, st, pat, args):
            n += 1
            vm.oblige(s, kind == "ret", what + " raises no exception", "post")
            if kind == "ret":
                yield s, v
        vm.oblige(st, n > 0, what + " returns", "post")


MG, RQ, RS = r"^pion::http::message::", r"^pion::http::request::", r"^pion::http::response::"


def accessors(self, vm):
    for req, pre, what, field, d in ((True, MG, "header", "m_headers", HDRS), (True, MG, "cookie", "m_cookie_params", COOK), (True, RQ, "query", "m_query_params", QUER)):
        # get, has
        o, st, p = self.obj(vm, req)
        k, = strargs(vm, st, k=KEY)
        for s, v in self.runs(vm, st, pre + r"get_%s\(string const&\) const" % what, [p, k], "get_" + what):
            got = lib.gets(s, v)
            o.same(vm, s)
            for s2, has in vm.branch(s, d_has(d, KEY)):
                vm.oblige(s2, s_eq(got, d_get(d, KEY) if has else s_empty), "get_%s gives the value of that name, or nothing" % what, "post")
        o, st, p = self.obj(vm, req)
        k, = strargs(vm, st, k=KEY)
        for s, v in self.runs(vm, st, pre + r"has_%s\(string const&\) const" % what, [p, k], "has_" + what):
            vm.oblige(s, eq(zbool(Not(eq(v, 0, 1))), zbool(d_has(d, KEY))), "has_%s says whether there is one" % what, "post")
            o.same(vm, s)
        for op, want in (("add", d_ins(d, KEY, VAL)), ("change", changed(d, KEY, VAL)), ("delete", None)):
            o, st, p = self.obj(vm, req)
            a = strargs(vm, st, k=KEY, v=VAL)
            for s, v in self.runs(vm, st, pre + r"%s_%s\(" % (op, what), [p] + a[:1 if op == "delete" else 2], op + "_" + what):
                o.same(vm, s, {field})
                new = o.get(vm, s, field)
                if want is not None:
                    vm.oblige(s, True if new.eq(want) else eq(new, want), "%s_%s does that to the %s dictionary" % (op, what, what), "post")
                else:
                    for s2, has in vm.branch(s, d_has(d, KEY)):
                        w = d_erase(d, KEY)
                        vm.oblige(s2, Or(True if new.eq(w) else eq(new, w), False if has else True if new.eq(d) else eq(new, d)), "delete_%s removes every value of that name" % what, "post")


U_ACC = Unit("get/has/add/change/delete of headers, cookies and queries", MSRC, lambda prog: ObjRun(prog, accessors, C_CHANGE), extra=NOACC)


# ------------------------------------------------------------------ C09: first lines and setters
def version(o, maj=None, mi=None):
    return cat(b"HTTP/", lexstr(o.v0["m_version_major"] if maj is None else maj, 16), b".", lexstr(o.v0["m_version_minor"] if mi is None else mi, 16))


def first_line(o, s, vm):
    """-> [(state, text)]"""
    g = lambda n: o.v0[n]
    if not o.req:
        return [(s, cat(version(o), b" ", lexstr(g("m_status_code"), 32), b" ", g("m_status_message")))]
    out = []
    for s2, noq in vm.branch(s, eq(s_len(g("m_query_string")), 0)):
        t = cat(g("m_method"), b" ", g("m_resource"))
        if not noq:
            t = cat(t, b"?", g("m_query_string"))
        out.append((s2, cat(t, b" ", version(o))))
    return out


def first_lines(self, vm):
    for req in (True, False):
        what = "request" if req else "response"
        for fresh in (True, False):
            o, st, p = self.obj(vm, req)
            off = o.f["m_first_line"][0]
            if fresh:
                st.objs[("msg", off)] = ("str", s_empty)
                o.v0["m_first_line"] = s_empty
            else:
                st.assume(Not(eq(s_len(o.v0["m_first_line"]), 0)))
            for s, v in self.runs(vm, st, MG + r"get_first_line(\[abi:cxx11\])?\(\) const", [p], "get_first_line"):
                got = lib.gets(s, v)
                o.same(vm, s, {"m_first_line"})
                for s2, t in (first_line(o, s, vm) if fresh else [(s, o.v0["m_first_line"])]):
                    vm.oblige(s2, s_eq(got, t), "the first line of a %s is made of its parts, or is the one made before" % what, "post")
        for fn, args, field, val in (((MG + r"set_version_major\(", [z3.BitVec("n", 16)], "m_version_major", z3.BitVec("n", 16)), (MG + r"set_version_minor\(", [z3.BitVec("n", 16)], "m_version_minor", z3.BitVec("n", 16)))
                                     + (((RQ + r"set_method\(", "s", "m_method", VAL), (RQ + r"set_resource\(", "s", "m_resource", VAL), (RQ + r"change_resource\(", "s", "m_resource", VAL), (RQ + r"set_query_string\(", "s", "m_query_string", VAL)) if req else
                                        ((RS + r"set_status_code\(", [z3.BitVec("c", 32)], "m_status_code", z3.BitVec("c", 32)), (RS + r"set_status_message\(", "s", "m_status_message", VAL)))):
            o, st, p = self.obj(vm, req)
            if args == "s":
                args = strargs(vm, st, v=VAL)
            for s, v in self.runs(vm, st, fn, [p] + args, fn[-25:-2]):
                ch = {field, "m_first_line"} | ({"m_original_resource"} if "set_resource" in fn else set())
                o.same(vm, s, ch)
                got = o.get(vm, s, field)
                vm.oblige(s, s_eq(got, val) if args and isinstance(args[0], Ptr) else eq(got, val, val.size()), "%s is set" % field, "post")
                if "set_resource" in fn:
                    vm.oblige(s, s_eq(o.get(vm, s, "m_original_resource"), val), "the original resource is set with it", "post")
                vm.oblige(s, eq(s_len(o.get(vm, s, "m_first_line")), 0), "the first line will be made anew", "post")


U_FIRST = Unit("first lines (get_first_line, update_first_line, setters)", MSRC, lambda prog: ObjRun(prog, first_lines), extra=NOACC)


# ------------------------------------------------------------------ C09: headers for sending
def prepared(s, o, vm, d, keep, chunks, length):
    """-> [(state, headers)] after what the message says about itself was put in"""
    d0, d = d, changed(d, lit("Connection"), lit("Keep-Alive" if keep else "close"))
    out = []

    def both(k, v):
        """the order in which two names are changed makes no difference to the entries of either"""
        return [changed(d, k, v), changed(changed(d0, k, v), lit("Connection"), lit("Keep-Alive" if keep else "close"))]
    if chunks:
        for s2, sup in vm.branch(s, Not(eq(o.v0["m_chunks_supported"], 0, 8))):
            out.append((s2, both(lit("Transfer-Encoding"), lit("chunked")) if sup else [d]))
    else:
        for s2, no in vm.branch(s, Not(eq(o.v0["m_do_not_send_content_length"], 0, 8))):
            out.append((s2, [d] if no else both(lit("Content-Length"), lexstr(length, 64))))
    return out


def prepare(self, vm):
    for keep in (0, 1):
        for chunks in (0, 1):
            o, st, p = self.obj(vm, True)
            for s, v in self.runs(vm, st, MG + r"prepare_headers_for_send\(", [p, keep, chunks], "prepare_headers_for_send"):
                o.same(vm, s, {"m_headers"})
                for s2, d in prepared(s, o, vm, HDRS, keep, chunks, o.v0["m_content_length"]):
                    got = o.get(vm, s2, "m_headers")
                    vm.oblige(s2, True if any(got.eq(x) for x in d) else z3.Or(*[eq(got, x) for x in d]), "connection, transfer encoding and length are said as they are", "post")


U_PREP = Unit("message::prepare_headers_for_send", MSRC, lambda prog: ObjRun(prog, prepare, C_CHANGE), extra=NOACC)


class ObjLoop(Contract):
    """a member function with a loop"""

    def __init__(self, prog, pat, req, spec, init, post, extra=(), wb=False, args=()):
        self.prog, self.pat, self.req, self.spec, self.init, self.post = prog, pat, req, spec, init, post
        self.lookup = LOOK(*extra)
        self.o = Obj(prog, req)
        self.wb, self.args = wb, args
        self.envsyms = set()

    def start(self, sim, st=None):
        vm = sim.vm
        st = st or State()
        for n in sorted(self.prog.fn):
            if n.startswith("_GLOBAL__sub_I_http_types"):
                vm.push(st, n, [])
                outs = list(vm.run(st))
                if len(outs) != 1 or outs[0][0] != "ret":
                    raise Unsupported("initialisers of the string constants")
                st = outs[0][1]
        p = self.o.place(vm, st)
        self.envsyms |= self.o.syms | {"written0", "wlist0"}
        args = [p]
        if self.wb:
            vm.new_region(st, "wb", "obj", 24)
            st.objs[("wb", 0)] = ("wb", TEXT0, z3.Const("wlist0", D))
            args.append(Ptr(st.regions["wb"], 0))
        names = self.prog.find(self.pat)
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (self.pat, len(names)))
        vm.push(st, names[0], args + list(self.args))
        return [(st, self.init() if self.init else None, None)]

    def on_return(self, sim, st, ret, s):
        self.post(sim.vm, st, ret, s, self.o)


class Entries(Spec):
    """one thing done per entry of a dictionary, in its order"""

    def __init__(self, d, out, step, end):
        self.d, self.out, self.one, self.end = d, out, step, end

    def start(self):
        return SpecState({}, {"pos": 0, "out": self.out})

    def facts(self, s):
        return [lambda d: ule(d["pos"], d_size(self.d))]

    def step(self, D, s):
        if D(ule(d_size(self.d), s.pos)):
            s.ctrl["done"] = 1
            s.set(pos=d_size(self.d), out=self.end(s.out))
            return
        s.set(pos=add(s.pos, 1), out=self.one(s.out, d_key(self.d, s.pos), d_val(self.d, s.pos)))


def ah_post(vm, st, ret, s, o):
    vm.oblige(st, s_eq(st.objs[("wb", 0)][1], s.out), "every header is written as its name, ': ', its value and CR LF, and an empty line ends them", "post")
    o.same(vm, st)


def append_headers(prog):
    spec = Entries(HDRS, TEXT0, lambda out, k, v: cat(out, k, b": ", v, b"\r\n"), lambda out: cat(out, b"\r\n"))
    return ObjLoop(prog, MG + r"append_headers\(", True, spec, spec.start, ah_post, C_WB, wb=True)


U_AH = Unit("message::append_headers", MSRC, append_headers, extra=NOACC)


def ch_post(vm, st, ret, s, o):
    d = o.get(vm, st, "m_headers")
    vm.oblige(st, True if d.eq(s.out) else eq(d, s.out), "every cookie becomes a header", "post")
    o.same(vm, st, {"m_headers"})


def append_cookies(req):
    def make(prog):
        one = (lambda out, k, v: d_ins(out, lit("Cookie"), cat(k, b"=", v))) if req else (lambda out, k, v: d_ins(out, lit("Set-Cookie"), setcookie(k, v, lit("/"), 0, 0)))
        spec = Entries(COOK, HDRS, one, lambda out: out)
        return ObjLoop(prog, (RQ if req else RS) + r"append_cookie_headers\(", req, spec, spec.start, ch_post, C_TYPES + [C_CHANGE])
    return make


U_CRQ = Unit("request::append_cookie_headers", MSRC, append_cookies(True), extra=NOACC)
U_CRS = Unit("response::append_cookie_headers", MSRC, append_cookies(False), extra=NOACC)


# ------------------------------------------------------------------ C09: the whole head, in the order it must have
def c_first(vm, st, a, ins):
    """update_first_line (its own contract): makes the first line from the parts"""
    o = vm.theobj
    st.ghost["calls"] += "first;"
    st.objs[("msg", o.f["m_first_line"][0])] = ("str", uf("first_line", S)() if False else z3.Const("first_line", S))


def c_prep(vm, st, a, ins):
    o = vm.theobj
    k = ("msg", o.f["m_headers"][0])
    st.objs[k] = ("dict", uf("prepared", D, BV(1), BV(1), D)(st.objs[k][1], bv(a[1], 1), bv(a[2], 1)))


def c_cookies(vm, st, a, ins):
    o = vm.theobj
    k = ("msg", o.f["m_headers"][0])
    st.objs[k] = ("dict", uf("with_cookies", D, D, D)(st.objs[k][1], o.get(vm, st, "m_cookie_params")))


def c_append(vm, st, a, ins):
    o, w = vm.theobj, wb(st, a[1])
    t = uf("header_text", D, S)(o.get(vm, st, "m_headers"))
    st.objs[lib.key(a[1])] = ("wb", s_cat(w[1], t), uf("wadd", D, S, D)(w[2], t))


def buffers(self, vm):
    KEEP, CH = z3.BitVec("keep", 1), z3.BitVec("chunks", 1)
    for req in (True, False):
        o, st, p = self.obj(vm, req)
        vm.theobj = o
        vm.new_region(st, "wb", "obj", 24)
        st.objs[("wb", 0)] = ("wb", TEXT0, z3.Const("wlist0", D))
        for s, v in self.runs(vm, st, MG + r"prepare_buffers_for_send\(", [p, Ptr(st.regions["wb"], 0), KEEP, CH], "prepare_buffers_for_send"):
            hd = uf("with_cookies", D, D, D)(uf("prepared", D, BV(1), BV(1), D)(HDRS, KEEP, CH), COOK)
            d = o.get(vm, s, "m_headers")
            vm.oblige(s, True if d.eq(hd) else eq(d, hd), "the headers are prepared and the cookies are among them", "post")
            o.same(vm, s, {"m_headers", "m_first_line"})
            for s2, new in vm.branch(s, eq(s_len(o.v0["m_first_line"]), 0)):
                fl = z3.Const("first_line", S) if new else o.v0["m_first_line"]
                vm.oblige(s2, s_eq(s2.objs[("wb", 0)][1], cat(TEXT0, fl, b"\r\n", uf("header_text", D, S)(hd))), "the first line comes first, then every header", "post")


U_BUF = Unit("message::prepare_buffers_for_send", MSRC, lambda prog: ObjRun(prog, buffers, *C_WB, (r"^pion::http::(request|response)::update_first_line\(\) const", c_first), (MG + r"prepare_headers_for_send\(", c_prep),
             (r"^pion::http::(message|request|response)::append_cookie_headers\(", c_cookies), (MG + r"append_headers\(", c_append)), extra=NOACC)


# ------------------------------------------------------------------ C09: writing to a stream
WLIST, WTEXT, CLEN = z3.Const("wlist1", D), z3.Const("wtext1", S), z3.BitVec("m.m_content_length", 64)


def c_prepall(vm, st, a, ins):
    """prepare_buffers_for_send (its own contract): the buffers of the head"""
    vm.oblige(st, And(eq(a[2], 1, 1), eq(a[3], 0, 1)), "the head says that the connection stays open, and that the content is not chunked", "pre")
    w, o = wb(st, a[1]), vm.theobj
    vm.oblige(st, s_eq(w[1], s_empty), "the head comes first", "pre")
    st.objs[lib.key(a[1])] = ("wb", WTEXT, WLIST)
    for n in ("m_first_line", "m_headers"):
        off, kind, size = o.f[n]
        st.objs[("msg", off)] = (kind, z3.Const("sent." + n, S if kind == "str" else D))


def wslot(vm, st, p):
    """the number of the write buffer p points to"""
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != "witer":
        raise Unsupported("a buffer that is not one of the write buffers")
    w = st.objs.get(p.r.meta)
    if w is None or w[0] != "wb":
        raise Unsupported("write buffers that were not constructed")
    vm.oblige(st, ult(p.o, w_size(w[2])), "a write buffer there is", "safety")
    t = w_at(w[2], p.o)
    st.assume(ult(s_len(t), MAXLEN))
    return t


def c_buf_data(vm, st, a, ins):
    t = wslot(vm, st, a[0])
    rid = "wt:" + st.frames[0].path
    r = st.regions.get(rid) or Region(rid, "sd", None, (rid, 0))
    st.regions[rid] = r
    st.objs[(rid, 0)] = ("str", t)
    return Ptr(r, 0)


def c_buf_size(vm, st, a, ins):
    return s_len(wslot(vm, st, a[0]))


def c_wit_inc(vm, st, a, ins):
    p = vm.load(st, a[0], PTR, vm.p.mods[0])
    if not isinstance(p, Ptr) or p.r is None or p.r.kind != "witer":
        raise Unsupported("an iterator over other buffers")
    vm.store(st, a[0], Ptr(p.r, add(p.o, 1)), PTR, vm.p.mods[0])
    return a[0]


def c_wit_post(vm, st, a, ins):
    p = vm.load(st, a[0], PTR, vm.p.mods[0])
    c_wit_inc(vm, st, a, ins)
    return p


def c_wb_at(vm, st, a, ins):
    return wb_iter(st, a[0], a[1])


def c_wb_size(vm, st, a, ins):
    return w_size(wb(st, a[0])[2])


def c_os_write(vm, st, a, ins):
    t = st.objs[("ostream", 0)][1]
    st.objs[("ostream", 0)] = ("str", s_cat(t, lib.raw(vm, st, a[1], a[2])))
    return a[0]


def c_generic(vm, st, a, ins):
    r = st.regions.get("generic category") or vm.new_region(st, "generic category", "obj", 64)
    return Ptr(r, 0)


def broken(t):
    return uf("stream_fails_after", S, BV(1))(term(t))


def c_os_not(vm, st, a, ins):
    return broken(st.objs[("ostream", 0)][1])


def c_os_good(vm, st, a, ins):
    return z3.simplify(~broken(st.objs[("ostream", 0)][1]))


WIT = r"^__gnu_cxx::__normal_iterator<boost::asio::const_buffer( const)?\*, .*>::"
C_STREAM = [(r"^boost::system::generic_category\(\)", c_generic), (r"^boost::asio::const_buffer::data\(\) const", c_buf_data), (r"^boost::asio::const_buffer::size\(\) const", c_buf_size), (r"^unsigned long boost::asio::buffer_size<boost::asio::const_buffer>\(", c_buf_size), (WIT + r"operator\+\+\(\)$", c_wit_inc), (WIT + r"operator\+\+\(int\)$", c_wit_post),
            (WB + r"operator\[\]\(", c_wb_at), (WB + r"size\(\) const", c_wb_size), (r"^std::ostream::write\(", c_os_write), (r"^std::basic_ios<char, .*>::operator!\(\) const", c_os_not),
            (r"^std::basic_ios<char, .*>::fail\(\) const", c_os_not), (r"^std::basic_ios<char, .*>::operator bool\(\) const", c_os_good)]


class Written(Spec):
    """the buffers, one after the other, until the stream fails"""

    def __init__(self, lst):
        self.lst = lst

    def start(self):
        return SpecState({"err": 0}, {"pos": 0, "out": s_empty, "sum": 0})

    def facts(self, s):
        return [lambda d: ule(d["pos"], w_size(self.lst))]

    def step(self, D, s):
        if D(ule(w_size(self.lst), s.pos)):
            s.ctrl["done"] = 1
            s.set(pos=w_size(self.lst))
            return
        t = w_at(self.lst, s.pos)
        out = s_cat(s.out, t)
        if D(eq(broken(out), 1, 1)):
            s.ctrl["done"] = s.ctrl["err"] = 1
            s.set(pos=add(s.pos, 1), out=out)
            return
        s.set(pos=add(s.pos, 1), out=out, sum=add(s.sum, s_len(t)))


class WriteLoop(ObjLoop):
    """message::write: the head only, the head of a message without content, or both"""

    def __init__(self, prog, case):
        ObjLoop.__init__(self, prog, MG + r"write\(", True, None, None, None, C_WB + C_STREAM + EXTRA + [(MG + r"prepare_buffers_for_send\(", c_prepall)])
        self.case = case
        lst = WLIST
        if case == "content":
            lst = uf("wadd", D, S, D)(WLIST, s_sub(BODY, 0, CLEN))
        self.spec = Written(lst)

    def start(self, sim):
        vm = sim.vm
        vm.theobj = self.o
        st = State()
        for n, size in (("ostream", 272), ("ovt", 64), ("ec", 24)):
            vm.new_region(st, n, "obj", size)
        st.cells("ostream")[0] = (8, Ptr(st.regions["ovt"], 24))
        st.cells("ovt")[0] = (8, 8)
        st.objs[("ostream", 0)] = ("str", s_empty)
        self.args = (Ptr(st.regions["ostream"], 0), Ptr(st.regions["ec"], 0), int(self.case == "head"))
        (st, s, e), = ObjLoop.start(self, sim, st)
        if self.case == "content":
            st.assume(And(ult(0, CLEN), ule(CLEN, CBLEN)))
        if self.case == "empty":
            st.assume(eq(CLEN, 0))
        self.envsyms |= {"wlist1", "wtext1", "sent.m_first_line", "sent.m_headers"}
        return [(st, self.spec.start(), None)]

    def on_return(self, sim, st, ret, s):
        vm, o = sim.vm, self.o
        vm.oblige(st, s_eq(st.objs[("ostream", 0)][1], s.out), "every buffer is written, in order, until the stream fails", "post")
        vm.oblige(st, eq(ret, s.sum, 64), "the result is the number of bytes of the buffers written", "post")
        vm.oblige(st, eq(vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0]), 5 if s.err else 0, 32), "the error code says whether the stream failed", "post")
        o.same(vm, st, {"m_first_line", "m_headers"})


def u_write(case):
    return Unit("message::write(%s)" % case, MSRC + ["src/http_message.cpp"], lambda prog: WriteLoop(prog, case), extra=NOACC, shim=True)


# ------------------------------------------------------------------ C09: content, keep-alive
def content(self, vm):
    N = z3.BitVec("n", 64)
    BUFX = z3.Const("bytes", BUF)
    EMPTYQ = uf("query_string", D, S)(QUER)
    for fn, req, mk, text, more in (
            (MG + r"set_content\(string const&\)", True, lambda st: strargs(vm, st, v=VAL), VAL, {}),
            (RQ + r"set_content\(string const&\)", True, lambda st: strargs(vm, st, v=VAL), VAL, {}),
            (RQ + r"set_content\(char const\*, unsigned long\)", True, "buf", s_mk(BUFX, 0, N), {}),
            (RQ + r"set_content\(char const\*, unsigned long\)", True, "null", None, {}),
            (MG + r"clear_content\(", True, lambda st: [], s_empty, {"m_headers": "notype"}),
            (RQ + r"use_query_params_for_post_content\(", True, lambda st: [], EMPTYQ, {"m_headers": changed(HDRS, lit("Content-Type"), lit("application/x-www-form-urlencoded")), "m_method": lit("POST"), "m_first_line": s_empty}),
            (RQ + r"use_query_params_for_query_string\(", True, lambda st: [], None, {"m_query_string": EMPTYQ, "m_first_line": s_empty})):
        o, st, p = self.obj(vm, req)
        none = False
        if mk == "buf":
            r = vm.new_region(st, "bytes", "buf", N)
            st.bufs[r.id] = BUFX
            st.assume(ult(N, MAXLEN))
            args = [Ptr(r, 0), N]
        elif mk == "null":
            args = [NULL, N]
        else:
            args = mk(st)
        st.assume(ult(s_len(EMPTYQ), MAXLEN))
        for s, v in self.runs(vm, st, fn, [p] + args, fn[14:-2]):
            parts = [(s, text)]
            if mk == "buf":     # an empty buffer changes nothing
                parts = [(s2, None if z else text) for s2, z in vm.branch(s, eq(N, 0))]
            for s2, t in parts:
                o.same(vm, s2, set(more) | ({"m_content_length", "cb_len"} if t is not None else set()))
                for n, val in more.items():
                    got = o.get(vm, s2, n)
                    if val == "notype" if isinstance(val, str) else False:
                        w = d_erase(HDRS, lit("Content-Type"))
                        vm.oblige(s2, Or(True if got.eq(w) else eq(got, w), And(Not(d_has(HDRS, lit("Content-Type"))), True if got.eq(HDRS) else eq(got, HDRS))), "the content type goes with the content", "post")
                    else:
                        vm.oblige(s2, (True if got.eq(val) else eq(got, val)) if got.sort() == D else s_eq(got, val), "%s is set" % n, "post")
                if t is None:
                    vm.oblige(s2, s_eq(o.body(vm, s2), BODY), "the content stays", "post")
                    continue
                vm.oblige(s2, eq(o.get(vm, s2, "m_content_length"), s_len(t), 64), "the content length is that of the content", "post")
                vm.oblige(s2, eq(o.get(vm, s2, "cb_len"), s_len(t), 64), "the buffer has that size", "post")
                vm.oblige(s2, s_eq(o.body(vm, s2), t), "the content is exactly what was given", "post")


U_CONTENT = Unit("content setters", MSRC, lambda prog: ObjRun(prog, content, C_CHANGE, C_RESIZE, *C_TYPES), extra=NOACC)


def alive(self, vm):
    o, st, p = self.obj(vm, True)
    maj, mi = o.v0["m_version_major"], o.v0["m_version_minor"]
    for s, v in self.runs(vm, st, MG + r"check_keep_alive\(\) const", [p], "check_keep_alive"):
        o.same(vm, s)
        newer = Or(ult(1, maj, 16), And(eq(maj, 1, 16), ule(1, mi, 16)))
        for s2, has in vm.branch(s, d_has(HDRS, lit("Connection"))):
            closing = s_eq(d_get(HDRS, lit("Connection")), lit("close")) if has else False
            vm.oblige(s2, eq(zbool(Not(eq(v, 0, 1))), zbool(And(newer, Not(closing)))), "a connection stays open from HTTP/1.1 on, unless it is said to close", "post")


U_ALIVE = Unit("message::check_keep_alive", MSRC, lambda prog: ObjRun(prog, alive), extra=NOACC)


def responses(self, vm):
    AGE = z3.BitVec("age", 64)
    for fn, names, want in ((r"set_cookie\(string const&, string const&\)", "nv", setcookie(KEY, VAL, lit("/"), 0, 0)),
                            (r"set_cookie\(string const&, string const&, string const&\)", "nvp", setcookie(KEY, VAL, PATHV, 0, 0)),
                            (r"set_cookie\(string const&, string const&, string const&, unsigned long\)", "nvpa", setcookie(KEY, VAL, PATHV, 1, AGE)),
                            (r"set_cookie\(string const&, string const&, unsigned long\)", "nva", setcookie(KEY, VAL, lit("/"), 1, AGE)),
                            (r"delete_cookie\(string const&\)", "n", setcookie(KEY, s_empty, lit("/"), 1, 0)),
                            (r"delete_cookie\(string const&, string const&\)", "np", setcookie(KEY, s_empty, PATHV, 1, 0))):
        o, st, p = self.obj(vm, False)
        args = [p]
        for c in names:
            args += [AGE] if c == "a" else strargs(vm, st, **{c: {"n": KEY, "v": VAL, "p": PATHV}[c]})
        for s, v in self.runs(vm, st, RS + fn, args, fn.split("\\")[0]):
            o.same(vm, s, {"m_headers"})
            d, w = o.get(vm, s, "m_headers"), d_ins(HDRS, lit("Set-Cookie"), want)
            vm.oblige(s, True if d.eq(w) else eq(d, w), "one Set-Cookie header is added, as asked for", "post")
    o, st, p = self.obj(vm, False)
    for s, v in self.runs(vm, st, RS + r"set_last_modified\(", [p, AGE], "set_last_modified"):
        o.same(vm, s, {"m_headers"})
        d, w = o.get(vm, s, "m_headers"), changed(HDRS, lit("Last-Modified"), uf("date_string", BV(64), S)(AGE))
        vm.oblige(s, True if d.eq(w) else eq(d, w), "the date of the last change is said once", "post")
    o, st, p = self.obj(vm, False)
    q = Obj(self.prog, True, "rq", "q")
    qp = q.place(vm, st)
    vm.msgclass = "response"
    for s, v in self.runs(vm, st, RS + r"update_request_info\(", [p, qp], "update_request_info"):
        q.same(vm, s, (), "the request is left as it is")
        maj, mi = q.v0["m_version_major"], q.v0["m_version_minor"]
        one, zero = And(eq(maj, 1, 16), ule(1, mi, 16)), eq(maj, 0, 16)
        for s2, a in vm.branch(s, one):
            for s3, z in vm.branch(s2, zero):
                ch = {"m_request_method"} | ({"m_chunks_supported"} if a else set()) | ({"m_status_code", "m_status_message", "m_version_major", "m_version_minor", "m_first_line"} if z else set())
                o.same(vm, s3, ch)
                vm.oblige(s3, s_eq(o.get(vm, s3, "m_request_method"), q.v0["m_method"]), "the method of the request is kept", "post")
                if a:
                    vm.oblige(s3, eq(o.get(vm, s3, "m_chunks_supported"), 1, 8), "HTTP/1.1 requests can be answered in chunks", "post")
                if z:
                    for n in ("m_status_code", "m_version_major", "m_version_minor"):
                        vm.oblige(s3, eq(o.get(vm, s3, n), 0, 32 if n == "m_status_code" else 16), "simple requests get no status and version", "post")
                    vm.oblige(s3, s_eq(o.get(vm, s3, "m_status_message"), s_empty), "simple requests get no status message", "post")
                    vm.oblige(s3, eq(s_len(o.get(vm, s3, "m_first_line")), 0), "the first line will be made anew", "post")


U_RESP = Unit("response: cookies, dates, request info", MSRC, lambda prog: ObjRun(prog, responses, C_CHANGE, *C_TYPES), extra=NOACC)


# ------------------------------------------------------------------ concrete contract evaluation on the real code
class Model:
    """what a message is, as a program that knows nothing of buffers"""

    def __init__(self, req):
        self.req = req
        self.clear()
        self.method = b"GET"

    def clear(self):
        self.h, self.c, self.q = [], [], []
        self.method, self.res, self.query = b"", b"", b""
        self.code, self.msg, self.asked = 200, b"OK", b""
        self.major = self.minor = 1
        self.body, self.chunks, self.nolen = b"", 0, 0

    def line(self):
        v = b"HTTP/%d.%d" % (self.major, self.minor)
        if self.req:
            return self.method + b" " + self.res + (b"?" + self.query if self.query else b"") + b" " + v
        return v + b" %d " % self.code + self.msg

    def prepare(self, alive, chunked):
        put(self.h, b"Connection", b"Keep-Alive" if alive else b"close")
        if chunked:
            if self.chunks:
                put(self.h, b"Transfer-Encoding", b"chunked")
        elif not self.nolen:
            put(self.h, b"Content-Length", b"%d" % len(self.body))
        for k, v in self.c:
            name = b"Cookie" if self.req else b"Set-Cookie"
            self.h.append((Loose(name) if isinstance(k, Loose) else name, k + b"=" + v if self.req else cookie_text(k, v, b"/")))

    def implied(self):
        return not self.req and (self.asked == b"HEAD" or 100 <= self.code <= 199 or self.code in (204, 205, 304))

    def query_texts(self):
        return sorted(enc(k) + b"=" + enc(v) for k, v in self.q)


def low(k):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in k)


def drop(d, k):
    d[:] = [e for e in d if low(e[0]) != low(k)]


def put(d, k, v):
    old = [e for e in d if low(e[0]) == low(k)]
    drop(d, k)
    d.append((Loose(k) if old else k, v))


class Loose(bytes):
    """a name in one of the spellings it had: which of them is not said"""


def cookie_text(k, v, path, age=None):
    return k + b"=\"" + v + b"\"; Version=1" + (b"; Path=" + path if path else b"") + (b"; Max-Age=%d" % age if age is not None else b"")


def same_pairs(want, got):
    got = list(got)
    for e in want:
        if not isinstance(e[0], Loose):
            if e not in got:
                return False
            got.remove(e)
    return sorted((low(k), low(v)) for k, v in want if isinstance(k, Loose)) == sorted((low(k), low(v)) for k, v in got)


def head_model(case, out):
    """-> what is wrong with the answers, or None"""
    m = Model(case[1] == "R")
    out = list(out)
    if out.pop(0) != "ok":
        return "no answer"
    loose = False        # the query string was made of several pairs, in an order that is not said
    for step in case[2:]:
        o, *a = step.split(",")
        b = [fromhex(x) if len(x) % 2 == 0 or x == "-" else b"" for x in a] if o not in ("prep", "write", "fail", "code", "major", "minor", "chunks", "last") else []
        if o in ("ah", "ac", "aq"):
            {"h": m.h, "c": m.c, "q": m.q}[o[1]].append((b[0], b[1]))
        elif o in ("ch", "cc", "cq"):
            put({"h": m.h, "c": m.c, "q": m.q}[o[1]], b[0], b[1])
        elif o in ("dh", "dc", "dq"):
            drop({"h": m.h, "c": m.c, "q": m.q}[o[1]], b[0])
        elif o in ("gh", "gc", "gq"):
            got = out.pop(0)
            vals = [v for k, v in {"h": m.h, "c": m.c, "q": m.q}[o[1]] if low(k) == low(b[0])]
            if got[0] != ("1" if vals else "0") or fromhex(got[1:]) not in (vals or [b""]):
                return "%s of %r: %r among %r" % ("header" if o[1] == "h" else "cookie" if o[1] == "c" else "query", b[0], got, vals)
        elif o == "all":
            parts = {}
            cur = None
            while True:
                w = out.pop(0)
                if w == ".":
                    break
                if w in "HCQ":
                    cur = parts.setdefault(w, [])
                else:
                    cur.append((fromhex(w.split(":")[0]), fromhex(w.split(":")[1])))
            for n, d in (("H", m.h), ("C", m.c), ("Q", m.q)):
                if not same_pairs(d, parts[n]):
                    return "%s: expected the pairs %r, got %r" % (n, d, parts[n])
        elif o == "body":
            m.body = b[0]
        elif o == "bodyn":
            if m.req and b[0]:
                m.body = b[0]
        elif o == "nobody":
            m.body = b""
            drop(m.h, b"Content-Type")
        elif o == "type":
            put(m.h, b"Content-Type", b[0])
        elif o in ("method", "res", "move", "qs"):
            setattr(m, {"method": "method", "res": "res", "move": "res", "qs": "query"}[o], b[0])
        elif o == "useq":
            m.query = b"&".join(m.query_texts())
            loose = bool(m.q)
        elif o == "post":
            m.body = b"&".join(m.query_texts())
            m.method = b"POST"
            put(m.h, b"Content-Type", b"application/x-www-form-urlencoded")
            loose = loose or bool(m.q)
        elif o in ("code", "major", "minor", "chunks"):
            setattr(m, o, int(a[0]))
        elif o == "msg":
            m.msg = b[0]
        elif o == "nolen":
            m.nolen = 1
        elif o == "sc2":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b[1], b"/")))
        elif o == "sc3":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b[1], b[2])))
        elif o == "sc3a":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b[1], b"/", int(a[2]))))
        elif o == "sc4":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b[1], b[2], int(a[3]))))
        elif o == "dk1":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b"", b"/", 0)))
        elif o == "dk2":
            m.h.append((b"Set-Cookie", cookie_text(b[0], b"", b[1], 0)))
        elif o == "last":
            put(m.h, b"Last-Modified", date_of(int(a[0])))
        elif o == "info":
            m.asked = b[0]
            if int(a[1]) == 1 and int(a[2]) >= 1:
                m.chunks = 1
            elif int(a[1]) == 0:
                m.code, m.msg, m.major, m.minor = 0, b"", 0, 0
        elif o == "line":
            got = fromhex(out.pop(0))
            if not texts_equal(m.line(), got, loose):
                return "first line: expected %r, got %r" % (m.line(), got)
        elif o == "state":
            conn = [v for k, v in m.h if low(k) == b"connection"]
            new = m.major > 1 or (m.major >= 1 and m.minor >= 1)
            alive = {str(int(v != b"close" and new)) for v in conn or [b""]}
            got = out.pop(0)
            if got[0] not in alive or got[1:] != "%d%d%d/%d" % (m.chunks, m.implied(), len(m.body), len(m.body)):
                return "state %r, expected keep-alive %r, then %d%d%d" % (got, alive, m.chunks, m.implied(), len(m.body))
        elif o == "clear":
            m.clear()
            loose = False
        elif o == "copy":
            pass
        elif o in ("prep", "write", "fail"):
            if o == "prep":
                m.prepare(a[0] == "1", a[1] == "1")
                body = b""
            else:
                m.prepare(True, False)
                body = b"" if a[0] == "1" else m.body
                ec, k = out.pop(0), out.pop(0)
            got = fromhex(out.pop(0))
            if o == "fail":
                if ec != "5" or k != "0" or got:
                    return "a stream that cannot be written to: %s %s %r" % (ec, k, got)
                continue
            if o == "write" and (ec != "0" or int(k) != len(got)):
                return "write says %s bytes and error %s for %d bytes" % (k, ec, len(got))
            # first line
            line, crlf, rest = got.partition(b"\r\n") if b"\r\n" not in m.line() else (got[:len(m.line())], got[len(m.line()):len(m.line()) + 2], got[len(m.line()) + 2:])
            if crlf != b"\r\n" or not texts_equal(m.line(), line, loose):
                return "first line: expected %r, got %r" % (m.line(), line)
            want = [(low(k) + b": " + v + b"\r\n") for k, v in m.h]
            n = sum(map(len, want))
            head, tail = rest[:n], rest[n:]
            if not tail.startswith(b"\r\n") or not texts_equal(body, tail[2:], loose):
                return "expected an empty line and %r after %d bytes of headers, got %r" % (body, n, tail)
            lines = [(x.partition(b": ")[0], x.partition(b": ")[2]) for x in head.split(b"\r\n")[:-1]]
            if not same_pairs([(type(k)(k), v) for k, v in m.h], lines) and not any(b"\r" in x or b": " in x for e in m.h for x in e):
                return "headers: expected %r, got %r" % (m.h, lines)
            if sorted(low(head)) != sorted(low(b"".join(want))):
                return "headers: expected %r, got %r" % (want, head)
        else:
            raise ValueError(o)
    return None


def texts_equal(want, got, loose):
    return want == got or (loose and sorted(low(want)) == sorted(low(got)))


NAMES = [b"a", b"A", b"b", b"Name", b"NAME", b"naMe", b"connection", b"Connection", b"CONTENT-length", b"Content-Type", b"content-type", b"Cookie", b"x", b"{", b"[", b"@", b"`", b"\xc1", b"\xe1", b"Transfer-Encoding", b""]
VALS = [b"v", b"w", b"", b"close", b"Close", b"keep-alive", b"text/html", b"a b", b"1", b"value=x; y", b"\xff"]


def gen_head(rng, n, hints):
    h = lambda x: x.hex() or "-"
    def name():
        return h(rng.choice(NAMES[:6] if rng.random() < 0.6 else NAMES))
    def val():
        return h(rng.choice(VALS))
    def num():
        return str(rng.choice([0, 1, 2, 9, 99, 100, 199, 200, 204, 205, 304, 404, 999, 65535]))
    big = lambda: str(rng.choice([0, 1, 3600, 2 ** 31, 2 ** 32, 2 ** 64 - 1]))
    dicts = lambda d: ["a%s,%s,%s" % (d, name(), val()), "a%s,%s,%s" % (d, name(), val()), "c%s,%s,%s" % (d, name(), val()), "c%s,%s,%s" % (d, name(), val()), "d%s,%s" % (d, name()), "g%s,%s" % (d, name())]
    for a in range(256):          # every byte, in names that differ by case alone
        for d in "hcq":
            k, K = bytes([0x4e, a]), low(bytes([0x6e, a]))
            yield ("head", "R", "a%s,%s,31" % (d, h(k)), "g%s,%s" % (d, h(K)), "a%s,%s,32" % (d, h(K)), "g%s,%s" % (d, h(bytes([0x6e, a ^ 32]))), "c%s,%s,33" % (d, h(K)), "all", "d%s,%s" % (d, h(k)), "all")
    for r in "RS":
        for k in range(5):
            for d in "hc":
                base = ["a%s,%s,%s" % (d, h(b"other"), h(b"o"))] + ["a%s,%s,%s" % (d, h(b"Key" if j % 2 else b"kEY"), h(b"v%d" % j)) for j in range(k)] + ["a%s,%s,%s" % (d, h(b"next"), h(b"n"))]
                for last in ("c%s,%s,%s" % (d, h(b"key"), h(b"new")), "d%s,%s" % (d, h(b"key")), "g%s,%s" % (d, h(b"key"))):
                    yield tuple(["head", r] + base + [last, "all", "write,0", "all"])
        for v in range(2):
            for w in range(2):
                for x in range(2):
                    yield ("head", r, "body,%s" % h(b"hello"), "chunks,%d" % x, "prep,%d,%d" % (v, w), "state", "all")
                    yield ("head", r, "nolen", "body,%s" % h(b"he\r\nllo"), "chunks,%d" % x, "prep,%d,%d" % (v, w), "write,%d" % x)
        for code in ("100", "101", "199", "200", "204", "205", "206", "304", "305", "404", "0", "99"):
            yield ("head", r, "code,%s" % code, "line", "state", "msg,%s" % h(b"Some Thing"), "write,0", "code,7", "line") if r == "S" else ("head", r, "major,%s" % code, "line", "state", "minor,%s" % code, "state", "write,1")
        for ver in ((0, 0), (0, 9), (1, 0), (1, 1), (1, 2), (2, 0), (65535, 65535)):
            yield ("head", r, "major,%d" % ver[0], "state", "minor,%d" % ver[1], "state", "line", "ch,%s,%s" % (h(b"connection"), h(b"close")), "state")
            if r == "S":
                yield ("head", r, "info,%s,%d,%d" % (h(b"HEAD"), ver[0], ver[1]), "state", "line", "body,31", "write,0")
    for i in range(n):
        r = rng.choice("RS")
        steps = []
        for _ in range(rng.randrange(1, 14)):
            ops = dicts("h") + dicts("c") + ["all", "body,%s" % val(), "nobody", "type,%s" % val(), "major,%d" % rng.randrange(3), "minor,%d" % rng.randrange(3), "chunks,%d" % rng.randrange(2), "line", "state",
                                             "copy", "prep,%d,%d" % (rng.randrange(2), rng.randrange(2)), "write,%d" % rng.randrange(2), "write,0"]
            if rng.random() < 0.1:
                ops = ["clear", "nolen", "fail,0"]
            if r == "R":
                ops += dicts("q") + ["method,%s" % name(), "res,%s" % val(), "move,%s" % val(), "line", "qs,%s" % val(), "useq", "post", "bodyn,%s" % val()]
            else:
                ops += ["code,%s" % num(), "msg,%s" % val(), "sc2,%s,%s" % (name(), val()), "sc3,%s,%s,%s" % (name(), val(), val()), "sc3a,%s,%s,%s" % (name(), val(), big()),
                        "sc4,%s,%s,%s,%s" % (name(), val(), val(), big()), "dk1,%s" % name(), "dk2,%s,%s" % (name(), val()), "last,%d" % rng.randrange(2 ** 34), "info,%s,%d,%d" % (h(b"HEAD"), rng.randrange(3), rng.randrange(3))]
            steps.append(rng.choice(ops))
        yield tuple(["head", r] + steps + ["all", "write,0"])


A_HEAD = head_audit("http_head", gen_head, head_model, quick=6000)


def property(pid):
    if pid == "C09":
        return Property(pid, [U_FIRST, U_PREP, U_AH, U_CRQ, U_CRS, U_BUF] + [u_write(c) for c in ("head", "empty", "content")] + [U_CONTENT, U_ALIVE, U_RESP], [], A_HEAD, TRUST, ASSUME)
    if pid == "C08":
        return Property(pid, [U_HASH, U_IEQ, U_CHANGE, U_ACC], [Lemma("equal names have equal hashes", lemma_hash)], A_HEAD, TRUST, ASSUME)
    raise KeyError(pid)

