"""C18: putting a message together: what follows the headers, what the message holds in the end."""
from runner import Unit, Property
from common import *
from objs import *
from p_parser import *
from p_parser import PSRC, ParserContract, TRI

FSRC = PSRC + ["src/http_types.cpp"]
HDRS = z3.Const("headers0", D)
COOK = z3.Const("cookies0", D)
QUER = z3.Const("queries0", D)
QUERY = z3.Const("query_string0", S)
CLEN = z3.BitVec("clen0", 64)
CBLEN = z3.BitVec("cblen0", 64)
CACHE_ = z3.Const("cache0", S)
BODY = z3.Const("body0", S)
REQM = z3.Const("request_method0", S)
CODE = z3.BitVec("code0", 16)


def lit(text):
    return s_lit(text.encode())


def pairs(kind, d, *texts):
    """the dictionary after the pairs of a text were added (what exactly: properties C10, C11, C12)"""
    return uf("pairs_" + kind, D, *([S] * len(texts) + [D]))(d, *[term(t) for t in texts])


def trim(t):
    return uf("trim", S, S)(term(t))


def chunked(t):
    return uf("mentions_chunked", S, z3.BoolSort())(term(t))


# ---- contracts of the functions called
def c_resize(vm, st, a, ins):
    K = vm.konst
    p, n = a[0], a[1]
    st.objs[("body", 0)] = ("str", s_empty)
    vm.fresh_regions += 1
    r = vm.new_region(st, "content%d" % vm.fresh_regions, "log", n)
    r.meta = ("body", 0)
    vm.store(st, Ptr(p.r, add(p.o, K["cb_len"])), n, IntTy(64), vm.p.mods[0])
    vm.store(st, Ptr(p.r, add(p.o, K["cb_ptr"])), Ptr(r, 0), PTR, vm.p.mods[0])


def c_dynamic_cast(vm, st, a, ins):
    want = vm.p.dem.get(a[2].r.meta, "") if isinstance(a[2], Ptr) and a[2].r is not None else ""
    ok = want == "typeinfo for pion::http::" + vm.msgclass
    vm.oblige(st, ok, "the message is of the kind the parser is for", "safety")
    return a[0]


def c_regex_match(vm, st, a, ins):
    if not isinstance(a[1], Ptr) or a[1].r is None or "REGEX_ICASE_CHUNKED" not in a[1].r.id:
        raise Unsupported("another regular expression")
    return b2i_(chunked(lib.gets(st, a[0])))


def b2i_(c):
    return lib.b2i(c)


def c_trim(vm, st, a, ins):
    lib.sets(st, a[0], trim(lib.gets(st, a[0])))


def c_update(vm, st, a, ins):
    K = vm.konst
    st.ghost["calls"] += "update;"
    if vm.msgclass == "response":
        v = vm.load(st, Ptr(a[0].r, a[0].o + K["p_m_status_code"]), IntTy(16), vm.p.mods[0])
        vm.store(st, Ptr(a[1].r, a[1].o + K["rs_m_status_code"]), zext(v, 16, 32), IntTy(32), vm.p.mods[0])


def c_concat(vm, st, a, ins):
    K = vm.konst
    t = lib.gets(st, Ptr(a[0].r, add(a[0].o, K["m_m_chunk_cache"])))
    vm.store(st, Ptr(a[0].r, add(a[0].o, K["m_m_content_length"])), s_len(t), IntTy(64), vm.p.mods[0])
    c_resize(vm, st, [Ptr(a[0].r, add(a[0].o, K["m_m_content_buf"])), s_len(t)], ins)
    st.objs[("body", 0)] = ("str", t)


def c_status(vm, st, a, ins):
    """compute_msg_status"""
    K = vm.konst
    m = a[0]
    miss = vm.load(st, Ptr(m.r, m.o + K["m_m_has_missing_packets"]), IntTy(8), vm.p.mods[0])
    after = vm.load(st, Ptr(m.r, m.o + K["m_m_has_data_after_missing"]), IntTy(8), vm.p.mods[0])
    vm.store(st, Ptr(m.r, m.o + K["m_m_status"]), status(K, miss, after, a[1]), IntTy(32), vm.p.mods[0])


def status(K, miss, after, ok):
    one = lambda v: Not(eq(v, 0, v.size() if isinstance(v, z3.BitVecRef) else 8)) if not isinstance(v, (bool, z3.BoolRef)) else v
    return If(one(miss), If(one(after), K["e_STATUS_PARTIAL"], K["e_STATUS_TRUNCATED"], 32), If(one(ok), K["e_STATUS_OK"], K["e_STATUS_TRUNCATED"], 32), 32)


def c_pairs(kind, buf):
    def f(vm, st, a, ins):
        d = lib.getd(st, a[0])
        if kind == "multipart":
            t = lib.raw(vm, st, a[2], a[3])
            lib.setd(st, a[0], pairs(kind, d, lib.gets(st, a[1]), t))
        elif kind == "cookie":
            lib.setd(st, a[0], pairs("set_cookie" if a[2] == 1 else "cookie", d, lib.gets(st, a[1]) if not buf else lib.raw(vm, st, a[1], a[2])))
        else:
            lib.setd(st, a[0], pairs(kind, d, lib.raw(vm, st, a[1], a[2])))
        return fresh_bv("ok", 1) if False else lib.b2i(fresh_bool("parsed"))
    return f


C_RESIZE = (r"^pion::http::message::content_buffer_t::resize\(", c_resize)
C_PAIRS = [(r"^pion::http::parser::parse_url_encoded\(", c_pairs("url", True)), (r"^pion::http::parser::parse_multipart_form_data\(", c_pairs("multipart", True)),
           (r"^pion::http::parser::parse_cookie_header\(.*string const&, bool\)", c_pairs("cookie", False))]
C_MISC = [(r"^__dynamic_cast", c_dynamic_cast), (r"^bool boost::regex_match<std::char_traits<char>", c_regex_match), (r"^void boost::(algorithm::)?trim<string>", c_trim)]


class MessageContract(ParserContract):
    def __init__(self, prog, pat, req, extra):
        ParserContract.__init__(self, prog, pat, req)
        self.lookup = lib.make_lookup(extra=EXTRA + C_MISC + extra)
        self.msgclass = "request" if req else "response"

    def globals(self, vm, st):
        """the library's string constants, from its own initialisers"""
        for n in sorted(self.prog.fn):
            if n.startswith("_GLOBAL__sub_I_http_types"):
                vm.push(st, n, [])
                outs = list(vm.run(st))
                if len(outs) != 1 or outs[0][0] != "ret":
                    raise Unsupported("initialisers of the string constants")
                st = outs[0][1]
        return st

    def setup(self, sim, known, mode=None):
        vm = sim.vm
        vm.konst, vm.msgclass, vm.fresh_regions = self.K, self.msgclass, 0
        st, args = self.frame(sim, known)
        st = self.globals(vm, st)
        K = self.K
        for rid, cls in (("parser", "_ZTVN4pion4http6parserE"), ("msg", "_ZTVN4pion4http7requestE" if self.req else "_ZTVN4pion4http8responseE")):
            st.cells(rid)[0] = (8, Ptr(vm.gregion(cls), 16))
        st.objs[("msg", K["m_m_headers"])] = ("dict", HDRS)
        st.objs[("msg", K["m_m_cookie_params"])] = ("dict", COOK)
        st.objs[("msg", K["m_m_chunk_cache"])] = ("str", CACHE_)
        st.objs[("body", 0)] = ("str", BODY)
        r = vm.new_region(st, "content", "log", CBLEN)
        r.meta = ("body", 0)
        st.cells("msg")[K["m_m_content_buf"] + K["cb_ptr"]] = (8, Ptr(r, 0))
        st.cells("msg")[K["m_m_content_buf"] + K["cb_len"]] = (8, CBLEN)
        st.cells("msg")[K["m_m_content_buf"] + K["cb_buf"]] = (8, Ptr(r, 0))
        if self.req:
            st.objs[("msg", K["rq_m_query_params"])] = ("dict", QUER)
            for n in ("m_method", "m_resource", "m_original_resource", "m_query_string"):
                st.objs[("msg", K["rq_" + n])] = ("str", z3.Const("rq." + n, S))
                self.envsyms |= {"rq." + n}
        else:
            st.objs[("msg", K["rs_m_request_method"])] = ("str", REQM)
            st.objs[("msg", K["rs_m_status_message"])] = ("str", z3.Const("rs.m_status_message", S))
            st.cells("msg")[K["rs_m_status_code"]] = (4, z3.BitVec("rs.code", 32))
        self.envsyms |= {"headers0", "cookies0", "queries0", "cache0", "body0", "cblen0", "request_method0", "rs.m_status_message", "rs.code"}
        st.ghost["calls"] = ""
        return st, args

    def handler(self, vm, st, on):
        h = vm.new_region(st, "handler", "obj", 8)
        st.cells("parser")[self.K["p_m_payload_handler"]] = (8, Ptr(h, 0) if on else NULL)

    def dictat(self, st, off):
        return lib.getd(st, Ptr(st.regions["msg"], self.K[off]))

    def strat(self, st, off):
        return lib.gets(st, Ptr(st.regions["msg"], self.K[off]))


class Once(Spec):
    """a function that does its work in one step"""

    def __init__(self, f):
        self.f = f

    def start(self, **data):
        c = data.pop("ctrl", {})
        return SpecState(dict(c, res=None), dict(data, pos=0))

    def step(self, D, s):
        self.f(D, s)
        s.ctrl.update(done=1)


# ------------------------------------------------------------------ parser::finish_header_parsing
class FinishHeaders(MessageContract):
    def __init__(self, prog, req):
        MessageContract.__init__(self, prog, r"^pion::http::parser::finish_header_parsing\(", req, [C_RESIZE, (r"^pion::http::parser::update_message_with_header_data\(", c_update)])
        self.spec = Once(self.what)
        self.envpc += [ult(LIM, MAXLEN)]

    def what(self, D, s):
        """what follows the headers"""
        te, cl = lit("Transfer-Encoding"), lit("Content-Length")
        s.ctrl.update(mode=None, err=None, chunked=False, buffer=False)
        s.set(remaining=0, length=0)
        only = lambda: D(Not(eq(s.only, 0, 8)))
        if D(d_has(HDRS, te)) and D(chunked(d_get(HDRS, te))):
            s.ctrl.update(mode="CHUNKS", chunked=True, res=1 if only() else 2)
            return
        if not self.req:
            c = CODE
            if D(Or(s_eq(REQM, lit("HEAD")), And(ule(100, c, 16), ule(c, 199, 16)), eq(c, 204, 16), eq(c, 205, 16), eq(c, 304, 16))):
                s.ctrl.update(mode="END", res=1)
                return
        if D(d_has(HDRS, cl)):
            t = trim(d_get(HDRS, cl))
            if D(And(Not(eq(s_len(t), 0)), eq(s_at(t, 0), ord("-"), 8))) or not D(s_lexok(t, 64)):
                s.ctrl.update(res=0, err="INVALID_CONTENT_LENGTH")
                return
            n = s_lexval(t, 64)
            if D(eq(n, 0, 64)):
                s.ctrl.update(mode="END", res=1)
                return
            s.set(remaining=n, length=LIM if D(ult(LIM, n)) else n)
            s.ctrl.update(mode="CONTENT")
            if only():
                s.ctrl.update(res=1)
            else:
                s.ctrl.update(res=2, buffer=True)
            return
        if self.req:
            s.ctrl.update(mode="END", res=1)
        else:
            s.ctrl.update(mode="CONTENT_NO_LENGTH", res=1 if only() else 2)

    def start(self, sim):
        ONLY = z3.BitVec("only", 8)
        self.envpc.append(ule(ONLY, 1, 8))
        self.envsyms |= {"limit", "only", "code0"}
        known = dict(m_is_request=int(self.req), m_max_content_length=LIM, m_parse_headers_only=ONLY, m_headers=HDRS, m_cookie_params=COOK, m_status_code=CODE)
        st, args = self.setup(sim, known)
        sim.vm.push(st, self.fn(), args)
        return [(st, self.spec.start(only=ONLY, remaining=0, length=0), None)]

    def on_return(self, sim, st, ret, s):
        vm, K = sim.vm, self.K
        vm.oblige(st, eq(ret, K[TRI[s.res]], 32), "the result says whether the message is complete, wants content, or is malformed", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_is_chunked"), int(s.chunked), 8), "the message is chunked if its header says so", "post")
        vm.oblige(st, st.ghost["calls"] == "update;", "what the headers say reaches the message, once", "post")
        changed = {"m_is_chunked", "m_content_length", "m_bytes_content_remaining", "m_bytes_content_read", "m_message_parse_state"}
        frame_ok(self, sim, st, changed)
        ev = vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0])
        vm.oblige(st, eq(ev, K["e_ERROR_" + s.err] if s.err else ECV, 32), "the error code names the defect", "post")
        if s.res == 0:
            return
        if s.mode != "END":     # (parse() sets the end state itself)
            vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), K["e_PARSE_" + s.mode], 32), "the right kind of content is read next", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_content_length"), s.length, 64), "the content length is the header's, up to the limit", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_content_remaining"), s.remaining, 64), "exactly the announced bytes are awaited", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_content_read"), 0, 64), "no content has been read yet", "post")
        if s.buffer:
            cp = vm.load(st, Ptr(st.regions["msg"], K["m_m_content_buf"] + K["cb_ptr"]), PTR, self.prog.mods[0])
            vm.oblige(st, eq(cp.r.size, s.length, 64) if isinstance(cp, Ptr) and cp.r is not None and cp.o == 0 else False, "the content buffer has room for the content", "post")
            vm.oblige(st, s_eq(st.objs[("body", 0)][1], s_empty), "the content buffer is new", "post")
        if s.mode == "CONTENT_NO_LENGTH":
            vm.oblige(st, eq(s_len(self.strat(st, "m_m_chunk_cache")), 0), "no content is left over from before", "post")


def u_finish_headers(req):
    return Unit("finish_header_parsing(%s)" % ("request" if req else "response"), FSRC, lambda prog: FinishHeaders(prog, req), extra=NOACC)


# ------------------------------------------------------------------ parser::finish
URLENC, MULTI = lit("application/x-www-form-urlencoded"), lit("multipart/form-data")


class Finish(MessageContract):
    def __init__(self, prog, req, handler):
        MessageContract.__init__(self, prog, r"^pion::http::parser::finish\(", req,
                                 [C_RESIZE, (r"^pion::http::parser::update_message_with_header_data\(", c_update), (r"^pion::http::message::concatenate_chunks\(", c_concat),
                                  (r"^pion::http::parser::compute_msg_status\(", c_status)] + C_PAIRS)
        self.on = handler
        self.spec = Once(self.what)
        self.envpc += [ult(LIM, MAXLEN), ult(s_len(CACHE_), MAXLEN)]

    def what(self, D, s):
        m = s.mode
        keep = False
        if m in ("START", "HEADERS", "FOOTERS"):
            s.set(body=s_empty, length=0, valid=0)
            s.ctrl["calls"] = "update;" if m != "START" else ""
        elif m == "END":
            s.set(valid=1)
        elif m == "CONTENT":
            s.set(valid=0)
            if D(ult(CREAD, LIM)):
                s.set(length=CREAD)
        else:
            s.set(valid=1 if m != "CHUNKS" or D(eq(s.cst, self.K["e_PARSE_CHUNK_SIZE_START"], 32)) else 0)
            if not self.on:
                s.set(body=CACHE_, length=s_len(CACHE_))
        if m == "START":
            return
        s.set(status=status(self.K, s.miss, s.after, s.valid))
        if self.req and not self.on and D(eq(s.only, 0, 8)):
            ct = d_get(HDRS, lit("Content-Type")) if D(d_has(HDRS, lit("Content-Type"))) else s_empty
            if D(starts(ct, URLENC)):
                s.set(queries=pairs("url", s.queries, s_sub(s.body, 0, s.length)))
            elif D(starts(ct, MULTI)):
                s.set(queries=pairs("multipart", s.queries, ct, s_sub(s.body, 0, s.length)))

    def start(self, sim):
        ONLY, CST, MISS, AFTER, ST0 = z3.BitVec("only", 8), z3.BitVec("cst0", 32), z3.BitVec("miss0", 8), z3.BitVec("after0", 8), z3.BitVec("status0", 32)
        VAL = z3.BitVec("valid0", 8)
        self.envpc += [ule(v, 1, 8) for v in (ONLY, MISS, AFTER, VAL)]
        self.envsyms |= {"limit", "only", "code0", "cst0", "miss0", "after0", "status0", "valid0", "clen0", "cread0"}
        out = []
        for mode in MODES:
            known = dict(m_is_request=int(self.req), m_max_content_length=LIM, m_parse_headers_only=ONLY, m_headers=HDRS, m_cookie_params=COOK, m_status_code=CODE,
                         m_message_parse_state=self.K["e_PARSE_" + mode], m_chunked_content_parse_state=CST, m_has_missing_packets=MISS, m_has_data_after_missing=AFTER,
                         m_status=ST0, m_content_length=CLEN, m_bytes_content_read=CREAD, m_is_valid=VAL)
            st, args = self.setup(sim, known)
            self.handler(sim.vm, st, self.on)
            # the buffer holds what was read, as long as the content length says (C16)
            if mode == "CONTENT":
                st.assume(z3.If(ule(CREAD, LIM), s_len(BODY) == CREAD, s_len(BODY) == LIM))
                st.assume(Implies(ule(LIM, CREAD), eq(CLEN, LIM)))
            elif mode == "END":
                st.assume(eq(s_len(BODY), CLEN))
            sim.vm.push(st, self.fn(), args[:2])
            s = self.spec.start(only=ONLY, cst=CST, miss=MISS, after=AFTER, status=ST0, body=BODY, length=CLEN, valid=VAL, queries=QUER, ctrl={"mode": mode, "calls": ""})
            out.append((st, s, None))
        return out

    def on_return(self, sim, st, ret, s):
        vm, K = sim.vm, self.K
        vm.oblige(st, eq(self.m(sim, st, "m_is_valid"), s.valid, 8), "the message is valid exactly if it is complete", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_content_length"), s.length, 64), "the content length is what was read", "post")
        vm.oblige(st, s_eq(st.objs[("body", 0)][1], s.body), "the content is what was read", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_status"), s.status, 32), "the status tells complete from truncated and partial messages", "post")
        vm.oblige(st, st.ghost["calls"] == s.calls, "what the headers say reaches a message cut off in its headers", "post")
        if self.req:
            vm.oblige(st, self.dictat(st, "rq_m_query_params") == s.queries, "form fields are taken from the content exactly if its type says so", "post")
        frame_ok(self, sim, st, {"m_is_valid", "m_content_length", "m_status", "m_message_parse_state"})
        vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), K["e_PARSE_" + s.mode], 32), "the parser's state is left alone", "frame")


def starts(t, p):
    n = s_len(p)
    return And(ule(n, s_len(t)), s_eq(s_sub(t, 0, n), p))


def u_finish(req, h):
    return Unit("finish(%s%s)" % ("request" if req else "response", ", payload handler" if h else ""), FSRC, lambda prog: Finish(prog, req, h), extra=NOACC)


# ------------------------------------------------------------------ the pieces finish() and finish_header_parsing() rely on
NEWLEN = z3.BitVec("newlen", 64)


def field(vm, st, rid, off, ty=IntTy(64)):
    return vm.load(st, Ptr(st.regions[rid], off), ty, vm.p.mods[0])


def resize_body(self, vm):
    """content_buffer_t::resize"""
    K = konst(self.prog)
    st = State()
    st.pc = [ult(NEWLEN, MAXLEN)]
    b = vm.new_region(st, "buf", "obj", K["cb_ptr"] + 8)
    old = vm.new_region(st, "heap:old", "log", z3.BitVec("oldlen", 64))
    old.meta = ("old", 0)
    st.objs[("old", 0)] = ("str", BODY)
    c = st.cells("buf")
    c[K["cb_buf"]] = (8, Ptr(old, 0))
    c[K["cb_len"]] = (8, z3.BitVec("oldlen", 64))
    c[K["cb_empty"]] = (1, 0)
    c[K["cb_ptr"]] = (8, Ptr(old, 0))
    n = 0
    for o in self.call(vm, st, r"^pion::http::message::content_buffer_t::resize\(", [Ptr(b, 0), NEWLEN]):
        st = o[1]
        vm.oblige(st, o[0] == "ret", "no exception escapes", "post")
        if o[0] != "ret":
            continue
        vm.oblige(st, eq(field(vm, st, "buf", K["cb_len"]), NEWLEN), "the size is the one asked for", "post")
        p, q = field(vm, st, "buf", K["cb_ptr"], PTR), field(vm, st, "buf", K["cb_buf"], PTR)
        if isinstance(p, Ptr) and p.r is b:
            vm.oblige(st, eq(NEWLEN, 0), "no buffer only if it is empty", "post")
            vm.oblige(st, p.o == K["cb_empty"], "an empty buffer is an empty text", "post")
        else:
            vm.oblige(st, isinstance(p, Ptr) and p.r is not None and p.r.id not in ("buf", "heap:old") and eq(p.o, 0), "the buffer is new", "post")
            vm.oblige(st, ule(add(NEWLEN, 1), p.r.size), "the buffer has room for the content and the zero behind it", "post")
            vm.oblige(st, eq(vm.load(st, Ptr(p.r, NEWLEN), IntTy(8), vm.p.mods[0]), 0, 8), "the content ends in a zero", "post")
            vm.oblige(st, isinstance(q, Ptr) and q.r is p.r, "the buffer is owned", "post")
        vm.oblige(st, eq(field(vm, st, "buf", K["cb_empty"], IntTy(8)), 0, 8), "the empty text stays empty", "frame")
        n += 1
    vm.oblige(st, n >= 2, "both cases are reached", "post")


class StraightMessage(MessageContract):
    """a member function without data-dependent loops on an arbitrary parser and message"""

    def __init__(self, prog, req, body, extra=()):
        MessageContract.__init__(self, prog, "", req, list(extra))
        self.body = body

    def custom(self, budget):
        import time

        class Sim:
            pass
        sim = Sim()
        sim.vm = VM(self.prog, self.lookup, set())
        sim.vm.deadline = time.time() + budget
        self.body(self, sim)
        return sim.vm.obs, sim.vm

    def call(self, sim, st, pat, args):
        names = self.prog.find(pat)
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (pat, len(names)))
        sim.vm.push(st, names[0], args)
        try:
            out = list(sim.vm.run(st))
        except NeedRestart:
            raise Unsupported("data-dependent loop where none was expected")
        for o in out:
            if o[0] != "ret":
                sim.vm.oblige(o[1], False, "no exception escapes", "post")
        if not out:
            raise Unsupported("no return path")
        return [o for o in out if o[0] == "ret"]


def concat_body(self, sim):
    st, a = self.setup(sim, {"m_headers": HDRS, "m_cookie_params": COOK})
    st.assume(ult(s_len(CACHE_), MAXLEN))
    K, vm = self.K, sim.vm
    for _, st, ret in self.call(sim, st, r"^pion::http::message::concatenate_chunks\(", [a[1]]):
        vm.oblige(st, eq(self.m(sim, st, "m_content_length"), s_len(CACHE_)), "the content length is that of the chunks", "post")
        vm.oblige(st, s_eq(st.objs[("body", 0)][1], CACHE_), "the content is that of the chunks", "post")
        cp = vm.load(st, Ptr(st.regions["msg"], K["m_m_content_buf"] + K["cb_ptr"]), PTR, self.prog.mods[0])
        vm.oblige(st, isinstance(cp, Ptr) and cp.r is not None and cp.o == 0 and eq(cp.r.size, s_len(CACHE_)), "the content has a buffer of its own size", "post")
        vm.oblige(st, s_eq(self.strat(st, "m_m_chunk_cache"), CACHE_), "the chunks stay", "frame")
        frame_ok(self, sim, st, {"m_content_length"})


MISS, AFTER, OKV = z3.BitVec("miss0", 8), z3.BitVec("after0", 8), z3.BitVec("ok0", 1)


def status_body(self, sim):
    st, a = self.setup(sim, {"m_headers": HDRS, "m_cookie_params": COOK, "m_has_missing_packets": MISS, "m_has_data_after_missing": AFTER})
    st.assume(ule(MISS, 1, 8))
    st.assume(ule(AFTER, 1, 8))
    ok = fresh_bool("ok")
    K, vm = self.K, sim.vm
    for _, st, ret in self.call(sim, st, r"^pion::http::parser::compute_msg_status\(", [a[1], ok]):
        vm.oblige(st, eq(self.m(sim, st, "m_status"), status(K, MISS, AFTER, ok), 32), "the status tells complete from truncated and partial messages", "post")
        frame_ok(self, sim, st, {"m_status"})


def reset_body(self, sim):
    """parser::reset: as good as new"""
    REQ = z3.BitVec("is_request", 8)
    st, a = self.setup(sim, {"m_headers": HDRS, "m_cookie_params": COOK, "m_is_request": REQ})
    st.assume(ule(REQ, 1, 8))
    K, vm = self.K, sim.vm
    zero = {"m_status_code": 16, "m_bytes_content_read": 64, "m_bytes_last_read": 64, "m_bytes_total_read": 64}
    empty = ("m_status_message", "m_method", "m_resource", "m_query_string", "m_raw_headers")
    for _, st, ret in self.call(sim, st, r"^pion::http::parser::reset\(", [a[0]]):
        vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), K["e_PARSE_START"], 32), "a message is awaited", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_headers_parse_state"), If(eq(REQ, 0, 8), K["e_PARSE_HTTP_VERSION_H"], K["e_PARSE_METHOD_START"], 32), 32), "its first line is awaited", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_chunked_content_parse_state"), K["e_PARSE_CHUNK_SIZE_START"], 32), "a first chunk is awaited", "post")
        for n, w in zero.items():
            vm.oblige(st, eq(self.p(sim, st, n), 0, w), "%s starts at zero" % n, "post")
        for n in empty:
            vm.oblige(st, eq(s_len(self.p(sim, st, n)), 0), "%s starts empty" % n, "post")
        frame_ok(self, sim, st, {"m_message_parse_state", "m_headers_parse_state", "m_chunked_content_parse_state"} | set(zero) | set(empty))


# ---- update_message_with_header_data
class Cookies(Spec):
    """every cookie header, in order"""

    def __init__(self, kind, key):
        self.kind, self.key = kind, key

    def start(self, **data):
        return SpecState({}, dict(data, pos=0))

    def facts(self, s):
        return [lambda d: ule(d["pos"], d_count(HDRS, self.key))]

    def step(self, D, s):
        if D(ule(d_count(HDRS, self.key), s.pos)):
            s.ctrl.update(done=1)
            return
        s.set(cookies=pairs(self.kind, s.cookies, d_rval(HDRS, self.key, s.pos)), pos=add(s.pos, 1))


d_count, d_rval = lib.d_count, lib.d_rval


class Update(MessageContract):
    def __init__(self, prog, req):
        MessageContract.__init__(self, prog, r"^pion::http::parser::update_message_with_header_data\(", req, C_PAIRS)
        self.key = lit("Cookie" if req else "Set-Cookie")
        self.spec = Cookies("cookie" if req else "set_cookie", self.key)

    def start(self, sim):
        Q = z3.Const("query0", S)
        M_, R_, SM = z3.Const("method0", S), z3.Const("resource0", S), z3.Const("smsg0", S)
        out = []
        self.envsyms |= {"query0", "method0", "resource0", "smsg0", "line0"}
        self.envpc.append(ult(s_len(Q), MAXLEN))
        for empty in (True, False):
            st, args = self.setup(sim, dict(m_is_request=int(self.req), m_headers=HDRS, m_cookie_params=COOK, m_status_code=CODE, m_query_string=Q,
                                            m_method=M_, m_resource=R_, m_status_message=SM, m_first_line=z3.Const("line0", S)))
            st.assume(eq(s_len(Q), 0) if empty else Not(eq(s_len(Q), 0)))
            sim.vm.push(st, self.fn(), args[:2])
            out.append((st, self.spec.start(cookies=COOK, queries=QUER if empty else pairs("url", QUER, Q)), None))
        return out

    def on_return(self, sim, st, ret, s):
        vm, K = sim.vm, self.K
        g = lambda n: z3.Const(n, S)
        if self.req:
            for f, v in (("m_method", g("method0")), ("m_resource", g("resource0")), ("m_original_resource", g("resource0")), ("m_query_string", g("query0"))):
                vm.oblige(st, s_eq(self.strat(st, "rq_" + f), v), "the request's %s is what was read" % f[2:], "post")
            vm.oblige(st, self.dictat(st, "rq_m_query_params") == s.queries, "the query's pairs are added, if there are any", "post")
        else:
            vm.oblige(st, eq(field(vm, st, "msg", K["rs_m_status_code"], IntTy(32)), zext(CODE, 16, 32), 32), "the response's status code is what was read", "post")
            vm.oblige(st, s_eq(self.strat(st, "rs_m_status_message"), g("smsg0")), "the response's status message is what was read", "post")
        vm.oblige(st, self.dictat(st, "m_m_cookie_params") == s.cookies, "the cookies of every cookie header are added, in order", "post")
        vm.oblige(st, eq(s_len(self.strat(st, "m_m_first_line")), 0), "the first line is made anew", "post")
        frame_ok(self, sim, st, {"m_first_line", "m_cookie_params"})


# ------------------------------------------------------------------ parser::parse: which piece comes when
W0 = z3.Const("world0", S)
ORDER = ["START", "HEADERS", "CHUNKS", "CONTENT", "CONTENT_NO_LENGTH", "FOOTERS", "END"]


def wf(name, w, sort=S):
    return uf(name, S, sort)(w)


def world(st, set=None):
    if set is not None:
        st.objs[("world", 0)] = ("str", set)
    return st.objs[("world", 0)][1]


def piece(name, w, mode, pos, D, end, total):
    """what a piece of the parser may do, as its contract says: -> (result, new mode, bytes taken, byte count reported, world).
    The code's callee and the specification use it alike."""
    w2 = wf(name, w)
    if name == "finish_headers":
        r = wf("r_" + name, w, BV(8))
        if D(eq(r, 0, 8)):
            return 0, mode, 0, None, w2
        m = wf("m_" + name, w, BV(8))
        for k, n in enumerate(("CHUNKS", "CONTENT", "CONTENT_NO_LENGTH")):
            if D(eq(m, k, 8)):
                return (1 if D(eq(r, 1, 8)) else 2), n, 0, None, w2
        return 1, "END", 0, None, w2
    n = wf("n_" + name, w, BV(64))
    if name == "rest":
        n = sub(end, pos)
        return 2, mode, n, n, w2
    D.assume(ule(n, sub(end, pos)))
    r = wf("r_" + name, w, BV(8))
    if name != "content" and D(eq(r, 0, 8)):
        return 0, mode, n, wf("l_" + name, w, BV(64)), w2
    if D(eq(r, 1, 8)):
        if name == "chunks" and D(wf("footers", w, z3.BoolSort())):
            return 1, "FOOTERS", n, n, w2
        return 1, mode, n, n, w2
    return 2, mode, sub(end, pos), sub(end, pos), w2


def callee(name):
    def f(vm, st, a, ins):
        K, self = vm.konst, vm.owner
        mods = vm.p.mods[0]
        P = lambda n: Ptr(a[0].r, a[0].o + K["p_" + n])
        if name == "chunks" or name == "rest":
            q = a[1]
            vm.oblige(st, isinstance(q, Ptr) and q.r is not None and q.r.id == "msg" and q.o == K["m_m_chunk_cache"], "chunks are kept in the message", "pre")
        elif not (isinstance(a[1], Ptr) and a[1].r.id == "msg" and a[1].o == 0):
            vm.oblige(st, False, "the message is passed on", "pre")
        if name in ("headers", "finish_headers", "chunks", "content"):
            e = a[2]
            vm.oblige(st, isinstance(e, Ptr) and e.r is not None and e.r.id == "ec" and e.o == 0, "the error code is passed on", "pre")
        rp = vm.load(st, P("m_read_ptr"), PTR, mods)
        if not (isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text"):
            raise Unsupported("read position outside the text")
        vm.oblige(st, ule(rp.o, LEN), "the read position is inside the text", "pre")
        md = vm.load(st, P("m_message_parse_state"), IntTy(32), mods)
        names = [n for n in ORDER if eq(md, K["e_PARSE_" + n], 32) is True]
        if not names:
            raise Unsupported("parsing state not known at a call")

        def g(D, s):
            r, m, n, last, w = piece(name, world(s), names[0], rp.o, D, LEN, None)
            return r, m, n, last, w
        outs = []
        for s, (r, m, n, last, w) in explore(vm, st, g):
            world(s, w)
            vm.store(s, P("m_message_parse_state"), K["e_PARSE_" + m], IntTy(32), mods)
            if name != "finish_headers":
                vm.store(s, P("m_read_ptr"), Ptr(rp.r, add(rp.o, n)), PTR, mods)
                vm.store(s, P("m_bytes_last_read"), last, IntTy(64), mods)
            outs.append((s, last if name == "rest" else K[TRI[r]]))
        return Multi(outs)
    return f


def c_world(name, *modes):
    def f(vm, st, a, ins):
        K = vm.konst
        i = 0 if name == "concatenate" or name == "status" else 1
        q = a[i]
        vm.oblige(st, isinstance(q, Ptr) and q.r is not None and q.r.id == "msg" and q.o == 0, "the message is passed on", "pre")
        tag = name
        if name == "finish":
            md = vm.load(st, Ptr(a[0].r, a[0].o + K["p_m_message_parse_state"]), IntTy(32), vm.p.mods[0])
            vm.oblige(st, eq(md, K["e_PARSE_END"], 32), "a message is finished when it is complete", "pre")
        if name == "status":
            vm.oblige(st, eq(a[1], 0, 1) if not isinstance(a[1], (bool, z3.BoolRef)) else Not(a[1]), "a malformed message is not complete", "pre")
        world(st, wf(tag, world(st)))
    return f


PIECES = [(r"^pion::http::parser::parse_headers\(", callee("headers")), (r"^pion::http::parser::finish_header_parsing\(", callee("finish_headers")),
          (r"^pion::http::parser::parse_chunks\(", callee("chunks")), (r"^pion::http::parser::consume_content\(", callee("content")),
          (r"^pion::http::parser::consume_content_as_next_chunk\(", callee("rest")), (r"^pion::http::message::concatenate_chunks\(", c_world("concatenate")),
          (r"^pion::http::parser::finish\(", c_world("finish")), (r"^pion::http::parser::compute_msg_status\(", c_world("status"))]


class Dispatch(Spec):
    """headers, then what they announce, then trailer fields; complete or malformed messages are closed"""

    def __init__(self, handler):
        self.handler = handler

    def start(self, mode, **data):
        return SpecState({"mode": mode, "res": None}, dict(data, pos=0, total=0, world=W0))

    def facts(self, s):
        return [lambda d: ule(d["pos"], LEN)]

    def measure(self, s):
        return [{"START": 0, "HEADERS": 0, "CHUNKS": 1, "CONTENT": 1, "CONTENT_NO_LENGTH": 1, "FOOTERS": 2, "END": 3}[s.mode], s.pos]

    def step(self, D, s):
        m = s.mode

        def do(name):
            r, m2, n, last, w = piece(name, s.world, s.mode, s.pos, D, LEN, s.total)
            s.set(world=w, mode=m2, pos=add(s.pos, n))
            if last is not None:
                s.set(total=add(s.total, last))
            return r
        if m == "START":
            s.set(mode="HEADERS")
            m = "HEADERS"
        if m in ("HEADERS", "FOOTERS"):
            r = do("headers")
            if r == 1 and m == "HEADERS":
                r = do("finish_headers")
        elif m == "CHUNKS":
            r = do("chunks")
            if r == 1:
                if not self.handler:
                    s.set(world=wf("concatenate", s.world))
                r = 2 if s.mode == "FOOTERS" else 1
        elif m == "CONTENT":
            r = do("content")
        elif m == "CONTENT_NO_LENGTH":
            r = do("rest")
        else:
            r = 1
        if r == 2 and D(ult(s.pos, LEN)):
            return
        if r == 1:
            s.set(mode="END", world=wf("finish", s.world))
        elif r == 0:
            s.set(world=wf("status", s.world))
        s.ctrl.update(done=1, res=r)


class Parse(MessageContract):
    def __init__(self, prog, handler):
        MessageContract.__init__(self, prog, r"^pion::http::parser::parse\(", True, PIECES)
        self.on = handler
        self.spec = Dispatch(handler)
        self.envpc += [ult(0, LEN)]
        self.envsyms |= {"world0", "miss0", "after0"}

    def start(self, sim):
        out = []
        sim.vm.owner = self
        self.envpc += [ule(MISS, 1, 8), ule(AFTER, 1, 8)]
        for mode in ORDER:
            st, args = self.setup(sim, {"m_headers": HDRS, "m_cookie_params": COOK, "m_message_parse_state": self.K["e_PARSE_" + mode],
                                        "m_has_missing_packets": MISS, "m_has_data_after_missing": AFTER})
            self.handler(sim.vm, st, self.on)
            world(st, W0)
            sim.vm.push(st, self.fn(), args)
            after = If(eq(MISS, 0, 8), AFTER, 1, 8)
            out.append((st, self.spec.start(mode, after=after), None))
        return out

    def globals(self, vm, st):
        return st

    def on_return(self, sim, st, ret, s):
        vm, K = sim.vm, self.K
        vm.oblige(st, eq(ret, K[TRI[s.res]], 32), "the result says whether the message is complete, wants more, or is malformed", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), K["e_PARSE_" + s.mode], 32), "the state for the next read is right", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_last_read"), s.total, 64), "the byte count is that of all pieces together", "post")
        rp = self.p(sim, st, "m_read_ptr")
        vm.oblige(st, isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text" and eq(rp.o, s.pos), "the read position is where the last piece left it", "post")
        vm.oblige(st, world(st) == s.world, "the pieces of the message are handled in their order, and it is closed once", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_has_data_after_missing"), s.after, 8), "data after missing data is noted", "post")
        frame_ok(self, sim, st, {"m_message_parse_state", "m_bytes_last_read", "m_read_ptr", "m_has_data_after_missing"})
        ev = vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0])
        vm.oblige(st, eq(ev, ECV, 32), "the error is the one a piece reported", "frame")


def eof_body(self, sim):
    """check_premature_eof: content without a length ends where the connection does"""
    vm, K = sim.vm, self.K
    for mode in ORDER:
        vm.owner = self
        st, a = self.setup(sim, {"m_headers": HDRS, "m_cookie_params": COOK, "m_message_parse_state": K["e_PARSE_" + mode]})
        world(st, W0)
        for _, st, ret in self.call(sim, st, r"^pion::http::parser::check_premature_eof\(", [a[0], a[1]]):
            open_ = mode == "CONTENT_NO_LENGTH"
            vm.oblige(st, Not(tobool(ret)) if open_ else tobool(ret), "the end of the connection is premature unless it ends the content", "post")
            vm.oblige(st, world(st) == (wf("finish", wf("concatenate", W0)) if open_ else W0), "content that ends here makes the message complete", "post")
            vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), K["e_PARSE_END" if open_ else "e_PARSE_" + mode], 32), "the state is right", "post")
            frame_ok(self, sim, st, {"m_message_parse_state"})


def units():
    u = lambda name, make: Unit(name, FSRC, make, extra=NOACC)
    req = ((True, "request"), (False, "response"))
    out = [u_finish_headers(q) for q in (True, False)] + [u_finish(q, h) for q in (True, False) for h in (False, True)]
    out += [u("update_message_with_header_data(%s)" % n, lambda prog, q=q: Update(prog, q)) for q, n in req]
    out += [u("parse(%s)" % ("payload handler" if h else "kept in the message"), lambda prog, h=h: Parse(prog, h)) for h in (False, True)]
    out += [u("content_buffer_t::resize", lambda prog: Straight(prog, resize_body)),
            Unit("concatenate_chunks", FSRC + ["src/http_message.cpp"], lambda prog: StraightMessage(prog, True, concat_body, [C_RESIZE]), extra=NOACC, shim=True),
            u("compute_msg_status", lambda prog: StraightMessage(prog, True, status_body)),
            u("reset", lambda prog: StraightMessage(prog, True, reset_body)),
            u("check_premature_eof", lambda prog: StraightMessage(prog, True, eof_body, PIECES))]
    return out


def property(pid):
    from whole import A_FINISH
    if pid == "C18":
        return Property(pid, units(), [], A_FINISH, TRUST, ASSUME)
    raise KeyError(pid)
