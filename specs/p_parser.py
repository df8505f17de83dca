"""C14...: the incremental HTTP message parser."""
from runner import Unit, Lemma, Audit, Property, concrete_run
from common import *
from objs import *
from p_http import BUFV, LEN, DICT, TEXT, NAME_MAX, VALUE_MAX, DRV, LIBS, fromhex, readdict, audit, pick, is_ctl

PSRC = ["src/http_parser.cpp", HARNESS]
LIMIT = {"method": 1024, "resource": 256 * 1024, "query": 1024 * 1024, "hname": 1024, "hvalue": 1024 * 1024, "smsg": 1024}
STATES = ["METHOD_START", "METHOD", "URI_STEM", "URI_QUERY", "HTTP_VERSION_H", "HTTP_VERSION_T_1", "HTTP_VERSION_T_2", "HTTP_VERSION_P",
          "HTTP_VERSION_SLASH", "HTTP_VERSION_MAJOR_START", "HTTP_VERSION_MAJOR", "HTTP_VERSION_MINOR_START", "HTTP_VERSION_MINOR",
          "STATUS_CODE_START", "STATUS_CODE", "STATUS_MESSAGE", "EXPECTING_NEWLINE", "EXPECTING_CR", "HEADER_WHITESPACE", "HEADER_START",
          "HEADER_NAME", "SPACE_BEFORE_HEADER_VALUE", "HEADER_VALUE", "EXPECTING_FINAL_NEWLINE", "EXPECTING_FINAL_CR"]
WORD = {"HTTP_VERSION_T_1": ("T", "HTTP_VERSION_T_2"), "HTTP_VERSION_T_2": ("T", "HTTP_VERSION_P"), "HTTP_VERSION_P": ("P", "HTTP_VERSION_SLASH"),
        "HTTP_VERSION_SLASH": ("/", "HTTP_VERSION_MAJOR_START")}
SPECIAL = b'()<>@,;:\\"/[]?={} \t'


def token(c):
    """a character of an HTTP token"""
    return Not(Or(ult(127, c, 8), is_ctl(c), oneof(c, SPECIAL)))


def digit(c):
    return inrange(c, 48, 57)


def w32(v, w):
    return v if isinstance(v, int) else simp(z3.ZeroExt(32 - w, v))


def lo16(v):
    return v & 0xffff if isinstance(v, int) else simp(z3.Extract(15, 0, v))


def shift10(v, c):
    """v * 10 + the digit c, as 32-bit number"""
    d = sub(w32(c, 8), 48, 32)
    x = w32(v, 16)
    if isinstance(x, int) and isinstance(d, int):
        return x * 10 + d
    return simp(bv(x, 32) * bv(10, 32) + bv(d, 32))


class Headers(Spec):
    """start line and header lines, from any state in which an earlier fragment may have left off"""

    def __init__(self, src, request, raw):
        self.src, self.request, self.raw_on = src, request, raw

    def start(self, state, **data):
        return SpecState({"st": state, "res": None, "err": None}, dict(data, pos=0))

    STRS = ("method", "resource", "query", "hname", "hvalue", "smsg")

    def facts(self, s):
        f = [lambda d: ule(d["pos"], s_len(self.src))]
        f += [lambda d, n=n: ule(s_len(d[n]), LIMIT[n]) for n in self.STRS]
        if s.st == "SPACE_BEFORE_HEADER_VALUE":
            f.append(lambda d: eq(s_len(d["hvalue"]), 0))
        return f

    def end(self, s, res, err=None):
        s.ctrl.update(done=1, res=res, err=err)

    def step(self, D, s):
        e = b"" if isinstance(self.src, bytes) else s_empty
        if D(ule(s_len(self.src), s.pos)):
            return self.end(s, 2)
        c = s_at(self.src, s.pos)
        bad = lambda what: self.end(s, 0, what)
        cr, lf, sp = (lambda: D(eq(c, 13, 8))), (lambda: D(eq(c, 10, 8))), (lambda: D(eq(c, 32, 8)))
        st = s.st
        done = False

        def app(n):
            s.data[n] = s_app(s.data[n], c)

        def full(n):
            return D(ule(LIMIT[n], s_len(s.data[n])))

        def version(**kw):
            s.set(line=e, **kw)

        def header_name():
            """first character of a header's name"""
            if not D(token(c)):
                bad("HEADER_CHAR")
                return False
            s.set(hname=s_app(e, c), st="HEADER_NAME")
            return True

        def store():
            s.set(dict=d_ins(s.dict, s.hname, s.hvalue))

        if st == "METHOD_START":
            if not D(oneof(c, b" \r\n")):
                if not D(token(c)):
                    return bad("METHOD_CHAR")
                s.set(st="METHOD", method=s_app(e, c))
        elif st == "METHOD":
            if sp():
                s.set(st="URI_STEM", resource=e)
            elif not D(token(c)):
                return bad("METHOD_CHAR")
            elif full("method"):
                return bad("METHOD_SIZE")
            else:
                app("method")
        elif st in ("URI_STEM", "URI_QUERY"):
            w = "URI" if st == "URI_STEM" else "QUERY"
            if sp():
                s.set(st="HTTP_VERSION_H")
            elif w == "URI" and D(eq(c, 63, 8)):
                s.set(st="URI_QUERY", query=e)
            elif cr():
                version(vmaj=0, vmin=0, st="EXPECTING_NEWLINE")
            elif lf():
                version(vmaj=0, vmin=0, st="EXPECTING_CR")
            elif D(is_ctl(c)):
                return bad(w + "_CHAR")
            elif full("resource" if w == "URI" else "query"):
                return bad(w + "_SIZE")
            else:
                app("resource" if w == "URI" else "query")
        elif st == "HTTP_VERSION_H":
            if D(oneof(c, b"\r\n")):
                if not self.request:
                    return bad("VERSION_EMPTY")
                version(vmaj=0, vmin=0, st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
            elif D(eq(c, 72, 8)):
                s.set(st="HTTP_VERSION_T_1")
            else:
                return bad("VERSION_CHAR")
        elif st in WORD:
            if not D(eq(c, ord(WORD[st][0]), 8)):
                return bad("VERSION_CHAR")
            s.set(st=WORD[st][1])
        elif st in ("HTTP_VERSION_MAJOR_START", "HTTP_VERSION_MINOR_START"):
            if not D(digit(c)):
                return bad("VERSION_CHAR")
            version(**{"vmaj" if "MAJOR" in st else "vmin": lo16(sub(w32(c, 8), 48, 32))})
            s.set(st=st[:-6])
        elif st in ("HTTP_VERSION_MAJOR", "HTTP_VERSION_MINOR") and D(digit(c)):
            n = "vmaj" if "MAJOR" in st else "vmin"
            v = shift10(s.data[n], c)
            if D(ult(65535, v, 32)):
                return bad("VERSION_CHAR")
            version(**{n: lo16(v)})
        elif st == "HTTP_VERSION_MAJOR":
            if not D(eq(c, 46, 8)):
                return bad("VERSION_CHAR")
            s.set(st="HTTP_VERSION_MINOR_START")
        elif st == "HTTP_VERSION_MINOR":
            if sp():
                if not self.request:
                    s.set(st="STATUS_CODE_START")
            elif D(oneof(c, b"\r\n")):
                if not self.request:
                    return bad("STATUS_EMPTY")
                s.set(st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
            else:
                return bad("VERSION_CHAR")
        elif st == "STATUS_CODE_START":
            if not D(digit(c)):
                return bad("STATUS_CHAR")
            s.set(code=lo16(sub(w32(c, 8), 48, 32)), st="STATUS_CODE")
        elif st == "STATUS_CODE":
            if sp():
                s.set(smsg=e, st="STATUS_MESSAGE")
            elif D(digit(c)):
                v = shift10(s.code, c)
                if D(ult(65535, v, 32)):
                    return bad("STATUS_CHAR")
                s.set(code=lo16(v))
            elif D(oneof(c, b"\r\n")):
                s.set(smsg=e, st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
            else:
                return bad("STATUS_CHAR")
        elif st == "STATUS_MESSAGE":
            if D(oneof(c, b"\r\n")):
                s.set(st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
            elif D(is_ctl(c)) or full("smsg"):
                return bad("STATUS_CHAR")
            else:
                app("smsg")
        elif st == "EXPECTING_NEWLINE" and lf():
            if self.request and D(eq(s.vmaj, 0, 16)):
                done = True                 # HTTP/0.9 simple request: no headers
            else:
                s.set(st="HEADER_START")
        elif st == "EXPECTING_NEWLINE" and cr():
            done = True                     # lines ended by CR alone
        elif st == "EXPECTING_CR" and cr():
            s.set(st="HEADER_START")
        elif st == "EXPECTING_CR" and lf():
            done = True                     # lines ended by LF alone
        elif st == "HEADER_START" and D(oneof(c, b"\r\n")):
            s.set(st="EXPECTING_FINAL_NEWLINE" if cr() else "EXPECTING_FINAL_CR")
        elif st == "HEADER_WHITESPACE" and D(oneof(c, b"\r\n")):
            s.set(st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
        elif st in ("EXPECTING_NEWLINE", "EXPECTING_CR", "HEADER_START", "HEADER_WHITESPACE"):
            if D(oneof(c, b" \t")):
                s.set(st="HEADER_WHITESPACE")
            elif not header_name():
                return
        elif st == "HEADER_NAME":
            if D(eq(c, 58, 8)):
                s.set(hvalue=e, st="SPACE_BEFORE_HEADER_VALUE")
            elif not D(token(c)):
                return bad("HEADER_CHAR")
            elif full("hname"):
                return bad("HEADER_NAME_SIZE")
            else:
                app("hname")
        elif st == "SPACE_BEFORE_HEADER_VALUE" and sp():
            s.set(st="HEADER_VALUE")
        elif st in ("SPACE_BEFORE_HEADER_VALUE", "HEADER_VALUE") and D(oneof(c, b"\r\n")):
            store()
            s.set(st="EXPECTING_NEWLINE" if cr() else "EXPECTING_CR")
        elif st == "SPACE_BEFORE_HEADER_VALUE":
            if not D(token(c)):
                return bad("HEADER_CHAR")
            app("hvalue")
            s.set(st="HEADER_VALUE")
        elif st == "HEADER_VALUE":
            if D(And(Not(eq(c, 9, 8)), is_ctl(c))):
                return bad("HEADER_CHAR")
            if full("hvalue"):
                return bad("HEADER_VALUE_SIZE")
            app("hvalue")
        else:                               # the end of the headers, after a single CR (or LF)
            if not D(eq(c, 10 if st == "EXPECTING_FINAL_NEWLINE" else 13, 8)):
                return self.end(s, 1)
            done = True
        if self.raw_on:
            app("raw")
        s.set(pos=add(s.pos, 1))
        if done:
            self.end(s, 1)


# ------------------------------------------------------------------ parser::parse_headers
DATA = {"method": ("p", "m_method"), "resource": ("p", "m_resource"), "query": ("p", "m_query_string"), "hname": ("p", "m_header_name"),
        "hvalue": ("p", "m_header_value"), "smsg": ("p", "m_status_message"), "raw": ("p", "m_raw_headers"), "code": ("p", "m_status_code"),
        "line": ("m", "m_first_line"), "vmaj": ("m", "m_version_major"), "vmin": ("m", "m_version_minor"), "dict": ("m", "m_headers")}
SYM = {n: (z3.BitVec(n + "0", 16) if n in ("code", "vmaj", "vmin") else DICT if n == "dict" else z3.Const(n + "0", S)) for n in DATA}
TOTAL = z3.BitVec("total0", 64)
LAST = z3.BitVec("last0", 64)
ECV = z3.BitVec("ec0", 32)


class ParserContract(Contract):
    """a member function of http::parser on an arbitrary parser and message"""

    def __init__(self, prog, pat, req):
        self.prog, self.pat, self.req = prog, pat, req
        self.K = konst(prog)
        self.P = Layout(self.K, "p_", PARSER)
        self.M = Layout(self.K, "m_", MESSAGE)
        self.lookup = lib.make_lookup(extra=EXTRA)
        self.envpc = [ult(LEN, MAXLEN)]
        self.envsyms = {"len", "input"}
        self.first = {}

    def frame(self, sim, known=()):
        """a state with a parser, a message, an error code and an input text; fields not given are arbitrary"""
        vm = sim.vm
        st = State()
        st.pc = list(self.envpc)
        p = vm.new_region(st, "parser", "obj", self.K["size_parser"])
        m = vm.new_region(st, "msg", "obj", self.K["size_request" if self.req else "size_response"])
        e = vm.new_region(st, "ec", "obj", self.K["size_ec"])
        b = vm.new_region(st, "text", "buf", LEN)
        st.bufs[b.id] = BUFV
        st.mem[e.id][0] = (4, ECV)
        self.envsyms = self.envsyms | {"ec0"}
        for lay, rid, pre in ((self.P, "parser", "p"), (self.M, "msg", "m")):
            for n, (off, kind, size) in lay.f.items():
                if n in known:
                    v = known[n]
                elif n == "m_read_ptr":
                    v = Ptr(b, 0)
                elif n == "m_read_end_ptr":
                    v = Ptr(b, LEN)
                else:
                    nm = "%s.%s" % (pre, n)
                    v = z3.Const(nm, S) if kind == "str" else z3.Const(nm, D) if kind == "dict" else z3.BitVec(nm, 8 * size)
                    self.envsyms = self.envsyms | {nm}
                    if size == 1 and (rid, n) not in self.first:
                        self.envpc.append(ule(v, 1, 8))
                if isinstance(v, z3.ExprRef):
                    self.envsyms = self.envsyms | {str(x) for x in symnames(v)}
                lay.put(st, rid, n, v)
                self.first[rid, n] = v
        st.pc = list(self.envpc)
        return st, [Ptr(p, 0), Ptr(m, 0), Ptr(e, 0)]

    def p(self, sim, st, n):
        return self.P.get(sim.vm, st, "parser", n, self.prog.mods[0])

    def m(self, sim, st, n):
        return self.M.get(sim.vm, st, "msg", n, self.prog.mods[0])

    def fn(self):
        names = self.prog.find(self.pat)
        if len(names) != 1:
            raise Unsupported("function %s not found (%d candidates)" % (self.pat, len(names)))
        return names[0]


def symnames(v):
    from sim import symbols
    return symbols(v)


class ParseHeaders(ParserContract):
    def __init__(self, prog, req, raw):
        ParserContract.__init__(self, prog, r"^pion::http::parser::parse_headers\(", req)
        self.raw = raw
        self.spec = Headers(TEXT, req, raw)

    def start(self, sim):
        out = []
        known = {f: SYM[n] for n, (w, f) in DATA.items()}
        known.update(m_is_request=int(self.req), m_save_raw_headers=int(self.raw), m_bytes_total_read=TOTAL, m_bytes_last_read=LAST)
        for name in STATES:
            s = self.spec.start(name, **SYM)
            for f in self.spec.facts(s):
                g = f(s.data)
                if g is not True:
                    self.envpc.append(g) if name == STATES[0] else None
        for name in STATES:
            k = "e_PARSE_" + name
            if k not in self.K:
                raise Unsupported("no header parsing state " + name)
            st, args = self.frame(sim, dict(known, m_headers_parse_state=self.K[k]))
            s = self.spec.start(name, **SYM)
            for f in self.spec.facts(s):
                st.assume(f(s.data))
            sim.vm.push(st, self.fn(), args)
            out.append((st, s, None))
        return out

    def on_return(self, sim, st, ret, s):
        vm = sim.vm
        want = {0: "tri_false", 1: "tri_true", 2: "tri_indeterminate"}[s.res]
        vm.oblige(st, eq(ret, self.K[want], 32), "the result says whether the headers are complete, incomplete or malformed", "post")
        rp = self.p(sim, st, "m_read_ptr")
        vm.oblige(st, isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text", "the read position stays inside the text", "post")
        vm.oblige(st, eq(rp.o, s.pos, 64), "exactly the bytes of the headers are consumed", "post")
        for n in ("dict", "vmaj", "vmin", "line"):
            vm.oblige(st, veq_(self.m(sim, st, DATA[n][1]), s.data[n]), "the message's %s is what the text says" % DATA[n][1], "post")
        ev = vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0])
        if s.res == 0:
            vm.oblige(st, eq(ev, self.K["e_ERROR_" + s.err], 32), "the error code names the defect", "post")
            return
        vm.oblige(st, eq(ev, ECV, 32), "no error is reported", "post")
        for n, (w, f) in DATA.items():
            if w == "p":
                vm.oblige(st, veq_(self.p(sim, st, f), s.data[n]), "the parser's %s is what the text says" % f, "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_last_read"), s.pos, 64), "the byte count of the call is exact", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_total_read"), add(TOTAL, s.pos), 64), "the total byte count is exact", "post")
        frame_ok(self, sim, st, {f for _, f in DATA.values()} | {"m_read_ptr", "m_headers_parse_state", "m_bytes_last_read", "m_bytes_total_read"})
        for f in self.spec.facts(s):
            vm.oblige(st, f(s.data), "size limits hold of everything kept", "post")
        if s.res == 2:
            vm.oblige(st, eq(self.p(sim, st, "m_headers_parse_state"), self.K["e_PARSE_" + s.st], 32), "the state for the next fragment is right", "post")


def veq_(a, b):
    if isinstance(a, z3.ExprRef) and a.sort() == S:
        return s_eq(a, b)
    if isinstance(a, z3.ExprRef) and a.sort() == D:
        return a == b
    return eq(a, b, a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else 64)


def frame_ok(self, sim, st, changed, keep=()):
    """nothing else of the parser and the message changes"""
    for lay, rid in ((self.P, "parser"), (self.M, "msg")):
        for n in lay.f:
            if n in changed:
                continue
            v = lay.get(sim.vm, st, rid, n, self.prog.mods[0])
            w = self.first[rid, n]
            if isinstance(w, Ptr):
                sim.vm.oblige(st, isinstance(v, Ptr) and v.r is not None and v.r.id == w.r.id and eq(v.o, w.o), "%s is left alone" % n, "frame")
            else:
                sim.vm.oblige(st, veq_(v, w), "%s is left alone" % n, "frame")


def u_headers(req, raw):
    return Unit("parse_headers(%s%s)" % ("request" if req else "response", ", raw headers kept" if raw else ""), PSRC,
                lambda prog: ParseHeaders(prog, req, raw), extra=NOACC)


# ------------------------------------------------------------------ chunked content
CHUNK_STATES = ["CHUNK_SIZE_START", "CHUNK_SIZE", "EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE", "EXPECTING_CR_AFTER_CHUNK_SIZE",
                "EXPECTING_LF_AFTER_CHUNK_SIZE", "CHUNK", "EXPECTING_CR_AFTER_CHUNK", "EXPECTING_LF_AFTER_CHUNK",
                "EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK", "EXPECTING_FINAL_LF_AFTER_LAST_CHUNK"]
DIGITS = 15


def strtol16(t):
    if isinstance(t, bytes):
        return int(t, 16)
    return uf("strtol16", S, BV(64))(term(t))


def hexdig(c):
    return Or(inrange(c, 48, 57), inrange(c, 65, 70), inrange(c, 97, 102))


class Chunks(Spec):
    """the chunked coding: sizes in hexadecimal, extensions ignored, a chunk of size zero last.
    Content goes to the handler if there is one; otherwise it is kept, up to the limit"""

    def __init__(self, src, handler, limit):
        self.src, self.handler, self.limit = src, handler, limit

    def start(self, state, **data):
        return SpecState({"st": state, "res": None, "err": None, "footers": False}, dict(data, pos=0))

    def facts(self, s):
        f = [lambda d: ule(d["pos"], s_len(self.src)), lambda d: ule(s_len(d["size_str"]), DIGITS),
             lambda d: lib.all_hex(d["size_str"]), lambda d: ult(d["size"], 1 << 60)]
        if s.st == "CHUNK":
            f.append(lambda d: ult(d["got"], d["size"]))
        return f

    def end(self, s, res, err=None):
        s.ctrl.update(done=1, res=res, err=err)

    def step(self, D, s):
        e = b"" if isinstance(self.src, bytes) else s_empty
        n = s_len(self.src)
        if D(ule(n, s.pos)):
            return self.end(s, 2)
        c = s_at(self.src, s.pos)
        st = s.st

        def bad():
            self.end(s, 0, "CHUNK_CHAR")
        if st == "CHUNK_SIZE_START":
            if D(hexdig(c)):
                s.set(size_str=s_app(e, c), st="CHUNK_SIZE")
            elif not D(oneof(c, b" \t\r\n")):
                return bad()
        elif st == "CHUNK_SIZE":
            if D(hexdig(c)):
                if D(ule(DIGITS, s_len(s.size_str))):
                    return bad()
                s.set(size_str=s_app(s.size_str, c))
            elif D(eq(c, 13, 8)):
                s.set(st="EXPECTING_LF_AFTER_CHUNK_SIZE")
            elif D(oneof(c, b" \t")):
                s.set(st="EXPECTING_CR_AFTER_CHUNK_SIZE")
            elif D(eq(c, 59, 8)):
                s.set(st="EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE")
            else:
                return bad()
        elif st == "EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE":
            if D(eq(c, 13, 8)):
                s.set(st="EXPECTING_LF_AFTER_CHUNK_SIZE")
        elif st == "EXPECTING_CR_AFTER_CHUNK_SIZE":
            if D(eq(c, 13, 8)):
                s.set(st="EXPECTING_LF_AFTER_CHUNK_SIZE")
            elif not D(oneof(c, b" \t")):
                return bad()
        elif st == "EXPECTING_LF_AFTER_CHUNK_SIZE":
            if not D(eq(c, 10, 8)):
                return bad()
            v = strtol16(s.size_str)
            if not isinstance(v, int):
                D.assume(lib.strtol_fact(s.size_str))
            s.set(size=v, got=0, st="EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK" if D(eq(v, 0, 64)) else "CHUNK")
        elif st == "CHUNK":
            if self.handler:
                left, rest = sub(s.size, s.got), sub(n, s.pos)
                k = rest if D(ult(rest, left)) else left
                s.set(payload=s_cat(s.payload, s_sub(self.src, s.pos, k)), got=add(s.got, k), pos=add(s.pos, k))
                if D(eq(s.got, s.size, 64)):
                    s.set(st="EXPECTING_CR_AFTER_CHUNK")
                return
            if D(ult(s_len(s.cache), self.limit)):
                s.set(cache=s_app(s.cache, c))
            s.set(got=add(s.got, 1))
            if D(eq(s.got, s.size, 64)):
                s.set(st="EXPECTING_CR_AFTER_CHUNK")
        elif st in ("EXPECTING_CR_AFTER_CHUNK", "EXPECTING_LF_AFTER_CHUNK"):
            if not D(eq(c, 13 if "CR" in st else 10, 8)):
                return bad()
            s.set(st="EXPECTING_LF_AFTER_CHUNK" if "CR" in st else "CHUNK_SIZE_START")
        elif st == "EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK":
            if not D(eq(c, 13, 8)):
                s.ctrl["footers"] = True        # trailer fields follow; nothing of them is consumed here
                return self.end(s, 1)
            s.set(st="EXPECTING_FINAL_LF_AFTER_LAST_CHUNK")
        else:
            if not D(eq(c, 10, 8)):
                return bad()
            s.set(pos=add(s.pos, 1))
            return self.end(s, 1)
        s.set(pos=add(s.pos, 1))


CACHE, PAYLOAD, SIZESTR, SIZE, GOT = z3.Const("cache0", S), z3.Const("payload0", S), z3.Const("size_str0", S), z3.BitVec("size0", 64), z3.BitVec("got0", 64)
LIM = z3.BitVec("limit", 64)
CREAD = z3.BitVec("cread0", 64)


class ParseChunks(ParserContract):
    def __init__(self, prog, handler):
        ParserContract.__init__(self, prog, r"^pion::http::parser::parse_chunks\(", True)
        self.handler = handler
        self.spec = Chunks(TEXT, handler, LIM)
        self.envpc += [ult(LIM, MAXLEN), ule(s_len(SIZESTR), DIGITS)]
        self.data = {"cache": CACHE, "size_str": SIZESTR, "size": SIZE, "got": GOT, "payload": PAYLOAD}

    def start(self, sim):
        out = []
        known = dict(m_chunk_size_str=SIZESTR, m_size_of_current_chunk=SIZE, m_bytes_read_in_current_chunk=GOT, m_max_content_length=LIM,
                     m_bytes_total_read=TOTAL, m_bytes_content_read=CREAD)
        for name in CHUNK_STATES:
            k = "e_PARSE_" + name
            if k not in self.K:
                raise Unsupported("no chunk parsing state " + name)
            st, args = self.frame(sim, dict(known, m_chunked_content_parse_state=self.K[k]))
            self.set_handler(sim.vm, st)
            r = sim.vm.new_region(st, "chunks", "obj", 24)
            st.objs[(r.id, 0)] = ("str", CACHE)
            self.envsyms = self.envsyms | {"cache0", "payload0", "size_str0", "size0", "got0", "limit", "cread0", "total0"}
            s = self.spec.start(name, **self.data)
            for f in self.spec.facts(s):
                st.assume(f(s.data))
            sim.vm.push(st, self.fn(), [args[0], Ptr(r, 0), args[2]])
            out.append((st, s, None))
        return out

    def set_handler(self, vm, st):
        h = vm.new_region(st, "handler", "obj", 8)
        st.cells("parser")[self.K["p_m_payload_handler"]] = (8, Ptr(h, 0) if self.handler else NULL)
        st.ghost["payload"] = PAYLOAD

    def on_return(self, sim, st, ret, s):
        vm = sim.vm
        want = {0: "tri_false", 1: "tri_true", 2: "tri_indeterminate"}[s.res]
        vm.oblige(st, eq(ret, self.K[want], 32), "the result says whether the content is complete, incomplete or malformed", "post")
        rp = self.p(sim, st, "m_read_ptr")
        vm.oblige(st, isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text", "the read position stays inside the text", "post")
        vm.oblige(st, eq(rp.o, s.pos, 64), "exactly the bytes of the chunks are consumed", "post")
        vm.oblige(st, s_eq(lib.gets(st, Ptr(st.regions["chunks"], 0)), s.cache), "exactly the chunks' data is kept, up to the limit", "post")
        vm.oblige(st, s_eq(st.ghost["payload"], s.payload), "exactly the chunks' data reaches the handler", "post")
        ev = vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0])
        if s.res == 0:
            vm.oblige(st, eq(ev, self.K["e_ERROR_" + s.err], 32), "the error code names the defect", "post")
            return
        vm.oblige(st, eq(ev, ECV, 32), "no error is reported", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_last_read"), s.pos, 64), "the byte count of the call is exact", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_total_read"), add(TOTAL, s.pos), 64), "the total byte count is exact", "post")
        vm.oblige(st, eq(self.p(sim, st, "m_bytes_content_read"), add(CREAD, s.pos), 64), "the content byte count is exact", "post")
        if s.res == 2:
            vm.oblige(st, eq(self.p(sim, st, "m_chunked_content_parse_state"), self.K["e_PARSE_" + s.st], 32), "the state for the next fragment is right", "post")
            for f, n in (("m_chunk_size_str", "size_str"), ("m_size_of_current_chunk", "size"), ("m_bytes_read_in_current_chunk", "got")):
                vm.oblige(st, veq_(self.p(sim, st, f), s.data[n]), "%s for the next fragment is right" % f, "post")
            for f in self.spec.facts(s):
                vm.oblige(st, f(s.data), "the invariant of the state holds", "post")
        changed = {"m_read_ptr", "m_chunked_content_parse_state", "m_chunk_size_str", "m_size_of_current_chunk", "m_bytes_read_in_current_chunk",
                   "m_bytes_last_read", "m_bytes_total_read", "m_bytes_content_read"}
        if s.footers:
            changed |= {"m_message_parse_state", "m_headers_parse_state"}
            vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), self.K["e_PARSE_FOOTERS"], 32), "trailer fields are read next", "post")
            vm.oblige(st, eq(self.p(sim, st, "m_headers_parse_state"), self.K["e_PARSE_HEADER_START"], 32), "trailer fields are read next", "post")
        frame_ok(self, sim, st, changed)


def u_chunks(handler):
    return Unit("parse_chunks(%s)" % ("payload handler" if handler else "kept in the message"), PSRC, lambda prog: ParseChunks(prog, handler), extra=NOACC)


# ------------------------------------------------------------------ content of known length, and to the end of the connection
CONT = z3.Const("cont0", S)
REM = z3.BitVec("rem0", 64)
CAP = z3.BitVec("cap0", 64)


def minimum(D, a, b):
    return a if D(ule(a, b)) else b


class Content(Spec):
    """the next bytes of a body of known length: all that is still missing, or all there is"""

    def __init__(self, src, handler, limit):
        self.src, self.handler, self.limit = src, handler, limit

    def start(self, **data):
        return SpecState({"res": None}, dict(data, pos=0))

    def step(self, D, s):
        n = s_len(self.src)
        if D(eq(s.rem, 0, 64)):
            s.ctrl.update(done=1, res=1, none=True)
            return
        k = minimum(D, s.rem, n)
        t = s_sub(self.src, 0, k)
        if D(eq(k, 0, 64)):
            pass
        elif self.handler:
            s.set(payload=s_cat(s.payload, t))
        elif D(ult(s.cread, self.limit)):
            room = sub(self.limit, s.cread)
            s.set(cont=s_cat(s.cont, s_sub(self.src, 0, minimum(D, k, room))))
        s.set(pos=k, rem=sub(s.rem, k), cread=add(s.cread, k))
        s.ctrl.update(done=1, res=1 if D(eq(s.rem, 0, 64)) else 2, none=False)


class ConsumeContent(ParserContract):
    def __init__(self, prog, handler):
        ParserContract.__init__(self, prog, r"^pion::http::parser::consume_content\(", True)
        self.handler = handler
        self.spec = Content(TEXT, handler, LIM)
        whole = add(CREAD, REM)
        self.envpc += [ult(LIM, MAXLEN), ult(CREAD, MAXLEN), ule(CREAD, whole)]
        if not handler:
            # the buffer holds what the length says, up to the limit; it is filled with what came so far
            self.envpc += [z3.If(ule(whole, LIM), CAP == whole, CAP == LIM), z3.If(ule(CREAD, LIM), s_len(CONT) == CREAD, s_len(CONT) == LIM)]
        self.envsyms |= {"limit", "cread0", "rem0", "cap0", "cont0", "total0"}

    def start(self, sim):
        st, args = self.frame(sim, dict(m_bytes_content_remaining=REM, m_bytes_content_read=CREAD, m_max_content_length=LIM, m_bytes_total_read=TOTAL))
        self.content(sim.vm, st)
        self.set_handler(sim.vm, st)
        sim.vm.push(st, self.fn(), args)
        return [(st, self.spec.start(rem=REM, cread=CREAD, cont=CONT, payload=PAYLOAD), None)]

    def content(self, vm, st):
        st.objs[("body", 0)] = ("str", CONT)
        r = vm.new_region(st, "content", "log", CAP)
        r.meta = ("body", 0)
        st.cells("msg")[self.K["m_m_content_buf"] + self.K["cb_ptr"]] = (8, Ptr(r, 0))
        st.cells("msg")[self.K["m_m_content_buf"] + self.K["cb_len"]] = (8, CAP)

    def set_handler(self, vm, st):
        h = vm.new_region(st, "handler", "obj", 8)
        st.cells("parser")[self.K["p_m_payload_handler"]] = (8, Ptr(h, 0) if self.handler else NULL)
        st.ghost["payload"] = PAYLOAD

    def on_return(self, sim, st, ret, s):
        vm = sim.vm
        vm.oblige(st, eq(ret, self.K[TRI[s.res]], 32), "the result says whether the content is complete", "post")
        rp = self.p(sim, st, "m_read_ptr")
        vm.oblige(st, isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text", "the read position stays inside the text", "post")
        vm.oblige(st, eq(rp.o, s.pos, 64), "exactly the bytes of the content are consumed", "post")
        vm.oblige(st, s_eq(st.objs[("body", 0)][1], s.cont), "exactly the content is kept, up to the limit", "post")
        vm.oblige(st, s_eq(st.ghost["payload"], s.payload), "exactly the content reaches the handler", "post")
        if s.none:
            frame_ok(self, sim, st, ())
            return
        for f, v in (("m_bytes_last_read", s.pos), ("m_bytes_total_read", add(TOTAL, s.pos)), ("m_bytes_content_read", s.cread), ("m_bytes_content_remaining", s.rem)):
            vm.oblige(st, eq(self.p(sim, st, f), v, 64), "%s is exact" % f, "post")
        frame_ok(self, sim, st, {"m_read_ptr", "m_bytes_last_read", "m_bytes_total_read", "m_bytes_content_read", "m_bytes_content_remaining"})


TRI = {0: "tri_false", 1: "tri_true", 2: "tri_indeterminate"}


class Rest(Spec):
    """all that is there, up to the limit"""

    def __init__(self, src, handler, limit):
        self.src, self.handler, self.limit = src, handler, limit

    def start(self, **data):
        return SpecState({"res": None}, dict(data, pos=0))

    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(self.src))]

    def step(self, D, s):
        n = s_len(self.src)
        if D(ule(n, s.pos)):
            s.ctrl.update(done=1)
            return
        if self.handler:
            s.set(payload=s_cat(s.payload, self.src), pos=n)
            return
        if D(ult(s_len(s.cache), self.limit)):
            s.set(cache=s_app(s.cache, s_at(self.src, s.pos)))
        s.set(pos=add(s.pos, 1))


class ConsumeRest(ConsumeContent):
    def __init__(self, prog, handler):
        ParserContract.__init__(self, prog, r"^pion::http::parser::consume_content_as_next_chunk\(", False)
        self.handler = handler
        self.spec = Rest(TEXT, handler, LIM)
        self.envpc += [ult(LIM, MAXLEN)]
        self.envsyms |= {"limit", "cread0", "total0", "cache0", "payload0"}

    def start(self, sim):
        st, args = self.frame(sim, dict(m_bytes_content_read=CREAD, m_max_content_length=LIM, m_bytes_total_read=TOTAL))
        self.set_handler(sim.vm, st)
        r = sim.vm.new_region(st, "chunks", "obj", 24)
        st.objs[(r.id, 0)] = ("str", CACHE)
        sim.vm.push(st, self.fn(), [args[0], Ptr(r, 0)])
        return [(st, self.spec.start(cache=CACHE, payload=PAYLOAD), None)]

    def on_return(self, sim, st, ret, s):
        vm = sim.vm
        vm.oblige(st, eq(ret, LEN, 64), "every byte is consumed", "post")
        rp = self.p(sim, st, "m_read_ptr")
        vm.oblige(st, isinstance(rp, Ptr) and rp.r is not None and rp.r.id == "text" and eq(rp.o, LEN), "every byte is consumed", "post")
        vm.oblige(st, s_eq(lib.gets(st, Ptr(st.regions["chunks"], 0)), s.cache), "exactly the content is kept, up to the limit", "post")
        vm.oblige(st, s_eq(st.ghost["payload"], s.payload), "exactly the content reaches the handler", "post")
        for f, v in (("m_bytes_last_read", LEN), ("m_bytes_total_read", add(TOTAL, LEN)), ("m_bytes_content_read", add(CREAD, LEN))):
            vm.oblige(st, eq(self.p(sim, st, f), v, 64), "%s is exact" % f, "post")
        frame_ok(self, sim, st, {"m_read_ptr", "m_bytes_last_read", "m_bytes_total_read", "m_bytes_content_read"})


def u_content(h):
    return Unit("consume_content(%s)" % ("payload handler" if h else "kept in the message"), PSRC, lambda prog: ConsumeContent(prog, h), extra=NOACC)


def u_rest(h):
    return Unit("consume_content_as_next_chunk(%s)" % ("payload handler" if h else "kept in the message"), PSRC, lambda prog: ConsumeRest(prog, h), extra=NOACC)


# ------------------------------------------------------------------ data known to be lost
N = z3.BitVec("lost", 64)
MODES = ["START", "HEADERS", "FOOTERS", "CONTENT", "CONTENT_NO_LENGTH", "CHUNKS", "END"]


class Lost(Spec):
    """n lost bytes: replaced by 'X' where the length of the content allows it"""

    def __init__(self, handler, limit, n):
        self.handler, self.limit, self.n = handler, limit, n

    def start(self, mode, **data):
        return SpecState({"mode": mode, "res": None, "err": None, "phase": "ask", "cst": None, "lost": None}, dict(data, pos=0))

    def facts(self, s):
        f = [lambda d: ule(d["pos"], self.n)]
        if s.mode == "CONTENT" and not self.handler and s.phase == "fill":
            f.append(lambda d: Implies(ult(add(d["cread"], d["pos"]), self.limit), eq(s_len(d["cont"]), add(d["cread"], d["pos"]), 64)))
        return f

    def end(self, s, res, err=None, done=True):
        s.ctrl.update(done=1, res=res, err=err, lost=done)

    def step(self, D, s):
        mode = s.mode
        if s.phase == "ask":
            if mode in ("START", "HEADERS", "FOOTERS"):
                return self.end(s, 0, "MISSING_HEADER_DATA", False)
            if mode == "END":
                return self.end(s, 1, None, False)
            if mode == "CHUNKS":
                if not D(And(eq(s.cstate, self.CHUNK, 32), ult(s.got, s.size), ule(self.n, sub(s.size, s.got)))):
                    return self.end(s, 0, "MISSING_CHUNK_DATA", False)
            if mode == "CONTENT":
                if D(eq(s.rem, 0, 64)):
                    return self.end(s, 1, None, False)
                if D(ult(s.rem, self.n)):
                    return self.end(s, 0, "MISSING_TOO_MUCH_CONTENT", False)
            s.ctrl["phase"] = "fill"
        store = "payload" if self.handler else "cont" if mode == "CONTENT" else "cache"
        more = ult(s.pos, self.n)
        if not self.handler:
            more = And(more, ult(add(s.cread, s.pos) if mode == "CONTENT" else s_len(s.data[store]), self.limit))
        if D(more):
            s.data[store] = s_app(s.data[store], ord("X"))
            s.set(pos=add(s.pos, 1))
            return
        s.set(cread=add(s.cread, self.n))
        res = 2
        if mode == "CHUNKS":
            s.set(got=add(s.got, self.n))
            if D(eq(s.got, s.size, 64)):
                s.set(cst="EXPECTING_CR_AFTER_CHUNK")
        elif mode == "CONTENT":
            s.set(rem=sub(s.rem, self.n))
            if D(eq(s.rem, 0, 64)):
                res = 1
        self.end(s, res)


def called(name):
    def f(vm, st, a, ins):
        extra = ""
        if name == "compute_msg_status":
            extra = ":%s" % (a[1],)
        else:
            extra = ":%s" % (vm.load(st, Ptr(a[0].r, a[0].o + vm.konst["p_m_message_parse_state"]), IntTy(32), vm.p.mods[0]),)
        st.ghost["calls"] = st.ghost.get("calls", "") + name + extra + ";"
    return f


FINISHERS = [(r"^pion::http::parser::finish\(", called("finish")), (r"^pion::http::parser::compute_msg_status\(", called("compute_msg_status"))]


class ParseMissing(ConsumeContent):
    def __init__(self, prog, handler):
        ParserContract.__init__(self, prog, r"^pion::http::parser::parse_missing_data\(", True)
        self.lookup = lib.make_lookup(extra=EXTRA + FINISHERS)
        self.handler = handler
        self.spec = Lost(handler, LIM, N)
        self.spec.CHUNK = self.K["e_PARSE_CHUNK"]
        whole = add(CREAD, REM)
        self.envpc += [ult(LIM, MAXLEN), ult(CREAD, MAXLEN), ule(CREAD, whole), ult(N, MAXLEN)]
        if not handler:
            self.invariant = [z3.If(ule(whole, LIM), CAP == whole, CAP == LIM), z3.If(ule(CREAD, LIM), s_len(CONT) == CREAD, s_len(CONT) == LIM)]
        self.envsyms |= {"limit", "cread0", "rem0", "cap0", "cont0", "total0", "cache0", "payload0", "size0", "got0", "lost", "cstate0"}

    def start(self, sim):
        sim.vm.konst = self.K
        CST = z3.BitVec("cstate0", 32)
        out = []
        for mode in MODES:
            st, args = self.frame(sim, dict(m_bytes_content_remaining=REM, m_bytes_content_read=CREAD, m_max_content_length=LIM, m_bytes_total_read=TOTAL,
                                            m_size_of_current_chunk=SIZE, m_bytes_read_in_current_chunk=GOT, m_message_parse_state=self.K["e_PARSE_" + mode],
                                            m_chunked_content_parse_state=CST))
            self.content(sim.vm, st)
            self.set_handler(sim.vm, st)
            if mode == "CONTENT" and not self.handler:
                for c in self.invariant:
                    st.assume(c)
            st.objs[("msg", self.K["m_m_chunk_cache"])] = ("str", CACHE)
            st.ghost["calls"] = ""
            sim.vm.push(st, self.fn(), [args[0], args[1], N, args[2]])
            out.append((st, self.spec.start(mode, rem=REM, cread=CREAD, cont=CONT, payload=PAYLOAD, cache=CACHE, size=SIZE, got=GOT, cstate=CST), None))
        return out

    def on_return(self, sim, st, ret, s):
        vm = sim.vm
        vm.oblige(st, eq(ret, self.K[TRI[s.res]], 32), "the result says whether parsing can go on", "post")
        vm.oblige(st, s_eq(st.objs[("body", 0)][1], s.cont), "lost content is marked in the content buffer", "post")
        vm.oblige(st, s_eq(st.ghost["payload"], s.payload), "lost content is marked in what the handler gets", "post")
        vm.oblige(st, s_eq(lib.gets(st, Ptr(st.regions["msg"], self.K["m_m_chunk_cache"])), s.cache), "lost content is marked in the chunks kept", "post")
        vm.oblige(st, eq(self.m(sim, st, "m_has_missing_packets"), 1, 8), "the message is marked as having missing packets", "post")
        want = {0: "compute_msg_status:0;", 1: "finish:%d;" % self.K["e_PARSE_END"], 2: ""}[s.res]
        vm.oblige(st, st.ghost["calls"] == want, "the message is finished, or given its status, when parsing ends", "post")
        ev = vm.load(st, Ptr(st.regions["ec"], 0), IntTy(32), self.prog.mods[0])
        vm.oblige(st, eq(ev, self.K["e_ERROR_" + s.err] if s.err else ECV, 32), "the error code names the defect", "post")
        changed = {"m_has_missing_packets", "m_message_parse_state"}
        vm.oblige(st, eq(self.p(sim, st, "m_message_parse_state"), self.K["e_PARSE_" + ("END" if s.res == 1 else s.mode)], 32), "parsing has ended, or goes on where it was", "post")
        if s.lost:
            for f, v in (("m_bytes_last_read", N), ("m_bytes_total_read", add(TOTAL, N)), ("m_bytes_content_read", s.cread), ("m_bytes_content_remaining", s.rem),
                         ("m_bytes_read_in_current_chunk", s.got)):
                changed.add(f)
                vm.oblige(st, eq(self.p(sim, st, f), v, 64), "%s is exact" % f, "post")
        if s.cst:
            changed.add("m_chunked_content_parse_state")
            vm.oblige(st, eq(self.p(sim, st, "m_chunked_content_parse_state"), self.K["e_PARSE_" + s.cst], 32), "the end of the chunk is expected next", "post")
        frame_ok(self, sim, st, changed)


def u_lost(h):
    return Unit("parse_missing_data(%s)" % ("payload handler" if h else "kept in the message"), PSRC, lambda prog: ParseMissing(prog, h), extra=NOACC)


def property(pid):
    from whole import A_HEADERS, A_CHUNKS, A_BODY, A_MISSING
    if pid == "C14":
        return Property(pid, [u_headers(q, r) for q in (True, False) for r in (False, True)], [], A_HEADERS, TRUST, ASSUME)
    if pid == "C15":
        return Property(pid, [u_chunks(h) for h in (False, True)], [], A_CHUNKS, TRUST, ASSUME)
    if pid == "C16":
        return Property(pid, [u_content(h) for h in (False, True)] + [u_rest(h) for h in (False, True)], [], A_BODY, TRUST, ASSUME)
    if pid == "C17":
        return Property(pid, [u_lost(h) for h in (False, True)], [], A_MISSING, TRUST, ASSUME)
    raise KeyError(pid)
