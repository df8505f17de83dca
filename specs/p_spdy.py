"""C20: SPDY frames: the fields of a frame, the frames of a packet, the header block, decompression."""
import zlib
from runner import Unit, Property
from common import *
from objs import *
from p_http import pick, fromhex, readdict
from runner import Audit, concrete_run

SRC = ["src/spdy_parser.cpp", "src/spdy_decompressor.cpp", "/verif/harness/h_spdy.cpp"]
TXT, BLK = z3.Const("packet", BUF), z3.Const("block", BUF)
N = z3.BitVec("length", 32)             # bytes of the packet
ULEN = z3.BitVec("ulen", 64)            # bytes of the decompressed header block
ECV0 = z3.BitVec("ec0", 32)
HD = z3.Const("headers", D)
SYN_STREAM, SYN_REPLY, RST, SETTINGS, PING, GOAWAY, HEADERS_, WINDOW, CREDENTIAL, INVALID = 1, 2, 3, 4, 6, 7, 8, 9, 10, 11
HEAD = 8                                # bytes in front of what the length of a frame counts


def by(src, i):
    if isinstance(src, bytes):
        return src[i]
    return simp(z3.Select(src, b64(i)))


def num(src, i, n):
    """n bytes, most significant first"""
    if isinstance(src, bytes):
        return int.from_bytes(src[i:i + n], "big")
    return simp(z3.Concat(*[by(src, add(i, k)) for k in range(n)]))


def z64(v):
    return v if isinstance(v, int) else zext(v, v.size(), 64)


def low(v, n, w):
    return v & ((1 << n) - 1) if isinstance(v, int) else simp(z3.ZeroExt(w - n, z3.Extract(n - 1, 0, v)))


def m_ins(d, k, v):
    """std::map::insert: an entry that is there stays"""
    if isinstance(d, tuple):
        return d if any(k == x for x, _ in d) else d + ((k, v),)
    return uf("map_insert", D, S, S, D)(d, term(k), term(v))


class Block(Spec):
    """the name/value pairs of a decompressed header block"""

    def __init__(self, src, ulen=None, bulk=False):
        self.bulk = bulk
        self.src, self.ulen = src, len(src) if isinstance(src, bytes) else ulen

    def start(self, d, **kw):
        return SpecState({"st": "COUNT", "err": None}, dict(pos=0, base=0, k=0, j=0, i=0, n=0, ln=0, lv=0, name=s_empty if not isinstance(self.src, bytes) else b"",
                                                           value=s_empty if not isinstance(self.src, bytes) else b"", dict=d, **kw))

    exact = True

    def transient(self, s):
        return s.st in ("COUNT", "NAMED")

    def inner(self, s):
        return {"NAME": "k", "VALUE": "j"}.get(s.st)

    def measure(self, s):
        return [s.pos, {"COUNT": 0, "NAME": 0, "NAMED": 0, "VALUE": 0, "PAIR": 1}[s.st]]

    def facts(self, s):
        U = self.ulen
        f = [lambda d: ule(d["pos"], U), lambda d: ule(d["base"], d["pos"])]
        if s.st in ("NAME", "VALUE"):
            l, k = ("ln", "k") if s.st == "NAME" else ("lv", "j")
            f += [lambda d: ult(d["i"], d["n"]), lambda d: ule(d[k], d[l]), lambda d: eq(d["pos"], add(d["base"], d[k])),
                  lambda d: ule(add(add(d["base"], d[l]), 2 if l == "ln" else 0), U)]
        if s.st == "PAIR":
            f += [lambda d: ule(d["i"], d["n"])]
        return f

    def left(self, s, n):
        """the block holds n more bytes"""
        return ule(add(s.pos, n), self.ulen)

    def step(self, D, s):
        e = b"" if isinstance(self.src, bytes) else s_empty
        bad = lambda: s.ctrl.update(done=1, err="MISSING_HEADER_DATA")
        if s.st == "COUNT":
            if not D(self.left(s, 2)):
                return bad()
            s.set(n=z64(num(self.src, s.pos, 2)), pos=2, base=2, i=0, st="PAIR")
        elif s.st == "PAIR":
            if not D(ult(s.i, s.n)):
                s.ctrl.update(done=1)
                return
            if not D(self.left(s, 2)):
                return bad()
            ln = z64(num(self.src, s.pos, 2))
            s.set(pos=add(s.pos, 2), ln=ln)
            if not D(self.left(s, add(ln, 2))):
                return bad()
            if self.bulk:               # the name at once
                s.set(name=s_mk(BLK, s.pos, ln), pos=add(s.pos, ln), base=2, k=0, st="NAMED")
            else:
                s.set(base=s.pos, k=0, name=e, st="NAME")
        elif s.st in ("NAME", "NAMED"):
            if not self.bulk and D(ult(s.k, s.ln)):
                s.set(name=s_app(s.name, by(self.src, s.pos)), k=add(s.k, 1), pos=add(s.pos, 1))
                return
            lv = z64(num(self.src, s.pos, 2))
            s.set(pos=add(s.pos, 2), lv=lv)
            if not D(self.left(s, lv)):
                return bad()
            if self.bulk:
                s.set(dict=m_ins(s.dict, s.name, s_mk(BLK, s.pos, lv)), i=add(s.i, 1), pos=add(s.pos, lv), st="PAIR", base=2, k=0, j=0, ln=0, lv=0, name=e, value=e)
                return
            s.set(base=s.pos, j=0, value=e, st="VALUE")
        else:
            if D(ult(s.j, s.lv)):
                s.set(value=s_app(s.value, by(self.src, s.pos)), j=add(s.j, 1), pos=add(s.pos, 1))
                return
            s.set(dict=m_ins(s.dict, s.name, s.value), i=add(s.i, 1), st="PAIR", base=2, k=0, j=0, ln=0, lv=0, name=e, value=e)


# ------------------------------------------------------------------ contracts of the functions called
def c_category(vm, st, a, ins):
    return category(vm, st, a, ins)


def c_map_insert(vm, st, a, ins):
    k, v = lib.pairat(st, a[1])
    lib.setd(st, a[0], m_ins(lib.getd(st, a[0]), k, v))
    return [Ptr(st.regions.get("entry") or vm.new_region(st, "entry", "obj", 8), 0), 1]


def c_decompress(vm, st, a, ins):
    """NULL, or the decompressed block (decompressor::decompress, under contract below)"""
    K, o = vm.konst, vm.owner
    this, p, sid, fr, n = a
    vm.oblige(st, isinstance(this, Ptr) and this.r is not None and this.r.id == "decompressor" and this.o == 0, "the caller's decompressor is used", "pre")
    if not (isinstance(p, Ptr) and p.r is not None and p.r.id == "text"):
        raise Unsupported("compressed data outside the packet")
    vm.oblige(st, And(ule(p.o, z64(N)), ule(z64(n), sub(z64(N), p.o))), "the compressed block lies inside the packet", "pre")
    o.compressed(vm, st, p, sid, fr, n)
    outs = []
    for s, ok in explore(vm, st, lambda D, s: D(o.OK)):
        vm.store(s, Ptr(this.r, K["dc_m_uncompressed_length"]), simp(z3.Extract(31, 0, ULEN)) if ok else 0, IntTy(32), vm.p.mods[0])
        outs.append((s, Ptr(s.regions["block"], 0) if ok else NULL))
    return Multi(outs)


C_COMMON = [(r"^pion::spdy::parser::get_error_category\(", c_category), EXTRA[1], (r"std::map<string, string, .*::(insert|emplace)", c_map_insert)]


class Spdy(Straight):
    def __init__(self, prog, body, extra=()):
        Straight.__init__(self, prog, body, lib.make_lookup(extra=C_COMMON + list(extra)))
        self.K = konst(prog)
        self.OK = z3.Bool("decompressed")


FIELDS = (("http_type", 4), ("stream_id", 4), ("data_offset", 4), ("data_size", 4), ("last_chunk", 1))


def world(self, vm, frame=None, read=0, atleast=0):
    """a parser at an offset of a packet of N bytes, a frame, an info record, an error code, a decompressor"""
    K = self.K
    vm.konst, vm.owner = K, self
    st = State()
    st.pc = [ule(atleast, N, 32), ule(ULEN, K["size_block"])] + [z3.ULE(i8, 1) for i8 in (z3.BitVec("info.last_chunk", 8),)]
    p = vm.new_region(st, "parser", "obj", K["size_parser"])
    t = vm.new_region(st, "text", "buf", z64(N))
    st.bufs["text"] = TXT
    vm.new_region(st, "block", "buf", ULEN)
    st.bufs["block"] = BLK
    c = st.cells("parser")
    for n in ("m_read_ptr", "m_current_data_chunk_ptr"):
        c[K["p_" + n]] = (8, Ptr(t, read if n == "m_read_ptr" else 0))
    c[K["p_m_uncompressed_ptr"]] = (8, NULL)
    c[K["p_m_last_data_chunk_ptr"]] = (8, NULL)
    vm.new_region(st, "frame", "obj", K["size_frame"])
    for n, w in (("control_bit", 1), ("version", 2), ("type", 2), ("flags", 1), ("length", 4)):
        if frame is not None:
            st.cells("frame")[K["fr_" + n]] = (w, frame[n])
    vm.new_region(st, "info", "obj", K["size_info"])
    for n, w in FIELDS:
        st.cells("info")[K["hi_" + n]] = (w, z3.BitVec("info." + n, 8 * w))
    st.objs[("info", K["hi_http_headers"])] = ("dict", HD)
    vm.new_region(st, "ec", "obj", K["size_ec"])
    st.cells("ec")[0] = (4, ECV0)
    vm.new_region(st, "decompressor", "obj", K["size_decompressor"])
    vm.new_region(st, "dptr", "obj", 16)
    st.cells("dptr")[0] = (8, Ptr(st.regions["decompressor"], 0))
    st.cells("dptr")[8] = (8, NULL)
    vm.new_region(st, "len", "obj", 4)
    st.cells("len")[0] = (4, N)
    vm.new_region(st, "sid", "obj", 4)
    st.cells("sid")[0] = (4, 0)
    return st


def at(self, vm, st, rid, off, w):
    return vm.load(st, Ptr(st.regions[rid], off), PTR if w == "p" else IntTy(w), self.prog.mods[0])


def info(self, vm, st, n):
    return at(self, vm, st, "info", self.K["hi_" + n], dict(FIELDS)[n] * 8)


def reg(st, n):
    return Ptr(st.regions[n], 0)


def pos_is(self, vm, st, n, o):
    p = at(self, vm, st, "parser", self.K["p_" + n], "p")
    return eq(p.o, o) if isinstance(p, Ptr) and p.r is not None and p.r.id == "text" else False


# ------------------------------------------------------------------ classification of a packet
def classify_body(self, vm):
    def go(fn, n):
        st = State()
        r = vm.new_region(st, "text", "buf", n)
        st.bufs["text"] = TXT
        return self.call(vm, st, r"^pion::spdy::parser::%s\(" % fn, [Ptr(r, 0)])
    b = lambda i: by(TXT, i)
    for _, st, ret in go("get_spdy_frame_type", 1):
        K = self.K
        vm.oblige(st, eq(ret, If(eq(b(0), 0x80, 8), 2, If(eq(b(0), 0, 8), 1, 3, 32), 32), 32), "the first byte tells control frame, data frame, neither", "post")
    ver, typ = num(TXT, 0, 2), num(TXT, 2, 2)
    for _, st, ret in go("is_spdy_control_frame", 4):
        v = low(ver, 15, 16)
        want = And(Not(ule(ver, 0x7fff, 16)), ule(1, v, 16), ule(v, 3, 16), ult(typ, INVALID, 16))
        vm.oblige(st, eq_bool(ret, want), "a control frame has the control bit, a known version and a known type", "post")
    for _, st, ret in go("get_control_frame_stream_id", 12):
        vm.oblige(st, eq(ret, low(num(TXT, 8, 4), 31, 32), 32), "the stream id is the 31 bits behind the frame's length", "post")


def eq_bool(a, b):
    a = tobool(a)
    return Or(And(a, b), And(Not(a), Not(b)))


# ------------------------------------------------------------------ parser::populate_frame
def populate_body(self, vm):
    K = self.K
    ctl = Not(ule(by(TXT, 0), 127, 8))
    for control in (True, False):
        st = world(self, vm, None, 0, 12 if control else 8)
        st.assume(ctl if control else Not(ctl))
        typ = num(TXT, 2, 2)
        for _, x, ret in self.call(vm, st, r"^pion::spdy::parser::populate_frame\(", [reg(st, n) for n in ("parser", "ec", "frame", "len", "sid", "info")]):
            fr = lambda n, w: at(self, vm, x, "frame", K["fr_" + n], w)
            vm.oblige(x, eq(fr("control_bit", 8), int(control), 8), "the control bit is the first bit", "post")
            vm.oblige(x, eq(fr("version", 16), low(num(TXT, 0, 2), 15, 16) if control else 0, 16), "the version is the 15 bits behind the control bit", "post")
            vm.oblige(x, eq(fr("type", 16), typ if control else 0, 16), "the type is the next two bytes; a data frame has none", "post")
            good = ult(typ, INVALID, 16) if control else True
            vm.oblige(x, eq_bool(ret, good), "a frame of unknown type is refused", "post")
            ev = at(self, vm, x, "ec", 0, 32)
            vm.oblige(x, eq(ev, If(good, ECV0, K["e_ERROR_INVALID_SPDY_FRAME"], 32), 32), "the error names an invalid frame, or is untouched", "post")
            vm.oblige(x, x.objs[("info", K["hi_http_headers"])][1].eq(HD), "the headers are untouched", "frame")
            for n in ("http_type", "last_chunk"):
                vm.oblige(x, eq(info(self, vm, x, n), z3.BitVec("info." + n, 8 * dict(FIELDS)[n]), 8 * dict(FIELDS)[n]), n + " is untouched", "frame")
            sid = low(num(TXT, 8 if control else 0, 4), 31, 32)
            vm.oblige(x, eq(info(self, vm, x, "stream_id"), z3.BitVec("info.stream_id", 32) if control else sid, 32), "a data frame's stream id is recorded", "post")
            for y, ok in vm.branch(x, tobool(good)) if not isinstance(good, bool) else [(x, True)]:
                if not ok:
                    continue
                fr = lambda n, w: at(self, vm, y, "frame", K["fr_" + n], w)
                vm.oblige(y, eq(fr("flags", 8), by(TXT, 4), 8), "the flags are the fifth byte", "post")
                vm.oblige(y, eq(fr("length", 32), low(num(TXT, 4, 4), 24, 32), 32), "the length is the 24 bits behind the flags", "post")
                vm.oblige(y, eq(at(self, vm, y, "sid", 0, 32), sid, 32), "the stream id is the 31 bits where the frame keeps it", "post")
                vm.oblige(y, eq(at(self, vm, y, "len", 0, 32), sub(N, HEAD, 32), 32), "the head of the frame is counted off", "post")
                vm.oblige(y, pos_is(self, vm, y, "m_read_ptr", HEAD), "reading goes on behind the head", "post")
                vm.oblige(y, eq(info(self, vm, y, "data_offset"), add(z3.BitVec("info.data_offset", 32), HEAD, 32), 32), "the data begin behind the head", "post")
                vm.oblige(y, eq(info(self, vm, y, "data_size"), low(num(TXT, 4, 4), 24, 32), 32), "the data are as long as the frame says", "post")


# ------------------------------------------------------------------ parser::parse
PAIRS_, ERRP, SIDP, ADV = uf("spdy_pairs", D, BUF, D), z3.BitVec("payload_error", 32), z3.BitVec("payload_sid", 32), z3.BitVec("payload_bytes", 64)


def c_payload(vm, st, a, ins):
    """parse_header_payload, by its contract: an error, or the pairs of the block are added"""
    K, o = vm.konst, vm.owner
    this, ec, dp, fr, inf, avail = a[:6]
    mods = vm.p.mods[0]
    for v, n in ((this, "parser"), (ec, "ec"), (dp, "dptr"), (inf, "info")):
        vm.oblige(st, isinstance(v, Ptr) and v.r is not None and v.r.id == n and v.o == 0, "the %s is passed on" % n, "pre")
    vm.oblige(st, eq(avail, sub(N, HEAD, 32), 32), "what the packet holds behind the head is passed on", "pre")
    vm.oblige(st, pos_is(o, vm, st, "m_read_ptr", HEAD), "reading goes on behind the head", "pre")
    typ = vm.load(st, Ptr(fr.r, add(fr.o, K["fr_type"])), IntTy(16), mods)
    ln = vm.load(st, Ptr(fr.r, add(fr.o, K["fr_length"])), IntTy(32), mods)
    vm.oblige(st, Or(eq(typ, SYN_STREAM, 16), eq(typ, SYN_REPLY, 16), eq(typ, HEADERS_, 16)), "the frame has a header block", "pre")
    vm.oblige(st, And(eq(typ, num(TXT, 2, 2), 16), eq(ln, low(num(TXT, 4, 4), 24, 32), 32)), "the frame is the one that was read", "pre")
    st.assume(ule(ADV, 10))
    st.assume(Or(eq(ERRP, 0, 32), eq(ERRP, K["e_ERROR_MISSING_HEADER_DATA"], 32), eq(ERRP, K["e_ERROR_DECOMPRESSION"], 32)))
    vm.store(st, Ptr(st.regions["parser"], K["p_m_read_ptr"]), Ptr(st.regions["text"], add(HEAD, ADV)), PTR, mods)
    vm.store(st, Ptr(st.regions["info"], K["hi_stream_id"]), SIDP, IntTy(32), mods)
    st.objs[("info", K["hi_http_headers"])] = ("dict", PAIRS_(HD, TXT))
    st.ghost["payload"] = st.ghost.get("payload", 0) + 1
    outs = []
    for s, bad in explore(vm, st, lambda D, s: D(Not(eq(ERRP, 0, 32)))):
        if bad:
            c = s.cells("ec")
            for k in [k for k in c if k < 24]:
                del c[k]
            c[0], c[8], c[16] = (4, ERRP), (8, category(vm, s, a, ins)), (8, 3)
        outs.append((s, None))
    return Multi(outs)


def parse_body(self, vm):
    """one frame of a packet that holds at least its head (12 bytes)"""
    K = self.K
    b0, ver, typ, flags = by(TXT, 0), num(TXT, 0, 2), num(TXT, 2, 2), by(TXT, 4)
    length = low(num(TXT, 4, 4), 24, 32)
    more = ult(length, sub(N, HEAD, 32), 32)
    old = lambda n: z3.BitVec("info." + n, 8 * dict(FIELDS)[n])
    kinds = [("data", eq(b0, 0, 8))] + [("control%d" % t, And(eq(b0, 0x80, 8), eq(typ, t, 16))) for t in range(INVALID)] + \
        [("invalid", And(eq(b0, 0x80, 8), ule(INVALID, typ, 16))), ("other", And(Not(eq(b0, 0, 8)), Not(eq(b0, 0x80, 8))))]
    for kind, cond in kinds:
        st = world(self, vm, None, 0, 12)
        st.assume(cond)
        vm.store(st, Ptr(st.regions["parser"], K["p_m_read_ptr"]), NULL, PTR, self.prog.mods[0])
        vm.store(st, Ptr(st.regions["parser"], K["p_m_current_data_chunk_ptr"]), NULL, PTR, self.prog.mods[0])
        t = 0 if kind == "data" else int(kind[7:]) if kind.startswith("control") else None
        high = Not(ule(low(ver, 15, 16), 3, 16)) if kind.startswith("control") else False
        for _, x, ret in self.call(vm, st, r"^pion::spdy::parser::parse\(", [reg(st, "parser"), reg(st, "info"), reg(st, "ec"), reg(st, "dptr"), reg(st, "text"), reg(st, "len"), z3.BitVec("streams", 32)]):
            ev, out = at(self, vm, x, "ec", 0, 32), at(self, vm, x, "len", 0, 32)
            if t is None:
                vm.oblige(x, eq(ret, K["tri_false"], 32), "what is no SPDY frame is refused", "post")
                vm.oblige(x, eq(ev, K["e_ERROR_INVALID_SPDY_FRAME"], 32), "the error names an invalid frame", "post")
                vm.oblige(x, not x.ghost.get("payload"), "no header block is read from it", "post")
                continue
            block = t in (SYN_STREAM, SYN_REPLY, HEADERS_) and kind != "data"
            # errors: the version, the header block, the status of a GOAWAY frame
            away = And(t == GOAWAY, eq(length, 4, 32), ule(8, sub(N, HEAD, 32), 32))
            stat = num(TXT, 12, 4)
            err = If(high, K["e_ERROR_INVALID_SPDY_VERSION"],
                     ERRP if block else If(And(away, eq(stat, 1, 32)), K["e_ERROR_PROTOCOL_ERROR"], If(And(away, eq(stat, 11, 32)), K["e_ERROR_INTERNAL_SPDY_ERROR"], 0, 32), 32), 32)
            vm.oblige(x, eq(ev, err, 32), "the error is the version's, the header block's or the connection's, or none", "post")
            fine = eq(err, 0, 32)
            vm.oblige(x, eq(ret, If(fine, If(more, K["tri_indeterminate"], K["tri_true"], 32), K["tri_false"], 32), 32),
                      "true: the packet ends with this frame; indeterminate: another follows; false: an error", "post")
            vm.oblige(x, eq(out, If(more, sub(sub(N, HEAD, 32), length, 32), sub(N, HEAD, 32), 32), 32), "what remains of the packet is counted off", "post")
            vm.oblige(x, eq(info(self, vm, x, "data_size"), length, 32), "the data are as long as the frame says", "post")
            vm.oblige(x, eq(info(self, vm, x, "data_offset"), add(old("data_offset"), HEAD, 32), 32), "the data begin behind the head", "post")
            vm.oblige(x, eq(info(self, vm, x, "last_chunk"), If(And(kind == "data", eq(low(flags, 1, 8), 1, 8)), 1, old("last_chunk"), 8), 8), "the last chunk of data is noted", "post")
            vm.oblige(x, Or(high, x.ghost.get("payload", 0) == int(block)), "the header block is read once, if there is one", "post")
            sid = low(num(TXT, 0, 4), 31, 32) if kind == "data" else old("stream_id")
            vm.oblige(x, eq(info(self, vm, x, "stream_id"), If(And(block, Not(high)), SIDP, sid, 32), 32), "the stream id is the frame's", "post")
            kinds_ = {SYN_STREAM: 1, SYN_REPLY: 2, 0: 3, HEADERS_: None, 5: None}
            ht = kinds_.get(t, 4)
            vm.oblige(x, eq(info(self, vm, x, "http_type"), If(high, old("http_type"), old("http_type") if ht is None else ht, 32), 32), "the kind of the frame is told", "post")
            vm.oblige(x, x.objs[("info", K["hi_http_headers"])][1].eq(PAIRS_(HD, TXT) if x.ghost.get("payload") else HD), "headers come from header blocks only", "frame")
            for y, ok in [(x, fine)] if isinstance(fine, bool) else vm.branch(x, tobool(fine)):
                if not ok:
                    continue
                vm.oblige(y, pos_is(self, vm, y, "m_read_ptr", If(more, add(HEAD, z64(length)), 0, 64)), "the next frame begins where this one ends", "post")
                p = at(self, vm, y, "parser", K["p_m_last_data_chunk_ptr"], "p")
                vm.oblige(y, isinstance(p, Ptr) and p.r is not None and p.r.id == "text" and (eq(p.o, HEAD) if kind == "data" else True), "the content of a data frame begins behind its head", "post")


# ------------------------------------------------------------------ parser::parse_header_payload
class Payload(Contract):
    def __init__(self, prog, typ, bulk=False):
        self.prog, self.typ = prog, typ
        self.K = konst(prog)
        self.OK = z3.Bool("decompressed")
        self.lookup = lib.make_lookup(extra=C_COMMON + [(r"^pion::spdy::decompressor::decompress\(", c_decompress)])
        self.LF, self.AV = z3.BitVec("frame.length", 32), sub(N, HEAD, 32)
        self.fixed = 10 if typ == SYN_STREAM else 6
        self.spec = PayloadSpec(self, bulk)
        self.envsyms = {"packet", "block", "length", "ulen", "ec0", "headers", "decompressed", "frame.length", "frame.flags", "frame.version"} | {"info." + n for n, _ in FIELDS}
        self.sid = low(num(TXT, HEAD, 4), 31, 32)
        # a frame as populate_frame leaves it: its length has 24 bits
        self.envpc = [ule(12, N, 32), ult(self.LF, 1 << 24, 32), ule(ULEN, self.K["size_block"]), ule(z3.BitVec("info.last_chunk", 8), 1, 8)]

    def compressed(self, vm, st, p, sid, fr, n):
        vm.oblige(st, And(eq(p.o, HEAD + self.fixed), eq(n, sub(self.LF, self.fixed, 32), 32)), "the block is what follows the fixed fields, to the end of the frame", "pre")
        vm.oblige(st, eq(sid, self.sid, 32), "it is decompressed for its stream", "pre")
        vm.oblige(st, isinstance(fr, Ptr) and fr.r.id == "frame" and fr.o == 0, "the frame is passed on", "pre")

    def start(self, sim):
        vm = sim.vm
        fr = {"control_bit": 1, "version": z3.BitVec("frame.version", 16), "type": self.typ, "flags": z3.BitVec("frame.flags", 8), "length": self.LF}
        st = world(self, vm, fr, HEAD)
        st.pc = list(self.envpc)
        names = self.prog.find(r"^pion::spdy::parser::parse_header_payload\(")
        if len(names) != 1:
            raise Unsupported("parse_header_payload not found")
        a = [reg(st, n) for n in ("parser", "ec", "dptr", "frame", "info")]
        vm.push(st, names[0], a + [self.AV, z3.BitVec("streams", 32)])
        return [(st, self.spec.start(HD), None)]

    def on_return(self, sim, st, ret, s):
        vm, K = sim.vm, self.K
        ev = at(self, vm, st, "ec", 0, 32)
        vm.oblige(st, eq(ev, K["e_ERROR_" + s.err] if s.err else ECV0, 32), "an incomplete block is reported, and one that cannot be decompressed", "post")
        vm.oblige(st, st.objs[("info", K["hi_http_headers"])][1].eq(s.dict) or st.objs[("info", K["hi_http_headers"])][1] == s.dict, "exactly the pairs of the block are added, in their order", "post")
        short = s.ctrl.get("short")
        vm.oblige(st, eq(info(self, vm, st, "stream_id"), z3.BitVec("info.stream_id", 32) if short else self.sid, 32), "the stream id is the frame's", "post")
        for n, w in FIELDS:
            if n != "stream_id":
                vm.oblige(st, eq(info(self, vm, st, n), z3.BitVec("info." + n, 8 * w), 8 * w), n + " is untouched", "frame")
        vm.oblige(st, pos_is(self, vm, st, "m_read_ptr", HEAD if short else HEAD + self.fixed), "reading stops in front of the block", "post")
        p = at(self, vm, st, "parser", K["p_m_current_data_chunk_ptr"], "p")
        vm.oblige(st, isinstance(p, Ptr) and p.r is not None and p.r.id == "text" and eq(p.o, 0), "the next frame's position is untouched", "frame")


class PayloadSpec(Block):
    def __init__(self, o, bulk):
        Block.__init__(self, BLK, ULEN, bulk)
        self.o = o

    def step(self, D, s):
        if s.st == "COUNT":
            o = self.o
            if D(ult(o.AV, o.LF, 32)) or D(ult(o.LF, o.fixed, 32)):
                s.ctrl.update(done=1, err="MISSING_HEADER_DATA", short=True)
                return
            if not D(o.OK):
                s.ctrl.update(done=1, err="DECOMPRESSION")
                return
        Block.step(self, D, s)


# ------------------------------------------------------------------ decompressor
def c_inflate(vm, st, a, ins):
    """inflate reads the input it is given, writes the output space it is given, and counts both off"""
    K = vm.konst
    z = a[0]
    mods = vm.p.mods[0]
    f = lambda n, w: vm.load(st, Ptr(z.r, add(z.o, K["z_" + n])), PTR if w == "p" else IntTy(w), mods)
    ni, ai, no, ao = f("next_in", "p"), f("avail_in", 32), f("next_out", "p"), f("avail_out", 32)
    for p, n, w in ((ni, ai, "input"), (no, ao, "output")):
        ok = isinstance(p, Ptr) and p.r is not None
        vm.oblige(st, And(ule(p.o, p.r.size), ule(z64(n), sub(p.r.size, p.o))) if ok else False, "the %s handed to inflate is there" % w, "pre")
    st.ghost["inflates"] = st.ghost.get("inflates", "") + z.r.id + ";"
    st.ghost["dest"] = no if "dest" not in st.ghost else st.ghost["dest"]
    for nm, p, n in (("in", ni, ai), ("out", no, ao)):
        d = fresh_bv("used_" + nm, 32)
        st.assume(ule(d, n, 32))
        vm.store(st, Ptr(z.r, add(z.o, K["z_avail_" + nm])), sub(n, d, 32), IntTy(32), mods)
        vm.store(st, Ptr(z.r, add(z.o, K["z_next_" + nm])), Ptr(p.r, add(p.o, z64(d))), PTR, mods)
        if nm == "out":
            st.ghost["produced"] = add(st.ghost.get("produced", 0), d, 32)
        st.ghost["left_" + nm] = sub(n, d, 32)
    vm.store(st, Ptr(z.r, add(z.o, K["z_adler"])), fresh_bv("adler", 64), IntTy(64), mods)
    r = fresh_bv("inflate", 32)
    st.ghost["code"] = r
    return r


def c_dictionary(vm, st, a, ins):
    z, p, n = a[:3]
    ok = isinstance(p, Ptr) and p.r is not None
    vm.oblige(st, And(ule(p.o, p.r.size), ule(z64(n), sub(p.r.size, p.o))) if ok else False, "the dictionary is there", "pre")
    st.ghost["inflates"] = st.ghost.get("inflates", "") + "dictionary:" + z.r.id + ";"
    return fresh_bv("setdict", 32)


def decompress_body(self, vm):
    K = self.K
    M = K["size_block"]
    SID, HLEN = z3.BitVec("sid", 32), z3.BitVec("hlen", 32)
    for typ in (SYN_STREAM, SYN_REPLY, HEADERS_):
        for odd in (0, 1):
            fr = {"control_bit": 1, "version": 2, "type": typ, "flags": z3.BitVec("frame.flags", 8), "length": z3.BitVec("frame.length", 32)}
            st = world(self, vm, fr, 0)
            st.pc = [eq(low(SID, 1, 32), odd, 32), eq(N, HLEN, 32)]
            for n in ("request", "response"):
                vm.new_region(st, n, "obj", K["size_zstream"])
                st.cells("decompressor")[K["dc_m_%s_zstream" % n]] = (8, Ptr(st.regions[n], 0))
            st.cells("decompressor")[K["dc_m_dictionary_id"]] = (4, z3.BitVec("dictid", 32))
            st.cells("decompressor")[K["dc_m_uncompressed_length"]] = (4, z3.BitVec("oldlen", 32))
            want = "request" if odd and typ == SYN_STREAM else "response"
            for _, x, ret in self.call(vm, st, r"^pion::spdy::decompressor::decompress\(", [reg(st, "decompressor"), reg(st, "text"), SID, reg(st, "frame"), HLEN]):
                g = x.ghost
                calls = g.get("inflates", "").replace("dictionary:", "").split(";")[:-1]
                vm.oblige(x, len(calls) > 0 and all(c == want for c in calls), "the block goes through the decompressor of its direction", "post")
                n = at(self, vm, x, "decompressor", K["dc_m_uncompressed_length"], 32)
                if ret is NULL or (isinstance(ret, Ptr) and ret.r is None):
                    vm.oblige(x, eq(n, 0, 32), "nothing was produced", "post")
                    continue
                vm.oblige(x, isinstance(ret, Ptr) and ret.r.id == "decompressor" and ret.o == K["dc_m_uncompressed_header"], "the block is where it was produced", "post")
                d = g.get("dest")
                vm.oblige(x, isinstance(d, Ptr) and d.r.id == "decompressor" and d.o == K["dc_m_uncompressed_header"], "the block is produced from the start of the buffer", "post")
                vm.oblige(x, eq(n, g["produced"], 32), "its length is what was produced", "post")
                vm.oblige(x, ule(n, M, 32), "and no more than the buffer holds", "post")
                vm.oblige(x, eq(g["left_in"], 0, 32), "the whole input was consumed", "post")
                vm.oblige(x, eq(g["code"], 0, 32), "a block is delivered if inflating it succeeded", "post")


def units():
    u = lambda name, make, **kw: Unit(name, SRC, make, extra=NOACC, **kw)
    zl = [(r"^inflate$", c_inflate), (r"^inflateSetDictionary$", c_dictionary)]
    return [u("classification of a packet", lambda p: Spdy(p, classify_body)), u("populate_frame", lambda p: Spdy(p, populate_body)),
            u("parse", lambda p: Spdy(p, parse_body, [(r"^pion::spdy::parser::parse_header_payload\(", c_payload)]))] + \
        [u("parse_header_payload(%d)" % t, lambda p, t=t: Payload(p, t), other=lambda p, t=t: Payload(p, t, True)) for t in (SYN_STREAM, SYN_REPLY, HEADERS_)] + \
        [u("decompress", lambda p: Spdy(p, decompress_body, zl))]


# ------------------------------------------------------------------ the same, on packets
DICT = (b"optionsgetheadpostputdeletetraceacceptaccept-charsetaccept-encodingaccept-languageauthorizationexpectfromhostif-modified-sinceif-matchif-none-matchi"
        b"f-rangeif-unmodifiedsincemax-forwardsproxy-authorizationrangerefererteuser-agent10010120020120220320420520630030130230330430530630740040140240340440"
        b"5406407408409410411412413414415416417500501502503504505accept-rangesageetaglocationproxy-authenticatepublicretry-afterservervarywarningwww-authentic"
        b"ateallowcontent-basecontent-encodingcache-controlconnectiondatetrailertransfer-encodingupgradeviawarningcontent-languagecontent-lengthcontent-locati"
        b"oncontent-md5content-rangecontent-typeetagexpireslast-modifiedset-cookieMondayTuesdayWednesdayThursdayFridaySaturdaySundayJanFebMarAprMayJunJulAugSe"
        b"pOctNovDecchunkedtext/htmlimage/pngimage/jpgimage/gifapplication/xmlapplication/xhtmltext/plainpublicmax-agecharset=iso-8859-1utf-8gzipdeflateHTTP/1"
        b".1statusversionurl\0")
FRAME_ERR, VERSION_ERR, DEFLATE_ERR, PROTO_ERR, INTERNAL_ERR, MISSING_ERR = 1, 2, 3, 4, 5, 6
BLOCK_MAX = 16384


class Inflater:
    def __init__(self):
        self.d, self.fed = zlib.decompressobj(zdict=DICT), 0


def frames(p, z, out):
    """what parsing the packet has to answer, frame by frame: fields of the driver's output"""
    off, left = 0, len(p)
    kind, sid, doff, size, last, heads = 0, 0, 0, 0, 0, ()
    while True:
        b = p[off:]
        say = lambda rc, ec, left, *at: out.append([rc, ec, left, kind, sid, doff, size, last] + list(at) + [heads])
        if b[0] not in (0, 0x80):
            say(0, FRAME_ERR, left)
            return True
        ctl = b[0] == 0x80
        ver, typ = (b[0] & 0x7f) << 8 | b[1], int.from_bytes(b[2:4], "big")
        if ctl and typ >= INVALID:
            return False            # what of the head was counted off is nobody's business
        if not ctl:
            sid = int.from_bytes(b[:4], "big") & 0x7fffffff
            if b[4] & 1:
                last = 1
        flen = int.from_bytes(b[5:8], "big")
        avail = left - 8
        doff, size = doff + 8, flen
        more = avail > flen
        left = avail - flen if more else avail
        err = 0
        if ctl and ver > 3:
            err = VERSION_ERR
        elif not ctl:
            kind = 3
        else:
            kind = {SYN_STREAM: 1, SYN_REPLY: 2, HEADERS_: kind, 5: kind, 0: 3}.get(typ, 4)
            fixed = 10 if typ == SYN_STREAM else 6
            if typ == GOAWAY and flen == 4 and avail >= 8:
                err = {1: PROTO_ERR, 11: INTERNAL_ERR}.get(int.from_bytes(b[12:16], "big"), 0)
            elif typ in (SYN_STREAM, SYN_REPLY, HEADERS_):
                if flen > avail or flen < fixed:
                    err = MISSING_ERR
                else:
                    sid = int.from_bytes(b[8:12], "big") & 0x7fffffff
                    d = z[1 if sid % 2 and typ == SYN_STREAM else 0]
                    data = b[8 + fixed:8 + flen]
                    try:
                        blk = d.d.decompress(data, BLOCK_MAX)
                        if not data or d.d.unconsumed_tail or d.d.eof:
                            err = DEFLATE_ERR
                    except zlib.error:
                        err = DEFLATE_ERR
                    d.fed += len(data)
                    if err or d.fed < 7:
                        return False        # the state of the stream after an error is zlib's
                    sp = Block(blk)
                    s = concrete_run(sp, sp.start(tuple(heads)))
                    heads = s.dict
                    err = MISSING_ERR if s.err else 0
        if err:
            say(0, err, left)
            return True
        nxt = off + 8 + flen if more else off
        say(2 if more else 1, 0, left, nxt, off + 8 if not ctl else 0)
        if not more or left < 12:
            return True
        off = nxt


def judge_spdy(case, out):
    if case[0] == "cls":
        p = case[1]
        ver, typ = int.from_bytes(p[:2], "big"), int.from_bytes(p[2:4], "big")
        want = [{0x80: 2, 0: 1}.get(p[0], 3), int(ver >> 15 and 1 <= (ver & 0x7fff) <= 3 and typ < INVALID), int.from_bytes(p[8:12], "big") & 0x7fffffff]
        return None if [int(x) for x in out] == want else "classified as %s, not %s" % (out, want)
    z = [Inflater(), Inflater()]
    got = [[w.split() for w in g.split(";") if w.strip()] for g in " ".join(out).split("|")]
    for i, p in enumerate(case[1:]):
        want = []
        whole = frames(p, z, want)
        for k, w in enumerate(want):
            g = got[i][k] if i < len(got) and k < len(got[i]) else []
            n = len(w) - 1
            if [int(x) for x in g[:n] if ":" not in x] != w[:n] or readdict(g[n:]) != sorted(w[n]):
                return "packet %d, frame %d: %s instead of %s" % (i, k, g, w)
        if not whole:
            return None
        if len(got[i]) != len(want):
            return "packet %d: %d frames instead of %d" % (i, len(got[i]), len(want))
    return None


def block_of(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5]) if n is None else n
    r = (n if rng.random() < .9 else n + rng.choice([1, 256, 65000 - n])).to_bytes(2, "big")
    word = lambda: rng.choice([b"", b"url", b"status", b"x" * rng.choice([3, 200, 255, 256, 300]), bytes(rng.randrange(256) for _ in range(rng.randrange(6))), b"version"])
    for _ in range(n):
        for w in (word(), word()):
            r += (len(w) if rng.random() < .96 else rng.choice([len(w) + 1, 255, 65535])).to_bytes(2, "big") + w
    if rng.random() < .15:
        r = r[:rng.randrange(len(r) + 1)]
    if rng.random() < .1:
        r += b"more" * rng.choice([1, 3000, 4200])
    return r


def gen_spdy(rng, n, hints):
    for _ in range(n):
        if rng.random() < .15:
            yield ("cls", bytes([rng.choice([0, 0x80, 0x81, 0x7f, 255, 1]), rng.choice([0, 1, 2, 3, 4, 255]), rng.choice([0, 0, 0, 1]), rng.randrange(14)] + [rng.randrange(256) for _ in range(8)]))
            continue
        z = [zlib.compressobj(zdict=DICT), zlib.compressobj(zdict=DICT)]
        packets = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = b""
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = rng.choice([SYN_STREAM, SYN_STREAM, SYN_REPLY, HEADERS_, "data", "data", RST, SETTINGS, PING, GOAWAY, WINDOW, CREDENTIAL, 0, 5, INVALID])
                sid = rng.choice([1, 2, 3, 4, 0x7fffffff, 0x80000001, 255]) if t != "data" else rng.choice([1, 2, 77, 0xffffff])
                flags = rng.choice([0, 1, 2, 3, 255])
                if t in (SYN_STREAM, SYN_REPLY, HEADERS_):
                    c = z[1 if sid % 2 and t == SYN_STREAM else 0]
                    body = sid.to_bytes(4, "big") + (bytes(6) if t == SYN_STREAM else bytes(2))
                    body += c.compress(block_of(rng)) + c.flush(zlib.Z_SYNC_FLUSH)
                    if rng.random() < .05:
                        body = body[:rng.randrange(len(body) + 1)]
                elif t == "data":
                    body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 5, 30, 300])))
                elif t == GOAWAY:
                    body = rng.choice([sid.to_bytes(4, "big"), sid.to_bytes(4, "big") + rng.choice([0, 1, 2, 11, 12]).to_bytes(4, "big")])
                else:
                    body = sid.to_bytes(4, "big") + bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 8])))
                flen = len(body) if rng.random() < .93 else rng.choice([0, 4, 9, len(body) + 1, 0xffffff, max(0, len(body) - 1)])
                if t == GOAWAY and rng.random() < .5:
                    flen = 4
                head = sid.to_bytes(4, "big") if t == "data" else bytes([0x80, rng.choice([2, 2, 2, 3, 1, 0, 4])]) + t.to_bytes(2, "big")
                p += head + bytes([flags]) + flen.to_bytes(3, "big") + body
            if len(p) < 12:
                p += bytes(12 - len(p))
            packets.append(p)
        yield ("pk",) + tuple(packets)


A_SPDY = Audit("spdy", ["/verif/drivers/spdy.cpp", "src/spdy_parser.cpp", "src/spdy_decompressor.cpp", "src/algorithm.cpp", "src/logger.cpp"], gen_spdy, judge_spdy,
               libs=("-lz", "-lboost_thread", "-lboost_system", "-lpthread"), quick=3000, deep=40000)


def property(pid):
    if pid == "C20":
        return Property(pid, units(), [], A_SPDY, TRUST + ["inflate and inflateSetDictionary of zlib"], ASSUME)
    raise KeyError(pid)
