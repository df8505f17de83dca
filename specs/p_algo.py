"""C01-C06: codecs and byte conversions of pion/algorithm."""
import struct
from runner import Unit, Lemma, Audit, Property, concrete_run
from common import *

SRC = ["src/algorithm.cpp"]
DRV = ["/verif/drivers/algo.cpp", "src/algorithm.cpp"]
ESC = b' $&+,/:;=?@"<>#%{}|\\^~[]`'


def hexpair(c):
    if isinstance(c, int):
        return [lib.hexdigit(c >> 4), lib.hexdigit(c & 15)]
    return [lib.hexdigit(simp(z3.LShR(c, bv(4, 8)))), lib.hexdigit(simp(c & bv(15, 8)))]


# ------------------------------------------------------------------ specification machines
class StrSpec(Spec):
    def __init__(self, src):
        self.src = src

    def start(self):
        return SpecState({}, {"pos": 0, "out": s_empty if not isinstance(self.src, bytes) else b""})

    def facts(self, s):
        return [lambda d: ule(d["pos"], add(s_len(self.src), 3))]

    def end(self, D, s):
        if D(ule(s_len(self.src), s.pos)):
            s.ctrl["done"] = 1
            s.set(pos=s_len(self.src))
            return True
        return False

    def at(self, p):
        return s_at(self.src, p)

    def emit(self, s, *cs):
        o = s.out
        for c in cs:
            o = s_app(o, c)
        s.set(out=o)


class UrlEnc(StrSpec):
    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(self.src))]

    def step(self, D, s):
        if self.end(D, s):
            return
        c = self.at(s.pos)
        if D(And(inrange(c, 33, 126), Not(oneof(c, ESC)))):
            self.emit(s, c)
        else:
            self.emit(s, 37, *hexpair(c))
        s.set(pos=add(s.pos, 1))


class UrlDec(StrSpec):
    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(self.src))]

    def step(self, D, s):
        if self.end(D, s):
            return
        p = s.pos
        c = self.at(p)
        if D(eq(c, 43, 8)):
            self.emit(s, 32)
        elif D(And(eq(c, 37, 8), ult(2, sub(s_len(self.src), p)))):
            h = lib.hexval(D, self.at(add(p, 1)))
            l = lib.hexval(D, self.at(add(p, 2))) if h is not None else None
            if h is not None and l is not None:
                v = bor(shl(h, 4, 8), l, 8)
                if not D(eq(v, 0, 8)):
                    self.emit(s, v)
                    s.set(pos=add(p, 3))
                    return
            self.emit(s, 37)
        else:
            self.emit(s, c)
        s.set(pos=add(p, 1))


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64char(v):
    if isinstance(v, int):
        return B64[v]
    v = bv(v, 8)
    return simp(z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, bv(43, 8), bv(47, 8))))))


def b64val(D, c):
    if not D(Or(inrange(c, 65, 90), inrange(c, 97, 122), inrange(c, 48, 57), eq(c, 43, 8), eq(c, 47, 8))):
        return None
    return simp(If(inrange(c, 65, 90), sub(c, 65, 8), If(inrange(c, 97, 122), sub(c, 71, 8), If(inrange(c, 48, 57), add(c, 4, 8), If(eq(c, 43, 8), 62, 63, 8), 8), 8), 8))


class B64Enc(StrSpec):
    def step(self, D, s):
        if self.end(D, s):
            return
        p, L = s.pos, s_len(self.src)
        a = self.at(p)
        if D(ult(1, sub(L, p))):
            b = self.at(add(p, 1))
            if D(ult(2, sub(L, p))):
                c = self.at(add(p, 2))
                self.emit(s, b64char(bits(a, 7, 2, 8)), b64char(bor(shl(bits(a, 1, 0, 8), 4, 8), bits(b, 7, 4, 8), 8)),
                          b64char(bor(shl(bits(b, 3, 0, 8), 2, 8), bits(c, 7, 6, 8), 8)), b64char(bits(c, 5, 0, 8)))
            else:
                self.emit(s, b64char(bits(a, 7, 2, 8)), b64char(bor(shl(bits(a, 1, 0, 8), 4, 8), bits(b, 7, 4, 8), 8)),
                          b64char(shl(bits(b, 3, 0, 8), 2, 8)), 61)
        else:
            self.emit(s, b64char(bits(a, 7, 2, 8)), b64char(shl(bits(a, 1, 0, 8), 4, 8)), 61, 61)
        s.set(pos=add(p, 3))


class B64Dec(StrSpec):
    def start(self):
        s = StrSpec.start(self)
        s.ctrl["ok"] = None
        return s

    def fin(self, s, ok):
        s.ctrl["done"], s.ctrl["ok"] = 1, ok
        s.set(pos=s_len(self.src))

    def step(self, D, s):
        p, L = s.pos, s_len(self.src)
        if D(ule(L, p)):
            return self.fin(s, True)
        a = b64val(D, self.at(p))
        if a is None or D(ule(sub(L, p), 1)):
            return self.fin(s, False)
        b = b64val(D, self.at(add(p, 1)))
        if b is None:
            return self.fin(s, False)
        self.emit(s, bor(shl(a, 2, 8), bits(b, 5, 4, 8), 8))
        if D(ule(sub(L, p), 2)):
            return self.fin(s, True)
        x = self.at(add(p, 2))
        if D(eq(x, 61, 8)):
            return self.fin(s, True)
        c = b64val(D, x)
        if c is None:
            return self.fin(s, False)
        self.emit(s, bor(shl(bits(b, 3, 0, 8), 4, 8), bits(c, 5, 2, 8), 8))
        if D(ule(sub(L, p), 3)):
            return self.fin(s, True)
        x = self.at(add(p, 3))
        if D(eq(x, 61, 8)):
            return self.fin(s, True)
        d = b64val(D, x)
        if d is None:
            return self.fin(s, False)
        self.emit(s, bor(shl(bits(c, 1, 0, 8), 6, 8), d, 8))
        s.set(pos=add(p, 4))


ENT = {38: b"&amp;", 60: b"&lt;", 62: b"&gt;", 34: b"&quot;", 39: b"&apos;"}
RC = b"\xef\xbf\xbd"


def utf8_at(D, at, left):
    """number of bytes of the XML character encoded (shortest form) at the front, or 0"""
    a = at(0)
    if D(Or(inrange(a, 0x20, 0x7f), oneof(a, (9, 10, 13)))):
        return 1
    if D(inrange(a, 0xc2, 0xdf)):
        n = 2
    elif D(inrange(a, 0xe0, 0xef)):
        n = 3
    elif D(inrange(a, 0xf0, 0xf4)):
        n = 4
    else:
        return 0
    if D(ult(left, n)):
        return 0
    b = at(1)
    lo, hi = 0x80, 0xbf
    if n == 3 and D(eq(a, 0xe0, 8)):
        lo = 0xa0
    elif n == 3 and D(eq(a, 0xed, 8)):
        hi = 0x9f
    elif n == 4 and D(eq(a, 0xf0, 8)):
        lo = 0x90
    elif n == 4 and D(eq(a, 0xf4, 8)):
        hi = 0x8f
    if not D(inrange(b, lo, hi)):
        return 0
    for k in range(2, n):
        if not D(inrange(at(k), 0x80, 0xbf)):
            return 0
    if n == 3 and D(And(eq(a, 0xef, 8), eq(b, 0xbf, 8), ule(0xbe, at(2), 8))):
        return 0
    return n


class XmlEnc(StrSpec):
    def facts(self, s):
        return [lambda d: ule(d["pos"], s_len(self.src))]

    def step(self, D, s):
        if self.end(D, s):
            return
        p = s.pos
        n = utf8_at(D, lambda k: self.at(add(p, k)), sub(s_len(self.src), p))
        if n == 0:
            self.emit(s, *RC)
            n = 1
        elif n == 1:
            c = self.at(p)
            for k, e in ENT.items():
                if D(eq(c, k, 8)):
                    self.emit(s, *e)
                    break
            else:
                self.emit(s, c)
        else:
            self.emit(s, *[self.at(add(p, k)) for k in range(n)])
        s.set(pos=add(p, n))


def oracle(cls, src):
    sp = cls(src)
    return concrete_run(sp, sp.start())


# ------------------------------------------------------------------ contracts
def str_unit(name, fn, cls, sig, post, envpc=lambda s: [], budget=400):
    def make(prog):
        src = z3.Const("str", S)
        sp = cls(src)
        return StrFn(prog, r"^pion::algorithm::%s\(" % fn, sig, sp, [src], sp.start, post, envpc(src))
    return Unit(name, SRC, make, budget=budget)


def post_sret(sim, st, ret, s, obj):
    sim.vm.oblige(st, s_eq(obj(0), s.out), "result equals the specified encoding", "post")


def post_bool(sim, st, ret, s, obj):
    ok = s.ctrl.get("ok", True)
    sim.vm.oblige(st, eq(ret, 1 if ok else 0), "the return value says whether the input was accepted", "post")
    if ok:
        sim.vm.oblige(st, s_eq(obj(1), s.out), "the output equals the specified text", "post")


def short32(src):
    return [z3.ULT(b64(s_len(src)), bv((1 << 32) - 16, 64))]


U_UE = str_unit("url_encode", "url_encode", UrlEnc, ["sret", "in"], post_sret)
U_UD = str_unit("url_decode", "url_decode", UrlDec, ["sret", "in"], post_sret)
U_XE = str_unit("xml_encode", "xml_encode", XmlEnc, ["sret", "in"], post_sret)
U_BE = str_unit("base64_encode", "base64_encode", B64Enc, ["in", "out"], post_bool, short32)
U_BD = str_unit("base64_decode", "base64_decode", B64Dec, ["in", "out"], post_bool, short32)


# ------------------------------------------------------------------ lemmas
def sym_state(sp, src):
    pos = z3.BitVec("pos", 64)
    s = sp.start()
    s.data["pos"], s.data["out"] = pos, z3.Const("out", S)
    return s, pos


def lemma_urlenc_alphabet():
    c = LemmaCtx()
    src = z3.Const("str", S)
    sp = UrlEnc(src)
    s, pos = sym_state(sp, src)
    for k, (x, s2) in enumerate(c.steps(sp, s, [z3.ULT(pos, b64(s_len(src)))])):
        ch = chunk(s.out, s2.out)
        good = [And(inrange(v, 33, 126), Not(oneof(v, [e for e in ESC if e != 37])), Or(Not(eq(v, 37, 8)), i == 0)) for i, v in enumerate(ch)]
        c.prove("step %d emits only URL-safe characters" % k, x.pc, And(*good))
        c.prove("step %d emits one character or one complete %%XX escape" % k, x.pc,
                And(Not(eq(ch[0], 37, 8))) if len(ch) == 1 else And(len(ch) == 3, eq(ch[0], 37, 8), Or(inrange(ch[1], 48, 57), inrange(ch[1], 65, 70)), Or(inrange(ch[2], 48, 57), inrange(ch[2], 65, 70))))
        c.cover("step %d" % k, x.pc)
    return c.out


def lemma_url_roundtrip():
    """one encoder step emits text w for byte c; the decoder, standing before w in any string, consumes exactly w and emits c"""
    c = LemmaCtx()
    src = z3.Const("str", S)
    sp = UrlEnc(src)
    s, pos = sym_state(sp, src)
    enc = z3.Const("enc", S)
    for k, (x, s2) in enumerate(c.steps(sp, s, [z3.ULT(pos, b64(s_len(src))), s_at(src, pos) != 0])):
        w = chunk(s.out, s2.out)
        dec = UrlDec(enc)
        q = z3.BitVec("q", 64)
        d = SpecState({}, {"pos": q, "out": z3.Const("dout", S)})
        L = b64(s_len(enc))
        pc = list(x.pc) + [z3.ULE(bv(len(w), 64), L), z3.ULE(q, L - len(w))] + [bv(s_at(enc, add(q, i)), 8) == bv(v, 8) for i, v in enumerate(w)]
        for j, (y, d2) in enumerate(c.steps(dec, d, pc)):
            c.prove("encoder case %d, decoder case %d: consumes the escape" % (k, j), y.pc, And(eq(d2.pos, add(q, len(w))), d2.ctrl.get("done") is None))
            c.prove("encoder case %d, decoder case %d: yields the byte" % (k, j), y.pc, s_eq(d2.out, s_app(d.out, s_at(src, pos))))
            c.cover("encoder case %d, decoder case %d" % (k, j), y.pc)
    return c.out


def lemma_b64_roundtrip():
    """each encoder step emits one group; the decoder standing before that group consumes it and emits the 1..3 bytes"""
    c = LemmaCtx()
    src = z3.Const("str", S)
    sp = B64Enc(src)
    s, pos = sym_state(sp, src)
    enc = z3.Const("enc", S)
    L0 = b64(s_len(src))
    for k, (x, s2) in enumerate(c.steps(sp, s, [z3.ULT(pos, L0)])):
        w = chunk(s.out, s2.out)
        c.prove("encoder case %d emits four characters" % k, x.pc, len(w) == 4)
        last = w[3] == 61
        dec = B64Dec(enc)
        q = z3.BitVec("q", 64)
        d = dec.start()
        d.data["pos"], d.data["out"] = q, z3.Const("dout", S)
        L = b64(s_len(enc))
        pc = list(x.pc) + [z3.ULE(bv(4, 64), L), z3.ULE(q, L - 4)] + [bv(s_at(enc, add(q, i)), 8) == bv(v, 8) for i, v in enumerate(w)]
        for j, (y, d2) in enumerate(c.steps(dec, d, pc)):
            ch = chunk(d.out, d2.out)
            n = len(ch)
            c.prove("case %d/%d: the bytes come back" % (k, j), y.pc, And(*[eq(v, s_at(src, add(pos, i)), 8) for i, v in enumerate(ch)]))
            if last:
                c.prove("case %d/%d: final group accepted with the right count" % (k, j), y.pc, And(d2.ctrl.get("ok") is True, eq(add(pos, n), L0)))
            else:
                c.prove("case %d/%d: full group consumed" % (k, j), y.pc, And(n == 3, d2.ctrl.get("done") is None, eq(d2.pos, add(q, 4))))
            c.cover("case %d/%d" % (k, j), y.pc)
        al = [Or(inrange(v, 65, 90), inrange(v, 97, 122), inrange(v, 48, 57), oneof(v, b"+/"), eq(v, 61, 8) if last and i >= 2 else False) for i, v in enumerate(w)]
        c.prove("case %d: base64 alphabet" % k, x.pc, And(*al))
    return c.out


def lemma_b64_reject():
    """an accepted input has only alphabet characters (before any padding), and no dangling single character"""
    c = LemmaCtx()
    enc = z3.Const("enc", S)
    dec = B64Dec(enc)
    q = z3.BitVec("q", 64)
    d = dec.start()
    d.data["pos"], d.data["out"] = q, z3.Const("dout", S)
    L = b64(s_len(enc))

    def isb(i):
        v = s_at(enc, add(q, i))
        return Or(inrange(v, 65, 90), inrange(v, 97, 122), inrange(v, 48, 57), oneof(v, b"+/"))
    for j, (y, d2) in enumerate(c.steps(dec, d, [z3.ULT(q, L)])):
        if d2.ctrl.get("ok") is not False:
            c.prove("case %d: an accepted group starts with two alphabet characters" % j, y.pc, And(isb(0), isb(1), ult(1, sub(L, q))))
            n = len(chunk(d.out, d2.out))
            c.prove("case %d: every further byte comes from an alphabet character" % j, y.pc, And(*[isb(i) for i in range(2, n + 1)]))
        c.cover("case %d" % j, y.pc)
    return c.out


def lemma_xml():
    """every emitted piece is an entity, the replacement character, or one XML character in shortest-form UTF-8 that is no markup"""
    c = LemmaCtx()
    src = z3.Const("str", S)
    sp = XmlEnc(src)
    s, pos = sym_state(sp, src)
    for k, (x, s2) in enumerate(c.steps(sp, s, [z3.ULT(pos, b64(s_len(src)))])):
        ch = chunk(s.out, s2.out)
        lit = all(isinstance(v, int) for v in ch)
        if lit and bytes(ch) in list(ENT.values()) + [RC]:
            c.out.append(("case %d emits %r" % (k, bytes(ch)), "proved", ""))
            if bytes(ch) in ENT.values():
                src_c = [a for a, e in ENT.items() if e == bytes(ch)][0]
                c.prove("case %d escapes the matching character" % k, x.pc, eq(s_at(src, pos), src_c, 8))
        else:
            # decode the emitted bytes as UTF-8 and classify the code point
            v = [z3.ZeroExt(24, bv(b, 8)) for b in ch]
            n = len(ch)
            if n == 1:
                cp, lo = v[0], 0
            elif n == 2:
                cp, lo = ((v[0] & 0x1f) << 6) | (v[1] & 0x3f), 0x80
            elif n == 3:
                cp, lo = ((v[0] & 15) << 12) | ((v[1] & 0x3f) << 6) | (v[2] & 0x3f), 0x800
            else:
                cp, lo = ((v[0] & 7) << 18) | ((v[1] & 0x3f) << 12) | ((v[2] & 0x3f) << 6) | (v[3] & 0x3f), 0x10000
            lead = {1: ule(v[0], 0x7f, 32), 2: eq(v[0] & 0xe0, 0xc0, 32), 3: eq(v[0] & 0xf0, 0xe0, 32), 4: eq(v[0] & 0xf8, 0xf0, 32)}[n]
            cont = And(*[eq(z & 0xc0, 0x80, 32) for z in v[1:]])
            xmlchar = Or(oneof(cp, (9, 10, 13), 32), inrange(cp, 0x20, 0xd7ff, 32), inrange(cp, 0xe000, 0xfffd, 32), inrange(cp, 0x10000, 0x10ffff, 32))
            c.prove("case %d: shortest-form UTF-8 of an XML character" % k, x.pc, And(lead, cont, ule(lo, cp, 32), xmlchar))
            c.prove("case %d: no markup character" % k, x.pc, Not(oneof(ch[0], list(ENT))) if n == 1 else True)
            c.prove("case %d: copies its input" % k, x.pc, And(*[eq(b, s_at(src, add(pos, i)), 8) for i, b in enumerate(ch)]))
            c.prove("case %d: consumes exactly what it copies, within the input" % k, x.pc, And(eq(s2.pos, add(pos, n)), ule(s2.pos, s_len(src))))
        c.cover("case %d" % k, x.pc)
    return c.out


# ------------------------------------------------------------------ integers
WID = {"uint8": (1, 8, 0), "int8": (1, 8, 1), "uint16": (2, 16, 0), "int16": (2, 16, 1), "uint24": (3, 32, 0), "int24": (3, 32, 0),
       "uint32": (4, 32, 0), "int32": (4, 32, 1), "uint64": (8, 64, 0), "int64": (8, 64, 1)}


def ints_unit(prog):
    def body(self, vm):
        def be(bs, w):
            v = z3.Concat(*bs) if len(bs) > 1 else bs[0]
            return z3.ZeroExt(w - v.size(), v) if w > v.size() else v
        for nm, (nb, w, sg) in WID.items():
            for ch in "uc":
                st = State()
                r = vm.new_region(st, "buf", "obj", nb)
                bs = [z3.BitVec("b%d" % k, 8) for k in range(nb)]
                for k in range(nb):
                    st.cells("buf")[k] = (1, bs[k])
                n0 = len(vm.obs)
                for o in self.call(vm, st, "h_to_%s_%s" % (ch, nm), [Ptr(r, 0)]):
                    vm.oblige(o[1], o[0] == "ret" and eq(bv(o[2], w), simp(be(bs, w)), w), "to_%s reads a big-endian integer" % nm, "post")
                    for k in range(nb):
                        vm.oblige(o[1], eq(o[1].mem["buf"][k][1], bs[k], 8), "to_%s leaves the buffer alone" % nm, "post")
                st = State()
                r = vm.new_region(st, "buf", "obj", nb)
                n = z3.BitVec("n", w)
                for o in self.call(vm, st, "h_from_%s_%s" % (ch, nm), [Ptr(r, 0), n]):
                    for k in range(nb):
                        got = vm.load(o[1], Ptr(o[1].regions["buf"], k), IntTy(8), vm.p.mods[0])
                        want = z3.Extract(8 * (nb - k) - 1, 8 * (nb - k - 1), n)
                        vm.oblige(o[1], o[0] == "ret" and eq(got, simp(want), 8), "from_%s writes byte %d of the big-endian form" % (nm, k), "post")
        for h, nb, w in (("h_b1", 1, 8), ("h_s1", 1, 8), ("h_b2", 2, 16), ("h_s2", 2, 16), ("h_b3", 3, 32), ("h_s3", 3, 32), ("h_b4", 4, 32), ("h_s4", 4, 32), ("h_b8", 8, 64), ("h_s8", 8, 64)):
            st = State()
            bs = [z3.BitVec("b%d" % k, 8) for k in range(nb)]
            for o in self.call(vm, st, h, list(bs)):
                vm.oblige(o[1], o[0] == "ret" and eq(bv(o[2], w), simp(be(bs, w)), w), "byte-wise constructor %s" % h, "post")
    return Straight(prog, body)


def lemma_ints():
    c = LemmaCtx()
    for nb in (1, 2, 3, 4, 8):
        n = z3.BitVec("n", nb * 8)
        bs = [z3.Extract(8 * (nb - k) - 1, 8 * (nb - k - 1), n) for k in range(nb)]
        c.prove("%d bytes: reading back what was written gives the number" % nb, [], z3.simplify((z3.Concat(*bs) if nb > 1 else bs[0]) == n))
    return c.out


def judge_ints(case, out):
    b = case[1]
    exp = []
    for nm, (nb, w, sg) in WID.items():
        v = int.from_bytes(b[:nb], "big")
        if sg and v >> (w - 1):
            v -= 1 << w
        exp.append(str(v))
    n = int.from_bytes(b, "big")
    for nm, (nb, w, sg) in WID.items():
        exp.append((b"\x5a" * 4 + (n & mask(8 * nb)).to_bytes(nb, "big") + b"\x5a" * (12 - nb)).hex())
    for i, (a, e) in enumerate(zip(out, exp)):
        if a != e:
            return "%s: expected %s, got %s" % (("to_" if i < 10 else "from_") + list(WID)[i % 10], e, a)
    return None if len(out) == len(exp) else "wrong number of outputs"


def gen_ints(rng, n, hints):
    for _ in range(n):
        k = rng.randrange(4)
        b = rbytes(rng, 8) if k else rbytes(rng, 8, [0, 1, 0x7f, 0x80, 0xff])
        yield (rng.choice(["iu", "is"]), b)


# ------------------------------------------------------------------ floats (bounded)
def ieee(b):
    return struct.unpack(">f" if len(b) == 4 else ">d", b)[0]


def judge_float(case, out):
    b = case[1]
    v = ieee(b)
    exp = (b[0] & 0x7f) << 8 | b[1]
    e = (exp >> 7) & 0xff if len(b) == 4 else exp >> 4
    got = float.fromhex(out[0]) if out[0] not in ("inf", "-inf", "nan") else None
    canary = fromhex(out[1])
    if canary[:8] != b"\x5a" * 8 or canary[8 + len(b):] != b"\x5a" * (16 - len(b)):
        return "float_to_bytes wrote outside its buffer"
    if e == 0 and v != 0:
        return None       # subnormals: outside the property
    if v == 0:
        return None if got == 0 and canary[8:8 + len(b)].lstrip(b"\x80") == b"\0" * len(b.lstrip(b"\x80")) or got == 0 and not any(canary[8:8 + len(b)]) else "zero"
    if got != v:
        return "float_from_bytes: expected %r, got %s" % (v, out[0])
    if canary[8:8 + len(b)] != b:
        return "float_to_bytes: expected %s, got %s" % (b.hex(), canary[8:8 + len(b)].hex())
    return None


def gen_float(rng, n, hints):
    for _ in range(n):
        sz = rng.choice([4, 8])
        while True:
            k = rng.randrange(3)
            if k == 0:
                b = rbytes(rng, sz)
            elif k == 1:
                b = rbytes(rng, sz, [0, 0xff, 0x80, 0x7f, 1, 0x40, 0x3f, 0xbf, 0xf0])
            else:
                b = bytearray(sz)
                for _ in range(rng.randrange(1, 5)):
                    i = rng.randrange(8 * sz)
                    b[i // 8] |= 1 << (i % 8)
                b = bytes(b)
            e = (((b[0] & 0x7f) << 8 | b[1]) >> (7 if sz == 4 else 4)) & (0xff if sz == 4 else 0x7ff)
            if e not in (0, 0xff if sz == 4 else 0x7ff):
                break
            if not any(b):
                break
        yield ("ff", b)


# ------------------------------------------------------------------ audits
URLA = b"%%%%+0123456789abcdefABCDEFgGxX- z\x00\xff&=?/~"
XMLA = bytes([0x20, 0x41, 0x26, 0x3c, 0x3e, 0x22, 0x27, 9, 10, 13, 0, 0x1f, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff])


def rlen(rng):
    return rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 20, 33, 64, 200])


def gen_url(rng, n, hints):
    for k in range(256):
        yield ("ue", bytes([k]))
        if k:
            yield ("rt", bytes([k]))
    for a in range(256):
        yield ("ud", b"%" + bytes([a]) + b"5")
        yield ("ud", b"%6" + bytes([a]))
    for _ in range(n):
        b = rbytes(rng, rlen(rng), rng.choice([None, URLA, URLA]))
        op = rng.choice(["ue", "ud", "ud", "rt"])
        yield (op, b.replace(b"\0", b"\1") if op == "rt" else b)


def judge_str(case, out):
    op, b = case
    got = fromhex(out[0]) if op not in ("be", "bd") else fromhex(out[1])
    if op == "rt":
        return None if got == b else "url_decode(url_encode(x)) != x"
    cls = {"ue": UrlEnc, "ud": UrlDec, "xe": XmlEnc, "be": B64Enc, "bd": B64Dec}[op]
    s = oracle(cls, b)
    if op in ("be", "bd"):
        ok = s.ctrl.get("ok", True)
        if out[0] != ("1" if ok else "0"):
            return "%s: expected %s" % (op, "success" if ok else "rejection")
        if not ok:
            return None
    return None if got == s.out else "expected %s" % s.out.hex()


def gen_b64(rng, n, hints):
    import base64
    for a in range(256):
        for p in range(4):
            t = bytearray(b"QUJD")
            t[p] = a
            yield ("bd", bytes(t))
        yield ("be", bytes([a]))
        yield ("be", bytes([a, 255 - a]))
        yield ("be", bytes([255 - a, a, a ^ 0x55]))
    for _ in range(n):
        b = rbytes(rng, rlen(rng))
        if rng.random() < 0.4:
            yield ("be", b)
        else:
            e = base64.b64encode(b)
            k = rng.randrange(4)
            if k == 0:
                e = e.rstrip(b"=")
            elif k >= 2:
                e = mutate(rng, e, B64 + b"=== -_\n\x80\xff")
            yield ("bd", e)


def gen_xml(rng, n, hints):
    for a in range(256):
        yield ("xe", bytes([a]))
        for b in (0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0):
            yield ("xe", bytes([a, b]))
            if a >= 0xe0:
                for c in (0x7f, 0x80, 0xbd, 0xbe, 0xbf, 0xc0):
                    yield ("xe", bytes([a, b, c]))
                    if a >= 0xf0:
                        for d in (0x7f, 0x80, 0xbf, 0xc0):
                            yield ("xe", bytes([a, b, c, d]))
    for _ in range(n):
        if rng.random() < 0.3:
            t = "".join(chr(rng.choice([rng.randrange(0x20, 0x7f), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randrange(8))).encode()
            yield ("xe", mutate(rng, t, XMLA))
        else:
            yield ("xe", rbytes(rng, rlen(rng), XMLA))


A_URL = Audit("url", DRV, gen_url, judge_str, quick=1500, deep=30000)
A_B64 = Audit("b64", DRV, gen_b64, judge_str, quick=1500, deep=30000)
A_XML = Audit("xml", DRV, gen_xml, judge_str, quick=1500, deep=30000)
A_INT = Audit("ints", DRV, gen_ints, judge_ints, quick=600, deep=10000)
A_FLT = Audit("floats", DRV, gen_float, judge_float, quick=1500, deep=20000)


def url_for(ops):
    def g(rng, n, hints):
        return (c for c in gen_url(rng, n, hints) if c[0] in ops)
    return g


def property(pid):
    if pid == "C01":
        return Property(pid, [U_UE, U_UD], [Lemma("encoded text uses only URL-safe characters", lemma_urlenc_alphabet), Lemma("decoding inverts encoding (induction step)", lemma_url_roundtrip)],
                        Audit("url", DRV, url_for(("ue", "rt")), judge_str, quick=2000, deep=30000), TRUST, ASSUME + ["round trip by induction on the encoder's steps; the step is machine-checked, the induction over the concatenation of steps is stated in DESIGN.md"])
    if pid == "C02":
        return Property(pid, [U_UD], [], Audit("url", DRV, url_for(("ud",)), judge_str, quick=2500, deep=30000), TRUST, ASSUME)
    if pid == "C03":
        return Property(pid, [U_BE, U_BD], [Lemma("decoding inverts encoding (induction step)", lemma_b64_roundtrip), Lemma("what acceptance means", lemma_b64_reject)],
                        A_B64, TRUST, ASSUME + ["input shorter than 2^32-16 bytes (the functions keep the length in an unsigned int)"])
    if pid == "C04":
        return Property(pid, [U_XE], [Lemma("output pieces", lemma_xml)], A_XML, TRUST, ASSUME)
    if pid == "C05":
        return Property(pid, [Unit("integer conversions", ["/verif/harness/h_ints.cpp"], ints_unit)], [Lemma("inverse", lemma_ints)], A_INT, TRUST, ASSUME)
    if pid == "C06":
        return Property(pid, [], [], A_FLT, TRUST, ASSUME, level="exploration",
                        rule="random, sparse-bit and boundary byte patterns of normal floats and doubles and zero, expected value by exact rational arithmetic; distinct byte patterns counted, each decodes to a different value")
    raise KeyError(pid)
