"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits from /repo's sources.

Nothing is dropped except metadata, attributes, debug info and lifetime markers.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "elems", "name", "packed", "_size", "_align", "_offs")

    def __init__(self, k, n=0, el=None, elems=None, name=None, packed=False):
        self.k = k
        self.n = n
        self.el = el
        self.elems = elems
        self.name = name
        self.packed = packed
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.elems or []))
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
_ints = {}


def IntTy(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("int", n)
    return t


FLOATS = {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16)}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}

    # layout (x86-64)
    def size(self, t):
        if t._size is not None:
            return t._size
        k = t.k
        if k == "int":
            s = 1
            while s * 8 < t.n:
                s *= 2
            a = min(s, 16) if t.n > 64 else s
        elif k == "ptr":
            s, a = 8, 8
        elif k in FLOATS:
            s, a = FLOATS[k]
        elif k == "arr":
            s, a = t.n * self.size(t.el), self.align(t.el)
        elif k == "struct":
            self._layout(t)
            return t._size
        elif k == "vec":
            s = t.n * self.size(t.el)
            a = s
        elif k == "opaque":
            s, a = 8, 8
        else:
            raise IRError("size of %r" % t)
        t._size, t._align = s, a
        return s

    def align(self, t):
        self.size(t)
        return t._align

    def _layout(self, t):
        if t.elems is None:
            raise IRError("opaque struct %r" % t.name)
        off, al, offs = 0, 1, []
        for e in t.elems:
            a = 1 if t.packed else self.align(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
            al = max(al, a)
        off = (off + al - 1) // al * al
        t._size, t._align, t._offs = off, al, offs

    def offsets(self, t):
        self.size(t)
        return t._offs


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "linkage", "vararg", "loopheads", "_back")

    def __init__(self, name):
        self.name = name
        self.blocks = {}
        self.order = []
        self.loopheads = None


class Inst:
    __slots__ = ("op", "dst", "ty", "a", "extra", "text")

    def __init__(self, op, dst, ty, a, extra=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.extra = extra

    def __repr__(self):
        return "%s = %s %r %r %r" % (self.dst, self.op, self.ty, self.a, self.extra)


# operands: ('r',name) ('c',int) ('null',) ('undef',) ('g',name) ('gep',ty,base,idxs,inb) ('agg',[...]) ('f', str)
#           ('cast',op,ty,operand,toty) ('str', bytes) ('zero',) ('bin',op,a,b)

TOK = re.compile(r'''\s+|;[^\n]*|(c?"(?:[^"\\]|\\.)*")|([%@][-a-zA-Z$._0-9]+)|([%@]"(?:[^"\\]|\\.)*")|(\$[-a-zA-Z$._0-9]+)|(\$"[^"]*")|(![0-9a-zA-Z_.]*)|(#\d+)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(0x[KMLHR]?[0-9A-Fa-f]+)|(-?\d+)|(\.\.\.)|([a-zA-Z_][-a-zA-Z_0-9.]*:?)|(.)''')


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastindex is None:
            continue
        out.append(m.group(m.lastindex))
    return out


def unname(t):
    # '%"foo"' -> 'foo'
    if t[1:2] == '"':
        return t[2:-1]
    return t[1:]


def cstr(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


ATTRS = set("""noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned nofree nest
immarg dso_local local_unnamed_addr unnamed_addr nounwind mustprogress noinline optnone uwtable noreturn cold
fastcc ccc coldcc tail musttail notail nuw nsw exact inbounds volatile inalloca swiftself swifterror
nnan ninf nsz arcp contract afn reassoc fast hot noinline alwaysinline allocsize nneg disjoint
linkonce_odr weak weak_odr linkonce internal private external available_externally common appending extern_weak
default hidden protected dllimport dllexport thread_local global constant externally_initialized prologue
comdat section partition personality gc prefix allocptr allockind noundef dead_on_unwind writable dead_on_return initializes""".split())


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r at ...%s" % (x, y, " ".join(self.t[max(0, self.i - 12):self.i + 6])))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None:
                return
            if p in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "elementtype",
                     "preallocated", "memory", "captures", "nofpclass", "range", "allocsize", "allockind", "addrspace", "vscale_range") :
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                elif p == "align":
                    self.next()
                continue
            if p in ATTRS and p not in ("global", "constant"):
                self.next()
                continue
            if p.startswith("#"):
                self.next()
                continue
            if p.startswith('"') :
                self.next()
                if self.accept("="):
                    self.next()
                continue
            return

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        p = self.next()
        if p[0] == "i" and p[1:].isdigit():
            t = IntTy(int(p[1:]))
        elif p == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_paren()
        elif p == "void":
            t = VOID
        elif p in FLOATS:
            t = Ty(p)
        elif p == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif p == "{" or (p == "<" and self.peek() == "{"):
            packed = False
            if p == "<":
                self.next()
                packed = True
            es = []
            if self.peek() != "}":
                es.append(self.type())
                while self.accept(","):
                    es.append(self.type())
            self.expect("}")
            if packed:
                self.expect(">")
            t = Ty("struct", elems=es, packed=packed)
        elif p == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = Ty("vec", n, e)
        elif p[0] == "%":
            nm = unname(p)
            t = self.m.types.get(nm)
            if t is None:
                t = self.m.types[nm] = Ty("struct", elems=None, name=nm)
        elif p in ("metadata", "label", "token", "opaque"):
            t = Ty(p)
        else:
            raise IRError("type? %r  near %s" % (p, " ".join(self.t[max(0, self.i - 10):self.i + 5])))
        # function type suffix
        if self.peek() == "(" and t.k != "opaque":
            # only in call instructions with explicit fn type or constants
            save = self.i
            try:
                self.next()
                ps = []
                while self.peek() != ")":
                    if self.accept("..."):
                        break
                    ps.append(self.type())
                    if not self.accept(","):
                        break
                self.expect(")")
                return Ty("fn", el=t, elems=ps)
            except (IRError, IndexError):
                self.i = save
        return t

    def value(self, ty):
        p = self.next()
        c = p[0]
        if c == "%":
            return ("r", unname(p))
        if c == "@":
            return ("g", unname(p))
        if p in ("null", "none"):
            return ("null",)
        if p in ("undef", "poison"):
            return ("undef",)
        if p == "zeroinitializer":
            return ("zero",)
        if p == "true":
            return ("c", 1)
        if p == "false":
            return ("c", 0)
        if ty is not None and ty.k in FLOATS:
            return ("f", p)
        if c == "-" or c.isdigit():
            v = int(p, 0) if not p.startswith("0x") else int(p, 16)
            return ("c", v & ((1 << ty.n) - 1))
        if p[:2] == 'c"':
            return ("str", cstr(p))
        if p in ("getelementptr",):
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.next()
                self.skip_paren()
            self.expect("(")
            t = self.type()
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.accept(","):
                if self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(":
                        self.skip_paren()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", t, b, idx)
        if p in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", p, t, v, t2)
        if p in ("add", "sub", "mul", "xor", "and", "or", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t = self.type()
            b = self.value(t)
            self.expect(")")
            return ("bin", p, t, a, b)
        if p in ("{", "[", "<"):
            if p == "<" and self.peek() == "{":
                self.next()
                p = "<{"
            close = {"{": "}", "[": "]", "<": ">", "<{": "}"}[p]
            vs = []
            if self.peek() != close:
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if not self.accept(","):
                        break
            self.expect(close)
            if p == "<{":
                self.expect(">")
            return ("agg", vs)
        if p == "blockaddress" or p == "dso_local_equivalent":
            raise IRError("unsupported const " + p)
        raise IRError("value? %r near %s" % (p, " ".join(self.t[max(0, self.i - 10):self.i + 5])))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def parse_inst(line, m):
    toks = tokenize(line)
    p = P(toks, m)
    dst = None
    if len(toks) > 1 and toks[1] == "=" and toks[0][0] == "%":
        dst = unname(toks[0])
        p.i = 2
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op == "alloca":
        if p.accept("inalloca"):
            pass
        t = p.type()
        n = ("c", 1)
        if p.accept(","):
            if p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
        return Inst("alloca", dst, t, [n])
    if op == "load":
        p.accept("atomic")
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        _, v = p.tv()
        return Inst("load", dst, t, [v])
    if op == "store":
        p.accept("atomic")
        p.accept("volatile")
        t, v = p.tv()
        p.expect(",")
        _, d = p.tv()
        return Inst("store", None, t, [v, d])
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        t = p.type()
        p.expect(",")
        _, b = p.tv()
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            idx.append(p.tv())
        return Inst("gep", dst, t, [b, idx])
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        flags = []
        while p.peek() in ATTRS:
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, dst, t, [a, b], flags)
    if op == "fneg":
        while p.peek() in ATTRS:
            p.next()
        t, a = p.tv()
        return Inst(op, dst, t, [a])
    if op in ("icmp", "fcmp"):
        while p.peek() in ATTRS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, dst, t, [a, b], pred)
    if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
              "inttoptr", "bitcast", "addrspacecast"):
        while p.peek() in ATTRS:
            p.next()
        t, a = p.tv()
        p.expect("to")
        t2 = p.type()
        return Inst(op, dst, t2, [a], t)
    if op == "select":
        while p.peek() in ATTRS:
            p.next()
        ct, c = p.tv()
        p.expect(",")
        t, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        return Inst(op, dst, t, [c, a, b])
    if op == "phi":
        while p.peek() in ATTRS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = unname(p.next())
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
            if p.peek()[0] == "!":
                break
        return Inst(op, dst, t, inc)
    if op == "br":
        if p.accept("label"):
            return Inst("br", None, None, [unname(p.next())])
        t, c = p.tv()
        p.expect(",")
        p.expect("label")
        a = unname(p.next())
        p.expect(",")
        p.expect("label")
        b = unname(p.next())
        return Inst("condbr", None, None, [c, a, b])
    if op == "switch":
        t, c = p.tv()
        p.expect(",")
        p.expect("label")
        d = unname(p.next())
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct, cv = p.tv()
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], unname(p.next())))
        return Inst("switch", None, t, [c, d, cases])
    if op == "ret":
        if p.accept("void"):
            return Inst("ret", None, VOID, [])
        t, v = p.tv()
        return Inst("ret", None, t, [v])
    if op in ("call", "invoke"):
        while p.peek() in ATTRS and p.peek() != "void":
            p.next()
        p.skip_attrs()
        t = p.type()
        if t.k == "fn":
            t = t.el
        p.skip_attrs()
        if p.peek() == "asm":
            p.next()
            while p.peek() in ("sideeffect", "alignstack", "inteldialect"):
                p.next()
            p.next()
            p.next()
            p.next()
            callee = ("asm",)
        else:
            callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                p.skip_attrs()
                if at.k == "metadata":
                    # skip
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                    args.append((at, ("undef",)))
                else:
                    args.append((at, p.value(at)))
                if not p.accept(","):
                    break
            p.expect(")")
        extra = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.expect("to")
            p.expect("label")
            n = unname(p.next())
            p.expect("unwind")
            p.expect("label")
            u = unname(p.next())
            extra = (n, u)
        return Inst("call", dst, t, [callee, args], extra)
    if op == "landingpad":
        t = p.type()
        clauses = []
        cleanup = False
        while p.peek() is not None:
            if p.accept("cleanup"):
                cleanup = True
            elif p.accept("catch"):
                ct, cv = p.tv()
                clauses.append(("catch", cv))
            elif p.accept("filter"):
                ct, cv = p.tv()
                clauses.append(("filter", cv))
            else:
                break
        return Inst("landingpad", dst, t, [cleanup, clauses])
    if op == "resume":
        t, v = p.tv()
        return Inst("resume", None, t, [v])
    if op == "unreachable":
        return Inst("unreachable", None, None, [])
    if op in ("extractvalue",):
        t, v = p.tv()
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            idx.append(int(p.next()))
        return Inst(op, dst, t, [v, idx])
    if op == "insertvalue":
        t, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            idx.append(int(p.next()))
        return Inst(op, dst, t, [v, v2, idx, t2])
    if op == "cmpxchg":
        p.accept("weak")
        p.accept("volatile")
        _, a = p.tv()
        p.expect(",")
        t, c = p.tv()
        p.expect(",")
        _, n = p.tv()
        return Inst(op, dst, t, [a, c, n])
    if op == "atomicrmw":
        p.accept("volatile")
        o = p.next()
        _, a = p.tv()
        p.expect(",")
        t, v = p.tv()
        return Inst(op, dst, t, [a, v], o)
    if op == "fence":
        return Inst("fence", None, None, [])
    if op == "freeze":
        t, a = p.tv()
        return Inst("freeze", dst, t, [a])
    if op == "va_arg":
        return Inst("unsupported", dst, None, [op])
    raise IRError("instruction " + op)


class LazyBody:
    pass


def strip_meta(line):
    # drop trailing ", !dbg !12, !tbaa !4"
    i = line.find(", !")
    if i >= 0 and '"' not in line[i:]:
        return line[:i]
    return line


GNAME = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
LOCALDEF = re.compile(r'^(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (?:private|internal) |^define internal [^@\n]*(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', re.M)


def parse_module(path, index=0):
    m = Module()
    text = open(path, encoding="latin-1").read()
    if index:
        # symbols local to a translation unit get a name of their own
        loc = {}
        for a, b in LOCALDEF.findall(text):
            n = a or b
            loc[n] = n[:-1] + '.m%d"' % index if n.endswith('"') else n + ".m%d" % index
        text = GNAME.sub(lambda x: loc.get(x.group(0), x.group(0)), text)
    lines = text.split("\n")
    i, n = 0, len(lines)
    raw_globals = []
    while i < n:
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            nm, rest = l.split(" = type ", 1)
            nm = unname(nm.strip())
            t = m.types.get(nm)
            if t is None:
                t = m.types[nm] = Ty("struct", elems=None, name=nm)
            if rest.strip() != "opaque":
                d = P(tokenize(rest), m).type()
                t.elems = d.elems
                t.packed = d.packed
                if d.k != "struct":
                    raise IRError("type def " + l)
        elif l.startswith("@"):
            raw_globals.append(l)
        elif l.startswith("declare"):
            f = parse_header(l, m)
            m.decls[f.name] = f
        elif l.startswith("define"):
            f = parse_header(l, m)
            j = i + 1
            while lines[j] != "}":
                j += 1
            f.blocks = lines[i + 1:j]
            f.order = None
            m.funcs[f.name] = f
            i = j
        i += 1
    for l in raw_globals:
        g = parse_global(l, m)
        if g:
            m.globals[g[0]] = g
    return m


def parse_header(l, m):
    toks = tokenize(l)
    p = P(toks, m)
    p.next()
    p.skip_attrs()
    ret = p.type()
    p.skip_attrs()
    f = Func(unname(p.next()))
    f.ret = ret
    f.linkage = "linkonce_odr" if "linkonce_odr" in l[:60] else ("internal" if " internal " in l[:40] else "external")
    p.expect("(")
    f.params = []
    f.vararg = False
    while not p.accept(")"):
        if p.accept("..."):
            f.vararg = True
            continue
        t = p.type()
        byval = None
        # attributes (byval matters)
        while p.peek() not in (",", ")") and not p.peek().startswith("%"):
            if p.peek() == "byval":
                p.next()
                p.expect("(")
                byval = p.type()
                p.expect(")")
            else:
                before = p.i
                p.skip_attrs_one() if hasattr(p, "skip_attrs_one") else p.skip_attrs()
                if p.i == before:
                    p.next()
        nm = None
        if p.peek().startswith("%"):
            nm = unname(p.next())
        else:
            nm = str(len(f.params))
        f.params.append((t, nm, byval))
        p.accept(",")
    return f


def parse_global(l, m):
    toks = tokenize(l)
    p = P(toks, m)
    name = unname(p.next())
    p.expect("=")
    if "alias" in toks[2:12]:
        k = toks.index("alias")
        p.i = k + 1
        p.type()
        p.expect(",")
        t = p.type()
        v = p.value(t)
        if v[0] == "g":
            m.aliases[name] = v[1]
        return None
    while p.peek() not in ("global", "constant"):
        if p.peek() == "thread_local":
            p.next()
            if p.peek() == "(":
                p.skip_paren()
            continue
        p.next()
    kind = p.next()
    ext = "external" in toks[2:8] or "extern_weak" in toks[2:8]
    t = p.type()
    init = None
    if not ext and p.peek() not in (None, ","):
        init = p.value(t)
    return (name, t, init, kind == "constant")


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')


def materialize(f, m):
    """parse a function body on demand"""
    if f.order is not None:
        return f
    raw = f.blocks
    blocks, order = {}, []
    cur = None
    i = 0
    first = None
    while i < len(raw):
        l = raw[i]
        if not l.strip():
            i += 1
            continue
        ml = LABEL.match(l)
        if ml:
            nm = ml.group(1)
            if nm[0] == '"':
                nm = nm[1:-1]
            cur = []
            blocks[nm] = cur
            order.append(nm)
            i += 1
            continue
        if cur is None:
            # unnamed entry block: number = number of unnamed params
            nm = "entry"
            k = [p for p in f.params]
            nm = str(len(k))
            cur = []
            blocks[nm] = cur
            order.append(nm)
        s = l
        # multi-line: switch / landingpad / invoke
        st = s.strip()
        if re.match(r'^(%\S+ = |%"[^"]*" = )?switch ', st) and "]" not in st.split("[", 1)[-1]:
            while "]" not in raw[i + 1]:
                i += 1
                s += " " + raw[i]
            i += 1
            s += " " + raw[i]
        elif " invoke " in " " + st.split("(", 1)[0] + " ":
            while " unwind label " not in s:
                i += 1
                s += " " + raw[i]
        elif " = landingpad " in st:
            while i + 1 < len(raw) and re.match(r'^\s+(cleanup|catch|filter)', raw[i + 1]):
                i += 1
                s += " " + raw[i]
        s = strip_meta(s)
        cur.append(parse_inst(s.strip(), m))
        i += 1
    f.blocks, f.order = blocks, order
    f.loopheads = find_loopheads(f)
    return f


def succs(ins):
    if ins.op == "br":
        return [ins.a[0]]
    if ins.op == "condbr":
        return [ins.a[1], ins.a[2]]
    if ins.op == "switch":
        return [ins.a[1]] + [x[1] for x in ins.a[2]]
    if ins.op == "call" and ins.extra:
        return list(ins.extra)
    return []


def find_loopheads(f):
    """targets of DFS back edges (every cycle of the CFG passes one of them)"""
    heads = set()
    color = {}
    start = f.order[0]
    stack = [(start, iter(succs(f.blocks[start][-1])))]
    color[start] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 1:
                heads.add(s)
            elif c == 0:
                color[s] = 1
                stack.append((s, iter(succs(f.blocks[s][-1]))))
                break
        else:
            color[b] = 2
            stack.pop()
    return heads
