"""The whole message parser as an executable specification, for evaluation on the real code: the proved specifications of its parts
(start line and headers, chunked coding, URL-encoded pairs, cookies, multipart fields) put together."""
from p_http import *
from p_http import pick
from p_parser import Headers, Chunks, LIMIT
from runner import Audit, concrete_run

ERR = {n: i + 1 for i, n in enumerate("METHOD_CHAR METHOD_SIZE URI_CHAR URI_SIZE QUERY_CHAR QUERY_SIZE VERSION_EMPTY VERSION_CHAR STATUS_EMPTY STATUS_CHAR "
       "HEADER_CHAR HEADER_NAME_SIZE HEADER_VALUE_SIZE INVALID_CONTENT_LENGTH CHUNK_CHAR MISSING_CHUNK_DATA MISSING_HEADER_DATA MISSING_TOO_MUCH_CONTENT".split())}
NONE_, TRUNCATED, PARTIAL, OK = range(4)


class Whole:
    def __init__(self, req, flags, limit, method):
        self.req, self.limit, self.method = req, limit, method
        self.raw, self.only, self.handler = bool(flags & 1), bool(flags & 2), bool(flags & 4)
        self.mode = "START"
        self.err = 0
        self.h = dict(method=b"", resource=b"", query=b"", hname=b"", hvalue=b"", smsg=b"", raw=b"", code=0, line=b"", vmaj=1, vmin=1, dict=())
        self.hst = "METHOD_START" if req else "HTTP_VERSION_H"
        self.c = dict(cache=b"", size_str=b"", size=0, got=0, payload=b"")
        self.cst = "CHUNK_SIZE_START"
        self.total = self.cread = self.remaining = self.length = 0
        self.content = b""
        self.chunked = self.valid = self.missing = self.after = False
        self.status = NONE_
        self.cookies, self.queries = (), ()
        self.rq = (b"", b"", b"") if req else (200, b"OK", b"")
        self.unread = 0

    def header(self, name):
        for k, v in self.h["dict"]:
            if k.lower() == name:
                return v

    def update(self):
        h = self.h
        self.rq = (h["method"], h["resource"], h["query"]) if self.req else (h["code"], h["smsg"], b"")
        if self.req and h["query"]:
            self.queries = concrete_run(UrlPairs(h["query"]), UrlPairs(h["query"]).start(self.queries)).dict
        for k, v in h["dict"]:
            if k.lower() == (b"cookie" if self.req else b"set-cookie"):
                self.cookies = concrete_run(Cookies(v, int(not self.req)), Cookies(v, int(not self.req)).start(self.cookies)).dict

    def finish_headers(self):
        self.remaining = self.cread = self.length = 0
        te = self.header(b"transfer-encoding")
        self.chunked = te is not None and b"chunked" in te.lower()
        self.update()
        if self.chunked:
            self.mode = "CHUNKS"
            return 1 if self.only else 2
        code = self.rq[0]
        if not self.req and (self.method == b"HEAD" or 100 <= code <= 199 or code in (204, 205, 304)):
            return 1
        cl = self.header(b"content-length")
        if cl is not None:
            t = cl.strip(b" \t\v\f\r\n")
            if t[:1] == b"+":
                t = t[1:]
            if not t or any(c not in b"0123456789" for c in t) or int(t) >= 1 << 64:
                self.err = ERR["INVALID_CONTENT_LENGTH"]
                return 0
            n = int(t)
            if n == 0:
                return 1
            self.mode, self.remaining, self.length = "CONTENT", n, min(n, self.limit)
            self.content = None if self.only else b""
            return 1 if self.only else 2
        if self.req:
            return 1
        self.mode = "EOF"
        return 1 if self.only else 2

    def concat(self):
        self.content = self.c["cache"]
        self.length = len(self.content)

    def set_status(self, ok):
        self.status = (PARTIAL if self.after else TRUNCATED) if self.missing else OK if ok else TRUNCATED

    def finish(self):
        m = self.mode
        if m == "START":
            self.valid, self.length, self.content = False, 0, b""
            return
        self.valid = m in ("END", "EOF") or m == "CHUNKS" and self.cst == "CHUNK_SIZE_START"
        if m in ("HEADERS", "FOOTERS"):
            self.update()
            self.length, self.content = 0, b""
        elif m == "CONTENT":
            if self.cread < self.limit:
                self.length = self.cread
        elif m in ("CHUNKS", "EOF") and not self.handler:
            self.concat()
        self.set_status(self.valid)
        if self.req and not self.handler and not self.only:
            ct = self.header(b"content-type") or b""
            body = self.content[:self.length]
            if ct.startswith(b"application/x-www-form-urlencoded"):
                if body:
                    self.queries = concrete_run(UrlPairs(body), UrlPairs(body).start(self.queries)).dict
            elif ct.startswith(b"multipart/form-data"):
                if body:
                    self.queries = concrete_run(Multipart(body, ct), Multipart(body, ct).start(self.queries)).dict

    def body(self, t):
        if self.handler:
            self.c["payload"] += t
        elif self.mode == "EOF":
            self.c["cache"] += t[:max(0, self.limit - len(self.c["cache"]))]
        else:
            self.content += t[:max(0, self.limit - len(self.content))]
        self.cread += len(t)

    def feed(self, text):
        if self.missing:
            self.after = True
        while True:
            if self.mode == "START":
                self.mode = "HEADERS"
            n = 0
            if self.mode in ("HEADERS", "FOOTERS"):
                sp = Headers(text, self.req, self.raw)
                s = concrete_run(sp, sp.start(self.hst, **self.h))
                self.h = {k: s.data[k] for k in self.h}
                self.hst, rc, n = s.st, s.res, s.pos
                if rc == 0:
                    self.err = ERR[s.err]
                elif rc == 1 and self.mode == "HEADERS":
                    rc = self.finish_headers()
            elif self.mode == "CHUNKS":
                sp = Chunks(text, self.handler, self.limit)
                s = concrete_run(sp, sp.start(self.cst, **self.c))
                self.c = {k: s.data[k] for k in self.c}
                self.cst, rc, n = s.st, s.res, s.pos
                self.cread += n
                if rc == 0:
                    self.err = ERR[s.err]
                elif rc == 1:
                    if not self.handler:
                        self.concat()
                    if s.footers:
                        self.mode, self.hst, rc = "FOOTERS", "HEADER_START", 2
            elif self.mode == "CONTENT":
                n = min(len(text), self.remaining)
                self.body(text[:n])
                self.remaining -= n
                rc = 1 if self.remaining == 0 else 2
            elif self.mode == "EOF":
                n = len(text)
                self.body(text)
                rc = 2
            self.total += n
            text = text[n:]
            if rc != 2 or not text:
                break
        self.unread = len(text)
        return self.done(rc)

    def done(self, rc):
        if rc == 1:
            self.mode = "END"
            self.finish()
        elif rc == 0:
            self.set_status(False)
        return rc

    def lose(self, n):
        self.missing = True
        rc = 2
        if self.mode in ("START", "HEADERS", "FOOTERS"):
            self.err, rc = ERR["MISSING_HEADER_DATA"], 0
        elif self.mode == "CHUNKS":
            left = self.c["size"] - self.c["got"]
            if self.cst != "CHUNK" or left < n:
                self.err, rc = ERR["MISSING_CHUNK_DATA"], 0
            else:
                k = n if self.handler else max(0, min(n, self.limit - len(self.c["cache"])))
                self.c["payload" if self.handler else "cache"] += b"X" * k
                self.c["got"] += n
                self.cread += n
                if left == n:
                    self.cst = "EXPECTING_CR_AFTER_CHUNK"
        elif self.mode == "CONTENT" and self.remaining < n:
            self.err, rc = ERR["MISSING_TOO_MUCH_CONTENT"], 0
        else:
            self.body(b"X" * n)
            if self.mode == "CONTENT":
                self.remaining -= n
                rc = 1 if self.remaining == 0 else 2
        if rc:
            self.total += n
        return self.done(rc)


FIELDS = ["end of input", "byte counts of the calls", "total bytes read", "bytes left unread", "content bytes read", "validity", "status", "major version", "minor version",
          "chunked", "raw headers", "method or status code", "resource or status message", "query string", "content length", "content", "payload handed on"]


def parse_case(case):
    w = Whole(case[1] == "R", case[2], case[3], case[4])
    rc = 2
    frags = list(case[5:])
    while frags and rc == 2:
        if isinstance(frags[0], str):
            rc = w.lose(int(frags.pop(0)[1:]))
            continue
        t = b""
        while frags and isinstance(frags[0], bytes):
            t += frags.pop(0)
        rc = w.feed(t)
    return w, rc


def unread(case, w):
    """bytes of the last fragment read that are left"""
    return w.unread


def judge(case, out):
    w, rc = parse_case(case)
    if out[0] != str(rc):
        return "expected %s, got %s" % tuple({"0": "an error", "1": "a complete message", "2": "more input wanted"}.get(str(x), x) for x in (rc, out[0]))
    if out[1] != str(w.err if rc == 0 else 0):
        return "expected error code %s" % w.err
    if rc == 0:
        return None if out[2] == str(w.status) else "expected status %d" % w.status
    eof = 9
    if rc == 2:
        eof = int(w.mode != "EOF")
        if eof:
            w.finish()
        else:
            w.mode = "END"
            w.concat()
            w.finish()
    H, C, Q = out.index("H"), out.index("C"), out.index("Q")
    got = out[2:H]
    rq = [("%d" % x) if isinstance(x, int) else (x.hex() or "-") for x in w.rq]
    # a fragment may end before the text does: what is left of the last one read
    left = w.unread
    if len(case) > 5 and rc == 1 and left:
        pos = 0
        for f in case[5:]:
            if isinstance(f, bytes):
                pos += len(f)
                if pos >= w.total - sum(int(x[1:]) for x in case[5:] if isinstance(x, str)):
                    break
        left = None
    content = "?" if w.only or w.handler else (w.content[:w.length].hex() or "-")
    want = [eof, 1, w.total, left, w.cread, int(w.valid), w.status, w.h["vmaj"], w.h["vmin"], int(w.chunked), w.h["raw"].hex() or "-"] + rq + \
           [w.length, content, w.c["payload"].hex() or "-"]
    for n, a, b in zip(FIELDS, want, got):
        if a is not None and str(a) != b:
            return "%s: expected %s, got %s" % (n, a, b)
    for n, a, b in (("headers", w.h["dict"], out[H + 1:C]), ("cookies", w.cookies, out[C + 1:Q]), ("query parameters", w.queries, out[Q + 1:])):
        if sorted(a) != readdict(b):
            return "%s: expected %r, got %r" % (n, sorted(a), readdict(b))


# ------------------------------------------------------------------ cases
EOLS = [b"\r\n"] * 6 + [b"\n", b"\r", b"\n\r"]
RW = [b"GET", b"POST", b" ", b" ", b"/", b"/a/b", b"?", b"q=1&r=2", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/", b"0.9", b".", b"1", b"65535", b"65536", b"\r\n", b"\r\n", b"\n", b"\r",
      b"\r\n\r\n", b"A: b\r\n", b"Name", b":", b": ", b"value", b" x", b"\tx", b"\0", b"\x7f", b"\x80", b"\xff", b"Content-Length: 3\r\n", b"Cookie: a=b; c=d\r\n", b"abc"]
SW = [b"HTTP/1.1", b"HTTP/1.0", b"HTTP/", b" ", b" ", b"200", b"404", b"204", b"304", b"65535", b"65536", b"7", b"OK", b"Not Found", b"\r\n", b"\r\n", b"\n", b"\r", b"\r\n\r\n",
      b"A: b\r\n", b":", b": ", b"x", b"\t", b"\0", b"\x7f", b"\x80", b"Content-Length: 3\r\n", b"Set-Cookie: a=b; path=/\r\n", b"abc"]
BODIES = [b"", b"abc", b"a=1&b=2&a=3", b"x" * 40, bytes(range(256))]


def split(rng, t, style=None):
    style = style or rng.choice(["one", "one", "bytes", "two", "some"])
    if style == "one" or len(t) < 2:
        return [t]
    if style == "bytes":
        return [t[i:i + 1] for i in range(len(t))]
    k = 1 if style == "two" else rng.randrange(2, 6)
    cut = sorted(rng.randrange(1, len(t)) for _ in range(k))
    return [x for x in (t[a:b] for a, b in zip([0] + cut, cut + [len(t)])) if x]


def line(rng, req):
    if req:
        return rng.choice([b"GET", b"POST", b"HEAD", b"M"]) + b" /" + rng.choice([b"", b"a", b"a%20b", b"x/y"]) + rng.choice([b"", b"", b"?q=1", b"?a=1&b=2&a=3", b"?", b"?q?r"]) + \
            rng.choice([b" HTTP/1.1", b" HTTP/1.1", b" HTTP/1.0", b" HTTP/12.345", b"", b" "])
    return b"HTTP/" + rng.choice([b"1.1", b"1.0", b"10.65535"]) + b" " + rng.choice([b"200", b"200", b"404", b"500", b"100", b"204", b"304", b"205", b"199"]) + rng.choice([b" OK", b"", b" Not Found", b" "])


def headers(rng, req, extra=()):
    hs = list(extra)
    for _ in range(rng.randrange(4)):
        hs.append(rng.choice([b"A: b", b"A: c", b"X-Long: " + b"v" * rng.randrange(30), b"E:", b"E: ", b"T: a\tb", b"NoSpace:x", b"Cookie: a=b; c=\"d\"", b"Cookie: e=f",
                              b"Set-Cookie: a=b; path=/; x=y", b"K: a: b"]))
    rng.shuffle(hs)
    return hs


def chunk_body(rng, body, bad=False):
    out, i = b"", 0
    while i < len(body):
        k = rng.randrange(1, min(len(body) - i, 20) + 1)
        sz = rng.choice([b"%x", b"%X", b"0%x", b"%08x"]) % k
        out += rng.choice([b"", b"", b"", b" ", b"\r\n"]) + sz + rng.choice([b"", b"", b"", b" ", b"\t ", b";ext=1", b"; a"]) + b"\r\n" + body[i:i + k] + b"\r\n"
        i += k
    out += rng.choice([b"0", b"0", b"000", b"0;last"]) + b"\r\n"
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        out += b"Footer: " + bytes([97 + rng.randrange(3)]) + b"\r\n"
    return out + b"\r\n"


def corrupt(rng, t):
    r = rng.random()
    if r < 0.5 or not t:
        return t
    i = rng.randrange(len(t))
    if r < 0.65:
        return t[:i]
    if r < 0.8:
        return t[:i] + bytes([rng.choice([0, 9, 10, 13, 32, 45, 48, 57, 58, 59, 65, 97, 127, 128, 255, rng.randrange(256)])]) + t[i + 1:]
    if r < 0.9:
        return t[:i] + t[i + 1:]
    return t + rng.choice([b"GET / HTTP/1.1\r\n\r\n", b"\r\n", b"x", b"0\r\n\r\n"])


def build(rng, req, kind):
    """kind: plain, length, chunked, eof"""
    e = rng.choice(EOLS)
    body = rng.choice(BODIES)
    extra = []
    if kind == "length":
        extra.append(b"Content-Length: " + rng.choice([b"%d", b"%d", b"%d", b" %d", b"%d ", b"+%d", b"0%d", b"-%d", b"%dx", b"99999999999999999999%d", b""]).replace(b"%d", b"%d" % (len(body) + rng.choice([0, 0, 0, 0, -1, 1]) if body else 0)))
    if kind == "chunked":
        extra.append(rng.choice([b"Transfer-Encoding: chunked", b"transfer-encoding: CHUNKED", b"Transfer-Encoding: gzip, chunked"]))
    if req and rng.random() < 0.4:
        extra.append(rng.choice([b"Content-Type: application/x-www-form-urlencoded", b"Content-Type: application/x-www-form-urlencoded; charset=UTF-8", b"content-type: multipart/form-data; boundary=XX"]))
        if b"multipart" in extra[-1] and kind == "chunked":
            body = b"--XX\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nvalue\r\n--XX--\r\n"
    t = line(rng, req) + e + b"".join(h + e for h in headers(rng, req, extra)) + e
    return t + (chunk_body(rng, body) if kind == "chunked" else b"" if kind == "plain" else body)


def cfg(rng):
    return (rng.choice([0, 0, 1, 2, 4, 8, 9, 5]), rng.choice([1 << 20, 1 << 20, 1 << 20, 0, 1, 3, 10, 40]))


def gen_headers(rng, n, hints):
    for req in "RS":
        base = b"GET /x?y HTTP/1.1\r\nA: b\r\nC:d\r\n\r\n" if req == "R" else b"HTTP/1.1 200 Fine\r\nA: b\r\nC:d\r\n\r\n"
        for i in range(len(base)):
            for c in (range(256) if i % 3 == 0 else (0, 9, 10, 13, 32, 46, 47, 48, 57, 58, 63, 65, 127, 128, 255)):
                yield ("msg", req, 1, 1 << 20, b"", base[:i] + bytes([c]) + base[i:])
            yield ("msg", req, 0, 1 << 20, b"", base[:i])
            if i:
                yield ("msg", req, 1, 1 << 20, b"", base[:i], base[i:])
    for name, pre, post in (("method", b"", b" / HTTP/1.1\r\n\r\n"), ("resource", b"GET ", b" HTTP/1.1\r\n\r\n"), ("query", b"GET /?", b" HTTP/1.1\r\n\r\n"),
                            ("hname", b"GET / HTTP/1.1\r\n", b": v\r\n\r\n"), ("hvalue", b"GET / HTTP/1.1\r\nA: ", b"\r\n\r\n")):
        if LIMIT[name] > 5000:
            continue
        for k in (-1, 0, 1):
            yield ("msg", "R", 0, 1 << 20, b"", pre + b"a" * (LIMIT[name] + k) + post)
    for k in (-1, 0, 1):
        yield ("msg", "S", 0, 1 << 20, b"", b"HTTP/1.1 200 " + b"a" * (LIMIT["smsg"] + k) + b"\r\n\r\n")
    for _ in range(n):
        req = rng.choice("RS")
        t = build(rng, req == "R", "plain") if rng.random() < 0.5 else pick(rng, RW if req == "R" else SW, rng.randrange(14)) if rng.random() < 0.5 else corrupt(rng, build(rng, req == "R", "plain"))
        yield ("msg", req) + (rng.choice([0, 1, 1, 2, 9]), 1 << 20, b"") + tuple(split(rng, t))


def gen_chunks(rng, n, hints):
    for _ in range(n):
        req = rng.choice("RS")
        t = corrupt(rng, build(rng, req == "R", "chunked"))
        if rng.random() < 0.1:
            t = (b"POST / HTTP/1.1" if req == "R" else b"HTTP/1.1 200 OK") + b"\r\nTransfer-Encoding: chunked\r\n\r\n" + rng.choice([b"7fffffffffffffff", b"fffffffffffffff", b"1000000000000000", b"ffffffffffffffff0", b"10000000000000003", b"g", b"-1", b"0x3", b"3 4", b""]) + b"\r\nabc\r\n0\r\n\r\n"
        yield ("msg", req) + cfg(rng) + (b"",) + tuple(split(rng, t))


def gen_body(rng, n, hints):
    for _ in range(n):
        req = rng.choice("RS")
        kind = rng.choice(["length", "length", "length", "plain", "eof"]) if req == "R" else rng.choice(["length", "length", "eof", "eof", "plain"])
        t = build(rng, req == "R", kind)
        if rng.random() < 0.3:
            t = corrupt(rng, t)
        yield ("msg", req) + cfg(rng) + (rng.choice([b"", b"", b"", b"HEAD", b"GET"]),) + tuple(split(rng, t))


def gen_missing(rng, n, hints):
    for _ in range(n):
        req = rng.choice("RS")
        kind = rng.choice(["length", "chunked", "eof" if req == "S" else "length", "plain"])
        t = build(rng, req == "R", kind)
        fr = split(rng, t, rng.choice(["two", "some"]))
        i = rng.randrange(len(fr))
        h = t.find(b"\r\n\r\n")
        if h > 0 and rng.random() < 0.7 and h + 5 < len(t):
            k = rng.randrange(h + 4, len(t))
            fr = [t[:k]]
            m = rng.randrange(0, 6)
            fr += ["M%d" % m] + ([t[k + m:]] if t[k + m:] else [])
        else:
            fr.insert(i, "M%d" % rng.randrange(0, 12))
        yield ("msg", req) + cfg(rng) + (b"",) + tuple(x for x in fr if x)


def gen_finish(rng, n, hints):
    """messages of every kind, whole, cut off at any place, or with one framing header more"""
    yield from gen_body(rng, n // 4, hints)
    cut = [("R", b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n1f;x\r\n" + b"y" * 31 + b"\r\n0\r\nFoot: er\r\n\r\n"),
           ("S", b"HTTP/1.0 200 OK\nTransfer-Encoding: chunked\n\n3 \nabc\r\n0\n\n"),
           ("R", b"POST /a?b=c&d HTTP/1.1\r\nCookie: e=f\r\nCookie: g=h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n\r\ni=j&k=l&m"),
           ("S", b"HTTP/1.1 200 OK\r\nSet-Cookie: e=f\r\nContent-Length: 5\r\n\r\nhello"), ("S", b"HTTP/1.1 200 OK\r\n\r\nhello"),
           ("R", b"GET / HTTP/1.1\r\nContent-Type: text/plain\r\n\r\n")]
    for req, t in cut:
        for i in range(1, len(t) + 1):
            yield ("msg", req, rng.choice([0, 0, 1, 2, 4]), rng.choice([1 << 20, 4]), b"", t[:i])
    for req in "RS":
        for code in ((0,) if req == "R" else (99, 100, 199, 200, 203, 204, 205, 206, 303, 304, 305)):
            for method in (b"", b"HEAD", b"head", b"GET"):
                for extra in (b"", b"Content-Length: 3\r\n", b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: chunked\r\nContent-Length: 2\r\n", b"Content-Length: 3\r\nTransfer-Encoding: identity\r\n"):
                    yield ("msg", req, 0, 1 << 20, method, (b"POST / HTTP/1.1" if req == "R" else b"HTTP/1.1 %d X" % code) + b"\r\n" + extra + b"\r\n" + rng.choice([b"3\r\nabc\r\n0\r\n\r\n", b"abc", b""]))
    for _ in range(n):
        req = rng.choice("RS")
        t = build(rng, req == "R", rng.choice(["length", "chunked", "chunked", "plain", "eof"]))
        if rng.random() < 0.6:
            t = t[:rng.randrange(1, len(t) + 1)] if rng.random() < 0.7 else corrupt(rng, t)
        yield ("msg", req) + cfg(rng) + (rng.choice([b"", b"", b"", b"HEAD", b"GET"]),) + tuple(split(rng, t))


def mk(name, gen, quick):
    return Audit("http_" + name, DRV, gen, judge, shim=True, libs=LIBS, quick=quick, deep=40000)


A_HEADERS, A_CHUNKS, A_BODY, A_MISSING = mk("headers", gen_headers, 3000), mk("chunks", gen_chunks, 4000), mk("body", gen_body, 4000), mk("missing", gen_missing, 4000)
A_FINISH = mk("finish", gen_finish, 4000)
