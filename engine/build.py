"""Compilation of /repo's current sources: to LLVM IR for the verifier, to native drivers for replay."""
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("PION_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/lib/llvm-18/bin/clang++"
DEFS = ["-DBOOST_ALL_NO_LIB", "-DPION_CMAKE_BUILD", "-w", "-DBOOST_DISABLE_PRAGMA_MESSAGE",
        "-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS", "-include", "boost/logic/tribool_io.hpp", "-std=c++11", "-DNDEBUG"]


class BuildError(Exception):
    pass


_dir = [None]


def workdir():
    if _dir[0] is None:
        d = os.path.join(VERIF, "build", "run-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        _dir[0] = d
        make_config(d)
    return _dir[0]


def cleanup():
    if _dir[0]:
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def make_config(d):
    """config.hpp from the repository's own template, with the options of the reference build"""
    src = open(os.path.join(REPO, "cmake", "config.hpp.cmake")).read()
    on = {"PION_HAVE_SSL": "1", "PION_VERSION": '"5.0.7"', "PION_HAVE_MALLOC_TRIM": "1", "PION_HAVE_UNORDERED_MAP": "1",
          "PION_DISABLE_LOGGING": "1", "PION_HAVE_ZLIB": "1", "PION_HAVE_BZLIB": "1"}
    out = []
    for l in src.split("\n"):
        if l.startswith("#cmakedefine"):
            n = l.split()[1]
            out.append("#define %s %s" % (n, on[n]) if n in on else "/* #undef %s */" % n)
        else:
            out.append(l)
    os.makedirs(os.path.join(d, "inc", "pion"), exist_ok=True)
    open(os.path.join(d, "inc", "pion", "config.hpp"), "w").write("\n".join(out))


SYSINC = "/usr/include"
OVERLAY = {
    # Boost.Asio removed these after 1.65; the code under test still uses them.  Nothing else of the header changes.
    "boost/asio/basic_socket.hpp": ("  const executor_type& get_executor() BOOST_ASIO_NOEXCEPT\n",
        "  boost::asio::io_context& get_io_service()\n  { return static_cast<boost::asio::io_context&>(boost::asio::query(impl_.get_executor(), boost::asio::execution::context)); }\n\n"),
    "boost/asio/ssl/context.hpp": ("  /// Construct to take ownership of a native handle.\n",
        "  context(boost::asio::io_context&, method m) : handle_(0) { context c(m); *this = std::move(c); }\n\n"),
}


def overlay():
    """headers of the installed Boost with the members that pion's Asio still had added back"""
    d = os.path.join(workdir(), "compat")
    if os.path.isdir(d):
        return d
    for f, e in OVERLAY.items():
        t = open(os.path.join(SYSINC, f)).read()
        if e[0] not in t:
            raise BuildError("cannot extend " + f)
        t = t.replace(e[0], e[1] + e[0], 1)
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), "w").write(t)
    return d


def includes(shim):
    r = ["-I" + overlay()] if shim else []
    return r + ["-I" + os.path.join(workdir(), "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]


def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p


def to_ir(src, shim=False, extra=()):
    """src: path relative to /repo, or absolute (a harness of /verif)"""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    out = os.path.join(workdir(), os.path.basename(path).rsplit(".", 1)[0] + ".ll")
    run([CLANG] + DEFS + includes(shim) + list(extra) + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g0",
         "-fno-use-cxa-atexit" if False else "-fPIC", "-S", "-emit-llvm", path, "-o", out])
    return out


def native(name, srcs, shim=False, libs=(), san=True, extra=()):
    """compile and link a driver; each source separately and in parallel"""
    objs, procs = [], []
    flags = ["-O1", "-g1"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if san else [])
    if san:
        flags += ["-fno-sanitize=vptr,alignment,function,shift"]
    for s in srcs:
        path = s if os.path.isabs(s) else os.path.join(REPO, s)
        o = os.path.join(workdir(), name + "_" + os.path.basename(path).rsplit(".", 1)[0] + ".o")
        cmd = [CLANG] + DEFS + includes(shim) + list(extra) + flags + ["-fPIC", "-c", path, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), o[-4000:]))
    exe = os.path.join(workdir(), name)
    run([CLANG] + flags + objs + ["-o", exe] + list(libs))
    return exe


def source_digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()[:16]
