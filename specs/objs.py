"""Placing the library's objects in symbolic memory, field by field, at the offsets the compiler reports."""
from common import *

HARNESS = "/verif/harness/h_http.cpp"
NOACC = ("-fno-access-control",)


def konst(prog):
    out = {}
    for n, (g, m) in ((n, v) for n, v in prog.gl.items() if isinstance(v, tuple)):
        if m.funcs is not None and g[2] is not None and g[2][0] == "c" and (n.startswith(("p_m", "m_m", "rq_m", "rs_m", "e_", "size_", "tri_", "cb_", "fr_", "hi_", "dc_", "z_"))):
            out[n] = g[2][1]
    return out


class Layout:
    """fields: name -> (offset, kind, bytes); kinds: str, dict, int, ptr"""

    def __init__(self, K, prefix, fields):
        self.f = {}
        for n, (kind, size) in fields.items():
            k = prefix + n
            if k not in K:
                raise Unsupported("no field " + n)
            self.f[n] = (K[k], kind, size)

    def put(self, st, rid, n, v):
        off, kind, size = self.f[n]
        if kind in ("str", "dict"):
            st.objs[(rid, off)] = (kind, v)
        else:
            st.cells(rid)[off] = (size, v)

    def get(self, vm, st, rid, n, m):
        off, kind, size = self.f[n]
        p = Ptr(st.regions[rid], off)
        if kind == "str":
            return lib.gets(st, p)
        if kind == "dict":
            return lib.getd(st, p)
        return vm.load(st, p, PTR if kind == "ptr" else IntTy(8 * size), m)


STR, DIC, U64, U32, U16, U8, PT = ("str", 32), ("dict", 56), ("int", 8), ("int", 4), ("int", 2), ("int", 1), ("ptr", 8)

PARSER = {"m_is_request": U8, "m_read_ptr": PT, "m_read_end_ptr": PT, "m_message_parse_state": U32, "m_headers_parse_state": U32,
          "m_chunked_content_parse_state": U32, "m_status_code": U16, "m_status_message": STR, "m_method": STR, "m_resource": STR,
          "m_query_string": STR, "m_raw_headers": STR, "m_header_name": STR, "m_header_value": STR, "m_chunk_size_str": STR,
          "m_size_of_current_chunk": U64, "m_bytes_read_in_current_chunk": U64, "m_bytes_content_remaining": U64,
          "m_bytes_content_read": U64, "m_bytes_last_read": U64, "m_bytes_total_read": U64, "m_max_content_length": U64,
          "m_parse_headers_only": U8, "m_save_raw_headers": U8}
MESSAGE = {"m_first_line": STR, "m_is_valid": U8, "m_is_chunked": U8, "m_chunks_supported": U8, "m_do_not_send_content_length": U8,
           "m_version_major": U16, "m_version_minor": U16, "m_content_length": U64, "m_headers": DIC, "m_cookie_params": DIC,
           "m_status": U32, "m_has_missing_packets": U8, "m_has_data_after_missing": U8}


def category(vm, st, a, ins):
    r = vm.new_region(st, "category", "obj", 64) if "category" not in st.regions else st.regions["category"]
    return Ptr(r, 0)


def error_code_ctor(vm, st, a, ins):
    # error_code(int, category): the value, the category, and the flags the library keeps
    p = a[0]
    c = st.cells(p.r.id)
    for k in [k for k in c if p.o <= k < p.o + 24]:
        del c[k]
    c[p.o] = (4, a[1])
    c[p.o + 8] = (8, a[2])
    c[p.o + 16] = (8, 3)


EXTRA = [(r"^pion::http::parser::get_error_category\(", category),
         (r"^boost::system::error_code::error_code\(int, boost::system::error_category const&\)", error_code_ctor)]
