// replays SPDY packets against the real parser and decompressor
#include <algorithm>
#include <cstring>
#include <boost/shared_ptr.hpp>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
#include "drv.hpp"
using namespace pion::spdy;
struct exact {          // exact-size heap copy: any read beyond the packet is seen
    char* p; size_t n;
    exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    ~exact() { delete[] p; }
};
// cls <packet>: what a packet is taken for.  pk <packet>...: its frames, one decompressor for all packets
void handle(const fields& f, std::ostream& out) {
    if (f[0] == "cls") {
        exact b(unhex(f[1]));
        out << parser::get_spdy_frame_type(b.p) << ' ' << parser::is_spdy_control_frame(b.p) << ' ' << parser::get_control_frame_stream_id(b.p);
        return;
    }
    decompressor_ptr d(new decompressor());
    for (size_t i = 1; i < f.size(); ++i) {
        exact b(unhex(f[i]));
        boost::uint32_t left = b.n;
        const char* at = b.p;
        parser p;
        http_protocol_info info;
        for (;;) {
            boost::system::error_code ec;
            boost::tribool rc = p.parse(info, ec, d, at, left, 0);
            out << (boost::indeterminate(rc) ? 2 : rc ? 1 : 0) << ' ' << ec.value() << ' ' << left << ' ' << info.http_type << ' ' << info.stream_id << ' ' << info.data_offset << ' ' << info.data_size << ' ' << info.last_chunk;
            if (rc || boost::indeterminate(rc)) {
                const bool data = b.p[at - b.p] == 0;
                out << ' ' << (p.get_spdy_read_pointer() - b.p) << ' ' << (data ? p.get_spdy_data_content() - b.p : 0);
            }
            std::vector<std::string> v;
            for (std::map<std::string, std::string>::const_iterator j = info.http_headers.begin(); j != info.http_headers.end(); ++j) v.push_back(hex(j->first) + ":" + hex(j->second));
            for (size_t j = 0; j < v.size(); ++j) out << ' ' << v[j];
            out << " ;";
            if (!boost::indeterminate(rc) || left < 12) break;
            at = p.get_spdy_read_pointer();
        }
        out << " | ";
    }
}
