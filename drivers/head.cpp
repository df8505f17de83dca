#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <algorithm>
#include <cstring>
#include "../drivers/drv.hpp"
using namespace pion;
using namespace pion::http;
static std::string dump(const ihash_multimap& d) {
    std::vector<std::string> v;
    for (ihash_multimap::const_iterator i = d.begin(); i != d.end(); ++i) v.push_back(hex(i->first) + ":" + hex(i->second));
    std::sort(v.begin(), v.end());
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) r += " " + v[i];
    return r;
}
// types <qs k=v pairs | sc | date>
static void types_op(const fields& f, std::ostream& out) {
    if (f[1] == "qs") {
        ihash_multimap d;
        for (size_t i = 2; i + 1 < f.size(); i += 2) d.insert(std::make_pair(unhex(f[i]), unhex(f[i + 1])));
        out << hex(http::types::make_query_string(d));
    } else if (f[1] == "sc") {
        out << hex(http::types::make_set_cookie_header(unhex(f[2]), unhex(f[3]), unhex(f[4]), f[5] == "1", strtoul(f[6].c_str(), 0, 10)));
    } else {
        out << hex(http::types::get_date_string((time_t)strtoll(f[2].c_str(), 0, 10)));
    }
}
// a message whose protected parts can be asked
struct open_request : http::request { using http::message::prepare_buffers_for_send; using http::message::append_cookie_headers; };
struct open_response : http::response { using http::message::prepare_buffers_for_send; using http::message::append_cookie_headers; };
static std::string joined(const http::message::write_buffers_t& b) {
    std::string r;
    for (size_t i = 0; i < b.size(); ++i) r.append(boost::asio::buffer_cast<const char*>(b[i]), boost::asio::buffer_size(b[i]));
    return r;
}
static void take_value(const std::string& v, bool has, std::ostream& out) { out << ' ' << (has ? 1 : 0) << hex(v); }
// head <R|S> <operation>,<arguments in hex>... : the answers of the operations that have one
static void head_op(const fields& f, std::ostream& out) {
    const bool req = f[1] == "R";
    open_request rq, rq2; open_response rs, rs2;
    http::message& m = req ? static_cast<http::message&>(rq) : static_cast<http::message&>(rs);
    out << "ok";
    for (size_t i = 2; i < f.size(); ++i) {
        fields a;
        std::istringstream is(f[i]);
        std::string w;
        while (std::getline(is, w, ',')) a.push_back(w);
        const std::string& o = a[0];
        const std::string x = a.size() > 1 ? unhex(a[1]) : "", y = a.size() > 2 ? unhex(a[2]) : "", z = a.size() > 3 ? unhex(a[3]) : "";
        const unsigned long n = a.size() > 1 ? strtoul(a[1].c_str(), 0, 10) : 0;
        if (o == "ah") m.add_header(x, y);
        else if (o == "ch") m.change_header(x, y);
        else if (o == "dh") m.delete_header(x);
        else if (o == "gh") take_value(m.get_header(x), m.has_header(x), out);
        else if (o == "ac") m.add_cookie(x, y);
        else if (o == "cc") m.change_cookie(x, y);
        else if (o == "dc") m.delete_cookie(x);
        else if (o == "gc") take_value(m.get_cookie(x), m.has_cookie(x), out);
        else if (o == "aq") rq.add_query(x, y);
        else if (o == "cq") rq.change_query(x, y);
        else if (o == "dq") rq.delete_query(x);
        else if (o == "gq") take_value(rq.get_query(x), rq.has_query(x), out);
        else if (o == "all") out << " H" << dump(m.get_headers()) << " C" << dump(m.get_cookies()) << " Q" << dump(rq.get_queries()) << " .";
        else if (o == "body") { if (req) rq.set_content(x); else rs.set_content(x); }
        else if (o == "bodyn") { if (req) rq.set_content(x.data(), x.size()); }
        else if (o == "nobody") m.clear_content();
        else if (o == "type") m.set_content_type(x);
        else if (o == "method") rq.set_method(x);
        else if (o == "res") rq.set_resource(x);
        else if (o == "move") rq.change_resource(x);
        else if (o == "qs") rq.set_query_string(x);
        else if (o == "useq") rq.use_query_params_for_query_string();
        else if (o == "post") rq.use_query_params_for_post_content();
        else if (o == "code") rs.set_status_code((unsigned)n);
        else if (o == "msg") rs.set_status_message(x);
        else if (o == "major") m.set_version_major((boost::uint16_t)n);
        else if (o == "minor") m.set_version_minor((boost::uint16_t)n);
        else if (o == "chunks") m.set_chunks_supported(n != 0);
        else if (o == "nolen") m.set_do_not_send_content_length();
        else if (o == "sc2") rs.set_cookie(x, y);
        else if (o == "sc3") rs.set_cookie(x, y, z);
        else if (o == "sc3a") rs.set_cookie(x, y, strtoul(a[3].c_str(), 0, 10));
        else if (o == "sc4") rs.set_cookie(x, y, z, strtoul(a[4].c_str(), 0, 10));
        else if (o == "dk1") rs.http::response::delete_cookie(x);
        else if (o == "dk2") rs.http::response::delete_cookie(x, y);
        else if (o == "last") rs.set_last_modified(n);
        else if (o == "info") { http::request q; q.set_method(x); q.set_version_major(strtoul(a[2].c_str(), 0, 10)); q.set_version_minor(strtoul(a[3].c_str(), 0, 10)); rs.update_request_info(q); }
        else if (o == "line") out << ' ' << hex(m.get_first_line());
        else if (o == "state") out << ' ' << m.check_keep_alive() << m.get_chunks_supported() << m.is_content_length_implied() << m.get_content_length() << '/' << m.get_content_buffer_size();
        else if (o == "clear") m.clear();
        else if (o == "copy") { if (req) { rq2 = rq; rq = open_request(rq2); } else { rs2 = rs; rs = open_response(rs2); } }
        else if (o == "prep") { http::message::write_buffers_t b; if (req) rq.prepare_buffers_for_send(b, a[1] == "1", a[2] == "1"); else rs.prepare_buffers_for_send(b, a[1] == "1", a[2] == "1"); out << ' ' << hex(joined(b)); }
        else if (o == "write" || o == "fail") {
            std::ostringstream s;
            boost::system::error_code ec(7, boost::system::system_category());
            if (o == "fail") s.setstate(std::ios::badbit);
            std::size_t k = m.write(s, ec, a[1] == "1");
            out << ' ' << ec.value() << ' ' << k << ' ' << hex(s.str());
        } else out << " ?";
    }
}
void handle(const fields& f, std::ostream& out) {
    if (f[0] == "head") head_op(f, out);
    else types_op(f, out);
}
