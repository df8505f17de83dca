#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <algorithm>
#include <cstring>
#include "../drivers/drv.hpp"
using namespace pion;
using namespace pion::http;
// exact-size heap copy: any read beyond the text is seen
struct exact {
    char* p; size_t n;
    exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    ~exact() { delete[] p; }
};
static std::string dump(const ihash_multimap& d) {
    std::vector<std::string> v;
    for (ihash_multimap::const_iterator i = d.begin(); i != d.end(); ++i) v.push_back(hex(i->first) + ":" + hex(i->second));
    std::sort(v.begin(), v.end());
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) r += " " + v[i];
    return r;
}
static std::string seen;
static void take(const char* p, std::size_t n) { seen.append(p, n); }
// msg <R|S> <flags: 1 raw headers, 2 headers only, 4 payload handler, 8 reused parser and message> <max content> <method of the request answered> <fragment|Mn>...
static void message_op(const fields& f, std::ostream& out) {
    const bool req = f[1] == "R";
    const int flags = atoi(f[2].c_str());
    http::parser p(req, strtoul(f[3].c_str(), 0, 10));
    http::request rq; http::response rs;
    http::message& m = req ? static_cast<http::message&>(rq) : static_cast<http::message&>(rs);
    boost::system::error_code ec;
    boost::tribool rc = boost::indeterminate;
    if (flags & 8) {
        const std::string a(req ? "POST /old?a=b HTTP/1.0\r\nOld: 1\r\nCookie: a=b\r\nTransfer-Encoding: chunked\r\n\r\n5;x\r\nhe" : "HTTP/1.0 404 Gone\r\nOld: 1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhe");
        p.set_save_raw_headers(true);
        p.set_read_buffer(a.data(), a.size());
        rc = p.parse(m, ec);
        m.clear(); p.reset(); ec.clear(); rc = boost::indeterminate;
    }
    p.set_save_raw_headers(flags & 1);
    p.parse_headers_only(flags & 2);
    seen.clear();
    http::parser::payload_handler_t h(take);
    if (flags & 4) p.set_payload_handler(h);
    if (!req && f[4] != "-") { http::request q; q.set_method(unhex(f[4])); rs.update_request_info(q); }
    std::size_t sum = 0, unread = 0, missing = 0;
    for (size_t i = 5; i < f.size() && boost::indeterminate(rc); ++i) {
        if (f[i][0] == 'M') { const size_t n = strtoul(f[i].c_str() + 1, 0, 10); rc = p.parse_missing_data(m, n, ec); missing += n; continue; }
        exact b(unhex(f[i]));
        p.set_read_buffer(b.p, b.n);
        rc = p.parse(m, ec);
        sum += p.gcount();
        unread = p.bytes_available();
    }
    out << (boost::indeterminate(rc) ? 2 : rc ? 1 : 0) << ' ' << ec.value();
    if (rc == false) { out << ' ' << m.get_status(); return; }
    int eof = 9;
    if (boost::indeterminate(rc)) { eof = p.check_premature_eof(m); if (eof) p.finish(m); }
    out << ' ' << eof << ' ' << (sum + missing == p.get_total_bytes_read() || missing) << ' ' << p.get_total_bytes_read() << ' ' << unread << ' ' << p.get_content_bytes_read() << ' ' << m.is_valid() << ' '
        << m.get_status() << ' ' << m.get_version_major() << ' ' << m.get_version_minor() << ' ' << m.is_chunked() << ' ' << hex(p.get_raw_headers()) << ' ';
    if (req) out << hex(rq.get_method()) << ' ' << hex(rq.get_resource()) << ' ' << hex(rq.get_query_string());
    else out << rs.get_status_code() << ' ' << hex(rs.get_status_message()) << " -";
    out << ' ' << m.get_content_length() << ' ' << ((flags & 6) ? std::string("?") : hex(std::string(m.get_content(), m.get_content_length()))) << ' ' << hex(seen);
    out << " H" << dump(m.get_headers()) << " C" << dump(m.get_cookies()) << " Q" << (req ? dump(rq.get_queries()) : std::string());
}
void handle(const fields& f, std::ostream& out) {
    const std::string& op = f[0];
    if (op == "msg") return message_op(f, out);
    ihash_multimap d;
    d.insert(std::make_pair(std::string("Old"), std::string("kept")));
    if (op == "up") { exact b(unhex(f[1])); bool r = http::parser::parse_url_encoded(d, b.p, b.n); out << r << dump(d); }
    else if (op == "ck") { exact b(unhex(f[1])); bool r = http::parser::parse_cookie_header(d, b.p, b.n, f[2] == "1"); out << r << dump(d); }
    else if (op == "mp") { exact b(unhex(f[1])); bool r = http::parser::parse_multipart_form_data(d, unhex(f[2]), b.p, b.n); out << r << dump(d); }
    else if (op == "uri") {
        std::string u = unhex(f[1]), proto("P"), host("H"), path("A"), query("Q");
        boost::uint16_t port = 7;
        bool r = http::parser::parse_uri(u, proto, host, port, path, query);
        out << r << ' ' << hex(proto) << ' ' << hex(host) << ' ' << port << ' ' << hex(path) << ' ' << hex(query);
    }
}
