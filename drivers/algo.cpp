#include <pion/algorithm.hpp>
#include "../drivers/drv.hpp"
#include <cstring>
using namespace pion;
template <typename B> static void ints(const std::string& s, std::ostream& out) {
    // s: 8 bytes; every to_x on them, and from_x of the results, in a canary-guarded buffer
    const B* p = reinterpret_cast<const B*>(s.data());
    out << (unsigned)algorithm::to_uint8(p) << ' ' << (int)algorithm::to_int8(p) << ' ' << algorithm::to_uint16(p) << ' ' << algorithm::to_int16(p) << ' '
        << algorithm::to_uint24(p) << ' ' << algorithm::to_int24(p) << ' ' << algorithm::to_uint32(p) << ' ' << algorithm::to_int32(p) << ' '
        << algorithm::to_uint64(p) << ' ' << algorithm::to_int64(p);
    boost::uint64_t n = algorithm::to_uint64((unsigned char)s[0], (unsigned char)s[1], (unsigned char)s[2], (unsigned char)s[3], (unsigned char)s[4], (unsigned char)s[5], (unsigned char)s[6], (unsigned char)s[7]);
#define G(call) { char b[16]; memset(b, 0x5a, 16); B* q = (B*)(b + 4); call; out << ' ' << hex(std::string(b, 16)); }
    G(algorithm::from_uint8(q, (boost::uint8_t)n)) G(algorithm::from_int8(q, (boost::int8_t)n)) G(algorithm::from_uint16(q, (boost::uint16_t)n)) G(algorithm::from_int16(q, (boost::int16_t)n))
    G(algorithm::from_uint24(q, (boost::uint32_t)n)) G(algorithm::from_int24(q, (boost::int32_t)n)) G(algorithm::from_uint32(q, (boost::uint32_t)n)) G(algorithm::from_int32(q, (boost::int32_t)n))
    G(algorithm::from_uint64(q, n)) G(algorithm::from_int64(q, (boost::int64_t)n))
}
void handle(const fields& f, std::ostream& out) {
    const std::string& op = f[0];
    // exact-size heap copy so that an over-read is seen
    if (op == "ue") out << hex(algorithm::url_encode(unhex(f[1])));
    else if (op == "ud") out << hex(algorithm::url_decode(unhex(f[1])));
    else if (op == "rt") out << hex(algorithm::url_decode(algorithm::url_encode(unhex(f[1]))));
    else if (op == "xe") out << hex(algorithm::xml_encode(unhex(f[1])));
    else if (op == "be") { std::string o("old"); bool r = algorithm::base64_encode(unhex(f[1]), o); out << r << ' ' << hex(o); }
    else if (op == "bd") { std::string o("old"); bool r = algorithm::base64_decode(unhex(f[1]), o); out << r << ' ' << hex(o); }
    else if (op == "iu") ints<unsigned char>(unhex(f[1]), out);
    else if (op == "is") ints<char>(unhex(f[1]), out);
    else if (op == "ff") {  // 4 bytes of a float, 8 of a double
        std::string s = unhex(f[1]);
        unsigned char b[24]; memset(b, 0x5a, sizeof b);
        long double v = 0;
        size_t e = s.size() == 4 ? 8 : 11, m = s.size() == 4 ? 23 : 52;
        algorithm::float_from_bytes(v, (const unsigned char*)s.data(), e, m);
        char t[64]; snprintf(t, sizeof t, "%La", v);
        algorithm::float_to_bytes(v, b + 8, e, m);
        out << t << ' ' << hex(std::string((char*)b, 24));
    }
}
