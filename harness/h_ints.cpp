// instantiations of the header-only integer conversions
#include <pion/algorithm.hpp>
using namespace pion;
#define PAIR(N, T) \
  extern "C" T h_to_u_##N(const unsigned char* p) { return algorithm::to_##N(p); } \
  extern "C" T h_to_c_##N(const char* p) { return algorithm::to_##N(p); } \
  extern "C" void h_from_u_##N(unsigned char* p, T n) { algorithm::from_##N(p, n); } \
  extern "C" void h_from_c_##N(char* p, T n) { algorithm::from_##N(p, n); }
PAIR(uint8, boost::uint8_t) PAIR(int8, boost::int8_t) PAIR(uint16, boost::uint16_t) PAIR(int16, boost::int16_t)
PAIR(uint24, boost::uint32_t) PAIR(int24, boost::int32_t) PAIR(uint32, boost::uint32_t) PAIR(int32, boost::int32_t)
PAIR(uint64, boost::uint64_t) PAIR(int64, boost::int64_t)
extern "C" boost::uint8_t h_b1(unsigned char a) { return algorithm::to_uint8(a); }
extern "C" boost::int8_t h_s1(unsigned char a) { return algorithm::to_int8(a); }
extern "C" boost::uint16_t h_b2(unsigned char a, unsigned char b) { return algorithm::to_uint16(a, b); }
extern "C" boost::int16_t h_s2(unsigned char a, unsigned char b) { return algorithm::to_int16(a, b); }
extern "C" boost::uint32_t h_b3(unsigned char a, unsigned char b, unsigned char c) { return algorithm::to_uint24(a, b, c); }
extern "C" boost::int32_t h_s3(unsigned char a, unsigned char b, unsigned char c) { return algorithm::to_int24(a, b, c); }
extern "C" boost::uint32_t h_b4(unsigned char a, unsigned char b, unsigned char c, unsigned char d) { return algorithm::to_uint32(a, b, c, d); }
extern "C" boost::int32_t h_s4(unsigned char a, unsigned char b, unsigned char c, unsigned char d) { return algorithm::to_int32(a, b, c, d); }
extern "C" boost::uint64_t h_b8(unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char e, unsigned char f, unsigned char g, unsigned char h) { return algorithm::to_uint64(a, b, c, d, e, f, g, h); }
extern "C" boost::int64_t h_s8(unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char e, unsigned char f, unsigned char g, unsigned char h) { return algorithm::to_int64(a, b, c, d, e, f, g, h); }
