// layout of the SPDY classes, as constants (compiled with -fno-access-control): no code of the library is restated here
#include <cstddef>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
using namespace pion::spdy;
#define K(n, v) extern "C" const unsigned long n = (unsigned long)(v);
#define P(m) K(p_##m, offsetof(parser, m))
#define DC(m) K(dc_##m, offsetof(decompressor, m))
#define F(m) K(fr_##m, offsetof(spdy_control_frame_info, m))
#define I(m) K(hi_##m, offsetof(http_protocol_info, m))
#define E(m) K(e_##m, parser::m)
K(size_parser, sizeof(parser)) K(size_frame, sizeof(spdy_control_frame_info)) K(size_info, sizeof(http_protocol_info))
K(size_decompressor, sizeof(decompressor)) K(size_ec, sizeof(boost::system::error_code)) K(size_block, decompressor::MAX_UNCOMPRESSED_DATA_BUF_SIZE)
K(size_zstream, sizeof(z_stream))
P(m_read_ptr) P(m_uncompressed_ptr) P(m_current_data_chunk_ptr) P(m_last_data_chunk_ptr)
F(control_bit) F(version) F(type) F(flags) F(length)
I(http_headers) I(http_type) I(stream_id) I(data_offset) I(data_size) I(last_chunk)
DC(m_request_zstream) DC(m_response_zstream) DC(m_dictionary_id) DC(m_uncompressed_header) DC(m_uncompressed_length)
K(z_next_in, offsetof(z_stream, next_in)) K(z_avail_in, offsetof(z_stream, avail_in)) K(z_next_out, offsetof(z_stream, next_out))
K(z_avail_out, offsetof(z_stream, avail_out)) K(z_adler, offsetof(z_stream, adler))
E(ERROR_INVALID_SPDY_FRAME) E(ERROR_INVALID_SPDY_VERSION) E(ERROR_DECOMPRESSION) E(ERROR_PROTOCOL_ERROR) E(ERROR_INTERNAL_SPDY_ERROR) E(ERROR_MISSING_HEADER_DATA)
K(tri_false, boost::logic::tribool::false_value) K(tri_true, boost::logic::tribool::true_value)
K(tri_indeterminate, boost::logic::tribool::indeterminate_value)
