// layout of the HTTP classes, as constants (compiled with -fno-access-control): no code of the library is restated here
#include <cstddef>
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
using namespace pion::http;
#define K(n, v) extern "C" const unsigned long n = (unsigned long)(v);
#define P(m) K(p_##m, offsetof(parser, m))
#define M(m) K(m_##m, offsetof(message, m))
#define RQ(m) K(rq_##m, offsetof(request, m))
#define RS(m) K(rs_##m, offsetof(response, m))
#define E(m) K(e_##m, parser::m)
K(size_parser, sizeof(parser)) K(size_message, sizeof(message)) K(size_request, sizeof(request)) K(size_response, sizeof(response))
K(size_ec, sizeof(boost::system::error_code))
P(m_is_request) P(m_read_ptr) P(m_read_end_ptr) P(m_message_parse_state) P(m_headers_parse_state) P(m_chunked_content_parse_state)
P(m_payload_handler) P(m_status_code) P(m_status_message) P(m_method) P(m_resource) P(m_query_string) P(m_raw_headers)
P(m_header_name) P(m_header_value) P(m_chunk_size_str) P(m_size_of_current_chunk) P(m_bytes_read_in_current_chunk)
P(m_bytes_content_remaining) P(m_bytes_content_read) P(m_bytes_last_read) P(m_bytes_total_read) P(m_max_content_length)
P(m_parse_headers_only) P(m_save_raw_headers)
M(m_first_line) M(m_is_valid) M(m_is_chunked) M(m_chunks_supported) M(m_do_not_send_content_length) M(m_remote_ip)
M(m_version_major) M(m_version_minor) M(m_content_length) M(m_content_buf) M(m_chunk_cache) M(m_headers) M(m_cookie_params)
M(m_status) M(m_has_missing_packets) M(m_has_data_after_missing)
K(cb_buf, offsetof(message::content_buffer_t, m_buf)) K(cb_len, offsetof(message::content_buffer_t, m_len))
K(cb_empty, offsetof(message::content_buffer_t, m_empty)) K(cb_ptr, offsetof(message::content_buffer_t, m_ptr))
RQ(m_method) RQ(m_resource) RQ(m_original_resource) RQ(m_query_string) RQ(m_query_params)
RS(m_status_code) RS(m_status_message) RS(m_request_method)
E(PARSE_START) E(PARSE_HEADERS) E(PARSE_FOOTERS) E(PARSE_CONTENT) E(PARSE_CONTENT_NO_LENGTH) E(PARSE_CHUNKS) E(PARSE_END)
E(PARSE_METHOD_START) E(PARSE_METHOD) E(PARSE_URI_STEM) E(PARSE_URI_QUERY) E(PARSE_HTTP_VERSION_H) E(PARSE_HTTP_VERSION_T_1)
E(PARSE_HTTP_VERSION_T_2) E(PARSE_HTTP_VERSION_P) E(PARSE_HTTP_VERSION_SLASH) E(PARSE_HTTP_VERSION_MAJOR_START)
E(PARSE_HTTP_VERSION_MAJOR) E(PARSE_HTTP_VERSION_MINOR_START) E(PARSE_HTTP_VERSION_MINOR) E(PARSE_STATUS_CODE_START)
E(PARSE_STATUS_CODE) E(PARSE_STATUS_MESSAGE) E(PARSE_EXPECTING_NEWLINE) E(PARSE_EXPECTING_CR) E(PARSE_HEADER_WHITESPACE)
E(PARSE_HEADER_START) E(PARSE_HEADER_NAME) E(PARSE_SPACE_BEFORE_HEADER_VALUE) E(PARSE_HEADER_VALUE)
E(PARSE_EXPECTING_FINAL_NEWLINE) E(PARSE_EXPECTING_FINAL_CR)
E(PARSE_CHUNK_SIZE_START) E(PARSE_CHUNK_SIZE) E(PARSE_EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE) E(PARSE_EXPECTING_CR_AFTER_CHUNK_SIZE)
E(PARSE_EXPECTING_LF_AFTER_CHUNK_SIZE) E(PARSE_CHUNK) E(PARSE_EXPECTING_CR_AFTER_CHUNK) E(PARSE_EXPECTING_LF_AFTER_CHUNK)
E(PARSE_EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK) E(PARSE_EXPECTING_FINAL_LF_AFTER_LAST_CHUNK)
E(ERROR_METHOD_CHAR) E(ERROR_METHOD_SIZE) E(ERROR_URI_CHAR) E(ERROR_URI_SIZE) E(ERROR_QUERY_CHAR) E(ERROR_QUERY_SIZE)
E(ERROR_VERSION_EMPTY) E(ERROR_VERSION_CHAR) E(ERROR_STATUS_EMPTY) E(ERROR_STATUS_CHAR) E(ERROR_HEADER_CHAR)
E(ERROR_HEADER_NAME_SIZE) E(ERROR_HEADER_VALUE_SIZE) E(ERROR_INVALID_CONTENT_LENGTH) E(ERROR_CHUNK_CHAR)
E(ERROR_MISSING_CHUNK_DATA) E(ERROR_MISSING_HEADER_DATA) E(ERROR_MISSING_TOO_MUCH_CONTENT)
K(e_STATUS_NONE, message::STATUS_NONE) K(e_STATUS_TRUNCATED, message::STATUS_TRUNCATED)
K(e_STATUS_PARTIAL, message::STATUS_PARTIAL) K(e_STATUS_OK, message::STATUS_OK)
K(tri_false, boost::logic::tribool::false_value) K(tri_true, boost::logic::tribool::true_value)
K(tri_indeterminate, boost::logic::tribool::indeterminate_value)
// makes the compiler emit the classes' virtual function tables
extern "C" void verif_force_vtables() { request a; response b; parser p(true); }
// makes it emit inline members
extern "C" void verif_force_members(parser& p, message& m, message::content_buffer_t& b, message::content_buffer_t& c) {
    p.check_premature_eof(m); p.skip_header_parsing(m); p.reset(); b.resize(1); b = c; b.clear(); message::content_buffer_t d(b); m.clear();
}
