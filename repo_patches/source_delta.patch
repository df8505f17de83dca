From 0fd95b54751bb8f0c7cf9f817db1d8b2f3aa72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 01/18] fix: base64_decode indexed its table with a negative
 value for bytes >= 0x80

---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From c4cc8436a06e0ca53530effff5a14a8bbcf16c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 02/18] fix: url_decode decoded malformed escapes such as %-1
 and %4z

---
 src/algorithm.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 15c5904..053e8ab 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -170,9 +171,14 @@ std::string algorithm::url_decode(const std::string& str)
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
 
-                char decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
+                // strtol alone would also accept a sign, leading white space
+                // or trailing garbage (such as "%-1" or "%4z")
+                char decoded_char = '\0';
+                if (isxdigit(static_cast<unsigned char>(decode_buf[0]))
+                    && isxdigit(static_cast<unsigned char>(decode_buf[1])))
+                    decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
 
-                // decoded_char will be '\0' if strtol can't parse decode_buf as hex
+                // decoded_char will be '\0' if decode_buf is not valid hex
                 // (or if decode_buf == "00", which is also not valid).
                 // In this case, recover from error by not decoding.
                 if (decoded_char == '\0') {
-- 
2.43.0


From f11573f42dca1c77dd62772d03d311dc5c5dacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 03/18] fix: xml_encode passed overlong UTF-8, surrogates and
 code points outside XML's range through unchanged

---
 src/algorithm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 053e8ab..7c9fa64 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -283,8 +283,10 @@ std::string algorithm::xml_encode(const std::string& str)
             }
         } else if (*ptr >= 0xE0 && *ptr <= 0xEF) {
             // three-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
-                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF) {
+            // no overlong forms (E0 80..9F), surrogates (ED A0..BF) or non-characters (U+FFFE, U+FFFF)
+            if (*(ptr+1) >= (*ptr == 0xE0 ? 0xA0 : 0x80) && *(ptr+1) <= (*ptr == 0xED ? 0x9F : 0xBF)
+                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
+                && !(*ptr == 0xEF && *(ptr+1) == 0xBF && *(ptr+2) >= 0xBE)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
@@ -294,7 +296,8 @@ std::string algorithm::xml_encode(const std::string& str)
             }
         } else if (*ptr >= 0xF0 && *ptr <= 0xF4) {
             // four-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
+            // no overlong forms (F0 80..8F) or code points above U+10FFFF (F4 90..BF)
+            if (*(ptr+1) >= (*ptr == 0xF0 ? 0x90 : 0x80) && *(ptr+1) <= (*ptr == 0xF4 ? 0x8F : 0xBF)
                 && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
                 && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF) {
                 result += *ptr;
-- 
2.43.0


From f019dc081ce507f7fa4205408db541000bbb2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 04/18] fix: http parser rejected an HTTP/0.9 request line
 ending in a space

---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..33ff032 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -364,8 +364,9 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr != 'H') {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
+            } else {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From 0997ef900c6f1a365b89a7dadb19dd0338bfd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 05/18] fix: http parser never found the end of a chunk that
 exceeds the maximum content length

---
 src/http_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 33ff032..4911bae 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1446,8 +1446,10 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    // count the byte even if there is no room left to store it
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From 10637e33ea0f1bfcd3fab9c499fca01b6aae041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 06/18] fix: http parser left the footers of a chunked message
 unread when a payload handler is used

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 4911bae..479ef86 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From 4341b4706f7c221bf0c84639d8fffe128740aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 07/18] fix: http parser left part of the content buffer
 uninitialised, or miscounted, after missing data

---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 479ef86..b7ccdf1 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,13 +197,12 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data
+                    for (std::size_t n = 0; n < len && m_bytes_content_read + n < m_max_content_length; ++n)
+                        http_msg.get_content()[m_bytes_content_read + n] = MISSING_DATA_CHAR;
                 }
+                m_bytes_content_read += len;
 
                 m_bytes_content_remaining -= len;
                 m_bytes_total_read += len;
-- 
2.43.0


From 8e8e597f196c9d1b7ce40f8084e032981fd90ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 08/18] fix: parse_uri truncated port numbers to 16 bits and
 kept a stale query for URIs without a path

---
 src/http_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index b7ccdf1..bd7f6e5 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -857,6 +857,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
@@ -875,7 +876,10 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const int port_number = boost::lexical_cast<int>(t.substr(port_pos+1));
+            if (port_number < 0 || port_number > 65535)
+                return false;
+            port = static_cast<boost::uint16_t>(port_number);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0


From 80eee93c70b274cc4b70e21d6f9cd2a30cc2dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 09/18] fix: parse_multipart_form_data threw length_error for a
 field without data

---
 src/http_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index bd7f6e5..e9daaa5 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1210,13 +1210,13 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // parsing the value of a field -> find the end of it
                 const char *field_end_ptr = end_ptr;
                 const char *next_ptr = std::search(ptr, end_ptr, boundary.begin(), boundary.end());
-                if (next_ptr) {
+                if (next_ptr - ptr >= 2) {
                     // don't include CRLF before next boundary
                     const char *temp_ptr = next_ptr - 2;
                     if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
-                }
+                } else field_end_ptr = next_ptr;
                 do {
                     if (do_mime64_convertion) {
                         std::string stream_type;
-- 
2.43.0


From 891a1b5e4c9e01ca2530c8dd6f367d0e800eab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 10/18] fix: parse_multipart_form_data glued an ignored header
 name to the next one

---
 src/http_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index e9daaa5..a8361a9 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1141,6 +1141,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
+                        header_name.clear();
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LF : MP_PARSE_HEADER_NAME);
                     }
                 } else if (*ptr == ':') {
@@ -1155,9 +1156,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // expecting a space before header value
                 if (*ptr == '\r') {
                     // premature CR -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_LF;
                 } else if (*ptr == '\n') {
                     // premature LF -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_NAME;
                 } else if (*ptr != ' ') {
                     // not a space -> assume it's a value char
-- 
2.43.0


From 2dbdb954b6acba6997b4a8d956581f41f38262f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 11/18] fix: http parser silently wrapped status codes and
 version numbers modulo 65536

---
 src/http_parser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index a8361a9..882b229 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -420,6 +420,10 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             if (*m_read_ptr == '.') {
                 m_headers_parse_state = PARSE_HTTP_VERSION_MINOR_START;
             } else if (is_digit(*m_read_ptr)) {
+                if (http_msg.get_version_major() * 10 + (*m_read_ptr - '0') > 0xFFFF) {
+                    set_error(ec, ERROR_VERSION_CHAR);
+                    return false;
+                }
                 http_msg.set_version_major( (http_msg.get_version_major() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -460,6 +464,10 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                 }
                 m_headers_parse_state = PARSE_EXPECTING_CR;
             } else if (is_digit(*m_read_ptr)) {
+                if (http_msg.get_version_minor() * 10 + (*m_read_ptr - '0') > 0xFFFF) {
+                    set_error(ec, ERROR_VERSION_CHAR);
+                    return false;
+                }
                 http_msg.set_version_minor( (http_msg.get_version_minor() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -484,6 +492,10 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                 m_status_message.erase();
                 m_headers_parse_state = PARSE_STATUS_MESSAGE;
             } else if (is_digit(*m_read_ptr)) {
+                if (m_status_code * 10 + (*m_read_ptr - '0') > 0xFFFF) {
+                    set_error(ec, ERROR_STATUS_CHAR);
+                    return false;
+                }
                 m_status_code = ( (m_status_code * 10) + (*m_read_ptr - '0') );
             } else if (*m_read_ptr == '\r') {
                 // recover from status message not sent
-- 
2.43.0


From 76cee6364577bed58c6be97cb97a1ec842175df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:57 +0000
Subject: [PATCH 12/18] fix: a negative Content-Length was taken for a huge
 positive one

---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..9f6afda 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -321,6 +321,9 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
+            // lexical_cast would take a negative number modulo 2^N
+            if (! trimmed_length.empty() && trimmed_length[0] == '-')
+                throw boost::bad_lexical_cast();
             m_content_length = boost::lexical_cast<size_t>(trimmed_length);
         }
     }
-- 
2.43.0


From 27da23552149e7c37b526dc02d5886618eb1d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:29 +0000
Subject: [PATCH 13/18] fix: do not add multipart fields without a name when
 lines end in a bare LF

---
 src/http_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 882b229..23af389 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1150,7 +1150,15 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (*ptr == '\r' || *ptr == '\n') {
                     if (header_name.empty()) {
                         // got CR or LF at beginning; skip to data
-                        parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
+                        if (*ptr == '\r') {
+                            parse_state = MP_PARSE_HEADER_LAST_LF;
+                        } else if (! field_name.empty()) {
+                            parse_state = MP_PARSE_FIELD_DATA;
+                        } else {
+                            // field has no name -> skip ahead to next field
+                            parse_state = MP_PARSE_START;
+                            ptr = std::search(ptr, end_ptr, boundary.begin(), boundary.end());
+                        }
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
                         header_name.clear();
-- 
2.43.0


From 791290383ebc61f103fb9e9a10f10ea58b21c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:15 +0000
Subject: [PATCH 14/18] fix: keep bytes that follow the headers out of the
 saved raw headers

---
 src/http_parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 23af389..90238db 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -688,13 +688,19 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             break;
 
         case PARSE_EXPECTING_FINAL_NEWLINE:
-            if (*m_read_ptr == '\n') ++m_read_ptr;
+            if (*m_read_ptr == '\n')
+                ++m_read_ptr;
+            else if (m_save_raw_headers)    // this byte follows the headers
+                m_raw_headers.erase(m_raw_headers.size() - 1);
             m_bytes_last_read = (m_read_ptr - read_start_ptr);
             m_bytes_total_read += m_bytes_last_read;
             return true;
 
         case PARSE_EXPECTING_FINAL_CR:
-            if (*m_read_ptr == '\r') ++m_read_ptr;
+            if (*m_read_ptr == '\r')
+                ++m_read_ptr;
+            else if (m_save_raw_headers)    // this byte follows the headers
+                m_raw_headers.erase(m_raw_headers.size() - 1);
             m_bytes_last_read = (m_read_ptr - read_start_ptr);
             m_bytes_total_read += m_bytes_last_read;
             return true;
-- 
2.43.0


From 17043fb4e5dc8d9460714f8027ec49c20f95227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 15/18] fix: reject chunk sizes that do not fit, instead of
 saturating them

---
 include/pion/http/parser.hpp | 3 +++
 src/http_parser.cpp          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/pion/http/parser.hpp b/include/pion/http/parser.hpp
index 0286242..ba8d8de 100644
--- a/include/pion/http/parser.hpp
+++ b/include/pion/http/parser.hpp
@@ -571,6 +571,9 @@ protected:
     /// maximum length for an HTTP header value
     static const boost::uint32_t        HEADER_VALUE_MAX;
 
+    /// maximum number of digits in the size of a chunk
+    static const boost::uint32_t        CHUNK_SIZE_MAX;
+
     /// maximum length for the name of a query string variable
     static const boost::uint32_t        QUERY_NAME_MAX;
 
diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 90238db..c90bba7 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -41,6 +41,7 @@ const boost::uint32_t   parser::RESOURCE_MAX = 256 * 1024;  // 256 KB
 const boost::uint32_t   parser::QUERY_STRING_MAX = 1024 * 1024; // 1 MB
 const boost::uint32_t   parser::HEADER_NAME_MAX = 1024; // 1 KB
 const boost::uint32_t   parser::HEADER_VALUE_MAX = 1024 * 1024; // 1 MB
+const boost::uint32_t   parser::CHUNK_SIZE_MAX = 2 * sizeof(long) - 1;  // always fits into a long
 const boost::uint32_t   parser::QUERY_NAME_MAX = 1024;  // 1 KB
 const boost::uint32_t   parser::QUERY_VALUE_MAX = 1024 * 1024;  // 1 MB
 const boost::uint32_t   parser::COOKIE_NAME_MAX = 1024; // 1 KB
@@ -1417,6 +1418,10 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
 
         case PARSE_CHUNK_SIZE:
             if (is_hex_digit(*m_read_ptr)) {
+                if (m_chunk_size_str.size() >= CHUNK_SIZE_MAX) {
+                    set_error(ec, ERROR_CHUNK_CHAR);
+                    return false;
+                }
                 m_chunk_size_str.push_back(*m_read_ptr);
             } else if (*m_read_ptr == '\x0D') {
                 m_chunked_content_parse_state = PARSE_EXPECTING_LF_AFTER_CHUNK_SIZE;
-- 
2.43.0


From c009daf94a20423f17e67c3c8e20b2541b75ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 16/18] fix: SPDY header blocks and control frames were read
 beyond the packet and the decompressed data

---
 include/pion/spdy/decompressor.hpp |  6 ++++
 include/pion/spdy/parser.hpp       | 10 ++++--
 src/spdy_decompressor.cpp          |  4 ++-
 src/spdy_parser.cpp                | 53 +++++++++++++++++++++++-------
 4 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..7f3b169 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,6 +52,9 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
+    /// returns the number of bytes that the last call to decompress() produced
+    boost::uint32_t get_uncompressed_length(void) const { return m_uncompressed_length; }
+
     
 protected:
 
@@ -77,6 +80,9 @@ private:
     /// dictionary identifier
     boost::uint32_t                     m_dictionary_id;
     
+    /// number of bytes that the last call to decompress() produced
+    boost::uint32_t                     m_uncompressed_length;
+    
     /// Used for decompressing spdy headers
     boost::uint8_t                      m_uncompressed_header[MAX_UNCOMPRESSED_DATA_BUF_SIZE];
 
diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..ab578fb 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -162,6 +162,7 @@ protected:
                               const decompressor_ptr& decompressor,
                               const spdy_control_frame_info& frame,
                               http_protocol_info& http_headers,
+                              boost::uint32_t length_available,
                               boost::uint32_t current_stream_count);
     
     /**
@@ -185,21 +186,24 @@ protected:
      *
      */
     void parse_spdy_rst_stream(boost::system::error_code& ec,
-                               const spdy_control_frame_info& frame);
+                               const spdy_control_frame_info& frame,
+                               boost::uint32_t length_available);
     
     /**
      * parses an the Ping Frame for SPDY
      *
      */
     void parse_spdy_ping_frame(boost::system::error_code& ec,
-                               const spdy_control_frame_info& frame);
+                               const spdy_control_frame_info& frame,
+                               boost::uint32_t length_available);
     
     /**
      * parses an the GoAway Frame for SPDY
      *
      */
     void parse_spdy_goaway_frame(boost::system::error_code& ec,
-                                 const spdy_control_frame_info& frame);
+                                 const spdy_control_frame_info& frame,
+                                 boost::uint32_t length_available);
     
     /**
      * parses an the WindowUpdate Frame for SPDY
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..7470fe4 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -40,7 +40,7 @@ const char decompressor::SPDY_ZLIB_DICTIONARY[] =
 // decompressor member functions
 
 decompressor::decompressor()
-    : m_request_zstream(NULL), m_response_zstream(NULL)
+    : m_request_zstream(NULL), m_response_zstream(NULL), m_uncompressed_length(0)
 {
     m_request_zstream = (z_streamp)malloc(sizeof(z_stream));
     BOOST_ASSERT(m_request_zstream);
@@ -123,8 +123,10 @@ char* decompressor::decompress(const char *compressed_data_ptr,
         // This error is not catastrophic as many times we might get inconsistent
         // spdy header frames and we should just log error and continue.
         // No need to call SetError()
+        m_uncompressed_length = 0;
         return NULL;
     }
+    m_uncompressed_length = uncomp_length;
     return reinterpret_cast<char*>(m_uncompressed_header);
 }
 
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..1ee836e 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -176,6 +176,9 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     control_bit = (boost::uint8_t)frame.control_bit;
     
+    // what the packet holds behind the head of the frame
+    const boost::uint32_t length_available = length_packet;
+    
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -209,11 +212,11 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         case SPDY_SYN_STREAM:
         case SPDY_SYN_REPLY:
         case SPDY_HEADERS:
-            parse_header_payload(ec, decompressor, frame, http_info, current_stream_count);
+            parse_header_payload(ec, decompressor, frame, http_info, length_available, current_stream_count);
             break;
             
         case SPDY_RST_STREAM:
-            parse_spdy_rst_stream(ec, frame);
+            parse_spdy_rst_stream(ec, frame, length_available);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -223,12 +226,12 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
             break;
             
         case SPDY_PING:
-            parse_spdy_ping_frame(ec, frame);
+            parse_spdy_ping_frame(ec, frame, length_available);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_GOAWAY:
-            parse_spdy_goaway_frame(ec, frame);
+            parse_spdy_goaway_frame(ec, frame, length_available);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -349,11 +352,18 @@ void parser::parse_header_payload(boost::system::error_code &ec,
                                   const decompressor_ptr& decompressor,
                                   const spdy_control_frame_info& frame,
                                   http_protocol_info& http_info,
+                                  boost::uint32_t length_available,
                                   boost::uint32_t /* current_stream_count */)
 {
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
     
+    // The packet must hold the frame, and the frame must hold the fields in front of the header block
+    if (frame.length > length_available || frame.length < (frame.type == SPDY_SYN_STREAM ? 10U : 6U)) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
+    
     // Get the 31 bit stream id
     
     boost::uint32_t four_bytes = algorithm::to_uint32(m_read_ptr);
@@ -417,6 +427,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // and it is 32 bit in SPDYv3
     
     // TBD : Add support for SPDYv3
+    const char * const uncompressed_end_ptr = m_uncompressed_ptr + decompressor->get_uncompressed_length();
+    if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
     m_uncompressed_ptr += 2;
@@ -428,11 +443,20 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
         
+        // (the length of the value follows the name)
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_name + 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -446,6 +470,10 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
@@ -470,13 +498,14 @@ void parser::parse_spdy_data(boost::system::error_code& /* ec */,
 }
 
 void parser::parse_spdy_rst_stream(boost::system::error_code& /* ec */,
-                                   const spdy_control_frame_info& frame)
+                                   const spdy_control_frame_info& frame,
+                                   boost::uint32_t length_available)
 {
     boost::uint32_t status_code = 0;
     
     // First complete the check for size and flag
     // The flag for RST frame should be 0, The length should be 8
-    if(frame.flags != 0 || frame.length != 8 ){
+    if(frame.flags != 0 || frame.length != 8 || length_available < 8){
         return;
     }
 
@@ -496,11 +525,12 @@ void parser::parse_spdy_rst_stream(boost::system::error_code& /* ec */,
 }
 
 void parser::parse_spdy_ping_frame(boost::system::error_code& /* ec */,
-                                   const spdy_control_frame_info& frame)
+                                   const spdy_control_frame_info& frame,
+                                   boost::uint32_t length_available)
 {
     // First complete the check for size 
     // The length should be 4 always
-    if(frame.length != 4){
+    if(frame.length != 4 || length_available < 4){
         return;
     }
   
@@ -523,11 +553,12 @@ void parser::parse_spdy_settings_frame(boost::system::error_code& /* ec */,
 }
 
 void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
-                                     const spdy_control_frame_info& frame)
+                                     const spdy_control_frame_info& frame,
+                                     boost::uint32_t length_available)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 always (the status code is read from the four bytes behind that)
+    if(frame.length != 4 || length_available < 8){
         return;
     }
     
-- 
2.43.0


From bca6b637507f72593478c8ef3cc2cb6e32158768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 17/18] fix: get_date_string crashed on times whose year does
 not fit

---
 src/http_types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_types.cpp b/src/http_types.cpp
index 6fb8cfd..58427f0 100644
--- a/src/http_types.cpp
+++ b/src/http_types.cpp
@@ -104,7 +104,8 @@ std::string types::get_date_string(const time_t t)
     char time_buf[TIME_BUF_SIZE+1];
 
     boost::mutex::scoped_lock time_lock(time_mutex);
-    if (strftime(time_buf, TIME_BUF_SIZE, TIME_FORMAT, gmtime(&t)) == 0)
+    const struct tm *time_parts = gmtime(&t);   // NULL if the year does not fit
+    if (time_parts == NULL || strftime(time_buf, TIME_BUF_SIZE, TIME_FORMAT, time_parts) == 0)
         time_buf[0] = '\0'; // failed; resulting buffer is indeterminate
     time_lock.unlock();
 
-- 
2.43.0


From db4d701a3f541a99aba867a9323ddf0dd127ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 18/18] fix: the first line of a request went stale after
 change_resource

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0

