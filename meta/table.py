"""One record per property: the source of properties.jsonl and of the MANIFEST entries."""
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, level_note, state=(), observe=(), level="proof",
         technique="contract-based deductive verification: every obligation generated from the current source's IR, discharged by z3"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech,
                  state=state, observe=observe, level=level, technique=technique, level_note=level_note))


PROOF = ("Proved for all inputs of any length with no bound: the function's LLVM IR (clang 18 -O0 of the current source) is shown, obligation by "
         "obligation, to satisfy its contract. Trusted: clang's front end, the VC generator in engine/, z3, the assumed library contracts named in the evidence file. ")

prop("C01", "URL encoding is safe and reversible",
     "url_encode turns any byte string into text containing only printable, URL-safe ASCII: each byte is either copied or becomes '%' and two upper-case hex digits, and every reserved, blank, control or non-ASCII byte is escaped. Decoding the encoded text gives the original back for every string without NUL bytes.",
     ["inputs"], "every byte string of any length", "the tests encode a handful of strings; an unescaped byte or a wrong digit shows only on the particular byte value in the particular position",
     ["src/algorithm.cpp", "include/pion/algorithm.hpp"], [("url_encode", "src/algorithm.cpp"), ("url_decode", "src/algorithm.cpp")],
     PROOF + "The induction from one encoder step to the whole string is stated in DESIGN.md; each step is machine-checked.")
prop("C02", "URL decoding is total and exact",
     "url_decode maps '+' to a space, '%' followed by two hex digits (either case) to the byte they denote, and every other byte to itself; an escape that is incomplete, not hexadecimal, or denotes NUL leaves the '%' as it is and decoding goes on with the next byte. It never fails and never reads beyond the string, whatever bytes it is given.",
     ["inputs"], "every byte string of any length", "the tests decode well-formed escapes and two malformed ones; truncated or non-hex escapes at every position are not sampled",
     ["src/algorithm.cpp"], [("url_decode", "src/algorithm.cpp")], PROOF)
prop("C03", "Base64 decoding inverts encoding and rejects malformed text",
     "base64_encode produces standard padded base64 for every byte string, and base64_decode returns exactly the original from it. Decoding ends at padding in the third or fourth place of a group; before that, a character outside the alphabet, padding in the first two places of a group or a single left-over character makes it report failure, and it never touches memory outside its input whatever the bytes.",
     ["inputs"], "every byte string of any length, every candidate base64 text", "tests cover a few strings and all single-byte values in one position; bytes above 0x7f or misplaced padding in long texts are not sampled",
     ["src/algorithm.cpp"], [("base64_encode", "src/algorithm.cpp"), ("base64_decode", "src/algorithm.cpp")], PROOF + "Input shorter than 2^32-16 bytes (length kept in an unsigned int).")
prop("C04", "XML encoding yields well-formed text for any bytes",
     "xml_encode returns text that can be put in an XML document whatever bytes it is given: the five markup characters become their entities, legal characters (including every valid UTF-8 sequence) are copied unchanged, and control characters, stray or truncated or overlong sequences, surrogates and non-characters are replaced by U+FFFD. The output is always valid UTF-8 without illegal XML characters or raw markup.",
     ["inputs"], "every byte string of any length", "tests cover samples of each class; a wrong bound on one lead byte or continuation byte shows only for particular sequences, or at the end of the string",
     ["src/algorithm.cpp"], [("xml_encode", "src/algorithm.cpp")], PROOF)
prop("C05", "Integer byte conversions are big-endian, exact and inverse",
     "For every width (8, 16, 24, 32, 64 bits), signed or unsigned, from char or unsigned char buffers, to_X reads the big-endian value of exactly its bytes, from_X writes exactly those bytes and no others, and reading back what was written gives the same value (24-bit values modulo 2^24).",
     ["inputs"], "every value of every width, both buffer types", "tests try a few values; sign extension of bytes at or above 0x80 in one particular position is easily missed",
     ["include/pion/algorithm.hpp"], [("to_uint8..to_int64, from_uint8..from_int64", "include/pion/algorithm.hpp")], PROOF)
prop("C06", "Floating-point byte conversions are inverse on normal values",
     "Reading a big-endian IEEE single or double from bytes gives its exact value, and writing that value back gives the same bytes, for every normal value and zero; only the bytes of the value are written.",
     ["inputs"], "every normal float and double", "tests try a few values; mantissas with particular bit patterns and extreme exponents are not sampled",
     ["include/pion/algorithm.hpp"], [("float_from_bytes, float_to_bytes", "include/pion/algorithm.hpp")],
     "BOUNDED stand-in, not a proof: x87 long double arithmetic is outside the verifier's reach, so the contract is evaluated on generated values against IEEE decoding by exact rational arithmetic.",
     level="exploration", technique="bounded contract evaluation (stand-in; 80-bit long double arithmetic is beyond the verifier)")

HP = ["src/http_parser.cpp", "include/pion/http/parser.hpp"]
prop("C07", "Texts made for URLs and headers are exact",
     "make_query_string writes every pair of the dictionary as url_encode(name)=url_encode(value), joined by '&', and nothing for none. make_set_cookie_header writes name=\"value\"; Version=1, then ; Path= when there is a path and ; Max-Age= when one is asked for. get_date_string gives the date of RFC 1123 in GMT for every time, empty if the year does not fit, calls gmtime only while it holds the lock and gives the lock back.",
     ["inputs", "schedules"], "every dictionary, every name, value and path, every time value", "the tests make one query string and one date; repeated names, empty paths, ages over 32 bits and extreme times are not sampled",
     ["src/http_types.cpp"], [("types::make_query_string, make_set_cookie_header, get_date_string", "src/http_types.cpp")],
     PROOF + "gmtime, strftime and boost::mutex are assumed contracts; url_encode enters through its contract (C01).")
prop("C08", "Names in headers, cookies and queries ignore case",
     "Two names that differ only in the case of ASCII letters are the same key of a message's header, cookie and query dictionaries, and equal names have equal hashes. get gives a value of the name, or empty if there is none; has says whether there is one; add adds one more and keeps the others; change leaves the new value as the only one; delete leaves none. Other names, and everything else in the message, stay as they are.",
     ["inputs", "histories"], "every name and value, every prior dictionary with any number of values for a name", "the tests look up two or three names; names repeated three times or more, and every byte next to the letters, are not sampled",
     ["include/pion/hash_map.hpp", "include/pion/http/message.hpp", "include/pion/http/request.hpp"],
     [("ihash, iequal_to", "include/pion/hash_map.hpp"), ("message::get_value, change_value, delete_value", "include/pion/http/message.hpp"), ("request::get_query .. delete_query", "include/pion/http/request.hpp")],
     PROOF + "The hash table itself (std::unordered_multimap) is an assumed contract over the two functors proved here.")
prop("C09", "A message is written exactly as what it holds",
     "A request or response is written as its first line (method, path, ?query, version; or version, status code, status message, always as last set), every header as 'name: value', every cookie as a header, an empty line and the content, each line ended by CR LF. Connection says whether the connection stays open, Content-Length is the content's length unless the content is sent in chunks or it was asked not to be sent, and each is said once. write reports the bytes of all parts written, or an I/O error when the stream fails.",
     ["inputs", "histories"], "every message: any headers, cookies, versions, status, content; every stream that fails at any point", "the tests write one or two messages; stale first lines, several cookies, repeated headers, empty contents and failing streams are not sampled",
     ["include/pion/http/message.hpp", "include/pion/http/request.hpp", "include/pion/http/response.hpp", "src/http_message.cpp"],
     [("message::write", "src/http_message.cpp"), ("message::prepare_buffers_for_send, prepare_headers_for_send, append_headers", "include/pion/http/message.hpp"), ("request::update_first_line, append_cookie_headers", "include/pion/http/request.hpp"),
      ("response::update_first_line, append_cookie_headers, update_request_info", "include/pion/http/response.hpp")],
     PROOF + "lexical_cast and std::ostream::write are assumed contracts. Contents no longer than their buffer (always so unless only a head was received).")
prop("C10", "URL-encoded pairs are extracted exactly",
     "parse_url_encoded splits query text at '&' and '=' into decoded name/value pairs and adds exactly those to the dictionary, in order, keeping what was there; a comma in a value starts another value of the same name, pairs with an empty name are dropped, line breaks and tabs are ignored. It rejects control characters, names over 1024 and values over 1 MB, and never reads outside the text.",
     ["inputs"], "every text of any length and every prior dictionary", "the tests parse three or four well-formed queries; what happens to a pair cut off by the end, an empty name, a comma or an over-long value is not sampled",
     HP, [("parser::parse_url_encoded", "src/http_parser.cpp")], PROOF + "url_decode enters through its contract (property C02).")
prop("C11", "Cookie headers are split exactly",
     "parse_cookie_header adds exactly the cookies of a Cookie or Set-Cookie header to the dictionary: pairs separated by ';' or ',', values bare or quoted with ' or \", names starting with '$' and, for Set-Cookie, the attribute names of RFC 2109 left out. Control characters, names over 1024 and values over 1 MB are rejected, and nothing outside the text is read.",
     ["inputs"], "every header text of any length, both header kinds", "the tests parse a few well-formed headers; quotes left open, separators inside quotes, text after a closing quote or attributes in unusual places are not sampled",
     HP, [("parser::parse_cookie_header", "src/http_parser.cpp")], PROOF)
prop("C12", "Multipart form data yields exactly its named fields",
     "parse_multipart_form_data finds the boundary in the content type, reads the header lines of each part and adds one dictionary entry per part that has a name: the name from Content-Disposition, the value exactly the bytes up to the line break before the next boundary (as a data URI when the part has a non-text content type). Parts without a name are skipped, malformed delimiters are rejected, and it never reads outside the body or fails to end, whatever the bytes.",
     ["inputs"], "every body and every content type of any length", "the tests parse three well-formed bodies; parts cut off at any byte, LF-only line ends, missing names and stray boundaries are not sampled",
     HP, [("parser::parse_multipart_form_data", "src/http_parser.cpp")], PROOF + "binary_2base64 (Boost archive iterators) is an assumed contract here; the audit evaluates it on generated bodies.")
prop("C13", "URIs are split into their parts exactly",
     "parse_uri splits proto://host:port/path?query at the first '://', the first '/' after it, the first ':' of the server part and the first '?' of the path; it gives the port as the number written (0 to 65535), else 80 for http, 443 for https, 0 otherwise; a missing path is '/', a missing query empty. It reports failure for an empty host or a port that is not such a number.",
     ["inputs"], "every URI string", "no test in the suite calls parse_uri with ports out of range, without a path or without a scheme",
     HP, [("parser::parse_uri", "src/http_parser.cpp")], PROOF)
prop("C14", "Message heads are read exactly, however they are split",
     "parse_headers reads the first line and the header fields of an HTTP message byte by byte: method, path, query, version, status and every name: value field reach the parser's state and the message exactly as written, CR LF, LF or CR ending lines. It stops right behind the head, rejects control and special characters and over-long parts with the error that names them, and its result is the same however the text is split over reads.",
     ["inputs", "histories"], "every byte sequence, every split into reads, requests and responses, with and without raw headers kept", "tests parse well-formed messages, mostly in one read; which byte is rejected in which of 28 states, and what a split in that place changes, is not sampled",
     HP, [("parser::parse_headers", "src/http_parser.cpp"), ("message::add_header", "include/pion/http/message.hpp")],
     PROOF + "Every re-entry state is a start state of the proof, so independence of the split follows (DESIGN.md).")
prop("C15", "Chunked content is taken apart exactly, however it is split",
     "parse_chunks reads the size line, data and end of each chunk: exactly the announced bytes of every chunk reach the message (up to the content limit) or the payload handler, in order; extensions and blanks in the size line are skipped, anything else out of place is rejected. After the last chunk it ends, or goes on to the trailer fields. The result is the same however the text is split over reads, and no byte outside the read buffer is touched.",
     ["inputs", "histories"], "every byte sequence, every split into reads, every chunk size and content limit, with and without payload handler", "tests parse two or three chunked messages; chunks split in every place, sizes at the limit of the integer types and content beyond the limit are not sampled",
     HP, [("parser::parse_chunks", "src/http_parser.cpp")], PROOF)
prop("C16", "Content of known length or up to the end is taken exactly",
     "consume_content and consume_content_as_next_chunk take exactly the bytes that belong to the content from the read buffer (never more than announced), put them behind those already read in the message, or hand them to the payload handler, and count them; content beyond the configured limit is counted but never written, so the content buffer is never overrun whatever length a message announces.",
     ["inputs", "histories"], "every announced length, every limit, every split into reads, with and without payload handler", "tests read short contents in one or two reads; reads that cross the limit are not sampled",
     HP, [("parser::consume_content, consume_content_as_next_chunk", "src/http_parser.cpp")], PROOF)
prop("C17", "Missing data is replaced exactly or reported",
     "parse_missing_data accounts for bytes lost from the stream: within content, a chunk or content without length, exactly that many filler bytes take their place (in the message up to the content limit, or to the payload handler) and parsing goes on behind them, finishing the message if they were its last; in the headers, in a chunk's frame or beyond its end the loss is reported by the error that names it. Nothing is written beyond the content buffer.",
     ["inputs", "histories"], "every parser state, every number of missing bytes, every limit, with and without payload handler", "tests try a few losses in the middle of small messages; losses up to the exact end, at the limit, or in frames are not sampled",
     HP, [("parser::parse_missing_data", "src/http_parser.cpp")], PROOF + "compute_msg_status and finish enter through their contracts.")
prop("C18", "A message is put together exactly from what its head announces",
     "After the head, parser and message agree on what follows: chunks if Transfer-Encoding says so, nothing for HEAD, 1xx, 204, 205 and 304 responses and requests without a length, else exactly Content-Length bytes, or all up to the end for a response; a malformed length is an error. When a message is complete or cut off, its content, length, validity, status, query pairs, cookies of every cookie header and form fields are exactly those of the parts read.",
     ["inputs", "histories"], "every head, every parser state at the end, requests and responses, with and without payload handler or content limit", "tests parse a dozen messages; combinations of framing headers, status codes, limits, handlers and truncation points are not sampled",
     HP + ["src/http_message.cpp", "include/pion/http/message.hpp", "include/pion/http/request.hpp", "include/pion/http/response.hpp"],
     [("parser::parse", "src/http_parser.cpp"), ("parser::finish_header_parsing", "src/http_parser.cpp"), ("parser::finish", "src/http_parser.cpp"), ("parser::update_message_with_header_data", "src/http_parser.cpp"),
      ("message::concatenate_chunks", "src/http_message.cpp")],
     PROOF + "The pieces (C10-C17) enter through their contracts; regex_match, trim and lexical_cast are assumed contracts.")
prop("C20", "SPDY frames are read exactly and never beyond the packet",
     "For every packet of at least 12 bytes: the first bytes decide whether it is a control frame, a data frame or neither; the frame's fields (type, stream id, flags, 24-bit length) are those of its head; parsing answers true when the packet ends with the frame, indeterminate and the place of the next frame when another follows, and an error for an unknown type or version, a truncated or undecodable header block, or a GOAWAY that reports one. A header block goes whole through the decompressor of its direction, and exactly its name/value pairs are added, the first of equal names winning; nothing outside the packet or the decompressed block is read.",
     ["inputs", "histories"], "every packet of 12 bytes or more, every header block up to the 16384 bytes the decompressor holds", "tests parse two captured packets; lengths that lie, blocks that end early, second flags and pushed streams are not sampled",
     ["src/spdy_parser.cpp", "src/spdy_decompressor.cpp", "include/pion/spdy/parser.hpp", "include/pion/spdy/decompressor.hpp", "include/pion/spdy/types.hpp"],
     [("parser::parse", "src/spdy_parser.cpp"), ("parser::populate_frame", "src/spdy_parser.cpp"), ("parser::parse_header_payload", "src/spdy_parser.cpp"), ("decompressor::decompress", "src/spdy_decompressor.cpp")],
     PROOF + "inflate and inflateSetDictionary of zlib and std::map::insert are assumed contracts.")
