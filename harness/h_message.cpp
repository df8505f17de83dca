// makes the compiler emit the inline members of the message classes; no code of the library is restated here
#include "h_http.cpp"
extern "C" void verif_message_members(message& m, request& r, response& s, const std::string& k, const std::string& v, message::write_buffers_t& w) {
    m.get_header(k); m.has_header(k); m.add_header(k, v); m.change_header(k, v); m.delete_header(k);
    m.get_cookie(k); m.has_cookie(k); m.add_cookie(k, v); m.change_cookie(k, v); m.delete_cookie(k);
    r.get_query(k); r.has_query(k); r.add_query(k, v); r.change_query(k, v); r.delete_query(k);
    m.get_first_line(); m.prepare_buffers_for_send(w, true, true); m.check_keep_alive(); m.set_content(v); m.clear_content(); m.set_content_type(v);
    m.set_version_major(1); m.set_version_minor(1); r.set_method(v); r.set_resource(v); r.change_resource(v); r.set_query_string(v);
    r.use_query_params_for_query_string(); r.use_query_params_for_post_content(); r.set_content(v); r.set_content(v.c_str(), 1);
    s.set_status_code(1); s.set_status_message(v); s.set_cookie(k, v); s.set_cookie(k, v, v); s.set_cookie(k, v, v, 1); s.set_cookie(k, v, 1ul);
    s.delete_cookie(k); s.delete_cookie(k, v); s.set_last_modified(1); s.update_request_info(r);
    m = m;
}
