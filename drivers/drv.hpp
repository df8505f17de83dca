// line protocol of the drivers: fields separated by blanks, strings in hex ("-" = empty)
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
static inline std::string unhex(const std::string& h) {
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}
static inline std::string hex(const std::string& s) {
    static const char d[] = "0123456789abcdef";
    if (s.empty()) return "-";
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) { r += d[(s[i] >> 4) & 15]; r += d[s[i] & 15]; }
    return r;
}
typedef std::vector<std::string> fields;
void handle(const fields& f, std::ostream& out);
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        fields f;
        std::istringstream is(line);
        std::string w;
        while (is >> w) f.push_back(w);
        std::ostringstream out;
        handle(f, out);
        std::cout << out.str() << std::endl;
    }
    return 0;
}
