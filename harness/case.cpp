#include "case.h"

#include <sstream>

namespace vp {

std::string esc(std::string const& s) {
    static char const* hex = "0123456789abcdef";
    std::string o;
    if (s.size() > 64) {
        // run-length form for long strings: ~<len>~<seed byte repeated pattern>
        bool uniform = true;
        for (char ch : s) {
            if (ch != s[0]) { uniform = false; }
        }
        if (uniform) {
            return "%*" + std::to_string(s.size()) + "*" + esc(s.substr(0, 1));
        }
    }
    for (unsigned char ch : s) {
        if ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') ||
            ch == '_' || ch == '-' || ch == '.' || ch == ':') {
            o += static_cast<char>(ch);
        } else {
            o += '%';
            o += hex[ch >> 4U];
            o += hex[ch & 15U];
        }
    }
    return o;
}

static std::string unesc(std::string const& s) {
    if (s.rfind("%*", 0) == 0) {
        auto p = s.find('*', 2);
        std::size_t n = std::stoul(s.substr(2, p - 2));
        std::string one = unesc(s.substr(p + 1));
        return std::string(n, one.empty() ? 'x' : one[0]);
    }
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            o += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            o += s[i];
        }
    }
    return o;
}

std::string to_text(op const& o) {
    std::ostringstream ss;
    ss << "op " << o.thr << " " << o.sess << " " << o.kind;
    for (auto& [k, v] : o.n) { ss << " " << k << "=" << v; }
    for (auto& [k, v] : o.s) { ss << " " << k << "='" << esc(v); }
    for (auto& [k, v] : o.l) {
        ss << " " << k << "=[";
        for (std::size_t i = 0; i < v.size(); ++i) { ss << (i != 0 ? "," : "") << v[i]; }
    }
    return ss.str();
}

std::string to_text(test_case const& c) {
    std::ostringstream ss;
    ss << "vpcase 1\nprop " << c.prop << "\ncfg";
    for (auto& [k, v] : c.cfg) { ss << " " << k << "=" << v; }
    ss << "\n";
    for (auto& o : c.ops) { ss << to_text(o) << "\n"; }
    return ss.str();
}

bool from_text(std::string const& t, test_case& c, std::string& err) {
    std::istringstream in(t);
    std::string line;
    c = {};
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') { continue; }
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        if (w == "vpcase") { continue; }
        if (w == "prop") {
            ls >> c.prop;
            continue;
        }
        if (w == "cfg") {
            while (ls >> w) {
                auto p = w.find('=');
                if (p == std::string::npos) {
                    err = "bad cfg " + w;
                    return false;
                }
                c.cfg[w.substr(0, p)] = std::stol(w.substr(p + 1));
            }
            continue;
        }
        if (w == "op") {
            op o;
            ls >> o.thr >> o.sess >> o.kind;
            while (ls >> w) {
                auto p = w.find('=');
                if (p == std::string::npos) {
                    err = "bad op field " + w;
                    return false;
                }
                std::string k = w.substr(0, p);
                std::string v = w.substr(p + 1);
                if (!v.empty() && v[0] == '\'') {
                    o.s[k] = unesc(v.substr(1));
                } else if (!v.empty() && v[0] == '[') {
                    std::vector<long> xs;
                    std::istringstream vs(v.substr(1));
                    std::string e;
                    while (std::getline(vs, e, ',')) { xs.push_back(std::stol(e)); }
                    o.l[k] = xs;
                } else {
                    o.n[k] = std::stol(v);
                }
            }
            c.ops.push_back(std::move(o));
            continue;
        }
        err = "bad line " + line;
        return false;
    }
    return true;
}

std::uint64_t hash_text(std::string const& s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) {
        h ^= ch;
        h *= 1099511628211ULL;
    }
    return h;
}

} // namespace vp
