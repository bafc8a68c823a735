// Test cases: configuration plus a list of operations, with a text form.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace vp {

/// splitmix64 based generator; the only source of randomness of the harness
class rng {
public:
    explicit rng(std::uint64_t seed = 1) : s_(seed) {}
    std::uint64_t next() {
        s_ += 0x9e3779b97f4a7c15ULL;
        std::uint64_t z = s_;
        z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31U);
    }
    /// 0 .. n-1
    long below(long n) { return n <= 1 ? 0 : static_cast<long>(next() % static_cast<std::uint64_t>(n)); }
    /// a .. b inclusive
    long range(long a, long b) { return a + below(b - a + 1); }
    bool pct(long p) { return below(100) < p; }
    template<class T>
    T const& pick(std::vector<T> const& v) {
        return v[static_cast<std::size_t>(below(static_cast<long>(v.size())))];
    }

private:
    std::uint64_t s_;
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    rng r(a * 0x2545f4914f6cdd1dULL + b);
    r.next();
    return r.next();
}

struct op {
    int thr{0};       // 0: main thread; 1..: worker threads
    int sess{0};      // session slot
    std::string kind; // see engine.cpp
    std::map<std::string, long> n;
    std::map<std::string, std::string> s;
    std::map<std::string, std::vector<long>> l;

    long num(std::string const& k, long d = 0) const {
        auto it = n.find(k);
        return it == n.end() ? d : it->second;
    }
    std::string str(std::string const& k) const {
        auto it = s.find(k);
        return it == s.end() ? std::string() : it->second;
    }
    std::vector<long> list(std::string const& k) const {
        auto it = l.find(k);
        return it == l.end() ? std::vector<long>() : it->second;
    }
};

struct test_case {
    std::string prop;
    std::map<std::string, long> cfg;
    std::vector<op> ops;

    long c(std::string const& k, long d = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};

std::string to_text(test_case const& c);
std::string to_text(op const& o);
bool from_text(std::string const& t, test_case& c, std::string& err);
std::string esc(std::string const& s);
std::uint64_t hash_text(std::string const& s);

} // namespace vp
