// Command line: generate, run, replay and shrink cases.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <glog/logging.h>

#include "props.h"
#include "vsched.h"

namespace vp {

namespace {
constexpr std::size_t shm_size = 8UL << 20U;
struct shm {
    volatile int done;
    volatile int stuck;
    volatile std::size_t len;
    char progress[256];
    char detail[4096];
    char text[1];
};
shm* g_shm{nullptr};
int g_errfd{-1};

void on_stuck(vsched::stop_reason r, char const* d) {
    g_shm->stuck = static_cast<int>(r);
    std::strncpy(g_shm->detail, d != nullptr ? d : "", 1000);
    void* fr[30];
    int n = backtrace(fr, 30);
    std::string s = " at:";
    for (int i = 2; i < n; ++i) {
        Dl_info di{};
        if (dladdr(fr[i], &di) != 0 && di.dli_sname != nullptr) {
            int st{};
            char* dm = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
            std::string nm = st == 0 && dm != nullptr ? dm : di.dli_sname;
            s += " < " + nm.substr(0, nm.find('('));
        }
    }
    std::strncat(g_shm->detail, s.c_str(), 2500);
    _exit(78);
}
void hand_over(std::string const& out) {
    std::size_t cap = shm_size - sizeof(shm) - 16;
    std::size_t n = std::min(out.size(), cap);
    std::memcpy(g_shm->text, out.data(), n);
    g_shm->len = n;
}

void on_crash() {
    if (g_crash_text) { hand_over(g_crash_text()); }
    _exit(77);
}
} // namespace

std::function<std::string()> g_crash_text;

std::vector<prop>& registry() {
    static std::vector<prop> v;
    return v;
}

void setup_child_area() {
    g_shm = static_cast<shm*>(mmap(nullptr, shm_size, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_errfd = memfd_create("vperr", 0);
}

child_out in_child(std::function<std::string()> const& f) {
    g_shm->done = 0;
    g_shm->stuck = 0;
    g_shm->len = 0;
    g_shm->progress[0] = 0;
    g_shm->detail[0] = 0;
    g_progress = g_shm->progress;
    if (ftruncate(g_errfd, 0) != 0) { std::abort(); }
    lseek(g_errfd, 0, SEEK_SET);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::exit(3);
    }
    if (pid == 0) {
        dup2(g_errfd, 2);
        struct rlimit rl {
            0, 0
        };
        setrlimit(RLIMIT_CORE, &rl);
        alarm(240);
        vsched::set_stuck_handler(on_stuck);
        vsched::set_crash_handler(on_crash);
        hand_over(f());
        g_shm->done = 1;
        _exit(0);
    }
    int st{};
    while (waitpid(pid, &st, 0) < 0) {}
    child_out o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_shm->done == 1) {
        o.text.assign(g_shm->text, g_shm->len);
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        o.k = child_out::kind::killed77;
        o.text.assign(g_shm->text, g_shm->len);
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
        static char const* nm[] = {"", "deadlock", "no progress", "no progress (time)"};
        o.k = child_out::kind::stuck;
        o.detail = std::string(nm[g_shm->stuck & 3]) + " " + g_shm->detail + " last call: " +
                   g_shm->progress;
        return o;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        o.k = child_out::kind::timeout;
        return o;
    }
    o.k = child_out::kind::crash;
    std::ostringstream ss;
    if (WIFSIGNALED(st)) {
        ss << "signal " << WTERMSIG(st);
    } else {
        ss << "exit " << WEXITSTATUS(st);
    }
    ss << " last call: " << g_shm->progress;
    char buf[6000];
    auto n = pread(g_errfd, buf, sizeof(buf) - 1, 0);
    if (n > 0) {
        buf[n] = 0;
        ss << " stderr: " << buf;
    }
    o.detail = ss.str();
    return o;
}

std::string ser(result const& r) {
    std::ostringstream ss;
    ss << (r.bad ? 1 : 0) << (r.nontrivial ? 1 : 0) << "\n" << r.classes.size() << "\n";
    for (auto const& c : r.classes) { ss << c << "\n"; }
    ss << r.why.size() << "\n" << r.why << r.extra;
    return ss.str();
}

result unser(std::string const& s) {
    result r;
    std::istringstream is(s);
    std::string l;
    std::getline(is, l);
    r.bad = l[0] == '1';
    r.nontrivial = l[1] == '1';
    std::getline(is, l);
    auto n = std::stoul(l);
    for (std::size_t i = 0; i < n; ++i) {
        std::getline(is, l);
        r.classes.push_back(l);
    }
    std::getline(is, l);
    auto wl = std::stoul(l);
    auto rest = s.substr(static_cast<std::size_t>(is.tellg()));
    r.why = rest.substr(0, wl);
    r.extra = rest.substr(wl);
    return r;
}

bool child_failed(child_out const& o, result& r) {
    switch (o.k) {
        case child_out::kind::ok:
            return false;
        case child_out::kind::crash:
            r.fail("crash: " + o.detail);
            return true;
        case child_out::kind::stuck:
            r.fail("stuck: " + o.detail);
            return true;
        case child_out::kind::killed77:
            return false;
        case child_out::kind::timeout:
            r.classes.emplace_back("inconclusive-timeout");
            return true;
    }
    return false;
}

result simple(test_case const& c,
              std::function<void(test_case const&, history&, result&)> const& judge) {
    auto o = in_child([&]() {
        history h;
        result r;
        run_case(c, h);
        judge(c, h, r);
        if (r.bad) { r.why += "\n" + show(c, h); }
        if (std::getenv("VPH_SHOW") != nullptr) {
            r.extra = show(c, h) + "cb " + std::to_string(h.callbacks) + " sw " +
                      std::to_string(h.switches) + " pre " + std::to_string(h.preempts) +
                      " vt " + std::to_string(h.vtime) + "\n";
        }
        return ser(r);
    });
    result r;
    if (child_failed(o, r)) { return r; }
    return unser(o.text);
}

} // namespace vp

using namespace vp; // NOLINT

namespace {

prop const* find_prop(std::string const& id) {
    for (auto const& p : registry()) {
        if (p.id == id) { return &p; }
    }
    return nullptr;
}

std::string jesc(std::string const& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch == '\n') {
            o += "\\n";
        } else if (ch < 32 || ch > 126) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o;
}

std::string category(std::string const& why) {
    auto p = why.find_first_of(":(");
    return why.substr(0, std::min<std::size_t>(p == std::string::npos ? 30 : p, 30));
}

test_case generate(prop const& p, std::uint64_t seed, long idx, bool thorough) {
    rng r(mix(mix(seed, hash_text(p.id)), static_cast<std::uint64_t>(idx)));
    auto c = p.gen(r, idx, thorough);
    c.prop = p.id;
    return c;
}

bool load(std::string const& path, test_case& c) {
    std::ifstream f(path);
    if (!f) { return false; }
    std::stringstream ss;
    ss << f.rdbuf();
    std::string err;
    if (!from_text(ss.str(), c, err)) {
        std::cerr << "bad case file: " << err << "\n";
        return false;
    }
    return true;
}

// Cases are evaluated in processes forked from one that has done nothing yet, so
// that the heap layout, and with it every choice depending on addresses, is a
// function of the case alone.
struct exchange {
    std::size_t len;
    char text[(8UL << 20U) - 64];
};
exchange* g_ex{nullptr};
int g_req{-1};
int g_ans{-1};

void serve(int req, int ans) {
    char b{};
    while (read(req, &b, 1) == 1) {
        pid_t pid = fork();
        if (pid == 0) {
            test_case c;
            std::string err;
            if (!from_text(std::string(g_ex->text, g_ex->len), c, err)) { _exit(3); }
            auto const* p = find_prop(c.prop);
            if (p == nullptr) { _exit(3); }
            auto t = ser(p->eval(c));
            g_ex->len = std::min(t.size(), sizeof(g_ex->text));
            std::memcpy(g_ex->text, t.data(), g_ex->len);
            _exit(0);
        }
        int st{};
        while (waitpid(pid, &st, 0) < 0) {}
        b = pid > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 1 : 0;
        if (write(ans, &b, 1) != 1) { break; }
    }
    _exit(0);
}

void start_server() {
    g_ex = static_cast<exchange*>(mmap(nullptr, sizeof(exchange), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    setup_child_area();
    int a[2];
    int b[2];
    if (pipe(a) != 0 || pipe(b) != 0) { std::abort(); }
    pid_t pid = fork();
    if (pid < 0) { std::abort(); }
    if (pid == 0) {
        close(a[1]);
        close(b[0]);
        serve(a[0], b[1]);
    }
    close(a[0]);
    close(b[1]);
    g_req = a[1];
    g_ans = b[0];
}

result evaluate(test_case const& c) {
    auto t = to_text(c);
    if (t.size() > sizeof(g_ex->text)) { std::exit(3); }
    std::memcpy(g_ex->text, t.data(), t.size());
    g_ex->len = t.size();
    char b{1};
    if (write(g_req, &b, 1) != 1 || read(g_ans, &b, 1) != 1 || b != 1) {
        std::cerr << "evaluation process failed\n" << t;
        std::exit(3);
    }
    return unser(std::string(g_ex->text, g_ex->len));
}

int cmd_run(std::string const& id, std::uint64_t seed, long from, long step, long count,
            bool thorough, std::string const& out) {
    auto const* p = find_prop(id);
    if (p == nullptr) { return 3; }
    std::map<std::string, long> classes;
    std::set<std::uint64_t> hashes;
    std::vector<std::string> samples;
    long evals{0};
    long nontriv{0};
    long fail_idx{-1};
    std::string why;
    std::string fail_case;
    for (long i = from; i < count; i += step) {
        auto c = generate(*p, seed, i, thorough);
        auto r = evaluate(c);
        ++evals;
        for (auto const& k : r.classes) { ++classes[k]; }
        if (r.nontrivial) {
            ++nontriv;
            auto t = to_text(c);
            hashes.insert(hash_text(t));
            if (samples.size() < 2) { samples.push_back(t); }
        }
        if (r.bad) {
            fail_idx = i;
            why = r.why;
            fail_case = to_text(c);
            break;
        }
    }
    std::ofstream f(out);
    f << "{\"evals\":" << evals << ",\"nontrivial\":" << nontriv << ",\"fail_idx\":" << fail_idx
      << ",\"why\":\"" << jesc(why) << "\",\"case\":\"" << jesc(fail_case) << "\",\"classes\":{";
    bool first = true;
    for (auto const& [k, v] : classes) {
        f << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v;
        first = false;
    }
    f << "},\"hashes\":[";
    first = true;
    for (auto h : hashes) {
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "],\"samples\":[";
    first = true;
    for (auto const& s : samples) {
        f << (first ? "" : ",") << "\"" << jesc(s) << "\"";
        first = false;
    }
    f << "]}\n";
    return 0;
}

// does the case still fail the same way?  For preemptive schedules a few
// other seeds are tried because removing an operation shifts the schedule.
bool still_fails(test_case& c, std::string const& cat, long& budget, std::string& why) {
    long tries = c.c("pol") != 0 ? 6 : 1;
    long base = c.c("sseed", 1);
    for (long t = 0; t < tries && budget > 0; ++t) {
        --budget;
        if (t > 0) { c.cfg["sseed"] = base + t * 7919; }
        auto r = evaluate(c);
        if (r.bad && category(r.why) == cat) {
            why = r.why;
            return true;
        }
    }
    return false;
}

int cmd_shrink(std::string const& in, std::string const& out, long budget) {
    test_case c;
    if (!load(in, c)) { return 3; }
    auto const* p = find_prop(c.prop);
    if (p == nullptr) { return 3; }
    auto r = evaluate(c);
    if (!r.bad) { return 4; }
    std::string cat = category(r.why);
    std::string why = r.why;
    bool changed{true};
    while (changed && budget > 0) {
        changed = false;
        for (std::size_t chunk = std::max<std::size_t>(1, c.ops.size() / 2); chunk >= 1; chunk /= 2) {
            for (std::size_t i = 0; i < c.ops.size() && budget > 0;) {
                test_case d = c;
                auto e = std::min(d.ops.size(), i + chunk);
                d.ops.erase(d.ops.begin() + static_cast<long>(i), d.ops.begin() + static_cast<long>(e));
                if (still_fails(d, cat, budget, why)) {
                    c = d;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            if (chunk == 1) { break; }
        }
        // simpler configuration
        for (auto const& [k, v] : std::map<std::string, long>(c.cfg)) {
            if (budget <= 0) { break; }
            if (k == "sseed" || k == "ns" || k == "nst" || k == "thr") { continue; }
            bool const other = k.rfind("x_", 0) == 0;
            if (v == 0 && !other) { continue; }
            if (!other && k != "pol" && k != "iscan" && k != "e_bypass" && k != "e_bypassroot" &&
                k != "e_gc" && k != "leaf" && k != "stall" && k != "idle" && k != "e_buf" &&
                k != "e_rtx" && k != "rthr" && k != "res") {
                continue;
            }
            test_case d = c;
            d.cfg.erase(k);
            if (still_fails(d, cat, budget, why)) {
                c = d;
                changed = true;
            }
        }
    }
    std::ofstream f(out);
    f << to_text(c);
    f.close();
    std::cout << why << "\n";
    return 0;
}

} // namespace

int main(int argc, char** argv) {
    // identical addresses in every run, as far as the kernel allows
    if (std::getenv("VPH_NORND") == nullptr) {
        setenv("VPH_NORND", "1", 1);
        int pers = personality(0xffffffffUL);
        if (pers >= 0 && (pers & ADDR_NO_RANDOMIZE) == 0 &&
            personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) >= 0) {
            execv("/proc/self/exe", argv);
        }
    }
    mallopt(M_ARENA_MAX, 1);
    google::InitGoogleLogging("vph");
    FLAGS_logtostderr = true;
    FLAGS_minloglevel = google::GLOG_ERROR;
    for (auto const* v : {"SHIRAKAMI_ENABLE_WAITING_BYPASS", "SHIRAKAMI_WAITING_BYPASS_TO_ROOT",
                          "SHIRAKAMI_REDUCE_GC", "SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING",
                          "SHIRAKAMI_RTX_DA_TERM_MUTEX", "TSURUGI_FAST_SHUTDOWN",
                          "SHIRAKAMI_DETAIL_INFO"}) {
        unsetenv(v);
    }
    g_scratch.reserve(4000);
    if (auto* e = std::getenv("VPH_SCRATCH"); e != nullptr) { g_scratch = e; }
    start_server();
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.empty()) {
        std::cerr << "usage\n";
        return 3;
    }
    if (a[0] == "info" && a.size() >= 2) {
        auto const* p = find_prop(a[1]);
        if (p == nullptr) { return 3; }
        std::cout << p->rule << "\n";
        return 0;
    }
    if (a[0] == "gen" && a.size() >= 4) {
        auto const* p = find_prop(a[1]);
        if (p == nullptr) { return 3; }
        std::cout << to_text(generate(*p, std::stoull(a[2]), std::stol(a[3]),
                                      a.size() > 4 && a[4] == "thorough"));
        return 0;
    }
    if (a[0] == "run" && a.size() >= 8) {
        return cmd_run(a[1], std::stoull(a[2]), std::stol(a[3]), std::stol(a[4]), std::stol(a[5]),
                       a[6] == "thorough", a[7]);
    }
    if (a[0] == "exec" && a.size() >= 2) {
        test_case c;
        if (!load(a[1], c)) { return 3; }
        auto const* p = find_prop(c.prop);
        if (p == nullptr) { return 3; }
        auto r = evaluate(c);
        if (!r.extra.empty()) { std::cout << r.extra; }
        if (r.bad) {
            std::cout << "BAD " << r.why << "\n";
            return 1;
        }
        std::cout << "OK" << (r.nontrivial ? " nontrivial" : "");
        for (auto const& k : r.classes) { std::cout << " " << k; }
        std::cout << "\n";
        return 0;
    }
    if (a[0] == "shrink" && a.size() >= 3) {
        return cmd_shrink(a[1], a[2], a.size() > 3 ? std::stol(a[3]) : 800);
    }
    std::cerr << "unknown command\n";
    return 3;
}
