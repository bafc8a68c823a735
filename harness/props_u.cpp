// Version words and renderings.
#include <limits>
#include <sstream>

#include "props.h"

#include "shirakami/binary_printer.h"
#include "shirakami/database_options.h"
#include "shirakami/log_record.h"
#include "shirakami/result_info.h"
#include "shirakami/scheme.h"
#include "shirakami/span_printer.h"
#include "shirakami/storage_options.h"
#include "shirakami/transaction_options.h"
#include "shirakami/transaction_state.h"

#ifndef VPH_PUBLIC_ONLY
#include "concurrency_control/include/tid.h"
#endif

namespace vp {

namespace {

using namespace shirakami;

// ---------------------------------------------------------------- U01

#ifndef VPH_PUBLIC_ONLY

struct word_model {
    bool lock{false}, gc{false}, latest{false}, absent{false}, by_short{false};
    std::uint64_t tid{0}, epoch{0};
};

constexpr std::uint64_t field_max = (1ULL << 52U) - 1;

std::string same(tid_word const& w, word_model const& m) {
    std::ostringstream o;
    if (w.get_lock() != m.lock) { o << " lock"; }
    if (w.get_lock_by_gc() != m.gc) { o << " lock_by_gc"; }
    if (w.get_latest() != m.latest) { o << " latest"; }
    if (w.get_absent() != m.absent) { o << " absent"; }
    if (w.get_by_short() != m.by_short) { o << " by_short"; }
    if (w.get_tid() != m.tid) { o << " order number " << w.get_tid() << " not " << m.tid; }
    if (w.get_epoch() != m.epoch) { o << " epoch " << w.get_epoch() << " not " << m.epoch; }
    return o.str();
}

void judge_u01(test_case const& c, result& r) {
    constexpr std::size_t n = 3;
    std::vector<tid_word> w(n);
    std::vector<word_model> m(n);
    for (auto const& o : c.ops) {
        auto i = static_cast<std::size_t>(o.sess) % n;
        auto& x = w[i];
        auto& y = m[i];
        auto v = static_cast<std::uint64_t>(o.num("v")) & field_max;
        bool b = (v & 1U) != 0;
        if (o.kind == "EPO") {
            x.set_epoch(v);
            y.epoch = v;
        } else if (o.kind == "TID") {
            x.set_tid(v);
            y.tid = v;
        } else if (o.kind == "INC") {
            if (y.tid < field_max) {
                x.inc_tid();
                ++y.tid;
            }
        } else if (o.kind == "LAT") {
            x.set_latest(b);
            y.latest = b;
        } else if (o.kind == "ABS") {
            x.set_absent(b);
            y.absent = b;
        } else if (o.kind == "SHO") {
            x.set_by_short(b);
            y.by_short = b;
        } else if (o.kind == "SLK") {
            x.set_lock(b);
            y.lock = b;
        } else if (o.kind == "SGC") {
            x.set_lock_by_gc(b);
            y.gc = b;
        } else if (o.kind == "LCK") {
            if (!y.lock) {
                x.lock(b);
                y.lock = true;
                y.gc = b;
            }
        } else if (o.kind == "ULK") {
            x.unlock();
            y.lock = y.gc = false;
        } else if (o.kind == "RST") {
            x.reset();
            y = word_model{};
        } else if (o.kind == "CPY") {
            auto j = static_cast<std::size_t>(v) % n;
            w[j] = x;
            m[j] = y;
        } else if (o.kind == "OBJ") {
            tid_word z{x.get_obj()};
            tid_word z2;
            z2.set_obj(x.get_obj());
            if (z != x || !(z2 == x) || z < x || z > x) { r.fail("fields: a copy differs"); }
            x = z;
        }
        for (std::size_t k = 0; k < n; ++k) {
            auto d = same(w[k], m[k]);
            if (!d.empty()) { r.fail("fields: after " + to_text(o) + " word " + std::to_string(k) + ":" + d); }
        }
        for (std::size_t a = 0; a < n; ++a) {
            for (std::size_t b2 = 0; b2 < n; ++b2) {
                auto const& p = m[a];
                auto const& q = m[b2];
                int want = 2;
                if (p.epoch != q.epoch) {
                    want = p.epoch < q.epoch ? -1 : 1;
                } else if (p.by_short == q.by_short && p.tid != q.tid) {
                    want = p.tid < q.tid ? -1 : 1;
                }
                if (want == 2) { continue; }
                r.nontrivial = true;
                if ((w[a] < w[b2]) != (want < 0) || (w[a] > w[b2]) != (want > 0) || w[a] == w[b2] ||
                    !(w[a] != w[b2])) {
                    r.fail("order: after " + to_text(o) + " words " + std::to_string(a) + " and " +
                           std::to_string(b2));
                }
            }
        }
    }
}

test_case gen_u01(rng& r) {
    test_case c;
    static const std::vector<std::string> kinds{"EPO", "EPO", "TID", "TID", "INC", "LAT", "ABS", "SHO",
                                                "SLK", "SGC", "LCK", "ULK", "RST", "CPY", "OBJ"};
    auto n = r.range(2, 14);
    for (long i = 0; i < n; ++i) {
        op o;
        o.sess = static_cast<int>(r.below(3));
        o.kind = r.pick(kinds);
        switch (r.below(6)) {
            case 0: o.n["v"] = static_cast<long>(field_max); break;
            case 1: o.n["v"] = static_cast<long>(field_max - static_cast<std::uint64_t>(r.below(4))); break;
            case 2: o.n["v"] = 1L << r.below(52); break;
            case 3: o.n["v"] = (1L << r.below(52)) - 1; break;
            case 4: o.n["v"] = static_cast<long>(r.next() & field_max); break;
            default: o.n["v"] = r.below(6); break;
        }
        c.ops.push_back(o);
    }
    return c;
}

reg const u01{{"U01", "two words with different epochs or order numbers were compared",
               [](rng& r, long, bool) { return gen_u01(r); },
               [](test_case const& c) {
                   result r;
                   auto o = in_child([&]() {
                       result q;
                       judge_u01(c, q);
                       return ser(q);
                   });
                   if (child_failed(o, r)) { return r; }
                   return unser(o.text);
               }}};

#else

// the class is not there under this name: decide by what depends on it
reg const u01{{"U01", "at least two transactions committed",
               [](rng& r, long, bool) { return gen_chain(r, 20); },
               [](test_case const& c) {
                   return simple(c, [](test_case const& cc, history& h, result& q) {
                       judge_common(cc, h, q);
                       if (q.bad) { return; }
                       auto w = serial(cc, h, all_committed(h), q);
                       if (!w.empty()) { q.fail("order: " + w); }
                       long n{0};
                       for (auto const& t : h.txs) { n += t.out == outcome::committed ? 1 : 0; }
                       q.nontrivial = n >= 2;
                   });
               }}};

#endif

// ---------------------------------------------------------------- A11

template<class T>
std::string text(T const& v) {
    std::ostringstream o;
    o << v;
    return o.str();
}

template<class T>
struct names {
    std::vector<std::pair<T, std::string>> v;
};

#define N(T, x) {T::x, #x}

names<Status> const& statuses() {
    static const names<Status> s{{N(Status, WARN_ALREADY_BEGIN), N(Status, WARN_ALREADY_EXISTS),
                                  N(Status, WARN_ALREADY_INIT), N(Status, WARN_CANCEL_PREVIOUS_INSERT),
                                  N(Status, WARN_CANCEL_PREVIOUS_UPSERT), N(Status, WARN_CONCURRENT_INSERT),
                                  N(Status, WARN_CONCURRENT_UPDATE), N(Status, WARN_CONFLICT_ON_WRITE_PRESERVE),
                                  N(Status, WARN_ILLEGAL_OPERATION), N(Status, WARN_INVALID_ARGS),
                                  N(Status, WARN_INVALID_HANDLE), N(Status, WARN_INVALID_KEY_LENGTH),
                                  N(Status, WARN_MAX_OPEN_SCAN), N(Status, WARN_NOT_BEGIN),
                                  N(Status, WARN_NOT_FOUND), N(Status, WARN_NOT_IN_A_SESSION),
                                  N(Status, WARN_NOT_INIT), N(Status, WARN_PREMATURE), N(Status, WARN_SCAN_LIMIT),
                                  N(Status, WARN_STORAGE_ID_DEPLETION), N(Status, WARN_STORAGE_NOT_FOUND),
                                  N(Status, WARN_WAITING_FOR_OTHER_TX), N(Status, WARN_WRITE_WITHOUT_WP),
                                  N(Status, OK), N(Status, ERR_CC), N(Status, ERR_READ_AREA_VIOLATION),
                                  N(Status, ERR_FATAL), N(Status, ERR_FATAL_INDEX),
                                  N(Status, ERR_INVALID_CONFIGURATION), N(Status, ERR_KVS),
                                  N(Status, ERR_NOT_IMPLEMENTED), N(Status, ERR_SESSION_LIMIT)}};
    return s;
}

names<reason_code> const& reasons() {
    static const names<reason_code> s{
            {N(reason_code, UNKNOWN), N(reason_code, KVS_DELETE), N(reason_code, KVS_INSERT),
             N(reason_code, KVS_UPDATE), N(reason_code, CC_LTX_PHANTOM_AVOIDANCE),
             N(reason_code, CC_LTX_READ_AREA_VIOLATION), N(reason_code, CC_LTX_READ_UPPER_BOUND_VIOLATION),
             N(reason_code, CC_LTX_WRITE_COMMITTED_READ_PROTECTION), N(reason_code, CC_OCC_WP_VERIFY),
             N(reason_code, CC_OCC_READ_VERIFY), N(reason_code, CC_OCC_PHANTOM_AVOIDANCE),
             N(reason_code, USER_ABORT)}};
    return s;
}

names<scan_endpoint> const& ends() {
    static const names<scan_endpoint> s{
            {N(scan_endpoint, EXCLUSIVE), N(scan_endpoint, INCLUSIVE), N(scan_endpoint, INF)}};
    return s;
}

using ttype = transaction_options::transaction_type;
names<ttype> const& types() {
    static const names<ttype> s{{N(ttype, LONG), N(ttype, SHORT), N(ttype, READ_ONLY)}};
    return s;
}

using omode = database_options::open_mode;
names<omode> const& modes() {
    static const names<omode> s{{N(omode, CREATE), N(omode, RESTORE), N(omode, CREATE_OR_RESTORE)}};
    return s;
}

names<log_operation> const& logops() {
    static const names<log_operation> s{{N(log_operation, INSERT), N(log_operation, UPDATE), N(log_operation, UPSERT),
                                         N(log_operation, DELETE), N(log_operation, ADD_STORAGE),
                                         N(log_operation, REMOVE_STORAGE)}};
    return s;
}

using skind = TxState::StateKind;
names<skind> const& kinds() {
    static const names<skind> s{{N(skind, UNKNOWN), N(skind, WAITING_START), N(skind, STARTED),
                                 N(skind, WAITING_CC_COMMIT), N(skind, ABORTED), N(skind, WAITING_DURABLE),
                                 N(skind, DURABLE)}};
    return s;
}

#undef N

/// two values of an enumeration: alike exactly when equal
template<class T>
void pair_of(names<T> const& s, op const& o, result& r, std::string const& what) {
    auto n = static_cast<long>(s.v.size());
    auto a = static_cast<std::size_t>(o.num("a") % n);
    auto b = static_cast<std::size_t>(o.num("b") % n);
    auto x = text(s.v[a].first);
    auto y = text(s.v[b].first);
    if (x.empty()) { r.fail("name: " + what + " " + s.v[a].second + " has no text"); }
    if ((x == y) != (s.v[a].first == s.v[b].first)) {
        r.fail("name: " + what + " " + s.v[a].second + " and " + s.v[b].second + " print as " + x + " and " + y);
    }
    if (x != text(s.v[a].first)) { r.fail("name: " + what + " " + s.v[a].second + " changes"); }
    if (x.find(s.v[a].second) == std::string::npos) {
        r.fail("name: " + what + " " + s.v[a].second + " prints as " + x);
    }
}

/// the bytes an escaped text stands for; false if it is not of the form
bool decode(std::string const& t, std::string& out) {
    for (std::size_t i = 0; i < t.size();) {
        if (t[i] != '\\') {
            if (t[i] < 0x20 || t[i] > 0x7e) { return false; }
            out += t[i++];
            continue;
        }
        if (i + 3 >= t.size() || t[i + 1] != 'x') { return false; }
        int v{0};
        for (std::size_t k = i + 2; k < i + 4; ++k) {
            char ch = t[k];
            int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1;
            if (d < 0) { return false; }
            v = v * 16 + d;
        }
        out += static_cast<char>(v);
        i += 4;
    }
    return true;
}

void bytes(op const& o, result& r) {
    auto s = o.str("k");
    // followed by a byte that is not part of the input
    std::string room = s + "Z";
    std::ostringstream out;
    auto f = o.num("f");
    if ((f & 1) != 0) { out << std::hex; }
    if ((f & 2) != 0) { out << std::setfill('*'); }
    if ((f & 4) != 0) { out << std::showbase << std::uppercase; }
    auto flags = out.flags();
    auto fill = out.fill();
    auto wid = out.width();
    std::string t;
    if ((f & 4) != 0) {
        // the caller's base prefix and case are not promised away
        out << std::noshowbase << std::nouppercase;
        flags = out.flags();
    }
    out << "<";
    if ((f & 8) != 0) {
        out << binary_printer(std::string_view(room.data(), s.size()));
    } else {
        out << binary_printer(room.data(), s.size());
    }
    if (out.flags() != flags || out.fill() != fill || out.width() != wid) {
        r.fail("stream: formatting changed by printing '" + esc(s) + "'");
    }
    out << ">";
    t = out.str();
    std::string back;
    if (t.size() < 2 || (s.find('\\') == std::string::npos && (!decode(t.substr(1, t.size() - 2), back) || back != s))) {
        r.fail("bytes: '" + esc(s) + "' prints as " + esc(t));
    }
    std::size_t want{0};
    for (auto ch : s) { want += ch >= 0x20 && ch <= 0x7e ? 1 : 4; }
    if (t.size() != want + 2) { r.fail("bytes: '" + esc(s) + "' prints as " + esc(t)); }
}

void lists(op const& o, result& r) {
    auto v = o.list("l");
    auto sep = o.str("s");
    std::string want = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { want += (i > 0 ? (o.num("d") != 0 ? ", " : sep) : "") + std::to_string(v[i]); }
    want += "]";
    std::string got;
    switch (o.num("d") * 2 + o.num("p")) {
        case 0: got = text(span_printer<long>(v, sep)); break;
        case 1: got = text(span_printer<long>(v.data(), v.size(), sep)); break;
        case 2: got = text(span_printer<long>(v)); break;
        default: got = text(span_printer<long>(v.data(), v.size())); break;
    }
    if (got != want) { r.fail("list: " + want + " prints as " + got); }
}

transaction_options topt(op const& o, std::string const& x) {
    transaction_options t{reinterpret_cast<Token>(o.num("t" + x)), types().v[static_cast<std::size_t>(o.num("y" + x) % 3)].first}; // NOLINT
    std::vector<Storage> wp;
    for (auto e : o.list("w" + x)) { wp.push_back(static_cast<Storage>(e)); }
    t.set_write_preserve(wp);
    std::set<Storage> p;
    std::set<Storage> n;
    for (auto e : o.list("p" + x)) { p.insert(static_cast<Storage>(e)); }
    for (auto e : o.list("n" + x)) { n.insert(static_cast<Storage>(e)); }
    t.set_read_area({p, n});
    return t;
}

void topts(op const& o, result& r) {
    auto a = topt(o, "a");
    auto b = topt(o, "b");
    bool eq = a.get_token() == b.get_token() && a.get_transaction_type() == b.get_transaction_type() &&
              a.get_write_preserve() == b.get_write_preserve() &&
              a.get_read_area().get_positive_list() == b.get_read_area().get_positive_list() &&
              a.get_read_area().get_negative_list() == b.get_read_area().get_negative_list();
    auto x = text(a);
    auto y = text(b);
    if ((x == y) != eq) { r.fail("options: " + x + " / " + y + (eq ? " differ" : " print alike")); }
}

database_options dopt(op const& o, std::string const& x) {
    database_options d{modes().v[static_cast<std::size_t>(o.num("m" + x) % 3)].first};
    std::filesystem::path p{"/" + std::to_string(o.num("d" + x))};
    d.set_log_directory_path(p);
    d.set_iterator_based_scan(o.num("s" + x) != 0);
    d.set_enable_logging_detail_info(o.num("i" + x) != 0);
    d.set_epoch_time(static_cast<std::size_t>(o.num("e" + x)));
    d.set_recover_max_parallelism(static_cast<int>(o.num("r" + x)));
    d.set_waiting_resolver_threads(static_cast<std::size_t>(o.num("w" + x)));
    return d;
}

void dopts(op const& o, result& r) {
    bool eq = true;
    for (std::string const f : {"d", "i", "e", "r", "w", "s"}) { eq = eq && o.num(f + "a") == o.num(f + "b"); }
    eq = eq && o.num("ma") % 3 == o.num("mb") % 3;
    auto x = text(dopt(o, "a"));
    auto y = text(dopt(o, "b"));
    if ((x == y) != eq) { r.fail("options: " + x + " / " + y + (eq ? " differ" : " print alike")); }
}

void sopts(op const& o, result& r) {
    storage_option a{static_cast<storage_option::id_t>(o.num("ia")), o.str("pa")};
    storage_option b{static_cast<storage_option::id_t>(o.num("ib")), o.str("pb")};
    bool esc_free = (o.str("pa") + o.str("pb")).find('\\') == std::string::npos;
    bool eq = o.num("ia") == o.num("ib") && o.str("pa") == o.str("pb");
    auto x = text(a);
    auto y = text(b);
    if (eq && x != y) { r.fail("options: " + esc(x) + " / " + esc(y) + " differ"); }
    if (!eq && esc_free && x == y) { r.fail("options: " + esc(x) + " print alike"); }
}

void judge_a11(test_case const& c, result& r) {
    for (auto const& o : c.ops) {
        if (o.kind == "ENU") {
            switch (o.num("e")) {
                case 0: pair_of(statuses(), o, r, "status"); break;
                case 1: pair_of(reasons(), o, r, "reason"); break;
                case 2: pair_of(ends(), o, r, "endpoint"); break;
                case 3: pair_of(types(), o, r, "transaction type"); break;
                case 4: pair_of(modes(), o, r, "open mode"); break;
                case 5: pair_of(logops(), o, r, "log operation"); break;
                default: pair_of(kinds(), o, r, "state"); break;
            }
        } else if (o.kind == "BYT") {
            bytes(o, r);
            r.nontrivial = r.nontrivial || !o.str("k").empty();
        } else if (o.kind == "LIS") {
            lists(o, r);
        } else if (o.kind == "TOP") {
            topts(o, r);
        } else if (o.kind == "DOP") {
            dopts(o, r);
        } else if (o.kind == "SOP") {
            sopts(o, r);
        }
    }
    r.nontrivial = r.nontrivial || c.ops.size() > 1;
}

std::string gen_bytes(rng& r, long max) {
    std::string s;
    auto n = r.below(max + 1);
    auto m = r.below(4);
    for (long i = 0; i < n; ++i) {
        switch (m) {
            case 0: s += static_cast<char>(r.below(256)); break;
            case 1: s += r.pick(std::vector<char>{'\0', '\x1f', ' ', '~', '\x7f', '\x80', '\xff', 'a', '\n', 'x', '\t'}); break;
            case 2: s += static_cast<char>(r.range(32, 126)); break;
            default: s += r.pick(std::vector<char>{'\\', 'x', '0', '\0', 'a'}); break;
        }
    }
    return s;
}

test_case gen_a11(rng& r) {
    test_case c;
    auto n = r.range(3, 8);
    for (long i = 0; i < n; ++i) {
        op o;
        switch (r.below(8)) {
            case 0:
            case 1:
                o.kind = "ENU";
                o.n["e"] = r.pct(50) ? 0 : r.below(7);
                o.n["a"] = r.below(64);
                o.n["b"] = r.below(64);
                break;
            case 2:
            case 3:
                o.kind = "BYT";
                o.s["k"] = gen_bytes(r, r.pick(std::vector<long>{1, 3, 8, 40}));
                o.n["f"] = r.below(16);
                break;
            case 4: {
                o.kind = "LIS";
                auto m = r.below(6);
                for (long k = 0; k < m; ++k) { o.l["l"].push_back(r.pct(20) ? static_cast<long>(r.next()) : r.below(20)); }
                o.s["s"] = r.pick(std::vector<std::string>{"", ",", ":", " - "});
                o.n["d"] = r.below(2);
                o.n["p"] = r.below(2);
                break;
            }
            case 5: {
                o.kind = "TOP";
                auto list = [&]() {
                    std::vector<long> v;
                    auto m = r.below(4);
                    for (long k = 0; k < m; ++k) { v.push_back(r.range(1, 14)); }
                    return v;
                };
                for (std::string const x : {"a", "b"}) {
                    o.n["t" + x] = r.range(1, 3) * 4096;
                    o.n["y" + x] = r.below(3);
                    o.l["w" + x] = list();
                    o.l["p" + x] = list();
                    o.l["n" + x] = list();
                }
                // mostly one difference
                if (r.pct(80)) {
                    auto k = r.below(6);
                    if (k != 0) { o.n["tb"] = o.n["ta"]; }
                    if (k != 1) { o.n["yb"] = o.n["ya"]; }
                    if (k != 2) { o.l["wb"] = o.l["wa"]; }
                    if (k != 3) { o.l["pb"] = o.l["pa"]; }
                    if (k != 4) { o.l["nb"] = o.l["na"]; }
                }
                break;
            }
            case 6: {
                o.kind = "DOP";
                auto k = r.below(8);
                long i2 = 0;
                for (std::string const f : {"m", "d", "i", "e", "r", "w", "s"}) {
                    o.n[f + "a"] = f == "i" || f == "s" ? r.below(2) : r.range(1, 40);
                    o.n[f + "b"] = k != i2++ ? o.n[f + "a"] : f == "i" || f == "s" ? r.below(2) : r.range(1, 40);
                }
                break;
            }
            default:
                o.kind = "SOP";
                o.n["ia"] = r.below(3);
                o.n["ib"] = r.below(3);
                o.s["pa"] = gen_bytes(r, 5);
                o.s["pb"] = r.pct(30) ? o.s["pa"] : gen_bytes(r, 5);
                break;
        }
        c.ops.push_back(o);
    }
    return c;
}

reg const a11{{"A11", "at least two values were rendered and compared",
               [](rng& r, long, bool) { return gen_a11(r); },
               [](test_case const& c) {
                   result r;
                   auto o = in_child([&]() {
                       result q;
                       judge_a11(c, q);
                       return ser(q);
                   });
                   if (child_failed(o, r)) { return r; }
                   return unser(o.text);
               }}};

} // namespace

} // namespace vp
