// Text form of a history, for runs that are cut off in the middle.
#include "history.h"

#include <sstream>

namespace vp {

namespace {

struct writer {
    std::ostringstream o;
    void n(std::uint64_t v) { o << v << " "; }
    void i(long v) { o << v << " "; }
    void s(std::string const& v) { o << v.size() << " " << v << " "; }
};

struct reader {
    std::istringstream i;
    explicit reader(std::string const& t) : i(t) {}
    template<class T>
    T get() {
        T v{};
        i >> v;
        i.get();
        return v;
    }
    std::uint64_t n() { return get<std::uint64_t>(); }
    long l() { return get<long>(); }
    std::string s() {
        std::string v(n(), '\0');
        i.read(v.data(), static_cast<std::streamsize>(v.size()));
        i.get();
        return v;
    }
};

} // namespace

std::string ser_history(history const& h) {
    writer w;
    w.n(h.evs.size());
    for (auto const& e : h.evs) {
        w.i(e.op);
        w.i(e.sess);
        w.i(e.thr);
        w.i(e.tx);
        w.i(e.skipped ? 1 : 0);
        w.i(static_cast<long>(e.st));
        w.n(e.t0);
        w.n(e.t1);
        w.n(e.s.size());
        for (auto const& s : e.s) { w.s(s); }
        w.n(e.n.size());
        for (auto x : e.n) { w.i(x); }
        w.n(e.handle);
        w.n(e.rows.size());
        for (auto const& r : e.rows) {
            w.s(r.key);
            w.i(r.val ? 1 : 0);
            w.s(r.val ? *r.val : std::string());
        }
        w.i(e.complete ? 1 : 0);
    }
    w.n(h.txs.size());
    for (auto const& t : h.txs) {
        w.i(t.id);
        w.i(t.sess);
        w.i(t.type);
        w.n(t.t_begin0);
        w.n(t.t_begin1);
        w.n(t.t_commit0);
        w.n(t.t_commit1);
        w.n(t.t_end);
        w.i(static_cast<long>(t.out));
        w.i(static_cast<long>(t.end_st));
        w.i(t.reason);
        w.i(t.commit_called ? 1 : 0);
        w.n(t.marker);
        w.n(t.evs.size());
        for (auto x : t.evs) { w.i(x); }
        bool answered = t.cb && t.cb->count > 0;
        w.i(answered ? 1 : 0);
        w.i(answered ? static_cast<long>(t.cb->st) : 0);
        w.n(answered ? t.cb->marker : 0);
        w.n(answered ? t.cb->t : 0);
    }
    w.n(h.reported.size());
    for (auto const& x : h.reported) {
        w.n(x.t);
        w.n(x.epoch);
    }
    w.n(h.anomalies.size());
    for (auto const& x : h.anomalies) { w.s(x); }
    return w.o.str();
}

history unser_history(std::string const& text) {
    history h;
    reader r(text);
    auto ne = r.n();
    for (std::uint64_t k = 0; k < ne; ++k) {
        ev e;
        e.op = static_cast<int>(r.l());
        e.sess = static_cast<int>(r.l());
        e.thr = static_cast<int>(r.l());
        e.tx = static_cast<int>(r.l());
        e.skipped = r.l() != 0;
        e.st = static_cast<Status>(r.l());
        e.t0 = r.n();
        e.t1 = r.n();
        auto m = r.n();
        while (m-- > 0) { e.s.push_back(r.s()); }
        m = r.n();
        while (m-- > 0) { e.n.push_back(r.l()); }
        e.handle = r.n();
        m = r.n();
        while (m-- > 0) {
            row x;
            x.key = r.s();
            bool has = r.l() != 0;
            auto v = r.s();
            if (has) { x.val = v; }
            e.rows.push_back(x);
        }
        e.complete = r.l() != 0;
        h.evs.push_back(std::move(e));
    }
    auto nt = r.n();
    for (std::uint64_t k = 0; k < nt; ++k) {
        txn t;
        t.id = static_cast<int>(r.l());
        t.sess = static_cast<int>(r.l());
        t.type = static_cast<int>(r.l());
        t.t_begin0 = r.n();
        t.t_begin1 = r.n();
        t.t_commit0 = r.n();
        t.t_commit1 = r.n();
        t.t_end = r.n();
        t.out = static_cast<outcome>(r.l());
        t.end_st = static_cast<Status>(r.l());
        t.reason = static_cast<int>(r.l());
        t.commit_called = r.l() != 0;
        t.marker = r.n();
        auto m = r.n();
        while (m-- > 0) { t.evs.push_back(static_cast<int>(r.l())); }
        bool answered = r.l() != 0;
        t.cb = std::make_shared<cb_rec>();
        t.cb->st = static_cast<Status>(r.l());
        t.cb->marker = r.n();
        t.cb->t = r.n();
        t.cb->count = answered ? 1 : 0;
        h.txs.push_back(std::move(t));
    }
    auto nr = r.n();
    while (nr-- > 0) {
        auto t = r.n();
        auto e = r.n();
        h.reported.push_back({t, e});
    }
    auto na = r.n();
    while (na-- > 0) { h.anomalies.push_back(r.s()); }
    return h;
}

} // namespace vp
