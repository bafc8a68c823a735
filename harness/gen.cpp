// Shared generators and judgements.
#include "props.h"

#include <algorithm>
#include <set>

namespace vp {

op mk(int thr, int sess, std::string kind) {
    op o;
    o.thr = thr;
    o.sess = sess;
    o.kind = std::move(kind);
    return o;
}

std::string val(long n) { return "v" + std::to_string(n); }

std::string key_n(long i) {
    // neighbouring keys, prefixes of each other, and keys longer than one
    // 8-byte slice
    static std::vector<std::string> const ks{"a",        "b",  "c",         "d", "e", "aa", "ab",
                                             "aaaaaaaa", "ba", "aaaaaaaab", "f", "g"};
    return ks[static_cast<std::size_t>(i) % ks.size()];
}

op gen_scan(rng& r, gen_opts const& g, int thr, int sess) {
    auto o = mk(thr, sess, "SCAN");
    o.n["st"] = r.below(g.storages);
    long le = r.below(3);
    long re = r.below(3);
    auto a = key_n(r.below(g.keys));
    auto b = key_n(r.below(g.keys));
    if (b < a && !r.pct(5)) { std::swap(a, b); }
    if (a == b) { // only the closed form is meaningful
        le = 1;
        re = 1;
    }
    if (b < a) { std::swap(a, b); }
    if (r.pct(45)) {
        le = 2;
        re = 2;
    }
    if (le != 2) { o.s["l"] = a; }
    if (re != 2) { o.s["r"] = b; }
    o.n["le"] = le;
    o.n["re"] = re;
    if (r.pct(10)) { o.n["max"] = r.range(1, 3); }
    if (r.pct(10)) { o.n["cnt"] = r.range(1, 2); }
    if (g.reverse && r.pct(15)) {
        o.n["rev"] = 1;
        o.n["max"] = 1;
        o.n["re"] = 2;
        o.s.erase("r");
        o.n.erase("cnt");
    }
    return o;
}

op gen_read(rng& r, gen_opts const& g, int thr, int sess) {
    long w = r.below(g.w_get + g.w_exi + g.w_scan);
    if (w < g.w_scan) { return gen_scan(r, g, thr, sess); }
    auto o = mk(thr, sess, w < g.w_scan + g.w_get ? "GET" : "EXI");
    o.n["st"] = r.below(g.storages);
    o.s["k"] = key_n(r.below(g.keys));
    return o;
}

void gen_tx(rng& r, gen_opts const& g, int thr, int sess, long& vn, std::vector<op>& out) {
    long ty = 0;
    long w = r.below(g.p_short + g.p_long + g.p_ro);
    if (w >= g.p_short) { ty = w < g.p_short + g.p_long ? 1 : 2; }
    auto b = mk(thr, sess, "BEGIN");
    b.n["ty"] = ty;
    std::vector<long> wp;
    if (ty == 1) {
        for (long i = 0; i < g.storages; ++i) {
            if (r.pct(g.storages == 1 ? 85 : 60)) { wp.push_back(i); }
        }
        if (!wp.empty()) { b.l["wp"] = wp; }
        if (g.read_area && r.pct(40)) {
            std::vector<long> ra;
            for (long i = 0; i < g.storages; ++i) {
                if (r.pct(50)) { ra.push_back(i); }
            }
            if (!ra.empty()) { b.l[r.pct(60) ? "rp" : "rn"] = ra; }
            if (r.pct(30)) {
                // both lists at once
                b.l["rp"] = ra;
                std::vector<long> rn;
                for (long i = 0; i < g.storages; ++i) {
                    if (r.pct(35)) { rn.push_back(i); }
                }
                if (ra.empty()) { b.l.erase("rp"); }
                if (!rn.empty()) {
                    b.l["rn"] = rn;
                } else {
                    b.l.erase("rn");
                }
            }
        }
    }
    if (r.pct(30)) { b.n["w"] = 1; }
    out.push_back(b);
    long n = r.range(g.min_ops, g.max_ops);
    for (long i = 0; i < n; ++i) {
        if (r.pct(g.p_epoch)) {
            auto e = mk(thr, sess, "SLEEP");
            e.n["us"] = r.pick(std::vector<long>{50, 300, 700, 1500, 3000});
            out.push_back(e);
        }
        long ww = g.w_ins + g.w_upd + g.w_ups + g.w_del;
        long rr = g.w_get + g.w_exi + g.w_scan;
        bool can_write = ty == 0 || (ty == 1 && !wp.empty());
        if (!can_write || r.below(ww + rr) < rr) {
            out.push_back(gen_read(r, g, thr, sess));
            if (ty == 1) { out.back().n.erase("rev"); }
            continue;
        }
        long x = r.below(ww);
        char const* kind = x < g.w_ins                       ? "INS"
                           : x < g.w_ins + g.w_upd           ? "UPD"
                           : x < g.w_ins + g.w_upd + g.w_ups ? "UPS"
                                                             : "DEL";
        if (ty == 1 && g.ltx_blind) { kind = "UPS"; }
        auto o = mk(thr, sess, kind);
        o.n["st"] = ty == 1 ? r.pick(wp) : r.below(g.storages);
        o.s["k"] = key_n(r.below(g.keys));
        if (o.kind != "DEL") { o.s["v"] = val(++vn); }
        out.push_back(o);
    }
    if (r.pct(g.p_abort)) {
        out.push_back(mk(thr, sess, "ABORT"));
    } else {
        auto o = mk(thr, sess, "COMMIT");
        if (g.wait_commit) { o.n["wait"] = 1; }
        out.push_back(o);
    }
}

void gen_load(rng& r, gen_opts const& g, long& vn, std::vector<op>& out, int p) {
    auto b = mk(0, 0, "BEGIN");
    b.n["ty"] = 0;
    out.push_back(b);
    for (long s = 0; s < g.storages; ++s) {
        for (long k = 0; k < g.keys; ++k) {
            if (!r.pct(p)) { continue; }
            auto o = mk(0, 0, "UPS");
            o.n["st"] = s;
            o.s["k"] = key_n(k);
            o.s["v"] = val(++vn);
            out.push_back(o);
        }
    }
    auto o = mk(0, 0, "COMMIT");
    o.n["wait"] = 1;
    out.push_back(o);
    if (r.pct(70)) {
        auto e = mk(0, 0, "EPOCH");
        e.n["n"] = r.range(1, 4);
        out.push_back(e);
    }
}

void gen_sched(rng& r, test_case& c, bool preemptive) {
    c.cfg["sseed"] = static_cast<long>(r.next() & 0xffffffU);
    if (!preemptive) { return; }
    if (r.pct(55)) {
        c.cfg["pol"] = 1;
        c.cfg["q"] = r.pick(std::vector<long>{8, 30, 100, 300, 1000, 3000});
    } else {
        c.cfg["pol"] = 2;
        c.cfg["cp"] = r.range(1, 8);
        c.cfg["plen"] = r.pick(std::vector<long>{3000, 10000, 30000});
    }
    // how fast time passes relative to the work
    c.cfg["tick"] = r.pick(std::vector<long>{20, 50, 200, 1000});
    c.cfg["epoch"] = r.pick(std::vector<long>{1000, 1000, 300, 3000});
}

void gen_tuning(rng& r, test_case& c) {
    if (r.pct(50)) { c.cfg["iscan"] = 1; }
    if (r.pct(40)) { c.cfg["leaf"] = r.pick(std::vector<long>{1, 2, 3}); }
    if (r.pct(20)) { c.cfg["e_gc"] = 0; }
    c.cfg["res"] = r.range(1, 3);
}

test_case gen_concurrent(rng& r, gen_opts const& g, int nthr, int tx_per_thr) {
    test_case c;
    c.cfg["thr"] = nthr;
    c.cfg["ns"] = nthr + 1;
    c.cfg["nst"] = g.storages;
    gen_sched(r, c, true);
    gen_tuning(r, c);
    long vn = 0;
    gen_load(r, g, vn, c.ops, static_cast<int>(r.pick(std::vector<long>{0, 40, 80, 100})));
    for (int t = 1; t <= nthr; ++t) {
        for (int i = 0; i < tx_per_thr; ++i) { gen_tx(r, g, t, t, vn, c.ops); }
    }
    return c;
}

test_case gen_interleaved(rng& r, gen_opts const& g, int ns, int txs) {
    test_case c;
    c.cfg["ns"] = ns;
    c.cfg["nst"] = g.storages;
    gen_sched(r, c, false);
    gen_tuning(r, c);
    long vn = 0;
    gen_load(r, g, vn, c.ops, static_cast<int>(r.pick(std::vector<long>{0, 40, 80, 100})));
    std::vector<std::vector<op>> prog(static_cast<std::size_t>(ns));
    for (int i = 0; i < txs; ++i) {
        auto s = static_cast<std::size_t>(i % ns);
        gen_tx(r, g, 0, static_cast<int>(s), vn, prog[s]);
    }
    std::vector<std::size_t> pos(prog.size(), 0);
    for (;;) {
        std::vector<std::size_t> av;
        for (std::size_t s = 0; s < prog.size(); ++s) {
            if (pos[s] < prog[s].size()) { av.push_back(s); }
        }
        if (av.empty()) { break; }
        auto s = r.pick(av);
        long burst = r.range(1, 3);
        while (burst-- > 0 && pos[s] < prog[s].size()) {
            auto o = prog[s][pos[s]++];
            if (o.kind == "COMMIT") { o.n.erase("wait"); }
            c.ops.push_back(o);
        }
    }
    return c;
}

test_case gen_chain(rng& r, int p_scan) {
    test_case c;
    int nst = static_cast<int>(r.range(2, 4));
    int keys = static_cast<int>(r.pick(std::vector<long>{1, 1, 1, 2, 3}));
    int nl = static_cast<int>(r.range(2, 3));
    int nsh = static_cast<int>(r.range(1, 3));
    c.cfg["nst"] = nst;
    c.cfg["ns"] = nl + nsh + 1;
    gen_sched(r, c, false);
    gen_tuning(r, c);
    c.cfg["tick"] = 1;
    gen_opts g;
    g.storages = nst;
    g.keys = keys;
    long vn = 0;
    gen_load(r, g, vn, c.ops, 85);
    c.ops.back().kind == "EPOCH" ? void() : c.ops.push_back(mk(0, 0, "EPOCH"));
    // (slot, order) -> operation
    std::vector<std::pair<long, op>> tl;
    auto read = [&](int s, long st) {
        if (r.pct(p_scan)) {
            auto o = gen_scan(r, g, 0, s);
            o.n["st"] = st;
            return o;
        }
        auto o = mk(0, s, r.pct(80) ? "GET" : "EXI");
        o.n["st"] = st;
        o.s["k"] = key_n(r.below(keys));
        return o;
    };
    auto write = [&](int s, long st, bool blind) {
        auto o = mk(0, s, blind || r.pct(60) ? "UPS" : r.pick(std::vector<std::string>{"INS", "UPD", "DEL"}));
        o.n["st"] = st;
        o.s["k"] = key_n(r.below(keys));
        if (o.kind != "DEL") { o.s["v"] = val(++vn); }
        return o;
    };
    long last = 12;
    for (int i = 0; i < nl; ++i) {
        int s = 1 + i;
        long b = r.range(0, 4);
        auto bo = mk(0, s, "BEGIN");
        bo.n["ty"] = 1;
        long w = r.below(nst);
        std::vector<long> wp{w};
        if (nst > 2 && r.pct(25)) {
            long w2 = r.below(nst);
            if (w2 != w) { wp.push_back(w2); }
        }
        std::sort(wp.begin(), wp.end());
        bo.l["wp"] = wp;
        tl.emplace_back(b, bo);
        long end = r.range(b + 4, last);
        long n = r.range(1, 3);
        for (long k = 0; k < n; ++k) {
            long st = r.below(nst);
            tl.emplace_back(r.range(b + 2, end), read(s, st));
        }
        n = r.range(0, 2);
        for (long k = 0; k < n; ++k) { tl.emplace_back(r.range(b + 2, end), write(s, r.pick(wp), true)); }
        auto co = mk(0, s, r.pct(93) ? "COMMIT" : "ABORT");
        tl.emplace_back(end, co);
    }
    for (int i = 0; i < nsh; ++i) {
        int s = 1 + nl + i;
        long at = r.range(0, last);
        auto bo = mk(0, s, "BEGIN");
        bo.n["ty"] = r.pct(90) ? 0 : 2;
        tl.emplace_back(at, bo);
        long n = r.range(1, 2);
        for (long k = 0; k < n; ++k) { tl.emplace_back(at, read(s, r.below(nst))); }
        n = bo.n["ty"] == 2 ? 0 : r.range(0, 2);
        for (long k = 0; k < n; ++k) { tl.emplace_back(at, write(s, r.below(nst), false)); }
        tl.emplace_back(r.pct(80) ? at : r.range(at, last), mk(0, s, "COMMIT"));
    }
    std::stable_sort(tl.begin(), tl.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
    long now = 0;
    for (auto& [slot, o] : tl) {
        if (slot > now) {
            auto e = mk(0, 0, "SLEEP");
            e.n["us"] = (slot - now) * 500;
            c.ops.push_back(e);
            now = slot;
        }
        c.ops.push_back(o);
    }
    return c;
}

test_case gen_ranges(rng& r, int p_scan) {
    // long transactions which each write a few keys of their own storage and
    // read a few keys of the others; most wait for the first one.
    test_case c;
    int nl = r.pct(25) ? 3 : 4;
    int keys = static_cast<int>(r.range(3, 5));
    c.cfg["nst"] = nl;
    c.cfg["ns"] = nl + 1;
    gen_sched(r, c, false);
    gen_tuning(r, c);
    c.cfg["tick"] = 1;
    gen_opts g;
    g.storages = nl;
    g.keys = keys;
    long vn = 0;
    gen_load(r, g, vn, c.ops, 85);
    c.ops.back().kind == "EPOCH" ? void() : c.ops.push_back(mk(0, 0, "EPOCH"));
    auto pause = [&](long n) {
        auto e = mk(0, 0, "EPOCH");
        e.n["n"] = n;
        c.ops.push_back(e);
    };
    for (int i = 0; i < nl; ++i) {
        auto b = mk(0, 1 + i, "BEGIN");
        b.n["ty"] = 1;
        b.l["wp"] = {i};
        // the first one is mostly known not to read what the others write
        if (i == 0 && r.pct(70)) { b.l["rp"] = {0}; }
        c.ops.push_back(b);
        if (r.pct(70)) { pause(1); }
    }
    pause(2);
    auto read = [&](int i, long st, long lo, long hi) {
        if (r.pct(p_scan)) {
            auto o = mk(0, 1 + i, "SCAN");
            o.n["st"] = st;
            o.n["le"] = r.range(0, 1);
            o.n["re"] = r.range(0, 1);
            o.s["l"] = key_n(lo);
            o.s["r"] = key_n(hi);
            c.ops.push_back(o);
            return;
        }
        auto o = mk(0, 1 + i, r.pct(85) ? "GET" : "EXI");
        o.n["st"] = st;
        o.s["k"] = key_n(r.range(lo, hi));
        c.ops.push_back(o);
    };
    std::vector<int> order;
    for (int i = 0; i < nl; ++i) { order.push_back(i); }
    if (r.pct(75)) {
        // the first one ends last
        for (std::size_t i = order.size() - 1; i > 1; --i) {
            std::swap(order[i], order[static_cast<std::size_t>(r.range(1, static_cast<long>(i)))]);
        }
        order.erase(order.begin());
        order.push_back(0);
    } else {
        for (std::size_t i = order.size() - 1; i > 0; --i) {
            std::swap(order[i], order[static_cast<std::size_t>(r.range(0, static_cast<long>(i)))]);
        }
    }
    auto reads = [&](int i) {
        if (i == 0) {
            read(0, 0, 0, keys - 1);
            return;
        }
        if (r.pct(40)) { read(i, 0, 0, keys - 1); }
        long n = r.range(1, 2);
        for (long k = 0; k < n; ++k) {
            long st = r.range(1, nl - 1);
            if (st == i && r.pct(80)) { st = st % (nl - 1) + 1; }
            long lo = r.below(keys);
            read(i, st, lo, r.range(lo, keys - 1));
        }
    };
    auto writes = [&](int i) {
        std::vector<long> ks;
        for (long k = 0; k < keys; ++k) {
            if (r.pct(45)) { ks.push_back(k); }
        }
        if (r.pct(40)) { std::reverse(ks.begin(), ks.end()); }
        for (auto k : ks) {
            auto o = mk(0, 1 + i, r.pct(85) ? "UPS" : "DEL");
            o.n["st"] = i;
            o.s["k"] = key_n(k);
            if (o.kind != "DEL") { o.s["v"] = val(++vn); }
            c.ops.push_back(o);
        }
    };
    auto end = [&](int i, int p_commit) {
        c.ops.push_back(mk(0, 1 + i, r.pct(p_commit) ? "COMMIT" : "ABORT"));
        if (r.pct(50)) { pause(1); }
    };
    if (nl == 4 && r.pct(50)) {
        // the last one read what the second overwrites, the third reads both of
        // their storages and waits for the first
        auto any = [&](int i, long st) {
            long lo = r.below(keys);
            read(i, st, lo, r.range(lo, keys - 1));
        };
        any(3, 1);
        if (r.pct(20)) { any(3, 2); }
        writes(1);
        end(1, 97);
        for (long st : {0L, 1L, 3L}) {
            if (r.pct(90)) { any(2, st); }
        }
        if (r.pct(60)) { writes(2); }
        end(2, 97);
        writes(3);
        end(3, 97);
        if (r.pct(40)) { writes(0); }
        end(0, 70);
        return c;
    }
    std::set<int> done;
    for (int i = nl - 1; i >= 0; --i) {
        if (!r.pct(70)) { continue; }
        reads(i);
        done.insert(i);
    }
    for (int i : order) {
        if (done.count(i) == 0 && r.pct(70)) { reads(i); }
        writes(i);
        end(i, 96);
    }
    return c;
}

test_case gen_stalled(rng& r, bool ro) {
    // a short commit that stops for some epochs while others begin and read
    test_case c;
    int nthr = static_cast<int>(r.range(2, 4));
    int keys = static_cast<int>(r.range(1, 3));
    gen_opts g;
    g.storages = static_cast<int>(r.range(1, 2));
    g.keys = keys;
    g.ltx_blind = true;
    g.min_ops = 1;
    g.max_ops = 3;
    g.p_epoch = 25;
    g.p_abort = 3;
    c.cfg["thr"] = nthr;
    c.cfg["ns"] = nthr + 1;
    c.cfg["nst"] = g.storages;
    if (r.pct(60)) {
        gen_sched(r, c, false);
        c.cfg["tick"] = r.pick(std::vector<long>{0, 1, 20});
    } else {
        gen_sched(r, c, true);
    }
    gen_tuning(r, c);
    long epoch = c.c("epoch", 1000);
    c.cfg["stallus"] = epoch * r.range(2, 9) / 2;
    long vn = 0;
    gen_load(r, g, vn, c.ops, 80);
    auto pause = [&](int t) {
        auto e = mk(t, t, "SLEEP");
        e.n["us"] = epoch * r.range(0, 6) / 4;
        c.ops.push_back(e);
    };
    pause(1);
    c.ops.push_back(mk(1, 1, "BEGIN"));
    c.ops.back().n["ty"] = 0;
    if (r.pct(50)) { c.ops.push_back(gen_read(r, g, 1, 1)); }
    long n = r.range(1, 3);
    for (long k = 0; k < n; ++k) {
        auto o = mk(1, 1, r.pct(75) ? "UPS" : "DEL");
        o.n["st"] = r.below(g.storages);
        o.s["k"] = key_n(r.below(keys));
        if (o.kind == "UPS") { o.s["v"] = val(++vn); }
        c.ops.push_back(o);
    }
    c.ops.push_back(mk(1, 1, "COMMIT"));
    c.ops.back().n["arm"] = r.range(1, r.pick(std::vector<long>{200, 800, 2500}));
    for (int t = 2; t <= nthr; ++t) {
        long ty = r.below(10);
        g.p_short = ty < 2 ? 100 : 0;
        g.p_ro = !ro ? 0 : ty >= 5 ? 100 : 0;
        g.p_long = 100 - g.p_short - g.p_ro;
        pause(t);
        auto at = c.ops.size();
        gen_tx(r, g, t, t, vn, c.ops);
        // reads follow when it may have started
        if (r.pct(50)) {
            auto e = mk(t, t, "EPOCH");
            e.n["n"] = r.range(1, 3);
            c.ops.insert(c.ops.begin() + static_cast<long>(at) + 1, e);
        }
    }
    return c;
}

bool strict() {
    static bool const b = getenv("VPH_STRICT") != nullptr;
    return b;
}

void judge_common(test_case const& c, history& h, result& r) {
    (void) c;
    if (h.hung) { r.fail("unanswered: a commit request was never answered"); }
    for (auto const& a : h.anomalies) { r.fail("anomaly: " + a); }
    if (!h.final_ok && !h.hung && c.c("nofinal") == 0) { r.fail("final: " + h.final_err); }
}

int conflicting(test_case const& c, history const& h) {
    // transactions that overlap in time and touch a common storage, one writing
    std::vector<std::pair<std::set<long>, std::set<long>>> fp(h.txs.size());
    for (auto const& t : h.txs) {
        for (int ei : t.evs) {
            auto const& e = h.evs[static_cast<std::size_t>(ei)];
            auto const& o = c.ops[static_cast<std::size_t>(e.op)];
            if (o.kind == "INS" || o.kind == "UPD" || o.kind == "UPS" || o.kind == "DEL") {
                if (e.st == Status::OK) { fp[static_cast<std::size_t>(t.id)].second.insert(o.num("st")); }
            } else if (o.kind == "GET" || o.kind == "EXI" || o.kind == "SCAN" || o.kind == "SOPEN") {
                fp[static_cast<std::size_t>(t.id)].first.insert(o.num("st"));
            }
        }
    }
    int n{0};
    for (auto const& a : h.txs) {
        for (auto const& b : h.txs) {
            if (a.id >= b.id) { continue; }
            if (a.out != outcome::committed || b.out != outcome::committed) { continue; }
            if (a.t_end < b.t_begin0 || b.t_end < a.t_begin0) { continue; }
            bool hit{false};
            auto const& x = fp[static_cast<std::size_t>(a.id)];
            auto const& y = fp[static_cast<std::size_t>(b.id)];
            for (long s : x.second) { hit = hit || y.first.count(s) != 0 || y.second.count(s) != 0; }
            for (long s : y.second) { hit = hit || x.first.count(s) != 0; }
            if (hit) { ++n; }
        }
    }
    return n;
}

} // namespace vp
