// Single session semantics: the map model.
#include "map_model.h"

namespace vp {

namespace {
std::string rnd_val(rng& r, long& vn, bool big) {
    if (!big) { return val(++vn); }
    long x = r.below(10);
    if (x == 0) { return {}; }
    if (x == 1) { return std::string(static_cast<std::size_t>(r.range(1, 70000)), static_cast<char>(r.below(256))); }
    std::string s = val(++vn);
    long n = r.below(x < 4 ? 3000 : 30);
    for (long i = 0; i < n; ++i) { s += static_cast<char>(r.below(256)); }
    return s;
}

} // namespace

op seq_scan(rng& r, seq_opts const& g, int s, std::string kind) {
    auto o = mk(0, s, std::move(kind));
    o.n["st"] = r.below(g.storages);
    o.n["le"] = r.below(3);
    o.n["re"] = r.below(3);
    auto a = r.pick(g.keys);
    auto b = r.pick(g.keys);
    if (b < a && r.pct(90)) { std::swap(a, b); }
    // a key at an unbounded end is ignored
    if (o.n["le"] != 2 || (r.pct(20) && a.size() < 100)) { o.s["l"] = a; }
    if (o.n["re"] != 2 || (r.pct(20) && b.size() < 100)) { o.s["r"] = b; }
    if (r.pct(20)) { o.n["max"] = r.range(1, 4); }
    if (g.reverse && r.pct(15)) {
        o.n["rev"] = 1;
        o.n["max"] = 1;
        o.n["re"] = 2;
        o.s.erase("r");
    }
    return o;
}

void seq_program(rng& r, test_case& c, seq_opts const& g) {
    long vn = 0;
    int ns = static_cast<int>(r.range(1, 3));
    c.cfg["ns"] = ns;
    c.cfg["nst"] = g.storages;
    gen_sched(r, c, false);
    gen_tuning(r, c);
    auto pause = [&](int s, int p) {
        if (!r.pct(p)) { return; }
        auto e = mk(0, s, "EPOCH");
        e.n["n"] = r.range(1, 6);
        c.ops.push_back(e);
    };
    for (int i = 0; i < g.txs; ++i) {
        int s = static_cast<int>(r.below(ns));
        auto b = mk(0, s, "BEGIN");
        long ty = i == 0 ? r.below(2) : r.pick(std::vector<long>{0, 0, 0, 0, 1, 1, 2});
        b.n["ty"] = ty;
        if (ty == 1) {
            std::vector<long> all;
            for (long k = 0; k < g.storages; ++k) { all.push_back(k); }
            b.l["wp"] = all;
            if (r.pct(25)) { b.l["rp"] = all; }
        }
        if (ty == 2) {
            auto e = mk(0, s, "EPOCH");
            e.n["n"] = 5;
            c.ops.push_back(e);
        }
        c.ops.push_back(b);
        long n = r.range(1, g.ops);
        for (long k = 0; k < n; ++k) {
            pause(s, 8);
            long w = ty == 2 ? g.w_point + g.w_scan + g.w_cursor
                             : g.w_point + g.w_scan + g.w_cursor + g.w_write;
            long x = r.below(w);
            if (x < g.w_scan) {
                c.ops.push_back(seq_scan(r, g, s, "SCAN"));
                if (r.pct(20)) { c.ops.back().n["cnt"] = r.range(1, 3); }
                continue;
            }
            x -= g.w_scan;
            if (x < g.w_cursor) {
                // one or two cursors moved alternately
                long nc = r.range(1, 2);
                std::vector<long> left;
                for (long q = 0; q < nc; ++q) {
                    auto o = seq_scan(r, g, s, "SOPEN");
                    o.n["h"] = q;
                    c.ops.push_back(o);
                    left.push_back(r.pct(70) ? 12 : r.range(1, 4));
                }
                for (int turn = 0; turn < 40; ++turn) {
                    auto q = r.below(nc);
                    if (left[static_cast<std::size_t>(q)]-- <= 0) { continue; }
                    for (auto const* kk : {"SREAD", "SNEXT"}) {
                        auto o = mk(0, s, kk);
                        o.n["h"] = q;
                        c.ops.push_back(o);
                    }
                    pause(s, 3);
                }
                for (long q = 0; q < nc; ++q) {
                    if (r.pct(20)) { continue; }
                    auto o = mk(0, s, "SCLOSE");
                    o.n["h"] = q;
                    c.ops.push_back(o);
                }
                continue;
            }
            x -= g.w_cursor;
            static std::vector<std::string> const wk{"INS", "INS", "UPD", "UPS", "UPS", "DEL", "DEL"};
            auto o = mk(0, s, x < g.w_point ? (r.pct(70) ? "GET" : "EXI") : r.pick(wk));
            o.n["st"] = r.below(g.storages);
            o.s["k"] = r.pick(g.keys);
            if (x >= g.w_point && o.kind != "DEL") { o.s["v"] = rnd_val(r, vn, g.big); }
            c.ops.push_back(o);
        }
        if (r.pct(12)) {
            c.ops.push_back(mk(0, s, "ABORT"));
        } else {
            auto o = mk(0, s, "COMMIT");
            o.n["wait"] = 1;
            c.ops.push_back(o);
        }
        pause(s, 30);
    }
}

// one transaction with more writes than fit the list kept at first
void bulk_program(rng& r, test_case& c) {
    long vn = 0;
    c.cfg["ns"] = 1;
    c.cfg["nst"] = 1;
    gen_sched(r, c, false);
    gen_tuning(r, c);
    long keys = r.range(90, 140);
    auto add = [&](std::string const& kind, long k) {
        auto o = mk(0, 0, kind);
        o.n["st"] = 0;
        o.s["k"] = "k" + std::to_string(1000 + k);
        if (kind != "DEL" && kind != "GET") { o.s["v"] = rnd_val(r, vn, false); }
        c.ops.push_back(o);
    };
    auto scan = [&]() {
        auto o = mk(0, 0, "SCAN");
        o.n["st"] = 0;
        o.n["le"] = 2;
        o.n["re"] = 2;
        c.ops.push_back(o);
    };
    auto begin = [&](long ty) {
        auto b = mk(0, 0, "BEGIN");
        b.n["ty"] = ty;
        if (ty == 1) { b.l["wp"] = {0}; }
        c.ops.push_back(b);
    };
    auto commit = [&](bool ok) {
        auto o = mk(0, 0, ok ? "COMMIT" : "ABORT");
        if (ok) { o.n["wait"] = 1; }
        c.ops.push_back(o);
    };
    begin(0);
    for (long k = 0; k < keys; ++k) {
        if (r.pct(50)) { add("UPS", k); }
    }
    commit(true);
    begin(r.pct(80) ? 0 : 1);
    long step = r.pick(std::vector<long>{1, 7, 37, 53});
    long at = r.below(keys);
    for (long k = 0; k < keys; ++k) {
        at = (at + step) % keys;
        add(r.pick(std::vector<std::string>{"UPS", "UPS", "UPD", "INS", "DEL"}), at);
        if (r.pct(25)) { add(r.pick(std::vector<std::string>{"UPS", "UPD", "DEL", "GET"}), r.below(keys)); }
        if (r.pct(1)) { scan(); }
    }
    for (long k = 0; k < 12; ++k) { add(r.pick(std::vector<std::string>{"GET", "UPS", "DEL"}), r.below(keys)); }
    if (r.pct(60)) { scan(); }
    commit(r.pct(85));
    begin(0);
    scan();
    commit(true);
}

std::vector<std::string> plain_keys(long n) {
    std::vector<std::string> v;
    for (long i = 0; i < n; ++i) { v.push_back(key_n(i)); }
    return v;
}

result model_eval(test_case const& c, std::function<bool(map_model const&)> const& nontrivial) {
    return simple(c, [&](test_case const& cc, history& h, result& r) {
        judge_common(cc, h, r);
        if (r.bad) { return; }
        map_model m(cc, h, r);
        if (!m.run()) {
            r.bad = false;
            r.classes.emplace_back("overlap");
            return;
        }
        r.nontrivial = nontrivial(m);
        bool l{false};
        bool ro{false};
        for (auto const& t : h.txs) {
            if (t.out != outcome::committed) { continue; }
            l = l || t.type == 1;
            ro = ro || t.type == 2;
        }
        if (l) { r.classes.emplace_back("long"); }
        if (ro) { r.classes.emplace_back("read-only"); }
        if (m.own > 0) { r.classes.emplace_back("own-write-read"); }
        if (m.scans > 0) { r.classes.emplace_back("scan"); }
    });
}

namespace {

// ---------------------------------------------------------------- A01

reg a01{{"A01", "some key was written and read or written again by the same transaction",
         [](rng& r, long idx, bool) {
             test_case c;
             if (idx % 40 == 17) {
                 bulk_program(r, c);
                 return c;
             }
             seq_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.txs = static_cast<int>(r.range(2, 7));
             g.ops = static_cast<int>(r.pick(std::vector<long>{5, 10, 16}));
             g.keys = plain_keys(r.range(1, 6));
             g.w_scan = r.pct(70) ? 0 : 8;
             seq_program(r, c, g);
             return c;
         },
         [](test_case const& c) {
             return model_eval(c, [](map_model const& m) { return m.own > 0 || m.writes > 4; });
         }}};

// ---------------------------------------------------------------- A02

reg a02{{"A02", "at least one scan was compared row by row",
         [](rng& r, long idx, bool) {
             test_case c;
             if (idx % 40 == 23) {
                 bulk_program(r, c);
                 return c;
             }
             seq_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.txs = static_cast<int>(r.range(2, 6));
             g.ops = static_cast<int>(r.pick(std::vector<long>{5, 10}));
             g.keys = plain_keys(r.range(2, 12));
             g.w_point = 2;
             g.w_scan = 25;
             g.w_cursor = 12;
             g.reverse = true;
             seq_program(r, c, g);
             return c;
         },
         [](test_case const& c) { return model_eval(c, [](map_model const& m) { return m.scans > 0; }); }}};

// ---------------------------------------------------------------- A05

std::vector<std::string> byte_keys(rng& r, long n) {
    std::vector<std::string> v;
    std::size_t const lim = 30U * 1024U;
    auto any = [&](long len) {
        std::string s;
        for (long i = 0; i < len; ++i) {
            s += r.pct(30) ? static_cast<char>(r.pick(std::vector<long>{0, 1, 127, 128, 255}))
                           : static_cast<char>(r.below(256));
        }
        return s;
    };
    while (static_cast<long>(v.size()) < n) {
        long x = r.below(12);
        if (x == 0) {
            v.emplace_back();
        } else if (x == 1) {
            v.push_back(std::string(lim + static_cast<std::size_t>(r.range(0, 2)), static_cast<char>(r.below(256))));
        } else if (x == 2) {
            v.push_back(std::string(lim - static_cast<std::size_t>(r.range(0, 2)), static_cast<char>(r.below(256))));
        } else if (x < 8 && !v.empty()) {
            // neighbour of an existing key
            auto b = r.pick(v);
            if (b.size() < 1000) {
                long y = r.below(5);
                if (y == 0) {
                    b += '\0';
                } else if (y == 1) {
                    b += any(r.range(1, 9));
                } else if (y == 2 && !b.empty()) {
                    b.pop_back();
                } else if (y == 3 && !b.empty()) {
                    b.back() = static_cast<char>(b.back() + 1);
                } else if (!b.empty()) {
                    b[static_cast<std::size_t>(r.below(static_cast<long>(b.size())))] ^=
                            static_cast<char>(0x80);
                }
            }
            v.push_back(b);
        } else {
            v.push_back(any(r.pick(std::vector<long>{1, 2, 7, 8, 9, 15, 16, 17, 40})));
        }
    }
    return v;
}

reg a05{{"A05", "a key or value with a byte outside letters and digits, or of an extreme length, was used",
         [](rng& r, long, bool) {
             test_case c;
             seq_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.txs = static_cast<int>(r.range(2, 5));
             g.ops = 10;
             g.keys = byte_keys(r, r.range(2, 9));
             g.w_scan = 12;
             g.w_cursor = 3;
             g.big = r.pct(60);
             g.reverse = r.pct(30);
             seq_program(r, c, g);
             return c;
         },
         [](test_case const& c) { return model_eval(c, [](map_model const& m) { return m.writes + m.scans > 0; }); }}};

} // namespace
} // namespace vp
