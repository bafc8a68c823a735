// Sessions, misuse, shared transactions and options.
#include <algorithm>
#include <map>
#include <set>
#include <sstream>

#include "props.h"

namespace vp {
namespace {

constexpr int max_sessions = KVS_MAX_PARALLEL_THREADS;

/// text of what the calls of a phase gave, without addresses and identifiers
std::string phase(test_case const& c, history const& h, long run, bool contents) {
    std::string o;
    for (auto const& e : h.evs) {
        auto const& p = op_of(c, e);
        if (p.num("run") != run) { continue; }
        op q = p;
        if (q.n.count("as") != 0) { q.sess = static_cast<int>(q.num("as")); }
        o += to_text(q) + " -> " + (e.skipped ? "skipped" : stname(e.st));
        if (p.kind != "ENTER" && p.kind != "STACQ") {
            for (auto x : e.n) { o += " " + std::to_string(x); }
        }
        if (p.kind != "TXID") {
            for (auto const& x : e.s) { o += " '" + esc(x) + "'"; }
        }
        for (auto const& x : e.rows) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
        o += "\n";
    }
    if (contents) {
        for (std::size_t i = 0; i < h.final_rows.size(); ++i) {
            o += "storage " + std::to_string(i) + ":";
            for (auto const& x : h.final_rows[i]) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
            o += "\n";
        }
    }
    return o;
}

/// first line in which two texts differ
std::string first_difference(std::string const& x, std::string const& y, char const* a, char const* b) {
    std::size_t i{0};
    while (i < x.size() && i < y.size() && x[i] == y[i]) { ++i; }
    auto s = i == 0 ? std::string::npos : x.rfind('\n', i - 1);
    s = s == std::string::npos ? 0 : s + 1;
    return std::string(a) + ": " + x.substr(s, x.find('\n', i) - s) + "\n  " + b + ": " +
           y.substr(s, y.find('\n', i) - s);
}

// ---------------------------------------------------------------- A07

/// how long a session was held for certain and at most
struct hold {
    long tok{0};
    std::uint64_t from0{0}, from1{0}, to0{UINT64_MAX}, to1{UINT64_MAX};
};

void judge_tokens(test_case const& c, history const& h, result& r) {
    std::map<int, hold> cur;
    std::vector<hold> all;
    std::set<int> gone;
    for (auto const& e : h.evs) {
        auto const& p = op_of(c, e);
        if (e.skipped) { continue; }
        if (p.kind == "ENTER" && e.st == Status::OK) {
            cur[e.sess] = hold{e.n.at(0), e.t0, e.t1, UINT64_MAX, UINT64_MAX};
        } else if (p.kind == "LEAVE") {
            auto want = Status::OK;
            if (p.num("bad") != 0) {
                want = Status::WARN_INVALID_ARGS;
            } else if (cur.count(e.sess) == 0) {
                continue; // the token may be somebody else's by now
            }
            if (e.st != want) {
                r.fail("LEAVE gave " + stname(e.st) + ", expected " + stname(want));
                return;
            }
            if (want != Status::OK) { continue; }
            auto x = cur[e.sess];
            x.to0 = e.t0;
            x.to1 = e.t1;
            all.push_back(x);
            cur.erase(e.sess);
        }
    }
    for (auto const& [s, x] : cur) { all.push_back(x); }
    for (std::size_t i = 0; i < all.size(); ++i) {
        for (std::size_t j = i + 1; j < all.size(); ++j) {
            if (all[i].tok == all[j].tok && all[i].from1 < all[j].to0 && all[j].from1 < all[i].to0) {
                r.fail("one session was held twice at a time");
                return;
            }
        }
    }
    for (auto const& e : h.evs) {
        auto const& p = op_of(c, e);
        if (e.skipped || p.kind != "ENTER" || e.st == Status::OK) { continue; }
        if (e.st != Status::ERR_SESSION_LIMIT) {
            r.fail("ENTER gave " + stname(e.st));
            return;
        }
        r.classes.emplace_back("limit");
        // everything that may have been held during the call; others may be
        // asking at the same time
        std::set<long> may;
        for (auto const& x : all) {
            if (x.from0 < e.t1 && x.to1 > e.t0) { may.insert(x.tok); }
        }
        if (static_cast<int>(may.size()) < max_sessions) {
            r.fail("a session was refused while only " + std::to_string(may.size()) + " were held");
            return;
        }
    }
    for (auto const& x : all) {
        int n{0};
        for (auto const& y : all) { n += y.from1 <= x.from1 && y.to0 > x.from1 ? 1 : 0; }
        if (n > max_sessions) {
            r.fail(std::to_string(n) + " sessions were held at once");
            return;
        }
    }
}

/// many sessions taken and given back by several threads
test_case gen_limit(rng& r) {
    test_case c;
    c.cfg["noenter"] = 1;
    c.cfg["nst"] = 0;
    c.cfg["limit"] = 1;
    c.cfg["nofinal"] = 1;
    int nthr = static_cast<int>(r.range(1, 3));
    c.cfg["ns"] = 48;
    c.cfg["thr"] = nthr;
    gen_sched(r, c, true);
    int const own = 48 / (nthr + 1);
    // the first ones are taken by the main thread and kept
    long kept = std::min<long>(own, r.pick(std::vector<long>{0, 4, 10, 16, 24}));
    for (long i = 0; i < kept; ++i) { c.ops.push_back(mk(0, static_cast<int>(i), "ENTER")); }
    for (int t = 1; t <= nthr; ++t) {
        int base = own * t;
        std::vector<char> in(static_cast<std::size_t>(own), 0);
        long n = r.range(6, 40);
        int up = r.pct(50) ? 85 : 60;
        for (long i = 0; i < n; ++i) {
            auto k = static_cast<std::size_t>(r.below(own));
            bool enter = r.pct(up);
            for (std::size_t j = 0; j < in.size(); ++j) {
                if ((in[k] == 0) == enter) { break; }
                k = (k + 1) % in.size();
            }
            auto o = mk(t, base + static_cast<int>(k), in[k] == 0 ? "ENTER" : "LEAVE");
            in[k] = in[k] == 0 ? 1 : 0;
            if (o.kind == "LEAVE" && r.pct(5)) {
                o.n["bad"] = 1;
                in[k] = 1;
            }
            c.ops.push_back(o);
        }
    }
    return c;
}

/// a session given back with something unfinished, then used again; the other
/// run uses a session nobody has used
test_case gen_reuse(rng& r) {
    test_case c;
    gen_opts g;
    g.storages = static_cast<int>(r.range(1, 2));
    g.keys = 3;
    g.p_long = 45;
    g.p_ro = 20;
    g.p_short = 45;
    g.read_area = r.pct(50);
    g.wait_commit = false;
    g.min_ops = 1;
    g.max_ops = 4;
    g.reverse = true;
    c.cfg["ns"] = 4;
    c.cfg["nst"] = g.storages;
    c.cfg["twin"] = 1;
    gen_tuning(r, c);
    c.cfg.erase("e_bypass");
    c.cfg.erase("e_bypassroot");
    c.cfg["pol"] = 0;
    c.cfg["tick"] = 0;
    c.cfg["turns"] = 1;
    c.cfg["sseed"] = static_cast<long>(r.next() & 0xffffffU);
    long vn{0};
    std::vector<op> load;
    gen_load(r, g, vn, load, 60);
    for (auto& o : load) { o.sess = 3; }
    c.ops = load;
    auto mix = [&](std::vector<int> const& sess, long txs, long run, bool cut) {
        // interleaved transactions of these sessions
        std::map<int, std::vector<op>> q;
        for (long i = 0; i < txs; ++i) {
            int s = r.pick(sess);
            gen_tx(r, g, 0, s, vn, q[s]);
            auto& v = q[s];
            if (v.back().kind == "COMMIT" && r.pct(30)) { v.push_back(mk(0, s, "RESULT")); }
        }
        for (auto& [s, v] : q) {
            // calls that are not needed for the contents
            std::vector<op> w;
            bool open{false};
            bool cursor{false};
            bool acquired{false};
            for (auto& o : v) {
                if (cursor && (is_write(o.kind) || o.kind == "COMMIT" || o.kind == "ABORT")) {
                    if (is_write(o.kind)) { continue; } // not with a cursor open
                    cursor = false;
                }
                w.push_back(o);
                if (o.kind == "BEGIN") {
                    open = true;
                    acquired = false;
                    if (r.pct(20)) {
                        auto a = mk(0, s, "STACQ");
                        a.n["h"] = s;
                        w.push_back(a);
                        acquired = true;
                    }
                } else if (o.kind == "COMMIT" || o.kind == "ABORT") {
                    open = false;
                } else if (open && !cursor && r.pct(15)) {
                    auto so = gen_scan(r, g, 0, s);
                    so.kind = "SOPEN";
                    so.n.erase("rev");
                    so.n["h"] = 0;
                    w.push_back(so);
                    cursor = true;
                } else if (cursor && r.pct(50)) {
                    auto sr = mk(0, s, r.pick(std::vector<std::string>{"SKEY", "SVAL", "SNEXT"}));
                    sr.n["h"] = 0;
                    w.push_back(sr);
                }
                if (acquired && r.pct(20)) {
                    auto a = mk(0, s, "STCHK");
                    a.n["h"] = s;
                    w.push_back(a);
                }
            }
            if (cut && s == 1 && r.pct(70)) { w.resize(static_cast<std::size_t>(r.range(1, static_cast<long>(w.size())))); }
            v = w;
        }
        bool any{true};
        while (any) {
            any = false;
            std::vector<int> live;
            for (auto& [s, v] : q) {
                if (!v.empty()) { live.push_back(s); }
            }
            if (live.empty()) { break; }
            int s = r.pick(live);
            auto& v = q[s];
            long n = r.range(1, 3);
            for (long i = 0; i < n && !v.empty(); ++i) {
                auto o = v.front();
                v.erase(v.begin());
                o.n["run"] = run;
                c.ops.push_back(o);
            }
            any = true;
        }
    };
    mix({1, 1, 2, 3}, r.range(2, 5), 0, true);
    auto put = [&](op o, long run) {
        o.n["run"] = run;
        c.ops.push_back(o);
    };
    bool closed = r.pct(70);
    if (closed) {
        put(mk(0, 2, "ABORT"), 0);
        put(mk(0, 3, "ABORT"), 0);
    }
    auto rel = mk(0, 1, "STREL");
    rel.n["h"] = 1;
    if (r.pct(50)) { put(rel, 0); }
    auto lv = mk(0, 1, "LEAVE");
    if (closed) { lv.n["pend"] = 1; }
    put(lv, 0);
    if (r.pct(30)) {
        auto o = mk(0, 2, "EPOCH");
        o.n["n"] = r.range(1, 6);
        put(o, 0);
    }
    put(mk(0, 1, "ENTER"), 0);
    if (r.pct(30)) { put(mk(0, 1, "RESULT"), 1); }
    if (r.pct(20)) {
        // without a transaction
        auto o = gen_read(r, g, 0, 1);
        o.n["any"] = 1;
        put(o, 1);
    }
    mix({1, 1, 1, 2, 3}, r.range(2, 5), 1, false);
    return c;
}

result eval_reuse(test_case const& c) {
    auto run = [&](test_case const& cc) {
        return in_child([&]() {
            history h;
            run_case(cc, h);
            result r;
            judge_common(cc, h, r);
            if (r.bad) { return "!" + r.why; }
            for (auto const& e : h.errlogs) { return "!log: " + e; }
            judge_tokens(cc, h, r);
            if (r.bad) { return "!" + r.why; }
            bool left{false};
            bool used{false};
            bool again{false};
            for (auto const& e : h.evs) {
                auto const& p = op_of(cc, e);
                if (e.skipped) { continue; }
                if (p.kind == "LEAVE" && e.tx >= 0) { left = true; }
                if (p.num("run") == 1 && p.kind == "COMMIT") { used = true; }
                if (p.kind == "ENTER" && p.num("run") == 0 && e.t0 > 0 && p.sess == 1) { again = true; }
            }
            if (!again) { return std::string("-"); } // still waiting: not given back
            return std::string(left && used ? "1" : "0") + phase(cc, h, 1, true);
        });
    };
    test_case a = c;
    auto half = mk(0, 0, "SLEEP");
    half.n["us"] = c.c("epoch", 1000) / 2;
    a.ops.insert(a.ops.begin(), half);
    test_case b = a;
    for (auto& o : b.ops) {
        if (o.num("run") == 1 && o.sess == 1) {
            o.sess = 0;
            o.n["as"] = 1;
        }
    }
    for (auto& o : a.ops) {
        if (o.num("run") == 1 && o.sess == 1) { o.n["as"] = 1; }
    }
    result r;
    auto x = run(a);
    if (child_failed(x, r)) { return r; }
    auto y = run(b);
    if (child_failed(y, r)) { return r; }
    if (x.text[0] == '!' || y.text[0] == '!') {
        r.fail((x.text[0] == '!' ? x.text : y.text).substr(1));
        return r;
    }
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = x.text + "-----\n" + y.text; }
    r.classes.emplace_back("twin");
    r.nontrivial = x.text[0] == '1';
    if (x.text == "-" || y.text == "-") { return r; }
    if (x.text.substr(1) != y.text.substr(1)) {
        r.fail(first_difference(x.text.substr(1), y.text.substr(1), "session used before", "unused session"));
    }
    return r;
}

/// a session given back around the time its submitted commit is answered
test_case gen_late(rng& r) {
    test_case c;
    c.cfg["ns"] = 3;
    c.cfg["nst"] = 2;
    c.cfg["thr"] = 2;
    gen_sched(r, c, true);
    gen_tuning(r, c);
    c.cfg.erase("e_bypass");
    c.cfg.erase("e_bypassroot");
    c.cfg["epoch"] = 300;
    long vn{0};
    auto add = [&](int s, char const* k) -> op& {
        c.ops.push_back(mk(s, s, k));
        return c.ops.back();
    };
    auto pause = [&](int s, long lo, long hi) { add(s, "SLEEP").n["us"] = r.range(lo, hi) * 10; };
    auto write = [&](int s, long st) {
        auto& o = add(s, "UPS");
        o.n["st"] = st;
        o.s["k"] = key_n(r.below(2));
        o.s["v"] = val(++vn);
    };
    auto read = [&](int s, long st) {
        auto& o = add(s, "GET");
        o.n["st"] = st;
        o.s["k"] = key_n(r.below(2));
    };
    auto& b = add(1, "BEGIN");
    b.n["ty"] = 1;
    b.l["wp"] = {0};
    write(1, 0);
    pause(1, 60, 150);
    add(1, "COMMIT").n["arm"] = r.range(1, 3000);
    pause(2, 10, 30);
    auto& d = add(2, "BEGIN");
    d.n["ty"] = 1;
    d.l["wp"] = {1};
    read(2, 0);
    write(2, 1);
    bool twice = r.pct(50);
    if (twice) {
        // the next one waits as well
        add(2, "COMMIT").n["wait"] = 1;
        auto& f = add(1, "BEGIN");
        f.n["ty"] = 1;
        f.l["wp"] = {0};
        write(1, 0);
        pause(1, 100, 300);
        add(1, "COMMIT");
        auto& k = add(2, "BEGIN");
        k.n["ty"] = r.pct(75) ? 1 : r.pct(50) ? 0 : 2;
        bool writes = k.n["ty"] != 2;
        if (k.n["ty"] == 1) { k.l["wp"] = {1}; }
        read(2, 0);
        if (writes) { write(2, 1); }
        if (r.pct(85)) { add(2, "COMMIT"); }
    } else {
        add(2, "COMMIT");
        pause(2, 0, 150);
    }
    add(2, "LEAVE").n["pend"] = 1;
    add(2, "ENTER");
    long n = r.range(1, 3);
    for (long i = 0; i < n; ++i) {
        auto& e = add(2, "BEGIN");
        e.n["ty"] = r.pct(75) ? 0 : 1;
        if (e.n["ty"] == 1) { e.l["wp"] = {1}; }
        if (r.pct(50)) { read(2, r.below(2)); }
        write(2, 1);
        if (r.pct(40)) { add(2, "RESULT"); }
        add(2, r.pct(85) ? "COMMIT" : "ABORT");
        if (r.pct(40)) { add(2, "RESULT"); }
        if (r.pct(30)) {
            add(2, "LEAVE").n["pend"] = 1;
            add(2, "ENTER");
        }
    }
    c.cfg["stallus"] = 300 * r.range(1, 8);
    return c;
}

void judge_a07(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    for (auto const& e : h.errlogs) { r.fail("log: " + e); }
    judge_tokens(c, h, r);
    if (r.bad) { return; }
    if (c.c("limit") != 0) {
        long n{0};
        for (auto const& e : h.evs) { n += !e.skipped && op_of(c, e).kind == "ENTER" ? 1 : 0; }
        r.nontrivial = n >= 4;
        return;
    }
    classify(c, h, r);
    for (auto const& q : h.reqs) {
        if (q.cb->count != 1) {
            r.fail("notifications of one commit request: " + std::to_string(q.cb->count));
            return;
        }
    }
    // a transaction that did not fail has no reason
    for (auto const& e : h.evs) {
        if (e.skipped || op_of(c, e).kind != "RESULT" || e.n.empty()) { continue; }
        txn const* last{nullptr};
        bool open{false};
        for (auto const& t : h.txs) {
            if (t.sess != e.sess || t.t_begin0 > e.t1) { continue; }
            last = &t;
            open = t.out == outcome::open || t.t_end > e.t0;
        }
        if (last == nullptr || (open && last->commit_called && last->t_commit0 < e.t1)) { continue; }
        bool fresh = std::any_of(h.evs.begin(), h.evs.end(), [&](ev const& x) {
            return !x.skipped && x.sess == e.sess && op_of(c, x).kind == "ENTER" && x.t0 > last->t_begin1 &&
                   x.t1 < e.t0;
        });
        if (fresh) {
            if (e.n[0] != 0) {
                r.fail("reason " + std::to_string(e.n[0]) + " before the first transaction of a session");
                return;
            }
            continue;
        }
        if ((open || last->out == outcome::committed) && e.n[0] != 0) {
            r.fail("reason " + std::to_string(e.n[0]) + " of a transaction that did not fail");
            return;
        }
        if (!open && last->out == outcome::aborted && last->cb && last->commit_called && !last->user_abort &&
            last->cb->reason != e.n[0]) {
            r.fail("notified reason " + std::to_string(last->cb->reason) + ", recorded " + std::to_string(e.n[0]));
            return;
        }
    }
    bool left{false};
    for (auto const& e : h.evs) {
        if (!e.skipped && op_of(c, e).kind == "LEAVE" && e.tx >= 0) { left = true; }
    }
    r.nontrivial = left;
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail(w); }
}

reg const a07{{"A07",
               "sessions were taken at least four times (limits), or a session was given back with a "
               "transaction open or submitted (other cases)",
               [](rng& r, long idx, bool) {
                   if (idx % 8 == 0) { return gen_limit(r); }
                   if (idx % 8 == 3) { return gen_late(r); }
                   if (idx % 2 == 0) { return gen_reuse(r); }
                   gen_opts g;
                   g.storages = static_cast<int>(r.range(1, 2));
                   g.keys = 3;
                   g.min_ops = 1;
                   g.max_ops = 3;
                   g.p_abort = 5;
                   g.p_short = 35;
                   g.p_long = 55;
                   g.p_ro = 10;
                   g.wait_commit = false;
                   auto c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(2, 4)));
                   c.cfg.erase("e_bypass");
                   c.cfg.erase("e_bypassroot");
                   std::vector<op> out;
                   for (auto& o : c.ops) {
                       out.push_back(o);
                       if (o.thr == 0) { continue; }
                       bool edge = o.kind == "COMMIT" || o.kind == "ABORT";
                       if (r.pct(edge ? 70 : 8)) {
                           if (r.pct(50)) {
                               auto z = mk(o.thr, o.sess, "SLEEP");
                               z.n["us"] = r.range(1, 30) * 100;
                               out.push_back(z);
                           }
                           auto l = mk(o.thr, o.sess, "LEAVE");
                           l.n["pend"] = 1;
                           out.push_back(l);
                           out.push_back(mk(o.thr, o.sess, "ENTER"));
                       }
                       if (r.pct(15)) { out.push_back(mk(o.thr, o.sess, "RESULT")); }
                   }
                   c.ops = out;
                   if (r.pct(60)) {
                       c.cfg["stall"] = r.range(1, 9000);
                       c.cfg["stallus"] = c.c("epoch", 1000) * r.range(1, 6);
                   }
                   return c;
               },
               [](test_case const& c) {
                   return c.c("twin") != 0 ? eval_reuse(c) : simple(c, judge_a07);
               }}};

// ---------------------------------------------------------------- A03

test_case gen_a03(rng& r, long idx, bool) {
    test_case c;
    if (idx % 4 == 3) {
        c = gen_chain(r, 30);
    } else if (idx % 8 == 5) {
        c = gen_ranges(r, 40);
    } else {
        gen_opts g;
        g.storages = static_cast<int>(r.range(1, 3));
        g.keys = static_cast<int>(r.range(2, 5));
        g.max_ops = 5;
        g.w_scan = 30;
        g.p_epoch = static_cast<int>(r.pick(std::vector<long>{10, 30}));
        g.read_area = r.pct(30);
        if (r.pct(30)) { g.p_long = 60; }
        c = gen_interleaved(r, g, static_cast<int>(r.range(1, 4)), static_cast<int>(r.range(3, 7)));
    }
    for (auto& o : c.ops) {
        o.n.erase("max");
        o.n.erase("rev");
        o.n.erase("w");
        o.n.erase("cnt");
    }
    c.cfg["tick"] = 0;
    c.cfg["turns"] = 1;
    // the other configuration
    auto x = [&](std::string const& k, long v) { c.cfg["x_" + k] = v; };
    bool any{false};
    while (!any) {
        if (r.pct(55)) {
            x("iscan", 1 - c.c("iscan"));
            any = true;
        }
        if (r.pct(25)) {
            x("res", c.c("res", 2) % 3 + 1);
            any = true;
        }
        if (r.pct(25)) {
            x("e_gc", 1 - c.c("e_gc", 1));
            any = true;
        }
        if (r.pct(25)) {
            x("epoch", r.pick(std::vector<long>{400, 2000, 10000}));
            any = true;
        }
        if (r.pct(15)) {
            x("e_fast", 1);
            any = true;
        }
        if (r.pct(15)) {
            x("e_rtx", 0);
            any = true;
        }
#ifdef PWAL
        if (r.pct(40)) {
            x("e_buf", 1);
            any = true;
        }
#endif
    }
    return c;
}

result eval_a03(test_case const& c) {
    auto run = [&](test_case const& cc) {
        return in_child([&]() {
            history h;
            run_case(cc, h);
            result r;
            judge_common(cc, h, r);
            if (r.bad) { return "!" + r.why; }
            std::string o;
            int work{0};
            for (auto const& e : h.evs) {
                if (e.op < 0) { continue; }
                auto const& p = op_of(cc, e);
                if (p.kind == "SLEEP" || p.kind == "EPOCH") { continue; }
                auto st = e.skipped ? "skipped" : stname(e.st);
                // an empty range may be reported at open or at the first read
                if (p.kind == "SCAN" && !e.skipped && e.st == Status::OK && e.rows.empty()) {
                    st = stname(Status::WARN_NOT_FOUND);
                }
                o += std::to_string(e.op) + " " + to_text(p) + " -> " + st;
                for (auto const& x : e.s) { o += " '" + esc(x) + "'"; }
                for (auto const& x : e.rows) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
                o += "\n";
                if (p.kind == "SCAN" || p.kind == "GET") { work |= e.skipped ? 0 : 1; }
            }
            for (auto const& t : h.txs) {
                if (t.out == outcome::committed) { work |= 2; }
                o += "transaction " + std::to_string(t.id) + (t.out == outcome::committed ? " committed" : t.out == outcome::aborted ? " aborted" : " open") + "\n";
            }
            for (std::size_t i = 0; i < h.final_rows.size(); ++i) {
                o += "storage " + std::to_string(i) + ":";
                for (auto const& x : h.final_rows[i]) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
                o += "\n";
            }
            return std::string(work == 3 ? "1" : "0") + o;
        });
    };
    test_case a = c;
    auto off = mk(0, 0, "SLEEP");
    off.n["us"] = c.c("epoch", 1000) / 4;
    a.ops.insert(a.ops.begin(), off);
    test_case b = a;
    for (auto it = c.cfg.begin(); it != c.cfg.end(); ++it) {
        if (it->first.rfind("x_", 0) != 0) { continue; }
        a.cfg.erase(it->first);
        b.cfg.erase(it->first);
        b.cfg[it->first.substr(2)] = it->second;
    }
    for (auto& o : b.ops) {
        if (o.kind == "SLEEP") { o.n["us"] = o.num("us") * b.c("epoch", 1000) / c.c("epoch", 1000); }
    }
    result r;
    auto x = run(a);
    if (child_failed(x, r)) { return r; }
    auto y = run(b);
    if (child_failed(y, r)) { return r; }
    if (x.text[0] == '!' || y.text[0] == '!') {
        r.fail((x.text[0] == '!' ? x.text : y.text).substr(1));
        return r;
    }
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = x.text + "-----\n" + y.text; }
    for (auto const& [k, v] : c.cfg) {
        if (k.rfind("x_", 0) == 0) { r.classes.emplace_back(k.substr(2)); }
    }
    r.nontrivial = x.text[0] == '1';
    if (x.text != y.text) {
        r.fail(first_difference(x.text.substr(1), y.text.substr(1), "one configuration", "the other"));
    }
    return r;
}

reg const a03{{"A03", "a read or scan was compared and some transaction committed", gen_a03, eval_a03}};

// ---------------------------------------------------------------- A04

std::size_t const long_key = 30U * 1024U + 1U;

/// which calls have to be refused, and how
struct refusals {
    test_case const& c;
    history const& h;
    std::map<int, int> cur;                   // session -> last transaction
    std::map<int, bool> submitted;            // session -> its commit was submitted
    std::map<int, std::set<std::uint64_t>> scans; // session -> open cursors
    std::set<std::uint64_t> states;           // state handles acquired and not released
    std::set<int> gone;                       // sessions given back
    bool alias{false};

    txn const* open(ev const& e) const {
        auto it = cur.find(e.sess);
        if (it == cur.end()) { return nullptr; }
        auto const& t = h.txs[ix(it->second)];
        return t.out == outcome::open || t.t_end == 0 || t.t_end > e.t0 ? &t : nullptr;
    }

    /// statuses one of which has to be returned; empty: a call that is in order
    std::vector<Status> of(ev const& e) {
        auto const& o = op_of(c, e);
        auto const& k = o.kind;
        auto const* t = open(e);
        std::vector<Status> w;
        bool const missing = o.n.count("st") != 0 && o.num("st") >= 1000;
        if (k == "BEGIN") {
            if (t != nullptr) { w.push_back(Status::WARN_ALREADY_BEGIN); }
            if (!o.list("wp").empty() && o.num("ty") != 1) { w.push_back(Status::WARN_ILLEGAL_OPERATION); }
            for (long x : o.list("wp")) {
                if (x >= 1000 && o.num("ty") == 1) { w.push_back(Status::WARN_INVALID_ARGS); }
            }
            return w;
        }
        bool const pending = t != nullptr && submitted[e.sess];
        if (k == "COMMIT" || k == "COMMITO" || k == "ABORT") {
            if (t == nullptr) { return {Status::WARN_NOT_BEGIN}; }
            if (pending) {
                w.push_back(Status::WARN_ILLEGAL_OPERATION);
                if (k == "COMMITO") { w.push_back(Status::WARN_WAITING_FOR_OTHER_TX); }
            }
            return w;
        }
        if (k == "LEAVE") {
            if (o.num("bad") != 0) { return {Status::WARN_INVALID_ARGS}; }
            if (gone.count(e.sess) != 0) { return {Status::WARN_NOT_IN_A_SESSION}; }
            return w;
        }
        if (k == "STCHK" || k == "STREL") {
            if (states.count(e.handle) == 0) { return {Status::WARN_INVALID_HANDLE}; }
            return w;
        }
        if (k == "CRS") {
            if (o.str("name").size() >= long_key) { return {Status::WARN_INVALID_KEY_LENGTH}; }
            return {Status::WARN_ALREADY_EXISTS};
        }
        if (k == "GTS" && o.str("name")[0] == '?') { return {Status::WARN_NOT_FOUND}; }
        if (k == "DLS" && missing) { return {Status::WARN_INVALID_HANDLE}; }
        if ((k == "GOP" || k == "SOP") && missing) { return {Status::WARN_NOT_FOUND, Status::ERR_FATAL}; }
        if (k == "SQR" || k == "SQD") { return {Status::WARN_NOT_FOUND}; }
        bool const data = is_read(k) || is_write(k);
        bool const cursor = k == "SREAD" || k == "SKEY" || k == "SVAL" || k == "SNEXT" || k == "SCLOSE" || k == "SSIZE";
        if (!data && !cursor && k != "TXID" && k != "PRIO" && k != "STACQ" && k != "SQU") { return w; }
        if (t == nullptr) { w.push_back(Status::WARN_NOT_BEGIN); }
        if (cursor && scans[e.sess].count(e.handle) == 0) { w.push_back(Status::WARN_INVALID_HANDLE); }
        if (data) {
            if (missing) { w.push_back(Status::WARN_STORAGE_NOT_FOUND); }
            for (auto const* a : {"k", "l", "r"}) {
                if (o.str(a).size() >= long_key) { w.push_back(Status::WARN_INVALID_KEY_LENGTH); }
            }
        }
        if (t != nullptr && is_write(k)) {
            if (t->type == 2) { w.push_back(Status::WARN_ILLEGAL_OPERATION); }
            if (t->type == 1 && std::find(t->wp.begin(), t->wp.end(), o.num("st")) == t->wp.end()) {
                w.push_back(Status::WARN_WRITE_WITHOUT_WP);
            }
        }
        if (t != nullptr && k == "PRIO" && t->type != 1) { w.push_back(Status::WARN_INVALID_ARGS); }
        // the transaction may not have started
        if (!w.empty() && t != nullptr && t->type != 0 && data) { w.push_back(Status::WARN_PREMATURE); }
        return w;
    }

    void follow(ev const& e) {
        auto const& o = op_of(c, e);
        auto const& k = o.kind;
        if (k == "BEGIN" && e.st == Status::OK) {
            cur[e.sess] = e.tx;
            submitted[e.sess] = false;
            scans[e.sess].clear();
        } else if (k == "COMMIT" && e.st == Status::WARN_WAITING_FOR_OTHER_TX) {
            submitted[e.sess] = true;
        } else if (k == "SOPEN" && e.st == Status::OK) {
            if (!scans[e.sess].insert(e.handle).second) { alias = true; }
        } else if (k == "SCLOSE" && e.st == Status::OK) {
            scans[e.sess].erase(e.handle);
        } else if (k == "STACQ" && (e.st == Status::OK || e.st == Status::WARN_ALREADY_EXISTS)) {
            states.insert(e.handle);
        } else if (k == "STREL" && e.st == Status::OK) {
            states.erase(e.handle);
        } else if (k == "LEAVE" && e.st == Status::OK) {
            gone.insert(e.sess);
            cur.erase(e.sess);
            scans[e.sess].clear();
        } else if (k == "ENTER" && e.st == Status::OK) {
            gone.erase(e.sess);
        }
    }
};

std::string misuse_run(test_case const& c) {
    history h;
    run_case(c, h);
    result r;
    judge_common(c, h, r);
    if (r.bad) { return "!" + r.why; }
    refusals m{c, h};
    std::string o;
    std::set<std::string> kinds;
    for (auto const& e : h.evs) {
        auto const& p = op_of(c, e);
        if (e.skipped) { continue; }
        auto w = m.of(e);
        if (m.alias) { return "-"; }
        auto text = to_text(p) + " -> " + stname(e.st);
        if (!w.empty()) {
            // reading key and value together shows no status
            if (p.kind == "SREAD" && e.rows.empty() && !e.n.empty()) { w.push_back(e.st); }
            if (std::find(w.begin(), w.end(), e.st) == w.end()) {
                return "!" + text + ", expected " + stname(w[0]);
            }
            if (p.kind == "COMMIT" && e.n.size() > 1 && (e.n[0] != 1 || e.n[1] != 1)) {
                return "!a refused second commit was not answered at once";
            }
            o += "R" + std::to_string(e.op) + " " + stname(e.st) + "\n";
            continue;
        }
        m.follow(e);
        if (p.kind != "ENTER" && p.kind != "STACQ" && p.kind != "DIAG") {
            for (auto x : e.n) { text += " " + std::to_string(x); }
        }
        if (p.kind != "TXID") {
            for (auto const& x : e.s) { text += " '" + esc(x) + "'"; }
        }
        for (auto const& x : e.rows) { text += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
        o += "V" + text + "\n";
    }
    for (auto const& t : h.txs) {
        o += "Vtransaction " + std::to_string(t.id) + " -> " + std::to_string(static_cast<int>(t.out)) + " " +
             stname(t.end_st) + "\n";
    }
    for (std::size_t i = 0; i < h.final_rows.size(); ++i) {
        o += "Vstorage " + std::to_string(i) + ":";
        for (auto const& x : h.final_rows[i]) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
        o += "\n";
    }
    for (auto n : h.entry_counts) { o += "Ventries " + std::to_string(n) + "\n"; }
    return o;
}

result eval_misuse(test_case const& c) {
    test_case a = c;
    auto half = mk(0, 0, "SLEEP");
    half.n["us"] = c.c("epoch", 1000) / 2;
    a.ops.insert(a.ops.begin(), half);
    result r;
    auto x = in_child([&]() { return misuse_run(a); });
    if (child_failed(x, r)) { return r; }
    if (x.text == "-") { return r; }
    if (x.text[0] == '!') {
        r.fail(x.text.substr(1));
        return r;
    }
    // the same without the refused calls
    auto valid = [](std::string const& s, std::set<long>& refused, std::set<std::string>& how) {
        std::string o;
        std::istringstream is(s);
        std::string line;
        while (std::getline(is, line)) {
            if (line[0] == 'R') {
                refused.insert(std::stol(line.substr(1)));
                how.insert(line.substr(line.find(' ') + 1));
            } else {
                o += line.substr(1) + "\n";
            }
        }
        return o;
    };
    std::set<long> refused;
    std::set<long> none;
    std::set<std::string> how;
    std::set<std::string> unused;
    auto u = valid(x.text, refused, how);
    for (auto const& s : how) { r.classes.push_back(s); }
    r.nontrivial = how.size() >= 2;
    test_case b = a;
    b.ops.clear();
    for (std::size_t i = 0; i < a.ops.size(); ++i) {
        if (refused.count(static_cast<long>(i)) == 0) { b.ops.push_back(a.ops[i]); }
    }
    auto y = in_child([&]() { return misuse_run(b); });
    if (child_failed(y, r)) { return r; }
    if (y.text == "-") { return r; }
    if (y.text[0] == '!') {
        r.fail(y.text.substr(1));
        return r;
    }
    auto v = valid(y.text, none, unused);
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = x.text + "-----\n" + y.text; }
    if (u != v) { r.fail(first_difference(u, v, "with refused calls", "without them")); }
    return r;
}

/// a call that may be out of order
op gen_misuse(rng& r, gen_opts const& g, int ns, long& vn) {
    int s = static_cast<int>(r.below(ns));
    auto data = [&]() {
        auto o = mk(0, s, r.pick(std::vector<std::string>{"GET", "EXI", "INS", "UPD", "UPS", "DEL", "SCAN", "SOPEN"}));
        o.n["st"] = r.below(g.storages);
        if (o.kind == "SCAN" || o.kind == "SOPEN") {
            o.n["le"] = 1;
            o.n["re"] = r.range(0, 1);
            o.s["l"] = key_n(0);
            o.s["r"] = key_n(r.below(g.keys));
            if (o.kind == "SOPEN") { o.n["h"] = r.below(3); }
        } else {
            o.s["k"] = key_n(r.below(g.keys));
            if (is_write(o.kind) && o.kind != "DEL") { o.s["v"] = val(++vn); }
        }
        return o;
    };
    switch (r.below(14)) {
        case 0: {
            auto o = data();
            o.n["st"] = 1000 + r.below(3);
            return o;
        }
        case 1: {
            auto o = data();
            auto big = std::string(long_key + static_cast<std::size_t>(r.below(2)), 'z');
            o.s[o.kind == "SCAN" || o.kind == "SOPEN" ? "r" : "k"] = big;
            return o;
        }
        case 2:
        case 3: return data();
        case 4:
        case 5: {
            auto o = mk(0, s, "BEGIN");
            o.n["ty"] = r.below(3);
            if (r.pct(60)) { o.l["wp"] = {r.pct(50) ? r.below(g.storages) : 1000 + r.below(3)}; }
            if (r.pct(30)) { o.l["wp"].push_back(r.pct(50) ? r.below(g.storages) : 1000); }
            return o;
        }
        case 6:
        case 7: return mk(0, s, r.pick(std::vector<std::string>{"COMMIT", "COMMITO", "ABORT"}));
        case 8:
        case 9: {
            auto o = mk(0, s, r.pick(std::vector<std::string>{"SKEY", "SVAL", "SNEXT", "SCLOSE", "SCLOSE", "SSIZE"}));
            o.n["h"] = r.below(3);
            if (r.pct(20)) { o.n["null"] = 1; }
            if (r.pct(40)) { o.n["from"] = r.below(ns); }
            return o;
        }
        case 10: {
            auto o = mk(0, s, r.pick(std::vector<std::string>{"STACQ", "STCHK", "STREL"}));
            o.n["h"] = r.below(3);
            if (o.kind != "STACQ" && r.pct(40)) { o.n["raw"] = r.pick(std::vector<long>{0, 999, -1}); }
            return o;
        }
        case 11: {
            auto o = mk(0, s, r.pick(std::vector<std::string>{"TXID", "PRIO", "SQU", "SQR", "SQD"}));
            if (o.kind[0] == 'S') { o.n["q"] = 3; }
            return o;
        }
        case 12: {
            auto o = mk(0, s, r.pick(std::vector<std::string>{"LEAVE", "ENTER"}));
            if (o.kind == "LEAVE") { o.n[r.pct(50) ? "bad" : "again"] = 1; }
            return o;
        }
        default: {
            auto o = mk(0, s, r.pick(std::vector<std::string>{"CRS", "DLS", "GTS", "GOP", "SOP"}));
            o.n["st"] = 1000 + r.below(3);
            if (o.kind == "CRS") { o.s["name"] = r.pct(70) ? "s0" : std::string(long_key, 's'); }
            if (o.kind == "GTS") { o.s["name"] = "?none"; }
            return o;
        }
    }
}

reg const a04{{"A04", "calls were refused in at least two different ways",
               [](rng& r, long, bool) {
                   gen_opts g;
                   g.storages = static_cast<int>(r.range(1, 3));
                   g.keys = 3;
                   g.min_ops = 1;
                   g.max_ops = 4;
                   g.p_short = 35;
                   g.p_long = 45;
                   g.p_ro = 20;
                   g.stepscan = r.pct(40);
                   int ns = static_cast<int>(r.range(2, 3));
                   auto c = gen_interleaved(r, g, ns, static_cast<int>(r.range(2, 7)));
                   c.cfg["raw"] = 1;
                   c.cfg["pre"] = 0;
                   c.cfg["tick"] = 0;
                   c.cfg["turns"] = 1;
                   c.cfg["idle"] = 25;
                   c.cfg.erase("e_bypass");
                   c.cfg.erase("e_bypassroot");
                   long vn{10000};
                   std::vector<op> out;
                   int p = static_cast<int>(r.pick(std::vector<long>{15, 40, 80}));
                   for (auto& o : c.ops) {
                       if (o.kind == "BEGIN" && o.num("ty") != 0 && r.pct(85)) { o.n["w"] = 1; }
                       out.push_back(o);
                       while (r.pct(p)) { out.push_back(gen_misuse(r, g, ns, vn)); }
                   }
                   c.ops = out;
                   return c;
               },
               eval_misuse}};

// ---------------------------------------------------------------- A10

/// searches for an order of the operations that several threads made on one
/// transaction
struct one_by_one {
    test_case const& c;
    history const& h;
    state before;
    std::optional<state> after; // contents in the end, if known
    std::vector<ev const*> ops; // in order of their calls
    using pos = std::pair<long, std::string>;
    std::set<std::pair<std::vector<char>, state>> seen;
    bool capped{false};

    bool overlap(ev const& a, ev const& b) const { return a.t0 < b.t1 && b.t0 < a.t1; }

    /// an insertion of the same key was going on
    bool inserting(ev const& e) const {
        auto const& o = op_of(c, e);
        return std::any_of(ops.begin(), ops.end(), [&](ev const* x) {
            auto const& p = op_of(c, *x);
            return x != &e && (p.kind == "INS" || p.kind == "UPS") && p.num("st") == o.num("st") &&
                   p.str("k") == o.str("k") && overlap(*x, e);
        });
    }

    /// whether the operation may be next; changes the contents
    bool step(ev const& e, state& s) const {
        auto const& o = op_of(c, e);
        if (e.st == Status::WARN_PREMATURE) { return true; }
        if (e.st == Status::WARN_CONCURRENT_INSERT && inserting(e)) { return true; }
        if (o.kind == "SCAN") {
            if (e.st != Status::OK && e.st != Status::WARN_NOT_FOUND) { return false; }
            auto want = range_of(s, o);
            return e.complete && e.n.empty() && want.size() == e.rows.size() &&
                   std::equal(want.begin(), want.end(), e.rows.begin(),
                              [](row const& a, row const& b) { return a.key == b.key && a.val == b.val; });
        }
        pos k{o.num("st"), o.str("k")};
        auto it = s.find(k);
        bool const there = it != s.end();
        if (o.kind == "GET" || o.kind == "EXI") {
            if (e.st == Status::WARN_NOT_FOUND) { return !there; }
            return there && e.st == Status::OK && (o.kind == "EXI" || e.s.at(0) == it->second);
        }
        if (o.kind == "INS") {
            if (e.st == Status::WARN_ALREADY_EXISTS) { return there; }
            if (e.st != Status::OK || there) { return false; }
            s[k] = o.str("v");
        } else if (o.kind == "UPD") {
            if (e.st == Status::WARN_NOT_FOUND) { return !there; }
            if (e.st != Status::OK || !there) { return false; }
            it->second = o.str("v");
        } else if (o.kind == "UPS") {
            if (e.st != Status::OK) { return false; }
            s[k] = o.str("v");
        } else if (o.kind == "DEL") {
            if (e.st == Status::WARN_NOT_FOUND) { return !there; }
            if (!there || (e.st != Status::OK && e.st != Status::WARN_CANCEL_PREVIOUS_INSERT &&
                           e.st != Status::WARN_CANCEL_PREVIOUS_UPSERT)) {
                return false;
            }
            s.erase(it);
        }
        return true;
    }

    bool search(std::vector<char>& done, state const& s) {
        if (seen.size() > 200000) {
            capped = true;
            return true;
        }
        if (!seen.insert({done, s}).second) { return false; }
        bool all{true};
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if (done[i] != 0) { continue; }
            all = false;
            bool first = true; // nothing that had ended before it is still to come
            for (std::size_t j = 0; j < ops.size(); ++j) {
                if (j != i && done[j] == 0 && ops[j]->t1 < ops[i]->t0) { first = false; }
            }
            if (!first) { continue; }
            state n = s;
            if (!step(*ops[i], n)) { continue; }
            done[i] = 1;
            if (search(done, n)) { return true; }
            done[i] = 0;
        }
        return all && (!after || *after == s);
    }
};

void judge_a10(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    for (auto const& e : h.errlogs) { r.fail("log: " + e); }
    state s;
    txn const* t{nullptr};
    for (auto const& x : h.txs) {
        bool shared{false};
        for (int i : x.evs) { shared = shared || h.evs[ix(i)].thr != 0; }
        if (!shared) {
            for (int i : x.evs) {
                auto const& e = h.evs[ix(i)];
                auto const& o = op_of(c, e);
                if (x.out != outcome::committed || e.st != Status::OK) { continue; }
                if (o.kind == "UPS") { s[{o.num("st"), o.str("k")}] = o.str("v"); }
                if (o.kind == "DEL") { s.erase({o.num("st"), o.str("k")}); }
            }
            continue;
        }
        t = &x;
    }
    if (t == nullptr) { return; }
    one_by_one m{c, h, s, std::nullopt, {}, {}, false};
    bool refused{false};
    bool wrote{false};
    bool over{false};
    for (int i : t->evs) {
        auto const& e = h.evs[ix(i)];
        auto const& o = op_of(c, e);
        if (!is_read(o.kind) && !is_write(o.kind)) { continue; }
        refused = refused || is_err(e.st) || e.st == Status::WARN_NOT_BEGIN;
        wrote = wrote || (is_write(o.kind) && e.st == Status::OK);
        for (auto const* x : m.ops) { over = over || (x->thr != e.thr && m.overlap(*x, e)); }
        m.ops.push_back(&e);
    }
    r.classes.emplace_back(t->type == 0 ? "short" : t->type == 1 ? "long" : "read-only");
    r.nontrivial = over && (wrote || t->type == 2);
    state end;
    for (std::size_t i = 0; i < h.final_rows.size(); ++i) {
        for (auto const& x : h.final_rows[i]) { end[{static_cast<long>(i), x.key}] = x.val.value_or("?"); }
    }
    if (t->out != outcome::committed) {
        if (end != s) { r.fail("an aborted transaction changed the contents"); }
        // index entries without a row may be collected while a short
        // transaction runs, which it takes for an insertion
        bool collector = t->type == 0 && std::any_of(h.evs.begin(), h.evs.end(), [&](ev const& e) {
            return !e.skipped && op_of(c, e).kind == "DEL";
        });
        if (collector && t->end_st == Status::ERR_CC) { r.classes.emplace_back("collector"); }
        if (!t->user_abort && !(collector && t->end_st == Status::ERR_CC)) {
            r.fail("the only transaction failed: " + stname(t->end_st) + " reason " + std::to_string(t->reason));
        }
    } else {
        m.after = end;
    }
    if (refused || r.bad) { return; }
    std::vector<char> done(m.ops.size(), 0);
    if (!m.search(done, s)) { r.fail("no one-at-a-time order of the operations gives these results and contents"); }
    if (m.capped) { r.classes.emplace_back("capped"); }
}

/// the same while other transactions conflict with it; every thread has keys
/// of its own, so that the order of the operations does not matter
test_case gen_shared_conflict(rng& r) {
    test_case c;
    int nthr = static_cast<int>(r.range(2, 3));
    c.cfg["thr"] = nthr + 1;
    c.cfg["ns"] = 2;
    c.cfg["nst"] = 2;
    c.cfg["shared"] = 1;
    gen_sched(r, c, true);
    gen_tuning(r, c);
    gen_opts g;
    g.storages = 2;
    g.keys = nthr;
    long vn{0};
    gen_load(r, g, vn, c.ops, static_cast<int>(r.pick(std::vector<long>{0, 50, 100})));
    auto b = mk(0, 0, "BEGIN");
    b.n["ty"] = r.pick(std::vector<long>{0, 0, 1});
    if (b.n["ty"] == 1) {
        b.n["w"] = 1;
        b.l["wp"] = {0};
    }
    c.ops.push_back(b);
    for (int t = 1; t <= nthr; ++t) {
        long n = r.range(1, 4);
        for (long i = 0; i < n; ++i) {
            // only one thread reads: see known/shared-abort.case
            static std::vector<std::string> const rs{"GET", "EXI", "INS", "UPS", "SCAN", "SCAN"};
            static std::vector<std::string> const ws{"INS", "UPS", "UPD", "DEL"};
            auto k = r.pick(t == 1 ? rs : ws);
            if (k == "SCAN") {
                auto o = gen_scan(r, g, t, 0);
                o.n["st"] = 1;
                c.ops.push_back(o);
                continue;
            }
            auto o = mk(t, 0, k);
            o.n["st"] = is_write(k) ? 0 : r.below(2);
            o.s["k"] = key_n(t - 1);
            if (is_write(k) && k != "DEL") { o.s["v"] = val(++vn); }
            c.ops.push_back(o);
        }
    }
    g.max_ops = 3;
    g.p_ro = 0;
    g.p_long = 20;
    g.p_short = 80;
    for (long i = r.range(1, 3); i > 0; --i) { gen_tx(r, g, nthr + 1, 1, vn, c.ops); }
    for (auto& o : c.ops) {
        if (o.sess == 1) { o.n.erase("wait"); } // it may have to wait for the shared one
    }
    auto e = mk(9, 0, "COMMIT");
    e.n["wait"] = 1;
    c.ops.push_back(e);
    return c;
}

void judge_shared_conflict(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    classify(c, h, r);
    for (auto const& t : h.txs) {
        std::set<int> thr;
        for (int i : t.evs) { thr.insert(h.evs[ix(i)].thr); }
        thr.erase(0);
        thr.erase(9);
        if (thr.size() > 1) {
            r.nontrivial = true;
            r.classes.emplace_back(t.out == outcome::committed ? "shared-committed" : "shared-failed");
        }
    }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail(w); }
}

reg const a10{{"A10",
               "operations of different threads on one transaction overlapped in time and some wrote (alone), "
               "or several threads operated on it (with conflicts)",
               [](rng& r, long idx, bool) {
                   if (idx % 4 == 0) { return gen_shared_conflict(r); }
                   test_case c;
                   gen_opts g;
                   g.storages = static_cast<int>(r.range(1, 2));
                   g.keys = static_cast<int>(r.range(1, 4));
                   int nthr = static_cast<int>(r.range(2, 3));
                   c.cfg["thr"] = nthr;
                   c.cfg["ns"] = 1;
                   c.cfg["nst"] = g.storages + 1;
                   gen_sched(r, c, true);
                   gen_tuning(r, c);
                   long vn{0};
                   auto gl = g;
                   gl.storages = g.storages + 1; // the last one is only read
                   gen_load(r, gl, vn, c.ops, static_cast<int>(r.pick(std::vector<long>{0, 40, 80, 100})));
                   auto b = mk(0, 0, "BEGIN");
                   b.n["ty"] = r.pick(std::vector<long>{0, 0, 0, 1, 1, 2});
                   if (b.n["ty"] != 0) { b.n["w"] = 1; }
                   if (b.n["ty"] == 1) {
                       for (long i = 0; i < g.storages; ++i) { b.l["wp"].push_back(i); }
                   }
                   if (b.n["ty"] == 2) {
                       auto e = mk(0, 0, "EPOCH");
                       e.n["n"] = 5;
                       c.ops.push_back(e);
                   }
                   c.ops.push_back(b);
                   int p_scan = static_cast<int>(r.pick(std::vector<long>{0, 20, 60}));
                   for (int t = 1; t <= nthr; ++t) {
                       long n = r.range(1, 4);
                       for (long i = 0; i < n; ++i) {
                           if (r.pct(p_scan)) {
                               auto o = gen_scan(r, gl, t, 0);
                               o.n["st"] = b.n["ty"] == 2 ? r.below(gl.storages) : g.storages;
                               for (auto const* x : {"cnt", "max", "rev"}) { o.n.erase(x); }
                               c.ops.push_back(o);
                               continue;
                           }
                           static std::vector<std::string> const ks{"GET", "GET", "EXI", "INS", "INS",
                                                                    "UPS", "UPS", "UPD", "DEL"};
                           auto o = mk(t, 0, b.n["ty"] == 2 ? ks[static_cast<std::size_t>(r.below(3))] : r.pick(ks));
                           o.n["st"] = r.below(g.storages);
                           o.s["k"] = key_n(r.below(g.keys));
                           if (is_write(o.kind) && o.kind != "DEL") { o.s["v"] = val(++vn); }
                           c.ops.push_back(o);
                       }
                   }
                   auto e = mk(9, 0, r.pct(90) ? "COMMIT" : "ABORT");
                   e.n["wait"] = 1;
                   c.ops.push_back(e);
                   return c;
               },
               [](test_case const& c) {
                   return simple(c, c.c("shared") != 0 ? judge_shared_conflict : judge_a10);
               }}};

} // namespace
} // namespace vp
