// Progress, internal errors, collection, restarts.
#include <map>
#include <set>

#include "props.h"

namespace vp {

namespace {

/// operations beside the data access ones, spread over the program
void sprinkle(rng& r, test_case& c, int n) {
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < c.ops.size(); ++i) {
        if (c.ops[i].thr >= (c.c("thr") > 0 ? 1 : 0)) { at.push_back(i); }
    }
    if (at.empty()) { return; }
    c.cfg["xst"] = 3;
    long nst = c.c("nst", 1);
    static const std::vector<std::string> kinds{"CRS", "CRS", "DLS", "GTS", "LSS", "GOP", "SOP", "SQC", "SQU", "SQR",
                                                "SQD", "TXID", "PRIO", "STACQ", "STCHK", "RESULT", "DIAG"};
    long h{0};
    for (int i = 0; i < n; ++i) {
        auto p = r.pick(at);
        auto const& near = c.ops[p];
        op o = mk(near.thr, near.sess, r.pick(kinds));
        if (o.kind == "CRS" || o.kind == "DLS" || o.kind == "GOP" || o.kind == "SOP") {
            o.n["st"] = nst + r.below(3);
            o.s["name"] = "x" + std::to_string(o.n["st"]);
            if (o.kind == "SOP") { o.s["pl"] = "p" + std::to_string(r.below(3)); }
            if (o.kind != "CRS") { o.s.erase("name"); }
        } else if (o.kind == "GTS") {
            o.s["name"] = r.pct(50) ? "s0" : "x" + std::to_string(nst);
        } else if (o.kind == "SQU") {
            o.n["ver"] = 1 + i;
            o.n["val"] = r.range(1, 99);
        } else if (o.kind == "STACQ") {
            o.n["h"] = h++;
        } else if (o.kind == "STCHK") {
            o.n["h"] = r.below(std::max(1L, h));
        }
        c.ops.insert(c.ops.begin() + static_cast<long>(p), o);
        for (auto& q : at) { q += q >= p ? 1 : 0; }
    }
}

test_case gen_mix(rng& r, long idx, bool bypass) {
    gen_opts g;
    g.storages = static_cast<int>(r.range(1, 3));
    g.keys = static_cast<int>(r.pick(std::vector<long>{1, 2, 3, 5}));
    g.max_ops = 6;
    g.p_short = 45;
    g.p_long = 40;
    g.p_abort = 12;
    g.read_area = r.pct(30);
    g.seqs = r.pct(20);
    g.wait_commit = r.pct(40);
    test_case c;
    switch (idx % 3) {
        case 0: c = gen_concurrent(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(1, 3))); break;
        case 1: c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), 2); break;
        default: c = gen_interleaved(r, g, static_cast<int>(r.range(2, 5)), static_cast<int>(r.range(4, 9))); break;
    }
    if (r.pct(60)) { sprinkle(r, c, static_cast<int>(r.range(1, 6))); }
    if (bypass && r.pct(20)) {
        c.cfg["e_bypass"] = 1;
        if (r.pct(40)) { c.cfg["e_bypassroot"] = 1; }
    }
    return c;
}

bool is_long(txn const& t) { return t.type == 1; }

// ---------------------------------------------------------------- L01

void judge_l01(test_case const& c, history& h, result& r) {
    classify(c, h, r);
    judge_common(c, h, r);
    if (r.bad) { return; }
    // with a large tick a preempted thread can lag many epochs behind
    if (h.never_started > 0 && c.c("epoch", 1000) >= 300 && c.c("tick", 20) <= 20) { r.fail("start: a transaction did not start within 20 epochs"); }
    long waited{0};
    for (auto const& rq : h.reqs) {
        if (!rq.cb || rq.cb->count != 1) {
            r.fail("unanswered: a commit request has " + std::to_string(rq.cb ? rq.cb->count : 0) + " answers");
        }
        if (!rq.sync) { ++waited; }
    }
    // a request waits only for transactions that were there before
    auto ep = static_cast<std::uint64_t>(c.c("epoch", 1000)) * 1000;
    bool timed = c.c("epoch", 1000) >= 300 && c.c("tick", 20) <= 20 && c.c("stall") == 0;
    for (auto const& t : h.txs) {
        if (!timed || !t.cb || t.cb->count == 0 || t.sync) { continue; }
        std::uint64_t from{0};
        for (int i : t.evs) { from = std::max(from, h.evs[ix(i)].v0); }
        for (auto const& u : h.txs) {
            if (u.id == t.id) { continue; }
            // begun clearly later: no reason to wait for it
            if (u.t_begin0 > t.t_begin1 && u.v_begin > t.v_begin + 2 * ep) { continue; }
            if (u.out == outcome::open || u.out == outcome::unknown) { return; }
            for (int i : u.evs) { from = std::max(from, h.evs[ix(i)].v0); }
            if (u.cb && u.cb->count > 0) { from = std::max(from, u.cb->v); }
        }
        if (t.cb->v > from + 40 * ep) {
            r.fail("late: the commit of tx" + std::to_string(t.id) + " was answered " +
                   std::to_string((t.cb->v - from) / ep) + " epochs after the last transaction it may wait for");
        }
    }
    r.nontrivial = h.preempts >= 5 || waited > 0;
    if (waited > 0) { r.classes.emplace_back("waited"); }
}

reg const l01{{"L01", "a commit request had to wait, or threads were switched inside calls at least five times",
               [](rng& r, long idx, bool) {
                   auto c = gen_mix(r, idx, true);
                   if (r.pct(40)) {
                       c.cfg["stall"] = r.range(1, r.pick(std::vector<long>{3000, 8000, 30000}));
                       c.cfg["stallus"] = c.c("epoch", 1000) * r.range(1, 6);
                   }
                   return c;
               },
               [](test_case const& c) { return simple(c, judge_l01); }}};

// ---------------------------------------------------------------- L04

void judge_l04(test_case const& c, history& h, result& r) {
    classify(c, h, r);
    judge_common(c, h, r);
    if (r.bad) { return; }
    for (auto const& e : h.errlogs) { r.fail("log: " + e); }
    auto inner = [](Status s) {
        return s == Status::ERR_FATAL || s == Status::ERR_FATAL_INDEX || s == Status::ERR_NOT_IMPLEMENTED ||
               stname(s).rfind("STATUS_", 0) == 0;
    };
    for (auto const& e : h.evs) {
        if (!e.skipped && inner(e.st)) { r.fail("status: " + to_text(op_of(c, e)) + " -> " + stname(e.st)); }
    }
    for (auto const& q : h.reqs) {
        if (q.cb && q.cb->count > 0 && inner(q.cb->st)) { r.fail("status: commit " + stname(q.cb->st)); }
    }
    for (auto const& m : h.log_misuse) { r.fail("log store: " + m); }
    long n{0};
    for (auto const& t : h.txs) { n += t.out == outcome::committed ? 1 : 0; }
    r.nontrivial = n >= 2;
}

reg const l04{{"L04", "at least two transactions committed",
               [](rng& r, long idx, bool) {
                   auto c = gen_mix(r, idx, false);
                   if (r.pct(15)) {
                       c.cfg["stall"] = r.range(1, 8000);
                       c.cfg["stallus"] = c.c("epoch", 1000) * r.range(1, 4);
                   }
                   return c;
               },
               [](test_case const& c) { return simple(c, judge_l04); }}};

// ---------------------------------------------------------------- L02

/// a few keys deleted and written again and again, while others read or keep cursors on them
test_case gen_churn(rng& r, bool threads) {
    test_case c;
    long keys = r.range(1, 3);
    long vn{0};
    bool fat = r.pct(50);
    auto v = [&] { return val(++vn) + (fat ? std::string(40, '.') : ""); };
    auto ep = r.pick(std::vector<long>{40, 100, 300});
    int sid{1};
    auto pause = [&](int thr) {
        if (r.pct(60)) {
            auto o = mk(thr, sid, r.pct(50) ? "EPOCH" : "SLEEP");
            if (o.kind == "EPOCH") {
                o.n["n"] = r.range(1, 4);
            } else {
                o.n["us"] = ep * r.range(1, 8) / 2;
            }
            c.ops.push_back(o);
        }
    };
    std::vector<std::vector<op>> tracks;
    auto flush = [&] {
        tracks.push_back(std::move(c.ops));
        c.ops.clear();
    };
    // contents
    {
        auto b = mk(0, 0, "BEGIN");
        b.n["ty"] = 0;
        c.ops.push_back(b);
        for (long k = 0; k < keys; ++k) {
            if (r.pct(70)) {
                auto o = mk(0, 0, "UPS");
                o.n["st"] = 0;
                o.s["k"] = key_n(k);
                o.s["v"] = v();
                c.ops.push_back(o);
            }
        }
        auto o = mk(0, 0, "COMMIT");
        o.n["wait"] = 1;
        c.ops.push_back(o);
    }
    auto prologue = std::move(c.ops);
    c.ops.clear();
    auto access = [&](int thr, bool write, bool blind) {
        op o;
        if (write && r.pct(75)) {
            static const std::vector<std::string> w{"INS", "UPS", "DEL", "DEL", "UPD"};
            o = mk(thr, sid, blind ? "UPS" : r.pick(w));
            if (o.kind != "DEL") { o.s["v"] = v(); }
            o.s["k"] = key_n(r.below(keys));
        } else if (r.pct(65)) {
            o = mk(thr, sid, "GET");
            o.s["k"] = key_n(r.below(keys));
        } else {
            o = mk(thr, sid, "SCAN");
            o.n["le"] = 2;
            o.n["re"] = 2;
        }
        o.n["st"] = 0;
        c.ops.push_back(o);
    };
    int nw = static_cast<int>(r.range(1, 2));
    for (int w = 0; w < nw; ++w, ++sid) { // writers
        int thr = threads ? sid : 0;
        auto n = r.range(2, nw == 1 ? 6 : 4);
        for (long i = 0; i < n; ++i) {
            auto b = mk(thr, sid, "BEGIN");
            bool lg = r.pct(25);
            b.n["ty"] = lg ? 1 : 0;
            b.n["w"] = 1;
            if (lg) { b.l["wp"] = {0}; }
            c.ops.push_back(b);
            auto m = r.range(1, 3);
            for (long j = 0; j < m; ++j) { access(thr, true, lg && r.pct(70)); }
            auto e = mk(thr, sid, r.pct(85) ? "COMMIT" : "ABORT");
            if (e.kind == "COMMIT" && r.pct(80)) { e.n["wait"] = 1; }
            c.ops.push_back(e);
            pause(thr);
        }
        flush();
    }
    int nr = static_cast<int>(r.range(1, 2));
    for (int w = 0; w < nr; ++w, ++sid) { // readers
        int thr = threads ? sid : 0;
        auto n = r.range(1, 2);
        for (long i = 0; i < n; ++i) {
            auto b = mk(thr, sid, "BEGIN");
            b.n["ty"] = r.range(0, 2);
            b.n["w"] = 1;
            if (b.n["ty"] == 1 && r.pct(30)) { b.l["wp"] = {0}; }
            c.ops.push_back(b);
            bool cursor = r.pct(50);
            if (cursor) {
                auto o = mk(thr, sid, "SOPEN");
                o.n["st"] = 0;
                o.n["h"] = 0;
                o.n["le"] = 2;
                o.n["re"] = 2;
                c.ops.push_back(o);
            }
            auto m = r.range(1, 4);
            for (long j = 0; j < m; ++j) {
                pause(thr);
                if (cursor && r.pct(70)) {
                    static const std::vector<std::string> s{"SREAD", "SKEY", "SVAL", "SNEXT", "SNEXT"};
                    auto o = mk(thr, sid, r.pick(s));
                    o.n["h"] = 0;
                    c.ops.push_back(o);
                } else {
                    access(thr, !cursor && (b.l.count("wp") != 0 || b.n["ty"] == 0), b.n["ty"] == 1);
                }
            }
            if (cursor && r.pct(60)) {
                auto o = mk(thr, sid, "SCLOSE");
                o.n["h"] = 0;
                c.ops.push_back(o);
            }
            auto e = mk(thr, sid, r.pct(85) ? "COMMIT" : "ABORT");
            if (e.kind == "COMMIT") { e.n["wait"] = 1; }
            c.ops.push_back(e);
            pause(thr);
        }
        flush();
    }
    c.ops = std::move(prologue);
    if (threads) {
        for (auto& t : tracks) { c.ops.insert(c.ops.end(), t.begin(), t.end()); }
        c.cfg["thr"] = static_cast<long>(tracks.size());
    } else {
        // a commit that waits for another session would never come back here
        std::vector<std::size_t> pos(tracks.size(), 0);
        std::size_t left{0};
        for (auto& t : tracks) {
            left += t.size();
            for (auto& o : t) {
                if (o.kind == "COMMIT") { o.n.erase("wait"); }
            }
        }
        while (left > 0) {
            auto t = static_cast<std::size_t>(r.below(static_cast<long>(tracks.size())));
            auto n = r.range(1, 3);
            for (; n > 0 && pos[t] < tracks[t].size(); --n, --left) { c.ops.push_back(tracks[t][pos[t]++]); }
        }
    }
    c.cfg["ns"] = sid;
    c.cfg["nst"] = 1;
    gen_sched(r, c, threads);
    gen_tuning(r, c);
    c.cfg["epoch"] = ep;
    if (c.c("tick", 20) > 100) { c.cfg["tick"] = 100; }
    if (r.pct(50)) { c.cfg["e_gc"] = 0; }
    return c;
}

void judge_l02(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail(w); }
    long dels{0};
    for (auto const& t : h.txs) {
        if (t.out != outcome::committed) { continue; }
        for (int i : t.evs) {
            auto const& e = h.evs[ix(i)];
            if (op_of(c, e).kind == "DEL" && e.st == Status::OK) { ++dels; }
        }
    }
    r.nontrivial = dels > 0;
    if (dels > 0) { r.classes.emplace_back("deleted"); }
}

reg const l02{{"L02", "a committed transaction deleted a record",
               [](rng& r, long idx, bool) { return gen_churn(r, idx % 3 != 0); },
               [](test_case const& c) { return simple(c, judge_l02); }}};

// ---------------------------------------------------------------- L03

constexpr long idle_epochs = 60;
#ifdef PWAL
constexpr bool logging = true; // the stand-in log store keeps all entries
#else
constexpr bool logging = false;
#endif

/// the same transactions again and again, memory counted in between
test_case gen_rounds(rng& r) {
    auto base = gen_churn(r, false);
    std::vector<op> body;
    for (auto& o : base.ops) {
        if (o.sess != 0) { body.push_back(o); }
    }
    if (r.pct(50)) {
        gen_opts g;
        g.storages = 1;
        g.keys = 3;
        long vn{1000};
        int n = static_cast<int>(r.range(1, 3));
        for (int i = 0; i < n; ++i) { gen_tx(r, g, 0, 1, vn, body); }
    }
    base.ops = body;
    base.cfg["rounds"] = 7;
    base.cfg.erase("leaf"); // emptied leaves of the stand-in index are kept
    return base;
}

/// the same again with storages, handles of states and sessions
test_case gen_made_rounds(rng& r) {
    test_case c;
    long vn{0};
    c.cfg["ns"] = 1;
    c.cfg["nst"] = 1;
    c.cfg["xst"] = 1;
    c.cfg["epoch"] = r.pick(std::vector<long>{40, 100});
    auto add = [&](std::string const& kind) -> op& {
        c.ops.push_back(mk(0, 0, kind));
        return c.ops.back();
    };
    auto commit = [&] { add("COMMIT").n["wait"] = 1; };
    bool storage = r.pct(80);
    if (storage) {
        auto& o = add("CRS");
        o.n["st"] = 1;
        o.s["name"] = "x";
        if (r.pct(30)) { o.n["id"] = 9; }
        if (r.pct(30)) { o.s["pl"] = std::string(40, 'p'); }
        long keys = r.pct(30) ? r.range(90, 180) : r.range(1, 12);
        bool fat = r.pct(50);
        long txs = r.range(1, 3);
        for (long i = 0; i < txs; ++i) {
            auto& b = add("BEGIN");
            b.n["ty"] = r.below(2);
            if (b.n["ty"] == 1) { b.l["wp"] = {1}; }
            b.n["w"] = 1;
            for (long k = 0; k < keys; ++k) {
                auto& u = add(i == 0 || r.pct(70) ? "UPS" : "DEL");
                u.n["st"] = 1;
                u.s["k"] = "k" + std::to_string(1000 + k);
                if (u.kind == "UPS") { u.s["v"] = val(++vn) + (fat ? std::string(40, '.') : ""); }
            }
            if (r.pct(85)) {
                commit();
            } else {
                add("ABORT");
            }
            if (r.pct(50)) { add("EPOCH").n["n"] = r.range(1, 3); }
        }
        if (r.pct(20)) {
            auto& p = add("SOP");
            p.n["st"] = 1;
            p.n["id"] = 9;
            p.s["pl"] = std::string(50, 'q');
        }
    }
    if (r.pct(40)) {
        auto& b = add("BEGIN");
        b.n["ty"] = r.below(3);
        add("STACQ").n["h"] = 0;
        if (r.pct(50)) {
            commit();
            add("STREL").n["h"] = 0;
        } else {
            add("STREL").n["h"] = 0;
            commit();
        }
    }
    if (r.pct(30)) {
        auto& b = add("BEGIN");
        b.n["ty"] = r.below(2);
        if (b.n["ty"] == 1) { b.l["wp"] = {0}; }
        b.n["w"] = 1;
        auto& u = add("UPS");
        u.n["st"] = 0;
        u.s["k"] = "t";
        u.s["v"] = val(++vn);
        add("LEAVE");
        add("ENTER");
    }
    if (storage) { add("DLS").n["st"] = 1; }
    c.cfg["rounds"] = 7;
    return c;
}

test_case expand(test_case c) {
    auto body = std::move(c.ops);
    c.ops.clear();
    for (long i = 0; i < c.c("rounds"); ++i) {
        c.ops.insert(c.ops.end(), body.begin(), body.end());
        auto m = mk(0, 0, "MEAS");
        m.n["n"] = idle_epochs;
        c.ops.push_back(m);
    }
    return c;
}

void judge_l03(test_case const& c, history& h, result& r) {
    classify(c, h, r);
    judge_common(c, h, r);
    if (r.bad) { return; }
    for (std::size_t i = 0; i < h.entry_counts.size() && i < h.final_rows.size(); ++i) {
        auto n = h.final_rows[i].size();
        if (h.entry_counts[i] != n) {
            r.fail("index: " + std::to_string(h.entry_counts[i]) + " entries for " + std::to_string(n) + " records after " + std::to_string(idle_epochs) +
                   " idle epochs");
        }
    }
    long made{0};
    for (auto const& o : c.ops) { made += o.kind == "CRS" ? 1 : o.kind == "DLS" ? -1 : 0; }
    if (h.live.size() == 7 && made <= 0) {
        bool grows{true}; // the first rounds may differ
        for (std::size_t i = 2; i < 6; ++i) { grows = grows && h.live[i + 1] > h.live[i]; }
        if (grows) {
            std::string t;
            for (auto l : h.live) { t += std::to_string(l) + " "; }
            r.fail("growth: live allocations after equal rounds " + t);
        }
        r.classes.emplace_back("rounds");
        r.nontrivial = true;
    }
    long dels{0};
    for (auto const& e : h.evs) { dels += op_of(c, e).kind == "DEL" && e.st == Status::OK ? 1 : 0; }
    if (dels > 0) { r.nontrivial = true; }
}

reg const l03{{"L03", "equal rounds were repeated, or a delete was accepted",
               [](rng& r, long idx, bool) {
                   auto c = idx % 12 == 6 && !logging  ? gen_made_rounds(r)
                            : idx % 3 == 0 && !logging ? gen_rounds(r)
                                                       : gen_churn(r, idx % 3 == 1);
                   c.cfg["idle"] = idle_epochs;
                   if (c.c("stall") == 0 && idx % 3 == 1 && r.pct(20)) {
                       c.cfg["stall"] = r.range(1, 8000);
                       c.cfg["stallus"] = c.c("epoch", 1000) * r.range(1, 6);
                   }
                   return c;
               },
               [](test_case const& c) {
                   return c.c("rounds") != 0 ? simple(expand(c), judge_l03) : simple(c, judge_l03);
               }}};

// ---------------------------------------------------------------- L05

/// one life of the engine
void gen_life(rng& r, test_case& c, int nth, bool last) {
    auto in = mk(0, 0, "INIT");
    in.n["run"] = nth;
    in.n["mode"] = 1;
    in.n["iscan"] = r.below(2);
    in.n["res"] = r.range(1, 3);
    in.n["epoch"] = r.pick(std::vector<long>{300, 1000, 3000});
    c.ops.push_back(in);
    auto again = [&] {
        if (r.pct(15)) {
            auto o = mk(0, 0, "INIT");
            o.n["epoch"] = in.n["epoch"];
            o.n["run"] = nth;
            c.ops.push_back(o);
        }
    };
    again();
    std::size_t from = c.ops.size();
    int ns = static_cast<int>(r.range(1, 4));
    for (int s = 0; s < ns; ++s) { c.ops.push_back(mk(0, s, "ENTER")); }
    int nst = static_cast<int>(r.range(1, 3));
    for (int s = 0; s < nst; ++s) {
        auto o = mk(0, 0, "CRS");
        o.n["st"] = s;
        o.s["name"] = "n" + std::to_string(r.below(2) + 2 * s);
        if (r.pct(30)) { o.n["id"] = r.range(1, 9) + 10 * s; }
        c.ops.push_back(o);
    }
    gen_opts g;
    g.storages = nst;
    g.keys = 3;
    g.max_ops = 4;
    g.p_long = 35;
    g.p_ro = 15;
    g.wait_commit = false;
    g.read_area = r.pct(30);
    g.seqs = true;
    if (r.pct(40)) {
        auto o = mk(0, 0, "SQC");
        o.n["q"] = 0;
        c.ops.push_back(o);
    }
    std::vector<std::vector<op>> tracks(static_cast<std::size_t>(ns));
    long vn = 100L * nth;
    long handles{0};
    for (int s = 0; s < ns; ++s) {
        auto n = r.range(1, 3);
        auto& t = tracks[static_cast<std::size_t>(s)];
        for (long i = 0; i < n; ++i) {
            gen_tx(r, g, 0, s, vn, t);
            if (r.pct(30)) { t.insert(t.end() - 1, mk(0, s, "TXID")); }
            if (r.pct(20)) {
                auto o = mk(0, s, "STACQ");
                o.n["h"] = handles;
                t.insert(t.end() - 1, o);
                o.kind = "STCHK";
                t.push_back(o);
                ++handles;
            }
            if (r.pct(30)) {
                auto o = mk(0, s, "EPOCH");
                o.n["n"] = r.range(1, 3);
                t.push_back(o);
            }
        }
        // unfinished work at the stop
        if (!last && r.pct(50)) {
            while (!t.empty() && t.back().kind != "COMMIT" && t.back().kind != "ABORT") { t.pop_back(); }
            if (!t.empty()) { t.pop_back(); }
        }
    }
    std::vector<std::size_t> pos(tracks.size(), 0);
    std::size_t left{0};
    for (auto& t : tracks) { left += t.size(); }
    while (left > 0) {
        auto t = static_cast<std::size_t>(r.below(ns));
        for (auto n = r.range(1, 4); n > 0 && pos[t] < tracks[t].size(); --n, --left) {
            c.ops.push_back(tracks[t][pos[t]++]);
        }
    }
    again();
    for (std::size_t i = from; i < c.ops.size(); ++i) {
        c.ops[i].n["run"] = nth;
        if (c.ops[i].kind == "SLEEP") { // only whole epochs: every life has the same alignment
            c.ops[i].kind = "EPOCH";
            c.ops[i].n["n"] = 1;
        }
    }
    if (r.pct(40)) {
        for (int s = 0; s < ns; ++s) {
            auto o = mk(0, s, "LEAVE");
            o.n["run"] = nth;
            c.ops.push_back(o);
        }
    }
    auto f = mk(0, 0, "FIN");
    f.n["force"] = r.below(2);
    f.n["run"] = nth;
    f.n["wipe"] = 1;
    c.ops.push_back(f);
    if (r.pct(15)) { c.ops.push_back(f); }
}

test_case gen_l05(rng& r, long, bool thorough) {
    test_case c;
    c.cfg["noinit"] = 1;
    c.cfg["ns"] = 4;
    c.cfg["nst"] = 0;
    c.cfg["xst"] = 3;
    c.cfg["tick"] = 0;
    c.cfg["turns"] = 1;
    c.cfg["sseed"] = static_cast<long>(r.next() & 0xffffffU);
    if (r.pct(30)) { c.cfg["e_fast"] = 1; }
    if (r.pct(30)) { c.cfg["e_gc"] = 0; }
    auto n = r.range(2, thorough ? 5 : 3);
    for (long i = 0; i < n; ++i) { gen_life(r, c, static_cast<int>(i), i == n - 1); }
    c.cfg["lives"] = n;
    return c;
}

std::string life(test_case const& c, history const& h, long nth) {
    std::string o;
    std::map<std::string, int> handle; // addresses are not compared
    for (auto const& e : h.evs) {
        auto const& p = op_of(c, e);
        if (p.num("run") != nth) { continue; }
        o += to_text(p) + " -> " + (e.skipped ? "skipped" : stname(e.st));
        if (p.kind != "ENTER" && p.kind != "STACQ") {
            for (auto x : e.n) { o += " " + std::to_string(x); }
        }
        for (auto const& x : e.s) { o += " '" + esc(x) + "'"; }
        for (auto const& x : e.rows) { o += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
        o += "\n";
    }
    return o;
}

result eval_l05(test_case const& given) {
    // shrinking may have removed a stop
    test_case c = given;
    c.ops.clear();
    for (long i = 0; i < c.c("lives"); ++i) {
        bool first{true};
        for (auto const& o : given.ops) {
            if (o.num("run") != i) { continue; }
            c.ops.push_back(o);
            if (o.kind == "INIT" && first) {
                // calls are made in the middle of the epochs
                auto half = mk(0, 0, "SLEEP");
                half.n["us"] = o.num("epoch", 1000) / 2;
                half.n["run"] = i;
                c.ops.push_back(half);
                first = false;
            }
        }
        if (i + 1 < c.c("lives")) {
            auto f = mk(0, 0, "FIN");
            f.n["run"] = i;
            f.n["wipe"] = 1;
            c.ops.push_back(f);
        }
    }
    auto last = c.c("lives") - 1;
    auto run = [&](test_case const& cc) {
        return in_child([&]() {
            history h;
            run_case(cc, h);
            for (auto const& a : h.anomalies) { return "!" + a; }
            for (auto const& a : h.errlogs) { return "!log: " + a; }
            // start and stop are reported as documented
            bool up{false};
            for (auto const& e : h.evs) {
                auto const& p = op_of(cc, e);
                if (p.kind == "INIT") {
                    auto want = up ? Status::WARN_ALREADY_INIT : Status::OK;
                    if (e.st != want) { return "!INIT gave " + stname(e.st) + ", expected " + stname(want); }
                    up = true;
                }
                if (p.kind == "FIN") { up = false; }
            }
            long open{0};
            for (auto const& t : h.txs) { open += t.out == outcome::unknown ? 1 : 0; }
            for (auto const& q : h.reqs) {
                if (q.cb && q.cb->count > 1) { return std::string("!a commit was answered twice"); }
            }
            return std::to_string(open > 0 ? 1 : 0) + life(cc, h, last);
        });
    };
    result r;
    auto a = run(c);
    if (child_failed(a, r)) { return r; }
    if (a.text[0] == '!') {
        r.fail(a.text.substr(1));
        return r;
    }
    test_case d = c;
    d.ops.clear();
    for (auto const& o : c.ops) {
        if (o.num("run") == last) { d.ops.push_back(o); }
    }
    auto b = run(d);
    if (child_failed(b, r)) { return r; }
    if (a.text[0] == '1') { r.classes.emplace_back("unfinished"); }
    r.nontrivial = c.ops.size() > d.ops.size();
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = a.text + "-----\n" + b.text; }
    if (a.text.substr(1) != b.text.substr(1)) {
        auto x = a.text.substr(1);
        auto y = b.text.substr(1);
        std::size_t i{0};
        while (i < x.size() && i < y.size() && x[i] == y[i]) { ++i; }
        auto s = x.rfind('\n', i == 0 ? 0 : i - 1);
        s = s == std::string::npos ? 0 : s + 1;
        r.fail("after earlier runs: " + x.substr(s, x.find('\n', i) - s) + "\n  in a fresh process: " +
               y.substr(s, y.find('\n', i) - s));
    }
    return r;
}

reg const l05{{"L05", "the compared run came after at least one other run", gen_l05, eval_l05}};

} // namespace

} // namespace vp
