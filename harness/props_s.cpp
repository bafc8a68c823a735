// Isolation and atomicity properties.
#include <algorithm>

#include "props.h"

namespace vp {
namespace {

void judge_s01(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    r.nontrivial = conflicting(c, h) > 0;
    if (r.bad) { return; }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("nonserializable: " + w); }
}

reg s01{{"S01",
         "at least two committed transactions overlapped in time and touched a common storage, one "
         "of them writing it",
         [](rng& r, long idx, bool) {
             if (idx % 8 == 3 || idx % 8 == 6) { return gen_chain(r, 25); }
             if (idx % 8 == 7) { return gen_ranges(r, 30); }
             if (idx % 16 == 5) { return gen_stalled(r, true); }
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = static_cast<int>(r.pick(std::vector<long>{2, 3, 4, 6}));
             g.max_ops = 5;
             g.ltx_blind = r.pct(65);
             if (r.pct(25)) {
                 g.p_long = 70;
                 g.p_short = 25;
             } else if (r.pct(30)) {
                 g.p_long = 0;
                 g.p_ro = 5;
             }
             if (idx % 2 == 0) {
                 return gen_concurrent(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(1, 2)));
             }
             return gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
         },
         [](test_case const& c) { return simple(c, judge_s01); }}};



// ---------------------------------------------------------------- S02

void judge_s02(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    auto p = all_committed(h);
    int pairs{0};
    for (std::size_t i = 0; i < p.nodes.size(); ++i) {
        for (std::size_t j = 0; j < p.nodes.size(); ++j) {
            auto const& a = h.txs[ix(p.nodes[i].tx)];
            auto const& b = h.txs[ix(p.nodes[j].tx)];
            if (a.type == 0 && b.type == 0 && a.t_end < b.t_begin0) {
                p.edges.emplace_back(static_cast<int>(i), static_cast<int>(j));
                ++pairs;
            }
        }
    }
    r.nontrivial = pairs > 1 && conflicting(c, h) > 0;
    auto w = serial(c, h, p, r);
    if (!w.empty()) { r.fail("not strict: " + w); }
}

reg s02{{"S02",
         "at least two committed short transactions overlapped on a common storage and two ordered "
         "pairs exist",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = static_cast<int>(r.pick(std::vector<long>{1, 2, 3, 4}));
             g.max_ops = 4;
             g.min_ops = 1;
             g.p_epoch = static_cast<int>(r.pick(std::vector<long>{0, 5, 15}));
             g.p_ro = 0;
             g.ltx_blind = true;
             g.p_long = r.pct(75) ? 0 : 25;
             if (idx % 3 != 0) {
                 return gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(2, 3)));
             }
             return gen_interleaved(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(3, 7)));
         },
         [](test_case const& c) { return simple(c, judge_s02); }}};

// ---------------------------------------------------------------- S03

void judge_s03(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    for (auto const& a : h.txs) {
        if (a.out != outcome::committed) { continue; }
        std::set<long> seen;
        for (int ei : a.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            if (o.kind == "SCAN" || o.kind == "SOPEN" ||
                ((o.kind == "GET" || o.kind == "EXI") && e.st == Status::WARN_NOT_FOUND)) {
                seen.insert(o.num("st"));
            }
        }
        for (auto const& b : h.txs) {
            if (a.id == b.id || b.out != outcome::committed) { continue; }
            if (a.t_end < b.t_begin0 || b.t_end < a.t_begin0) { continue; }
            for (int ei : b.evs) {
                auto const& e = h.evs[ix(ei)];
                auto const& o = op_of(c, e);
                if (e.st == Status::OK && is_write(o.kind) && o.kind != "UPD" && seen.count(o.num("st")) != 0) {
                    r.nontrivial = true;
                }
            }
        }
    }
    if (r.bad) { return; }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("phantom: " + w); }
}

reg s03{{"S03",
         "a committed transaction scanned a storage or found a key missing in it while another "
         "committed transaction that overlapped it inserted or deleted there",
         [](rng& r, long idx, bool) {
             if (idx % 5 == 4) { return gen_chain(r, 80); }
             gen_opts g;
             g.storages = 1;
             g.keys = static_cast<int>(r.pick(std::vector<long>{3, 4, 6, 9}));
             g.max_ops = 4;
             g.w_get = 10;
             g.w_exi = 6;
             g.w_scan = 45;
             g.w_ins = 25;
             g.w_upd = 3;
             g.w_ups = 15;
             g.w_del = 20;
             g.ltx_blind = r.pct(65);
             g.reverse = r.pct(30);
             if (r.pct(40)) {
                 g.p_long = 0;
                 g.p_ro = 0;
             } else if (r.pct(40)) {
                 g.p_long = 60;
             }
             test_case c;
             if (idx % 2 == 0) {
                 c = gen_concurrent(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(1, 2)));
             } else {
                 c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             if (r.pct(60)) { c.cfg["leaf"] = r.pick(std::vector<long>{1, 2, 2, 3, 4}); }
             return c;
         },
         [](test_case const& c) { return simple(c, judge_s03); }}};

// ---------------------------------------------------------------- S04

// what committed transactions left in a key at their end: value or absence
struct wrote {
    int tx;
    std::optional<std::string> v;
};

std::map<std::pair<long, std::string>, std::vector<wrote>> last_writes(test_case const& c, history const& h) {
    std::map<std::pair<long, std::string>, std::vector<wrote>> m;
    for (auto const& t : h.txs) {
        if (t.out != outcome::committed) { continue; }
        std::map<std::pair<long, std::string>, std::optional<std::string>> mine;
        std::set<std::pair<long, std::string>> odd;
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            if (!is_write(o.kind)) { continue; }
            std::pair<long, std::string> k{o.num("st"), o.str("k")};
            if (e.st == Status::OK) {
                if (o.kind == "DEL") {
                    mine[k] = std::nullopt;
                } else {
                    mine[k] = o.str("v");
                }
                if (o.kind == "UPD" && t.type == 1) { odd.insert(k); }
            } else if (e.st == Status::WARN_CANCEL_PREVIOUS_INSERT ||
                       e.st == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                mine[k] = std::nullopt;
                odd.insert(k);
            }
        }
        for (auto const& [k, v] : mine) {
            m[k].push_back({t.id, v});
            if (odd.count(k) != 0) { m[k].push_back({-1, std::nullopt}); } // unclear
        }
    }
    return m;
}

void judge_s04(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    auto writes = last_writes(c, h);
    std::set<std::pair<long, std::string>> universe;
    for (auto const& o : c.ops) {
        if (o.s.count("k") != 0) { universe.insert({o.num("st"), o.str("k")}); }
    }
    for (auto const& t : h.txs) {
        if (t.type != 1 || t.out != outcome::committed) { continue; }
        // from here on it has certainly started
        std::uint64_t started{0};
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& k = op_of(c, e).kind;
            if ((is_read(k) || is_write(k)) && e.st != Status::WARN_PREMATURE) {
                started = e.t1;
                break;
            }
        }
        if (started == 0) { continue; }
        std::map<std::pair<long, std::string>, std::optional<std::string>> seen;
        std::set<std::pair<long, std::string>> own;
        auto observe = [&](ev const& e, std::pair<long, std::string> const& k,
                           std::optional<std::string> const& v) {
            if (own.count(k) != 0) { return; }
            auto it = seen.find(k);
            if (it != seen.end()) {
                if (it->second && v && *it->second == "?") {
                    it->second = v;
                } else if (it->second && v && *v == "?") {
                } else if (it->second != v) {
                    r.fail("changing read: tx" + std::to_string(t.id) + " op" + std::to_string(e.op) +
                           " key " + k.second + " read differently before");
                }
                return;
            }
            seen[k] = v;
            auto wi = writes.find(k);
            bool some{false};
            bool unclear{false};
            bool allowed{false};
            bool base{true}; // may the initial absence be seen?
            if (wi != writes.end()) {
                for (auto const& w : wi->second) {
                    if (w.tx < 0) {
                        unclear = true;
                        continue;
                    }
                    auto const& a = h.txs[ix(w.tx)];
                    if (a.id == t.id) { continue; }
                    if (a.t_end < t.t_begin0) {
                        some = true;
                        base = false;
                        // overwritten by a short transaction before t began?
                        bool stale{false};
                        for (auto const& w1 : wi->second) {
                            if (w1.tx < 0 || w1.tx == w.tx) { continue; }
                            auto const& b = h.txs[ix(w1.tx)];
                            if (b.type == 0 && a.t_end < b.t_begin0 && b.t_end < t.t_begin0) { stale = true; }
                        }
                        if (stale) { continue; }
                    } else if (a.t_begin0 > started) {
                        continue; // began too late
                    }
                    if (w.v == v || (v && *v == "?" && w.v)) { allowed = true; }
                }
            }
            if (base && !v) { allowed = true; }
            if (some) { r.nontrivial = true; }
            if (!allowed && !unclear) {
                r.fail("not the snapshot: tx" + std::to_string(t.id) + " op" + std::to_string(e.op) + " key " +
                       k.second + " read " + (v ? *v : "absence") + " which is not what was committed before it began");
            }
        };
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            std::pair<long, std::string> k{o.num("st"), o.str("k")};
            if (is_write(o.kind)) {
                own.insert(k);
            } else if (o.kind == "GET" || o.kind == "EXI") {
                if (e.st == Status::OK) {
                    observe(e, k, o.kind == "GET" ? e.s.at(0) : std::string("?"));
                } else if (e.st == Status::WARN_NOT_FOUND) {
                    observe(e, k, std::nullopt);
                }
            } else if (o.kind == "SCAN" && (e.st == Status::OK || e.st == Status::WARN_NOT_FOUND)) {
                std::map<std::string, std::optional<std::string>> got;
                for (auto const& x : e.rows) { got[x.key] = x.val ? *x.val : std::string("?"); }
                bool full = e.complete && o.num("max") == 0 && e.n.empty();
                for (auto const& u : universe) {
                    if (u.first != o.num("st") || !in_range(o, u.second)) { continue; }
                    auto it = got.find(u.second);
                    if (it != got.end()) {
                        observe(e, u, it->second);
                    } else if (full) {
                        observe(e, u, std::nullopt);
                    }
                }
            }
        }
    }
    if (r.bad) { return; }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("nonserializable: " + w); }
}

reg s04{{"S04",
         "a committed long transaction read a key that had been written by a transaction finished "
         "before it began",
         [](rng& r, long idx, bool) {
             if (idx % 3 == 2) {
                 if (idx % 12 == 5) { return gen_stalled(r, false); }
                 auto c = gen_chain(r, 30);
                 return c;
             }
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 3));
             g.keys = static_cast<int>(r.pick(std::vector<long>{1, 2, 3, 4}));
             g.p_short = 55;
             g.p_long = 45;
             g.p_ro = 0;
             g.min_ops = 3;
             g.max_ops = 6;
             g.w_get = 35;
             g.ltx_blind = true;
             g.p_epoch = 30;
             if (idx % 3 == 0) {
                 return gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), 2);
             }
             return gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
         },
         [](test_case const& c) { return simple(c, judge_s04); }}};

// ---------------------------------------------------------------- S05

// what the transactions of the given kinds experienced, in program order
std::string experience(test_case const& c, history const& h, std::function<bool(op const&, ev const&)> const& take) {
    std::map<int, std::string> by_op;
    for (auto const& e : h.evs) {
        if (e.op < 0) { continue; }
        auto const& o = op_of(c, e);
        if (!take(o, e)) { continue; }
        std::string s = to_text(o) + " -> " + (e.skipped ? "skipped" : stname(e.st));
        for (auto const& x : e.s) { s += " '" + esc(x) + "'"; }
        if (o.kind != "ENTER" && o.kind != "STACQ") {
            for (long x : e.n) { s += " " + std::to_string(x); }
        }
        for (auto const& x : e.rows) { s += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
        by_op[e.op] = s + "\n";
    }
    std::string out;
    for (auto const& [i, s] : by_op) { out += s; }
    for (auto const& t : h.txs) {
        if (t.type != 2) {
            out += "tx of session " + std::to_string(t.sess) + " " + std::to_string(static_cast<int>(t.out)) + " " +
                   stname(t.end_st) + "\n";
        }
    }
    if (h.final_ok) { out += "final " + show_state(final_state(h)) + "\n"; }
    return out;
}

std::string first_diff(std::string const& a, std::string const& b) {
    std::size_t i = 0;
    std::size_t ls = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        if (a[i] == '\n') { ls = i + 1; }
        ++i;
    }
    auto line = [&](std::string const& s) { return ls < s.size() ? s.substr(ls, s.find('\n', ls) - ls) : std::string("(end)"); };
    return "\n  one: " + line(a) + "\n  two: " + line(b) + "\n";
}

// a size limit counts entries of deleted records too, which come and go
void plain_scans(test_case& c) {
    for (auto& o : c.ops) {
        if (o.kind == "SCAN") {
            o.n.erase("max");
            o.n.erase("rev");
        }
    }
}

bool ro_session(test_case const& c, int s) {
    for (auto const& o : c.ops) {
        if (o.sess == s && o.kind == "BEGIN" && o.num("ty") == 2) { return true; }
    }
    return false;
}

void judge_s05(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    for (auto const& t : h.txs) {
        if (t.type != 2) { continue; }
        bool reads{false};
        bool over{false};
        for (auto const& b : h.txs) {
            if (b.type != 2 && b.out == outcome::committed && !(b.t_end < t.t_begin0 || (t.t_end != 0 && t.t_end < b.t_begin0))) { over = true; }
        }
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            if (is_read(o.kind)) {
                reads = true;
                if (e.st != Status::OK && e.st != Status::WARN_NOT_FOUND && e.st != Status::WARN_PREMATURE) {
                    r.fail("read-only failed: op" + std::to_string(e.op) + " " + stname(e.st));
                }
                if (!e.n.empty()) { r.fail("read-only scan stopped: op" + std::to_string(e.op)); }
            }
            if (o.kind == "COMMIT" && e.st != Status::OK && e.st != Status::WARN_PREMATURE) {
                r.fail("read-only commit: " + stname(e.st));
            }
        }
        if (t.out == outcome::committed && !t.sync) { r.fail("read-only commit waited"); }
        if (t.out == outcome::aborted && !t.user_abort) { r.fail("read-only aborted: " + stname(t.end_st)); }
        if (reads && over) { r.nontrivial = true; }
    }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("no prefix: " + w); }
    // the scans after the quiet period see everything
    for (auto const& e : h.evs) {
        if (e.op < 0 || op_of(c, e).kind != "SCAN" || op_of(c, e).num("fresh") == 0 || e.skipped) { continue; }
        auto const& rows = h.final_rows.at(ix(static_cast<int>(op_of(c, e).num("st"))));
        bool same = e.complete && rows.size() == e.rows.size();
        for (std::size_t i = 0; same && i < rows.size(); ++i) {
            same = rows[i].key == e.rows[i].key && rows[i].val == e.rows[i].val;
        }
        if (!same) { r.fail("stale: a read-only transaction after a quiet period misses committed writes"); }
    }
}

result eval_s05(test_case const& c) {
    if (c.c("twin") == 0) { return simple(c, judge_s05); }
    // the same program without the read-only sessions
    auto run = [](test_case const& cc, test_case const& ref) {
        return in_child([&]() {
            history h;
            run_case(cc, h);
            bool any{false};
            for (auto const& t : h.txs) { any = any || t.out == outcome::committed; }
            return std::string(any ? "1" : "0") + experience(cc, h, [&](op const& o, ev const&) { return !ro_session(ref, o.sess); });
        });
    };
    result r;
    auto a = run(c, c);
    if (child_failed(a, r)) { return r; }
    test_case d = c;
    for (auto& o : d.ops) {
        if (ro_session(c, o.sess)) { o.kind = "NOP"; }
    }
    auto b = run(d, c);
    if (child_failed(b, r)) { return r; }
    r.nontrivial = a.text[0] == '1';
    r.classes.emplace_back("twin");
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = a.text + "-----\n" + b.text; }
    if (a.text == b.text) { return r; }
    auto d2 = first_diff(a.text, b.text);
    // an open snapshot delays the removal of deleted entries, which can spare
    // others an abort; the opposite is not allowed
    auto two = d2.substr(d2.find("  two:"));
    if (two.find("ERR_CC") != std::string::npos || two.find("-> WARN_") != std::string::npos) {
        r.classes.emplace_back("twin-spared");
        return r;
    }
    // what an aborted insert leaves in the index goes away at a time that depends
    // on open snapshots, and its removal can meet others
    auto same = std::mismatch(a.text.begin(), a.text.end(), b.text.begin(), b.text.end()).first;
    if (a.text.substr(0, static_cast<std::size_t>(same - a.text.begin())).find("ERR_") != std::string::npos) {
        r.classes.emplace_back("twin-collector");
        return r;
    }
    r.fail("disturbed: others differ without the read-only transactions" + d2);
    return r;
}

reg s05{{"S05",
         "a read-only transaction read something while another transaction overlapped it (or, for "
         "twin runs, some transaction committed)",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = static_cast<int>(r.pick(std::vector<long>{1, 2, 3, 4}));
             g.max_ops = 5;
             g.ltx_blind = true;
             g.w_del = 20;
             g.p_short = 40;
             g.p_long = 15;
             g.p_ro = 45;
             g.p_epoch = 30;
             if (idx % 3 == 2) {
                 // twin: read-only transactions have their own sessions, time
                 // passes only in sleeps
                 g.p_ro = 0;
                 g.w_del = 0;
                 g.p_abort = 0;
                 auto c = gen_interleaved(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(3, 6)));
                 int ns = static_cast<int>(c.c("ns"));
                 c.cfg["ns"] = ns + 2;
                 c.cfg["tick"] = 0;
                 c.cfg["pre"] = 0;
                 c.cfg["twin"] = 1;
                 gen_opts gr = g;
                 gr.p_ro = 100;
                 gr.p_short = 0;
                 gr.p_long = 0;
                 gr.p_epoch = 0;
                 for (int k = 0; k < 2; ++k) {
                     long vn = 0;
                     std::vector<op> p;
                     for (int n = 0; n < 2; ++n) { gen_tx(r, gr, 0, ns + k, vn, p); }
                     std::size_t at = 0;
                     for (auto& o : p) {
                         o.n.erase("w");
                         o.n.erase("wait");
                         at = static_cast<std::size_t>(r.range(static_cast<long>(at), std::min<long>(static_cast<long>(at) + 6, static_cast<long>(c.ops.size()))));
                         c.ops.insert(c.ops.begin() + static_cast<long>(at), o);
                         ++at;
                     }
                 }
                 for (auto& o : c.ops) { o.n.erase("w"); }
                 plain_scans(c);
                 return c;
             }
             test_case c;
             if (idx % 12 == 3) {
                 c = gen_stalled(r, true);
                 g.storages = static_cast<int>(c.c("nst"));
             } else if (idx % 3 == 0) {
                 c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), 2);
             } else {
                 g.reverse = r.pct(30);
                 c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             if (r.pct(40)) {
                 // quiet period, then a fresh read-only transaction
                 auto q = mk(9, 0, "EPOCH");
                 q.n["n"] = 12;
                 c.cfg["ns"] = c.c("ns") + 1;
                 int s = static_cast<int>(c.c("ns")) - 1;
                 // open transactions hold the snapshot back
                 for (int i = 0; i < s; ++i) { c.ops.push_back(mk(9, i, "ABORT")); }
                 c.ops.push_back(q);
                 auto b = mk(9, s, "BEGIN");
                 b.n["ty"] = 2;
                 b.n["w"] = 1;
                 c.ops.push_back(b);
                 for (long i = 0; i < g.storages; ++i) {
                     auto o = mk(9, s, "SCAN");
                     o.n["st"] = i;
                     o.n["fresh"] = 1;
                     c.ops.push_back(o);
                 }
                 c.ops.push_back(mk(9, s, "COMMIT"));
             }
             return c;
         },
         eval_s05}};

// ---------------------------------------------------------------- S06

struct s06_run {
    std::string p1, p2;       // experience of the committed ones of phase one / all of phase two
    std::string aborted;      // sessions*100+ordinal of aborted transactions in phase one
};

// transaction ordinal within its session for each operation (by program text)
std::map<int, std::pair<int, int>> tx_of_ops(test_case const& c) {
    std::map<int, std::pair<int, int>> m;
    std::map<int, int> n;
    for (std::size_t i = 0; i < c.ops.size(); ++i) {
        auto const& o = c.ops[i];
        if (o.kind == "SLEEP" || o.kind == "EPOCH" || o.kind == "SQR" || o.kind == "SQC") { continue; }
        if (o.kind == "BEGIN") { ++n[o.sess]; }
        m[static_cast<int>(i)] = {o.sess, n[o.sess]};
    }
    return m;
}

result eval_s06(test_case const& c) {
    result r;
    if (c.c("twin") == 0) {
        return simple(c, [](test_case const& cc, history& h, result& res) {
            judge_common(cc, h, res);
            classify(cc, h, res);
            bool ab{false};
            bool com{false};
            for (auto const& t : h.txs) {
                bool w{false};
                for (int ei : t.evs) {
                    w = w || (is_write(op_of(cc, h.evs[ix(ei)]).kind) && h.evs[ix(ei)].st == Status::OK);
                }
                ab = ab || (w && t.out == outcome::aborted);
                com = com || (w && t.out == outcome::committed);
            }
            res.nontrivial = ab && com;
            if (res.bad) { return; }
            auto w = serial(cc, h, all_committed(h), res);
            if (!w.empty()) { res.fail("trace of an abort or part of a transaction: " + w); }
        });
    }
    auto ops_tx = tx_of_ops(c);
    // operations of the tail are phase two
    long cut = 0;
    for (auto const& o : c.ops) { cut += o.thr == 9 ? 0 : 1; }
    auto run = [&](test_case const& cc, bool first) {
        return in_child([&]() {
            history h;
            run_case(cc, h);
            result rr;
            judge_common(cc, h, rr);
            if (rr.bad) { return "!" + rr.why + "\n" + show(cc, h); }
            std::set<std::pair<int, int>> dead;
            std::string out;
            // transactions are begun in program order of BEGIN
            std::map<int, int> cnt;
            std::map<int, std::pair<int, int>> ord;
            for (auto const& e : h.evs) {
                if (e.op >= 0 && cc.ops[ix(e.op)].kind == "BEGIN" && e.tx >= 0) { ord[e.tx] = ops_tx.at(e.op); }
            }
            std::uint64_t two = ~std::uint64_t{0};
            for (auto const& e : h.evs) {
                if (e.op >= cut) { two = std::min(two, e.t0); }
            }
            for (auto const& t : h.txs) {
                if (t.t_begin0 < two && (t.t_end == 0 || t.t_end > two)) { return std::string("?open"); }
            }
            for (auto const& t : h.txs) {
                if (ord.count(t.id) == 0) { continue; }
                long bop = 1L << 40;
                for (auto const& e : h.evs) {
                    if (e.tx == t.id && e.op >= 0 && cc.ops[ix(e.op)].kind == "BEGIN") { bop = e.op; }
                }
                if (bop < cut && t.out == outcome::aborted) {
                    out += "D" + std::to_string(ord[t.id].first) + "." + std::to_string(ord[t.id].second) + " ";
                }
            }
            out += "\n";
            std::string p1;
            std::string p2;
            for (int i = 0; i < static_cast<int>(cc.ops.size()); ++i) {
                for (auto const& e : h.evs) {
                    if (e.op != i) { continue; }
                    auto const& o = cc.ops[ix(i)];
                    if (o.kind == "NOP" || o.kind == "SLEEP" || o.kind == "EPOCH") { continue; }
                    auto st = e.skipped ? "skipped" : stname(e.st);
                    // an empty range may be reported at open or at the first read
                    if (o.kind == "SCAN" && !e.skipped && e.st == Status::OK && e.rows.empty()) { st = stname(Status::WARN_NOT_FOUND); }
                    std::string s = std::to_string(i) + " " + to_text(o) + " -> " + st;
                    for (auto const& x : e.s) { s += " '" + esc(x) + "'"; }
                    for (long x : e.n) { s += " " + std::to_string(x); }
                    for (auto const& x : e.rows) { s += " " + esc(x.key) + "=" + (x.val ? esc(*x.val) : "?"); }
                    (i < cut ? p1 : p2) += s + "\n";
                }
            }
            p2 += "final " + show_state(final_state(h)) + "\n";
            (void) first;
            return out + std::to_string(p1.size()) + "\n" + p1 + p2;
        });
    };
    auto a = run(c, true);
    if (child_failed(a, r)) { return r; }
    if (!a.text.empty() && a.text[0] == '!') {
        r.fail(a.text.substr(1));
        return r;
    }
    r.classes.emplace_back("twin");
    if (a.text == "?open") { return r; }
    auto dead = a.text.substr(0, a.text.find('\n'));
    if (dead.empty()) { return r; }
    test_case d = c;
    for (std::size_t i = 0; i < d.ops.size() && static_cast<long>(i) < cut; ++i) {
        auto it = ops_tx.find(static_cast<int>(i));
        if (it == ops_tx.end()) { continue; }
        auto tag = "D" + std::to_string(it->second.first) + "." + std::to_string(it->second.second) + " ";
        if (dead.find(tag) != std::string::npos) { d.ops[i].kind = "NOP"; }
    }
    auto b = run(d, false);
    if (child_failed(b, r)) { return r; }
    if (!b.text.empty() && b.text[0] == '!') {
        r.fail(b.text.substr(1));
        return r;
    }
    if (b.text == "?open") { return r; }
    auto parse = [](std::string const& t, std::string& p1, std::string& p2) {
        auto x = t.find('\n');
        auto y = t.find('\n', x + 1);
        auto n = std::stoul(t.substr(x + 1, y - x - 1));
        p1 = t.substr(y + 1, n);
        p2 = t.substr(y + 1 + n);
    };
    std::string a1;
    std::string a2;
    std::string b1;
    std::string b2;
    parse(a.text, a1, a2);
    parse(b.text, b1, b2);
    // drop the removed transactions' lines from phase one of the first run
    std::string a1f;
    for (std::size_t p = 0; p < a1.size();) {
        auto e = a1.find('\n', p);
        auto l = a1.substr(p, e - p);
        p = e + 1;
        int i = std::stoi(l);
        if (d.ops[ix(i)].kind != "NOP") { a1f += l + "\n"; }
    }
    if (a1f != b1) {
        r.classes.emplace_back("twin-overlap-differs"); // the survivors met the aborted one
        return r;
    }
    r.nontrivial = true;
    r.classes.emplace_back("twin-compared");
    if (std::getenv("VPH_SHOW") != nullptr) { r.extra = a.text + "-----\n" + b.text; }
    // what an aborted insert leaves in the index goes away within some epochs,
    // and its removal can meet a scan
    if (a2 != b2 && (cut < 1 || c.ops[ix(static_cast<int>(cut) - 1)].kind != "EPOCH" || c.ops[ix(static_cast<int>(cut) - 1)].num("n") < 12)) {
        auto d2 = first_diff(a2, b2);
        auto one = d2.substr(0, d2.find("  two:"));
        if (one.find(" COMMIT") != std::string::npos && one.find("ERR_") != std::string::npos) {
            r.classes.emplace_back("twin-collector");
            return r;
        }
    }
    if (a2 != b2) { r.fail("trace: later work differs without the aborted transaction" + first_diff(a2, b2)); }
    return r;
}

reg s06{{"S06",
         "a transaction that had written was aborted and another writing one committed (twin runs: an "
         "aborted transaction was removed and the later work compared)",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = static_cast<int>(r.pick(std::vector<long>{1, 2, 3, 4}));
             g.max_ops = 5;
             g.ltx_blind = r.pct(70);
             g.p_abort = 40;
             g.p_ro = 5;
             if (idx % 3 == 0) {
                 return gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), 2);
             }
             if (idx % 3 == 1) {
                 return gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             g.ltx_blind = false;
             g.p_epoch = 10;
             auto c = gen_interleaved(r, g, static_cast<int>(r.range(1, 3)), static_cast<int>(r.range(1, 4)));
             c.cfg["tick"] = 0;
             c.cfg["pre"] = 0;
             c.cfg["twin"] = 1;
             c.cfg.erase("leaf");
             for (auto& o : c.ops) {
                 o.n.erase("w");
                 if (o.kind == "BEGIN" && o.num("ty") == 1 && r.pct(70)) { o.n["w"] = 0; }
             }
             // sequences take part
             if (r.pct(40)) {
                 c.ops.insert(c.ops.begin(), mk(0, 0, "SQC"));
                 for (int k = 0; k < 3; ++k) {
                     auto o = mk(0, static_cast<int>(r.below(c.c("ns"))), "SQU");
                     o.n["ver"] = r.range(1, 9);
                     o.n["val"] = r.range(1, 99);
                     c.ops.insert(c.ops.begin() + r.range(1, static_cast<long>(c.ops.size())), o);
                 }
             }
             // premature operations do nothing, so give long transactions time
             std::vector<op> v;
             for (auto const& o : c.ops) {
                 v.push_back(o);
                 if (o.kind == "BEGIN" && o.num("ty") != 0) {
                     auto e = mk(0, o.sess, "EPOCH");
                     e.n["n"] = 2;
                     v.push_back(e);
                 }
             }
             c.ops = v;
             for (int s = 0; s < c.c("ns"); ++s) { c.ops.push_back(mk(0, s, r.pct(50) ? "ABORT" : "COMMIT")); }
             auto e = mk(0, 0, "EPOCH");
             e.n["n"] = r.pick(std::vector<long>{1, 3, 12, 12});
             c.ops.push_back(e);
             auto cut = c.ops.size();
             // phase two: probes
             long vn = 500;
             int ns = static_cast<int>(c.c("ns"));
             c.cfg["ns"] = ns + 2;
             c.ops.push_back(mk(0, ns, "SQR"));
             std::vector<op> p;
             gen_opts g2 = g;
             g2.p_abort = 10;
             g2.p_ro = 20;
             g2.min_ops = 3;
             int n = static_cast<int>(r.range(1, 3));
             for (int k = 0; k < n; ++k) { gen_tx(r, g2, 0, ns + static_cast<int>(r.below(2)), vn, p); }
             for (auto& o : p) {
                 o.n.erase("w");
                 o.n.erase("wait");
                 c.ops.push_back(o);
                 if (o.kind == "BEGIN" && o.num("ty") != 0) {
                     auto ee = mk(0, o.sess, "EPOCH");
                     ee.n["n"] = 2;
                     c.ops.push_back(ee);
                 }
             }
             for (int s = ns; s < ns + 2; ++s) { c.ops.push_back(mk(0, s, "ABORT")); }
             for (auto i = cut; i < c.ops.size(); ++i) { c.ops[i].thr = 9; }
             plain_scans(c);
             return c;
         },
         eval_s06}};

// ---------------------------------------------------------------- S07

// the moment before which a transaction has certainly not ended
std::uint64_t first_end(test_case const& c, history const& h, txn const& t) {
    auto le = t.t_commit0 != 0 ? t.t_commit0 : t.t_end;
    for (int ei : t.evs) {
        auto const& e = h.evs[ix(ei)];
        if (op_of(c, e).kind == "ABORT" || is_err(e.st)) { le = le == 0 ? e.t0 : std::min(le, e.t0); }
    }
    return le;
}

void judge_s07(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    auto has = [](std::vector<long> const& v, long x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    auto where = [&](ev const& e) { return "op" + std::to_string(e.op) + " " + to_text(op_of(c, e)) + " -> " + stname(e.st); };
    auto started = [&](txn const& t) {
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& k = op_of(c, e).kind;
            if ((is_read(k) || is_write(k)) && e.st != Status::WARN_PREMATURE && e.st != Status::WARN_WRITE_WITHOUT_WP) { return e.t1; }
        }
        return ~std::uint64_t{0};
    };
    for (auto const& t : h.txs) {
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            long st = o.num("st");
            if (t.type == 1 && is_write(o.kind)) {
                if (!has(t.wp, st)) {
                    r.nontrivial = true;
                    if (e.st != Status::WARN_WRITE_WITHOUT_WP && e.st != Status::WARN_PREMATURE &&
                        e.st != Status::ERR_READ_AREA_VIOLATION) {
                        r.fail("undeclared write: " + where(e));
                    }
                } else if (e.st == Status::WARN_WRITE_WITHOUT_WP) {
                    r.fail("declared write refused: " + where(e));
                }
            }
            if (t.type == 1 && is_read(o.kind)) {
                bool out = (!t.rp.empty() && !has(t.rp, st)) || has(t.rn, st);
                if (out) {
                    r.nontrivial = true;
                    if (e.st != Status::ERR_READ_AREA_VIOLATION && e.st != Status::WARN_PREMATURE) {
                        r.fail("read outside the read area: " + where(e));
                    }
                    if (e.st == Status::ERR_READ_AREA_VIOLATION && t.out != outcome::aborted) {
                        r.fail("not aborted after a read area violation: " + where(e));
                    }
                } else if (e.st == Status::ERR_READ_AREA_VIOLATION) {
                    r.fail("read inside the read area refused: " + where(e));
                }
            }
            if (t.type != 1 && (e.st == Status::ERR_READ_AREA_VIOLATION || e.st == Status::WARN_WRITE_WITHOUT_WP)) {
                r.fail("rule of long transactions applied to another kind: " + where(e));
            }
        }
        if (t.type != 0) { continue; }
        // storages a short transaction depends on
        std::set<long> dep;
        std::set<long> any;
        std::set<std::pair<long, std::string>> own;
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            if (is_read(o.kind) || is_write(o.kind)) { any.insert(o.num("st")); }
            if (own.count({o.num("st"), o.str("k")}) != 0) { continue; }
            if (is_write(o.kind) && e.st == Status::OK) { own.insert({o.num("st"), o.str("k")}); }
            if (is_read(o.kind) && (e.st == Status::OK || e.st == Status::WARN_NOT_FOUND)) { dep.insert(o.num("st")); }
            if (o.kind == "DEL" && e.st == Status::OK) { dep.insert(o.num("st")); }
        }
        bool may{false};
        for (auto const& l : h.txs) {
            if (l.type != 1) { continue; }
            bool over = !(l.t_end != 0 && l.t_end < t.t_begin0) && !(t.t_end != 0 && t.t_end < l.t_begin0);
            bool d{false};
            for (long s : l.wp) {
                may = may || (over && any.count(s) != 0);
                d = d || dep.count(s) != 0;
            }
            // certainly active for the whole commit
            auto st0 = started(l);
            auto le = first_end(c, h, l);
            if (le == 0) { continue; }
            if (d && t.commit_called && st0 < t.t_commit0 && t.t_end != 0 && t.t_end < le) {
                r.nontrivial = true;
                if (t.out == outcome::committed) {
                    r.fail("committed a read of a preserved storage: tx" + std::to_string(t.id) + " while tx" +
                           std::to_string(l.id) + " was active");
                }
            }
        }
        if (!may) {
            if (t.out == outcome::aborted && t.reason == static_cast<int>(shirakami::reason_code::CC_OCC_WP_VERIFY)) {
                r.fail("refused for a write preserve nobody holds: tx" + std::to_string(t.id));
            }
            for (int ei : t.evs) {
                if (h.evs[ix(ei)].st == Status::WARN_CONFLICT_ON_WRITE_PRESERVE) {
                    r.fail("write preserve conflict with nobody: " + where(h.evs[ix(ei)]));
                }
            }
        }
    }
    if (r.bad) { return; }
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("refused operations left an effect: " + w); }
}

reg s07{{"S07",
         "an undeclared write or a read outside the read area was attempted, or a short transaction "
         "depended on a storage preserved by an active long transaction when it committed",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(2, 3));
             g.keys = static_cast<int>(r.range(1, 3));
             g.max_ops = 5;
             g.p_short = 50;
             g.p_long = 45;
             g.p_ro = 5;
             g.read_area = true;
             g.ltx_blind = r.pct(50);
             test_case c;
             if (idx % 3 == 0) {
                 c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), 2);
             } else {
                 c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             // aim some writes of long transactions at other storages
             std::map<int, long> ty;
             for (auto& o : c.ops) {
                 if (o.kind == "BEGIN") { ty[o.sess] = o.num("ty"); }
                 if (is_write(o.kind) && ty[o.sess] == 1 && r.pct(25)) { o.n["st"] = r.below(g.storages); }
                 if (o.kind == "BEGIN" && o.num("ty") == 1 && r.pct(40)) { o.n["w"] = 1; }
             }
             return c;
         },
         [](test_case const& c) { return simple(c, judge_s07); }}};

// ---------------------------------------------------------------- S08

void judge_s08(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    for (auto const& t : h.txs) {
        if (t.type != 1) { continue; }
        bool first{true};
        bool other{false};
        for (auto const& l : h.txs) {
            if (l.id == t.id) { continue; }
            bool over = !(l.t_end != 0 && l.t_end < t.t_begin0) && !(t.t_end != 0 && t.t_end < l.t_begin0);
            if (!over) { continue; }
            other = true;
            // any long transaction not certainly begun later is in the way
            if (l.type == 1 && !(l.t_begin0 > t.t_begin1)) { first = false; }
        }
        bool strayed{false};
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            if (e.st == Status::ERR_READ_AREA_VIOLATION) { strayed = true; }
            if (op_of(c, e).kind != "PRIO" || e.st != Status::OK) { continue; }
            bool oldest{true};
            bool older{false};
            for (auto const& l : h.txs) {
                if (l.id == t.id || l.type != 1) { continue; }
                if (l.t_begin0 > t.t_begin1 || (l.t_end != 0 && l.t_end < e.t0)) { continue; }
                oldest = false;
                auto le = first_end(c, h, l);
                if (l.t_begin1 < t.t_begin0 && (le == 0 || le > e.t1)) { older = true; }
            }
            if (oldest && e.n.at(0) != 1) {
                r.fail("priority: tx" + std::to_string(t.id) + " is the oldest but told otherwise");
            }
            if (older && e.n.at(0) != 0) {
                r.fail("priority: tx" + std::to_string(t.id) + " is not the oldest but told so");
            }
        }
        if (!first || strayed) { continue; }
        if (other) { r.nontrivial = true; }
        if (t.out == outcome::aborted && !t.user_abort) {
            r.fail("oldest long transaction refused: tx" + std::to_string(t.id) + " " + stname(t.end_st) + " reason " +
                   std::to_string(t.reason));
        }
        if (t.out == outcome::committed && !t.sync) {
            r.fail("oldest long transaction waited: tx" + std::to_string(t.id));
        }
    }
}

reg s08{{"S08",
         "a long transaction begun before every other long transaction that overlapped it, while some "
         "other transaction overlapped it",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 3));
             g.keys = static_cast<int>(r.range(1, 4));
             g.max_ops = 5;
             g.p_short = 45;
             g.p_long = 45;
             g.p_ro = 10;
             g.p_abort = 7;
             g.read_area = r.pct(30);
             test_case c;
             if (idx % 4 == 3) {
                 c = gen_chain(r, 25);
             } else if (idx % 4 == 0) {
                 c = gen_concurrent(r, g, static_cast<int>(r.range(2, 4)), 2);
             } else {
                 c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             std::map<int, long> ty;
             std::vector<op> v;
             for (auto& o : c.ops) {
                 v.push_back(o);
                 if (o.kind == "BEGIN") { ty[o.sess] = o.num("ty"); }
                 if (ty[o.sess] == 1 && (is_read(o.kind) || is_write(o.kind)) && r.pct(10)) { v.push_back(mk(o.thr, o.sess, "PRIO")); }
             }
             c.ops = v;
             return c;
         },
         [](test_case const& c) { return simple(c, judge_s08); }}};

} // namespace
} // namespace vp
