// Outcome reporting, identifiers, states and sessions.
#include <algorithm>
#include <map>
#include <set>

#include "props.h"

namespace vp {
namespace {

// reason codes (include/shirakami/result_info.h)
enum : int {
    R_UNKNOWN,
    R_KVS_DELETE,
    R_KVS_INSERT,
    R_KVS_UPDATE,
    R_LTX_PHANTOM,
    R_LTX_READ_AREA,
    R_LTX_READ_UPPER,
    R_LTX_WRITE_PROTECT,
    R_OCC_WP,
    R_OCC_READ,
    R_OCC_PHANTOM,
    R_USER
};

bool did(test_case const& c, history const& h, txn const& t, std::vector<std::string> const& kinds) {
    return std::any_of(t.evs.begin(), t.evs.end(), [&](int ei) {
        return std::find(kinds.begin(), kinds.end(), op_of(c, h.evs[ix(ei)]).kind) != kinds.end();
    });
}

/// whether the reason can be the one this transaction failed for
std::string reason_fits(test_case const& c, history const& h, txn const& t, int rc) {
    auto no = [&](char const* w) { return "reason " + std::to_string(rc) + ": " + w; };
    if (t.user_abort) { return rc == R_USER ? "" : no("the user aborted"); }
    if (rc == R_USER) { return no("the user did not abort"); }
    if (rc == R_UNKNOWN) { return no("no reason for an abort"); }
    if (rc < R_UNKNOWN || rc > R_USER) { return no("no such reason"); }
    bool occ = rc == R_OCC_WP || rc == R_OCC_READ || rc == R_OCC_PHANTOM;
    bool ltx = rc >= R_LTX_PHANTOM && rc <= R_LTX_WRITE_PROTECT;
    if (t.type == 2) { return no("a read only transaction failed"); }
    if (occ && t.type != 0) { return no("not a short transaction"); }
    if (ltx && t.type != 1) { return no("not a long transaction"); }
    if ((rc == R_LTX_READ_AREA) != (t.end_st == Status::ERR_READ_AREA_VIOLATION)) {
        return no("read area error and reason disagree");
    }
    bool kvs = rc == R_KVS_DELETE || rc == R_KVS_INSERT || rc == R_KVS_UPDATE;
    if (t.type == 0 && kvs && t.end_st != Status::ERR_KVS) { return no("status is not the key-value one"); }
    if (!kvs && t.end_st == Status::ERR_KVS) { return no("status is the key-value one"); }
    if (rc == R_KVS_DELETE && !did(c, h, t, {"DEL"})) { return no("nothing was deleted"); }
    if (rc == R_KVS_INSERT && !did(c, h, t, {"INS"})) { return no("nothing was inserted"); }
    if (rc == R_KVS_UPDATE && !did(c, h, t, {"UPD"}) && !(did(c, h, t, {"DEL"}) && did(c, h, t, {"INS", "UPS"}))) { return no("nothing was updated"); }
    if (rc == R_LTX_WRITE_PROTECT && !did(c, h, t, {"INS", "UPD", "UPS", "DEL"})) {
        return no("nothing was written");
    }
    if (rc == R_LTX_READ_UPPER &&
        !did(c, h, t, {"GET", "EXI", "SCAN", "SOPEN", "INS", "UPD", "DEL"})) {
        return no("nothing was read");
    }
    if (rc == R_OCC_READ &&
        !did(c, h, t, {"GET", "EXI", "SCAN", "SOPEN", "INS", "UPD", "DEL"})) {
        return no("nothing was read");
    }
    if (rc == R_OCC_WP) {
        bool any = std::any_of(h.txs.begin(), h.txs.end(), [&](txn const& x) {
            return x.type == 1 && !x.wp.empty() && x.t_begin0 < t.t_end &&
                   (x.out == outcome::open || x.t_end > t.t_begin0);
        });
        if (!any) { return no("no long transaction was active"); }
    }
    return {};
}

void judge_a06(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    if (r.bad) { return; }
    for (auto const& q : h.reqs) {
        if (q.cb->count != 1) {
            r.fail("notifications of one commit request: " + std::to_string(q.cb->count));
            return;
        }
        if (q.sync && q.tx >= 0 && q.cb->t > h.txs[ix(q.tx)].t_commit1) {
            r.fail("reported as delivered before it was");
        }
    }
    int failed{0};
    bool async{false};
    for (auto const& t : h.txs) {
        if (t.cb && t.commit_called && !t.sync) { async = true; }
        if (t.cb && t.commit_called && t.out == outcome::aborted && t.cb->count == 1) {
            auto w = reason_fits(c, h, t, t.cb->reason);
            if (!w.empty()) {
                r.fail("notified " + w + " (transaction " + std::to_string(t.id) + ")");
                return;
            }
        }
        if (t.out == outcome::aborted && !t.user_abort) { ++failed; }
    }
    for (auto const& e : h.evs) {
        if (e.skipped || op_of(c, e).kind != "RESULT" || e.n.empty()) { continue; }
        // the last transaction of this session that had ended before the query
        txn const* last{nullptr};
        bool open{false};
        for (auto const& t : h.txs) {
            if (t.sess != e.sess || t.t_begin0 > e.t1) { continue; }
            last = &t;
            open = t.out == outcome::open || t.t_end > e.t0;
        }
        if (last == nullptr || open) { continue; }
        auto rc = static_cast<int>(e.n[0]);
        if (last->out == outcome::committed) {
            if (e.n[1] != 0 || e.n[2] != 0) {
                r.fail("key or storage reported after a successful commit");
                return;
            }
            if (rc != R_UNKNOWN) {
                r.fail("reason " + std::to_string(rc) + " reported after a successful commit");
                return;
            }
            continue;
        }
        if (last->out != outcome::aborted) { continue; }
        auto w = reason_fits(c, h, *last, rc);
        if (!w.empty()) {
            r.fail("recorded " + w + " (transaction " + std::to_string(last->id) + ")");
            return;
        }
        if (last->cb && last->commit_called && last->cb->reason != rc) {
            r.fail("notified reason " + std::to_string(last->cb->reason) + ", recorded " +
                   std::to_string(rc));
            return;
        }
        if (e.n[2] != 0 && !e.s[1].empty()) {
            // the storage must be one it accessed
            bool hit = std::any_of(last->evs.begin(), last->evs.end(), [&](int ei) {
                auto const& o = op_of(c, h.evs[ix(ei)]);
                return (is_read(o.kind) || is_write(o.kind)) && "s" + std::to_string(o.num("st")) == e.s[1];
            });
            if (!hit) {
                r.fail("reported storage " + e.s[1] + " was not accessed");
                return;
            }
        }
        if (e.n[1] != 0 && rc != R_USER && !e.s[0].empty()) {
            bool hit = std::any_of(c.ops.begin(), c.ops.end(), [&](op const& o) {
                return o.str("k") == e.s[0] || o.str("l") == e.s[0] || o.str("r") == e.s[0];
            });
            if (!hit) {
                r.fail("reported key is none of the program");
                return;
            }
        }
    }
    if (async) { r.classes.emplace_back("waited"); }
    r.nontrivial = failed > 0 || async;
    if (c.c("e_bypass") != 0) { return; } // serializability with waiting bypass is a known finding of S01
    auto w = serial(c, h, all_committed(h), r);
    if (!w.empty()) { r.fail("outcome and contents disagree: " + w); }
}

/// every query after the end of a transaction
void with_results(rng& r, test_case& c) {
    std::vector<op> out;
    for (auto& o : c.ops) {
        out.push_back(o);
        bool end = o.kind == "COMMIT" || o.kind == "ABORT";
        if (end || r.pct(4)) {
            auto q = mk(o.thr, o.sess, "RESULT");
            out.push_back(q);
        }
    }
    c.ops = out;
}

reg a06{{"A06",
         "a transaction failed for a reason other than the user's request, or a commit was answered "
         "later than the call returned",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = static_cast<int>(r.pick(std::vector<long>{2, 3, 4}));
             g.max_ops = 4;
             g.min_ops = 1;
             g.ltx_blind = r.pct(60);
             g.read_area = r.pct(25);
             g.wait_commit = r.pct(50);
             g.p_long = static_cast<int>(r.pick(std::vector<long>{0, 30, 70}));
             test_case c;
             if (idx % 4 == 3) {
                 c = gen_chain(r, 25);
             } else if (idx % 2 == 0) {
                 c = gen_concurrent(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(1, 2)));
             } else {
                 c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 7)));
             }
             if (idx % 4 != 3 && r.pct(20)) { c.cfg["e_bypass"] = 1; }
             with_results(r, c);
             return c;
         },
         [](test_case const& c) { return simple(c, judge_a06); }}};

// ---------------------------------------------------------------- A08

void judge_a08(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    std::map<std::string, int> owner;
    std::map<int, std::string> mine;
    int ids{0};
    for (auto const& e : h.evs) {
        if (e.skipped || op_of(c, e).kind != "TXID") { continue; }
        if (e.tx < 0) {
            if (e.st != Status::WARN_NOT_BEGIN) {
                r.fail("identifier query without a transaction: " + stname(e.st));
            }
            continue;
        }
        auto const& t = h.txs[ix(e.tx)];
        if (t.commit_called && t.t_commit0 < e.t1) { continue; } // may be answered at any time
        if (e.st != Status::OK) {
            r.fail("identifier query refused: " + stname(e.st));
            continue;
        }
        auto const& s = e.s[0];
        bool form = s.size() == 20 && s.compare(0, 4, "TID-") == 0 &&
                    s.find_first_not_of("0123456789abcdef", 4) == std::string::npos;
        if (!form) { r.fail("form of identifier " + esc(s)); }
        auto& m = mine[e.tx];
        if (!m.empty() && m != s) { r.fail("identifier changed from " + m + " to " + s); }
        m = s;
        auto [it, fresh] = owner.emplace(s, e.tx);
        if (!fresh && it->second != e.tx) {
            r.fail("identifier " + s + " used by transactions " + std::to_string(it->second) + " and " +
                   std::to_string(e.tx));
        }
        if (fresh) { ++ids; }
    }
    r.nontrivial = ids >= 3;
}

reg a08{{"A08",
         "at least three transactions were asked for their identifier",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.keys = 3;
             g.min_ops = 1;
             g.max_ops = 3;
             g.p_abort = 25;
             g.p_long = 30;
             g.p_ro = 20;
             g.wait_commit = r.pct(60);
             auto c = idx % 2 == 0
                              ? gen_concurrent(r, g, static_cast<int>(r.range(2, 4)),
                                               static_cast<int>(r.range(2, 4)))
                              : gen_interleaved(r, g, static_cast<int>(r.range(2, 5)),
                                                static_cast<int>(r.range(4, 10)));
             std::vector<op> out;
             for (auto& o : c.ops) {
                 out.push_back(o);
                 bool edge = o.kind == "BEGIN" || o.kind == "COMMIT" || o.kind == "ABORT";
                 if (r.pct(edge ? 75 : 25)) {
                     auto q = mk(o.thr, o.sess, "TXID");
                     q.n["any"] = 1;
                     out.push_back(q);
                 }
                 if ((o.kind == "COMMIT" || o.kind == "ABORT") && r.pct(25)) {
                     // a session given back and taken again
                     out.push_back(mk(o.thr, o.sess, "LEAVE"));
                     out.push_back(mk(o.thr, o.sess, "ENTER"));
                 }
             }
             c.ops = out;
             return c;
         },
         [](test_case const& c) { return simple(c, judge_a08); }}};

// ---------------------------------------------------------------- A09

// transaction states (include/shirakami/transaction_state.h)
enum : int { T_UNKNOWN, T_WAIT_START, T_STARTED, T_WAIT_COMMIT, T_ABORTED, T_WAIT_DURABLE, T_DURABLE };

int rank_of(int k) {
    switch (k) {
        case T_WAIT_START:
            return 1;
        case T_STARTED:
            return 2;
        case T_WAIT_COMMIT:
            return 3;
        case T_ABORTED:
        case T_WAIT_DURABLE:
            return 4;
        case T_DURABLE:
            return 5;
        default:
            return 0;
    }
}

void judge_a09(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    classify(c, h, r);
    struct look {
        std::uint64_t t0, t1;
        int kind;
        std::uint64_t acquired;
    };
    // slots are used by one transaction each
    struct slot_t {
        int tx{-1};
        long handle{0};
        std::uint64_t a0{0}, a1{0};       // acquisition
        std::uint64_t r0{~0ULL}, r1{~0ULL}; // release
    };
    std::map<long, slot_t> slots;
    std::map<long, std::pair<long, std::uint64_t>> alias; // a slot that was given the handle of another one
    auto slot_of = [&](op const& o, ev const& e) {
        auto it = alias.find(o.num("h"));
        return it == alias.end() || e.t0 < it->second.second ? o.num("h") : it->second.first;
    };
    std::map<int, std::vector<look>> seen; // per transaction
    std::vector<ev const*> evs;
    for (auto const& e : h.evs) {
        auto const& k = op_of(c, e).kind;
        if (!e.skipped && (k == "STACQ" || k == "STCHK" || k == "STREL")) { evs.push_back(&e); }
    }
    std::sort(evs.begin(), evs.end(), [](auto* a, auto* b) { return a->t0 < b->t0; });
    for (auto const* e : evs) {
        auto const& o = op_of(c, *e);
        if (o.n.count("raw") != 0) {
            if (e->st != Status::WARN_INVALID_HANDLE) { r.fail(o.kind + " of an unknown handle: " + stname(e->st)); }
            continue;
        }
        if (o.kind == "STACQ") {
            if (e->tx < 0) {
                if (e->st != Status::WARN_NOT_BEGIN) { r.fail("state handle without a transaction: " + stname(e->st)); }
                continue;
            }
            auto own = std::find_if(slots.begin(), slots.end(), [&](auto const& p) {
                return p.second.tx == e->tx && p.second.r0 == ~0ULL;
            });
            auto& s = own != slots.end() ? own->second : slots[o.num("h")];
            if (own != slots.end() && own->first != o.num("h")) { alias[o.num("h")] = {own->first, e->t1}; }
            if (s.tx == e->tx) {
                if (e->st != Status::WARN_ALREADY_EXISTS || e->n[0] != s.handle) {
                    r.fail("second acquisition: " + stname(e->st));
                }
            } else if (s.tx < 0) {
                if (e->st != Status::OK) {
                    r.fail("acquisition refused: " + stname(e->st));
                    continue;
                }
                s.tx = e->tx;
                s.handle = e->n[0];
                s.a0 = e->t0;
                s.a1 = e->t1;
            }
        } else if (o.kind == "STREL") {
            auto it = slots.find(slot_of(o, *e));
            if (it == slots.end() || it->second.tx < 0 || e->t0 < it->second.a1) { continue; }
            if (it->second.r0 != ~0ULL) { continue; }
            if (e->st != Status::OK) { r.fail("release refused: " + stname(e->st)); }
            it->second.r0 = e->t0;
            it->second.r1 = e->t1;
        }
    }
    for (auto const& [i, a] : slots) {
        for (auto const& [j, b] : slots) {
            if (i < j && a.tx >= 0 && b.tx >= 0 && a.handle == b.handle && a.r0 > b.a1 && b.r0 > a.a1) {
                r.fail("one handle for two transactions");
            }
        }
    }
    for (auto const* e : evs) {
        auto const& o = op_of(c, *e);
        if (o.n.count("raw") != 0 || o.kind == "STACQ") { continue; }
        auto it = slots.find(slot_of(o, *e));
        if (it == slots.end() || it->second.tx < 0) { continue; }
        auto const& s = it->second;
        if (e->t0 > s.r1) {
            bool reused = std::any_of(slots.begin(), slots.end(), [&](auto const& p) {
                return p.first != it->first && p.second.tx >= 0 && p.second.handle == s.handle && p.second.a0 < e->t1;
            });
            if (!reused && e->st != Status::WARN_INVALID_HANDLE) {
                r.fail(o.kind + " of a released handle: " + stname(e->st));
            }
        } else if (o.kind == "STCHK" && e->t0 > s.a1 && e->t1 < s.r0) {
            if (e->st != Status::OK) {
                r.fail("query refused: " + stname(e->st));
                continue;
            }
            seen[s.tx].push_back({e->t0, e->t1, static_cast<int>(e->n[0]), s.a1});
        }
    }
    if (r.bad) { return; }
    bool ended_seen{false};
    for (auto const& [id, v] : seen) {
        auto const& t = h.txs[ix(id)];
        auto say = [&](look const& l, std::string const& w) {
            r.fail("transaction " + std::to_string(id) + " (type " + std::to_string(t.type) + ") showed state " +
                   std::to_string(l.kind) + ": " + w);
        };
        // the last call of the transaction that can have ended it
        std::uint64_t may_end = ~0ULL;
        if (!t.evs.empty() && t.out != outcome::open) { may_end = h.evs[ix(t.evs.back())].t0; }
        if (t.commit_called) { may_end = std::min(may_end, t.t_commit0); }
        std::uint64_t started = ~0ULL;
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& k = op_of(c, e).kind;
            if (is_read(k) && (e.st == Status::OK || e.st == Status::WARN_NOT_FOUND)) {
                started = std::min(started, e.t1);
            }
        }
        for (auto const& l : v) {
            if (rank_of(l.kind) == 0) { say(l, "no documented state"); }
            if (t.type == 0 && (l.kind == T_WAIT_START || l.kind == T_WAIT_COMMIT)) {
                say(l, "not a state of a short transaction");
            }
            if (t.type != 1 && l.kind == T_WAIT_COMMIT) { say(l, "only long transactions wait"); }
            bool fin_kind = l.kind >= T_ABORTED;
            if (l.kind == T_ABORTED && t.out == outcome::committed) { say(l, "it committed"); }
            if (l.kind > T_ABORTED && t.out == outcome::aborted) { say(l, "it aborted"); }
            if (fin_kind && l.t1 < may_end) { say(l, "it was still running"); }
            if (l.kind == T_WAIT_COMMIT && (!t.commit_called || l.t1 < t.t_commit0)) {
                say(l, "commit was not requested");
            }
            if (t.type == 1 && t.commit_called && !t.sync && l.acquired < t.t_commit0 && t.t_commit1 != 0 &&
                l.t0 > t.t_commit1 && rank_of(l.kind) < 3) {
                say(l, "its commit was pending");
            }
            if (l.kind == T_WAIT_START && l.t0 > started) { say(l, "it had already worked"); }
            if (t.out != outcome::open && l.t0 > t.t_end) {
                ended_seen = true;
                if (!fin_kind) { say(l, "it had ended"); }
            }
            for (auto const& m : v) {
                if (m.t1 < l.t0 && rank_of(m.kind) > rank_of(l.kind)) {
                    say(l, "after state " + std::to_string(m.kind));
                }
            }
            if (r.bad) { return; }
        }
    }
    r.nontrivial = ended_seen;
}

reg a09{{"A09",
         "a transaction's state was queried after the transaction had ended",
         [](rng& r, long idx, bool) {
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = 3;
             g.min_ops = static_cast<int>(r.below(2));
             g.max_ops = 3;
             g.p_abort = 30;
             g.p_short = 25;
             g.p_long = 55;
             g.p_ro = 20;
             g.ltx_blind = r.pct(50);
             g.wait_commit = r.pct(40);
             auto c = idx % 2 == 0
                              ? gen_concurrent(r, g, static_cast<int>(r.range(2, 3)),
                                               static_cast<int>(r.range(1, 3)))
                              : gen_interleaved(r, g, static_cast<int>(r.range(2, 4)),
                                                static_cast<int>(r.range(3, 8)));
             int nthr = static_cast<int>(c.c("thr"));
             std::vector<op> out;
             long slot = 0;
             std::map<int, long> cur;
             std::set<long> twice;
             std::vector<long> live; // not going to be released by its transaction
             for (auto& o : c.ops) {
                 out.push_back(o);
                 if (o.kind == "BEGIN") {
                     cur[o.sess] = -1;
                     if (slot < 60 && r.pct(85)) {
                         cur[o.sess] = slot;
                         auto q = mk(o.thr, o.sess, "STACQ");
                         q.n["h"] = slot;
                         out.push_back(q);
                         if (r.pct(15)) {
                             out.push_back(q);
                             twice.insert(slot);
                         }
                         ++slot;
                     }
                 }
                 auto it = cur.find(o.sess);
                 if (it == cur.end() || it->second < 0) { continue; }
                 bool end = o.kind == "COMMIT" || o.kind == "ABORT";
                 auto chk = [&](int thr, long h) {
                     auto q = mk(thr, o.sess, "STCHK");
                     q.n["h"] = h;
                     return q;
                 };
                 if (r.pct(end ? 80 : 40)) { out.push_back(chk(o.thr, it->second)); }
                 if (end) {
                     if (r.pct(25)) {
                         auto q = mk(o.thr, o.sess, "STREL");
                         q.n["h"] = it->second;
                         out.push_back(q);
                         // another thread may be given the same handle
                         if (nthr == 0 && r.pct(30)) { out.push_back(q); }
                         if (nthr == 0 && r.pct(50)) { out.push_back(chk(o.thr, it->second)); }
                     } else {
                         live.push_back(it->second);
                         if (r.pct(60)) { out.push_back(chk(9, it->second)); }
                     }
                     if (r.pct(20)) {
                         auto q = mk(o.thr, o.sess, "STACQ");
                         q.n["h"] = 63;
                         q.n["any"] = 1;
                         out.push_back(q);
                     }
                     it->second = -1;
                 }
                 if (r.pct(3)) {
                     auto q = mk(o.thr, o.sess, r.pct(50) ? "STCHK" : "STREL");
                     q.n["raw"] = r.pick(std::vector<long>{0, 999, -1});
                     out.push_back(q);
                 }
                 // looked at from elsewhere, at any time
                 if (!live.empty() && r.pct(20)) { out.push_back(chk(o.thr, r.pick(live))); }
             }
             if (nthr > 0 && !live.empty() && r.pct(70)) {
                 // one more thread that only looks
                 c.cfg["thr"] = nthr + 1;
                 c.cfg["ns"] = c.c("ns") + 1;
                 bool rel = r.pct(40);
                 for (int i = 0; i < 8; ++i) {
                     auto q = mk(nthr + 1, nthr + 1, "STCHK");
                     auto w = r.below(live.size());
                     q.n["h"] = live[w];
                     // released at any time, once: the number may be given out again
                     if (rel && live.size() > 1 && twice.count(live[w]) == 0 && r.pct(35)) {
                         q.kind = "STREL";
                         live.erase(live.begin() + static_cast<long>(w));
                     }
                     out.push_back(q);
                     if (r.pct(40)) {
                         auto e = mk(nthr + 1, nthr + 1, "SLEEP");
                         e.n["us"] = r.pick(std::vector<long>{50, 300, 1000});
                         out.push_back(e);
                     }
                 }
             }
             c.ops = out;
             return c;
         },
         [](test_case const& c) { return simple(c, judge_a09); }}};

} // namespace
} // namespace vp
