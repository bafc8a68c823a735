#include "oracle.h"

#include <algorithm>
#include <sstream>
#include <unordered_set>

namespace vp {

bool in_range(op const& o, std::string const& key) {
    long le = o.num("le", 2);
    long re = o.num("re", 2);
    auto l = o.str("l");
    auto r = o.str("r");
    if (le == 0 && !(key > l)) { return false; }
    if (le == 1 && !(key >= l)) { return false; }
    if (re == 0 && !(key < r)) { return false; }
    if (re == 1 && !(key <= r)) { return false; }
    return true;
}

std::vector<row> range_of(state const& view, op const& o) {
    std::vector<row> out;
    long st = o.num("st");
    for (auto it = view.lower_bound({st, std::string()}); it != view.end() && it->first.first == st;
         ++it) {
        if (in_range(o, it->first.second)) { out.push_back({it->first.second, it->second}); }
    }
    return out;
}

namespace {

std::string rows_text(std::vector<row> const& v) {
    std::string o = "[";
    for (auto& r : v) { o += esc(r.key) + "=" + (r.val ? esc(*r.val) : "?") + " "; }
    return o + "]";
}

bool row_eq(row const& got, row const& want) {
    return got.key == want.key && (!got.val || *got.val == *want.val);
}

std::string check_rows(op const& o, ev const& e, state const& s) {
    auto want = range_of(s, o);
    if (o.num("rev") != 0) {
        // limited to one record: the last record in range, or nothing
        if (e.st == Status::WARN_NOT_FOUND || e.rows.empty()) { return {}; }
        if (want.empty() || !row_eq(e.rows[0], want.back())) {
            return "reverse scan gave " + rows_text(e.rows) + " expected last of " + rows_text(want);
        }
        return {};
    }
    if (!e.n.empty()) {
        // some rows could not be read: those that were must be there
        for (auto const& r : e.rows) {
            if (std::none_of(want.begin(), want.end(), [&](row const& w) { return row_eq(r, w); })) {
                return "scan row " + esc(r.key) + " not in " + rows_text(want);
            }
        }
        return {};
    }
    bool full = e.complete && o.num("max") == 0;
    if (full && e.rows.size() != want.size()) {
        return "scan gave " + rows_text(e.rows) + " expected " + rows_text(want);
    }
    if (e.rows.size() > want.size()) {
        return "scan gave " + rows_text(e.rows) + " expected a leading part of " + rows_text(want);
    }
    for (std::size_t i = 0; i < e.rows.size(); ++i) {
        if (!row_eq(e.rows[i], want[i])) {
            return "scan gave " + rows_text(e.rows) + " expected " + rows_text(want);
        }
    }
    return {};
}

// operations by which a delete merely cancelled an earlier write (at most five)
std::vector<int> cancelling(history const& h, txn const& t) {
    std::vector<int> v;
    for (int x : t.evs) {
        ev const& e = h.evs[static_cast<std::size_t>(x)];
        if (v.size() < 5 && (e.st == Status::WARN_CANCEL_PREVIOUS_INSERT ||
                             e.st == Status::WARN_CANCEL_PREVIOUS_UPSERT)) {
            v.push_back(x);
        }
    }
    return v;
}

} // namespace

std::string apply_tx(test_case const& c, history const& h, txn const& t, state& base,
                     obs_options const& oo) {
    state s = base;
    struct cursor {
        op const* o{nullptr};
        ev acc;
        bool live{false};
        bool read_since{true};
    };
    std::map<long, cursor> cur;
    auto bad = [&](ev const& e, std::string const& what) {
        return "tx" + std::to_string(t.id) + " op" + std::to_string(e.op) + " " +
               to_text(c.ops[static_cast<std::size_t>(e.op)]) + " -> " + stname(e.st) + ": " + what;
    };
    // does this operation, or the next one cancelling what it writes, leave the old row
    auto canc = oo.cancel_restores == 0 ? std::vector<int>{} : cancelling(h, t);
    auto restores = [&](int at, std::pair<long, std::string> const& k) {
        for (std::size_t i = 0; i < canc.size(); ++i) {
            if (canc[i] < at) { continue; }
            op const& o = c.ops[static_cast<std::size_t>(h.evs[static_cast<std::size_t>(canc[i])].op)];
            if (o.num("st") == k.first && o.str("k") == k.second) {
                return (oo.cancel_restores >> i & 1U) != 0;
            }
        }
        return false;
    };
    for (int ei : t.evs) {
        ev const& e = h.evs[static_cast<std::size_t>(ei)];
        op const& o = c.ops[static_cast<std::size_t>(e.op)];
        std::pair<long, std::string> k{o.num("st"), o.str("k")};
        auto it = s.find(k);
        bool present = it != s.end();
        if (o.kind == "GET") {
            if (!oo.reads) { continue; }
            if (e.st == Status::OK) {
                if (!present) { return bad(e, "read a value, model says absent"); }
                if (it->second != e.s.at(0)) {
                    return bad(e, "read " + esc(e.s[0]) + " model " + esc(it->second));
                }
            } else if (e.st == Status::WARN_NOT_FOUND && present) {
                return bad(e, "not found, model has " + esc(it->second));
            }
        } else if (o.kind == "EXI") {
            if (!oo.reads) { continue; }
            if (e.st == Status::OK && !present) { return bad(e, "exists, model says absent"); }
            if (e.st == Status::WARN_NOT_FOUND && present) { return bad(e, "not found, model has it"); }
        } else if (o.kind == "INS") {
            if (e.st == Status::OK) {
                if (oo.writes_status && present && !restores(ei, k)) {
                    return bad(e, "inserted, model has it");
                }
                if (oo.effects) { s[k] = o.str("v"); }
            } else if (e.st == Status::WARN_ALREADY_EXISTS && oo.writes_status && !present) {
                return bad(e, "already exists, model says absent");
            }
        } else if (o.kind == "UPD") {
            if (e.st == Status::OK) {
                if (oo.writes_status && !present) { return bad(e, "updated, model says absent"); }
                if (oo.update_absent_skips && !present) { continue; }
                if (oo.effects) { s[k] = o.str("v"); }
            }
        } else if (o.kind == "UPS") {
            if (e.st == Status::OK && oo.effects) { s[k] = o.str("v"); }
        } else if (o.kind == "DEL") {
            if (e.st == Status::OK) {
                if (oo.writes_status && !present) { return bad(e, "deleted, model says absent"); }
                if (oo.effects) { s.erase(k); }
            } else if (e.st == Status::WARN_CANCEL_PREVIOUS_INSERT ||
                       e.st == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                if (oo.effects) {
                    s.erase(k);
                    if (auto b = base.find(k); b != base.end() && restores(ei, k)) { s[k] = b->second; }
                }
            }
        } else if (o.kind == "SCAN") {
            if (!oo.reads) { continue; }
            if (e.st == Status::OK || e.st == Status::WARN_NOT_FOUND) {
                auto r = check_rows(o, e, s);
                if (!r.empty()) { return bad(e, r); }
            }
        } else if (o.kind == "SOPEN") {
            if (!oo.reads) { continue; }
            auto& cu = cur[o.num("h")];
            cu = cursor{};
            cu.o = &o;
            if (e.st == Status::OK) {
                cu.live = true;
                cu.read_since = false;
            } else if (e.st == Status::WARN_NOT_FOUND) {
                auto r = check_rows(o, e, s);
                ev full;
                full.st = e.st;
                full.complete = true;
                r = check_rows(o, full, s);
                if (!r.empty()) { return bad(e, r); }
            }
        } else if (o.kind == "SREAD") {
            auto& cu = cur[o.num("h")];
            if (!cu.live) { continue; }
            if (cu.read_since) { continue; } // same position again
            cu.read_since = true;
            if (e.st == Status::OK) {
                for (auto& r : e.rows) { cu.acc.rows.push_back(r); }
                for (auto n : e.n) { cu.acc.n.push_back(n); }
                auto r = check_rows(*cu.o, cu.acc, s);
                if (!r.empty()) { return bad(e, r); }
            }
        } else if (o.kind == "SNEXT") {
            auto& cu = cur[o.num("h")];
            if (!cu.live) { continue; }
            if (!cu.read_since) { cu.acc.n.push_back(0); } // position skipped unread
            cu.read_since = false;
            if (e.st == Status::WARN_SCAN_LIMIT) {
                cu.acc.complete = true;
                cu.live = false;
                auto r = check_rows(*cu.o, cu.acc, s);
                if (!r.empty()) { return bad(e, r); }
            }
        } else if (o.kind == "SCLOSE") {
            cur.erase(o.num("h"));
        }
    }
    if (oo.persist) { base = std::move(s); }
    return {};
}

order_problem all_committed(history const& h) {
    order_problem p;
    for (auto const& t : h.txs) {
        if (t.out == outcome::committed) { p.nodes.push_back({t.id, {}}); }
    }
    return p;
}

state final_state(history const& h) {
    state s;
    for (std::size_t i = 0; i < h.final_rows.size(); ++i) {
        for (auto const& r : h.final_rows[i]) {
            s[{static_cast<long>(i), r.key}] = r.val ? *r.val : "?";
        }
    }
    return s;
}

std::string show_state(state const& s) {
    std::string o;
    for (auto const& [k, v] : s) {
        o += std::to_string(k.first) + "/" + esc(k.second) + "=" + esc(v) + " ";
    }
    return o;
}

namespace {

struct searcher {
    test_case const& c;
    history const& h;
    order_problem const& p;
    state fin;
    std::vector<std::uint64_t> pred;
    std::unordered_set<std::string> memo;
    std::size_t steps{0};
    std::size_t best{0};
    std::string why;
    std::vector<int> path;
    bool gave_up{false};

    static std::string key_of(std::uint64_t mask, state const& s) {
        std::string k(reinterpret_cast<char const*>(&mask), sizeof(mask));
        for (auto const& [a, b] : s) {
            k += std::to_string(a.first) + "/" + a.second + '\0' + b + '\0';
        }
        return k;
    }

    bool go(std::uint64_t mask, state const& s, std::size_t depth) {
        if (++steps > 400000) {
            gave_up = true;
            return true;
        }
        std::size_t n = p.nodes.size();
        if (depth == n) {
            if (!p.check_final || s == fin) { return true; }
            if (!p.gone.empty()) {
                state left;
                for (auto const& x : s) {
                    if (p.gone.count(x.first.first) == 0) { left.insert(x); }
                }
                if (left == fin) { return true; }
            }
            if (best <= n) {
                best = n + 1;
                why = "final contents " + show_state(fin) + " differ from " + show_state(s);
            }
            return false;
        }
        if (!memo.insert(key_of(mask, s)).second) { return false; }
        for (std::size_t i = 0; i < n; ++i) {
            if (((mask >> i) & 1U) != 0) { continue; }
            if ((pred[i] & ~mask) != 0) { continue; }
            // "merely cancelled" may mean that nothing was written at all
            auto const& t = h.txs[static_cast<std::size_t>(p.nodes[i].tx)];
            unsigned nv = 1U << (cancelling(h, t).size() + (p.nodes[i].oo.relaxed ? 1 : 0));
            for (unsigned v = 0; v < nv; ++v) {
                state s2 = s;
                auto oo = p.nodes[i].oo;
                oo.update_absent_skips = p.nodes[i].oo.relaxed && (v & 1U) != 0;
                oo.cancel_restores = p.nodes[i].oo.relaxed ? v >> 1U : v;
                auto r = apply_tx(c, h, t, s2, oo);
                if (!r.empty()) {
                    if (depth >= best) {
                        best = depth + 1;
                        why = r;
                    }
                    continue;
                }
                path.push_back(static_cast<int>(i));
                if (go(mask | (1ULL << i), s2, depth + 1)) { return true; }
                path.pop_back();
            }
        }
        return false;
    }
};

} // namespace

std::string find_order(test_case const& c, history const& h, order_problem const& p,
                       std::vector<int>* order) {
    if (p.nodes.size() > 40) { return {}; }
    searcher s{c, h, p, final_state(h), {}, {}, 0, 0, {}, {}, false};
    s.pred.assign(p.nodes.size(), 0);
    for (auto [a, b] : p.edges) { s.pred[static_cast<std::size_t>(b)] |= 1ULL << static_cast<unsigned>(a); }
    if (s.go(0, {}, 0)) {
        if (order != nullptr && !s.gave_up) {
            for (int i : s.path) { order->push_back(p.nodes[static_cast<std::size_t>(i)].tx); }
        }
        return {};
    }
    return "no serial order (deepest: " + s.why + ")";
}

std::string show(test_case const& c, history const& h) {
    std::ostringstream ss;
    for (auto const& e : h.evs) {
        ss << "  [" << e.t0 << "-" << e.t1 << "] ";
        if (e.op >= 0) { ss << to_text(c.ops[static_cast<std::size_t>(e.op)]); }
        if (e.skipped) {
            ss << " -> skipped\n";
            continue;
        }
        ss << " -> " << stname(e.st);
        for (auto const& s : e.s) { ss << " '" << esc(s) << "'"; }
        for (auto n : e.n) { ss << " " << n; }
        if (!e.rows.empty()) { ss << " " << rows_text(e.rows); }
        if (e.complete) { ss << " end"; }
        if (e.tx >= 0) { ss << " (tx" << e.tx << ")"; }
        ss << "\n";
    }
    for (auto const& t : h.txs) {
        static char const* ty[] = {"SHORT", "LONG", "RO"};
        static char const* oc[] = {"open", "committed", "aborted", "unknown"};
        ss << "  tx" << t.id << " " << ty[t.type] << " " << oc[static_cast<int>(t.out)] << " "
           << stname(t.end_st) << " reason " << t.reason << " [" << t.t_begin0 << "-" << t.t_end
           << "]\n";
    }
    if (h.final_ok) { ss << "  final " << show_state(final_state(h)) << "\n"; }
    for (auto const& s : h.errlogs) { ss << "  log: " << s << "\n"; }
    for (auto const& s : h.anomalies) { ss << "  anomaly: " << s << "\n"; }
    return ss.str();
}

} // namespace vp
