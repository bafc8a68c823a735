// Judgements shared by several properties.
#include <algorithm>

#include "props.h"

namespace vp {

void classify(test_case const& c, history const& h, result& r) {
    int com{0};
    int ab{0};
    bool l{false};
    bool ro{false};
    for (auto const& t : h.txs) {
        if (t.out == outcome::committed) { ++com; }
        if (t.out == outcome::aborted && !t.user_abort) { ++ab; }
        if (t.out == outcome::committed && t.type == 1) { l = true; }
        if (t.out == outcome::committed && t.type == 2) { ro = true; }
    }
    r.classes.push_back(c.c("thr") != 0 ? "threads" : "interleaved");
    if (ab > 0) { r.classes.emplace_back("conflict-abort"); }
    if (l) { r.classes.emplace_back("long-committed"); }
    if (ro) { r.classes.emplace_back("readonly-committed"); }
    if (com >= 3) { r.classes.emplace_back("3+committed"); }
}

// Known finding: insert, update and delete of a long transaction decide whether
// the row exists by its newest version, and nothing verifies that later.  Their
// statuses are tried as observations first and then left out.
//
// If two long transactions overlap and one of them used such an operation on a
// storage the other one wrote, the outcome can be wrong in more ways; those
// histories are not judged.
bool long_existence(test_case const& c, history const& h) {
    auto wrote = [&](txn const& t, bool by_status) {
        std::set<long> s;
        for (int ei : t.evs) {
            auto const& e = h.evs[static_cast<std::size_t>(ei)];
            auto const& o = c.ops[static_cast<std::size_t>(e.op)];
            bool st = o.kind == "INS" || o.kind == "UPD" || o.kind == "DEL";
            if (st || (!by_status && o.kind == "UPS")) { s.insert(o.num("st")); }
        }
        return s;
    };
    for (auto const& a : h.txs) {
        if (a.type != 1 || a.out != outcome::committed) { continue; }
        auto sa = wrote(a, true);
        for (auto const& b : h.txs) {
            if (a.id == b.id || b.type != 1 || b.out != outcome::committed) { continue; }
            if (a.t_end < b.t_begin0 || b.t_end < a.t_begin0) { continue; }
            for (long s : wrote(b, false)) {
                if (sa.count(s) != 0) { return true; }
            }
        }
    }
    return false;
}

std::string serial(test_case const& c, history const& h, order_problem p, result& r) {
    auto w = find_order(c, h, p);
    if (w.empty() || strict()) { return w; }
    bool any{false};
    for (auto& n : p.nodes) {
        if (h.txs[static_cast<std::size_t>(n.tx)].type == 1) {
            any = true;
            n.oo.writes_status = false;
            n.oo.relaxed = true;
        }
    }
    if (!any) { return w; }
    auto w2 = find_order(c, h, p);
    if (w2.empty()) {
        r.classes.emplace_back("known:long-write-status");
        return {};
    }
    if (long_existence(c, h)) {
        r.classes.emplace_back("known:long-write-status");
        r.classes.emplace_back("not-judged");
        return {};
    }
    return w2;
}

} // namespace vp
