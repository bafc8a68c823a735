// Catalog, separate key spaces, sequences.
#include <map>
#include <set>

#include "map_model.h"

namespace vp {
namespace {

// ---------------------------------------------------------------- D01

constexpr std::size_t max_name = 30U * 1024U;

struct cat_state {
    struct entry {
        std::uint64_t h;
        std::uint64_t id;
        std::string pl;
    };
    std::map<std::string, entry> m;
    std::set<std::uint64_t> given; // handles handed out without a chosen identifier

    std::string find(std::uint64_t h, entry** out) {
        for (auto& [n, e] : m) {
            if (e.h == h) {
                *out = &e;
                return n;
            }
        }
        *out = nullptr;
        return {};
    }

    std::string text() const {
        std::string o;
        for (auto const& [n, e] : m) {
            o += std::to_string(std::hash<std::string>()(n)) + ":" + std::to_string(e.h) + ":" +
                 std::to_string(e.id) + ":" + std::to_string(std::hash<std::string>()(e.pl)) + ";";
        }
        return o;
    }
};

std::string cat_apply(cat_state& s, op const& o, ev const& e) {
    auto wrong = [&](std::string const& w) {
        auto t = to_text(o);
        if (t.size() > 200) { t = t.substr(0, 200) + "..."; }
        return t + " -> " + stname(e.st) + ": expected " + w;
    };
    auto is = [&](Status x) { return e.st == x ? std::string() : wrong(stname(x)); };
    auto name = o.str("name");
    if (o.kind == "CRS") {
        bool chosen = o.n.count("id") != 0 && static_cast<std::uint64_t>(o.num("id")) != UINT64_MAX;
        auto id = chosen ? static_cast<std::uint64_t>(o.num("id")) : UINT64_MAX;
        std::set<Status> want;
        cat_state::entry* x{nullptr};
        if (name.size() > max_name) { want.insert(Status::WARN_INVALID_KEY_LENGTH); }
        if (s.m.count(name) != 0) { want.insert(Status::WARN_ALREADY_EXISTS); }
        if (chosen && (id >> 32U) > 0) { want.insert(Status::WARN_STORAGE_ID_DEPLETION); }
        if (chosen) { s.find(id, &x); }
        if (x != nullptr) { want.insert(Status::WARN_ALREADY_EXISTS); }
        if (!want.empty()) { return want.count(e.st) != 0 ? std::string() : wrong(stname(*want.begin())); }
        if (e.st != Status::OK) { return wrong("OK"); }
        auto h = static_cast<std::uint64_t>(e.n.at(0));
        if (chosen && h != id) { return wrong("the chosen identifier as handle, got " + std::to_string(h)); }
        s.find(h, &x);
        if (x != nullptr) { return wrong("a handle not in use, got " + std::to_string(h)); }
        if (!chosen && !s.given.insert(h).second) { return wrong("a new handle, got " + std::to_string(h)); }
        s.m[name] = {h, id, o.str("pl")};
        return {};
    }
    if (o.kind == "GTS") {
        if (name.size() > max_name) { return is(Status::WARN_INVALID_KEY_LENGTH); }
        auto it = s.m.find(name);
        if (it == s.m.end()) { return is(Status::WARN_NOT_FOUND); }
        if (e.st != Status::OK) { return wrong("OK"); }
        if (static_cast<std::uint64_t>(e.n.at(0)) != it->second.h) {
            return wrong("handle " + std::to_string(it->second.h) + ", got " + std::to_string(e.n.at(0)));
        }
        return {};
    }
    if (o.kind == "LSS") {
        if (e.st != Status::OK) { return wrong("OK"); }
        std::vector<std::string> want;
        for (auto const& [n, x] : s.m) { want.push_back(n); }
        if (want != e.s) {
            return wrong(std::to_string(want.size()) + " names, got " + std::to_string(e.s.size()) +
                         " or different ones");
        }
        return {};
    }
    cat_state::entry* x{nullptr};
    auto n = s.find(e.handle, &x);
    if (o.kind == "DLS") {
        if (x == nullptr) { return is(Status::WARN_INVALID_HANDLE); }
        if (e.st == Status::OK) { s.m.erase(n); }
        return is(Status::OK);
    }
    if (x == nullptr) { return is(Status::WARN_NOT_FOUND); }
    if (e.st != Status::OK) { return wrong("OK"); }
    if (o.kind == "SOP") {
        x->id = o.n.count("id") != 0 ? static_cast<std::uint64_t>(o.num("id")) : UINT64_MAX;
        x->pl = o.str("pl");
        return {};
    }
    // GOP
    if (static_cast<std::uint64_t>(e.n.at(0)) != x->id || e.s.at(0) != x->pl) {
        return wrong("identifier " + std::to_string(x->id) + " and payload " + esc(x->pl.substr(0, 100)));
    }
    return {};
}

bool is_cat(std::string const& k) {
    return k == "CRS" || k == "DLS" || k == "GTS" || k == "LSS" || k == "GOP" || k == "SOP";
}

struct cat_search {
    test_case const& c;
    std::vector<ev const*> es;
    std::set<std::string> memo;
    std::size_t best{0};
    std::string why;
    long steps{0};

    bool go(std::uint64_t done, std::size_t n, cat_state const& s) {
        if (n == es.size()) { return true; }
        if (++steps > 200000) { return true; }
        if (!memo.insert(std::to_string(done) + "|" + s.text()).second) { return false; }
        // operations that may come next: none of the others returned before it was called
        std::uint64_t first_end = UINT64_MAX;
        for (std::size_t i = 0; i < es.size(); ++i) {
            if (((done >> i) & 1U) == 0) { first_end = std::min(first_end, es[i]->t1); }
        }
        for (std::size_t i = 0; i < es.size(); ++i) {
            if (((done >> i) & 1U) != 0 || es[i]->t0 > first_end) { continue; }
            cat_state t = s;
            auto w = cat_apply(t, op_of(c, *es[i]), *es[i]);
            if (w.empty()) {
                if (go(done | (1ULL << i), n + 1, t)) { return true; }
            } else if (n >= best) {
                best = n + 1;
                why = w;
            }
        }
        return false;
    }
};

void judge_d01(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    cat_search q{c, {}, {}, 0, {}, 0};
    cat_state s;
    std::set<std::string> kinds;
    int ok{0};
    // a single thread first: exact
    std::size_t i{0};
    std::vector<ev const*> all;
    for (auto const& e : h.evs) {
        if (!e.skipped && is_cat(op_of(c, e).kind)) { all.push_back(&e); }
    }
    for (; i < all.size() && (c.c("thr") == 0 || op_of(c, *all[i]).thr == 0); ++i) {
        auto w = cat_apply(s, op_of(c, *all[i]), *all[i]);
        if (!w.empty()) {
            r.fail("catalog: op" + std::to_string(all[i]->op) + " " + w);
            return;
        }
    }
    for (auto const* e : all) {
        kinds.insert(op_of(c, *e).kind);
        if (e->st == Status::OK) { ++ok; }
    }
    r.nontrivial = kinds.size() >= 3 && ok >= 3;
    if (i < all.size()) {
        for (; i < all.size() && q.es.size() < 60; ++i) { q.es.push_back(all[i]); }
        if (!q.go(0, 0, s)) { r.fail("catalog: no order explains the answers, closest: " + q.why); }
        if (q.steps > 200000) { r.classes.emplace_back("search-limit"); }
        r.classes.emplace_back("threads");
    } else {
        r.classes.emplace_back("one-thread");
    }
    for (auto const& k : kinds) { r.classes.push_back(k); }
}

op cat_op(rng& r, int thr, int slots, std::vector<std::string> const& names, bool hostile) {
    static std::vector<std::string> const kinds{"CRS", "CRS", "CRS", "CRS", "DLS", "DLS", "GTS",
                                                "GTS", "LSS", "GOP", "GOP", "SOP", "SOP"};
    auto o = mk(thr, 0, r.pick(kinds));
    auto id = [&] {
        if (hostile && r.pct(15)) {
            return r.pick(std::vector<long>{0xffffffffL, 0x100000000L, 0x100000005L, -1, -2, -3, -4, -5});
        }
        return r.pick(std::vector<long>{0, 1, 2, 7});
    };
    auto pl = [&] {
        std::string s;
        long n = r.pct(70) ? r.below(4) : r.below(40);
        for (long i = 0; i < n; ++i) { s += static_cast<char>(r.pct(50) ? r.below(256) : 'p'); }
        return s;
    };
    if (o.kind == "LSS") { return o; }
    if (o.kind == "GTS" || o.kind == "CRS") { o.s["name"] = r.pick(names); }
    if (o.kind != "GTS") { o.n["st"] = r.below(slots); }
    if (o.kind == "CRS" || o.kind == "SOP") {
        if (r.pct(45)) { o.n["id"] = id(); }
        if (r.pct(60)) { o.s["pl"] = pl(); }
    } else if (hostile && o.kind != "GTS" && r.pct(15)) {
        o.n["hx"] = r.pick(std::vector<long>{0, 1, 2, 7, 0x100000000L, 0x200000000L, 0x900000000L, -1, -2, -3, -4, -5});
    }
    return o;
}

reg d01{{"D01", "at least three kinds of catalog operations and three successes",
         [](rng& r, long, bool) {
             test_case c;
             std::vector<std::string> names{"t", "u", "ta", "T"};
             while (names.size() > 1 && r.pct(25)) { names.pop_back(); }
             bool hostile = r.pct(60);
             if (hostile) {
                 for (auto const& s : std::vector<std::string>{
                              "", std::string("\0", 1), std::string("t\0x", 3), "\xff\xfe",
                              std::string(max_name, 'n'), std::string(max_name + 1, 'n'), "__shirakami"}) {
                     if (r.pct(25)) { names.push_back(s); }
                 }
             }
             int slots = static_cast<int>(r.range(1, 4));
             c.cfg["nst"] = 0;
             c.cfg["xst"] = slots;
             c.cfg["ns"] = 1;
             c.cfg["nofinal"] = 1;
             int thr = r.pct(55) ? 0 : static_cast<int>(r.range(2, 3));
             gen_sched(r, c, thr > 0);
             gen_tuning(r, c);
             if (thr == 0) {
                 long n = r.range(4, 30);
                 for (long i = 0; i < n; ++i) {
                     c.ops.push_back(cat_op(r, 0, slots, names, hostile));
                     if (r.pct(8)) {
                         auto e = mk(0, 0, "EPOCH");
                         e.n["n"] = r.range(1, 4);
                         c.ops.push_back(e);
                     }
                 }
                 return c;
             }
             c.cfg["thr"] = thr;
             long n = r.range(0, 4);
             for (long i = 0; i < n; ++i) { c.ops.push_back(cat_op(r, 0, slots, names, false)); }
             for (int t = 1; t <= thr; ++t) {
                 n = r.range(1, 5);
                 for (long i = 0; i < n; ++i) { c.ops.push_back(cat_op(r, t, slots, names, false)); }
             }
             return c;
         },
         [](test_case const& c) { return simple(c, judge_d01); }}};

// ---------------------------------------------------------------- D02

// storages come and go between transactions executed one after another
void gen_seq_storages(rng& r, test_case& c) {
    seq_opts g;
    g.storages = static_cast<int>(r.range(1, 3));
    g.txs = static_cast<int>(r.range(3, 8));
    g.ops = static_cast<int>(r.range(2, 8));
    g.keys = plain_keys(r.range(1, 5));
    g.w_scan = 12;
    g.w_cursor = r.pct(20) ? 5 : 0;
    seq_program(r, c, g);
    // replace storages between the transactions; every incarnation has its own slot
    std::vector<op> out;
    std::vector<long> slot; // program storage -> current slot, -1: none
    std::vector<long> dead;
    long next = g.storages;
    for (long i = 0; i < g.storages; ++i) { slot.push_back(i); }
    std::map<long, std::string> name;
    for (long i = 0; i < g.storages; ++i) { name[i] = "s" + std::to_string(i); }
    bool chosen = r.pct(40);
    long made = 0;
    for (auto o : c.ops) {
        if (o.kind == "BEGIN") {
            for (std::size_t i = 0; i < slot.size(); ++i) {
                if (slot[i] >= 0 && r.pct(35) && made < 8) {
                    auto d = mk(0, 0, "DLS");
                    d.n["st"] = slot[i];
                    out.push_back(d);
                    dead.push_back(slot[i]);
                    slot[i] = -1;
                    if (r.pct(20)) {
                        auto e = mk(0, 0, "EPOCH");
                        e.n["n"] = r.range(1, 3);
                        out.push_back(e);
                    }
                }
                if (slot[i] < 0 && r.pct(75)) {
                    auto d = mk(0, 0, "CRS");
                    d.n["st"] = next;
                    d.s["name"] = r.pct(60) ? "s" + std::to_string(i) : "n" + std::to_string(next);
                    // a chosen identifier is given to every later incarnation
                    if (chosen) { d.n["id"] = static_cast<long>(5 + i); }
                    out.push_back(d);
                    slot[i] = next++;
                    ++made;
                }
            }
            if (o.l.count("wp") != 0) {
                std::vector<long> live;
                for (long s : slot) {
                    if (s >= 0) { live.push_back(s); }
                }
                if (live.empty()) {
                    o.l.erase("wp");
                    o.l.erase("rp");
                    o.n["ty"] = 0;
                } else {
                    o.l["wp"] = live;
                    o.l.erase("rp"); // outside it a missing storage is a violation of the area
                }
            }
        } else if (o.n.count("st") != 0) {
            auto s = slot[ix(static_cast<int>(o.num("st")))];
            if (s < 0) {
                if (dead.empty() || chosen || o.kind == "SOPEN") { continue; }
                s = r.pick(dead);
            }
            o.n["st"] = s;
        }
        out.push_back(o);
    }
    c.ops = out;
    c.cfg["xst"] = next - g.storages;
}

// one thread replaces its own storages while others work elsewhere
void gen_thr_storages(rng& r, test_case& c) {
    gen_opts g;
    g.storages = 2;
    g.keys = static_cast<int>(r.range(1, 4));
    g.max_ops = 4;
    c = gen_concurrent(r, g, 2, static_cast<int>(r.range(1, 2)));
    c.cfg["thr"] = 3;
    c.cfg["ns"] = 4;
    long rounds = r.range(1, 3);
    bool chosen = r.pct(50);
    long vn = 1000;
    for (long i = 0; i < rounds; ++i) {
        auto d = mk(3, 3, "CRS");
        d.n["st"] = 2 + i;
        d.s["name"] = "x";
        if (chosen) { d.n["id"] = 9; }
        c.ops.push_back(d);
        long txs = r.range(1, 2);
        for (long k = 0; k < txs; ++k) {
            std::vector<op> t;
            gen_opts q = g;
            q.storages = 1;
            gen_tx(r, q, 3, 3, vn, t);
            for (auto& o : t) {
                if (o.n.count("st") != 0) { o.n["st"] = r.pct(80) ? 2 + i : r.below(2); }
                if (o.l.count("wp") != 0) { o.l["wp"] = {0, 1, 2 + i}; }
                c.ops.push_back(o);
            }
        }
        if (i + 1 < rounds || r.pct(60)) {
            d = mk(3, 3, "DLS");
            d.n["st"] = 2 + i;
            c.ops.push_back(d);
        }
    }
    c.cfg["xst"] = rounds;
}

void judge_d02_threads(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    auto p = all_committed(h);
    int del{0};
    for (auto const& e : h.evs) {
        auto const& o = op_of(c, e);
        if (e.skipped) { continue; }
        if (o.kind == "DLS" && e.st == Status::OK) {
            p.gone.insert(o.num("st"));
            ++del;
        }
        if ((o.kind == "DLS" || o.kind == "CRS") && e.st != Status::OK) {
            bool known = o.kind == "CRS"; // an earlier one was kept by the shrinker
            if (!known) { r.fail("catalog: " + to_text(o) + " -> " + stname(e.st)); }
            r.classes.emplace_back("overlap");
            return;
        }
    }
    auto w = serial(c, h, p, r);
    if (!w.empty()) { r.fail("serial: " + w); }
    r.nontrivial = del > 0 && h.txs.size() > 2;
    classify(c, h, r);
}

reg d02{{"D02", "a storage with contents was deleted or an operation named a storage that does not exist",
         [](rng& r, long, bool) {
             test_case c;
             if (r.pct(60)) {
                 gen_seq_storages(r, c);
             } else {
                 gen_thr_storages(r, c);
             }
             return c;
         },
         [](test_case const& c) {
             if (c.c("thr") != 0) { return simple(c, judge_d02_threads); }
             return model_eval(c, [&](map_model const& m) {
                 bool d{false};
                 for (auto const& o : c.ops) { d = d || o.kind == "DLS"; }
                 return m.writes > 0 && (d || m.refused > 0);
             });
         }}};

// ---------------------------------------------------------------- D03

void judge_d03(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    if (r.bad) { return; }
    struct life {
        std::uint64_t id{0};
        std::uint64_t made0{0}, made1{0};
        std::uint64_t del0{UINT64_MAX}, del1{UINT64_MAX};
        struct upd {
            long ver, val;
            txn const* t;
        };
        std::vector<upd> us;
    };
    std::vector<life> ls;
    std::set<std::uint64_t> ids;
    int reads{0};
    int updates{0};
    int late{0};
    auto life_of = [&](ev const& e) -> life* {
        life* best{nullptr};
        for (auto& l : ls) {
            if (l.id == e.handle && l.made1 < e.t1) { best = &l; }
        }
        return best;
    };
    for (auto const& e : h.evs) {
        auto const& o = op_of(c, e);
        if (e.skipped || o.kind != "SQC") { continue; }
        if (e.st != Status::OK) {
            r.fail("sequence: creation failed: " + stname(e.st));
            return;
        }
        auto id = static_cast<std::uint64_t>(e.n.at(0));
        if (!ids.insert(id).second) { r.fail("sequence: identifier " + std::to_string(id) + " given twice"); }
        life l;
        l.id = id;
        l.made0 = e.t0;
        l.made1 = e.t1;
        ls.push_back(l);
    }
    // updates kept by transactions
    for (auto const& t : h.txs) {
        std::map<std::uint64_t, life::upd> kept;
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            if (o.kind != "SQU") { continue; }
            ++updates;
            auto it = kept.find(e.handle);
            bool lower = it != kept.end() && o.num("ver") <= it->second.ver;
            auto want = lower ? Status::WARN_ALREADY_EXISTS : Status::OK;
            if (e.st != want) {
                r.fail("sequence: op" + std::to_string(e.op) + " update -> " + stname(e.st) + " expected " +
                       stname(want));
                return;
            }
            if (!lower) { kept[e.handle] = {o.num("ver"), o.num("val"), &t}; }
        }
        if (t.out == outcome::aborted || !t.commit_called) { continue; }
        for (auto const& [id, u] : kept) {
            for (auto& l : ls) {
                if (l.id == id) { l.us.push_back(u); }
            }
        }
    }
    // deletions
    for (auto const& e : h.evs) {
        auto const& o = op_of(c, e);
        if (e.skipped || o.kind != "SQD") { continue; }
        auto* l = life_of(e);
        if (l == nullptr) {
            if (e.st != Status::WARN_NOT_FOUND) { r.fail("sequence: unknown one deleted: " + stname(e.st)); }
            continue;
        }
        if (e.st == Status::OK) {
            if (l->del1 != UINT64_MAX) { r.fail("sequence: deleted twice"); }
            l->del0 = e.t0;
            l->del1 = e.t1;
        } else if (e.st != Status::WARN_NOT_FOUND) {
            r.fail("sequence: delete -> " + stname(e.st));
        }
    }
    for (auto const& e : h.evs) {
        auto const& o = op_of(c, e);
        if (e.skipped || r.bad) { continue; }
        auto* l = o.kind == "SQD" || o.kind == "SQR" ? life_of(e) : nullptr;
        if (o.kind == "SQD" && l != nullptr && e.st == Status::WARN_NOT_FOUND && l->del0 > e.t1) {
            r.fail("sequence: op" + std::to_string(e.op) + " delete of a live sequence: not found");
        }
        if (o.kind != "SQR") { continue; }
        ++reads;
        if (e.st == Status::WARN_NOT_FOUND) {
            if (l != nullptr && l->del0 > e.t1) {
                r.fail("sequence: op" + std::to_string(e.op) + " read of a live sequence: not found");
            }
            continue;
        }
        if (e.st != Status::OK) {
            r.fail("sequence: read -> " + stname(e.st));
            continue;
        }
        if (l == nullptr || l->del1 < e.t0) {
            r.fail("sequence: op" + std::to_string(e.op) + " read of a missing sequence gave a value");
            continue;
        }
        long low{0};
        bool found = e.n.at(0) == 0 && e.n.at(1) == 0;
        for (auto const& u : l->us) {
            if (u.t->out == outcome::committed && u.t->t_end != 0 && u.t->t_end < e.t0) { low = std::max(low, u.ver); }
            if (u.ver == e.n.at(0) && u.val == e.n.at(1) && u.t->t_commit0 < e.t1) { found = true; }
        }
        if (low > 0) { ++late; }
        if (!found) {
            r.fail("sequence: op" + std::to_string(e.op) + " read version " + std::to_string(e.n.at(0)) +
                   " value " + std::to_string(e.n.at(1)) + " which nobody committed");
        } else if (e.n.at(0) < low) {
            r.fail("sequence: op" + std::to_string(e.op) + " read version " + std::to_string(e.n.at(0)) +
                   " although version " + std::to_string(low) + " was committed");
        }
    }
    // two reads one after the other never go back
    for (auto const& a : h.evs) {
        if (a.skipped || op_of(c, a).kind != "SQR" || a.st != Status::OK) { continue; }
        for (auto const& b : h.evs) {
            if (b.skipped || op_of(c, b).kind != "SQR" || b.st != Status::OK || a.handle != b.handle) { continue; }
            if (a.t1 < b.t0 && b.n.at(0) < a.n.at(0)) { r.fail("sequence: a later read gave a lower version"); }
        }
    }
    r.nontrivial = updates > 1 && late > 0;
    classify(c, h, r);
}

reg d03{{"D03", "at least two updates, and a read after a committed one",
         [](rng& r, long, bool) {
             test_case c;
             int nq = static_cast<int>(r.range(1, 3));
             long ver = 0;
             long vn = 0;
             gen_opts g;
             g.storages = static_cast<int>(r.range(1, 2));
             g.keys = 3;
             g.p_ro = 0;
             g.p_long = 45;
             g.min_ops = 0;
             g.max_ops = 2;
             g.w_scan = 4;
             g.p_abort = 20;
             g.wait_commit = false;
             bool thr = r.pct(50);
             c.cfg["nst"] = g.storages;
             gen_sched(r, c, thr);
             gen_tuning(r, c);
             auto seq = [&](int t, int s, char const* kind) {
                 auto o = mk(t, s, kind);
                 o.n["q"] = r.below(nq + (r.pct(5) ? 1 : 0));
                 if (o.kind == "SQU") {
                     // versions are unique but do not come in order
                     o.n["ver"] = ++ver * 16 % 257 + (ver * 16 / 257) * 257 + 1;
                     if (r.pct(60)) { o.n["ver"] = ver * 2 + 400; }
                     o.n["val"] = ver * 1000 + 7 - (r.pct(20) ? 50000 : 0);
                 }
                 return o;
             };
             for (int i = 0; i < nq; ++i) {
                 auto o = mk(0, 0, "SQC");
                 o.n["q"] = i;
                 c.ops.push_back(o);
             }
             auto one = [&](int t, int s, std::vector<op>& out) {
                 std::vector<op> tx;
                 gen_tx(r, g, t, s, vn, tx);
                 long n = r.pct(80) ? r.range(1, 2) : 0;
                 for (long k = 0; k < n; ++k) {
                     tx.insert(tx.begin() + r.range(1, static_cast<long>(tx.size()) - 1), seq(t, s, "SQU"));
                 }
                 for (auto& o : tx) { out.push_back(o); }
             };
             if (thr) {
                 int nt = static_cast<int>(r.range(2, 3));
                 c.cfg["thr"] = nt;
                 c.cfg["ns"] = nt + 1;
                 for (int t = 1; t <= nt; ++t) {
                     long n = r.range(1, 3);
                     for (long i = 0; i < n; ++i) {
                         one(t, t, c.ops);
                         if (c.ops.back().kind == "COMMIT") { c.ops.back().n["wait"] = 1; }
                         if (r.pct(50)) { c.ops.push_back(seq(t, t, "SQR")); }
                     }
                 }
             } else {
                 int ns = static_cast<int>(r.range(2, 5));
                 c.cfg["ns"] = ns;
                 c.cfg["tick"] = 1;
                 std::vector<std::vector<op>> prog(static_cast<std::size_t>(ns));
                 for (auto& p : prog) {
                     long n = r.range(1, 2);
                     for (long i = 0; i < n; ++i) { one(0, static_cast<int>(&p - prog.data()), p); }
                 }
                 std::vector<std::size_t> pos(prog.size(), 0);
                 for (;;) {
                     std::vector<std::size_t> av;
                     for (std::size_t s = 0; s < prog.size(); ++s) {
                         if (pos[s] < prog[s].size()) { av.push_back(s); }
                     }
                     if (av.empty()) { break; }
                     auto s = r.pick(av);
                     long burst = r.range(1, 4);
                     while (burst-- > 0 && pos[s] < prog[s].size()) { c.ops.push_back(prog[s][pos[s]++]); }
                     long x = r.below(100);
                     if (x < 35) {
                         auto e = mk(0, 0, "SLEEP");
                         e.n["us"] = r.pick(std::vector<long>{500, 1000, 1000, 3000, 20000});
                         c.ops.push_back(e);
                     } else if (x < 60) {
                         c.ops.push_back(seq(0, 0, "SQR"));
                     } else if (x < 65) {
                         c.ops.push_back(seq(0, 0, "SQD"));
                     } else if (x < 68) {
                         c.ops.push_back(seq(0, 0, "SQC"));
                     }
                 }
             }
             // the end: everything answered
             auto e = mk(9, 0, "EPOCH");
             e.n["n"] = 5;
             c.ops.push_back(e);
             for (int i = 0; i < nq; ++i) {
                 auto o = mk(9, 0, "SQR");
                 o.n["q"] = i;
                 c.ops.push_back(o);
             }
             return c;
         },
         [](test_case const& c) { return simple(c, judge_d03); }}};

} // namespace
} // namespace vp
