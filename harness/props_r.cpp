// Log, durability, recovery.  Meaningful with the log store only.
#include <algorithm>
#include <map>
#include <set>

#include "map_model.h"

namespace vp {
namespace {

using place = std::pair<std::uint64_t, std::string>; // storage handle, key
using version = std::pair<std::uint64_t, std::uint64_t>;

bool answered_ok(txn const& t) {
    return t.out == outcome::committed || (t.cb && t.cb->count > 0 && t.cb->st == Status::OK);
}

std::uint64_t marker_of(txn const& t) { return t.cb && t.cb->count > 0 ? t.cb->marker : t.marker; }

/// one write a transaction made, as seen from outside
struct intent {
    int tx{-1};
    bool put{false};
    std::string value;
    std::vector<long> lobs;
    bool sure{true}; // false: it may as well leave nothing
};

/// the last write per key
std::map<place, intent> intents(test_case const& c, history const& h, txn const& t) {
    std::map<place, intent> m;
    for (int ei : t.evs) {
        auto const& e = h.evs[ix(ei)];
        auto const& o = op_of(c, e);
        if (!is_write(o.kind)) { continue; }
        auto slot = static_cast<std::size_t>(o.num("st"));
        if (slot >= h.handles.size()) { continue; }
        bool cancel = e.st == Status::WARN_CANCEL_PREVIOUS_INSERT ||
                      e.st == Status::WARN_CANCEL_PREVIOUS_UPSERT;
        if (e.st != Status::OK && !cancel) { continue; }
        auto& x = m[{h.handles[slot], o.str("k")}];
        x.tx = t.id;
        x.put = o.kind != "DEL";
        x.value = o.str("v");
        x.lobs = o.list("lob");
        // whether such operations of long transactions find the row is not verified
        x.sure = !cancel && (t.type != 1 || o.kind == "UPS");
    }
    return m;
}

struct value_owner {
    int tx;
    place p;
};

/// values are unique, so a value tells who wrote it
std::map<std::string, value_owner> owners(test_case const& c, history const& h) {
    std::map<std::string, value_owner> m;
    for (auto const& t : h.txs) {
        for (int ei : t.evs) {
            auto const& o = op_of(c, h.evs[ix(ei)]);
            if (!is_write(o.kind) || o.kind == "DEL") { continue; }
            auto slot = static_cast<std::size_t>(o.num("st"));
            if (slot >= h.handles.size()) { continue; }
            m[o.str("v")] = {t.id, {h.handles[slot], o.str("k")}};
        }
    }
    return m;
}

std::string log_text(history::log_entry const& x) {
    return std::string(x.other == 1 ? "add-storage" : x.other == 2 ? "remove-storage" : x.put ? "put" : "remove") +
           " " + std::to_string(x.st) + " " + esc(x.key) + " " + esc(x.value) + " version " +
           std::to_string(x.major) + "." + std::to_string(x.minor) + " session " + std::to_string(x.session) +
           " at " + std::to_string(x.t);
}

std::string show_log(history const& h) {
    std::string o;
    for (auto const& x : h.log) { o += "  " + log_text(x) + "\n"; }
    auto put = [&](char const* n, std::vector<history::stamped> const& v) {
        o += std::string("  ") + n;
        for (auto const& a : v) { o += " " + std::to_string(a.epoch) + "@" + std::to_string(a.t); }
        o += "\n";
    };
    put("announced", h.announced);
    put("reported", h.reported);
    put("boundaries", h.boundaries);
    for (auto const& t : h.txs) { o += "  tx" + std::to_string(t.id) + " marker " + std::to_string(marker_of(t)) + "\n"; }
    return o;
}

void common(test_case const& c, history& h, result& r) {
    judge_common(c, h, r);
    for (auto const& m : h.log_misuse) { r.fail("log store misused: " + m); }
    classify(c, h, r);
}

/// user data entries
std::vector<history::log_entry const*> data(history const& h) {
    std::set<std::uint64_t> mine(h.handles.begin(), h.handles.end());
    std::vector<history::log_entry const*> v;
    for (auto const& x : h.log) {
        if (x.other == 0 && mine.count(x.st) != 0) { v.push_back(&x); }
    }
    return v;
}

void lobs_for(rng& r, test_case& c, int pct) {
    long n{1};
    for (auto& o : c.ops) {
        if ((o.kind == "INS" || o.kind == "UPD" || o.kind == "UPS") && r.pct(pct)) {
            std::vector<long> l;
            for (long k = r.range(1, 3); k > 0; --k) { l.push_back(n++); }
            o.l["lob"] = l;
        }
    }
}

test_case gen_logged(rng& r, bool thorough, gen_opts g) {
    test_case c;
    long w = r.below(10);
    g.storages = static_cast<int>(r.range(1, 2));
    g.keys = static_cast<int>(r.range(1, 4));
    if (w < 5) {
        c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(1, thorough ? 3 : 2)));
    } else if (w < 8) {
        c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, thorough ? 9 : 6)));
    } else {
        c = gen_chain(r, 30);
    }
    if (r.pct(40)) { c.cfg["e_buf"] = 1; }
    if (r.pct(40)) { c.cfg["lag"] = r.range(1, 4); }
    c.cfg["dcb"] = 1;
    return c;
}

// ---------------------------------------------------------------- R03

test_case gen_restarts(rng& r, bool thorough, int p_forced);

bool restarts(test_case const& c) {
    return std::any_of(c.ops.begin(), c.ops.end(), [](op const& o) { return o.kind == "INIT"; });
}

test_case gen_r03(rng& r, long idx, bool thorough) {
    gen_opts g;
    g.w_ups = 30;
    bool lives = idx % 10 == 9;
    auto c = lives ? gen_restarts(r, thorough, 0) : gen_logged(r, thorough, g);
    // watch some transactions by their state
    std::vector<op> ops;
    long hn{0};
    std::map<int, long> slot; // session -> state slot of the current transaction
    for (auto const& o : c.ops) {
        ops.push_back(o);
        if (o.kind == "BEGIN" && (o.thr <= 4 || lives) && hn < 60 && r.pct(60)) {
            auto a = mk(o.thr, o.sess, "STACQ");
            a.n["h"] = hn;
            slot[o.sess] = hn++;
            ops.push_back(a);
        }
        if (o.kind == "COMMIT" && slot.count(o.sess) != 0) {
            for (long k = r.range(1, 3); k > 0; --k) {
                auto a = mk(o.thr, o.sess, "STCHK");
                a.n["h"] = slot[o.sess];
                ops.push_back(a);
                if (r.pct(50)) {
                    auto s = mk(o.thr, o.sess, "SLEEP");
                    s.n["us"] = r.pick(std::vector<long>{300, 1000, 3000});
                    ops.push_back(s);
                }
            }
            slot.erase(o.sess);
        }
    }
    c.ops = ops;
    if (!lives) { c.cfg["idle"] = 12 + c.c("lag"); }
    return c;
}

/// with restarts: what an earlier run reached says nothing about the present one
void judge_lives(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad) { return; }
    std::vector<ev const*> by_start;
    for (auto const& e : h.evs) {
        if (!e.skipped) { by_start.push_back(&e); }
    }
    std::sort(by_start.begin(), by_start.end(), [](ev const* a, ev const* b) { return a->t0 < b->t0; });
    std::uint64_t born{0};
    std::map<long, int> slot_tx;
    long judged{0};
    for (auto const* e : by_start) {
        auto const& o = op_of(c, *e);
        if (o.kind == "INIT") {
            born = e->t0;
            slot_tx.clear();
            r.classes.emplace_back(o.num("mode") == 1 ? "created-anew" : "restarted");
        }
        if (o.kind == "STACQ") {
            slot_tx.erase(o.num("h"));
            if (e->st == Status::OK && e->tx >= 0) { slot_tx[o.num("h")] = e->tx; }
        }
        if (o.kind != "STCHK" || e->st != Status::OK || e->n.empty() || e->n[0] != 6 ||
            slot_tx.count(o.num("h")) == 0) {
            continue;
        }
        auto const& t = h.txs[ix(slot_tx[o.num("h")])];
        if (t.type == 2 || !answered_ok(t) || marker_of(t) == 0) { continue; }
        std::uint64_t held{0};
        for (auto const& a : h.announced) {
            if (a.t > born && a.t <= e->t1) { held = std::max(held, a.epoch); }
        }
        ++judged;
        if (marker_of(t) > held) {
            r.fail("too early: tx" + std::to_string(t.id) + " with marker " + std::to_string(marker_of(t)) +
                   " was in the durable state while the log store of this run held " + std::to_string(held) + "\n" +
                   show_log(h));
            return;
        }
    }
    r.nontrivial = judged > 0 && born > 0;
}

void judge_r03(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad) { return; }
    for (std::size_t i = 1; i < h.reported.size(); ++i) {
        if (h.reported[i].epoch < h.reported[i - 1].epoch) {
            r.fail("decreasing: reported " + std::to_string(h.reported[i - 1].epoch) + " and then " +
                   std::to_string(h.reported[i].epoch) + "\n" + show_log(h));
        }
    }
    auto who = owners(c, h);
    // log entries per transaction; removals are attributed where only one is possible
    std::map<int, std::vector<history::log_entry const*>> of;
    std::map<place, std::vector<int>> removers;
    for (auto const& t : h.txs) {
        if (!answered_ok(t)) { continue; }
        for (auto const& [p, x] : intents(c, h, t)) {
            if (!x.put) { removers[p].push_back(t.id); }
        }
    }
    for (auto const* x : data(h)) {
        if (x->put) {
            auto it = who.find(x->value);
            if (it != who.end()) { of[it->second.tx].push_back(x); }
        } else {
            auto it = removers.find({x->st, x->key});
            if (it != removers.end() && it->second.size() == 1) { of[it->second[0]].push_back(x); }
        }
    }
    auto persistent_at = [&](std::uint64_t t) {
        std::uint64_t e{0};
        for (auto const& a : h.announced) {
            if (a.t <= t) { e = std::max(e, a.epoch); }
        }
        return e;
    };
    auto durable_by = [&](txn const& t, std::uint64_t when, std::string const& how) {
        auto m = intents(c, h, t);
        auto const& got = of[t.id];
        auto pe = persistent_at(when);
        for (auto const* x : got) {
            if (x->t > when || x->session > pe) {
                r.fail("too early: tx" + std::to_string(t.id) + " was " + how + " at " + std::to_string(when) +
                       " while the log store held " + std::to_string(pe) + ", but: " + log_text(*x) + "\n" +
                       show_log(h));
                return;
            }
        }
        bool all_missing = got.empty();
        for (auto const& [p, x] : m) {
            if (x.sure && x.put && t.type == 0 && all_missing) {
                r.fail("too early: tx" + std::to_string(t.id) + " was " + how + " and its writes were never logged\n" +
                       show_log(h));
                return;
            }
        }
    };
    long judged{0};
    for (auto const& t : h.txs) {
        if (!answered_ok(t) || t.type == 2) { continue; }
        auto mk0 = marker_of(t);
        if (mk0 == 0) { continue; }
        auto told = t.cb ? t.cb->t : t.t_end; // when the marker became known
        bool once{false};
        for (auto const& a : h.reported) {
            if (a.epoch >= mk0) {
                durable_by(t, std::max(a.t, told), "reported durable");
                once = true;
                ++judged;
                break;
            }
        }
        if (!once && c.c("idle") >= 12 + c.c("lag")) {
            r.fail("never: tx" + std::to_string(t.id) + " with marker " + std::to_string(mk0) +
                   " was never reported durable\n" + show_log(h));
        }
    }
    // states
    std::map<long, int> slot_tx;
    std::vector<ev const*> by_start;
    for (auto const& e : h.evs) { by_start.push_back(&e); }
    std::sort(by_start.begin(), by_start.end(), [](ev const* a, ev const* b) { return a->t0 < b->t0; });
    for (auto const* ep : by_start) {
        auto const& e = *ep;
        if (e.skipped) { continue; }
        auto const& o = op_of(c, e);
        if (o.kind == "STACQ") {
            slot_tx.erase(o.num("h"));
            if (e.st == Status::OK && e.tx >= 0) { slot_tx[o.num("h")] = e.tx; }
        }
        if (o.kind == "STCHK" && e.st == Status::OK && !e.n.empty() && e.n[0] == 6 &&
            slot_tx.count(o.num("h")) != 0) {
            auto const& t = h.txs[ix(slot_tx[o.num("h")])];
            if (t.type == 2) { continue; }
            durable_by(t, e.t1, "in the durable state");
            r.classes.emplace_back("state-durable");
        }
    }
    r.nontrivial = judged >= 2 && h.reported.size() >= 3;
}

reg const r03{{"R03",
               "at least two transactions were reported durable and the boundary moved at least twice, or one was seen in "
               "the durable state of a restarted engine",
               gen_r03,
               [](test_case const& c) { return simple(c, restarts(c) ? judge_lives : judge_r03); }}};

// ---------------------------------------------------------------- R04

test_case gen_r04(rng& r, long /*idx*/, bool thorough) {
    gen_opts g;
    g.w_ups = 26;
    g.w_del = 16;
    g.p_long = 35;
    auto c = gen_logged(r, thorough, g);
    lobs_for(r, c, 30);
    c.cfg["idle"] = 8 + c.c("lag");
    return c;
}

void judge_r04(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad || c.c("idle") < 8 + c.c("lag")) { return; } // the log is not complete yet
    auto bad = [&](std::string const& w) { r.fail(w + "\n" + show_log(h)); };
    std::map<std::string, std::pair<place, intent>> puts; // value -> committed last write
    std::map<place, std::vector<intent>> per;
    for (auto const& t : h.txs) {
        if (!answered_ok(t)) { continue; }
        for (auto const& [p, x] : intents(c, h, t)) {
            per[p].push_back(x);
            if (x.put) { puts[x.value] = {p, x}; }
        }
    }
    std::map<place, std::vector<history::log_entry const*>> got;
    std::set<std::string> seen;
    for (auto const* x : data(h)) {
        place p{x->st, x->key};
        got[p].push_back(x);
        if (!x->put) { continue; }
        auto it = puts.find(x->value);
        if (it == puts.end()) {
            bad("logged without commit: " + log_text(*x));
            return;
        }
        if (it->second.first != p) {
            bad("logged at the wrong place: " + log_text(*x));
            return;
        }
        if (!seen.insert(x->value).second) {
            bad("logged twice: " + log_text(*x));
            return;
        }
        std::vector<long> l(x->lobs.begin(), x->lobs.end());
        if (l != it->second.second.lobs) {
            bad("large-object references differ: " + log_text(*x));
            return;
        }
    }
    auto fin = final_state(h);
    std::map<int, version> tx_version;
    for (auto const* x : data(h)) {
        if (x->put) { tx_version[puts[x->value].second.tx] = {x->major, x->minor}; }
    }
    bool several{false};
    for (auto const& [p, xs] : per) {
        auto const& g = got[p];
        std::string where = " (storage " + std::to_string(p.first) + " key " + esc(p.second) + ")";
        long rem{0};
        std::set<version> vs;
        history::log_entry const* last{nullptr};
        for (auto const* x : g) {
            if (!x->put) { ++rem; }
            version v{x->major, x->minor};
            if (!vs.insert(v).second) { bad("two changes with one version" + where); }
            if (last == nullptr || version{last->major, last->minor} < v) { last = x; }
        }
        several = several || g.size() >= 2;
        long least{0};
        long most{0};
        for (auto const& x : xs) {
            bool lng = h.txs[ix(x.tx)].type == 1;
            if (!x.put) {
                ++most;
                if (x.sure) { ++least; }
                continue;
            }
            if (seen.count(x.value) != 0 || !x.sure) { continue; }
            // a write of a long transaction that is older than what is there
            // already changes nothing; within an epoch either may be older
            bool older{false};
            for (auto const* y : g) {
                auto it = tx_version.find(x.tx);
                if (it == tx_version.end() || it->second.first <= y->major) { older = true; }
            }
            if (!lng || !older) {
                bad("not logged: the write of " + esc(x.value) + where + " by tx" + std::to_string(x.tx));
            }
        }
        if (rem < least || rem > most) {
            bad("removals" + where + ": " + std::to_string(rem) + " in the log, expected " + std::to_string(least) +
                " to " + std::to_string(most));
        }
        // largest version = what is there now
        long slot{-1};
        for (std::size_t i = 0; i < h.handles.size(); ++i) {
            if (h.handles[i] == p.first) { slot = static_cast<long>(i); }
        }
        auto it = fin.find({slot, p.second});
        bool there = it != fin.end();
        if (last == nullptr || !last->put) {
            if (there) { bad("final value differs" + where + ": " + esc(it->second) + " but the log ends with " + (last == nullptr ? std::string("nothing") : log_text(*last))); }
        } else if (!there || it->second != last->value) {
            bad("final value differs" + where + ": " + (there ? esc(it->second) : std::string("absent")) +
                " but the log ends with " + log_text(*last));
        }
    }
    for (auto const& [p, g] : got) {
        if (per.count(p) == 0) { bad("logged without commit: " + log_text(*g[0])); }
    }
    if (r.bad) { return; }
    // who read a value and overwrote it comes later, and so does a short
    // transaction whose commit began after another one's was over
    std::map<std::string, version> at;
    for (auto const* x : data(h)) {
        if (x->put) { at[x->value] = {x->major, x->minor}; }
    }
    for (auto const& t : h.txs) {
        if (!answered_ok(t)) { continue; }
        auto mine = intents(c, h, t);
        std::set<place> touched;
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            auto slot = static_cast<std::size_t>(o.num("st"));
            if (slot >= h.handles.size()) { continue; }
            place p{h.handles[slot], o.str("k")};
            if (is_write(o.kind)) { touched.insert(p); }
            if (o.kind != "GET" || e.st != Status::OK || touched.count(p) != 0) { continue; }
            auto it = mine.find(p);
            if (it == mine.end() || !it->second.put) { continue; }
            auto a = at.find(e.s[0]);
            auto b = at.find(it->second.value);
            if (a != at.end() && b != at.end() && !(a->second < b->second)) {
                bad("version order: tx" + std::to_string(t.id) + " read " + esc(e.s[0]) + " and wrote " +
                    esc(it->second.value) + " with a version that is not larger");
            }
        }
        for (auto const& u : h.txs) {
            if (!answered_ok(u) || t.type != 0 || u.type != 0 || !t.cb || t.cb->t >= u.t_commit0) { continue; }
            for (auto const& [p, x] : intents(c, h, u)) {
                auto it = mine.find(p);
                if (it == mine.end() || !it->second.put || !x.put) { continue; }
                auto a = at.find(it->second.value);
                auto b = at.find(x.value);
                if (a != at.end() && b != at.end() && !(a->second < b->second)) {
                    bad("version order: tx" + std::to_string(t.id) + " ended before tx" + std::to_string(u.id) +
                        " was submitted, but its version is larger");
                }
            }
        }
    }
    if (several) { r.classes.emplace_back("several-versions"); }
    r.nontrivial = several;
}

reg const r04{{"R04", "some key has at least two changes in the log", gen_r04,
               [](test_case const& c) { return simple(c, judge_r04); }}};

// ---------------------------------------------------------------- R06

test_case gen_r06(rng& r, long /*idx*/, bool thorough) {
    gen_opts g;
    g.w_get = 40;
    g.w_ups = 30;
    g.p_long = 35;
    g.p_ro = 30;
    g.p_epoch = 45;
    auto c = gen_logged(r, thorough, g);
    lobs_for(r, c, 50);
    c.cfg["idle"] = 6 + c.c("lag");
    return c;
}

void judge_r06(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad) { return; }
    for (std::size_t i = 1; i < h.boundaries.size(); ++i) {
        if (h.boundaries[i].epoch < h.boundaries[i - 1].epoch) {
            r.fail("decreasing: boundary " + std::to_string(h.boundaries[i - 1].epoch) + " and then " +
                   std::to_string(h.boundaries[i].epoch) + "\n" + show_log(h));
            return;
        }
    }
    std::map<place, std::set<version>> all;
    std::map<std::string, version> at;
    for (auto const* x : data(h)) {
        all[{x->st, x->key}].insert({x->major, x->minor});
        if (x->put) { at[x->value] = {x->major, x->minor}; }
    }
    auto who = owners(c, h);
    long old{0};
    auto check = [&](txn const& t, ev const& e, place const& p, std::string const& v) {
        auto w = who.find(v);
        if (w == who.end() || w->second.tx == t.id) { return; }
        auto a = at.find(v);
        if (a == at.end()) { return; }
        // long and read-only transactions can read it again until they end
        std::uint64_t until = e.t0;
        if (t.type != 0) {
            until = t.commit_called ? t.t_commit0 : (t.t_end != 0 ? t.t_end : UINT64_MAX);
            until = std::max(until, e.t0);
        }
        std::uint64_t b{0};
        for (auto const& x : h.boundaries) {
            if (x.t < until) { b = x.epoch; }
        }
        auto it = all[p].upper_bound(a->second);
        if (it != all[p].end()) {
            ++old;
            if (it->first < b) {
                r.fail("obsolete: tx" + std::to_string(t.id) + " can read " + esc(v) + " of version " +
                       std::to_string(a->second.first) + ", superseded by version " + std::to_string(it->first) +
                       ", after the boundary " + std::to_string(b) + "\n" + show_log(h));
            }
        }
    };
    for (auto const& t : h.txs) {
        for (int ei : t.evs) {
            auto const& e = h.evs[ix(ei)];
            auto const& o = op_of(c, e);
            auto slot = static_cast<std::size_t>(o.num("st"));
            if (slot >= h.handles.size()) { continue; }
            if (o.kind == "GET" && e.st == Status::OK) { check(t, e, {h.handles[slot], o.str("k")}, e.s[0]); }
            if (o.kind == "SCAN") {
                for (auto const& x : e.rows) {
                    if (x.val) { check(t, e, {h.handles[slot], x.key}, *x.val); }
                }
            }
        }
    }
    r.nontrivial = old > 0 && h.boundaries.size() >= 2;
}

reg const r06{{"R06", "a transaction read a version that is superseded in the log, and the boundary was given at least twice",
               gen_r06, [](test_case const& c) { return simple(c, judge_r06); }}};

// ---------------------------------------------------------------- R01, R05

struct restart_gen {
    rng& r;
    test_case& c;
    long vn{0};
    long ver{0};
    int slots{0};               // storage slots handed out
    std::vector<std::pair<int, std::string>> live;
    std::vector<long> seqs;     // live sequence slots
    long next_seq{0};
    long many{3};

    void create() {
        if (slots >= 7) { return; }
        auto o = mk(9, 0, "CRS");
        o.n["st"] = slots;
        std::string name = "n" + std::to_string(slots);
        // a name used before, sometimes
        if (r.pct(40)) { name = "n" + std::to_string(r.below(slots + 1)); }
        for (auto const& [i, n] : live) {
            if (n == name) { return; }
        }
        o.s["name"] = name;
        if (r.pct(40)) { o.n["id"] = r.range(1, 50) + 100 * slots; }
        if (r.pct(40)) { o.s["pl"] = r.pick(std::vector<std::string>{"p", std::string(3, '\0'), "payload"}); }
        c.ops.push_back(o);
        live.emplace_back(slots++, name);
    }

    void txs(int n, int thr0 = 9) {
        for (int i = 0; i < n; ++i) {
            if (live.empty()) { return; }
            int s = static_cast<int>(r.below(3));
            bool lng = r.pct(35);
            auto b = mk(thr0, s, "BEGIN");
            b.n["ty"] = lng ? 1 : 0;
            auto st = r.pick(live).first;
            if (lng) {
                b.l["wp"] = {st};
                b.n["w"] = 1;
            }
            c.ops.push_back(b);
            for (long k = r.range(1, 4); k > 0; --k) {
                long w = r.below(10);
                auto o = mk(thr0, s, lng || w < 5 ? (w == 9 ? "DEL" : "UPS") : w < 7 ? "INS" : w < 8 ? "UPD" : "DEL");
                o.n["st"] = lng ? st : r.pick(live).first;
                o.s["k"] = key_n(r.below(4));
                if (r.pct(5)) { o.s["k"] = ""; }
                if (o.kind != "DEL") {
                    o.s["v"] = r.pct(5) ? std::string() : val(++vn);
                }
                c.ops.push_back(o);
            }
            if (!seqs.empty() && r.pct(40)) {
                auto o = mk(thr0, s, "SQU");
                o.n["q"] = r.pick(seqs);
                o.n["ver"] = ++ver;
                o.n["val"] = r.range(-1000, 1000);
                c.ops.push_back(o);
            }
            if (r.pct(15)) {
                c.ops.push_back(mk(thr0, s, "ABORT"));
            } else {
                auto o = mk(thr0, s, "COMMIT");
                o.n["wait"] = 1;
                c.ops.push_back(o);
            }
            pause(25);
        }
    }

    void pause(long p) {
        if (r.pct(p)) {
            auto e = mk(9, 0, "EPOCH");
            e.n["n"] = r.range(1, 4);
            c.ops.push_back(e);
        }
    }

    void catalog() {
        long w = r.below(10);
        if (w < 4) {
            create();
        } else if (w < 6 && !live.empty()) {
            auto i = static_cast<std::size_t>(r.below(static_cast<long>(live.size())));
            auto o = mk(9, 0, "DLS");
            o.n["st"] = live[i].first;
            c.ops.push_back(o);
            live.erase(live.begin() + static_cast<long>(i));
        } else if (w < 7 && !live.empty()) {
            auto o = mk(9, 0, "SOP");
            o.n["st"] = r.pick(live).first;
            if (r.pct(50)) { o.n["id"] = r.range(1000, 2000); }
            o.s["pl"] = "q" + std::to_string(r.below(100));
            c.ops.push_back(o);
        } else if (w < 9 && next_seq < 8) {
            auto o = mk(9, 0, "SQC");
            o.n["q"] = next_seq;
            if (r.pct(many)) {
                o.n["many"] = r.range(250, 300); // more than fit one byte
                many = 0;
            }
            c.ops.push_back(o);
            seqs.push_back(next_seq++);
        } else if (!seqs.empty()) {
            auto i = static_cast<std::size_t>(r.below(static_cast<long>(seqs.size())));
            auto o = mk(9, 0, "SQD");
            o.n["q"] = seqs[i];
            c.ops.push_back(o);
            seqs.erase(seqs.begin() + static_cast<long>(i));
        }
    }

    void work() {
        for (long k = r.range(1, 5); k > 0; --k) {
            if (r.pct(55)) {
                txs(static_cast<int>(r.range(1, 3)));
            } else {
                catalog();
                pause(25);
            }
        }
    }

    void restart(bool forced, bool anew) {
        c.ops.push_back(mk(9, 0, "DRAIN"));
        if (!forced) {
            // sequences are read as of the durable epoch
            auto e = mk(9, 0, "EPOCH");
            e.n["n"] = 8 + c.c("lag");
            c.ops.push_back(e);
        } else {
            pause(50);
        }
        c.ops.push_back(mk(9, 0, "DUMP"));
        if (r.pct(50)) {
            for (int s = 0; s < 3; ++s) { c.ops.push_back(mk(9, s, "LEAVE")); }
        }
        auto f = mk(9, 0, "FIN");
        f.n["force"] = forced ? 1 : 0;
        c.ops.push_back(f);
        auto i = mk(9, 0, "INIT");
        i.n["mode"] = anew ? 1 : r.pct(70) ? 2 : 3;
        i.n["rthr"] = r.pick(std::vector<long>{0, 0, 1, 2, 3, 5});
        i.n["iscan"] = r.below(2);
        c.ops.push_back(i);
        c.ops.push_back(mk(9, 0, "DUMP"));
        for (int s = 0; s < 3; ++s) { c.ops.push_back(mk(9, s, "ENTER")); }
        if (anew) {
            live.clear();
            seqs.clear();
            create();
        }
    }
};

test_case gen_restarts(rng& r, bool thorough, int p_forced) {
    test_case c;
    c.cfg["ns"] = 3;
    c.cfg["nst"] = 0;
    c.cfg["xst"] = 8;
    c.cfg["dcb"] = 1;
    c.cfg["sseed"] = static_cast<long>(r.next() & 0xffffffU);
    if (r.pct(60)) { // recovery threads meet in different ways
        c.cfg["pol"] = 1;
        c.cfg["q"] = r.pick(std::vector<long>{8, 30, 100, 300});
        c.cfg["ptail"] = 1;
    }
    if (r.pct(30)) { c.cfg["e_buf"] = 1; }
    if (r.pct(30)) { c.cfg["e_fast"] = 1; }
    if (r.pct(30)) { c.cfg["lag"] = r.range(1, 3); }
    if (r.pct(30)) { c.cfg["leaf"] = r.range(1, 3); }
    restart_gen g{r, c};
    g.create();
    if (r.pct(60)) { g.create(); }
    for (long k = r.range(1, thorough ? 4 : 3); k > 0; --k) {
        g.work();
        g.restart(r.pct(p_forced), p_forced == 0 && r.pct(8));
    }
    if (r.pct(50)) { g.work(); }
    return c;
}

void judge_r01(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad) { return; }
    ev const* before{nullptr};
    bool down{false};
    long pairs{0};
    bool removed{false};
    bool rows{false};
    bool anew{false};
    for (auto const& e : h.evs) {
        if (e.skipped) { continue; }
        auto const& o = op_of(c, e);
        if (o.kind == "FIN") { down = true; }
        if ((o.kind == "DLS" || o.kind == "DEL") && e.st == Status::OK) { removed = true; }
        if (o.kind == "INIT") {
            if (e.st != Status::OK) { r.fail("restart: " + stname(e.st)); }
            if (o.num("rthr") > 1) { r.classes.emplace_back("parallel-recovery"); }
            anew = o.num("mode") == 1;
            if (anew) { r.classes.emplace_back("created-anew"); }
        }
        if (o.kind == "DUMP") {
            if (e.st != Status::OK) {
                r.fail("contents cannot be read after the restart");
                return;
            }
            if (down && anew) {
                for (auto const& x : e.s) {
                    if (x.rfind("row", 0) == 0) { r.fail("not empty: " + x); }
                }
            } else if (down && before != nullptr) {
                ++pairs;
                std::set<std::string> a(before->s.begin(), before->s.end());
                std::set<std::string> b(e.s.begin(), e.s.end());
                for (auto const& x : a) {
                    rows = rows || x.rfind("row", 0) == 0;
                    if (b.count(x) == 0) { r.fail("lost: " + x); }
                }
                for (auto const& x : b) {
                    if (a.count(x) == 0) { r.fail("extra: " + x); }
                }
            }
            before = &e;
            down = false;
        } else if (o.kind != "FIN" && o.kind != "INIT" && o.kind != "LEAVE" && o.kind != "ENTER") {
            before = nullptr; // something happened since
        }
    }
    if (removed) { r.classes.emplace_back("removals"); }
    if (pairs > 1) { r.classes.emplace_back("several-restarts"); }
    r.nontrivial = pairs > 0 && rows;
}

reg const r01{{"R01", "at least one restart with rows to restore",
               [](rng& r, long, bool thorough) { return gen_restarts(r, thorough, 0); },
               [](test_case const& c) { return simple(c, judge_r01); }}};

void judge_r05(test_case const& c, history& h, result& r) {
    common(c, h, r);
    if (r.bad) { return; }
    std::set<std::string> handles;  // recovered, as text
    std::set<std::string> sequences;
    std::uint64_t boundary{0};      // recovered
    std::uint64_t told{0};          // largest reported before the stop
    bool up{false};
    long made{0};
    std::vector<ev const*> evs;
    for (auto const& e : h.evs) {
        if (!e.skipped) { evs.push_back(&e); }
    }
    std::uint64_t stopped{0};
    for (auto const* ep : evs) {
        auto const& e = *ep;
        auto const& o = op_of(c, e);
        if (o.kind == "FIN") {
            up = false;
            stopped = e.t1;
        }
        if (o.kind == "INIT") {
            if (e.st != Status::OK) {
                r.fail("restart: " + stname(e.st));
                return;
            }
            up = true;
            told = 0;
            boundary = 0;
            bool first{true};
            for (auto const& x : h.reported) {
                if (x.t < stopped) { told = std::max(told, x.epoch); }
                if (first && x.t > stopped) {
                    boundary = x.epoch;
                    first = false;
                }
            }
            if (boundary < told) {
                r.fail("boundary: " + std::to_string(told) + " was reported before the restart, " +
                       std::to_string(boundary) + " after it\n" + show_log(h));
            }
            for (auto const& x : h.reported) {
                if (x.t > stopped && x.t < e.t1 && x.epoch < boundary) { r.fail("boundary decreases"); }
            }
            handles.clear();
            sequences.clear();
        }
        if (o.kind == "DUMP" && up && handles.empty() && sequences.empty()) {
            for (auto const& x : e.s) {
                auto w = x.substr(0, x.find(' '));
                if (w == "storage") {
                    auto p = x.find(' ', 8);
                    handles.insert(x.substr(p + 1, x.find(' ', p + 1) - p - 1));
                }
                if (w == "sequence" && x.find("WARN") == std::string::npos) {
                    auto p = x.find(' ');
                    sequences.insert(x.substr(p + 1, x.find(' ', p + 1) - p - 1));
                }
            }
        }
        if (!up || stopped == 0) { continue; }
        if (o.kind == "CRS" && e.st == Status::OK && o.n.count("id") == 0) {
            ++made;
            if (handles.count(std::to_string(static_cast<std::uint64_t>(e.n[0]))) != 0) {
                r.fail("handle: the new storage got the handle of a recovered one, " + std::to_string(e.n[0]));
            }
        }
        if ((o.kind == "SQC" || o.kind == "CRS") && e.st > Status::OK) {
            r.fail("identifier: " + to_text(o) + " -> " + stname(e.st) + " after a restart");
        }
        if (o.kind == "SQC" && e.st == Status::OK) {
            ++made;
            for (auto id : e.n) {
                if (sequences.count(std::to_string(id)) != 0) {
                    r.fail("sequence: the new sequence got the identifier of a recovered one, " + std::to_string(id));
                }
            }
        }
        if (o.kind == "COMMIT" && e.tx >= 0) {
            auto const& t = h.txs[ix(e.tx)];
            if (answered_ok(t) && marker_of(t) != 0 && marker_of(t) <= boundary) {
                r.fail("marker: tx" + std::to_string(t.id) + " committed after the restart with marker " +
                       std::to_string(marker_of(t)) + ", recovered up to " + std::to_string(boundary));
            }
            ++made;
        }
    }
    if (r.bad) { return; }
    // clean restarts must keep what was written after earlier ones
    judge_r01(c, h, r);
    r.nontrivial = made > 0;
}

/// differences over a forced stop are judged elsewhere
void judge_r05_all(test_case const& c, history& h, result& r) {
    bool forced = std::any_of(c.ops.begin(), c.ops.end(),
                              [](op const& o) { return o.kind == "FIN" && o.num("force", 1) != 0; });
    if (!forced) {
        judge_r05(c, h, r);
        return;
    }
    r.classes.emplace_back("forced-stop");
    history g = h;
    // leave the contents before a forced stop out of the comparison
    bool drop{false};
    for (auto it = g.evs.rbegin(); it != g.evs.rend(); ++it) {
        auto const& o = op_of(c, *it);
        if (o.kind == "FIN") { drop = o.num("force", 1) != 0; }
        if (o.kind == "DUMP" && drop && !it->skipped) {
            it->skipped = true;
            drop = false;
        }
        if (o.kind == "INIT") { drop = false; }
    }
    judge_r05(c, g, r);
}

reg const r05{{"R05", "a storage, a sequence or a transaction was made after a restart",
               [](rng& r, long, bool thorough) { return gen_restarts(r, thorough, 35); },
               [](test_case const& c) { return simple(c, judge_r05_all); }}};

// ---------------------------------------------------------------- R02

test_case gen_r02(rng& r, long /*idx*/, bool thorough) {
    gen_opts g;
    g.storages = static_cast<int>(r.range(1, 2));
    g.keys = static_cast<int>(r.range(1, 4));
    g.ltx_blind = r.pct(80);
    g.w_ups = 26;
    test_case c;
    if (r.pct(70)) {
        c = gen_concurrent(r, g, static_cast<int>(r.range(2, 3)), static_cast<int>(r.range(1, thorough ? 3 : 2)));
        // more epoch changes around the commits
        if (r.pct(50)) { c.cfg["epoch"] = r.pick(std::vector<long>{20, 50, 100, 300}); }
    } else {
        c = gen_interleaved(r, g, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(3, 6)));
    }
    if (r.pct(40)) { c.cfg["e_buf"] = 1; }
    if (r.pct(30)) { c.cfg["lag"] = r.range(1, 4); }
    c.cfg["dcb"] = 1;
    c.cfg["nofinal"] = 1;
    // one thread is late somewhere
    if (r.pct(60)) {
        c.cfg["sfrac"] = r.range(0, 100000);
        c.cfg["stallus"] = c.c("epoch", 1000) * r.pick(std::vector<long>{1, 2, 3}) + r.below(200);
    }
    if (r.pct(50)) {
        c.cfg["every"] = 1;
        c.cfg["idle"] = 10 + c.c("lag");
        c.cfg.erase("nofinal");
    } else if (r.pct(50)) {
        c.cfg["crashrep"] = r.range(2, 14);
    } else {
        c.cfg["cfrac"] = r.range(0, 1000);
    }
    c.cfg["rthr2"] = r.pick(std::vector<long>{0, 0, 2});
    return c;
}

std::string explain(test_case const& c, history const& h, std::vector<int> const& must, std::vector<int> const& may,
                    bool relaxed) {
    std::string first;
    auto n = may.size();
    // larger subsets first
    std::vector<unsigned> sets;
    for (unsigned m = 0; m < (1U << n); ++m) { sets.push_back(m); }
    std::stable_sort(sets.begin(), sets.end(), [](unsigned a, unsigned b) {
        return __builtin_popcount(a) > __builtin_popcount(b);
    });
    for (auto m : sets) {
        order_problem p;
        p.check_final = true;
        auto add = [&](int t) {
            order_problem::node x{t, {}};
            if (relaxed && h.txs[ix(t)].type == 1) {
                x.oo.writes_status = false;
                x.oo.relaxed = true;
            }
            p.nodes.push_back(x);
        };
        for (int t : must) { add(t); }
        for (std::size_t i = 0; i < n; ++i) {
            if ((m >> i & 1U) != 0) { add(may[i]); }
        }
        auto w = find_order(c, h, p);
        if (w.empty()) { return {}; }
        if (first.empty()) { first = w; }
    }
    return first;
}

/// the contents recovery would give at each announcement, by the log
void judge_every(test_case const& c, history& h, result& q) {
    common(c, h, q);
    if (q.bad) { return; }
    auto keep = h.final_rows;
    std::set<std::string> done;
    long checked{0};
    for (auto const& a : h.announced) {
        std::map<place, history::log_entry const*> best;
        for (auto const* x : data(h)) {
            if (x->session > a.epoch) { continue; }
            auto& b = best[{x->st, x->key}];
            if (b == nullptr || version{b->major, b->minor} < version{x->major, x->minor}) { b = x; }
        }
        h.final_rows.assign(h.handles.size(), {});
        std::string id;
        for (std::size_t i = 0; i < h.handles.size(); ++i) {
            for (auto const& [p, x] : best) {
                if (p.first != h.handles[i] || !x->put) { continue; }
                h.final_rows[i].push_back({p.second, x->value});
                id += std::to_string(i) + p.second + "=" + x->value + ";";
            }
        }
        std::vector<int> must;
        std::vector<int> may;
        for (auto const& t : h.txs) {
            if (!answered_ok(t)) { continue; }
            bool m = marker_of(t) != 0 && marker_of(t) <= a.epoch;
            (m ? must : may).push_back(t.id);
            id += m ? "+" : "-";
        }
        if (!done.insert(id).second) { continue; }
        if (!must.empty() && !may.empty()) { ++checked; }
        if (may.size() > 9) { continue; }
        auto w = explain(c, h, must, may, false);
        if (!w.empty() && !strict()) {
            auto w2 = explain(c, h, must, may, true);
            if (w2.empty()) { q.classes.emplace_back("known:long-write-status"); }
            w = w2;
        }
        if (!w.empty() && !strict() && long_existence(c, h)) {
            q.classes.emplace_back("not-judged");
            w.clear();
        }
        if (!w.empty()) {
            q.fail("recovered state: no subset explains what is durable at " + std::to_string(a.epoch) + " (" + w + ")\n" +
                   show_log(h));
            break;
        }
    }
    q.classes.emplace_back("every-announcement");
    q.nontrivial = checked > 0;
    h.final_rows = keep;
}

result eval_r02(test_case const& c0) {
    result r;
    test_case c = c0;
    if (c.cfg.count("sfrac") != 0) {
        test_case probe = c;
        probe.cfg.erase("crashrep");
        auto o = in_child([&]() {
            history h;
            run_case(probe, h);
            return std::to_string(h.work0) + " " + std::to_string(h.work1);
        });
        if (child_failed(o, r)) { return r; }
        auto sp = o.text.find(' ');
        auto a = std::stol(o.text.substr(0, sp));
        auto b = std::stol(o.text.substr(sp + 1));
        c.cfg["stall"] = a + (b - a) * c.c("sfrac") / 100000 + 1;
    }
    if (c.c("every") != 0) { return simple(c, judge_every); }
    if (c.cfg.count("cfrac") != 0) {
        test_case probe = c;
        auto o = in_child([&]() {
            history h;
            run_case(probe, h);
            return std::to_string(h.work0) + " " + std::to_string(h.work1);
        });
        if (child_failed(o, r)) { return r; }
        auto sp = o.text.find(' ');
        auto a = std::stol(o.text.substr(0, sp));
        auto b = std::stol(o.text.substr(sp + 1));
        c.cfg["crash"] = a + (b - a) * c.c("cfrac") / 1000 + 1;
    }
    auto o = in_child([&]() {
        history h;
        g_crash_text = [&h]() { return ser_history(h); };
        run_case(c, h);
        return ser_history(h);
    });
    if (child_failed(o, r)) { return r; }
    bool cut = o.k == child_out::kind::killed77;
    auto text = o.text;
    auto o2 = in_child([&]() {
        result q;
        history h = unser_history(text);
        for (auto const& a : h.anomalies) { q.fail("anomaly: " + a); }
        test_case d;
        d.prop = c.prop;
        d.cfg["ns"] = 1;
        d.cfg["nst"] = 0;
        d.cfg["keeplog"] = 1;
        d.cfg["mode"] = 2;
        d.cfg["rthr"] = c.c("rthr2");
        d.cfg["sseed"] = c.c("sseed");
        d.cfg["iscan"] = c.c("iscan");
        d.cfg["nofinal"] = 1;
        d.ops.push_back(mk(0, 0, "DUMP"));
        history h2;
        run_case(d, h2);
        if (h2.evs.empty() || h2.evs[0].st != Status::OK) {
            q.fail("recovery: the contents cannot be read");
            return ser(q);
        }
        h.final_rows.assign(static_cast<std::size_t>(c.c("nst", 1)), {});
        h.final_ok = true;
        for (auto const& s : h2.evs[0].s) {
            if (s.rfind("row s", 0) != 0) { continue; }
            auto a = s.find(' ', 4);
            auto b = s.find(' ', a + 1);
            auto slot = std::stoul(s.substr(5, a - 5));
            if (slot < h.final_rows.size()) { h.final_rows[slot].push_back({s.substr(a + 1, b - a - 1), s.substr(b + 1)}); }
        }
        std::uint64_t told{0};
        for (auto const& x : h.reported) { told = std::max(told, x.epoch); }
        std::vector<int> must;
        std::vector<int> may;
        for (auto const& t : h.txs) {
            bool ok = answered_ok(t);
            if (ok && marker_of(t) != 0 && marker_of(t) <= told) {
                must.push_back(t.id);
            } else if (ok || (t.commit_called && t.out == outcome::open && t.cb && t.cb->count == 0)) {
                may.push_back(t.id);
            }
        }
        q.classes.emplace_back(cut ? "cut-off" : "ran-to-end");
        if (!must.empty()) { q.classes.emplace_back("some-durable"); }
        if (!may.empty()) { q.classes.emplace_back("some-undecided"); }
        q.nontrivial = cut && must.size() + may.size() >= 2 && !may.empty();
        if (may.size() > 9) {
            q.classes.emplace_back("not-judged");
            return ser(q);
        }
        auto w = explain(c, h, must, may, false);
        if (!w.empty() && !strict()) {
            auto w2 = explain(c, h, must, may, true);
            if (w2.empty()) {
                q.classes.emplace_back("known:long-write-status");
                w.clear();
            } else {
                w = w2;
            }
        }
        if (!w.empty() && !strict() && long_existence(c, h)) {
            q.classes.emplace_back("not-judged");
            w.clear();
        }
        if (!w.empty()) {
            std::string m;
            for (int t : must) { m += " tx" + std::to_string(t); }
            m += " / may be included:";
            for (int t : may) { m += " tx" + std::to_string(t) + "(" + std::to_string(marker_of(h.txs[ix(t)])) + ")"; }
            q.fail("recovered state: no subset explains it (" + w + "); reported durable up to " +
                   std::to_string(told) + ":" + m + "\n" + show(c, h));
        }
        if (std::getenv("VPH_SHOW") != nullptr) { q.extra = show(c, h); }
        return ser(q);
    });
    if (child_failed(o2, r)) { return r; }
    return unser(o2.text);
}

reg const r02{{"R02", "the process was cut off while at least one of two or more submitted transactions was not reported durable",
               gen_r02, eval_r02}};

} // namespace
} // namespace vp
