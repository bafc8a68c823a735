// Exact model of transactions executed one after another, and programs for it.
#pragma once
#include <algorithm>

#include "props.h"

namespace vp {

struct map_model {
    test_case const& c;
    history const& h;
    result& r;
    state db;
    struct entry {
        char t; // I, U (update), P (upsert), D
        std::string v;
    };
    std::map<std::pair<long, std::string>, entry> ov;
    std::set<long> holes; // storages in which an index entry without a live row may exist
    std::set<long> touched; // storages used by the current transaction
    std::set<long> gone;    // storages that were deleted or never created
    int refused{0};
    std::uint64_t last_write_v{0};
    int tx{-1};
    bool judged{true}; // reads of this transaction are judged
    int writes{0}, reads{0}, own{0}, scans{0};

    map_model(test_case const& cc, history const& hh, result& rr) : c(cc), h(hh), r(rr) {}

    void bad(ev const& e, std::string const& what) {
        r.fail("model: op" + std::to_string(e.op) + " " + to_text(op_of(c, e)) + " -> " + stname(e.st) +
               ": " + what);
    }

    std::optional<std::string> view(std::pair<long, std::string> const& k) const {
        if (auto o = ov.find(k); o != ov.end()) {
            if (o->second.t == 'D') { return std::nullopt; }
            return o->second.v;
        }
        if (auto d = db.find(k); d != db.end()) { return d->second; }
        return std::nullopt;
    }

    state whole() const {
        state s = db;
        for (auto const& [k, e] : ov) {
            if (e.t == 'D') {
                s.erase(k);
            } else {
                s[k] = e.v;
            }
        }
        return s;
    }

    static bool too_long(std::string const& k) { return k.size() > 30U * 1024U; }

    void expect(ev const& e, Status want) {
        if (e.st != want) { bad(e, "expected " + stname(want)); }
    }

    // every operation on a storage that is not there is refused
    bool no_storage(op const& o, ev const& e) {
        if (gone.count(o.num("st")) == 0) { return false; }
        ++refused;
        if (e.st != Status::WARN_STORAGE_NOT_FOUND && e.st != Status::WARN_INVALID_KEY_LENGTH) {
            bad(e, "the storage does not exist");
        }
        return true;
    }

    void catalog(op const& o, ev const& e) {
        long st = o.num("st");
        if (o.kind == "CRS") {
            expect(e, Status::OK);
            gone.erase(st);
            holes.erase(st);
        } else if (o.kind == "DLS") {
            expect(e, gone.count(st) != 0 ? Status::WARN_INVALID_HANDLE : Status::OK);
            gone.insert(st);
            for (auto it = db.begin(); it != db.end();) {
                it = it->first.first == st ? db.erase(it) : std::next(it);
            }
        }
    }

    void point(op const& o, ev const& e) {
        if (no_storage(o, e)) { return; }
        std::pair<long, std::string> k{o.num("st"), o.str("k")};
        if (too_long(k.second)) {
            expect(e, Status::WARN_INVALID_KEY_LENGTH);
            return;
        }
        auto cur = view(k);
        auto in = ov.find(k);
        char t = in == ov.end() ? 0 : in->second.t;
        if (o.kind == "GET" || o.kind == "EXI") {
            if (!judged) { return; }
            ++reads;
            if (t != 0) { ++own; }
            expect(e, cur ? Status::OK : Status::WARN_NOT_FOUND);
            if (o.kind == "GET" && e.st == Status::OK && cur && e.s.at(0) != *cur) {
                bad(e, "read " + esc(e.s[0]) + " expected " + esc(*cur));
            }
            return;
        }
        ++writes;
        auto put = [&](char nt) { ov[k] = {nt, o.str("v")}; };
        if (o.kind == "INS") {
            expect(e, cur ? Status::WARN_ALREADY_EXISTS : Status::OK);
            if (e.st == Status::OK) { put(t == 'D' ? 'U' : 'I'); }
        } else if (o.kind == "UPD") {
            expect(e, cur ? Status::OK : Status::WARN_NOT_FOUND);
            if (e.st == Status::OK) { put(t == 0 ? 'U' : t); }
        } else if (o.kind == "UPS") {
            expect(e, Status::OK);
            if (e.st == Status::OK) { put(t == 0 ? 'P' : t == 'D' ? 'U' : t); }
        } else {
            holes.insert(k.first);
            if (!cur) {
                expect(e, Status::WARN_NOT_FOUND);
            } else if (t == 'I') {
                expect(e, Status::WARN_CANCEL_PREVIOUS_INSERT);
                ov.erase(k);
            } else if (t == 'P') {
                expect(e, Status::WARN_CANCEL_PREVIOUS_UPSERT);
                ov.erase(k);
                if (db.count(k) != 0) { ov[k] = {'D', {}}; }
            } else {
                expect(e, Status::OK);
                ov[k] = {'D', {}};
            }
        }
    }

    struct cursor {
        op const* o{nullptr};
        ev const* at{nullptr};
        std::vector<row> want;
        bool holes{false};
        std::size_t pos{0};
        bool live{false}, done{false};
    };
    std::map<long, cursor> cur;

    static std::string rows_text(std::vector<row> const& v) {
        std::string o = "[";
        for (auto const& x : v) { o += esc(x.key) + "=" + (x.val ? esc(*x.val) : "?") + " "; }
        return o + "]";
    }

    static bool same(row const& a, row const& b) { return a.key == b.key && a.val == b.val; }

    bool long_end(op const& o) const {
        return (o.num("le", 2) != 2 && too_long(o.str("l"))) || (o.num("re", 2) != 2 && too_long(o.str("r")));
    }

    std::vector<row> expected(op const& o) const {
        auto want = range_of(whole(), o);
        auto max = static_cast<std::size_t>(o.num("max"));
        if (o.num("rev") != 0) {
            if (!want.empty()) { want = {want.back()}; }
        } else if (max != 0 && want.size() > max) {
            want.resize(max);
        }
        return want;
    }

    // rows got from a scan that went to its end
    void compare(op const& o, ev const& e, std::vector<row> const& got, std::vector<row> const& want,
                 bool hole) {
        bool limited = o.num("max") != 0;
        bool ok = got.size() == want.size() || (limited && hole && got.size() < want.size());
        for (std::size_t i = 0; ok && i < got.size(); ++i) { ok = same(got[i], want[i]); }
        if (!ok) { bad(e, "gave " + rows_text(got) + " expected " + rows_text(want)); }
    }

    void scan(op const& o, ev const& e) {
        if (no_storage(o, e)) { return; }
        if (long_end(o)) {
            expect(e, Status::WARN_INVALID_KEY_LENGTH);
            return;
        }
        if (!judged) { return; }
        ++scans;
        auto want = expected(o);
        if (e.st != Status::OK && e.st != Status::WARN_NOT_FOUND) {
            bad(e, "unexpected status");
            return;
        }
        if (!e.n.empty()) {
            bad(e, "a row could not be read");
            return;
        }
        if (e.complete) {
            compare(o, e, e.rows, want, holes.count(o.num("st")) != 0);
            return;
        }
        // stopped early
        bool ok = e.rows.size() <= want.size();
        for (std::size_t i = 0; ok && i < e.rows.size(); ++i) { ok = same(e.rows[i], want[i]); }
        if (!ok) { bad(e, "gave " + rows_text(e.rows) + " expected " + rows_text(want)); }
    }

    void cursor_op(op const& o, ev const& e) {
        auto& cu = cur[o.num("h")];
        if (o.kind == "SOPEN") {
            cu = cursor{};
            if (no_storage(o, e)) { return; }
            if (long_end(o)) {
                expect(e, Status::WARN_INVALID_KEY_LENGTH);
                return;
            }
            if (!judged) { return; }
            cu.o = &o;
            cu.want = expected(o);
            cu.holes = holes.count(o.num("st")) != 0;
            if (e.st == Status::WARN_NOT_FOUND) {
                compare(o, e, {}, cu.want, cu.holes);
                return;
            }
            if (e.st != Status::OK) {
                bad(e, "unexpected status");
                return;
            }
            cu.live = true;
            return;
        }
        if (!cu.live) { return; }
        if (o.kind == "SREAD") {
            if (e.st != Status::OK || !e.n.empty() || (e.rows.empty() && !cu.holes)) {
                bad(e, "the row could not be read");
                return;
            }
            if (e.rows.empty()) { return; }
            // entries of deleted rows may lie between
            if (cu.pos >= cu.want.size() || !same(e.rows[0], cu.want[cu.pos])) {
                bad(e, "gave " + rows_text(e.rows) + " expected number " + std::to_string(cu.pos) + " of " +
                               rows_text(cu.want));
            }
            cu.at = &e;
        } else if (o.kind == "SNEXT") {
            bool read = cu.at != nullptr;
            if (read) { ++cu.pos; }
            cu.at = nullptr;
            if (!read) { // position skipped without looking: no longer comparable
                cu.live = false;
                return;
            }
            if (e.st == Status::WARN_SCAN_LIMIT) {
                bool limited = cu.o->num("max") != 0;
                if (cu.pos != cu.want.size() && !(limited && cu.holes)) {
                    bad(e, "ended after " + std::to_string(cu.pos) + " rows of " + rows_text(cu.want));
                }
                cu.live = false;
                ++scans;
            } else if (e.st == Status::OK) {
                if (cu.pos >= cu.want.size() && !cu.holes) { bad(e, "did not end"); }
            } else {
                bad(e, "unexpected status");
            }
        } else if (o.kind == "SCLOSE") {
            expect(e, Status::OK);
            cu.live = false;
        }
    }

    /// @return false if transactions overlapped (only after shrinking)
    bool run() {
        auto epoch = static_cast<std::uint64_t>(c.c("epoch", 1000)) * 1000U;
        for (long i = c.c("nst", 1); i < c.c("nst", 1) + c.c("xst"); ++i) { gone.insert(i); }
        for (auto const& e : h.evs) {
            if (e.skipped || r.bad) { continue; }
            auto const& o = op_of(c, e);
            if (o.kind == "CRS" || o.kind == "DLS") {
                if (tx >= 0) { return false; }
                catalog(o, e);
                continue;
            }
            if (o.kind == "BEGIN") {
                if (tx >= 0) { return false; }
                expect(e, Status::OK);
                tx = e.tx;
                ov.clear();
                cur.clear();
                touched.clear();
                judged = true;
                auto const& t = h.txs[ix(tx)];
                if (t.type == 2 && t.v_begin < last_write_v + 4 * epoch) { judged = false; }
                continue;
            }
            if (e.tx < 0) { continue; }
            if (e.tx != tx) { return false; }
            auto const& t = h.txs[ix(tx)];
            touched.insert(o.num("st"));
            if (is_err(e.st)) {
                // the collector taking away the entry of a deleted row looks like
                // another transaction to a short one
                bool gone = t.type == 0 && e.st == Status::ERR_CC &&
                            std::any_of(touched.begin(), touched.end(),
                                        [&](long st) { return holes.count(st) != 0; });
                if (!gone) {
                    bad(e, "aborted without another transaction");
                    return true;
                }
                r.classes.emplace_back("collector-abort");
                for (auto const& [k, en] : ov) { holes.insert(k.first); }
                tx = -1;
                continue;
            }
            if (o.kind == "COMMIT") {
                if (t.out == outcome::committed) {
                    for (auto const& [k, en] : ov) {
                        if (en.t == 'D') {
                            db.erase(k);
                        } else {
                            db[k] = en.v;
                        }
                    }
                    if (!ov.empty()) { last_write_v = t.cb->v; }
                } else {
                    bad(e, "not committed");
                }
                tx = -1;
            } else if (o.kind == "ABORT") {
                expect(e, Status::OK);
                for (auto const& [k, en] : ov) { holes.insert(k.first); }
                tx = -1;
            } else if (o.kind == "SCAN") {
                scan(o, e);
            } else if (o.kind == "SOPEN" || o.kind == "SREAD" || o.kind == "SNEXT" || o.kind == "SCLOSE") {
                cursor_op(o, e);
            } else if (is_write(o.kind) || is_read(o.kind)) {
                for (auto& [hh, cu] : cur) {
                    if (is_write(o.kind)) { cu.live = false; }
                }
                point(o, e);
            }
        }
        if (!r.bad && h.final_ok) {
            auto f = final_state(h);
            if (f != db) { r.fail("model: final contents " + show_state(f) + " expected " + show_state(db)); }
        }
        return true;
    }
};

struct seq_opts {
    int storages{2};
    int txs{4};
    int ops{8};
    int w_point{30}, w_write{50}, w_scan{10}, w_cursor{0};
    std::vector<std::string> keys;
    bool reverse{false};
    bool big{false};
};

op seq_scan(rng& r, seq_opts const& g, int s, std::string kind);
void seq_program(rng& r, test_case& c, seq_opts const& g);
std::vector<std::string> plain_keys(long n);
result model_eval(test_case const& c, std::function<bool(map_model const&)> const& nontrivial);

} // namespace vp
