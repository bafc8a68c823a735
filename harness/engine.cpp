// Interpreter: executes the operations of a case against the public interface.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <functional>
#include <set>
#include <sstream>
#include <thread>

#include <unistd.h>

#include <glog/logging.h>

#include "history.h"
#include "vsched.h"
#include "yakushima/include/kvs.h"
#ifdef PWAL
#include "limestone/api/datastore.h"
#endif

namespace vp {

using namespace shirakami; // NOLINT

std::string g_scratch;
char* g_progress{nullptr};

std::string stname(Status s) {
    switch (s) {
#define N(x)                                                                   \
    case Status::x:                                                            \
        return #x
        N(WARN_ALREADY_BEGIN);
        N(WARN_ALREADY_EXISTS);
        N(WARN_ALREADY_INIT);
        N(WARN_CANCEL_PREVIOUS_INSERT);
        N(WARN_CANCEL_PREVIOUS_UPSERT);
        N(WARN_CONCURRENT_INSERT);
        N(WARN_CONCURRENT_UPDATE);
        N(WARN_CONFLICT_ON_WRITE_PRESERVE);
        N(WARN_ILLEGAL_OPERATION);
        N(WARN_INVALID_ARGS);
        N(WARN_INVALID_HANDLE);
        N(WARN_INVALID_KEY_LENGTH);
        N(WARN_MAX_OPEN_SCAN);
        N(WARN_NOT_BEGIN);
        N(WARN_NOT_FOUND);
        N(WARN_NOT_IN_A_SESSION);
        N(WARN_NOT_INIT);
        N(WARN_PREMATURE);
        N(WARN_SCAN_LIMIT);
        N(WARN_STORAGE_ID_DEPLETION);
        N(WARN_STORAGE_NOT_FOUND);
        N(WARN_WAITING_FOR_OTHER_TX);
        N(WARN_WRITE_WITHOUT_WP);
        N(OK);
        N(ERR_CC);
        N(ERR_FATAL);
        N(ERR_READ_AREA_VIOLATION);
        N(ERR_KVS);
        N(ERR_FATAL_INDEX);
        N(ERR_NOT_IMPLEMENTED);
        N(ERR_INVALID_CONFIGURATION);
        N(ERR_SESSION_LIMIT);
#undef N
        default:
            return "STATUS_" + std::to_string(static_cast<int>(s));
    }
}

namespace {

struct sink : google::LogSink {
    history* h{nullptr};
    void send(google::LogSeverity sev, const char* /*full*/, const char* base, int line,
              const struct ::tm* /*tm*/, const char* msg, size_t len) override {
        if (sev >= google::GLOG_ERROR && h != nullptr && h->errlogs.size() < 20) {
            h->errlogs.push_back(std::string(base) + ":" + std::to_string(line) + " " +
                                 std::string(msg, len));
        }
    }
};

struct scan_slot {
    ScanHandle h{};
    bool open{false};
};

struct sess_state {
    Token tok{nullptr};
    bool in{false};     // entered
    int tx{-1};         // current transaction or -1
    bool pending{false}; // commit submitted, not answered
    std::vector<scan_slot> scans;
    std::set<Storage> used; // storages the current transaction named
};

struct storage_slot {
    Storage h{};
    bool live{false};
    std::string name;
};

struct runner {
    test_case const& c;
    history& h;
    std::vector<sess_state> ss;
    std::vector<storage_slot> st;
    std::vector<txn*> left; // submitted, their session was left
    std::vector<SequenceId> seqs;
    std::vector<SequenceId> made; // all sequences created
    std::vector<TxStateHandle> states;
    std::uint64_t seq{0};
    std::uint64_t epoch_ns{1000000};
    bool raw{false};  // calls are also made in the wrong state
    bool up{false};
    std::vector<Storage> all_handles;
    long reports{0}; // durability notifications so far

    runner(test_case const& cc, history& hh) : c(cc), h(hh) {
        ss.resize(static_cast<std::size_t>(std::max(1L, c.c("ns", 4))));
        for (auto& s : ss) { s.scans.resize(4); }
        st.resize(static_cast<std::size_t>(std::max(0L, c.c("nst", 1))) +
                  static_cast<std::size_t>(c.c("xst", 0)));
        seqs.assign(8, 0);
        states.assign(64, TxStateHandle{});
        raw = c.c("raw") != 0;
        epoch_ns = static_cast<std::uint64_t>(c.c("epoch", 1000)) * 1000ULL;
    }

    std::uint64_t tick() { return ++seq; }

    Storage storage(long i) {
        if (i >= 1000) { return static_cast<Storage>(i); } // unknown handle
        if (i < 0 || static_cast<std::size_t>(i) >= st.size()) { return 0xdeadbeefULL; }
        return st[static_cast<std::size_t>(i)].h;
    }

    Storage storage(op const& o) {
        return o.n.count("hx") != 0 ? static_cast<Storage>(o.num("hx")) : storage(o.num("st"));
    }

    static scan_endpoint ep(long e) {
        return e == 0 ? scan_endpoint::EXCLUSIVE
                      : (e == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::INF);
    }

    database_options make_options(op const* o) {
        auto opt = [&](char const* k, long d) { return o != nullptr ? o->num(k, c.c(k, d)) : c.c(k, d); };
        database_options d{};
        d.set_epoch_time(static_cast<std::size_t>(opt("epoch", 1000)));
        d.set_iterator_based_scan(opt("iscan", 0) != 0);
        d.set_waiting_resolver_threads(static_cast<std::size_t>(opt("res", 2)));
        d.set_index_restore_threads(static_cast<std::size_t>(opt("rthr", 0)));
        d.set_enable_logging_detail_info(opt("detail", 0) != 0);
        d.set_open_mode(static_cast<database_options::open_mode>(
                opt("mode", static_cast<long>(database_options::open_mode::CREATE))));
#ifdef PWAL
        std::filesystem::path p = g_scratch + "/log";
        d.set_log_directory_path(p);
#endif
        epoch_ns = static_cast<std::uint64_t>(opt("epoch", 1000)) * 1000ULL;
        return d;
    }

    Status do_init(op const* o) {
        auto rc = init(make_options(o));
        if (rc == Status::OK) {
            up = true;
            if (c.c("dcb") != 0) {
                register_durability_callback([this](durability_marker_type m) {
                    h.reported.push_back({tick(), m});
                    if (++reports == c.c("crashrep")) { vsched::crash(); }
                });
            }
        }
        return rc;
    }

    void enter_session(std::size_t i) {
        Token t{};
        if (enter(t) == Status::OK) {
            ss[i].tok = t;
            ss[i].in = true;
            ss[i].tx = -1;
            ss[i].pending = false;
        }
    }

    txn* cur(int s) {
        auto& x = ss[static_cast<std::size_t>(s)];
        return x.tx < 0 ? nullptr : &h.txs[static_cast<std::size_t>(x.tx)];
    }

    // the current transaction of the session ended
    void finish(int s, outcome o, Status stt) {
        auto* t = cur(s);
        if (t != nullptr) {
            t->out = o;
            t->end_st = stt;
            t->t_end = tick();
            auto ri = transaction_result_info(ss[static_cast<std::size_t>(s)].tok);
            if (ri && o == outcome::aborted) { t->reason = static_cast<int>(ri->get_reason_code()); }
        }
        auto& x = ss[static_cast<std::size_t>(s)];
        x.tx = -1;
        x.pending = false;
        for (auto& sc : x.scans) { sc.open = false; }
    }

    // the callback of a pending commit has arrived: fold it in
    void poll(int s) {
        auto& x = ss[static_cast<std::size_t>(s)];
        auto* t = cur(s);
        if (t == nullptr || !x.pending || !t->cb || t->cb->count == 0) { return; }
        settle(s, *t);
    }

    void settle(int s, txn& t) {
        auto& x = ss[static_cast<std::size_t>(s)];
        auto cb = t.cb;
        t.marker = cb->marker;
        if (cb->st == Status::OK) {
            t.out = outcome::committed;
            t.end_st = Status::OK;
        } else if (cb->st == Status::WARN_PREMATURE) {
            // not started yet: the transaction is still open
            x.pending = false;
            t.commit_called = false;
            return;
        } else {
            t.out = outcome::aborted;
            t.end_st = cb->st;
            t.reason = cb->reason;
        }
        t.t_end = cb->t;
        x.tx = -1;
        x.pending = false;
        for (auto& sc : x.scans) { sc.open = false; }
    }

    /// outcomes of transactions whose session was left after the submission
    bool settle_left() {
        for (auto it = left.begin(); it != left.end();) {
            auto& t = **it;
            if (!t.cb || t.cb->count == 0) {
                ++it;
                continue;
            }
            t.marker = t.cb->marker;
            t.out = t.cb->st == Status::OK ? outcome::committed : outcome::aborted;
            t.end_st = t.cb->st;
            t.reason = t.cb->reason;
            t.t_end = t.cb->t;
            it = left.erase(it);
        }
        return left.empty();
    }

    bool premature_retry(Status rc, int& tries) {
        if (rc != Status::WARN_PREMATURE || c.c("pre", 1) == 0) { return false; }
        if (tries >= 40) {
            ++h.never_started;
            return false;
        }
        ++tries;
        vsched::sleep_ns(epoch_ns / 2 + 1000);
        return true;
    }

    void read_cursor(Token tok, ScanHandle hd, ev& e, bool& stop, int s) {
        std::string k;
        std::string v;
        auto rc = read_key_from_scan(tok, hd, k);
        if (rc == Status::OK) {
            row r;
            r.key = k;
            auto rc2 = read_value_from_scan(tok, hd, v);
            if (rc2 == Status::OK) {
                r.val = v;
            } else if (is_err(rc2)) {
                e.st = rc2;
                stop = true;
            }
            e.rows.push_back(r);
        } else if (is_err(rc)) {
            e.st = rc;
            stop = true;
        } else if (rc == Status::WARN_NOT_FOUND || rc == Status::WARN_CONCURRENT_INSERT) {
            // a record that is not there for this transaction
        } else {
            // value not obtainable (for example being updated): the range was not fully seen
            e.n.push_back(static_cast<long>(rc));
        }
        (void) s;
    }

    void do_scan(op const& o, ev& e, sess_state& x) {
        ScanHandle hd{};
        int tries{0};
        do {
            e.st = open_scan(x.tok, storage(o.num("st")), o.str("l"), ep(o.num("le", 2)),
                             o.str("r"), ep(o.num("re", 2)), hd,
                             static_cast<std::size_t>(o.num("max")), o.num("rev") != 0);
        } while (premature_retry(e.st, tries));
        if (e.st == Status::WARN_NOT_FOUND) {
            e.complete = true;
            return;
        }
        if (e.st != Status::OK) { return; }
        long limit = o.num("cnt", -1);
        bool stop{false};
        long seen{0};
        while (!stop) {
            if (limit >= 0 && seen >= limit) { break; }
            read_cursor(x.tok, hd, e, stop, o.sess);
            ++seen;
            if (stop) { break; }
            auto rc = next(x.tok, hd);
            if (rc == Status::WARN_SCAN_LIMIT) {
                e.complete = true;
                break;
            }
            if (rc != Status::OK) {
                e.st = rc;
                stop = true;
            }
            if (seen > 10000) {
                h.anomalies.emplace_back("scan does not end");
                break;
            }
        }
        if (!is_err(e.st)) {
            auto rc = close_scan(x.tok, hd);
            bool const ended = c.c("shared") != 0 && rc == Status::WARN_NOT_BEGIN; // by another thread
            if (rc != Status::OK && !is_err(rc) && !ended) {
                h.anomalies.emplace_back("close_scan: " + stname(rc));
            }
        }
    }

    void do_commit(op const& o, ev& e, sess_state& x) {
        txn* t = cur(o.sess);
        if (x.pending) { // a second request
            auto rec = std::make_shared<cb_rec>();
            h.reqs.push_back({t->id, false, false, rec});
            auto& rq = h.reqs.back();
            auto* self = this;
            rq.sync = commit(x.tok, [rec, self](Status s, reason_code, durability_marker_type) {
                ++rec->count;
                rec->st = s;
                rec->t = self->tick();
            });
            rq.returned = true;
            e.n.push_back(rq.sync ? 1 : 0);
            e.n.push_back(rec->count);
            e.st = rec->count > 0 ? rec->st : Status::WARN_WAITING_FOR_OTHER_TX;
            return;
        }
        int tries{0};
        for (;;) {
            auto rec = std::make_shared<cb_rec>();
            if (t != nullptr) {
                t->cb = rec;
                t->commit_called = true;
                t->t_commit0 = tick();
            }
            h.reqs.push_back({t == nullptr ? -1 : t->id, false, false, rec});
            auto& rq = h.reqs.back();
            auto* self = this;
            bool sync = commit(x.tok, [rec, self](Status s, reason_code r, durability_marker_type m) {
                ++rec->count;
                rec->st = s;
                rec->reason = static_cast<int>(r);
                rec->marker = m;
                rec->t = self->tick();
                rec->v = vsched::now_ns();
            });
            rq.sync = sync;
            rq.returned = true;
            if (t != nullptr) {
                t->sync = sync;
                t->t_commit1 = tick();
            }
            e.n.push_back(sync ? 1 : 0);
            if (sync && rec->count != 1) {
                h.anomalies.push_back("commit returned true, notifications: " +
                                      std::to_string(rec->count));
            }
            if (rec->count > 0) {
                e.st = rec->st;
                if (premature_retry(rec->st, tries)) { continue; }
                if (t != nullptr) { settle(o.sess, *t); }
            } else {
                e.st = Status::WARN_WAITING_FOR_OTHER_TX;
                x.pending = true;
                if (o.num("wait") != 0) {
                    for (int i = 0; i < 4000 && x.pending; ++i) {
                        vsched::sleep_ns(epoch_ns / 2 + 500);
                        poll(o.sess);
                    }
                    if (x.pending) { h.hung = true; }
                    e.st = rec->st;
                }
            }
            break;
        }
    }

    void exec(int idx, op const& o) {
        ev e;
        e.op = idx;
        e.sess = o.sess;
        e.thr = o.thr;
        e.v0 = vsched::now_ns();
        e.t0 = tick();
        if (g_progress != nullptr) {
            auto t = to_text(o);
            std::strncpy(g_progress, t.c_str(), 200);
        }
        if (o.n.count("arm") != 0) { vsched::arm_stall(static_cast<std::uint64_t>(o.num("arm"))); }
        exec_body(o, e);
        e.t1 = tick();
        if (!e.skipped && e.tx >= 0) {
            h.txs[static_cast<std::size_t>(e.tx)].evs.push_back(static_cast<int>(h.evs.size()));
        }
        h.evs.push_back(std::move(e));
    }

    // an error status ends the transaction
    void after(op const& o, ev& e) {
        // (when calls are not filtered: but not the answer to unusable arguments)
        if (is_err(e.st) && (!raw || e.st != Status::ERR_FATAL)) {
            finish(o.sess, outcome::aborted, e.st);
        }
    }

    bool is_open(ScanHandle hd) const {
        return std::any_of(ss.begin(), ss.end(), [hd](sess_state const& x) {
            return std::any_of(x.scans.begin(), x.scans.end(), [hd](auto const& z) { return z.open && z.h == hd; });
        });
    }

    bool exec_tx_op(op const& o, ev& e, sess_state& x) {
        std::string const& k = o.kind;
        if (o.n.count("st") != 0) { x.used.insert(storage(o.num("st"))); }
        int tries{0};
        auto key = o.str("k");
        auto val = o.str("v");
        std::vector<blob_id_type> lobs;
        for (long b : o.list("lob")) { lobs.push_back(static_cast<blob_id_type>(b)); }
        auto const* lp = lobs.empty() ? nullptr : lobs.data();
        if (k == "GET") {
            std::string out;
            do {
                e.st = search_key(x.tok, storage(o.num("st")), key, out);
            } while (premature_retry(e.st, tries));
            if (e.st == Status::OK) { e.s.push_back(out); }
        } else if (k == "EXI") {
            do {
                e.st = exist_key(x.tok, storage(o.num("st")), key);
            } while (premature_retry(e.st, tries));
        } else if (k == "INS") {
            do {
                e.st = insert(x.tok, storage(o.num("st")), key, val, lp, lobs.size());
            } while (premature_retry(e.st, tries));
        } else if (k == "UPD") {
            do {
                e.st = update(x.tok, storage(o.num("st")), key, val, lp, lobs.size());
            } while (premature_retry(e.st, tries));
        } else if (k == "UPS") {
            do {
                e.st = upsert(x.tok, storage(o.num("st")), key, val, lp, lobs.size());
            } while (premature_retry(e.st, tries));
        } else if (k == "DEL") {
            do {
                e.st = delete_record(x.tok, storage(o.num("st")), key);
            } while (premature_retry(e.st, tries));
        } else if (k == "SCAN") {
            do_scan(o, e, x);
        } else if (k == "SOPEN") {
            auto& sl = x.scans[static_cast<std::size_t>(o.num("h"))];
            if (sl.open && !raw) {
                close_scan(x.tok, sl.h);
                sl.open = false;
            }
            ScanHandle hd{};
            do {
                e.st = open_scan(x.tok, storage(o.num("st")), o.str("l"), ep(o.num("le", 2)),
                                 o.str("r"), ep(o.num("re", 2)), hd,
                                 static_cast<std::size_t>(o.num("max")), o.num("rev") != 0);
            } while (premature_retry(e.st, tries));
            if (e.st == Status::OK) {
                sl.h = hd;
                sl.open = true;
                e.handle = reinterpret_cast<std::uintptr_t>(hd);
            }
        } else if (k == "SREAD" || k == "SNEXT" || k == "SCLOSE" || k == "SSIZE" || k == "SKEY" ||
                   k == "SVAL") {
            auto& sl = x.scans[static_cast<std::size_t>(o.num("h"))];
            if (!sl.open && !raw) { return false; }
            ScanHandle hd = sl.h;
            if (o.num("null") != 0) { hd = nullptr; }
            if (o.n.count("from") != 0) { // handle of another session
                hd = ss[static_cast<std::size_t>(o.num("from"))]
                             .scans[static_cast<std::size_t>(o.num("h"))]
                             .h;
            }
            e.handle = reinterpret_cast<std::uintptr_t>(hd);
            if (raw && x.tx >= 0 && hd != nullptr && k != "SCLOSE" && !is_open(hd)) {
                return false; // only closing looks a handle up before using it
            }
            if (k == "SREAD") {
                bool stop{false};
                read_cursor(x.tok, hd, e, stop, o.sess);
            } else if (k == "SKEY") {
                std::string out;
                e.st = read_key_from_scan(x.tok, hd, out);
                if (e.st == Status::OK) { e.s.push_back(out); }
            } else if (k == "SVAL") {
                std::string out;
                e.st = read_value_from_scan(x.tok, hd, out);
                if (e.st == Status::OK) { e.s.push_back(out); }
            } else if (k == "SNEXT") {
                e.st = next(x.tok, hd);
            } else if (k == "SCLOSE") {
                e.st = close_scan(x.tok, hd);
                if (e.st == Status::OK && hd == sl.h) { sl.open = false; }
            } else {
                std::size_t n{};
                e.st = scannable_total_index_size(x.tok, hd, n);
                if (e.st == Status::OK) { e.n.push_back(static_cast<long>(n)); }
            }
        } else if (k == "SQU") {
            e.handle = static_cast<std::uint64_t>(seqs[static_cast<std::size_t>(o.num("q"))]);
            e.st = update_sequence(x.tok, seqs[static_cast<std::size_t>(o.num("q"))],
                                   static_cast<SequenceVersion>(o.num("ver")),
                                   static_cast<SequenceValue>(o.num("val")));
        } else if (k == "TXID") {
            std::string out;
            e.st = get_tx_id(x.tok, out);
            if (e.st == Status::OK) { e.s.push_back(out); }
        } else if (k == "PRIO") {
            bool out{};
            e.st = check_ltx_is_highest_priority(x.tok, out);
            e.n.push_back(out ? 1 : 0);
        } else if (k == "STACQ") {
            TxStateHandle sh{};
            e.st = acquire_tx_state_handle(x.tok, sh);
            e.n.push_back(static_cast<long>(sh));
            e.handle = static_cast<std::uint64_t>(sh);
            if (e.st == Status::OK || e.st == Status::WARN_ALREADY_EXISTS) {
                states[static_cast<std::size_t>(o.num("h"))] = sh;
            }
        } else {
            return false;
        }
        return true;
    }

    void exec_body(op const& o, ev& e) {
        std::string const& k = o.kind;
        if (k == "SLEEP") {
            e.skipped = false;
            vsched::sleep_ns(static_cast<std::uint64_t>(o.num("us")) * 1000ULL);
            return;
        }
        if (k == "EPOCH") {
            e.skipped = false;
            vsched::sleep_ns(static_cast<std::uint64_t>(o.num("n", 1)) * epoch_ns);
            return;
        }
        if (!up && !raw && k != "INIT" && k != "FIN") { return; }
        if (k == "DRAIN") {
            e.skipped = false;
            drain();
            return;
        }
        if (k == "MEAS") {
            // forget the history so that only the engine's memory is counted
            e.skipped = false;
            drain();
            h.live.reserve(64);
            std::vector<ev>().swap(h.evs);
            std::deque<txn>().swap(h.txs);
            std::deque<request>().swap(h.reqs);
            for (auto& s : ss) { s.used.clear(); }
            vsched::sleep_ns(static_cast<std::uint64_t>(o.num("n", 1)) * epoch_ns);
            h.live.push_back(live_allocations() - static_cast<long>(yakushima::control::kept_leaves()));
            return;
        }
        if (k == "DUMP") {
            e.skipped = false;
            dump(e);
            return;
        }
        if (k == "INIT") {
            e.skipped = false;
            e.st = do_init(&o);
            return;
        }
        if (k == "FIN") {
            e.skipped = false;
            fin(o.num("force", 1) != 0);
            up = false;
            for (auto& s : ss) {
                s = sess_state{};
                s.scans.resize(4);
            }
            for (auto& t : h.txs) {
                if (t.out == outcome::open) { t.out = outcome::unknown; }
            }
            if (o.num("wipe") != 0) { // nothing is carried over
                for (auto& s : st) { s = storage_slot{}; }
                seqs.assign(seqs.size(), 0);
                states.assign(states.size(), TxStateHandle{});
            }
            return;
        }
        e.skipped = false;
        if (exec_catalog(o, e)) { return; }
        e.skipped = true;
        if (o.sess < 0 || static_cast<std::size_t>(o.sess) >= ss.size()) { return; }
        auto& x = ss[static_cast<std::size_t>(o.sess)];
        poll(o.sess);
        if (k == "ENTER") {
            if (x.in) { return; }
            e.skipped = false;
            Token t{};
            e.st = enter(t);
            e.n.push_back(static_cast<long>(reinterpret_cast<std::uintptr_t>(t)));
            if (e.st == Status::OK) {
                x.tok = t;
                x.in = true;
                x.tx = -1;
                x.pending = false;
            }
            return;
        }
        if (k == "LEAVE") {
            if (x.pending && o.num("pend") == 0) { return; }
            if (x.tok == nullptr && !raw) { return; }
            if (!x.in && o.num("bad") == 0 && o.num("again") == 0) { return; }
            if (!x.in && raw && o.num("bad") == 0 &&
                std::any_of(ss.begin(), ss.end(), [&x](auto const& y) { return y.in && y.tok == x.tok; })) {
                return; // somebody else's by now
            }
            e.skipped = false;
            e.tx = x.tx;
            bool const submitted = x.pending;
            e.st = leave(o.num("bad") != 0 ? reinterpret_cast<Token>(0x10UL) : x.tok);
            if (e.st == Status::OK) {
                auto* t = cur(o.sess);
                if (t != nullptr && submitted) {
                    left.push_back(t); // the answer may still be on its way
                } else if (t != nullptr) {
                    t->out = outcome::aborted;
                    t->user_abort = true;
                    t->t_end = tick();
                }
                x.in = false;
                x.tx = -1;
                x.pending = false;
                for (auto& sc : x.scans) { sc.open = false; }
            }
            return;
        }
        if (x.tok == nullptr) { return; }
        if (!x.in) { return; }
        if (k == "RESULT") {
            e.skipped = false;
            auto ri = transaction_result_info(x.tok);
            if (ri) {
                e.n.push_back(static_cast<long>(ri->get_reason_code()));
                e.n.push_back(ri->get_has_key_info() ? 1 : 0);
                e.n.push_back(ri->get_has_storage_name_info() ? 1 : 0);
                e.s.emplace_back(ri->get_key());
                e.s.emplace_back(ri->get_storage_name());
            }
            return;
        }
        if (k == "BEGIN") {
            if (!raw && (x.tx >= 0 || x.pending)) { return; }
            e.skipped = false;
            x.used.clear();
            for (auto const* a : {"wp", "rp", "rn"}) {
                for (long w : o.list(a)) { x.used.insert(storage(w)); }
            }
            transaction_options to{};
            to.set_token(x.tok);
            long ty = o.num("ty");
            to.set_transaction_type(ty == 0 ? transaction_options::transaction_type::SHORT
                                            : (ty == 1 ? transaction_options::transaction_type::LONG
                                                       : transaction_options::transaction_type::READ_ONLY));
            transaction_options::write_preserve_type wp;
            for (long w : o.list("wp")) { wp.push_back(storage(w)); }
            if (!wp.empty()) { to.set_write_preserve(wp); }
            transaction_options::read_area ra{};
            for (long w : o.list("rp")) { ra.insert_to_positive_list(storage(w)); }
            for (long w : o.list("rn")) { ra.insert_to_negative_list(storage(w)); }
            if (!ra.empty()) { to.set_read_area(ra); }
            txn t;
            t.t_begin0 = tick();
            t.v_begin = vsched::now_ns();
            e.st = tx_begin(to);
            t.t_begin1 = tick();
            if (e.st == Status::OK) {
                t.id = static_cast<int>(h.txs.size());
                t.sess = o.sess;
                t.type = static_cast<int>(ty);
                t.wp = o.list("wp");
                t.rp = o.list("rp");
                t.rn = o.list("rn");
                x.tx = t.id;
                e.tx = t.id;
                h.txs.push_back(t);
            }
            if (e.st == Status::OK && o.num("w") != 0) {
                vsched::sleep_ns(2 * epoch_ns);
            }
            return;
        }
        if (k == "COMMIT") {
            if (!raw && (x.tx < 0 || x.pending)) { return; }
            e.skipped = false;
            e.tx = x.tx;
            do_commit(o, e, x);
            return;
        }
        if (k == "COMMITO") { // old interface without notification
            if (!raw && (x.tx < 0 || x.pending)) { return; }
            if (raw && cur(o.sess) != nullptr && cur(o.sess)->type == 1 && !x.pending) { return; }
            e.skipped = false;
            e.tx = x.tx;
            auto* t = x.pending ? nullptr : cur(o.sess);
            if (t != nullptr) { t->commit_called = true; t->t_commit0 = tick(); }
            e.st = commit(x.tok);
            if (t != nullptr) {
                t->t_commit1 = tick();
                if (e.st == Status::OK) {
                    finish(o.sess, outcome::committed, e.st);
                } else if (is_err(e.st)) {
                    finish(o.sess, outcome::aborted, e.st);
                } else if (e.st == Status::WARN_PREMATURE) {
                    t->commit_called = false;
                }
            }
            return;
        }
        if (k == "ABORT") {
            if (!raw && (x.tx < 0 || x.pending)) { return; }
            e.skipped = false;
            e.tx = x.tx;
            auto* t = cur(o.sess);
            e.st = shirakami::abort(x.tok);
            if (e.st == Status::OK && t != nullptr) {
                t->user_abort = true;
                finish(o.sess, outcome::aborted, e.st);
            }
            return;
        }
        if (x.pending && raw) { return; } // not specified
        bool const outside = o.num("any") != 0; // also without a transaction
        if (!raw && ((x.tx < 0 && !outside) || x.pending)) { return; }
        e.tx = x.tx;
        if (exec_tx_op(o, e, x)) {
            e.skipped = false;
            after(o, e);
        }
    }

    bool exec_catalog(op const& o, ev& e) {
        std::string const& k = o.kind;
        if (k == "CRS") {
            auto i = static_cast<std::size_t>(o.num("st"));
            Storage out{};
            storage_option so{};
            if (o.n.count("id") != 0) { so.id(static_cast<storage_option::id_t>(o.num("id"))); }
            if (o.s.count("pl") != 0) { so.payload(o.str("pl")); }
            e.st = create_storage(o.str("name"), out, so);
            e.n.push_back(static_cast<long>(out));
            if (e.st == Status::OK && i < st.size()) {
                st[i].h = out;
                st[i].live = true;
                st[i].name = o.str("name");
                all_handles.push_back(out);
            }
        } else if (k == "DLS") {
            auto del = storage(o);
            e.handle = del;
            if (!raw) { // the documents forbid deleting what a transaction uses
                for (std::size_t i = 0; i < ss.size(); ++i) {
                    poll(static_cast<int>(i));
                    if (ss[i].tx >= 0 && ss[i].used.count(del) != 0) {
                        e.skipped = true;
                        return true;
                    }
                }
            }
            e.st = delete_storage(del);
            if (e.st == Status::OK) {
                for (auto& x : st) { x.live = x.live && x.h != del; }
            }
        } else if (k == "GTS") {
            Storage out{};
            e.st = get_storage(o.str("name"), out);
            e.n.push_back(e.st == Status::OK ? static_cast<long>(out) : 0);
        } else if (k == "LSS") {
            std::vector<std::string> out;
            e.st = list_storage(out);
            std::sort(out.begin(), out.end());
            e.s = out;
        } else if (k == "GOP") {
            storage_option so{};
            e.handle = storage(o);
            e.st = storage_get_options(storage(o), so);
            if (e.st == Status::OK) {
                e.n.push_back(static_cast<long>(so.id()));
                e.s.emplace_back(so.payload());
            }
        } else if (k == "SOP") {
            storage_option so{};
            if (o.n.count("id") != 0) { so.id(static_cast<storage_option::id_t>(o.num("id"))); }
            so.payload(o.str("pl"));
            e.handle = storage(o);
            e.st = storage_set_options(storage(o), so);
        } else if (k == "SQC") {
            for (long i = o.num("many", 1); i > 0; --i) {
                SequenceId id{};
                e.st = create_sequence(&id);
                e.n.push_back(static_cast<long>(id));
                if (e.st != Status::OK) { break; }
                seqs[static_cast<std::size_t>(o.num("q"))] = id;
                made.push_back(id);
            }
        } else if (k == "SQR") {
            SequenceVersion ver{};
            SequenceValue val{};
            e.handle = static_cast<std::uint64_t>(seqs[static_cast<std::size_t>(o.num("q"))]);
            e.st = read_sequence(seqs[static_cast<std::size_t>(o.num("q"))], &ver, &val);
            e.n.push_back(static_cast<long>(ver));
            e.n.push_back(static_cast<long>(val));
        } else if (k == "SQD") {
            e.handle = static_cast<std::uint64_t>(seqs[static_cast<std::size_t>(o.num("q"))]);
            e.st = delete_sequence(seqs[static_cast<std::size_t>(o.num("q"))]);
        } else if (k == "STCHK") {
            TxState out{};
            auto sh = o.n.count("raw") != 0 ? static_cast<TxStateHandle>(o.num("raw"))
                                            : states[static_cast<std::size_t>(o.num("h"))];
            e.handle = static_cast<std::uint64_t>(sh);
            e.st = check_tx_state(sh, out);
            if (e.st == Status::OK) { e.n.push_back(static_cast<long>(out.state_kind())); }
        } else if (k == "STREL") {
            auto sh = o.n.count("raw") != 0 ? static_cast<TxStateHandle>(o.num("raw"))
                                            : states[static_cast<std::size_t>(o.num("h"))];
            e.handle = static_cast<std::uint64_t>(sh);
            e.st = release_tx_state_handle(sh);
        } else if (k == "DIAG") {
            std::ostringstream os;
            print_diagnostics(os);
            e.n.push_back(static_cast<long>(os.str().size()));
        } else {
            return false;
        }
        return true;
    }

    // a worker that has nothing more to do must not leave a transaction behind
    // which others wait for
    void abort_left(int thr) {
        for (std::size_t i = 0; i < ss.size(); ++i) {
            auto& x = ss[i];
            if (x.tx < 0 || x.pending) { continue; }
            bool mine = std::all_of(c.ops.begin(), c.ops.end(), [&](op const& o) {
                return o.sess != static_cast<int>(i) || o.thr == thr;
            });
            if (mine) { abort_open(i); }
        }
    }

    void abort_open(std::size_t i) {
        auto rc = shirakami::abort(ss[i].tok);
        auto* t = cur(static_cast<int>(i));
        if (rc == Status::OK) {
            t->user_abort = true;
        } else {
            h.anomalies.push_back("abort of an open transaction: " + stname(rc));
        }
        finish(static_cast<int>(i), outcome::aborted, rc);
    }

    void drain() {
        // transactions that were never ended are aborted; submitted ones must
        // then be answered
        for (std::size_t i = 0; i < ss.size(); ++i) {
            poll(static_cast<int>(i));
            auto& x = ss[i];
            if (x.tx >= 0 && !x.pending) { abort_open(i); }
        }
        for (int n = 0; n < 400; ++n) {
            bool any = !settle_left();
            for (std::size_t i = 0; i < ss.size(); ++i) {
                poll(static_cast<int>(i));
                if (ss[i].pending) { any = true; }
                if (!ss[i].pending && ss[i].tx >= 0) {
                    // answered as premature: not submitted any more
                    shirakami::abort(ss[i].tok);
                    finish(static_cast<int>(i), outcome::aborted, Status::OK);
                }
            }
            if (!any) { return; }
            vsched::sleep_ns(epoch_ns);
        }
        h.hung = true;
    }

    // every storage with its options and rows, and the known sequences
    void dump(ev& e) {
        std::vector<std::string> names;
        e.st = list_storage(names);
        if (e.st != Status::OK && e.st != Status::WARN_NOT_FOUND) { return; }
        e.st = Status::OK;
        std::sort(names.begin(), names.end());
        auto keep = st;
        auto rows = h.final_rows;
        st.clear();
        for (auto const& n : names) {
            storage_slot s;
            s.name = n;
            s.live = true;
            storage_option so{};
            auto rc = get_storage(n, s.h);
            if (rc == Status::OK) { rc = storage_get_options(s.h, so); }
            e.s.push_back("storage " + esc(n) + " " + std::to_string(s.h) + " " +
                          (rc == Status::OK ? std::to_string(so.id()) + " '" + esc(std::string(so.payload())) + "'"
                                            : stname(rc)));
            st.push_back(s);
        }
        h.final_ok = false;
        read_final();
        if (!h.final_ok) { e.st = Status::ERR_FATAL; }
        for (std::size_t i = 0; i < st.size() && h.final_ok; ++i) {
            for (auto const& r : h.final_rows[i]) {
                e.s.push_back("row " + esc(st[i].name) + " " + esc(r.key) + " " + (r.val ? esc(*r.val) : "?"));
            }
        }
        st = keep;
        h.final_rows = rows;
        h.final_ok = false;
        h.final_err.clear();
        std::set<SequenceId> ids(made.begin(), made.end());
        for (auto id : ids) {
            SequenceVersion ver{};
            SequenceValue val{};
            auto rc = read_sequence(id, &ver, &val);
            e.s.push_back("sequence " + std::to_string(id) + " " +
                          (rc == Status::OK ? std::to_string(ver) + " " + std::to_string(val) : stname(rc)));
        }
    }

    void read_final() {
        Token t{};
        if (enter(t) != Status::OK) {
            h.final_err = "enter";
            return;
        }
        h.final_rows.assign(st.size(), {});
        for (int attempt = 0; attempt < 20; ++attempt) {
            transaction_options to{};
            to.set_token(t);
            to.set_transaction_type(transaction_options::transaction_type::SHORT);
            auto rc = tx_begin(to);
            if (rc != Status::OK) {
                h.final_err = "begin " + stname(rc);
                break;
            }
            bool ok{true};
            for (std::size_t i = 0; i < st.size() && ok; ++i) {
                h.final_rows[i].clear();
                if (!st[i].live) { continue; }
                ScanHandle hd{};
                rc = open_scan(t, st[i].h, "", scan_endpoint::INF, "", scan_endpoint::INF, hd);
                if (rc == Status::WARN_NOT_FOUND || rc == Status::WARN_STORAGE_NOT_FOUND) { continue; }
                if (rc != Status::OK) {
                    ok = false;
                    break;
                }
                ev e;
                bool stop{false};
                for (;;) {
                    read_cursor(t, hd, e, stop, 0);
                    if (stop || !e.n.empty()) {
                        ok = false;
                        break;
                    }
                    rc = next(t, hd);
                    if (rc == Status::WARN_SCAN_LIMIT) { break; }
                    if (rc != Status::OK) {
                        ok = false;
                        break;
                    }
                }
                h.final_rows[i] = e.rows;
                if (ok) { close_scan(t, hd); }
            }
            if (ok) {
                rc = commit(t);
                if (rc == Status::OK) {
                    h.final_ok = true;
                    break;
                }
            } else {
                shirakami::abort(t);
            }
            vsched::sleep_ns(epoch_ns * 2);
        }
        if (!h.final_ok && h.final_err.empty()) { h.final_err = "could not read final contents"; }
        leave(t);
    }

    void collect_log() {
        for (auto const& s : st) { h.handles.push_back(s.h); }
#ifdef PWAL
        namespace lc = limestone::control;
        for (auto const& x : lc::log()) {
            h.log.push_back({x.k == lc::kind::put,
                             x.k == lc::kind::add_storage      ? 1
                             : x.k == lc::kind::remove_storage ? 2
                                                               : 0,
                             x.st,
                             x.key,
                             x.value,
                             x.major,
                             x.minor,
                             x.session_epoch,
                             x.t,
                             {x.lobs.begin(), x.lobs.end()}});
        }
        for (auto const& x : lc::announced()) { h.announced.push_back({x.t, x.epoch}); }
        for (auto const& x : lc::boundaries()) { h.boundaries.push_back({x.t, x.epoch}); }
        h.log_misuse = lc::protocol_errors();
#endif
    }

    void run() {
        auto nthr = c.c("thr", 0);
        if (c.c("noinit") == 0) {
            auto rc = do_init(nullptr);
            if (rc != Status::OK) {
                h.anomalies.push_back("init: " + stname(rc));
                return;
            }
            for (std::size_t i = 0; i < static_cast<std::size_t>(c.c("nst", 1)); ++i) {
                st[i].name = "s" + std::to_string(i);
                auto r2 = create_storage(st[i].name, st[i].h);
                if (r2 != Status::OK) { h.anomalies.push_back("create_storage: " + stname(r2)); }
                st[i].live = r2 == Status::OK;
                all_handles.push_back(st[i].h);
            }
            if (c.c("noenter") == 0) {
                for (std::size_t i = 0; i < ss.size(); ++i) { enter_session(i); }
            }
        }
        // prologue on the main thread, then workers, then the rest
        std::vector<std::vector<int>> per(static_cast<std::size_t>(nthr) + 1);
        std::vector<int> tail;
        for (std::size_t i = 0; i < c.ops.size(); ++i) {
            int t = c.ops[i].thr;
            if (t == 9) {
                tail.push_back(static_cast<int>(i));
            } else if (t >= 0 && t <= nthr) {
                per[static_cast<std::size_t>(t)].push_back(static_cast<int>(i));
            }
        }
        h.work0 = vsched::callbacks();
        for (int i : per[0]) { exec(i, c.ops[static_cast<std::size_t>(i)]); }
        if (nthr > 0) {
            if (c.c("nodrain") == 0) { abort_left(0); }
            std::vector<std::thread> ths;
            for (long t = 1; t <= nthr; ++t) {
                ths.emplace_back([this, &per, t] {
                    for (int i : per[static_cast<std::size_t>(t)]) {
                        exec(i, c.ops[static_cast<std::size_t>(i)]);
                    }
                    if (c.c("nodrain") == 0) { abort_left(static_cast<int>(t)); }
                });
            }
            for (auto& t : ths) { t.join(); }
        }
        if (c.c("ptail") == 0) { vsched::set_policy(vsched::policy::coop); }
        for (int i : tail) { exec(i, c.ops[static_cast<std::size_t>(i)]); }
        vsched::set_policy(vsched::policy::coop);
        h.work1 = vsched::callbacks();
        if (!up) { return; }
        if (c.c("nodrain") == 0) { drain(); }
        if (h.hung) { return; }
        if (c.c("idle") != 0) {
            vsched::sleep_ns(static_cast<std::uint64_t>(c.c("idle")) * epoch_ns);
            for (auto& s : st) {
                h.entry_counts.push_back(yakushima::control::entry_count(
                        {reinterpret_cast<char*>(&s.h), sizeof(s.h)}));
            }
        }
        if (c.c("nofinal") == 0) { read_final(); }
        collect_log();
        if (c.c("nofin") == 0) {
            for (auto& x : ss) {
                if (x.in) { leave(x.tok); }
            }
            fin(c.c("force", 1) != 0);
        }
    }
};

} // namespace

void run_case(test_case const& c, history& h) {
    static sink sk;
    sk.h = &h;
    google::AddLogSink(&sk);
    yakushima::control::set_leaf_capacity(static_cast<std::size_t>(c.c("leaf", 15)));
    // options given through the environment (docs/environment_variables.md)
    for (auto const& [k, name] : std::vector<std::pair<std::string, char const*>>{
                 {"e_bypass", "SHIRAKAMI_ENABLE_WAITING_BYPASS"},
                 {"e_bypassroot", "SHIRAKAMI_WAITING_BYPASS_TO_ROOT"},
                 {"e_gc", "SHIRAKAMI_REDUCE_GC"},
                 {"e_buf", "SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING"},
                 {"e_rtx", "SHIRAKAMI_RTX_DA_TERM_MUTEX"},
                 {"e_fast", "TSURUGI_FAST_SHUTDOWN"}}) {
        if (c.cfg.count(k) != 0) { setenv(name, std::to_string(c.c(k)).c_str(), 1); }
    }
    vsched::params p;
    p.seed = static_cast<std::uint64_t>(c.c("sseed", 1));
    p.pol = static_cast<vsched::policy>(c.c("pol", 0));
    p.quantum = static_cast<std::uint32_t>(c.c("q", 200));
    p.change_points = static_cast<std::uint32_t>(c.c("cp", 3));
    p.pct_len = static_cast<std::uint64_t>(c.c("plen", 20000));
    p.turns = c.c("turns") != 0;
    p.tick_ns = static_cast<std::uint32_t>(c.c("tick", 20));
    p.crash_at = static_cast<std::uint64_t>(c.c("crash", 0));
    p.stall_at = static_cast<std::uint64_t>(c.c("stall", 0));
    p.stall_ns = static_cast<std::uint64_t>(c.c("stallus", 0)) * 1000ULL;
    p.max_callbacks = static_cast<std::uint64_t>(c.c("maxcb", 60000000));
#ifdef PWAL
    if (c.c("keeplog") == 0 && !g_scratch.empty()) {
        std::filesystem::remove_all(g_scratch + "/log");
    }
    limestone::control::set_lag(static_cast<std::uint64_t>(c.c("lag", 0)));
#endif
    vsched::start(p);
    {
        runner r(c, h);
#ifdef PWAL
        limestone::control::set_clock([&r] { return r.tick(); });
#endif
        r.run();
#ifdef PWAL
        limestone::control::set_clock(nullptr);
#endif
    }
    h.callbacks = vsched::callbacks();
    h.switches = vsched::switches();
    h.preempts = vsched::preemptions();
    h.vtime = vsched::now_ns();
    vsched::stop();
    sk.h = nullptr;
    google::RemoveLogSink(&sk);
}

} // namespace vp
