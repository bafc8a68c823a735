// Properties: generator, execution and verdict.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "case.h"
#include "history.h"
#include "oracle.h"

namespace vp {

struct result {
    bool bad{false};
    std::string why;
    bool nontrivial{false};
    std::vector<std::string> classes;
    std::string extra; // property specific text handed to the parent

    void fail(std::string w) {
        if (!bad) {
            bad = true;
            why = std::move(w);
        }
    }
};

struct child_out {
    enum class kind { ok, crash, stuck, killed77, timeout } k{kind::ok};
    std::string text;
    std::string detail;
};

/// what a run that is cut off (kind killed77) hands to the parent
extern std::function<std::string()> g_crash_text;

/// runs f in a forked child
child_out in_child(std::function<std::string()> const& f);

std::string ser(result const& r);
result unser(std::string const& s);

/// runs the case in a child and judges the history there; crashes and hangs
/// are violations
result simple(test_case const& c,
              std::function<void(test_case const&, history&, result&)> const& judge);
/// the child's failure as a violation
bool child_failed(child_out const& o, result& r);

struct prop {
    std::string id;
    std::string rule; // what makes a case count as non-trivial
    std::function<test_case(rng&, long, bool)> gen;
    std::function<result(test_case const&)> eval;
};

std::vector<prop>& registry();

struct reg {
    explicit reg(prop p) { registry().push_back(std::move(p)); }
};

// ---- shared generator pieces
op mk(int thr, int sess, std::string kind);

struct gen_opts {
    int storages{1};
    int keys{4};
    int min_ops{2}, max_ops{6};
    int p_short{60}, p_long{25}, p_ro{15}; // transaction kinds
    int p_abort{10};
    int w_get{20}, w_exi{6}, w_ins{14}, w_upd{10}, w_ups{18}, w_del{12}, w_scan{20};
    bool read_area{false};
    bool stepscan{false};
    bool reverse{false};
    bool wait_commit{true};
    int p_epoch{15}; // pause between operations
    bool seqs{false};
    bool ltx_blind{false}; // long transactions write with upsert only
};

/// unique value for the n-th write
std::string val(long n);
std::string key_n(long i);

/// operations of one transaction
void gen_tx(rng& r, gen_opts const& g, int thr, int sess, long& vn, std::vector<op>& out);
op gen_read(rng& r, gen_opts const& g, int thr, int sess);
op gen_scan(rng& r, gen_opts const& g, int thr, int sess);
/// initial contents written by one transaction on the main thread
void gen_load(rng& r, gen_opts const& g, long& vn, std::vector<op>& out, int p);
/// schedule and engine options
void gen_sched(rng& r, test_case& c, bool preemptive);
void gen_tuning(rng& r, test_case& c);
/// program of `nthr` threads
test_case gen_concurrent(rng& r, gen_opts const& g, int nthr, int tx_per_thr);
/// single threaded interleaving of `ns` sessions
test_case gen_interleaved(rng& r, gen_opts const& g, int ns, int txs);

/// few reads and writes of long and short transactions placed on a grid of half
/// epochs, so that they meet in every relation of their epochs
test_case gen_chain(rng& r, int p_scan);
/// long transactions that write ranges, read ranges of each other, and wait
test_case gen_ranges(rng& r, int p_scan);
/// a short commit that stops for some epochs in the middle
test_case gen_stalled(rng& r, bool ro);

/// problems every run must be free of (hang, contradictory notifications)
void judge_common(test_case const& c, history& h, result& r);

/// known findings are not excused (used to show that they are still there)
bool strict();

inline std::size_t ix(int i) { return static_cast<std::size_t>(i); }
inline op const& op_of(test_case const& c, ev const& e) { return c.ops[ix(e.op)]; }
inline bool is_write(std::string const& k) {
    return k == "INS" || k == "UPD" || k == "UPS" || k == "DEL";
}
inline bool is_read(std::string const& k) {
    return k == "GET" || k == "EXI" || k == "SCAN" || k == "SOPEN";
}

/// what kinds of transactions the run had
void classify(test_case const& c, history const& h, result& r);

/// overlapping long transactions of the known finding
bool long_existence(test_case const& c, history const& h);

/// searches for a serial order, excusing the known finding
std::string serial(test_case const& c, history const& h, order_problem p, result& r);

/// number of committed transactions touching something another one touched
int conflicting(test_case const& c, history const& h);

} // namespace vp
