// What a run of a case leaves behind for the oracles.
#pragma once
#include <cstdint>
#include <deque>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "case.h"
#include "shirakami/interface.h"

namespace vp {

using shirakami::Status;

inline bool is_err(Status s) { return static_cast<int>(s) > 0; }

struct row {
    std::string key;
    std::optional<std::string> val; // nullopt: value could not be read
};

/// one executed operation
struct ev {
    int op{-1};
    int sess{0};
    int thr{0};
    int tx{-1};
    bool skipped{true};
    Status st{Status::OK};
    std::uint64_t t0{0}, t1{0}; // sequence numbers of call and return
    std::uint64_t v0{0};        // virtual time at call
    std::vector<std::string> s;
    std::vector<long> n;
    std::uint64_t handle{0}; // storage named by a catalog operation
    std::vector<row> rows;
    bool complete{false}; // scan reached its end
};

struct cb_rec {
    int count{0};
    Status st{Status::OK};
    int reason{0};
    std::uint64_t marker{0};
    std::uint64_t t{0};
    std::uint64_t v{0};
};

/// one commit request made with a notification
struct request {
    int tx{-1};
    bool sync{false};
    bool returned{false};
    std::shared_ptr<cb_rec> cb;
};

enum class outcome { open, committed, aborted, unknown };

struct txn {
    int id{0};
    int sess{0};
    int type{0}; // 0 SHORT 1 LONG 2 READ_ONLY
    std::vector<long> wp, rp, rn;
    std::uint64_t t_begin0{0}, t_begin1{0};
    std::uint64_t v_begin{0};
    std::uint64_t t_commit0{0}, t_commit1{0}; // commit call
    std::uint64_t t_end{0};                   // outcome known
    outcome out{outcome::open};
    Status end_st{Status::OK};
    int reason{-1};
    bool commit_called{false};
    bool sync{false}; // commit returned true
    bool user_abort{false};
    std::shared_ptr<cb_rec> cb;
    std::uint64_t marker{0};
    std::vector<int> evs; // indices into history::evs in execution order
    std::string txid;
};

struct history {
    std::vector<ev> evs; // in order of completion
    std::deque<txn> txs; // references stay valid
    std::deque<request> reqs;
    // contents read by the epilogue: storage slot -> rows
    std::vector<std::vector<row>> final_rows;
    bool final_ok{false};
    std::string final_err;
    std::vector<std::string> errlogs;
    std::vector<std::string> anomalies; // harness-detected contradictions
    bool hung{false};
    long never_started{0}; // operations that stayed premature for a long time
    struct stamped {
        std::uint64_t t;
        std::uint64_t epoch;
    };
    struct log_entry {
        bool put;         // else removed
        int other;        // 1 storage added, 2 storage removed, 0 neither
        std::uint64_t st; // storage handle
        std::string key, value;
        std::uint64_t major, minor;
        std::uint64_t session; // epoch of the log session
        std::uint64_t t;
        std::vector<std::uint64_t> lobs;
    };
    // with a log store only
    std::vector<stamped> announced;  // to the engine, by the log store
    std::vector<stamped> reported;   // to the harness, by the engine
    std::vector<stamped> boundaries; // given to the log store
    std::vector<log_entry> log;
    std::vector<std::string> log_misuse;
    std::vector<std::uint64_t> handles; // of the storage slots
    std::vector<long> live; // live allocations at each measurement
    std::vector<std::size_t> entry_counts; // after idle epochs, if measured
    std::uint64_t work0{0}, work1{0}; // coverage callbacks before and after the operations
    std::uint64_t callbacks{0}, switches{0}, preempts{0}, vtime{0};
    std::string transcript;
};

std::string stname(Status s);

/// executes the case in this process (which must have a single thread)
void run_case(test_case const& c, history& h);

/// set by main: directory for log files of this worker
extern std::string g_scratch;
/// text of the history, for a run that is cut off
std::string ser_history(history const& h);
history unser_history(std::string const& s);

/// progress text for crash diagnosis
extern char* g_progress;

/// number of live allocations of the process
long live_allocations();

} // namespace vp
