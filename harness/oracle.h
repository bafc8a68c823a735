// Reference models.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "history.h"

namespace vp {

/// (storage slot, key) -> value
using state = std::map<std::pair<long, std::string>, std::string>;

/// keys of a storage lying in the range of a scan operation
bool in_range(op const& o, std::string const& key);

/// rows a complete scan would give on the view, ascending
std::vector<row> range_of(state const& view, op const& o);

struct obs_options {
    bool relaxed{false};      // both readings of an update of an absent row are tried
    bool writes_status{true}; // statuses of insert/update/delete are observations
    bool reads{true};
    bool effects{true};
    bool persist{true}; // effects are kept after the transaction
    bool update_absent_skips{false}; // an accepted update of a row that is not there does nothing
    unsigned cancel_restores{0}; // bit i: the i-th cancelling delete leaves the old row
};

/// replays the operations of one transaction on the given state.
/// @return empty if everything it observed matches, else a description
std::string apply_tx(test_case const& c, history const& h, txn const& t, state& s,
                     obs_options const& oo = {});

struct order_problem {
    // nodes: transaction index; the same transaction may appear twice (reads-only copy)
    struct node {
        int tx;
        obs_options oo;
    };
    std::vector<node> nodes;
    std::vector<std::pair<int, int>> edges; // node i before node j
    bool check_final{true};
    std::set<long> gone; // storages deleted in the meantime; their contents do not matter
};

/// searches for a serial order explaining the observations.
/// @return empty if one exists
std::string find_order(test_case const& c, history const& h, order_problem const& p,
                       std::vector<int>* order = nullptr);

order_problem all_committed(history const& h);

state final_state(history const& h);
std::string show(test_case const& c, history const& h);
std::string show_state(state const& s);

} // namespace vp
