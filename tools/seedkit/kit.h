// Helpers of the demonstrations.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <thread>
#include <vector>

#include "shirakami/interface.h"

using namespace shirakami; // NOLINT
using TT = transaction_options::transaction_type;

#define CHECK_THAT(x)                                                          \
    do {                                                                       \
        if (!(x)) {                                                            \
            std::printf("line %d: not true: %s\n", __LINE__, #x);              \
            std::fflush(stdout);                                               \
            std::_Exit(1);                                                     \
        }                                                                      \
    } while (false)

constexpr std::size_t epoch_us = 20000;

inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
/// lets a few epochs pass
inline void epochs(int n = 3) { ms(static_cast<int>(epoch_us) / 1000 * n + 5); }

inline database_options opts(bool iscan = false) {
    database_options o{};
    o.set_epoch_time(epoch_us);
    o.set_iterator_based_scan(iscan);
    return o;
}

inline Status begin(Token t, TT ty, std::vector<Storage> wp = {}, transaction_options::read_area ra = {}) {
    transaction_options o{};
    o.set_token(t);
    o.set_transaction_type(ty);
    if (!wp.empty()) { o.set_write_preserve(wp); }
    if (!ra.empty()) { o.set_read_area(ra); }
    return tx_begin(o);
}

/// runs f in short transactions until one commits
inline void txn(Token t, std::function<void()> const& f) {
    for (int i = 0; i < 50; ++i) {
        if (begin(t, TT::SHORT) != Status::OK) { continue; }
        f();
        if (commit(t) == Status::OK) { return; }
        epochs(1);
    }
    std::puts("could not commit");
    std::fflush(stdout);
    std::_Exit(1);
}

/// commit and wait for the answer
inline Status commit_wait(Token t) {
    std::atomic<int> done{0};
    Status r{};
    commit(t, [&](Status s, reason_code, durability_marker_type) {
        r = s;
        done = 1;
    });
    for (int i = 0; i < 500 && done == 0; ++i) { ms(10); }
    if (done == 0) {
        std::puts("commit was not answered");
        std::fflush(stdout);
        std::_Exit(1);
    }
    return r;
}

inline std::string get(Token t, Storage s, std::string const& k) {
    std::string v;
    auto rc = search_key(t, s, k, v);
    return rc == Status::OK ? v : (rc == Status::WARN_NOT_FOUND ? "-" : "?");
}

/// all rows in key order as "k=v "
inline std::string rows(Token t, Storage s) {
    ScanHandle h{};
    std::string out;
    if (open_scan(t, s, "", scan_endpoint::INF, "", scan_endpoint::INF, h) != Status::OK) { return out; }
    do {
        std::string k;
        std::string v;
        if (read_key_from_scan(t, h, k) == Status::OK) {
            read_value_from_scan(t, h, v);
            out += k + "=" + v + " ";
        }
    } while (next(t, h) == Status::OK);
    close_scan(t, h);
    return out;
}
