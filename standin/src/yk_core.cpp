// Core of the yakushima stand-in.  Never compiled with coverage callbacks, so
// that every index operation is atomic with respect to the scheduler.
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <sched.h>

#include "yakushima/include/kvs.h"

namespace yakushima {

namespace {

std::atomic_flag g_lock = ATOMIC_FLAG_INIT;

struct guard {
    guard() {
        while (g_lock.test_and_set(std::memory_order_acquire)) { sched_yield(); }
    }
    ~guard() { g_lock.clear(std::memory_order_release); }
};

struct leaf {
    // first member: handed out as the node's version word
    node_version64 ver{};
    std::vector<std::pair<std::string, void*>> kv; // ascending
};

struct tree {
    tree_instance inst{};
    // low fence -> leaf; the first leaf always has fence "" and covers
    // everything below the second fence
    std::map<std::string, leaf*, std::less<>> leaves;
};

struct world {
    std::map<std::string, std::unique_ptr<tree>, std::less<>> trees;
    std::vector<std::unique_ptr<leaf>> all_leaves; // kept until fin()
    std::size_t cap{15};
    bool up{false};
};

world& w() {
    static world* x = new world(); // NOLINT
    return *x;
}

leaf* new_leaf() {
    w().all_leaves.emplace_back(std::make_unique<leaf>());
    return w().all_leaves.back().get();
}

tree* find_tree(std::string_view st) {
    auto it = w().trees.find(st);
    return it == w().trees.end() ? nullptr : it->second.get();
}

using leaf_iter = std::map<std::string, leaf*, std::less<>>::iterator;

leaf_iter find_leaf(tree* t, std::string_view key) {
    auto it = t->leaves.upper_bound(key);
    if (it != t->leaves.begin()) { --it; }
    return it;
}

bool key_less(std::pair<std::string, void*> const& a, std::string_view b) {
    return std::string_view(a.first) < b;
}

bool above_left(std::string_view key, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) { return true; }
    return le == scan_endpoint::INCLUSIVE ? key >= l : key > l;
}

bool below_right(std::string_view key, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) { return true; }
    return re == scan_endpoint::INCLUSIVE ? key <= r : key < r;
}

bool bad_range(std::string_view l, scan_endpoint le, std::string_view r,
               scan_endpoint re) {
    if (le == scan_endpoint::INF || re == scan_endpoint::INF) { return false; }
    if (l > r) { return true; }
    return l == r && (le == scan_endpoint::EXCLUSIVE ||
                      re == scan_endpoint::EXCLUSIVE);
}

} // namespace

namespace core {

status get(std::string_view st, std::string_view key, void*& out,
           std::pair<node_version64_body, node_version64*>* ver) {
    guard g;
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto* lf = find_leaf(t, key)->second;
    if (ver != nullptr) {
        *ver = std::make_pair(lf->ver.get_stable_version(), &lf->ver);
    }
    auto it = std::lower_bound(lf->kv.begin(), lf->kv.end(), key, key_less);
    if (it == lf->kv.end() || it->first != key) {
        return status::WARN_NOT_EXIST;
    }
    out = it->second;
    return status::OK;
}

status put(std::string_view st, std::string_view key, void* val, bool unique,
           inserted_node_info* ii) {
    guard g;
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto* lf = find_leaf(t, key)->second;
    auto it = std::lower_bound(lf->kv.begin(), lf->kv.end(), key, key_less);
    if (it != lf->kv.end() && it->first == key) {
        if (unique) { return status::WARN_UNIQUE_RESTRICTION; }
        it->second = val;
        return status::OK;
    }
    bool split = lf->kv.size() >= w().cap;
    lf->kv.insert(it, std::make_pair(std::string(key), val));
    lf->ver.bump_insert_delete();
    leaf* right = nullptr;
    if (split) {
        lf->ver.bump_split();
        right = new_leaf();
        auto mid = lf->kv.begin() + static_cast<long>(lf->kv.size() / 2);
        right->kv.assign(mid, lf->kv.end());
        lf->kv.erase(mid, lf->kv.end());
        right->ver.set_raw(lf->ver.get_stable_version().raw());
        t->leaves.emplace(right->kv.front().first, right);
    }
    if (ii != nullptr) {
        ii->modified_nvp = &lf->ver;
        ii->created_nvp = right != nullptr ? &right->ver : nullptr;
    }
    return status::OK;
}

status scan(std::string_view st, std::string_view l, scan_endpoint le,
            std::string_view r, scan_endpoint re, std::vector<scan_elem>& res,
            nvec_type* nvec, std::size_t max_size, bool right_to_left) {
    guard g;
    res.clear();
    if (nvec != nullptr) { nvec->clear(); }
    if (bad_range(l, le, r, re)) { return status::ERR_BAD_USAGE; }
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    if (right_to_left) {
        if (max_size != 1 || re != scan_endpoint::INF) {
            return status::ERR_BAD_USAGE;
        }
        auto it = t->leaves.end();
        for (;;) {
            --it;
            auto* lf = it->second;
            bool hit = !lf->kv.empty() && above_left(lf->kv.back().first, l, le);
            if (nvec != nullptr) {
                nvec->emplace_back(lf->ver.get_stable_version(), &lf->ver);
            }
            if (hit) {
                res.push_back({lf->kv.back().first, lf->kv.back().second});
                return status::OK;
            }
            // only the lone leaf of an empty storage has no keys
            return status::OK;
        }
    }
    auto it = le == scan_endpoint::INF ? t->leaves.begin() : find_leaf(t, l);
    for (bool first = true; it != t->leaves.end(); ++it, first = false) {
        if (!first && !below_right(it->first, r, re)) {
            break; // leaf starts beyond the range
        }
        auto* lf = it->second;
        auto body = lf->ver.get_stable_version();
        std::size_t hits{0};
        bool beyond{false};
        for (auto& kv : lf->kv) {
            if (!above_left(kv.first, l, le)) { continue; }
            if (!below_right(kv.first, r, re)) {
                beyond = true;
                break;
            }
            ++hits;
            res.push_back({kv.first, kv.second});
            if (nvec != nullptr) { nvec->emplace_back(body, &lf->ver); }
            if (max_size != 0 && res.size() >= max_size) { return status::OK; }
        }
        if (hits == 0 && nvec != nullptr) { nvec->emplace_back(body, &lf->ver); }
        if (beyond) { break; }
    }
    return status::OK;
}

} // namespace core

status init() {
    guard g;
    w().up = true;
    return status::OK;
}

void fin() {
    guard g;
    w().trees.clear();
    w().all_leaves.clear();
    w().up = false;
}

status enter(Token& token) {
    token = &w();
    return status::OK;
}

status leave([[maybe_unused]] Token token) { return status::OK; }

status create_storage(std::string_view name) {
    guard g;
    if (find_tree(name) != nullptr) { return status::WARN_UNIQUE_RESTRICTION; }
    auto t = std::make_unique<tree>();
    t->leaves.emplace(std::string(), new_leaf());
    w().trees.emplace(std::string(name), std::move(t));
    return status::OK;
}

status delete_storage(std::string_view name) {
    guard g;
    auto it = w().trees.find(name);
    if (it == w().trees.end()) { return status::WARN_NOT_EXIST; }
    for (auto& e : it->second->leaves) { decltype(e.second->kv)().swap(e.second->kv); }
    w().trees.erase(it);
    return status::OK;
}

status find_storage(std::string_view name, tree_instance** found) {
    guard g;
    auto* t = find_tree(name);
    if (t == nullptr) { return status::WARN_NOT_EXIST; }
    if (found != nullptr) { *found = &t->inst; }
    return status::OK;
}

status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    guard g;
    out.clear();
    for (auto& e : w().trees) { out.emplace_back(e.first, &e.second->inst); }
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}

status remove([[maybe_unused]] Token token, std::string_view st,
              std::string_view key) {
    guard g;
    auto* t = find_tree(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto li = find_leaf(t, key);
    auto* lf = li->second;
    auto it = std::lower_bound(lf->kv.begin(), lf->kv.end(), key, key_less);
    if (it == lf->kv.end() || it->first != key) { return status::OK_NOT_FOUND; }
    // taking a key out leaves the node version alone (upstream asserts this);
    // only a node that goes away is marked.
    lf->kv.erase(it);
    if (lf->kv.empty() && t->leaves.size() > 1) {
        lf->ver.bump_insert_delete();
        lf->kv.shrink_to_fit();
        if (li == t->leaves.begin()) {
            auto nx = std::next(li);
            auto* nl = nx->second;
            t->leaves.erase(nx);
            li->second = nl; // takes over the lowest fence
        } else {
            t->leaves.erase(li);
        }
    }
    return status::OK;
}

class iscan_context {
public:
    std::string st, l, r; // NOLINT
    scan_endpoint le{}, re{}; // NOLINT
    bool rev{false};
    bool started{false};
    std::string last;
    std::map<leaf*, std::uint64_t> reported;
};

namespace {

// Finds the next key after ctx.last.  Leaves are reported to the callback when
// entered or found changed, outside the lock, and re-validated afterwards.
status advance(iscan_context* c, void*& value, bnv_callback const& cb) {
    for (;;) {
        node_version64* rep{nullptr};
        node_version64_body rep_body{};
        {
            guard g;
            auto* t = find_tree(c->st);
            if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
            std::string_view lo = c->l;
            scan_endpoint lo_e = c->le;
            std::string_view hi = c->r;
            scan_endpoint hi_e = c->re;
            if (c->started) {
                if (c->rev) {
                    hi = c->last;
                    hi_e = scan_endpoint::EXCLUSIVE;
                } else {
                    lo = c->last;
                    lo_e = scan_endpoint::EXCLUSIVE;
                }
            }
            leaf_iter it;
            if (c->rev) {
                it = hi_e == scan_endpoint::INF ? std::prev(t->leaves.end())
                                                : find_leaf(t, hi);
            } else {
                it = lo_e == scan_endpoint::INF ? t->leaves.begin()
                                                : find_leaf(t, lo);
            }
            bool ended{false};
            std::pair<std::string, void*> const* found{nullptr};
            leaf* lf{nullptr};
            for (;;) {
                lf = it->second;
                auto body = lf->ver.get_stable_version();
                auto seen = c->reported.find(lf);
                if (cb && (seen == c->reported.end() || seen->second != body.raw())) {
                    rep = &lf->ver;
                    rep_body = body;
                    break;
                }
                bool beyond{false};
                if (!c->rev) {
                    for (auto& kv : lf->kv) {
                        if (!above_left(kv.first, lo, lo_e)) { continue; }
                        if (!below_right(kv.first, hi, hi_e)) {
                            beyond = true;
                        } else {
                            found = &kv;
                        }
                        break;
                    }
                    if (found != nullptr) { break; }
                    ++it;
                    if (beyond || it == t->leaves.end() ||
                        (!below_right(it->first, hi, hi_e))) {
                        ended = true;
                        break;
                    }
                } else {
                    for (auto k = lf->kv.rbegin(); k != lf->kv.rend(); ++k) {
                        if (!below_right(k->first, hi, hi_e)) { continue; }
                        if (!above_left(k->first, lo, lo_e)) {
                            beyond = true;
                        } else {
                            found = &*k;
                        }
                        break;
                    }
                    if (found != nullptr) { break; }
                    if (beyond || it == t->leaves.begin() ||
                        (lo_e != scan_endpoint::INF &&
                         std::string_view(it->first) <= lo)) {
                        ended = true;
                        break;
                    }
                    --it;
                }
            }
            if (rep == nullptr) {
                if (ended) { return status::OK_SCAN_END; }
                c->started = true;
                c->last = found->first;
                value = found->second;
                return status::OK;
            }
            c->reported[lf] = rep_body.raw();
        }
        if (cb(rep, rep_body)) { return status::WARN_ABORTED_BY_USER; }
    }
}

} // namespace

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le,
                  std::string_view r, scan_endpoint re, bool right_to_left,
                  [[maybe_unused]] bool early_abort, iscan_context*& ctx,
                  void*& value, bnv_callback const& cb) {
    if (bad_range(l, le, r, re)) { return status::ERR_BAD_USAGE; }
    {
        guard g;
        if (find_tree(st) == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    }
    ctx = new iscan_context(); // NOLINT
    ctx->st = st;
    ctx->l = l;
    ctx->le = le;
    ctx->r = r;
    ctx->re = re;
    ctx->rev = right_to_left;
    return advance(ctx, value, cb);
}

status iscan_next(iscan_context* ctx, void*& value, bnv_callback const& cb) {
    return advance(ctx, value, cb);
}

status iscan_close(iscan_context*& ctx) {
    delete ctx; // NOLINT
    ctx = nullptr;
    return status::OK;
}

storage* storage::get_storages() {
    static storage s;
    return &s;
}

void storage::store_root_ptr([[maybe_unused]] void* p) {
    guard g;
    w().trees.clear();
}

namespace control {

void set_leaf_capacity(std::size_t n) { w().cap = n; }

std::size_t entry_count(std::string_view st) {
    guard g;
    auto* t = find_tree(st);
    if (t == nullptr) { return 0; }
    std::size_t n{0};
    for (auto& e : t->leaves) { n += e.second->kv.size(); }
    return n;
}

std::size_t kept_leaves() {
    guard g;
    return w().all_leaves.size();
}

} // namespace control

} // namespace yakushima
