// Stand-in for the yakushima index library: the calls shirakami uses.
//
// A storage is a list of leaves ordered by key.  Every leaf has a version word
// whose insert/delete part is incremented by one for every key added to or
// removed from the leaf, and whose split part is incremented when the leaf is
// split.  Values are pointers stored inline (as the real library does), so the
// "pointer to the value" handed out is the value itself.
#pragma once

#include <cmath>
#include <cstddef>
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include "yakushima/include/scheme.h"
#include "yakushima/include/version.h"

namespace yakushima {

class tree_instance {};

struct inserted_node_info { // NOLINT
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

class iscan_context;

using nvec_type = std::vector<std::pair<node_version64_body, node_version64*>>;
using bnv_callback = std::function<bool(node_version64*, node_version64_body)>;

namespace core {

struct scan_elem {
    std::string key;
    void* value;
};

status get(std::string_view st, std::string_view key, void*& out,
           std::pair<node_version64_body, node_version64*>* ver);
status put(std::string_view st, std::string_view key, void* val, bool unique,
           inserted_node_info* ii);
status scan(std::string_view st, std::string_view l, scan_endpoint le,
            std::string_view r, scan_endpoint re, std::vector<scan_elem>& res,
            nvec_type* nvec, std::size_t max_size, bool right_to_left);

} // namespace core

status init();
void fin();
status enter(Token& token);
status leave(Token token);

status create_storage(std::string_view name);
status delete_storage(std::string_view name);
status find_storage(std::string_view name, tree_instance** found = nullptr);
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);

status remove(Token token, std::string_view st, std::string_view key);

status iscan_open(std::string_view st, std::string_view l, scan_endpoint le,
                  std::string_view r, scan_endpoint re, bool right_to_left,
                  bool early_abort, iscan_context*& ctx, void*& value,
                  bnv_callback const& cb = nullptr);
status iscan_next(iscan_context* ctx, void*& value,
                  bnv_callback const& cb = nullptr);
status iscan_close(iscan_context*& ctx);

class storage {
public:
    static storage* get_storages();
    void store_root_ptr(void* p);
};

template<class T>
status get(std::string_view st, std::string_view key,
           std::pair<T*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* ver = nullptr) {
    void* v{nullptr};
    auto rc = core::get(st, key, v, ver);
    if (rc == status::OK) {
        out = std::make_pair(reinterpret_cast<T*>(v), sizeof(T)); // NOLINT
    }
    return rc;
}

template<class T>
status put([[maybe_unused]] Token token, std::string_view st,
           std::string_view key, T* val, [[maybe_unused]] std::size_t size = sizeof(T),
           T** created = nullptr,
           [[maybe_unused]] value_align_type align =
                   static_cast<value_align_type>(alignof(T)),
           bool unique = false, inserted_node_info* ii = nullptr) {
    static_assert(sizeof(T) == sizeof(void*));
    void* v = *reinterpret_cast<void**>(val); // NOLINT
    auto rc = core::put(st, key, v, unique, ii);
    if (created != nullptr) { *created = reinterpret_cast<T*>(v); } // NOLINT
    return rc;
}

template<class T>
status scan(std::string_view st, std::string_view l, scan_endpoint le,
            std::string_view r, scan_endpoint re,
            std::vector<std::tuple<std::string, T*, std::size_t>>& out,
            nvec_type* nvec = nullptr, std::size_t max_size = 0,
            bool right_to_left = false) {
    std::vector<core::scan_elem> res;
    auto rc = core::scan(st, l, le, r, re, res, nvec, max_size, right_to_left);
    out.clear();
    for (auto& e : res) {
        out.emplace_back(e.key, reinterpret_cast<T*>(e.value), sizeof(T)); // NOLINT
    }
    return rc;
}

// ---- control surface for the harness (not part of the real library)
namespace control {

/// keys per leaf before it splits
void set_leaf_capacity(std::size_t n);
/// number of keys (including placeholders and tombstones) in a storage
std::size_t entry_count(std::string_view st);
/// number of leaves allocated so far; they are kept until fin()
std::size_t kept_leaves();

} // namespace control

} // namespace yakushima
