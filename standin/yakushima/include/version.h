// Stand-in for the yakushima index library: node version words.
#pragma once

#include <atomic>
#include <cstdint>
#include <ostream>

namespace yakushima {

class node_version64_body {
public:
    using vinsert_delete_type = std::uint32_t;
    using vsplit_type = std::uint32_t;

    node_version64_body() = default;
    explicit node_version64_body(std::uint64_t w) : w_(w) {}

    [[nodiscard]] vinsert_delete_type get_vinsert_delete() const {
        return static_cast<vinsert_delete_type>(w_ & 0xffffffffU);
    }
    [[nodiscard]] vsplit_type get_vsplit() const {
        return static_cast<vsplit_type>(w_ >> 32U);
    }
    bool operator==(node_version64_body const& r) const { return w_ == r.w_; }
    bool operator!=(node_version64_body const& r) const { return w_ != r.w_; }
    [[nodiscard]] std::uint64_t raw() const { return w_; }

private:
    std::uint64_t w_{0};
};

inline std::ostream& operator<<(std::ostream& o, node_version64_body const& b) {
    return o << b.get_vinsert_delete() << "/" << b.get_vsplit();
}

class node_version64 {
public:
    [[nodiscard]] node_version64_body get_stable_version() const {
        return node_version64_body{w_.load(std::memory_order_acquire)};
    }
    [[nodiscard]] node_version64_body get_body() const {
        return get_stable_version();
    }
    // used by the stand-in core only
    void bump_insert_delete() {
        auto v = w_.load();
        w_.store((v & ~0xffffffffULL) | ((v + 1) & 0xffffffffULL));
    }
    void bump_split() { w_.fetch_add(1ULL << 32U); }
    void set_raw(std::uint64_t v) { w_.store(v); }

private:
    std::atomic<std::uint64_t> w_{0};
};

} // namespace yakushima
