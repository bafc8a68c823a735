// Core of the limestone stand-in.  Never compiled with coverage callbacks.
#include <algorithm>
#include <atomic>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <limits>
#include <map>
#include <sstream>

#include <fcntl.h>
#include <sched.h>
#include <unistd.h>

#include "limestone/api/datastore.h"

namespace limestone {

namespace {

std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct guard {
    guard() {
        while (g_lock.test_and_set(std::memory_order_acquire)) { sched_yield(); }
    }
    ~guard() { g_lock.clear(std::memory_order_release); }
};

struct ctl {
    std::vector<control::received> log;
    std::vector<control::stamped> announced, boundaries;
    std::vector<std::string> errors;
    std::uint64_t lag{0};
    std::uint64_t persistent{0};
    std::function<void(std::uint64_t)> observer;
    std::function<std::uint64_t()> clock;
    std::uint64_t now() const { return clock ? clock() : 0; }
};
ctl& c() {
    static ctl* x = new ctl(); // NOLINT
    return *x;
}

void put64(std::string& b, std::uint64_t v) {
    b.append(reinterpret_cast<char const*>(&v), sizeof(v)); // NOLINT
}
void put_str(std::string& b, std::string_view s) {
    put64(b, s.size());
    b.append(s);
}

struct reader {
    std::string const& b;
    std::size_t p{0};
    bool ok{true};
    std::uint64_t u64() {
        std::uint64_t v{0};
        if (p + sizeof(v) > b.size()) {
            ok = false;
            return 0;
        }
        std::memcpy(&v, b.data() + p, sizeof(v));
        p += sizeof(v);
        return v;
    }
    std::string str() {
        auto n = u64();
        if (!ok || p + n > b.size()) {
            ok = false;
            return {};
        }
        std::string s = b.substr(p, n);
        p += n;
        return s;
    }
};

// record tags
constexpr std::uint64_t tag_entry = 1;   // session_epoch kind st key value major minor
constexpr std::uint64_t tag_durable = 2; // epoch

} // namespace

namespace api {

struct datastore::impl {
    std::filesystem::path file;
    int fd{-1};
    std::vector<std::unique_ptr<log_channel>> channels;
    std::uint64_t switched{0};
    std::uint64_t informed{0};
    std::uint64_t recovered{0};
    std::uint64_t session_ctr{0};
    std::vector<snapshot_entry> snap;
    std::mutex mtx_cb;
    std::function<void(epoch_id_type)> cb;
    bool ready{false};

    void append(std::string const& b) const {
        if (fd < 0) { return; }
        std::size_t off{0};
        while (off < b.size()) {
            auto n = ::write(fd, b.data() + off, b.size() - off);
            if (n <= 0) { std::abort(); }
            off += static_cast<std::size_t>(n);
        }
    }

    void load() {
        std::ifstream in(file, std::ios::binary);
        std::string data((std::istreambuf_iterator<char>(in)), {});
        struct ent {
            std::uint64_t ep, kind, st;
            std::string key, val;
            write_version_type wv;
        };
        std::vector<ent> es;
        std::uint64_t durable{0};
        reader r{data};
        while (r.p < data.size()) {
            auto len = r.u64();
            if (!r.ok || r.p + len > data.size()) { break; } // torn tail
            auto tag = r.u64();
            if (tag == tag_durable) {
                durable = std::max(durable, r.u64());
            } else {
                ent e{};
                e.ep = r.u64();
                e.kind = r.u64();
                e.st = r.u64();
                e.key = r.str();
                e.val = r.str();
                auto ma = r.u64();
                auto mi = r.u64();
                e.wv = write_version_type(ma, mi);
                es.push_back(std::move(e));
            }
        }
        recovered = durable;
        informed = durable;
        std::map<std::pair<std::uint64_t, std::string>, ent const*> best;
        std::map<std::uint64_t, write_version_type> removed;
        for (auto const& e : es) {
            if (e.ep > durable) { continue; }
            auto k = static_cast<control::kind>(e.kind);
            if (k == control::kind::remove_storage) {
                auto it = removed.find(e.st);
                if (it == removed.end() || it->second < e.wv) {
                    removed[e.st] = e.wv;
                }
            } else if (k != control::kind::add_storage) {
                auto& b = best[{e.st, e.key}];
                if (b == nullptr || b->wv <= e.wv) { b = &e; }
            }
        }
        snap.clear();
        std::string out;
        auto emit = [&out](ent const& e) {
            std::string b;
            put64(b, tag_entry);
            put64(b, e.ep);
            put64(b, e.kind);
            put64(b, e.st);
            put_str(b, e.key);
            put_str(b, e.val);
            put64(b, e.wv.get_major());
            put64(b, e.wv.get_minor());
            put_str(out, b);
        };
        for (auto const& [k, e] : best) {
            auto it = removed.find(e->st);
            if (it != removed.end() && e->wv < it->second) { continue; }
            emit(*e); // tombstones are kept: a late older entry must not win
            if (static_cast<control::kind>(e->kind) == control::kind::put) {
                snap.push_back({e->st, e->key, e->val});
            }
        }
        for (auto const& e : es) {
            if (e.ep <= durable && static_cast<control::kind>(e.kind) ==
                                           control::kind::remove_storage) {
                emit(e);
            }
        }
        std::string b;
        put64(b, tag_durable);
        put64(b, durable);
        put_str(out, b);
        // drop what was not durable, so that it can never come back
        auto tmp = file;
        tmp += ".tmp";
        {
            std::ofstream o(tmp, std::ios::binary | std::ios::trunc);
            o << out;
        }
        std::filesystem::rename(tmp, file);
    }

    // computes the new durable epoch; returns 0 if unchanged
    std::uint64_t advance() {
        guard g;
        if (switched == 0 || !ready) { return 0; }
        std::uint64_t up = switched - 1;
        for (auto& ch : channels) {
            if (ch->active_) { up = std::min(up, ch->epoch_ - 1); }
        }
        up = up > c().lag ? up - c().lag : 0;
        if (up <= c().persistent || up <= informed) { return 0; }
        std::string b;
        put64(b, tag_durable);
        put64(b, up);
        std::string out;
        put_str(out, b);
        append(out);
        c().persistent = up;
        return up;
    }

    void announce() {
        auto e = advance();
        if (e == 0) { return; }
        std::lock_guard lk{mtx_cb};
        if (e <= informed) { return; }
        informed = e;
        c().announced.push_back({c().now(), e});
        if (c().observer) { c().observer(e); }
        if (cb) { cb(e); }
    }
};

datastore::datastore(configuration const& conf) : p_(std::make_unique<impl>()) {
    std::error_code ec;
    std::filesystem::create_directories(conf.location(), ec);
    p_->file = conf.location() / "pwal_standin";
}

datastore::~datastore() {
    if (p_ && p_->fd >= 0) { ::close(p_->fd); }
}

void datastore::recover() {}

void datastore::ready() {
    p_->load();
    p_->fd = ::open(p_->file.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); // NOLINT
    c().persistent = p_->recovered;
    p_->ready = true;
}

std::unique_ptr<snapshot> datastore::get_snapshot() const {
    return std::make_unique<snapshot>(p_->snap);
}

log_channel& datastore::create_channel() {
    guard g;
    p_->channels.emplace_back(
            std::make_unique<log_channel>(this, p_->channels.size()));
    return *p_->channels.back();
}

epoch_id_type datastore::last_epoch() const { return p_->recovered; }

void datastore::switch_epoch(epoch_id_type e) {
    {
        guard g;
        if (e <= p_->switched) {
            c().errors.push_back("switch_epoch did not advance: " +
                                 std::to_string(e));
        }
        p_->switched = e;
    }
    p_->announce();
}

void datastore::add_persistent_callback(std::function<void(epoch_id_type)> cb) {
    p_->cb = std::move(cb);
}

void datastore::remove_persistent_callback() {
    std::lock_guard lk{p_->mtx_cb};
    p_->cb = nullptr;
}

void datastore::switch_available_boundary_version(write_version_type v) {
    guard g;
    c().boundaries.push_back({c().now(), v.get_major()});
}

std::future<void> datastore::shutdown() {
    std::promise<void> pr;
    pr.set_value();
    p_->ready = false;
    return pr.get_future();
}

void log_channel::begin_session() {
    guard g;
    if (active_) {
        c().errors.push_back("nested session on channel " + std::to_string(id_));
    }
    active_ = true;
    epoch_ = ds_->p_->switched;
    session_ = ++ds_->p_->session_ctr;
}

void log_channel::end_session() {
    {
        guard g;
        if (!active_) {
            c().errors.push_back("end without begin on channel " +
                                 std::to_string(id_));
        }
        active_ = false;
    }
    ds_->p_->announce();
}

namespace {

control::received make(std::size_t id, std::uint64_t ep, control::kind k,
                       storage_id_type st, std::string_view key,
                       std::string_view value, write_version_type wv,
                       std::vector<blob_id_type> lobs) {
    return {id,
            ep,
            k,
            st,
            std::string(key),
            std::string(value),
            wv.get_major(),
            wv.get_minor(),
            std::move(lobs),
            c().now()};
}

std::string encode(control::received const& e) {
    std::string b;
    put64(b, tag_entry);
    put64(b, e.session_epoch);
    put64(b, static_cast<std::uint64_t>(e.k));
    put64(b, e.st);
    put_str(b, e.key);
    put_str(b, e.value);
    put64(b, e.major);
    put64(b, e.minor);
    std::string out;
    put_str(out, b);
    return out;
}

} // namespace

#define LS_APPEND(kind_, st_, key_, val_, wv_, lobs_)                          \
    guard g;                                                                   \
    if (!active_) {                                                            \
        c().errors.push_back("entry outside a session on channel " +           \
                             std::to_string(id_));                             \
    }                                                                          \
    auto e = make(id_, epoch_, control::kind::kind_, st_, key_, val_, wv_,     \
                  lobs_);                                                      \
    ds_->p_->append(encode(e));                                                \
    c().log.push_back(std::move(e))

void log_channel::add_entry(storage_id_type st, std::string_view key,
                            std::string_view value, write_version_type wv) {
    LS_APPEND(put, st, key, value, wv, {});
}
void log_channel::add_entry(storage_id_type st, std::string_view key,
                            std::string_view value, write_version_type wv,
                            std::vector<blob_id_type> const& lobs) {
    LS_APPEND(put, st, key, value, wv, lobs);
}
void log_channel::remove_entry(storage_id_type st, std::string_view key,
                               write_version_type wv) {
    LS_APPEND(remove, st, key, std::string_view{}, wv, {});
}
void log_channel::add_storage(storage_id_type st, write_version_type wv) {
    LS_APPEND(add_storage, st, std::string_view{}, std::string_view{}, wv, {});
}
void log_channel::remove_storage(storage_id_type st, write_version_type wv) {
    LS_APPEND(remove_storage, st, std::string_view{}, std::string_view{}, wv, {});
}
void log_channel::truncate_storage(storage_id_type st, write_version_type wv) {
    LS_APPEND(remove_storage, st, std::string_view{}, std::string_view{}, wv, {});
}

bool cursor::next() { return ++pos_ < static_cast<long>(e_.size()); }
storage_id_type cursor::storage() const {
    return e_[static_cast<std::size_t>(pos_)].st;
}
void cursor::key(std::string& buf) const {
    buf = e_[static_cast<std::size_t>(pos_)].key;
}
void cursor::value(std::string& buf) const {
    buf = e_[static_cast<std::size_t>(pos_)].value;
}

std::unique_ptr<cursor> snapshot::get_cursor() const {
    return std::make_unique<cursor>(e_);
}
std::vector<std::unique_ptr<cursor>>
snapshot::get_partitioned_cursors(std::size_t n) const {
    // entries are dealt out in turn, as any of the readers may get any entry
    std::vector<std::vector<snapshot_entry>> parts(n);
    for (std::size_t i = 0; i < e_.size(); ++i) { parts[i % n].push_back(e_[i]); }
    std::vector<std::unique_ptr<cursor>> out;
    for (auto& p : parts) {
        out.emplace_back(std::make_unique<cursor>(std::move(p)));
    }
    return out;
}

} // namespace api

namespace control {

std::vector<received> const& log() { return c().log; }
std::vector<stamped> const& announced() { return c().announced; }
std::vector<stamped> const& boundaries() { return c().boundaries; }
void set_clock(std::function<std::uint64_t()> f) { c().clock = std::move(f); }
std::uint64_t persistent_epoch() { return c().persistent; }
void reset() {
    auto lag = c().lag;
    c() = ctl{};
    c().lag = lag;
}
void set_lag(std::uint64_t n) { c().lag = n; }
std::vector<std::string> const& protocol_errors() { return c().errors; }
void set_observer(std::function<void(std::uint64_t)> f) {
    c().observer = std::move(f);
}

} // namespace control

} // namespace limestone
