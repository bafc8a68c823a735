// Stand-in for the limestone log store: the calls shirakami uses.
//
// Records are appended to one file in the data directory.  A log session gets
// the epoch current at its begin; an epoch is durable once the current epoch
// is beyond it and no session of it (or an earlier one) is open.  The durable
// epoch is recorded in the file before it is announced.  Recovery keeps the
// sessions of durable epochs only, and per (storage, key) the entry with the
// largest write version.
#pragma once
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "limestone/api/blob_id_type.h"
#include "limestone/api/configuration.h"
#include "limestone/api/cursor.h"
#include "limestone/api/epoch_id_type.h"
#include "limestone/api/log_channel.h"
#include "limestone/api/snapshot.h"
#include "limestone/api/storage_id_type.h"
#include "limestone/api/write_version_type.h"
namespace limestone::api {
class datastore {
public:
    datastore() = default;
    explicit datastore(configuration const& conf);
    ~datastore();
    datastore(datastore const&) = delete;
    datastore& operator=(datastore const&) = delete;

    void recover();
    void ready();
    [[nodiscard]] std::unique_ptr<snapshot> get_snapshot() const;
    log_channel& create_channel();
    [[nodiscard]] epoch_id_type last_epoch() const;
    void switch_epoch(epoch_id_type e);
    void add_persistent_callback(std::function<void(epoch_id_type)> cb);
    void remove_persistent_callback();
    void switch_available_boundary_version(write_version_type v);
    std::future<void> shutdown();

private:
    friend class log_channel;
    struct impl;
    std::unique_ptr<impl> p_;
};
} // namespace limestone::api

// ---- control surface for the harness (not part of the real library)
namespace limestone::control {

enum class kind : unsigned char { put, remove, add_storage, remove_storage };

struct received {
    std::size_t channel;
    std::uint64_t session_epoch; // epoch of the log session
    kind k;
    api::storage_id_type st;
    std::string key, value;
    std::uint64_t major, minor;
    std::vector<api::blob_id_type> lobs;
    std::uint64_t t{0}; // when it came, by the clock of the harness
};

/// everything handed to the log store since reset()
std::vector<received> const& log();
struct stamped {
    std::uint64_t t;
    std::uint64_t epoch;
};
/// epochs announced as durable, in order
std::vector<stamped> const& announced();
/// boundary versions received, in order
std::vector<stamped> const& boundaries();
/// source of the time stamps
void set_clock(std::function<std::uint64_t()> f);
/// true epoch up to which everything is persistent now
std::uint64_t persistent_epoch();
void reset();
/// epochs by which persistence lags behind what would be possible
void set_lag(std::uint64_t n);
/// protocol errors seen (entry outside a session, nested session, ...)
std::vector<std::string> const& protocol_errors();
/// called for each announcement, before the engine's callback
void set_observer(std::function<void(std::uint64_t)> f);

} // namespace limestone::control
