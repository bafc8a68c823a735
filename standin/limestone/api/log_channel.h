#pragma once
#include <string_view>
#include <vector>
#include "limestone/api/storage_id_type.h"
#include "limestone/api/write_version_type.h"
namespace limestone::api {
class datastore;
class log_channel {
public:
    log_channel(datastore* ds, std::size_t id) : ds_(ds), id_(id) {}
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key,
                   std::string_view value, write_version_type wv);
    void add_entry(storage_id_type st, std::string_view key,
                   std::string_view value, write_version_type wv,
                   std::vector<blob_id_type> const& lobs);
    void remove_entry(storage_id_type st, std::string_view key,
                      write_version_type wv);
    void add_storage(storage_id_type st, write_version_type wv);
    void remove_storage(storage_id_type st, write_version_type wv);
    void truncate_storage(storage_id_type st, write_version_type wv);

private:
    friend class datastore;
    datastore* ds_;
    std::size_t id_;
    bool active_{false};
    std::uint64_t epoch_{0};
    std::uint64_t session_{0};
};
} // namespace limestone::api
