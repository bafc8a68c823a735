#pragma once
#include <memory>
#include <string>
#include <vector>
#include "limestone/api/storage_id_type.h"
namespace limestone::api {
struct snapshot_entry {
    storage_id_type st;
    std::string key;
    std::string value;
};
class cursor {
public:
    explicit cursor(std::vector<snapshot_entry> e) : e_(std::move(e)) {}
    bool next();
    [[nodiscard]] storage_id_type storage() const;
    void key(std::string& buf) const;
    void value(std::string& buf) const;

private:
    std::vector<snapshot_entry> e_;
    long pos_{-1};
};
} // namespace limestone::api
