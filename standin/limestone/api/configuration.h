#pragma once
#include <filesystem>
namespace limestone::api {
class configuration {
public:
    configuration() = default;
    void set_data_location(std::filesystem::path const& p) { loc_ = p; }
    void set_recover_max_parallelism(int n) { para_ = n; }
    [[nodiscard]] std::filesystem::path const& location() const { return loc_; }

private:
    std::filesystem::path loc_{};
    int para_{8};
};
} // namespace limestone::api
