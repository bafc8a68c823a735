// Stand-in for the yakushima index library: enumerations.
#pragma once

#include <cstddef>
#include <cstdint>
#include <new>
#include <ostream>

namespace yakushima {

using Token = void*;

enum class status : std::int32_t {
    ERR_BAD_USAGE = -3,
    ERR_FATAL = -2,
    ERR_BOUNDARY = -1,
    OK = 0,
    OK_DESTROY_ALL,
    OK_NOT_FOUND,
    OK_RETRY_FETCH_LV,
    OK_RETRY_AFTER_FB,
    OK_RETRY_FROM_ROOT,
    OK_ROOT_IS_DELETED,
    OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE,
    OK_SCAN_END,
    WARN_BAD_USAGE,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    WARN_ABORTED_BY_USER,
};

inline std::ostream& operator<<(std::ostream& o, status s) {
    return o << "yakushima-status-" << static_cast<int>(s);
}

enum class scan_endpoint : char {
    EXCLUSIVE,
    INCLUSIVE,
    INF,
};

using value_align_type = std::align_val_t;

} // namespace yakushima
