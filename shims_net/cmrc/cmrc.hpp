// stand-in: no embedded resources
#pragma once
#include <stdexcept>
#include <string>
#include <vector>
namespace cmrc {
struct file { const char *begin() const { return nullptr; } const char *end() const { return nullptr; } size_t size() const { return 0; } };
struct directory_entry { std::string filename() const { return {}; } bool is_file() const { return false; } bool is_directory() const { return false; } };
struct embedded_filesystem {
    std::vector<directory_entry> iterate_directory(const std::string &) const { return {}; }
    file open(const std::string &) const { throw std::runtime_error("no such resource"); }
    bool exists(const std::string &) const { return false; }
    bool is_file(const std::string &) const { return false; }
};
} // namespace cmrc
#define CMRC_DECLARE(ns) namespace cmrc { namespace ns { cmrc::embedded_filesystem get_filesystem(); } } static_assert(true)
