// What a directory tree looks like, without following symbolic links.
#pragma once
#include "hx.hh"

namespace hx {
using Snapshot = std::map<std::string, std::string>;

inline Snapshot
snapshot(const fs::path& root, const std::string& skip = "")
{
    Snapshot out;
    auto one = [&](const fs::path& p) {
        struct stat st;
        if (lstat(p.c_str(), &st)) {
            return;
        }
        std::ostringstream o;
        o << std::oct << st.st_mode << std::dec << " inode " << st.st_ino;
        if (S_ISLNK(st.st_mode)) {
            std::error_code ec;
            o << " -> " << fs::read_symlink(p, ec).string();
        } else if (S_ISREG(st.st_mode)) {
            o << " " << st.st_size << " bytes, links " << st.st_nlink << ", hash " << hash_str(read_file(p)) << ", changed " << st.st_mtim.tv_sec << "."
              << st.st_mtim.tv_nsec;
        }
        out[p == root ? "." : p.lexically_relative(root).string()] = o.str();
    };
    one(root);
    std::error_code ec;
    for (fs::recursive_directory_iterator it(root, fs::directory_options::none, ec), end; !ec && it != end; it.increment(ec)) {
        if (!skip.empty() && it->path() == skip) {
            it.disable_recursion_pending();
            continue;
        }
        one(it->path());
    }
    return out;
}

inline std::string
difference(const Snapshot& a, const Snapshot& b)
{
    for (auto& [k, v] : a) {
        auto it = b.find(k);
        if (it == b.end()) {
            return "'" + k + "' is gone";
        }
        if (it->second != v) {
            return "'" + k + "' changed from " + v + " to " + it->second;
        }
    }
    for (auto& [k, v] : b) {
        if (!a.count(k)) {
            return "'" + k + "' was added";
        }
    }
    return "";
}
} // namespace hx
