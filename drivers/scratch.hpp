// a scratch directory of its own for code that writes and deletes files; the process gives up root before it runs any of it
#pragma once
#include "common.hpp"
#include <filesystem>
#include <grp.h>
#include <sys/stat.h>

namespace hv {
    inline std::string scratch_dir;

    inline const std::string &scratch() {
        if (!scratch_dir.empty()) return scratch_dir;
        char t[] = "/tmp/hv_scratch_XXXXXX";
        if (!mkdtemp(t)) abort();
        scratch_dir = t;
        if (geteuid() == 0) {
            (void) !chown(t, 65534, 65534);
            (void) !setgroups(0, nullptr);
            (void) !setgid(65534);
            (void) !setuid(65534);
        }
        (void) !chdir(t);
        at_end = [] {
            (void) !chdir("/");
            std::error_code e;
            std::filesystem::remove_all(scratch_dir, e);
        };
        return scratch_dir;
    }
    inline std::string scratch_file(const char *name) { return scratch() + "/" + name; }
    inline std::string bytes_of(const std::string &path) {
        std::ifstream f(path, std::ios::binary);
        std::ostringstream o;
        o << f.rdbuf();
        return o.str();
    }
}
