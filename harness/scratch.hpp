// Scratch directories and small native helpers of the harnesses.
#pragma once
#include "monitor.hpp"
#include <filesystem>
#include <fstream>

namespace mon {
/// a fresh directory under TMPDIR, removed with everything in it
class Scratch {
public:
    Scratch() {
        const char* base = std::getenv("TMPDIR");
        std::string t = std::string(base ? base : "/tmp") + "/scratch-XXXXXX";
        if (!mkdtemp(t.data())) throw HarnessError("mkdtemp");
        root = t;
    }
    Scratch(const Scratch&) = delete;
    Scratch& operator=(const Scratch&) = delete;
    ~Scratch() {
        std::error_code ec;
        std::filesystem::remove_all(root, ec);
    }
    void write(const std::filesystem::path& name, std::string_view content) const {
        auto p = root / name;
        std::filesystem::create_directories(p.parent_path());
        std::ofstream f(p, std::ios::binary);
        f.write(content.data(), static_cast<std::streamsize>(content.size()));
        if (!f) throw HarnessError("cannot write " + p.string());
    }
    std::filesystem::path root;
};
} // namespace mon
