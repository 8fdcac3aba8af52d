// Shared by the probes: a line-oriented command interpreter.
// Each input line is one case; the probe prints "@<n>" before running case n (so that a crash
// can be attributed) and then the observations of that case, one per line.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace probe {

inline std::string hex(std::string const& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    r.reserve(s.size() * 2 + 1);
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    if (r.empty()) r = "_";
    return r;
}

inline std::string unhex(std::string const& h)
{
    if (h == "_") return {};
    auto v = [](char c) -> int { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(v(h[i]) * 16 + v(h[i + 1]));
    return r;
}

using Handler = std::function<void(std::istringstream& in, std::ostream& out)>;

// a database file: "@path", or its content in hexadecimal, always read through the library's file reader
inline std::string const& scratch()
{
    static std::string const path = [] {
        char t[] = "/tmp/ppv-probe-XXXXXX";
        int fd = mkstemp(t);
        if (fd >= 0) close(fd);
        std::atexit([] { unlink(scratch().c_str()); });
        return std::string(t);
    }();
    return path;
}

inline std::string db_path(std::string const& arg)
{
    if (arg[0] == '@') return arg.substr(1);
    std::ofstream f(scratch(), std::ios::binary | std::ios::trunc);
    auto s = unhex(arg);
    f.write(s.data(), s.size());
    return scratch();
}

inline int run(std::map<std::string, Handler> const& handlers)
{
    std::string line;
    unsigned long n = 0;
    while (std::getline(std::cin, line)) {
        std::cout << '@' << n++ << '\n' << std::flush;
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        auto it = handlers.find(cmd);
        if (it == handlers.end()) { std::cerr << "unknown command " << cmd << "\n"; return 3; }
        std::ostringstream out;
        try { it->second(in, out); }
        catch (std::bad_alloc const& e) { out << "exc bad_alloc\n"; }
        catch (std::exception const& e) {
            std::string w = e.what();
            auto p = w.find("/tmp/ppv-probe-");
            if (p != std::string::npos) w.erase(p, 21);
            out << "exc " << hex(w) << "\n";
        }
        std::cout << out.str() << std::flush;
    }
    std::cout << "@end\n" << std::flush;
    return 0;
}

}
