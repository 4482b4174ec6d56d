// What both C++ monitors share: random numbers, results, counts, memory held.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void); // AddressSanitizer

struct Rng
{
    uint64_t s;
    Rng(uint64_t seed, uint64_t salt): s(seed * 0x9E3779B97F4A7C15ull ^ (salt + 1) * 0xD1342543DE82EF95ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; }
    int range(int a, int b) { return a + int(below(unsigned(b - a + 1))); }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <class T> T &pick(std::vector<T> &v) { return v[below(unsigned(v.size()))]; }
};

struct Violation { std::string sig, detail; };

struct Report
{
    uint64_t evaluations = 0, cases = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> counts;
    std::vector<std::string> samples;
    std::vector<std::pair<uint64_t, Violation>> failures;
    std::string trace; // the history of the current case

    void count(const std::string &what) { counts[what]++; }
    void seen(const std::string &what) { distinct.insert(std::hash<std::string>{}(what)); }
    void step(const std::string &what) { trace += what; trace += "; "; }
    void check(bool good, const std::string &sig, const std::string &detail)
    {
        evaluations++;
        if (!good) throw Violation{sig, detail};
    }
};

inline std::string text(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

inline std::string quoted(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

inline void write_report(const Report &r, const std::string &path)
{
    std::ofstream o(path);
    o << "{\"evaluations\": " << r.evaluations << ", \"cases\": " << r.cases << ", \"distinct\": " << r.distinct.size() << ", \"counts\": {";
    const char *sep = "";
    for (auto &c : r.counts) { o << sep << quoted(c.first) << ": " << c.second; sep = ", "; }
    o << "}, \"samples\": [";
    sep = "";
    for (auto &s : r.samples) { o << sep << quoted(s); sep = ", "; }
    o << "], \"harness_errors\": [], \"failures\": [";
    sep = "";
    for (auto &f : r.failures)
    {
        o << sep << "{\"sig\": " << quoted(f.second.sig) << ", \"case\": " << f.first << ", \"detail\": " << quoted(f.second.detail) << "}";
        sep = ", ";
    }
    o << "]}\n";
}

// Runs every case twice: the second time, no memory may be left that was not there before.
inline int run_cases(int argc, char **argv, const std::function<void(Rng &, Report &)> &one, bool thorough_arg[1])
{
    uint64_t seed = 1, cases = 100, only = UINT64_MAX;
    double seconds = 60;
    std::string out, progress;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto value = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = std::stoull(value());
        else if (a == "--cases") cases = std::stoull(value());
        else if (a == "--seconds") seconds = std::stod(value());
        else if (a == "--only") only = std::stoull(value());
        else if (a == "--out") out = value();
        else if (a == "--progress") progress = value();
        else if (a == "--thorough") thorough_arg[0] = true;
    }
    Report r;
    auto begin = std::chrono::steady_clock::now();
    for (uint64_t c = 0; c < cases; c++)
    {
        if (only != UINT64_MAX && c != only) continue;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count() > seconds) break;
        if (FILE *p = fopen(progress.c_str(), "w")) { fprintf(p, "%llu", (unsigned long long)c); fclose(p); }
        r.cases++;
        try
        {
            std::string trace;
            {
                Report first;
                Rng g(seed, c);
                try { one(g, first); }
                catch (const Violation &v) { throw Violation{v.sig, v.detail + " after: " + first.trace}; }
                catch (const std::exception &e) { throw Violation{"unexpected-exception", e.what() + (" after: " + first.trace)}; }
                r.evaluations += first.evaluations;
                r.distinct.insert(first.distinct.begin(), first.distinct.end());
                for (auto &k : first.counts) r.counts[k.first] += k.second;
                trace = first.trace;
            }
            // Once more, with everything in place that is allocated once for all
            size_t before = __sanitizer_get_current_allocated_bytes();
            {
                Report silent;
                Rng g(seed, c);
                one(g, silent);
            }
            size_t after = __sanitizer_get_current_allocated_bytes();
            r.check(after <= before, "memory-kept", std::to_string(after - before) + " bytes are kept after: " + trace);
            r.count("memory balanced");
            if (r.samples.size() < 5) r.samples.push_back(trace.substr(0, 400));
        }
        catch (const Violation &v)
        {
            r.failures.push_back({c, v});
            if (r.failures.size() >= 20) break;
        }
    }
    write_report(r, out);
    return 0;
}
