// Core of the runtime-monitoring harness: deterministic RNG, verdict channel, statistics, case loop.
// A program prints at most one "@@FAIL key=... case=... msg=..." line (then exits with 41), and at the end of a
// completed run one "@@STAT {json}" line.  Everything else on stdout/stderr is free text for the replay file.
#pragma once

#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#endif
#ifndef VF_ASAN
#define VF_ASAN 0
#endif
#ifndef VF_TSAN
#define VF_TSAN 0
#endif

namespace vf
{
    inline uint64_t mix(uint64_t x) noexcept
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    inline uint64_t hash_str(const char* s) noexcept
    {
        uint64_t h = 1469598103934665603ull;
        for (; *s; s++)
            h = (h ^ uint64_t((unsigned char)*s)) * 1099511628211ull;
        return h;
    }

    struct Rng
    {
        uint64_t s[2];

        explicit Rng(uint64_t seed = 1) noexcept
        {
            s[0] = mix(seed);
            s[1] = mix(seed ^ 0xD1B54A32D192ED03ull);
            if (!s[0] && !s[1]) s[0] = 1;
        }

        uint64_t next() noexcept // xoroshiro128+
        {
            const uint64_t a = s[0];
            uint64_t b = s[1];
            const uint64_t r = a + b;
            b ^= a;
            s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
            s[1] = (b << 37) | (b >> 27);
            return r;
        }

        uint64_t operator()() noexcept { return next(); }

        // [0, n)
        size_t below(size_t n) noexcept { return n ? size_t((next() >> 11) % n) : 0; }

        // [lo, hi]
        size_t range(size_t lo, size_t hi) noexcept { return lo + below(hi - lo + 1); }

        bool chance(unsigned num, unsigned den) noexcept { return below(den) < num; }

        template<typename C>
        auto& pick(C& c) noexcept { return c[below(c.size())]; }
    };

    struct Context
    {
        const char* program = "?";
        std::string tier = "quick";
        uint64_t seed = 1;
        uint64_t current = 0;          // current case number
        char detail[256] = "";         // what the current case is doing
        bool in_case = false;
        bool verbose = false;
        uint64_t from = 0, to = 0;
        std::map<std::string, uint64_t> stats;
        std::unordered_set<uint64_t> sigs;
        std::vector<std::string> samples;
        std::string sig_path;
        uint64_t digest = 0;
        uint64_t trivial = 0;
    };

    inline Context& ctx()
    {
        static Context* c = new Context; // never destroyed: used from handlers
        return *c;
    }

    inline void detail(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(ctx().detail, sizeof ctx().detail, fmt, ap);
        va_end(ap);
    }

    // Async-signal-safe enough: only write(2) of a formatted stack buffer
    inline void announce(const char* what)
    {
        char buf[512];
        Context& c = ctx();
        int n = snprintf(buf, sizeof buf, "\n@@CASE what=%s case=%" PRIu64 " in_case=%d detail=%s\n", what, c.current, int(c.in_case), c.detail);
        if (n > 0)
        {
            ssize_t r = write(1, buf, size_t(n) < sizeof buf ? size_t(n) : sizeof buf - 1);
            (void)r;
        }
    }

    [[noreturn]] inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] inline void fail(const char* key, const char* fmt, ...)
    {
        char msg[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(msg, sizeof msg, fmt, ap);
        va_end(ap);
        for (char* p = msg; *p; p++)
            if (*p == '\n') *p = ' ';
        Context& c = ctx();
        fflush(stdout);
        printf("\n@@FAIL key=%s case=%" PRIu64 " detail=%s msg=%s\n", key, c.current, c.detail, msg);
        fflush(stdout);
        _exit(41);
    }

#define VF_CHECK(cond, key, ...)                                                                                            \
    do                                                                                                                      \
    {                                                                                                                       \
        if (!(cond)) ::vf::fail(key, __VA_ARGS__);                                                                          \
    } while (0)

    inline void stat(const char* name, uint64_t add = 1) { ctx().stats[name] += add; }
    inline void stat_max(const char* name, uint64_t v)
    {
        uint64_t& s = ctx().stats[name];
        if (v > s) s = v;
    }

    // A case's signature: distinct signatures are counted over the whole run (union over all processes)
    inline void sig(uint64_t h) { ctx().sigs.insert(h); }
    inline void sig(const std::string& s) { sig(hash_str(s.c_str())); }

    inline void sample(const std::string& s)
    {
        if (ctx().samples.size() < 6) ctx().samples.push_back(s);
    }

    inline void digest(uint64_t v) { ctx().digest = mix(ctx().digest ^ v) + v; }

    inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline std::string fmt(const char* f, ...)
    {
        char buf[512];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }

    inline bool thorough() { return ctx().tier == "thorough"; }

    inline std::string json_escape(const std::string& s)
    {
        std::string r;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
            else r += char(ch);
        }
        return r;
    }

    inline void signal_handler(int sig)
    {
        announce(sig == SIGTRAP ? "SIGTRAP" : sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : "signal");
        signal(sig, SIG_DFL);
        raise(sig);
    }
}

#if VF_ASAN || VF_TSAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf
{
    inline void death_callback() { announce("sanitizer"); }

    // Every program: vf::run_main(argc, argv, "name", run_case)
    inline int run_main(int argc, char** argv, const char* name, void (*run_case)(uint64_t, Rng&), void (*finish)() = nullptr)
    {
        Context& c = ctx();
        c.program = name;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--from") c.from = strtoull(val(), nullptr, 10);
            else if (a == "--to") c.to = strtoull(val(), nullptr, 10);
            else if (a == "--seed") c.seed = strtoull(val(), nullptr, 10);
            else if (a == "--tier") c.tier = val();
            else if (a == "--sigs") c.sig_path = val();
            else if (a == "--verbose") c.verbose = true;
        }
        setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
        for (int s : { SIGTRAP, SIGABRT, SIGILL, SIGFPE }) signal(s, signal_handler);
#if VF_ASAN || VF_TSAN
        __sanitizer_set_death_callback(death_callback);
#else
        for (int s : { SIGSEGV, SIGBUS }) signal(s, signal_handler);
#endif
        const uint64_t base = mix(c.seed * 0x9E3779B97F4A7C15ull + hash_str(name));
        for (uint64_t i = c.from; i < c.to; i++)
        {
            c.current = i;
            c.detail[0] = 0;
            Rng rng(mix(base ^ mix(i)));
            c.in_case = true;
            run_case(i, rng);
            c.in_case = false;
        }
        if (finish) finish();
        if (!c.sig_path.empty())
        {
            if (FILE* f = fopen(c.sig_path.c_str(), "wb"))
            {
                for (uint64_t s : c.sigs) fwrite(&s, sizeof s, 1, f);
                fclose(f);
            }
        }
        printf("\n@@STAT {\"program\":\"%s\",\"cases\":%" PRIu64 ",\"digest\":\"%016" PRIx64 "\",\"sigs\":%zu,\"stats\":{", name, c.to - c.from, c.digest, c.sigs.size());
        bool first = true;
        for (auto& kv : c.stats)
        {
            printf("%s\"%s\":%" PRIu64, first ? "" : ",", json_escape(kv.first).c_str(), kv.second);
            first = false;
        }
        printf("},\"samples\":[");
        first = true;
        for (auto& s : c.samples)
        {
            printf("%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
            first = false;
        }
        printf("]}\n");
        fflush(stdout);
        _exit(0); // skip static destruction: a program's verdict is given above
    }
}
