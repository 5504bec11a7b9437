// Shared by all harness programs: the job loop and the encoding of values.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <string>
#include <sys/time.h>
#include <unistd.h>

#include "common/assert.hpp"
#include "common/config.hpp"
#include "json.hpp"

namespace bm = bit_manipulation;

inline char current_id[64];
inline int job_seconds = 10;

inline void on_alarm(int)
{
    // async-signal-safe: report the hang of this job and stop; the driver goes on after it
    const char* a = "\n{\"id\":";
    const char* b = ",\"internal\":\"hang\"}\n";
    (void)!write(1, a, __builtin_strlen(a));
    (void)!write(1, current_id, __builtin_strlen(current_id));
    (void)!write(1, b, __builtin_strlen(b));
    _exit(0);
}

// Runs every job of stdin through `f`, one JSON object per line, and writes one observation each.
template <typename F>
int job_loop(int argc, char** argv, F f)
{
    if (argc > 1)
        job_seconds = std::atoi(argv[1]);
    std::signal(SIGALRM, on_alarm);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty())
            continue;
        J job = JParser { line }.value();
        J out = J::obj();
        std::snprintf(current_id, sizeof current_id, "%lld", job.at("id").i);
        out.set("id", job.at("id").i);
        // a limit of CPU time, so that a loaded machine raises no alarm
        itimerval t { { 0, 0 }, { job_seconds, 0 } };
        std::signal(SIGPROF, on_alarm);
        setitimer(ITIMER_PROF, &t, nullptr);
        try {
            f(job, out);
        } catch (const bm::Assertion_Error& e) {
            out.o.resize(1);
            out.set("internal", "assertion");
            out.set("what", std::string(e.message) + " at " + e.location.file_name() + ":"
                        + std::to_string(e.location.line()));
        } catch (const std::exception& e) {
            out.o.resize(1);
            out.set("internal", "exception");
            out.set("what", e.what());
        }
        itimerval z {};
        setitimer(ITIMER_PROF, &z, nullptr);
        std::string s = out.dump();
        s += '\n';
        std::fwrite(s.data(), 1, s.size(), stdout);
        std::fflush(stdout);
    }
    return 0;
}

// removes the escape sequences that color text
inline std::string without_colors(std::string_view s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') {
            while (i < s.size() && s[i] != 'm')
                ++i;
        }
        else
            r += s[i];
    return r;
}

// Integers travel as {"n": negative?, "m": [limbs of 12 bits, least significant first]}.
inline J big(bm::Big_Int v, bool is_signed)
{
    bool n = is_signed && v < 0;
    bm::Big_Uint u = n ? -bm::Big_Uint(v) : bm::Big_Uint(v);
    J m = J::arr();
    for (; u != 0; u >>= 12)
        m.push(J(int(u & 0xfff)));
    return J::obj().set("n", n).set("m", std::move(m));
}
inline bm::Big_Int unbig(const J& j)
{
    bm::Big_Uint u = 0;
    auto& m = j.at("m").a;
    for (size_t k = m.size(); k-- > 0;)
        u = (u << 12) | bm::Big_Uint(m[k].i);
    return bm::Big_Int(j.at("n").i ? -u : u);
}
