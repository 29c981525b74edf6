// Property-based testing engine used by every harness in /verif.
//
// A case is a pure function of a sequence of bounded choices (Src::draw).  Random generation records the
// choices; shrinking deletes and lowers choices and replays; a replay file is the list of choices.
// Every case runs in a forked worker, so a crash, an abort or a hang of the code under test is an outcome.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace pbt
{
    // A failed assertion; tags says which properties the assertion decides.
    struct Fail
    {
        uint64_t tags;
        std::string msg;
    };

    // The case is outside the domain (used sparingly).
    struct Discard {};

    class Src
    {
    public:
        enum Mode { Random, Replay, Bytes };
        Mode mode = Random;
        uint64_t state = 0;                                      // random generator state
        std::vector<uint64_t> choices;                           // recorded (Random) or given (Replay)
        std::vector<uint64_t> used;                              // choices actually consumed, canonical
        std::vector<std::pair<uint32_t, uint32_t>> spans;        // operation spans in `used`
        const uint8_t* data = nullptr;
        size_t size = 0, pos = 0;
        bool logging = false;
        std::string log;

        uint64_t next64();
        uint64_t draw(uint64_t n);                               // uniform in [0, n); 0 is the simplest
        int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
        bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 => false
        bool flip() { return draw(2) == 1; }
        bool exhausted() const;
        size_t weighted(const std::vector<unsigned>& w);
        template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
        void begin() { spanStart = used.size(); }
        void end();
        // True while another operation should be generated; starts the operation's span.
        bool more(unsigned count, unsigned limit, unsigned avg);   // at least one
        bool some(unsigned count, unsigned limit, unsigned avg);   // possibly none

    private:
        size_t spanStart = 0;
    };

    extern Src* Cur;             // current source (for logging helpers)
    void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void Mark(const char* label);            // classify the case
    void SetOpTags(uint64_t tags);           // properties that a crash from here on would break
    bool InShrink();

    [[noreturn]] void FailNow(uint64_t tags, const std::string& msg);
    std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

    struct Property
    {
        std::string id;
        uint64_t bit;                         // its tag bit
        std::function<void(Src&)> run;        // one case
        std::vector<std::string> nontrivial;  // labels; a case is non-trivial when it has all of them ('|' = any of)
        std::string rule;                     // the same in words
        uint64_t quickCases, thoroughCases;
    };

    int Main(int argc, char** argv, const std::vector<Property>& props);

    // Quotes control characters for logs.
    std::string Show(const std::string& s);
}

#define PBT_CHECK(tags, cond, ...) do { if (!(cond)) ::pbt::FailNow((tags), ::pbt::Fmt(__VA_ARGS__) + "  [" #cond "]"); } while (0)
