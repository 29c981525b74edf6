#include "pbt.h"
#include <dirent.h>
#include <cstdarg>
#include <cerrno>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace pbt
{
    Src* Cur = nullptr;
    static uint64_t gLabels = 0;
    static bool gShrink = false;

    static const int MaxLabels = 62;
    struct Slot { volatile uint64_t cur; volatile double started; volatile uint64_t opTags; volatile uint64_t done; };
    struct FailRec { uint64_t idx; uint64_t kind; uint64_t tags; char msg[600]; };
    struct Shared
    {
        volatile uint64_t stop;
        volatile uint64_t nFails;
        FailRec fails[64];
        volatile uint64_t foreign, discarded, foreignNoted;
        char foreignMsg[4][400];
        uint64_t labelCount[MaxLabels + 2];
        volatile uint64_t nLabels;
        char labelNames[MaxLabels][40];
        volatile int labelLock;
        Slot slots[64];
    };
    static const uint64_t TeeMax = 1 << 20;
    static uint64_t* gTee = nullptr;        // [0] = count, then the draws of the forked case (survives its crash)
    static uint64_t* gTeeSpans = nullptr;   // [0] = count, then start/end pairs
    static char* gTeeLog = nullptr;         // the trace of the forked case (survives its crash)
    static const size_t TeeLogMax = 1 << 18;
    static bool gTeeOn = false;
    static Shared* gShm = nullptr;
    static Slot* gSlot = nullptr;
    static uint64_t* gHashes = nullptr;   // per case: hash of choices; 0 = trivial / not run

    static double Now()
    {
        using namespace std::chrono;
        return duration<double>(steady_clock::now().time_since_epoch()).count();
    }

    static uint64_t Mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    uint64_t Src::next64() { state += 0x9e3779b97f4a7c15ull; return Mix(state); }

    uint64_t Src::draw(uint64_t n)
    {
        uint64_t v = 0;
        if (n == 0) n = 1;
        if (mode == Random)
            v = n == 1 ? 0 : next64() % n;
        else if (mode == Replay)
        {
            v = pos < choices.size() ? choices[pos] : 0;
            ++pos;
            if (v >= n) v = n - 1;
        }
        else
        {
            unsigned bytes = n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : 8;
            for (unsigned i = 0; i < bytes; ++i)
                v = (v << 8) | (pos < size ? data[pos++] : 0);
            v %= n;
        }
        used.push_back(v);
        if (gTeeOn && gTee[0] + 1 < TeeMax) { gTee[gTee[0] + 1] = v; ++gTee[0]; }
        return v;
    }

    void Src::end()
    {
        spans.emplace_back(static_cast<uint32_t>(spanStart), static_cast<uint32_t>(used.size()));
        if (gTeeOn && gTeeSpans[0] * 2 + 2 < TeeMax)
        {
            gTeeSpans[gTeeSpans[0] * 2 + 1] = spanStart;
            gTeeSpans[gTeeSpans[0] * 2 + 2] = used.size();
            ++gTeeSpans[0];
        }
    }

    bool Src::exhausted() const
    {
        if (mode == Replay) return pos >= choices.size();
        if (mode == Bytes) return pos >= size;
        return false;
    }

    size_t Src::weighted(const std::vector<unsigned>& w)
    {
        uint64_t total = 0;
        for (unsigned x : w) total += x;
        uint64_t v = draw(total);
        for (size_t i = 0; i < w.size(); ++i)
        {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return 0;
    }

    bool Src::more(unsigned count, unsigned limit, unsigned avg)
    {
        if (count >= limit || exhausted()) return false;
        begin();
        return draw(avg) != 0 || mode == Bytes || count == 0;   // geometric length; a 0 ends the sequence
    }

    bool Src::some(unsigned count, unsigned limit, unsigned avg)
    {
        if (count) return more(count, limit, avg);
        if (exhausted()) return false;
        begin();
        return draw(4 * avg) != 0;
    }

    std::string Fmt(const char* fmt, ...)
    {
        char buf[3000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        return buf;
    }

    void Log(const char* fmt, ...)
    {
        if (!Cur || !Cur->logging) return;
        char buf[3000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        Cur->log += buf;
        Cur->log += "\n";
        if (gTeeOn)
        {
            size_t have = strlen(gTeeLog), n = strlen(buf);
            if (have + n + 2 < TeeLogMax) { memcpy(gTeeLog + have, buf, n); memcpy(gTeeLog + have + n, "\n", 2); }
        }
    }

    void Mark(const char* label)
    {
        if (!gShm) return;
        uint64_t n = gShm->nLabels;
        for (uint64_t i = 0; i < n; ++i)
            if (!strcmp(gShm->labelNames[i], label)) { gLabels |= 1ull << i; return; }
        while (__sync_lock_test_and_set(&gShm->labelLock, 1)) {}
        n = gShm->nLabels;
        uint64_t i = 0;
        for (; i < n; ++i) if (!strcmp(gShm->labelNames[i], label)) break;
        if (i == n && n < MaxLabels)
        {
            strncpy(gShm->labelNames[n], label, 39);
            __sync_synchronize();
            gShm->nLabels = n + 1;
        }
        __sync_lock_release(&gShm->labelLock);
        if (i < MaxLabels) gLabels |= 1ull << i;
    }

    void SetOpTags(uint64_t tags) { if (gSlot) gSlot->opTags = tags; }
    bool InShrink() { return gShrink; }

    void FailNow(uint64_t tags, const std::string& msg) { throw Fail{tags, msg}; }

    std::string Show(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '\n') r += "\\n";
            else if (c == '\r') r += "\\r";
            else if (c == '\t') r += "\\t";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r;
    }

    // ---------------------------------------------------------------- running one case

    struct Outcome
    {
        enum Kind { Pass = 0, Failed = 1, Foreign = 2, Discarded = 3, Crash = 4, Hang = 5 } kind = Pass;
        uint64_t tags = 0;
        std::string msg;
        std::vector<uint64_t> used;
        std::vector<std::pair<uint32_t, uint32_t>> spans;
        std::string log;
    };

    static Outcome RunHere(const Property& p, Src& src)
    {
        Outcome o;
        Cur = &src;
        gLabels = 0;
        try { p.run(src); }
        catch (const Fail& f)
        {
            o.kind = (f.tags & p.bit) ? Outcome::Failed : Outcome::Foreign;
            o.tags = f.tags;
            o.msg = f.msg;
        }
        catch (const Discard&) { o.kind = Outcome::Discarded; }
        catch (const std::exception& e) { o.kind = Outcome::Failed; o.tags = p.bit; o.msg = std::string("exception escaped: ") + e.what(); }
        Cur = nullptr;
        return o;
    }

    static std::string gErrFile;

    static std::string CrashSummary()
    {
        std::ifstream f(gErrFile);
        std::string line, first, sum;
        std::vector<std::string> frames;
        while (std::getline(f, line))
        {
            if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos ||
                line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("terminate called") != std::string::npos || line.find("SCHED ERROR") != std::string::npos)
                if (first.empty()) first = line;
            if (line.find("SUMMARY:") != std::string::npos) sum = line;
            if (line.find("    #") == 0 && line.find("/repo/Source") != std::string::npos && frames.size() < 3)
                frames.push_back(line.substr(0, 160));
        }
        std::string r = first.substr(0, 220);
        if (!sum.empty()) r += " | " + sum.substr(0, 220);
        for (auto& fr : frames) r += " | " + fr;
        return r;
    }

    static void Redirect(const std::string& err)
    {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
        int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (e >= 0) { dup2(e, 2); close(e); }
    }

    static void WriteAll(int fd, const void* p, size_t n)
    {
        const char* c = static_cast<const char*>(p);
        while (n)
        {
            ssize_t k = write(fd, c, n);
            if (k <= 0) return;
            c += k;
            n -= static_cast<size_t>(k);
        }
    }

    // Runs one case in a fresh process.
    static Outcome RunForked(const Property& p, Src src, double timeout, bool shrink, bool log)
    {
        int pfd[2];
        Outcome o;
        if (pipe(pfd)) { o.kind = Outcome::Discarded; return o; }
        Slot* slot = &gShm->slots[63];
        slot->opTags = 0;
        gTee[0] = 0;
        gTeeSpans[0] = 0;
        gTeeLog[0] = 0;
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(pfd[0]);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Redirect(gErrFile);
            gSlot = slot;
            gTeeOn = true;
            gShrink = shrink;
            src.logging = log;
            Outcome r = RunHere(p, src);
            std::vector<uint64_t> head = {r.kind, r.tags, r.msg.size(), src.used.size(), src.spans.size(), src.log.size()};
            WriteAll(pfd[1], head.data(), head.size() * 8);
            WriteAll(pfd[1], r.msg.data(), r.msg.size());
            WriteAll(pfd[1], src.used.data(), src.used.size() * 8);
            WriteAll(pfd[1], src.spans.data(), src.spans.size() * 8);
            WriteAll(pfd[1], src.log.data(), src.log.size());
            close(pfd[1]);
            _exit(0);
        }
        close(pfd[1]);
        std::string buf;
        double t0 = Now();
        bool hang = false;
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        for (;;)
        {
            char tmp[65536];
            ssize_t k = read(pfd[0], tmp, sizeof tmp);
            if (k > 0) { buf.append(tmp, static_cast<size_t>(k)); continue; }
            if (k == 0) break;
            if (errno != EAGAIN && errno != EINTR) break;
            if (Now() - t0 > timeout) { hang = true; break; }
            usleep(300);
        }
        if (hang) kill(pid, SIGKILL);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        close(pfd[0]);
        if (buf.size() >= 48)
        {
            uint64_t head[6];
            memcpy(head, buf.data(), 48);
            size_t need = 48 + head[2] + head[3] * 8 + head[4] * 8 + head[5];
            if (buf.size() >= need)
            {
                o.kind = static_cast<Outcome::Kind>(head[0]);
                o.tags = head[1];
                const char* c = buf.data() + 48;
                o.msg.assign(c, head[2]); c += head[2];
                o.used.resize(head[3]); if (head[3]) memcpy(o.used.data(), c, head[3] * 8); c += head[3] * 8;
                o.spans.resize(head[4]); if (head[4]) memcpy(static_cast<void*>(o.spans.data()), c, head[4] * 8); c += head[4] * 8;
                o.log.assign(c, head[5]);
                return o;
            }
        }
        o.tags = slot->opTags;
        if (hang) { o.kind = Outcome::Hang; o.msg = "no termination: the case did not finish"; }
        else
        {
            o.kind = Outcome::Crash;
            o.msg = WIFSIGNALED(st) ? Fmt("process died with signal %d; ", WTERMSIG(st)) : Fmt("process exited with status %d; ", WEXITSTATUS(st));
            o.msg += CrashSummary();
        }
        if (!(o.tags & p.bit)) o.kind = Outcome::Foreign;
        o.log = gTeeLog;
        o.used.assign(gTee + 1, gTee + 1 + gTee[0]);
        for (uint64_t i = 0; i < gTeeSpans[0]; ++i)
            o.spans.emplace_back(static_cast<uint32_t>(gTeeSpans[i * 2 + 1]), static_cast<uint32_t>(gTeeSpans[i * 2 + 2]));
        return o;
    }

    static bool IsBad(const Outcome& o) { return o.kind == Outcome::Failed || o.kind == Outcome::Crash || o.kind == Outcome::Hang; }

    static Src ReplaySrc(const std::vector<uint64_t>& c)
    {
        Src s;
        s.mode = Src::Replay;
        s.choices = c;
        return s;
    }

    static uint64_t CaseSeed(const Property& p, uint64_t seed, uint64_t idx)
    {
        uint64_t h = Mix(seed * 0x100000001b3ull + 17);
        for (char c : p.id) h = Mix(h ^ static_cast<unsigned char>(c));
        return Mix(h ^ Mix(idx + 1));
    }

    struct Shrinker
    {
        const Property& p;
        double deadline, timeout;
        uint64_t trials = 0;
        std::vector<uint64_t> best;
        std::vector<std::pair<uint32_t, uint32_t>> spans;
        Outcome bestOut;

        bool Try(const std::vector<uint64_t>& c)
        {
            if (Now() > deadline) return false;
            ++trials;
            Outcome o = RunForked(p, ReplaySrc(c), timeout, true, false);
            if (!IsBad(o)) return false;
            std::vector<uint64_t> canon = o.used;
            // zeros at the end are implied
            while (!canon.empty() && canon.back() == 0) canon.pop_back();
            if (canon.size() > best.size() || (canon.size() == best.size() && !(canon < best))) return false;
            best = canon;
            spans = o.spans;
            bestOut = o;
            return true;
        }

        void Run()
        {
            bool progress = true;
            while (progress && Now() < deadline)
            {
                progress = false;
                // whole operations, last first, in shrinking groups
                for (size_t group = std::max<size_t>(1, spans.size() / 2); group >= 1 && Now() < deadline; group /= 2)
                {
                    for (size_t e = spans.size(); e > 0 && Now() < deadline;)
                    {
                        size_t b = e > group ? e - group : 0;
                        std::vector<uint64_t> c = best;
                        size_t from = spans[b].first, to = std::min<size_t>(spans[e - 1].second, c.size());
                        if (from < to)
                        {
                            c.erase(c.begin() + static_cast<long>(from), c.begin() + static_cast<long>(to));
                            if (Try(c)) { progress = true; e = std::min(b, spans.size()); continue; }
                        }
                        e = b;
                    }
                    if (group == 1) break;
                }
                // blocks of choices
                for (size_t len : {64, 16, 8, 4, 2, 1})
                {
                    for (size_t i = best.size(); i > 0 && Now() < deadline;)
                    {
                        size_t b = i > len ? i - len : 0;
                        std::vector<uint64_t> c = best;
                        c.erase(c.begin() + static_cast<long>(b), c.begin() + static_cast<long>(std::min(i, c.size())));
                        if (Try(c)) { progress = true; i = std::min(b, best.size()); continue; }
                        i = b;
                    }
                }
                // smaller values
                for (size_t i = 0; i < best.size() && Now() < deadline; ++i)
                {
                    if (best[i] == 0) continue;
                    std::vector<uint64_t> c = best;
                    c[i] = 0;
                    if (Try(c)) { progress = true; continue; }
                    uint64_t lo = 0;
                    while (i < best.size() && best[i] > lo + 1 && Now() < deadline)
                    {
                        uint64_t mid = lo + (best[i] - lo) / 2;
                        c = best;
                        c[i] = mid;
                        if (Try(c)) progress = true;
                        else lo = mid;
                    }
                }
            }
        }
    };

    static std::string JsonStr(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"') r += "\\\"";
            else if (c == '\\') r += "\\\\";
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += static_cast<char>(c);
        }
        return r + "\"";
    }

    static bool HasRule(const Property& p, uint64_t labels)
    {
        for (const std::string& need : p.nontrivial)
        {
            bool ok = false;
            std::stringstream ss(need);
            std::string one;
            while (std::getline(ss, one, '|'))
                for (uint64_t i = 0; i < gShm->nLabels; ++i)
                    if (((labels >> i) & 1) && one == gShm->labelNames[i]) ok = true;
            if (!ok) return false;
        }
        return true;
    }

    static uint64_t HashChoices(const std::vector<uint64_t>& v)
    {
        uint64_t h = 1469598103934665603ull;
        for (uint64_t x : v) h = Mix(h ^ x);
        return h ? h : 1;
    }

    static void RecordFail(uint64_t idx, uint64_t kind, uint64_t tags, const std::string& msg)
    {
        uint64_t k = __sync_fetch_and_add(&gShm->nFails, 1);
        if (k < 64)
        {
            gShm->fails[k].kind = kind;
            gShm->fails[k].tags = tags;
            strncpy(gShm->fails[k].msg, msg.c_str(), sizeof gShm->fails[k].msg - 1);
            __sync_synchronize();
            gShm->fails[k].idx = idx + 1;
        }
        if (k + 1 >= 5) gShm->stop = 1;
    }

    static void Worker(const Property& p, uint64_t seed, uint64_t first, uint64_t stride, uint64_t total, int slotNo, const std::string& err)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Redirect(err);
        gSlot = &gShm->slots[slotNo];
        for (uint64_t idx = first; idx < total && !gShm->stop; idx += stride)
        {
            gSlot->opTags = 0;
            gSlot->started = Now();
            gSlot->cur = idx + 1;
            Src src;
            src.state = CaseSeed(p, seed, idx);
            Outcome o = RunHere(p, src);
            if (o.kind == Outcome::Failed) RecordFail(idx, o.kind, o.tags, o.msg);
            if (o.kind == Outcome::Foreign)
            {
                __sync_fetch_and_add(&gShm->foreign, 1);
                uint64_t k = __sync_fetch_and_add(&gShm->foreignNoted, 1);
                if (k < 4) strncpy(gShm->foreignMsg[k], o.msg.c_str(), 399);
            }
            if (o.kind == Outcome::Discarded) __sync_fetch_and_add(&gShm->discarded, 1);
            if (o.kind == Outcome::Pass || o.kind == Outcome::Failed)
            {
                if (HasRule(p, gLabels)) gHashes[idx] = HashChoices(src.used);
                for (int i = 0; i < MaxLabels; ++i) if ((gLabels >> i) & 1) __sync_fetch_and_add(&gShm->labelCount[i], 1);
            }
            gSlot->done = gSlot->done + 1;
        }
        gSlot->cur = 0;
        _exit(0);
    }

    static std::string SourceLine(const std::vector<uint64_t>& c)
    {
        std::string r;
        for (uint64_t x : c) r += std::to_string(x) + " ";
        return r;
    }

    int Main(int argc, char** argv, const std::vector<Property>& props)
    {
        // Fixed addresses make pointer-keyed containers iterate in the same order on every run.
        if (!getenv("PBT_NO_REEXEC"))
        {
            setenv("PBT_NO_REEXEC", "1", 1);
            int cur = personality(0xffffffff);
            if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) != -1)
                execv("/proc/self/exe", argv);
        }
        std::string prop, replay, out = ".", seedS = "1";
        uint64_t cases = 0, workers = 8;
        bool thorough = false;
        double shrinkBudget = 40, caseTimeout = 60, timeBudget = 1e9;
        bool verbose = false;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--prop") prop = val();
            else if (a == "--seed") seedS = val();
            else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--workers") workers = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--out") out = val();
            else if (a == "--replay") replay = val();
            else if (a == "--thorough") thorough = true;
            else if (a == "--shrink") shrinkBudget = atof(val().c_str());
            else if (a == "--case-timeout") caseTimeout = atof(val().c_str());
            else if (a == "--budget") timeBudget = atof(val().c_str());
            else if (a == "--verbose") verbose = true;
            else if (a == "--list") { for (auto& p : props) printf("%s\n", p.id.c_str()); return 0; }
        }
        const Property* p = nullptr;
        for (auto& q : props) if (q.id == prop) p = &q;
        if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
        uint64_t seed = strtoull(seedS.c_str(), nullptr, 10);
        if (cases == 0) cases = thorough ? p->thoroughCases : p->quickCases;
        if (workers > 60) workers = 60;

        gShm = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        gHashes = static_cast<uint64_t*>(mmap(nullptr, (cases + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        gTee = static_cast<uint64_t*>(mmap(nullptr, TeeMax * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        gTeeSpans = static_cast<uint64_t*>(mmap(nullptr, TeeMax * 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        gTeeLog = static_cast<char*>(mmap(nullptr, TeeLogMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (gTeeLog == MAP_FAILED || gTee == MAP_FAILED || gTeeSpans == MAP_FAILED || gShm == MAP_FAILED || gHashes == MAP_FAILED) { perror("mmap"); return 3; }
        char tmpl[] = "/tmp/pbtXXXXXX";
        std::string scratch = mkdtemp(tmpl);
        gErrFile = scratch + "/err";
        setenv("PBT_SCRATCH", scratch.c_str(), 1);      // cases keep their files here
        auto cleanup = [&]()
        {
            if (DIR* d = opendir(scratch.c_str()))
            {
                while (dirent* e = readdir(d))
                    if (e->d_name[0] != '.') unlink((scratch + "/" + e->d_name).c_str());
                closedir(d);
            }
            rmdir(scratch.c_str());
        };

        if (!replay.empty())
        {
            std::ifstream f(replay);
            std::string line;
            std::vector<uint64_t> c;
            while (std::getline(f, line))
                if (line.compare(0, 8, "choices:") == 0)
                {
                    std::stringstream ss(line.substr(8));
                    uint64_t v;
                    while (ss >> v) c.push_back(v);
                }
            Outcome o = RunForked(*p, ReplaySrc(c), caseTimeout, false, true);
            if (!o.log.empty()) printf("%s", o.log.c_str());
            cleanup();
            if (IsBad(o))
            {
                printf("REPRODUCED: %s\n", o.msg.c_str());
                return 1;
            }
            printf("NOT REPRODUCED (outcome %d %s)\n", o.kind, o.msg.c_str());
            return 0;
        }

        double t0 = Now();
        std::vector<pid_t> pids(workers);
        std::vector<uint64_t> crashes(workers);
        auto spawn = [&](uint64_t w, uint64_t first)
        {
            fflush(stdout);
            gShm->slots[w].cur = 0;
            gShm->slots[w].started = Now();
            pid_t pid = fork();
            if (pid == 0) Worker(*p, seed, first, workers, cases, static_cast<int>(w), scratch + "/w" + std::to_string(w));
            pids[w] = pid;
        };
        for (uint64_t w = 0; w < workers; ++w) spawn(w, w);
        uint64_t totalCrashes = 0;
        bool budgetHit = false;
        for (;;)
        {
            bool any = false;
            for (uint64_t w = 0; w < workers; ++w)
            {
                if (!pids[w]) continue;
                any = true;
                int st = 0;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                Slot& s = gShm->slots[w];
                uint64_t hung = 0;
                if (r == 0)
                {
                    if (s.cur && Now() - s.started > caseTimeout)
                    {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &st, 0);
                        hung = 1;
                    }
                    else continue;
                }
                pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !hung) continue;
                uint64_t idx = s.cur;
                if (idx == 0) continue;
                --idx;
                if (s.opTags & p->bit)
                {
                    gErrFile = scratch + "/w" + std::to_string(w);
                    std::string sum = CrashSummary();
                    gErrFile = scratch + "/err";
                    RecordFail(idx, hung ? Outcome::Hang : Outcome::Crash, s.opTags, hung ? "hang" : sum);
                }
                else __sync_fetch_and_add(&gShm->foreign, 1);
                if (++totalCrashes > 400) gShm->stop = 1;
                if (!gShm->stop && idx + workers < cases) spawn(w, idx + workers);
            }
            if (!any) break;
            if (Now() - t0 > timeBudget) { gShm->stop = 1; budgetHit = true; }
            usleep(2000);
        }

        uint64_t evaluations = 0;
        for (uint64_t w = 0; w < workers; ++w) evaluations += gShm->slots[w].done;
        std::unordered_set<uint64_t> distinct;
        std::vector<uint64_t> sampleIdx;
        for (uint64_t i = 0; i < cases; ++i)
            if (gHashes[i] && distinct.insert(gHashes[i]).second && sampleIdx.size() < 4) sampleIdx.push_back(i);

        // ---- candidates
        int violations = 0;
        std::string replayPath, vmsg;
        uint64_t nf = std::min<uint64_t>(static_cast<uint64_t>(gShm->nFails), 64);
        uint64_t unreproduced = 0;
        for (uint64_t k = 0; k < nf && !violations && k < 12; ++k)
        {
            uint64_t idx = gShm->fails[k].idx;
            if (!idx) continue;
            --idx;
            Src s;
            s.state = CaseSeed(*p, seed, idx);
            int hits = 0, runs = 0;
            Outcome first;
            for (; runs < 10 && hits < 3; ++runs)
            {
                Outcome o = RunForked(*p, s, caseTimeout, false, false);
                if (IsBad(o))
                {
                    ++hits;
                    first = o;
                }
            }
            if (hits < 3)
            {
                ++unreproduced;
                fprintf(stderr, "candidate case %llu not reproduced (%d of %d): %s\n", (unsigned long long)idx, hits, runs, gShm->fails[k].msg);
                continue;
            }
            // Turn it into a choice list.
            std::vector<uint64_t> choices = first.used;
            Shrinker sh{*p, Now() + shrinkBudget, first.kind == Outcome::Hang ? 15.0 : caseTimeout, 0, choices, first.spans, first};
            if (first.kind != Outcome::Hang) sh.Run();
            int again = 0;
            for (int r = 0; r < 3; ++r) if (IsBad(RunForked(*p, ReplaySrc(sh.best), caseTimeout, false, false))) ++again;
            std::vector<uint64_t> fin = again == 3 ? sh.best : choices;
            Outcome o = RunForked(*p, ReplaySrc(fin), caseTimeout, false, true);
            violations = 1;
            vmsg = o.msg.empty() ? first.msg : o.msg;
            replayPath = out + "/" + p->id + ".replay";
            std::ofstream f(replayPath);
            f << "property: " << p->id << "\nseed: " << seed << "\ncase: " << idx << "\nfailure: " << vmsg << "\nshrink trials: " << sh.trials << "\nchoices: " << SourceLine(fin) << "\n--- trace of the minimal case ---\n" << o.log;
            f.close();
            printf("%s\n%s\n", o.log.c_str(), vmsg.c_str());
        }

        // ---- evidence
        std::string ev = out + "/" + p->id + ".run.json";
        std::ofstream f(ev);
        f << "{\"evaluations\": " << evaluations << ", \"distinct_nontrivial\": " << distinct.size() << ", \"rule\": " << JsonStr(p->rule) << ",\n \"samples\": [";
        for (size_t i = 0; i < sampleIdx.size(); ++i)
        {
            Src s;
            s.state = CaseSeed(*p, seed, sampleIdx[i]);
            Outcome o = RunForked(*p, s, caseTimeout, false, true);
            std::string l = o.log.substr(0, 1800);
            f << (i ? ",\n  " : "\n  ") << JsonStr(Fmt("case %llu: ", (unsigned long long)sampleIdx[i]) + l);
        }
        f << "],\n \"labels\": {";
        for (uint64_t i = 0; i < gShm->nLabels; ++i)
            f << (i ? ", " : "") << JsonStr(gShm->labelNames[i]) << ": " << gShm->labelCount[i];
        f << "},\n \"other_property_stops\": " << gShm->foreign << ", \"discarded\": " << gShm->discarded << ", \"unreproduced\": " << unreproduced
          << ", \"budget_hit\": " << (budgetHit ? "true" : "false") << ", \"violations\": " << violations << ", \"planned\": " << cases << "}\n";
        f.close();
        cleanup();
        printf("%s: %llu cases, %zu distinct non-trivial, %llu stopped by another property's assertion, %llu discarded, %.1f s\n", p->id.c_str(),
            (unsigned long long)evaluations, distinct.size(), (unsigned long long)gShm->foreign, (unsigned long long)gShm->discarded, Now() - t0);
        if (verbose || getenv("PBT_VERBOSE"))
        {
            for (uint64_t i = 0; i < gShm->nLabels; ++i) printf("  %-32s %llu\n", gShm->labelNames[i], (unsigned long long)gShm->labelCount[i]);
            for (uint64_t i = 0; i < 4 && i < gShm->foreignNoted; ++i) printf("  other: %s\n", gShm->foreignMsg[i]);
        }
        if (violations)
        {
            printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), replayPath.c_str());
            return 1;
        }
        return 0;
    }
}
