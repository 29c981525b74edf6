// P36: the library built for debugging behaves as the one built for release and reports type mismatches.
#include "pbt.h"
#include "dbg_ops.h"
#include <atomic>
#include <locale>
#include <iostream>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

using pbt::Src;

namespace
{
    const uint64_t B36 = 1ull << 36;

    int gFile = -1, gSaved = -1;
    off_t gPos = 0;
    std::string Take()
    {
        std::cout.flush();
        fflush(stdout);
        std::string out;
        char b[4096];
        ssize_t n;
        while ((n = pread(gFile, b, sizeof b, gPos)) > 0) { out.append(b, static_cast<std::size_t>(n)); gPos += n; }
        return out;
    }
    // Standard output and error go to a file of ours meanwhile.
    struct Capture
    {
        int err;
        Capture()
        {
            if (gFile < 0) gFile = memfd_create("out", 0);
            if (ftruncate(gFile, 0)) perror("ftruncate");
            lseek(gFile, 0, SEEK_SET);
            gPos = 0;
            std::cout.flush();
            fflush(stdout);
            gSaved = dup(1);
            err = dup(2);
            dup2(gFile, 1);
            dup2(gFile, 2);
        }
        ~Capture()
        {
            std::cout.flush();
            fflush(stdout);
            dup2(gSaved, 1);
            dup2(err, 2);
            close(gSaved);
            close(err);
        }
    };

    std::string Plain(const std::string& s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i)
            if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') ++i; }
            else r += s[i];
        return r;
    }
    const std::string Intro = "Internal error! ";

    // Splits what was printed into reports (from their first line to the line with the place) and the rest.
    void Split(const std::string& printed, std::vector<std::string>& reports, std::string& rest)
    {
        std::size_t i = 0;
        int in = 0;
        while (i < printed.size())
        {
            std::size_t e = printed.find('\n', i);
            e = e == std::string::npos ? printed.size() : e + 1;
            std::string line = printed.substr(i, e - i);
            i = e;
            std::size_t at = line.find(Intro);
            if (!in && at != std::string::npos) { rest += line.substr(0, at); reports.push_back(line.substr(at)); in = 2; }
            else if (in) { reports.back() += line; --in; }
            else rest += line;
        }
    }

    void DebugCheck(Src& s)
    {
        std::vector<DbgOp> ops;
        while (s.more(static_cast<unsigned>(ops.size()), 14, 5))
        {
            DbgOp o{ static_cast<int>(s.draw(DbgKinds)), static_cast<int>(s.draw(12)), static_cast<int>(s.draw(6)), static_cast<int>(s.draw(12)), s.chance(1, 3), s.flip() };
            pbt::Log("%s a=%d b=%d c=%d%s", DbgKindName[o.kind], o.a, o.b, o.c, o.onSet ? " on a set" : "");
            ops.push_back(o);
            s.end();
        }
        bool reports = s.chance(2, 5), thread = s.flip(), noise = s.chance(1, 4), grouped = s.chance(1, 4);
        // the streams the library makes for itself may not follow the program's locale
        struct Grouped : std::numpunct<char> { std::string do_grouping() const override { return "\1"; } char do_thousands_sep() const override { return '.'; } };
        struct Restore { std::locale old; ~Restore() { std::locale::global(old); } } restore;
        if (grouped) { std::locale::global(std::locale(std::locale::classic(), new Grouped)); pbt::Log("another global locale"); pbt::Mark("locale"); }
        std::atomic<bool> stop(false);
        std::string file = std::string(getenv("PBT_SCRATCH")) + "/dbg-" + std::to_string(getpid());
        pbt::SetOpTags(B36);
        std::vector<DbgOut> want, got;
        {
            Capture c;
            DbgDebugFormat(reports);
            auto go = [&]
            {
                want = DbgReleaseRun(ops, Take, file);
                got = DbgDebugRun(ops, Take, file);
            };
            std::thread other;
            if (noise) other = std::thread([&] { DbgDebugNoise(stop); });
            if (thread) { std::thread t(go); t.join(); }
            else go();
            stop = true;
            if (noise) other.join();
        }
        unlink(file.c_str());
        PBT_CHECK(B36, want.size() == got.size(), "another number of results");
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            const DbgOut &w = want[i], &g = got[i];
            const char* name = i < ops.size() ? DbgKindName[ops[i].kind] : "the final state";
            PBT_CHECK(B36, w.text == g.text, "%s: '%s' in a release build, '%s' in a debug build", name, pbt::Show(w.text).c_str(), pbt::Show(g.text).c_str());
            std::vector<std::string> rep;
            std::string rest;
            Split(Plain(g.printed), rep, rest);
            PBT_CHECK(B36, rest == Plain(w.printed), "%s prints '%s' in a release build, '%s' in a debug build", name, pbt::Show(w.printed).c_str(), pbt::Show(g.printed).c_str());
            if (!reports) { PBT_CHECK(B36, rep.empty(), "%s: a report is printed although reports are off: '%s'", name, pbt::Show(rep[0]).c_str()); continue; }
            if (w.place == 3) continue;
            if (w.place == 1) PBT_CHECK(B36, rep.empty() == !w.mismatch, "%s: %s", name, w.mismatch ? "no report of a type mismatch" : ("'" + pbt::Show(g.printed) + "' reported without type mismatch").c_str());
            else PBT_CHECK(B36, rep.size() == (w.mismatch ? 1 : 0), "%s: %zu reports of a %s: '%s'", name, rep.size(), w.mismatch ? "type mismatch" : "call without type mismatch", pbt::Show(g.printed).c_str());
            if (!w.mismatch) continue;
            pbt::Mark("reported");
            const std::string& x = rep[0];
            auto has = [&](const std::string& y) { return x.find(y) != std::string::npos; };
            PBT_CHECK(B36, has(w.code) && has("key: " + w.key + ".") && has("Requested type: " + w.requested + ".") && has("SavedType: " + w.saved + "."), "%s: the report does not describe the mismatch of '%s' (%s, %s): '%s'", name, w.key.c_str(), w.requested.c_str(), w.saved.c_str(), pbt::Show(x).c_str());
            PBT_CHECK(B36, has(std::string("\t") + g.fn + " from "), "%s: the report does not name the function: '%s'", name, pbt::Show(x).c_str());
            PBT_CHECK(B36, has("dbg_step.h:" + std::to_string(g.line) + "\n") || has("dbg_step.h:" + std::to_string(g.line) + " "), "%s: the report does not name the place of the call, line %d: '%s'", name, g.line, pbt::Show(x).c_str());
            if (w.place == 0) pbt::Mark("place");
        }
        if (ops.size() > 2) pbt::Mark("history");
    }
}

int main(int argc, char** argv)
{
    std::vector<pbt::Property> props;
    props.push_back({ "P36", B36, DebugCheck, { "history" }, "a history of at least three operations", 2000, 100000 });
    return pbt::Main(argc, argv, props);
}
