// P41: what saving and loading do to files, directories and open file descriptors besides the file's content.
#include "table.h"
#include "props.h"
#include <csignal>
#include <dirent.h>
#include <map>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

using pbt::Src;

namespace
{
    std::size_t OpenFiles()
    {
        std::size_t n = 0;
        DIR* d = opendir("/proc/self/fd");
        if (!d) return 0;
        while (readdir(d)) ++n;
        closedir(d);
        return n;
    }

    struct Meta
    {
        bool there;
        struct stat st;
        explicit Meta(const std::string& name) { there = stat(name.c_str(), &st) == 0; }
        bool operator==(const Meta& o) const
        {
            if (!there || !o.there) return there == o.there;
            return st.st_ino == o.st.st_ino && st.st_mode == o.st.st_mode && st.st_nlink == o.st.st_nlink && st.st_size == o.st.st_size
                && st.st_mtim.tv_sec == o.st.st_mtim.tv_sec && st.st_mtim.tv_nsec == o.st.st_mtim.tv_nsec;
        }
    };

    struct Limit
    {
        rlimit old;
        bool on;
        Limit(bool o, rlim_t n) : on(o)
        {
            if (!on) return;
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            rlimit r = old;
            r.rlim_cur = n;
            setrlimit(RLIMIT_FSIZE, &r);
        }
        ~Limit() { if (on) setrlimit(RLIMIT_FSIZE, &old); }
    };
}

void FilesLeft(Src& s)
{
    const uint64_t tag = P(41);
    pbt::SetOpTags(tag);
    Table t;
    GenColumns(s, t, 3, false, s.chance(1, 4));
    mvlt::Vault v, w;
    MakeVault(t, Iota(t.cols.size()), v);
    MakeVault(t, Iota(t.cols.size()), w);
    std::vector<Ref> refs;
    for (uint64_t n = s.draw(5); n > 0; --n) { s.begin(); GenRow(s, t, &refs, v); s.end(); }
    mvlt::VaultRecordSet set;
    v.RequestEqual("no such key", 0, set);
    for (auto& r : refs) if (s.flip()) set.AddRecord(r);

    const std::string dir = ScratchFile("files");
    auto clean = [&]()
    {
        if (DIR* d = opendir(dir.c_str()))
        {
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { std::string x = dir + "/" + e->d_name; if (unlink(x.c_str()) != 0) rmdir(x.c_str()); }
            closedir(d);
        }
        rmdir(dir.c_str());
    };
    clean();
    mkdir(dir.c_str(), 0700);
    struct Cleaner { std::function<void()> f; ~Cleaner() { f(); } } cleaner{ clean };
    const std::string aside = ScratchFile("aside");
    const std::vector<std::string> names = { "a", "b.csv", "a.tmp", "with space" };
    std::map<std::string, std::string> files;       // what the directory holds
    for (auto& n : names) if (s.chance(1, 3))
    {
        files[n] = s.flip() ? std::string(s.chance(1, 16) ? 70000 : 1 + s.draw(300), 'x') : "A,B\n1,2\n\"open";
        WriteFile(dir + "/" + n, files[n]);
    }
    const std::size_t before = OpenFiles();
    std::unique_ptr<mvlt::CsvParser> parser;
    std::unique_ptr<mvlt::StreamFileReader> reader;
    bool parserUsed = false, readerUsed = false;

    auto check = [&](const char* what, const std::string& maybe)
    {
        std::map<std::string, std::string> got;
        DIR* d = opendir(dir.c_str());
        PBT_CHECK(tag, d, "the directory is gone after %s", what);
        while (dirent* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n != "." && n != "..") got[n];
        }
        closedir(d);
        for (auto& x : got) PBT_CHECK(tag, files.count(x.first) || x.first == maybe, "after %s there is a file '%s'", what, x.first.c_str());
        for (auto& x : files)
        {
            if (x.first == maybe) continue;
            PBT_CHECK(tag, got.count(x.first), "after %s the file '%s' is gone", what, x.first.c_str());
            std::string c = ReadWhole(dir + "/" + x.first);
            PBT_CHECK(tag, c == x.second, "after %s the file '%s' is '%s', expected '%s'", what, x.first.c_str(), pbt::Show(c).c_str(), pbt::Show(x.second).c_str());
        }
        // a failed save may leave a part of the file
        if (!maybe.empty())
        {
            if (got.count(maybe)) files[maybe] = ReadWhole(dir + "/" + maybe);
            else files.erase(maybe);
        }
        std::size_t now = OpenFiles(), most = before + (parserUsed ? 1 : 0) + (readerUsed ? 1 : 0);
        PBT_CHECK(tag, now >= before && now <= most, "after %s %zu files are open, %zu were, and %zu readers are in use", what, now, before, most - before);
    };
    check("nothing", "");

    for (unsigned step = 0; s.more(step, 25, 8); ++step)
    {
        s.begin();
        std::string n = s.pick(names), path = dir + "/" + n;
        Meta m(path);
        bool there = files.count(n) != 0;
        switch (s.weighted({6, 4, 3, 3, 2, 2, 2, 2, 1, 1}))
        {
        case 0:
        case 1:
        {
            bool fromSet = s.chance(1, 3), header = s.flip();
            std::string sep = s.chance(1, 3) ? ";" : ",";
            auto save = [&](const std::string& x) { return fromSet ? set.SaveToFile(x, {}, sep, header) : v.SaveToFile(x, {}, sep, header); };
            PBT_CHECK(tag, save(aside), "saving fails");
            std::string want = ReadWhole(aside);
            unlink(aside.c_str());
            bool limited = s.chance(1, 5);
            std::size_t room = s.draw(want.size() + 2);
            bool ok;
            {
                Limit l(limited, room);
                ok = save(path);
            }
            pbt::Log("save %s to '%s'%s: %d", fromSet ? "the set" : "the vault", n.c_str(), limited ? " with little room" : "", ok);
            if (ok) files[n] = want;
            if (!limited) PBT_CHECK(tag, ok, "saving fails");
            check("saving", ok ? "" : n);
            if (there) pbt::Mark("saved-over");
            pbt::Mark(ok ? "saved" : "save-cut");
            break;
        }
        case 2:
        {
            bool ok = w.ReadFile(path, s.chance(1, 3) ? ';' : ',', s.flip());
            pbt::Log("load '%s': %d", n.c_str(), ok);
            PBT_CHECK(tag, ok == there, "loading %s file returns %d", there ? "a" : "no", ok);
            PBT_CHECK(tag, Meta(path) == m, "loading changed the file's attributes");
            check("loading", "");
            pbt::Mark(ok ? "loaded" : "load-failed");
            break;
        }
        case 3:
        {
            // the handler may load and save by itself
            std::string other = s.pick(names), opath = dir + "/" + other;
            uint64_t what = other == n ? 0 : s.draw(3);
            bool done = false, saved = false;
            std::string want;
            if (what == 2) { v.SaveToFile(aside); want = ReadWhole(aside); unlink(aside.c_str()); }
            bool ok = w.ReadFile(path, ',', std::function<void(const std::vector<std::string>&, std::vector<std::string>&)>([&](const std::vector<std::string>&, std::vector<std::string>&)
            {
                if (done) return;
                done = true;
                if (what == 1) { mvlt::Vault x; x.ReadFile(opath); }
                if (what == 2) saved = v.SaveToFile(opath);
            }));
            pbt::Log("load '%s' with a handler that %s '%s': %d", n.c_str(), what == 0 ? "ignores" : what == 1 ? "loads" : "saves", other.c_str(), ok);
            if (saved) files[other] = want;
            PBT_CHECK(tag, ok == there && Meta(path) == m, "loading %s file with a handler returns %d or changes the file", there ? "a" : "no", ok);
            check("loading with a handler", "");
            pbt::Mark("handler");
            break;
        }
        case 4:
        {
            uint64_t what = s.draw(3);
            std::string bad = what == 0 ? dir : what == 1 ? dir + "/none/x" : dir + "/none";
            bool save = s.flip() && what != 2;
            bool ok = save ? (s.flip() ? v.SaveToFile(bad) : set.SaveToFile(bad)) : w.ReadFile(bad);
            pbt::Log("%s '%s'", save ? "save to" : "load", bad.substr(dir.size()).c_str());
            PBT_CHECK(tag, !ok, "an impossible name works");
            check("an impossible name", "");
            pbt::Mark("impossible");
            break;
        }
        case 5:
        case 6:
        {
            if (!parser) parser.reset(new mvlt::CsvParser);
            bool ok = parser->OpenFile(path);
            parserUsed = ok;
            std::vector<std::string> rec;
            if (ok) for (uint64_t k = s.draw(5); k > 0; --k) parser->GetNextVector(rec, ',');
            pbt::Log("parse '%s': %d", n.c_str(), ok);
            PBT_CHECK(tag, ok == there && Meta(path) == m, "opening %s file returns %d or changes the file", there ? "a" : "no", ok);
            check("parsing", "");
            pbt::Mark("parsed");
            break;
        }
        case 7:
        {
            if (!reader) reader.reset(new mvlt::StreamFileReader);
            bool ok = reader->Open(path);
            readerUsed = ok;
            for (uint64_t k = s.draw(40); ok && k > 0; --k) reader->Move();
            if (s.flip()) { reader->Close(); readerUsed = false; }
            pbt::Log("read '%s': %d", n.c_str(), ok);
            PBT_CHECK(tag, ok == there && Meta(path) == m, "opening %s file returns %d or changes the file", there ? "a" : "no", ok);
            check("reading", "");
            pbt::Mark("read");
            break;
        }
        case 8:
            parser.reset();
            parserUsed = false;
            pbt::Log("the parser is destroyed");
            check("destroying the parser", "");
            break;
        case 9:
            reader.reset();
            readerUsed = false;
            pbt::Log("the reader is destroyed");
            check("destroying the reader", "");
            break;
        }
        s.end();
    }
    parser.reset();
    reader.reset();
    parserUsed = readerUsed = false;
    check("everything", "");
}
