// P28 read/write mutexes and P29 concurrent use of a vault, both under generated schedules of real threads.
#include "pbt.h"
#include "sched_rt.h"
#include "MVault.h"
#include <iostream>
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>

using namespace mvlt;
using pbt::Src;

namespace
{
    const uint64_t B28 = 1ull << 28, B29 = 1ull << 29;

    // Draws the schedule from the case.
    struct CasePolicy : sched::Policy
    {
        Src& s;
        unsigned kind, switches, spurious_, picks = 0, single = 0;
        CasePolicy(Src& src, unsigned maxSwitches) : s(src)
        {
            kind = static_cast<unsigned>(s.draw(4));
            switches = maxSwitches;
            spurious_ = s.flip() ? 3 : 0;
        }
        unsigned gap() override
        {
            if (!switches) return 0;
            --switches;
            if (single)
            {
                // one thread is stopped somewhere in its operation and another runs, most of the time to its end
                static const unsigned lim[4] = { 6, 20, 60, 1500 };
                unsigned k = lim[s.draw(single)];
                return 1 + static_cast<unsigned>(s.draw(k));
            }
            switch (kind)
            {
            case 0: return static_cast<unsigned>(s.draw(3000));
            case 1: return static_cast<unsigned>(s.draw(12));
            case 2: return static_cast<unsigned>(s.draw(150));
            default: { static const unsigned lim[4] = { 8, 60, 500, 4000 }; unsigned k = lim[s.draw(4)]; return static_cast<unsigned>(s.draw(k)); }
            }
        }
        unsigned pick(unsigned n) override
        {
            if (picks > 400) return picks++ % n;
            ++picks;
            return static_cast<unsigned>(s.draw(n));
        }
        bool spurious() override
        {
            if (!spurious_ || !s.chance(1, 3)) return false;
            --spurious_;
            return true;
        }
    };

    void CheckSchedule(uint64_t bit)
    {
        if (const char* e = sched::Error()) pbt::FailNow(bit, e);
    }

    // ================================================================ P28
    struct Block { int m; bool write, guard; int steps; std::vector<Block> inner; };

    struct LockCase
    {
        bool recursive;
        int nMutex, nThreads;
        std::vector<Block> prog[sched::MaxThreads];
        bool off[3];                                    // disabled before the threads start: blocks nobody
        ReadWriteMutex* plain[3];
        RecursiveReadWriteMutex* rec[3];
        long* data;                                     // one counter per mutex, protected by it
        // monitor
        char hold[sched::MaxThreads][3];                // 0, 'r', 'w'
        int depthW[sched::MaxThreads][3], depthR[sched::MaxThreads][3];
        int pending[sched::MaxThreads];                 // mutex a thread has called WriteLock on, -1 none
        uint64_t call[sched::MaxThreads];
        std::string bad;
        bool contended = false, admittedBoth = false, upgraded = false, nested = false, disabled = false;
    };
    LockCase* L;

    void Wrong(const std::string& m) { if (L->bad.empty()) L->bad = m; }

    void Entered(int t, int m, bool write)
    {
        for (int o = 0; o < L->nThreads; ++o)
        {
            if (o == t || !L->hold[o][m]) continue;
            if (write || L->hold[o][m] == 'w')
                Wrong(pbt::Fmt("thread %d got the %s lock of mutex %d while thread %d holds its %s lock", t, write ? "write" : "read", m, o, L->hold[o][m] == 'w' ? "write" : "read"));
            else L->admittedBoth = true;
        }
        L->hold[t][m] = write ? 'w' : 'r';
    }

    void RunBlocks(int t, const std::vector<Block>& blocks);

    void Inner(int t, const Block& b)
    {
        for (int k = 0; k < b.steps; ++k)
        {
            long v = L->data[b.m];
            bool w;
            { sched::Out o; w = L->depthW[t][b.m] > 0; }
            if (w) L->data[b.m] = v + 1;
        }
        RunBlocks(t, b.inner);
    }

    template <class M> void RunBlock(int t, const Block& b, M& mx)
    {
        if (L->off[b.m])
        {
            if (b.guard && b.write) { WriteLock<M> lock(mx); RunBlocks(t, b.inner); }
            else if (b.guard) { ReadLock<M> lock(mx); RunBlocks(t, b.inner); }
            else if (b.write) { mx.WriteLock(); RunBlocks(t, b.inner); mx.WriteUnlock(); }
            else { mx.ReadLock(); RunBlocks(t, b.inner); mx.ReadUnlock(); }
            return;
        }
        uint64_t waiting[sched::MaxThreads];
        bool newRead = false;
        {
            sched::Out o;
            for (int k = 0; k < L->nThreads; ++k)
            {
                waiting[k] = 0;
                if (k != t && L->pending[k] == b.m && sched::WaitsForNotification(k))
                {
                    bool writer = false;
                    for (int j = 0; j < L->nThreads; ++j) writer = writer || L->hold[j][b.m] == 'w';
                    if (!writer) waiting[k] = L->call[k];
                }
                if (k != t && (L->hold[k][b.m] == 'w' || (b.write && L->hold[k][b.m]))) L->contended = true;
            }
            newRead = !b.write && !L->hold[t][b.m];
            if (L->hold[t][b.m]) L->nested = true;
            if (b.write && !L->depthW[t][b.m])
            {
                if (L->hold[t][b.m]) L->upgraded = true;
                L->hold[t][b.m] = 0;                     // upgrading gives up the read lock
                L->pending[t] = b.m;
                L->call[t] = sched::Stamp();
            }
        }
        auto got = [&]
        {
            sched::Out o;
            if (b.write) { if (!L->depthW[t][b.m]++) { L->pending[t] = -1; Entered(t, b.m, true); } }
            else
            {
                if (!L->depthW[t][b.m] && !L->depthR[t][b.m]) Entered(t, b.m, false);
                ++L->depthR[t][b.m];
                if (newRead)
                    for (int k = 0; k < L->nThreads; ++k)
                        if (waiting[k] && L->pending[k] == b.m && L->call[k] == waiting[k])
                            Wrong(pbt::Fmt("thread %d started reading mutex %d after thread %d began to wait for its write lock", t, b.m, k));
            }
        };
        auto leave = [&]
        {
            sched::Out o;
            if (b.write) { if (!--L->depthW[t][b.m]) L->hold[t][b.m] = 0; }
            else if (!--L->depthR[t][b.m] && !L->depthW[t][b.m]) L->hold[t][b.m] = 0;
        };
        auto left = [&]
        {
            sched::Out o;
            if (b.write && !L->depthW[t][b.m] && L->depthR[t][b.m]) Entered(t, b.m, false);      // back to the read lock
        };
        if (b.guard)
        {
            if (b.write) { { WriteLock<M> lock(mx); got(); Inner(t, b); leave(); } left(); }
            else { { ReadLock<M> lock(mx); got(); Inner(t, b); leave(); } left(); }
        }
        else if (b.write) { mx.WriteLock(); got(); Inner(t, b); leave(); mx.WriteUnlock(); left(); }
        else { mx.ReadLock(); got(); Inner(t, b); leave(); mx.ReadUnlock(); left(); }
    }

    void RunBlocks(int t, const std::vector<Block>& blocks)
    {
        for (const Block& b : blocks)
        {
            if (L->recursive) RunBlock(t, b, *L->rec[b.m]);
            else RunBlock(t, b, *L->plain[b.m]);
        }
    }

    // held: per mutex 0, 'r', 'w'.  A block that may wait for mutex m is only generated while no mutex above m is held.
    std::vector<Block> GenBlocks(Src& s, const LockCase& c, std::string held, int depth, unsigned& budget)
    {
        std::vector<Block> out;
        for (unsigned n = 0; n < 3 && budget; ++n)
        {
            if (depth > 0 ? !s.flip() : (n > 0 && s.draw(3) == 0)) break;
            std::vector<std::pair<int, bool>> ok;
            for (int m = 0; m < c.nMutex; ++m)
                for (int w = 0; w < 2; ++w)
                {
                    bool higher = false;
                    for (int k = m + 1; k < c.nMutex; ++k) higher = higher || held[static_cast<size_t>(k)] != '0';
                    char h = held[static_cast<size_t>(m)];
                    bool waits = h == '0' || (h == 'r' && w);
                    if (c.off[m]) { ok.emplace_back(m, w == 1); continue; }
                    if (!c.recursive && h != '0') continue;
                    if (waits && higher) continue;
                    ok.emplace_back(m, w == 1);
                }
            if (ok.empty()) break;
            --budget;
            Block b;
            auto p = ok[s.draw(ok.size())];
            b.m = p.first;
            b.write = p.second;
            b.guard = s.flip();
            b.steps = static_cast<int>(s.draw(3));
            std::string h = held;
            char& x = h[static_cast<size_t>(b.m)];
            if (x != 'w' && !c.off[b.m]) x = b.write ? 'w' : x == '0' ? 'r' : x;
            if (depth < 4) b.inner = GenBlocks(s, c, h, depth + 1, budget);
            out.push_back(b);
        }
        return out;
    }

    void LogBlocks(const std::vector<Block>& bs, std::string& o)
    {
        for (const Block& b : bs)
        {
            o += pbt::Fmt(" %s%d%s{%s", b.write ? "W" : "R", b.m, b.guard ? "g" : "", b.steps ? pbt::Fmt("%d", b.steps).c_str() : "");
            LogBlocks(b.inner, o);
            o += "}";
        }
    }

    void LockThread(int t) { RunBlocks(t, L->prog[t]); }

    void LockHistory(Src& s)
    {
        LockCase c;
        L = &c;
        c.recursive = s.draw(3) != 0;
        c.nMutex = 1 + static_cast<int>(s.draw(3));
        c.nThreads = 2 + static_cast<int>(s.draw(3));
        for (int m = 0; m < 3; ++m) c.off[m] = false;
        if (s.chance(1, 8))
        {
            int m = static_cast<int>(s.draw(static_cast<unsigned>(c.nMutex)));
            c.off[m] = c.disabled = true;
            pbt::Log("mutex %d is disabled", m);
        }
        for (int t = 0; t < c.nThreads; ++t)
        {
            unsigned budget = 7;
            c.prog[t] = GenBlocks(s, c, "000", 0, budget);
            std::string o;
            LogBlocks(c.prog[t], o);
            pbt::Log("thread %d:%s", t, o.c_str());
        }
        pbt::Log("%s", c.recursive ? "RecursiveReadWriteMutex" : "ReadWriteMutex");
        for (int t = 0; t < sched::MaxThreads; ++t)
        {
            c.pending[t] = -1;
            c.call[t] = 0;
            for (int m = 0; m < 3; ++m) { c.hold[t][m] = 0; c.depthR[t][m] = c.depthW[t][m] = 0; }
        }
        CasePolicy policy(s, 16);
        pbt::SetOpTags(B28);
        sched::ArenaBegin();
        for (int m = 0; m < c.nMutex; ++m) { c.plain[m] = new ReadWriteMutex; c.rec[m] = new RecursiveReadWriteMutex; if (c.off[m]) { c.plain[m]->Disable(); c.rec[m]->Disable(); } }
        c.data = new long[3]();
        // the mutexes outlive the threads of the first round
        int rounds = s.chance(1, 3) ? 2 : 1;
        for (int r = 0; r < rounds; ++r)
        {
            sched::Run(c.nThreads, LockThread, policy, true);
            if (sched::Error() || !c.bad.empty()) break;
        }
        sched::ArenaEnd();
        pbt::Log("%llu switches", static_cast<unsigned long long>(sched::Switches()));
        CheckSchedule(B28);
        PBT_CHECK(B28, c.bad.empty(), "%s", c.bad.c_str());
        if (c.contended) pbt::Mark("contended");
        if (c.admittedBoth) pbt::Mark("readers-together");
        if (c.upgraded) pbt::Mark("upgraded");
        if (c.nested) pbt::Mark("recursive");
        if (c.disabled) pbt::Mark("disabled");
    }

    // ================================================================ P29
    const int Slots = 3;

    enum Kind
    {
        Create, SetK, SetS, SetU, SetMany, GetK, GetS, GetAsString, RefStrings, RefJson, RefValid, RefKeys, RefCopy, RefReset, RefCompare,
        Erase, EraseBy, EraseManyBy, GetBy, GetManyBy, Query, Complex, Sorted, SortBy, AddX, RemoveX, UpdateX, DefaultX, AddY, RemoveY,
        Keys, Drop, VSize, VStrings, VJson, VCopy, Save, Load, Errors,
        SetAdd, SetRemove, SetRemoveBy, SetCheck, SetSize, SetStrings, SetJson, SetGetBy, SetSort, SetQuery, SetComplex, SetJoin, SetExclude, SetIntersect, SetAlgebra,
        SetClear, SetReset, SetCopy, SetMove, SetCompare, SetKeys, SetSave, SharedSetRead,
        QueryOther, CreateOther, EraseOther, OtherStrings, Print, Kinds
    };
    const char* const KindName[Kinds] =
    {
        "create", "setData k", "setData s", "setData u", "setData list", "getData k", "getData s", "getDataAsString", "ref.toStrings", "ref.toJson", "ref.isValid", "ref.getKeys", "ref=", "ref.reset", "ref==",
        "eraseRecord(ref)", "eraseRecord(u)", "eraseRecords(k)", "getRecord(u)", "getRecords(k)", "request", "complex request", "getSortedRecords", "sortBy", "addKey x", "removeKey x", "updateKey x", "getKeyValue x", "addUniqueKey y", "removeKey y",
        "keys", "dropData", "size", "toStrings", "toJson", "copy the vault", "saveToFile", "readFile", "getErrors",
        "set.addRecord", "set.removeRecord(ref)", "set.removeRecords(k)", "set.checkRecord", "set.size", "set.toStrings", "set.toJson", "set.getRecord(s)", "set.sortBy", "set.request", "set.complex request", "set.join", "set.exclude", "set.intersect", "set algebra",
        "set.clear", "set.reset", "set=", "set=move", "set==", "set.keys", "set.saveToFile", "shared set read",
        "other vault request", "other vault create", "other vault erase", "other vault toStrings", "print"
    };
    const unsigned char Weight[Kinds] =
    {
        6, 8, 4, 4, 3, 5, 2, 1, 2, 1, 1, 1, 2, 1, 1,
        6, 3, 3, 3, 3, 6, 4, 2, 3, 3, 3, 2, 1, 2, 1,
        2, 2, 1, 3, 1, 2, 1, 1, 1,
        3, 2, 1, 1, 1, 3, 1, 1, 1, 2, 2, 1, 1, 1, 3,
        2, 1, 2, 1, 1, 1, 1, 2,
        3, 1, 2, 1, 2
    };
    bool Writes(int k)
    {
        switch (k)
        {
        case Create: case SetK: case SetS: case SetU: case SetMany: case Erase: case EraseBy: case EraseManyBy: case AddX: case RemoveX: case UpdateX: case AddY: case RemoveY: case Drop: case Load:
            return true;
        default: return false;
        }
    }

    struct Op { int kind, a, b, c; int t, index; };

    // Takes the place of the standard output; counts.
    struct CountBuf : std::streambuf
    {
        std::size_t n = 0;
        int overflow(int c) override { ++n; return c; }
        std::streamsize xsputn(const char*, std::streamsize k) override { n += static_cast<std::size_t>(k); return k; }
    };
    CountBuf& gPrinted = *new CountBuf;

    struct World
    {
        Vault* v;
        Vault* v2;
        VaultRecordRef* ref[sched::MaxThreads][Slots];
        VaultRecordSet* set[sched::MaxThreads][Slots];
        VaultRecordRef* shared[3];
        VaultRecordSet* sharedSet;
        int nThreads;
    };

    std::string Str(int b) { return std::string(b % 4 == 3 ? "a longer string that lives on the heap " : "s") + std::to_string(b % 5); }

    void Ids(std::vector<std::string>& v, std::string& out)
    {
        std::sort(v.begin(), v.end());
        out += "[";
        for (auto& x : v) { out += x; out += ' '; }
        out += "]";
    }
    std::string Id(const VaultRecordRef& r)
    {
        int id = -1;
        r.GetData("id", id);
        return std::to_string(id);
    }
    void Code(const VaultOperationResult& r, std::string& out)
    {
        out += r.IsOperationSuccess ? "ok" : "no";
        out += std::to_string(static_cast<int>(r.ResultCode));
        out += ' ';
    }
    void Rows(const std::vector<std::vector<std::pair<std::string, std::string>>>& rows, std::string& out)
    {
        std::vector<std::string> l;
        for (auto& r : rows)
        {
            std::string x = "(";
            for (auto& f : r) { x += f.first; x += '='; x += f.second; x += ','; }
            l.push_back(x + ")");
        }
        Ids(l, out);
    }
    void Names(const std::vector<std::string>& v, std::string& out) { for (auto& x : v) { out += x; out += ','; } }

    std::string File(const char* what, int t) { return std::string(getenv("PBT_SCRATCH")) + "/" + what + std::to_string(t) + "-" + std::to_string(getpid()); }

    void Lines(const std::string& file, std::string& out)
    {
        std::vector<std::string> l;
        {
            sched::Out o;
            std::ifstream f(file);
            std::string x;
            while (std::getline(f, x)) l.push_back(x);
            unlink(file.c_str());
        }
        Ids(l, out);
    }

    template <class V> void QueryOp(V& v, const Op& o, VaultRecordSet& target, std::string& out)
    {
        std::vector<std::string> ids;
        std::function<bool(const VaultRecordRef&)> pred = [&](const VaultRecordRef& r) { ids.push_back(Id(r)); return true; };
        VaultOperationResult r;
        const std::size_t all = static_cast<std::size_t>(-1);
        bool plain = o.c % 4 == 3;
        switch (o.b % 6)
        {
        case 0: r = plain ? v.RequestEqual("k", o.a, target) : v.RequestEqual("k", o.a, target, all, pred); break;
        case 1: r = plain ? v.RequestGreater("k", o.a, target) : v.RequestGreater("k", o.a, target, all, pred); break;
        case 2: r = plain ? v.RequestLessOrEqual("k", o.a, target) : v.RequestLessOrEqual("k", o.a, target, all, pred); break;
        case 3: r = plain ? v.RequestInterval("u", o.a, o.a + 3, target, true, true) : v.RequestInterval("u", o.a, o.a + 3, target, true, true, all, pred); break;
        case 4: r = v.RequestGreaterOrEqual("x", 0, target, all, pred); break;
        default: r = v.RequestLess("u", o.a + 2, target, all, pred); break;
        }
        Code(r, out);
        Ids(ids, out);
    }
    template <class V> void ComplexOp(V& v, const Op& o, VaultRecordSet& target, std::string& out)
    {
        VaultOperationResult r;
        switch (o.b % 4)
        {
        case 0: r = v.Request(Equal("k", o.a) || Greater("u", o.c), target); break;
        case 1: r = v.Request(GreaterOrEqual("k", 1) && Less("u", o.c), target); break;
        case 2: r = v.Request((Equal("k", o.a) || Equal("k", o.a + 1)) && LessOrEqual("u", o.c), target); break;
        default: r = v.Request(Equal("k", o.a) && Greater("x", -5), target); break;
        }
        Code(r, out);
    }

    void Exec(World& w, const Op& o, std::string& out)
    {
        Vault& v = *w.v;
        VaultRecordRef& r = *w.ref[o.t][o.c % Slots];
        VaultRecordSet& set = *w.set[o.t][o.c % Slots];
        VaultRecordSet& other = *w.set[o.t][(o.c + 1) % Slots];
        VaultRecordSet& third = *w.set[o.t][(o.c + 2) % Slots];
        const std::size_t all = static_cast<std::size_t>(-1);
        switch (o.kind)
        {
        case Create: Code(v.CreateRecord(r, { {"id", 100 * (o.t + 1) + o.index}, {"k", o.a}, {"s", Str(o.b)}, {"u", o.b} }), out); break;
        case SetK: Code(r.SetData("k", o.a), out); break;
        case SetS: Code(r.SetData("s", Str(o.b)), out); break;
        case SetU: Code(r.SetData("u", o.b), out); break;
        case SetMany: Code(r.SetData({ {"k", o.a}, {"s", Str(o.a)}, {"u", o.b}, {"k", o.a + 1} }), out); break;
        case GetK: { int x = -7; Code(r.GetData("k", x), out); out += std::to_string(x); break; }
        case GetS: { std::string x; Code(r.GetData("s", x), out); out += x; break; }
        case GetAsString: { std::string x; Code(r.GetDataAsString(o.a % 2 ? "u" : "x", x), out); out += x; break; }
        case RefStrings: for (auto& f : r.ToStrings()) { out += f.first; out += '='; out += f.second; out += ','; } break;
        case RefJson: out += r.ToJson(); break;
        case RefValid: if (o.a == 2) out += r.GetRecordUniqueId() == "null" ? "-" : "valid"; else out += r.IsValid() ? "valid" : "-"; break;
        case RefKeys: if (o.a % 2) Names(r.GetKeys(), out); else out += r.IsKeyExist("x") ? '+' : '-'; break;
        case RefCopy: if (o.a % 2) r = *w.shared[o.b % 3]; else r = VaultRecordRef(*w.ref[o.t][(o.c + 1) % Slots]); break;
        case RefReset: r.Reset(); break;
        case RefCompare: out += r == *w.shared[o.b % 3] ? "same" : ""; break;
        case Erase: out += v.EraseRecord(r) ? "erased" : "-"; break;
        case EraseBy: Code(v.EraseRecord("u", o.b), out); break;
        case EraseManyBy: Code(v.EraseRecords("k", o.a), out); break;
        case GetBy: Code(v.GetRecord("u", o.b, r), out); break;
        case GetManyBy: { std::vector<VaultRecordRef> rs; Code(v.GetRecords("k", o.a, rs), out); out += std::to_string(rs.size()); break; }
        case Query: QueryOp(v, o, set, out); break;
        case Complex: ComplexOp(v, o, set, out); break;
        case Sorted: out += std::to_string(v.GetSortedRecords(o.a % 2 ? "k" : "x", o.b % 2 == 1).size()); break;
        case SortBy:
        {
            std::vector<std::string> ids;
            bool sorted = true;
            int last = 0;
            v.SortBy("k", [&](const VaultRecordRef& x) { int k = 0; x.GetData("k", k); if (!ids.empty() && k < last) sorted = false; last = k; ids.push_back(Id(x)); return true; });
            out += sorted ? "" : "UNSORTED";
            Ids(ids, out);
            break;
        }
        case AddX: out += v.AddKey("x", o.a) ? "added" : "-"; break;
        case RemoveX: out += v.RemoveKey("x") ? "removed" : "-"; break;
        case UpdateX: Code(v.UpdateKey("x", o.a), out); break;
        case DefaultX: { int x = -7; Code(v.GetKeyValue("x", x), out); out += std::to_string(x); break; }
        case AddY: Code(v.AddUniqueKey<int>("y", [](const std::size_t&, const VaultRecordRef& x) { int id = 0; x.GetData("id", id); return id; }), out); break;
        case RemoveY: out += v.RemoveKey("y") ? "removed" : "-"; break;
        case Keys:
        {
            std::type_index ty(typeid(void));
            switch (o.b % 4)
            {
            case 0: Names(v.GetKeys(), out); break;
            case 1: { auto u = v.GetUniqueKeys(); std::sort(u.begin(), u.end()); Names(u, out); break; }
            case 2: out += v.IsKeyExist("x") ? "exists" : "-"; break;
            default: out += v.GetKeyType(o.c % 2 ? "x" : "y", ty) ? "typed" : "-"; break;
            }
            break;
        }
        case Drop: v.DropData(); break;
        case Print:
            // only one thread prints, std::cout has one format for all
            if (o.t != 0) break;
            switch (o.b % 4)
            {
            case 0: v.Print(o.a == 1); break;
            case 1: set.Print(o.a == 1); break;
            case 2: r.PrintRecord(); break;
            default: { std::vector<VaultRecordRef> rs = { r, *w.shared[o.c % 3] }; PrintAsTable(rs, o.a == 1); }
            }
            // addresses may have another length in the sequential run, and a list of references is printed record by record
            if (o.a != 1 && o.b % 4 < 2) out += std::to_string(gPrinted.n);
            gPrinted.n = 0;
            break;
        case VSize: out += std::to_string(v.Size()); break;
        case VStrings: Rows(v.ToStrings(), out); break;
        case VJson: out += std::to_string(v.ToJson(o.a % 2 == 1, 2, true).size()); break;
        case VCopy: { Vault c(v); Rows(c.ToStrings(), out); break; }
        case Save:
        {
            std::string f;
            { sched::Out q; f = File("save", o.t); }
            out += v.SaveToFile(f) ? "saved" : "-";
            Lines(f, out);
            break;
        }
        case Load: out += v.ReadFile(File("load", o.t)) ? "read" : "-"; break;
        case Errors: for (auto& e : v.GetErrorsInLastReadedFile()) { out += std::to_string(e.first); out += e.second; } break;
        case SetAdd: Code(set.AddRecord(r), out); break;
        case SetRemove: out += set.RemoveRecord(r) ? "removed" : "-"; break;
        case SetRemoveBy: Code(o.c % 3 ? set.RemoveRecords("k", o.a) : set.RemoveRecord("u", o.b), out); break;
        case SetCheck: out += set.CheckRecord(r) ? "in" : "-"; break;
        case SetSize: out += std::to_string(set.Size()); break;
        case SetStrings: Rows(set.ToStrings(), out); break;
        case SetJson: out += std::to_string(set.ToJson(o.a % 2 == 1, 2, true).size()); break;
        case SetGetBy:
            if (o.c % 3 == 0) { std::vector<VaultRecordRef> rs; Code(set.GetRecords("k", o.a, rs), out); out += std::to_string(rs.size()); }
            else if (o.c % 3 == 1) out += std::to_string(set.GetSortedRecords(o.a % 2 ? "k" : "x", o.b % 2 == 1).size());
            else Code(set.GetRecord("u", o.b, r), out);
            break;
        case SetSort:
        {
            std::vector<std::string> ids;
            set.SortBy("k", [&](const VaultRecordRef& x) { ids.push_back(Id(x)); return true; });
            Ids(ids, out);
            break;
        }
        case SetQuery: QueryOp(set, o, other, out); break;
        case SetComplex: ComplexOp(set, o, other, out); break;
        case SetJoin: Code(set.Join(other), out); break;
        case SetExclude: Code(set.Exclude(other), out); break;
        case SetIntersect: Code(set.Intersect(other), out); break;
        case SetAlgebra:
            if (o.b % 2) Code(Union(set, other, third), out);
            else Code(Intersection(set, other, third), out);
            break;
        case SetClear: set.Clear(); break;
        case SetReset: set.Reset(); break;
        case SetCopy: set = other; break;
        case SetMove: set = std::move(other); break;
        case SetCompare: if (o.a % 2) out += set == other ? "equal" : "-"; else out += set != other ? "different" : "-"; break;
        case SetKeys: if (o.a % 2) Names(set.GetKeys(), out); else if (o.b % 3 == 0) out += set.GetParentVaultUniqueId() == "null" ? "-" : "of a vault"; else if (o.b % 3 == 1) { std::type_index ty(typeid(void)); out += set.GetKeyType(o.c % 2 ? "x" : "y", ty) ? "typed" : "-"; } else if (o.c % 3) out += set.IsKeyExist("x") ? '+' : '-'; else { int x = -7; Code(set.GetKeyValue("x", x), out); out += std::to_string(x); } break;
        case SetSave:
        {
            std::string f;
            { sched::Out q; f = File("sset", o.t); }
            out += set.SaveToFile(f) ? "saved" : "-";
            { sched::Out q; std::ifstream x(f); if (!x) out += "none"; }
            Lines(f, out);
            break;
        }
        case SharedSetRead:
            switch (o.b % 6)
            {
            case 0: out += std::to_string(w.sharedSet->Size()); break;
            case 4: set = *w.sharedSet; break;
            case 5: Code(set.Join(*w.sharedSet), out); break;
            case 1: Rows(w.sharedSet->ToStrings(), out); break;
            case 2: out += w.sharedSet->CheckRecord(r) ? "in" : "-"; break;
            default: QueryOp(*w.sharedSet, o, set, out); break;
            }
            break;
        case QueryOther: Code(w.v2->RequestGreaterOrEqual("k", o.a, set), out); break;
        case CreateOther: Code(w.v2->CreateRecord({ {"id", 100 * (o.t + 1) + o.index}, {"k", o.a} }), out); break;
        case EraseOther: Code(w.v2->EraseRecords("k", o.a), out); break;
        case OtherStrings: Rows(w.v2->ToStrings(), out); break;
        default: break;
        }
        (void)all;
    }

    void Keep(std::string& to, const std::string& from)
    {
        sched::Out o;
        to.assign(from.data(), from.size());
    }

    World Build(int nThreads, const std::vector<Op>& init)
    {
        World w;
        w.nThreads = nThreads;
        w.v = new Vault;
        w.v->AddKey("id", 0);
        w.v->AddKey("k", 0);
        w.v->AddKey("s", std::string());
        w.v->AddUniqueKey<int>("u");
        w.v2 = new Vault;
        w.v2->AddKey("id", 0);
        w.v2->AddKey("k", 0);
        for (int i = 0; i < 3; ++i) w.v2->CreateRecord({ {"id", 50 + i}, {"k", i} });
        for (auto& p : w.shared) p = new VaultRecordRef;
        w.sharedSet = new VaultRecordSet;
        for (int t = 0; t < nThreads; ++t)
            for (int i = 0; i < Slots; ++i) { w.ref[t][i] = new VaultRecordRef; w.set[t][i] = new VaultRecordSet; }
        std::size_t n = 0;
        for (const Op& o : init)
        {
            std::string ignored;
            if (o.kind == Create)
            {
                VaultRecordRef r;
                w.v->CreateRecord(r, { {"id", o.index}, {"k", o.a}, {"s", Str(o.b)}, {"u", o.b} });
                if (n < 3 && r.IsValid()) *w.shared[n++] = r;
            }
            else Exec(w, o, ignored);
        }
        w.v->RequestGreaterOrEqual("k", 1, *w.sharedSet);
        for (int t = 0; t < nThreads; ++t)
            for (int i = 0; i < Slots; ++i)
                if (!w.ref[t][i]->IsValid()) *w.ref[t][i] = *w.shared[static_cast<std::size_t>(t + i) % 3];
        return w;
    }

    void Free(World& w)
    {
        for (int t = 0; t < w.nThreads; ++t)
            for (int i = 0; i < Slots; ++i) { delete w.ref[t][i]; delete w.set[t][i]; }
        for (auto& p : w.shared) delete p;
        delete w.sharedSet;
        delete w.v;
        delete w.v2;
    }

    template <class V> void DumpIndex(V& v, std::string& out)
    {
        for (const char* key : { "id", "k", "u", "x", "y" })
        {
            std::vector<std::string> ids;
            int last = -1000000;
            v.SortBy(key, [&](const VaultRecordRef& x) { int k = -99; x.GetData(key, k); if (k < last) ids.push_back("UNSORTED"); last = k; ids.push_back(Id(x)); return true; });
            Ids(ids, out);
            for (int a = -1; a < 12; ++a)
            {
                std::vector<VaultRecordRef> rs;
                v.GetRecords(key, a, rs);
                out += std::to_string(rs.size());
            }
            out += '\n';
        }
    }
    std::string Dump(World& w)
    {
        std::string out;
        Names(w.v->GetKeys(), out);
        out += std::to_string(w.v->Size());
        Rows(w.v->ToStrings(), out);
        out += '\n';
        DumpIndex(*w.v, out);
        auto one = [&](const char* name, VaultRecordSet& s)
        {
            out += name;
            out += s.GetIsParentVaultValid() ? ": " : ": detached ";
            if (s.GetIsParentVaultValid()) Names(s.GetKeys(), out);
            Rows(s.ToStrings(), out);
            out += '\n';
            DumpIndex(s, out);
        };
        for (int t = 0; t < w.nThreads; ++t)
            for (int i = 0; i < Slots; ++i)
            {
                one(pbt::Fmt("set %d.%d", t, i).c_str(), *w.set[t][i]);
                out += pbt::Fmt("ref %d.%d ", t, i) + (w.ref[t][i]->IsValid() ? Id(*w.ref[t][i]) : "-") + "\n";
            }
        one("shared set", *w.sharedSet);
        Rows(w.v2->ToStrings(), out);
        DumpIndex(*w.v2, out);
        return out;
    }

    struct VaultCase
    {
        int nThreads;
        std::vector<Op> prog[sched::MaxThreads];
        std::vector<std::string> res[sched::MaxThreads];
        std::vector<uint64_t> start[sched::MaxThreads], stop[sched::MaxThreads];
        World w;
    };
    VaultCase* C;

    void VaultThread(int t)
    {
        for (std::size_t i = 0; i < C->prog[t].size(); ++i)
        {
            { sched::Out o; C->start[t][i] = sched::Stamp(); }
            {
                std::string out;
                Exec(C->w, C->prog[t][i], out);
                Keep(C->res[t][i], out);
            }
            { sched::Out o; C->stop[t][i] = sched::Stamp(); }
        }
    }

    // Looks for an order of the operations that respects their real-time order and explains every result.
    struct Search
    {
        const std::vector<Op>& init;
        std::string want;
        unsigned budget = 4000;                       // operations executed
        std::size_t total = 0;
        std::string reason;
        std::size_t best = 0;

        bool Try(std::vector<int>& order)
        {
            // returns whether the prefix is explained; when complete, also the final state
            World w = Build(C->nThreads, init);
            std::size_t pos[sched::MaxThreads] = {};
            bool ok = true;
            std::size_t n = 0;
            for (int t : order)
            {
                std::string out;
                Exec(w, C->prog[t][pos[t]], out);
                if (budget) --budget;
                if (out != C->res[t][pos[t]])
                {
                    ok = false;
                    if (n >= best)
                    {
                        best = n + 1;
                        reason = pbt::Fmt("thread %d op %zu (%s) returned '%s', in the best order it returns '%s'", t, pos[t], KindName[C->prog[t][pos[t]].kind], pbt::Show(C->res[t][pos[t]]).c_str(), pbt::Show(out).c_str());
                    }
                    break;
                }
                ++pos[t];
                ++n;
            }
            if (ok && order.size() == total)
            {
                std::string got = Dump(w);
                if (got != want)
                {
                    ok = false;
                    if (best <= total) { best = total + 1; reason = "the final state is\n" + want + "in the best order it is\n" + got; }
                }
            }
            Free(w);
            return ok;
        }

        bool Extend(std::vector<int>& order, std::size_t* pos)
        {
            if (!budget) return true;                 // undecided: not a failure
            if (order.size() == total) return Try(order);
            if (!order.empty() && !Try(order)) return false;
            // candidates: no other pending operation ended before they started; the one that ended first is tried first
            uint64_t minStop = ~0ull;
            for (int t = 0; t < C->nThreads; ++t)
                if (pos[t] < C->prog[t].size()) minStop = std::min(minStop, C->stop[t][pos[t]]);
            std::vector<std::pair<uint64_t, int>> cand;
            for (int t = 0; t < C->nThreads; ++t)
                if (pos[t] < C->prog[t].size() && C->start[t][pos[t]] <= minStop) cand.emplace_back(C->stop[t][pos[t]], t);
            std::sort(cand.begin(), cand.end());
            for (auto& c : cand)
            {
                order.push_back(c.second);
                ++pos[c.second];
                bool ok = Extend(order, pos);
                --pos[c.second];
                order.pop_back();
                if (ok) return true;
            }
            return false;
        }
    };

    std::string OpText(const Op& o) { return pbt::Fmt("%s(a=%d b=%d c=%d)", KindName[o.kind], o.a, o.b, o.c); }

    Op GenOp(Src& s, int t, int index)
    {
        static const std::vector<unsigned> weights(Weight, Weight + Kinds);
        Op o;
        o.kind = static_cast<int>(s.weighted(weights));
        o.a = static_cast<int>(s.draw(3));
        o.b = static_cast<int>(s.draw(8));
        o.c = static_cast<int>(s.draw(8));
        o.t = t;
        o.index = index;
        return o;
    }

    // Two vaults that are assigned to each other while others use them: no deadlock, no race, and in the end both are consistent.
    const char* const PairName[] = { "a = b", "a = move(b)", "create in a", "eraseRecords k in a", "toStrings of a", "addKey x to a", "removeKey x of a", "setDefault", "request on a", "size of a", "sortBy on a", "copy a", "request on a into set", "reset set", "clear set" };
    void PairExec(World& w, const Op& o)
    {
        Vault& a = o.c % 2 ? *w.v2 : *w.v;
        Vault& b = o.c % 2 ? *w.v : *w.v2;
        std::string out;
        switch (o.kind)
        {
        case 0: a = b; break;
        case 1: a = std::move(b); break;
        case 2: a.CreateRecord({ {"id", 100 * (o.t + 1) + o.index}, {"k", o.a} }); break;
        case 3: a.EraseRecords("k", o.a); break;
        case 4: Rows(a.ToStrings(), out); break;
        case 5: a.AddKey("x", o.a); break;
        case 6: a.RemoveKey("x"); break;
        case 7: a.UpdateKey("x", o.b); break;
        case 8: a.GetKeys(); a.IsKeyExist("x"); break;
        case 9: a.Size(); break;
        case 10: a.SortBy("k", [&](const VaultRecordRef&) { return true; }); break;
        case 12: if (o.b) a.RequestGreaterOrEqual("k", o.a, *w.set[o.t][o.b - 1]); else a.Request(Equal("k", o.a) || Equal("k", 1), *w.set[o.t][0]); break;
        case 13: w.set[o.t][o.a % 2]->Reset(); break;
        case 14: w.set[o.t][o.a % 2]->Clear(); break;
        default: { Vault c(a); Rows(c.ToStrings(), out); break; }
        }
    }
    void PairThread(int t)
    {
        for (const Op& o : C->prog[t]) PairExec(C->w, o);
    }
    void CheckConsistent(Vault& v)
    {
        std::size_t n = v.Size();
        PBT_CHECK(B29, v.ToStrings().size() == n, "%zu records as strings, size %zu", v.ToStrings().size(), n);
        for (const std::string& key : v.GetKeys())
        {
            std::size_t seen = 0;
            v.SortBy(key, [&](const VaultRecordRef& r)
            {
                int x = 0;
                PBT_CHECK(B29, r.GetData(key, x).IsOperationSuccess, "a record of the vault cannot be read");
                std::vector<VaultRecordRef> rs;
                v.GetRecords(key, x, rs);
                PBT_CHECK(B29, std::find(rs.begin(), rs.end(), r) != rs.end(), "a record is not found by its own %s", key.c_str());
                ++seen;
                return true;
            });
            PBT_CHECK(B29, seen == n, "sorting by %s visits %zu of %zu records", key.c_str(), seen, n);
        }
    }
    void PairHistory(Src& s)
    {
        VaultCase c;
        C = &c;
        c.nThreads = 2 + static_cast<int>(s.chance(1, 3));
        // assigning to a vault detaches its sets, so either vaults are assigned or sets are used
        bool sets = s.chance(1, 3);
        int attach[sched::MaxThreads][2] = {};
        for (int t = 0; t < c.nThreads && sets; ++t)
            for (int& x : attach[t]) x = static_cast<int>(s.draw(3));
        for (int t = 0; t < c.nThreads; ++t)
        {
            pbt::Log("thread %d has sets of vaults %d and %d", t, attach[t][0], attach[t][1]);
            std::size_t k = 0;
            while (s.more(static_cast<unsigned>(k), 4, 4))
            {
                static const std::vector<unsigned> assigning = { 6, 2, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1 }, using_ = { 0, 0, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 6, 2, 1 };
                Op o{ static_cast<int>(s.weighted(sets ? using_ : assigning)), static_cast<int>(s.draw(3)), static_cast<int>(s.draw(3)), static_cast<int>(s.draw(2)), t, static_cast<int>(k++) };
                c.prog[t].push_back(o);
                pbt::Log("thread %d: %s (a=%s)", t, PairName[o.kind], o.c ? "v2" : "v1");
                s.end();
            }
        }
        CasePolicy policy(s, 12);
        pbt::SetOpTags(B29);
        sched::ArenaBegin();
        c.w = World();
        for (Vault** v : { &c.w.v, &c.w.v2 })
        {
            *v = new Vault;
            (*v)->AddKey("id", 0);
            (*v)->AddKey("k", 0);
            for (int i = 0; i < 3; ++i) (*v)->CreateRecord({ {"id", 50 + i}, {"k", i} });
        }
        for (int t = 0; t < c.nThreads; ++t)
            for (int i = 0; i < 2; ++i)
            {
                c.w.set[t][i] = new VaultRecordSet;
                if (attach[t][i]) (attach[t][i] == 1 ? c.w.v : c.w.v2)->RequestGreaterOrEqual("k", 1, *c.w.set[t][i]);
            }
        sched::Run(c.nThreads, PairThread, policy, s.chance(3, 4));
        sched::ArenaEnd();
        CheckSchedule(B29);
        CheckConsistent(*c.w.v);
        CheckConsistent(*c.w.v2);
        pbt::Mark("two-vaults");
        if (sched::Switches() > static_cast<uint64_t>(c.nThreads)) pbt::Mark("two-vaults-interleaved");
    }

    // Operations that take several locks one after another or read a record in several steps, and the writes to run in between.
    const int Steps[] = { RefStrings, RefJson, RefKeys, RefValid, RefCompare, GetAsString, Print, GetK, GetS, SetMany, SetK, RefCopy, Keys, VStrings, VJson, VCopy, Save, Sorted, SortBy, Query, Complex, Create, Erase, GetManyBy, SetStrings, SetJson, SetSort, SetQuery, SetComplex, SetCopy, SetJoin, SetExclude, SetIntersect, SetAlgebra, SetKeys, SetSave, SetAdd, SetRemoveBy };
    const int Between[] = { EraseBy, EraseBy, EraseBy, EraseManyBy, AddX, AddX, RemoveX, RemoveX, UpdateX, AddY, RemoveY, Create, Drop, SetK, SetU, SetMany, Erase, GetBy, QueryOther };

    void VaultHistory(Src& s)
    {
        if (s.chance(1, 6)) { PairHistory(s); return; }
        std::cout.rdbuf(&gPrinted);
        const bool stopped = s.chance(1, 3);
        VaultCase c;
        C = &c;
        c.nThreads = stopped ? 2 : 2 + static_cast<int>(s.chance(1, 3));
        std::vector<Op> init;
        std::size_t n = s.draw(5);
        for (std::size_t i = 0; i < n; ++i)
        {
            Op o{ Create, static_cast<int>(s.draw(3)), static_cast<int>(i), 0, 0, static_cast<int>(i) + 1 };
            init.push_back(o);
        }
        if (s.flip()) init.push_back({ AddX, 1, 0, 0, 0, 0 });
        for (int t = 0; t < c.nThreads; ++t)
            for (int i = 0; i < Slots; ++i)
                if (s.flip()) init.push_back({ Query, static_cast<int>(s.draw(3)), 1 + static_cast<int>(s.draw(2)), 3 * Slots + i, t, 0 });
                else if (s.chance(1, 4)) init.push_back({ QueryOther, static_cast<int>(s.draw(2)), 0, 3 * Slots + i, t, 0 });
        for (const Op& o : init) pbt::Log("before: thread %d %s", o.t, OpText(o).c_str());
        for (int t = 0; t < c.nThreads; ++t)
        {
            std::size_t k = 0;
            while (s.more(static_cast<unsigned>(k), stopped && !t ? 2 : c.nThreads == 2 ? 5 : 3, 4))
            {
                c.prog[t].push_back(GenOp(s, t, static_cast<int>(k++)));
                Op& o = c.prog[t].back();
                if (stopped)
                {
                    if (s.chance(4, 5)) o.kind = t ? Between[s.draw(sizeof(Between) / sizeof(int))] : Steps[s.draw(sizeof(Steps) / sizeof(int))];
                    if (n && s.flip())
                    {
                        o.c = t ? o.c : Slots * 3;        // the record created last, in slot 0 of thread 0
                        if (o.kind == EraseBy || o.kind == GetBy) o.b = static_cast<int>(n) - 1;
                    }
                }
                pbt::Log("thread %d: %s", t, OpText(c.prog[t].back()).c_str());
                s.end();
            }
            c.res[t].resize(k);
            c.start[t].assign(k, 0);
            c.stop[t].assign(k, 0);
            std::ofstream f(File("load", t));
            f << "id,k,s,u\r\n" << 500 + t << ",1,loaded,7\r\n" << 600 + t << ",2,loaded,notanumber\r\n" << 700 + t << ",0,loaded," << 20 + t << "\r\n";
        }
        bool fine = s.chance(stopped ? 1 : 3, 4);
        CasePolicy policy(s, fine ? 12 : 30);
        if (stopped)
        {
            policy.single = fine ? 4 : 3;
            policy.switches = 1 + static_cast<unsigned>(s.draw(3));
        }
        pbt::SetOpTags(B29);
        sched::ArenaBegin();
        c.w = Build(c.nThreads, init);
        sched::Run(c.nThreads, VaultThread, policy, fine);
        std::string got;
        bool readable = !sched::Error();
        if (readable) Keep(got, Dump(c.w));
        sched::ArenaEnd();
        for (int t = 0; t < c.nThreads; ++t)
            for (std::size_t i = 0; i < c.prog[t].size(); ++i)
                pbt::Log("thread %d %s [%llu,%llu] -> %s", t, OpText(c.prog[t][i]).c_str(), static_cast<unsigned long long>(c.start[t][i]), static_cast<unsigned long long>(c.stop[t][i]), pbt::Show(c.res[t][i]).c_str());
        pbt::Log("%llu switches at %llu points", static_cast<unsigned long long>(sched::Switches()), static_cast<unsigned long long>(sched::Points()));
        CheckSchedule(B29);
        Search q{ init, got };
        for (int t = 0; t < c.nThreads; ++t) q.total += c.prog[t].size();
        std::vector<int> order;
        std::size_t pos[sched::MaxThreads] = {};
        bool ok = q.Extend(order, pos);
        if (!q.budget) pbt::Mark("search-cut-off");
        bool overlap = false, overlapWrite = false;
        for (int t = 0; t < c.nThreads; ++t)
            for (int u = t + 1; u < c.nThreads; ++u)
                for (std::size_t i = 0; i < c.prog[t].size(); ++i)
                    for (std::size_t j = 0; j < c.prog[u].size(); ++j)
                        if (c.start[t][i] < c.stop[u][j] && c.start[u][j] < c.stop[t][i])
                        {
                            overlap = true;
                            if (Writes(c.prog[t][i].kind) || Writes(c.prog[u][j].kind)) overlapWrite = true;
                        }
        if (overlap) pbt::Mark("overlap");
        if (overlapWrite) pbt::Mark("overlap-with-a-write");
        PBT_CHECK(B29, ok, "no order of the operations explains their results: %s", q.reason.c_str());
    }
}

int main(int argc, char** argv)
{
    std::vector<pbt::Property> props;
    props.push_back({ "P28", B28, LockHistory, { "contended" }, "some thread asks for a lock that another thread's lock excludes", 150000, 1500000 });
    props.push_back({ "P29", B29, VaultHistory, { "overlap-with-a-write|two-vaults-interleaved" }, "two operations of different threads overlap and one of them writes, or threads using two vaults assigned to each other were switched between", 40000, 800000 });
    return pbt::Main(argc, argv, props);
}
