// Exercises every template of the public interface with one user-defined type T against a small model.
// Compiles as C++11.  The generated translation unit defines T, make<T>(int) (strictly increasing), and the traits below.
#pragma once
#include <MVault.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <vector>

struct Traits { bool toString, fromString; std::string (*text)(int); };

static unsigned long long gState;
static unsigned Draw(unsigned n)
{
    gState ^= gState << 13; gState ^= gState >> 7; gState ^= gState << 17;
    return static_cast<unsigned>((gState >> 11) % n);
}
#define CHECK(c, ...) do { if (!(c)) { std::printf("CUSTOM FAIL line %d: ", __LINE__); std::printf(__VA_ARGS__); std::printf("\n"); std::fflush(stdout); _exit(7); } } while (0)

typedef std::map<int, int> Model;            // id -> index of the value of key "t"
static std::map<int, int> gMark;             // id -> the part of the value that == does not compare, if the type has one
const int N = 6;

static std::set<int> IdsOf(const std::vector<mvlt::VaultRecordRef>& refs)
{
    std::set<int> r;
    for (const auto& x : refs) { int id = -1; CHECK(x.GetData("id", id).IsOperationSuccess, "GetData id"); CHECK(r.insert(id).second, "record %d twice", id); }
    return r;
}
static std::set<int> IdsOf(const mvlt::VaultRecordSet& s) { return IdsOf(s.GetSortedRecords("id")); }

template <class T, class V>
void Requests(const V& v, const Model& m)
{
    typedef mvlt::VaultRecordRef Ref;
    mvlt::VaultRecordSet out;
    for (int a = 0; a < N; ++a)
    {
        const T va = make<T>(a);
        std::set<int> eq, lt, le, gt, ge, odd;
        for (const auto& r : m)
        {
            if (r.second == a) eq.insert(r.first);
            if (r.second < a) lt.insert(r.first);
            if (r.second <= a) le.insert(r.first);
            if (r.second > a) gt.insert(r.first);
            if (r.second >= a) ge.insert(r.first);
            if (r.second <= a && r.first % 2) odd.insert(r.first);
        }
        const std::function<bool(const Ref&)> pred = [](const Ref& r) { int id = 0; r.GetData("id", id); return id % 2 == 1; };
        CHECK(v.RequestEqual("t", va, out).IsOperationSuccess && IdsOf(out) == eq, "RequestEqual");
        CHECK(v.RequestLess("t", va, out).IsOperationSuccess && IdsOf(out) == lt, "RequestLess");
        CHECK(v.RequestLessOrEqual("t", va, out).IsOperationSuccess && IdsOf(out) == le, "RequestLessOrEqual");
        CHECK(v.RequestGreater("t", va, out).IsOperationSuccess && IdsOf(out) == gt, "RequestGreater");
        CHECK(v.RequestGreaterOrEqual("t", va, out).IsOperationSuccess && IdsOf(out) == ge, "RequestGreaterOrEqual");
        CHECK(v.RequestLessOrEqual("t", va, out, -1, pred).IsOperationSuccess && IdsOf(out) == odd, "RequestLessOrEqual with a predicate");
        CHECK(v.RequestEqual("t", va, out, 1).IsOperationSuccess && IdsOf(out).size() == std::min<std::size_t>(1, eq.size()), "RequestEqual limited");
        const int b = static_cast<int>(Draw(N));
        const T vb = make<T>(b);
        const bool ib = Draw(2) == 0, ie = Draw(2) == 0;
        std::set<int> in, both, any;
        for (const auto& r : m)
        {
            if ((ib ? r.second >= a : r.second > a) && (ie ? r.second <= b : r.second < b)) in.insert(r.first);
            if (r.second >= a && r.second < b) both.insert(r.first);
            if (r.second == a || r.second == b) any.insert(r.first);
        }
        CHECK(v.RequestInterval("t", va, vb, out, ib, ie).IsOperationSuccess && IdsOf(out) == in, "RequestInterval");
        CHECK(v.Request(mvlt::GreaterOrEqual("t", va) && mvlt::Less("t", vb), out).IsOperationSuccess && IdsOf(out) == both, "And");
        CHECK(v.Request(mvlt::Equal("t", va) || mvlt::Equal("t", vb), out).IsOperationSuccess && IdsOf(out) == any, "Or");
        CHECK(v.Request(mvlt::Greater("t", va) || (mvlt::LessOrEqual("t", va) && mvlt::GreaterOrEqual("id", 0)), out).IsOperationSuccess && IdsOf(out).size() == m.size(), "complement");
        Ref ref;
        CHECK(v.GetRecord("t", va, ref).IsOperationSuccess == !eq.empty() && ref.IsValid() == !eq.empty(), "GetRecord");
        std::vector<Ref> refs;
        CHECK(v.GetRecords("t", va, refs).IsOperationSuccess == !eq.empty() && IdsOf(refs) == eq, "GetRecords");
    }
    for (int rev = 0; rev < 2; ++rev)
    {
        std::vector<int> seen;
        v.SortBy("t", [&](const Ref& r)
        {
            T x = T();
            CHECK(r.GetData("t", x).IsOperationSuccess, "GetData in SortBy");
            int i = 0;
            while (i < N && !(make<T>(i) == x)) ++i;
            seen.push_back(i);
            return true;
        }, rev == 1);
        CHECK(seen.size() == m.size(), "SortBy visits %zu of %zu", seen.size(), m.size());
        for (std::size_t i = 1; i < seen.size(); ++i) CHECK(rev ? seen[i - 1] >= seen[i] : seen[i - 1] <= seen[i], "SortBy order");
    }
}

template <class T, class V>
void Compare(V& v, const Model& m, const Traits& tr)
{
    std::set<int> ids;
    for (const auto& r : m) ids.insert(r.first);
    const auto refs = v.GetSortedRecords("id");
    CHECK(v.Size() == m.size() && IdsOf(refs) == ids, "contents");
    for (const auto& r : refs)
    {
        int id = -1;
        r.GetData("id", id);
        T x = T();
        CHECK(r.GetData("t", x).IsOperationSuccess && x == make<T>(m.at(id)), "value of record %d", id);
        CHECK(GetMark(x) == -1 || GetMark(x) == gMark[id], "record %d has %d in the field that == does not compare, %d was written", id, GetMark(x), gMark[id]);
        std::string s = "?";
        CHECK(r.GetDataAsString("t", s).IsOperationSuccess && s == (tr.toString ? tr.text(m.at(id)) : std::string()), "text '%s' of record %d", s.c_str(), id);
        CHECK(!r.ToJson().empty() && r.ToStrings().size() == v.GetKeys().size(), "texts of record %d", id);
    }
    CHECK(v.ToStrings().size() == m.size(), "ToStrings");
    CHECK(!v.ToJson().empty(), "ToJson");
}

template <class T>
int Exercise(unsigned long long seed, const Traits& tr)
{
    typedef mvlt::VaultRecordRef Ref;
    gMark.clear();
    gState = seed * 2654435769u + 88172645463325252ull;
    mvlt::Vault v;
    CHECK(v.AddKey("id", -1), "AddKey id");
    const int def = static_cast<int>(Draw(N));
    CHECK(v.AddKey("t", make<T>(def)), "AddKey");
    CHECK(!v.AddKey("t", make<T>(0)), "AddKey twice");
    std::type_index ty(typeid(void));
    CHECK(v.GetKeyType("t", ty) && ty == typeid(T), "GetKeyType");
    T got = T();
    CHECK(v.GetKeyValue("t", got).IsOperationSuccess && got == make<T>(def), "GetKeyValue");
    Model m;
    int next = 0, dflt = def;
    mvlt::VaultRecordSet set;
    v.RequestLess("id", -5, set);
    for (int step = 0; step < 40; ++step)
    {
        const int a = static_cast<int>(Draw(N)), b = static_cast<int>(Draw(N));
        switch (Draw(9))
        {
        case 0: case 1: case 2:
        {
            Ref r;
            T value = make<T>(a);
            SetMark(value, gMark[next] = static_cast<int>(Draw(3)));
            CHECK(v.CreateRecord(r, { {"id", next}, {"t", value} }).IsOperationSuccess, "CreateRecord");
            m[next++] = a;
            CHECK(set.AddRecord(r).IsOperationSuccess, "AddRecord");
            break;
        }
        case 3: CHECK(v.CreateRecord({ {"id", next} }).IsOperationSuccess, "CreateRecord default"); m[next++] = dflt; break;
        case 4: case 5:
        {
            const auto refs = v.GetSortedRecords("id");
            if (refs.empty()) break;
            Ref r = refs[Draw(static_cast<unsigned>(refs.size()))];
            int id = -1;
            r.GetData("id", id);
            const int to = Draw(3) ? a : m[id];
            T value = make<T>(to);
            SetMark(value, gMark[id] = static_cast<int>(Draw(3)));
            if (Draw(2)) CHECK(r.SetData("t", value).IsOperationSuccess, "SetData");
            else CHECK(r.SetData({ {"t", value}, {"id", id} }).IsOperationSuccess, "SetData list");
            m[id] = to;
            break;
        }
        case 6:
        {
            bool any = false;
            for (const auto& r : m) any = any || r.second == a;
            CHECK(v.EraseRecords("t", make<T>(a)).IsOperationSuccess == any, "EraseRecords");
            for (auto it = m.begin(); it != m.end();) if (it->second == a) it = m.erase(it); else ++it;
            break;
        }
        case 7:
        {
            std::set<int> before;
            for (const auto& r : m) before.insert(r.first);
            const bool ok = v.EraseRecord("t", make<T>(b)).IsOperationSuccess;
            const auto now = IdsOf(v.GetSortedRecords("id"));
            bool any = false;
            for (const auto& r : m) any = any || r.second == b;
            CHECK(ok == any && now.size() + (ok ? 1 : 0) == before.size(), "EraseRecord");
            for (auto it = m.begin(); it != m.end();) if (!now.count(it->first)) { CHECK(it->second == b, "EraseRecord took another"); it = m.erase(it); } else ++it;
            break;
        }
        default: CHECK(v.UpdateKey("t", make<T>(a)).IsOperationSuccess, "UpdateKey"); dflt = a; CHECK(v.GetKeyValue("t", got).IsOperationSuccess && got == make<T>(a), "default"); break;
        }
        Compare<T>(v, m, tr);
        Model sub;
        for (int id : IdsOf(set)) { CHECK(m.count(id) == 1, "the set shows an erased record"); sub[id] = m[id]; }
        Compare<T>(set, sub, tr);
    }
    Requests<T>(v, m);
    {
        mvlt::VaultRecordSet all, part, un;
        v.RequestGreaterOrEqual("id", 0, all);
        Requests<T>(all, m);
        part = all;
        const int a = static_cast<int>(Draw(N));
        Model rest;
        bool any = false;
        for (const auto& r : m) if (r.second == a) any = true; else rest.insert(r);
        CHECK(part.RemoveRecords("t", make<T>(a)).IsOperationSuccess == any, "RemoveRecords");
        Compare<T>(part, rest, tr);
        Requests<T>(part, rest);
        CHECK(all.Exclude(part).IsOperationSuccess && all.Size() == m.size() - rest.size(), "Exclude");
        CHECK(all.Join(part).IsOperationSuccess, "Join");
        Compare<T>(all, m, tr);
        CHECK(mvlt::Intersection(all, part, un).IsOperationSuccess, "Intersection");
        Compare<T>(un, rest, tr);
        CHECK(part.GetKeyValue("t", got).IsOperationSuccess && got == make<T>(dflt), "GetKeyValue of a set");
        part.RemoveRecord("t", make<T>(0));
        mvlt::VaultRecordSet moved(std::move(all));
        Compare<T>(moved, m, tr);
    }
    {
        mvlt::Vault copy(v);
        Compare<T>(copy, m, tr);
        copy.DropData();
        Compare<T>(v, m, tr);
        copy = v;
        mvlt::Vault moved(std::move(copy));
        Compare<T>(moved, m, tr);
        Requests<T>(moved, m);
    }
    // a unique key of the type
    const std::map<int, int> marks = gMark;
    gMark.clear();
    {
        mvlt::Vault u;
        u.AddKey("id", -1);
        CHECK(u.AddUniqueKey<T>("t").IsOperationSuccess, "AddUniqueKey");
        for (int i = 0; i < N; ++i) CHECK(u.CreateRecord({ {"id", i}, {"t", make<T>(i)} }).IsOperationSuccess, "unique create");
        CHECK(!u.CreateRecord({ {"id", 9}, {"t", make<T>(2)} }).IsOperationSuccess, "unique clash");
        Ref r;
        CHECK(u.GetRecord("t", make<T>(3), r).IsOperationSuccess, "unique find");
        CHECK(!r.SetData("t", make<T>(4)).IsOperationSuccess && r.SetData("t", make<T>(3)).IsOperationSuccess, "unique update");
        mvlt::Vault w;
        w.AddKey("id", -1);
        for (int i = 0; i < N; ++i) w.CreateRecord({ {"id", i} });
        CHECK(w.AddUniqueKey<T>("t", [](const std::size_t&, const Ref& x) { int id = 0; x.GetData("id", id); return make<T>(id); }).IsOperationSuccess, "AddUniqueKey with a function");
        Model all;
        for (int i = 0; i < N; ++i) all[i] = i;
        Compare<T>(w, all, tr);
        Requests<T>(w, all);
        CHECK(w.RemoveKey("t") && !w.IsKeyExist("t"), "RemoveKey");
        // the same value with another mark, in a unique key
        T value = make<T>(3);
        SetMark(value, 7);
        CHECK(u.GetRecord("t", make<T>(3), r).IsOperationSuccess && r.SetData("t", value).IsOperationSuccess && r.GetData("t", got).IsOperationSuccess && got == value && GetMark(got) == GetMark(value), "an equal value written to a unique key");
    }
    // files
    {
        char name[] = "/tmp/custom-XXXXXX";
        const int fd = mkstemp(name);
        close(fd);
        CHECK(v.SaveToFile(name, { "id", "t" }, ","), "SaveToFile");
        mvlt::Vault w;
        w.AddKey("id", -1);
        w.AddKey("t", make<T>(0));
        CHECK(w.ReadFile(name, ','), "ReadFile");
        unlink(name);
        gMark.clear();
        if (tr.toString && tr.fromString) Compare<T>(w, m, tr);
        else if (!tr.fromString) CHECK(w.Size() == 0 && w.GetErrorsInLastReadedFile().size() == m.size(), "rows of a type without FromString: %zu records, %zu errors of %zu", w.Size(), w.GetErrorsInLastReadedFile().size(), m.size());
        gMark = marks;
    }
    // savers and containers
    {
        mvlt::DataSaver d(make<T>(1)), e;
        CHECK(d.GetData(got) && got == make<T>(1), "DataSaver");
        e = d;
        d.SetData(make<T>(2));
        CHECK(e.GetData(got) && got == make<T>(1) && d.GetData(got) && got == make<T>(2), "DataSaver copy");
        CHECK(d.Str() == (tr.toString ? tr.text(2) : std::string()), "DataSaver Str");
        // the stored type is the one the call names, whatever object it refers to
        const T& alias = Alias<T>(3);
        d.SetData(alias);
        CHECK(d.GetData(got) && got == make<T>(3), "DataSaver set through a reference");
        CHECK(d.GetDataType() == typeid(T), "DataSaver type");
        Ref r;
        CHECK(v.CreateRecord(r, { {"id", next}, {"t", alias} }).IsOperationSuccess, "CreateRecord through a reference");
        CHECK(r.GetData("t", got).IsOperationSuccess && got == make<T>(3), "value created through a reference");
        const T& other = Alias<T>(4);
        CHECK(r.SetData("t", other).IsOperationSuccess && r.GetData("t", got).IsOperationSuccess && got == make<T>(4), "value set through a reference");
        m[next++] = 4;
        Compare<T>(v, m, tr);
        Requests<T>(v, m);
        CHECK(r.SetData({ {"t", alias} }).IsOperationSuccess && r.GetData("t", got).IsOperationSuccess && got == make<T>(3), "value set by a list through a reference");
        m[next - 1] = 3;
        CHECK(v.UpdateKey("t", other).IsOperationSuccess && v.GetKeyValue("t", got).IsOperationSuccess && got == make<T>(4), "UpdateKey through a reference");
        CHECK(v.CreateRecord(r, { {"id", next} }).IsOperationSuccess && r.GetData("t", got).IsOperationSuccess && got == make<T>(4), "default set through a reference");
        m[next++] = 4;
        std::vector<Ref> found;
        std::set<int> want;
        for (const auto& x : m) if (x.second == 3) want.insert(x.first);
        CHECK(v.GetRecords("t", alias, found).IsOperationSuccess && IdsOf(found) == want, "GetRecords through a reference");
        mvlt::VaultRecordSet out;
        CHECK(v.RequestEqual("t", alias, out).IsOperationSuccess && IdsOf(out) == want, "RequestEqual through a reference");
        CHECK(v.Request(mvlt::Equal("t", alias) && mvlt::Less("t", other), out).IsOperationSuccess && IdsOf(out) == want, "And through a reference");
        mvlt::Vault a;
        CHECK(a.AddKey("t", alias) && a.GetKeyValue("t", got).IsOperationSuccess && got == make<T>(3), "AddKey through a reference");
        CHECK(a.CreateRecord({}).IsOperationSuccess && a.EraseRecord("t", alias).IsOperationSuccess && a.Size() == 0, "EraseRecord through a reference");
        Compare<T>(v, m, tr);
        mvlt::DataHashMap hm;
        hm.AddData("a", make<T>(1));
        hm.SetData("a", make<T>(5));
        CHECK(hm.GetData("a", got) && got == make<T>(5), "DataHashMap");
        mvlt::DataMap dm;
        dm.AddData("a", make<T>(4));
        CHECK(dm.GetData("a", got) && got == make<T>(4), "DataMap");
        mvlt::Map<T, int> map(false);
        mvlt::UnorderedMap<T, int> um(false);
        for (int i = N - 1; i >= 0; --i) { map.Emplace(make<T>(i), i); um.Emplace(make<T>(i), i); }
        int k = 0;
        for (auto it = map.Begin(); it != map.End(); ++it) CHECK((*it).second == k++, "Map order");
        CHECK((*um.Find(make<T>(2))).second == 2, "UnorderedMap");
    }
    return 0;
}
