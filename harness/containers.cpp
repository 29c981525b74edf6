// P25 DataSaver, P26 data containers, P27 the map wrappers.
#include "../engine/pbt.h"
#include "props.h"
#include "MVault.h"
#include <algorithm>
#include <any>
#include <iostream>
#include <sstream>

using pbt::Src;

namespace
{
    long Live = 0;                       // Counted objects alive
    struct Counted
    {
        int v = 0;
        const Counted* self = this;      // detects bitwise copies and objects used after their end
        Counted() { ++Live; }
        explicit Counted(int x) : v(x) { ++Live; }
        Counted(const Counted& o) : v(o.v) { o.check(); ++Live; }
        Counted& operator=(const Counted& o) { check(); o.check(); v = o.v; return *this; }
        ~Counted() { check(); self = nullptr; --Live; }
        void check() const { if (self != this) { fprintf(stderr, "a stored object is used outside its life time\n"); abort(); } }
        bool operator==(const Counted& o) const { return v == o.v; }
    };
    struct Mute
    {
        std::ostringstream sink;
        std::streambuf* old;
        Mute() : old(std::cerr.rdbuf(sink.rdbuf())) {}
        ~Mute() { std::cerr.rdbuf(old); }
    };

    // What a saver holds: kind 0 nothing, 1 int, 2 string, 3 double, 4 Counted, 5 int8.
    struct Val
    {
        int kind = 0;
        int i = 0;
        std::string s;
        double d = 0;
        bool operator==(const Val& o) const { return kind == o.kind && i == o.i && s == o.s && d == o.d; }
        bool operator<(const Val& o) const { return std::tie(kind, i, s, d) < std::tie(o.kind, o.i, o.s, o.d); }
        std::string text() const
        {
            switch (kind)
            {
            case 1: case 5: return std::to_string(i);
            case 2: return s;
            case 3: return std::to_string(d);
            default: return "";
            }
        }
        std::string show() const
        {
            static const char* n[] = {"nothing", "int ", "string ", "double ", "Counted ", "int8 "};
            return std::string(n[kind]) + (kind == 4 ? std::to_string(i) : pbt::Show(text()));
        }
    };
    Val GenVal(Src& s)
    {
        Val v;
        v.kind = 1 + static_cast<int>(s.draw(5));
        switch (v.kind)
        {
        case 2: { static const std::vector<std::string> t = {"", "a", "12", "a text that is longer than the small buffer"}; v.s = s.pick(t); break; }
        case 3: v.d = static_cast<double>(s.range(-4, 4)) / 2; break;
        default: v.i = static_cast<int>(s.range(-3, 9)); break;
        }
        return v;
    }

    // custom delete functions record what they were given
    struct Deleted { int which; Val v; };
    std::vector<Deleted> Calls;
    template <class T> Val Wrap(const T&);
    template <> Val Wrap(const int& x) { Val v; v.kind = 1; v.i = x; return v; }
    template <> Val Wrap(const std::string& x) { Val v; v.kind = 2; v.s = x; return v; }
    template <> Val Wrap(const double& x) { Val v; v.kind = 3; v.d = x; return v; }
    template <> Val Wrap(const Counted& x) { Val v; v.kind = 4; x.check(); v.i = x.v; return v; }
    template <> Val Wrap(const std::int8_t& x) { Val v; v.kind = 5; v.i = x; return v; }
    template <class T, int N> void Del(const void* p) { Calls.push_back({N, p ? Wrap(*static_cast<const T*>(p)) : Val()}); }
    using DelFn = void (*)(const void*);
    template <class T> DelFn Deleter(int n) { return n == 1 ? &Del<T, 1> : n == 2 ? &Del<T, 2> : nullptr; }

    // calls f with the value in its own type
    template <class F> void Visit(const Val& v, F f)
    {
        switch (v.kind)
        {
        case 1: f(v.i); break;
        case 2: f(v.s); break;
        case 3: f(v.d); break;
        case 4: f(Counted(v.i)); break;
        case 5: f(static_cast<std::int8_t>(v.i)); break;
        default: break;
        }
    }
    std::type_index TypeOf(int kind)
    {
        switch (kind)
        {
        case 1: return typeid(int);
        case 2: return typeid(std::string);
        case 3: return typeid(double);
        case 4: return typeid(Counted);
        case 5: return typeid(std::int8_t);
        default: return typeid(void);
        }
    }
    bool Parse(int kind, const std::string& t, Val& v)
    {
        if (kind == 2) { v.s = t; return true; }
        if (kind == 1 || kind == 5)
        {
            char* e;
            long n = strtol(t.c_str(), &e, 10);
            if (t.empty() || *e || !(isdigit(static_cast<unsigned char>(t[0])) || (t[0] == '-' && t.size() > 1))) return false;
            if (kind == 5 && (n < -128 || n > 127)) return false;
            v.i = static_cast<int>(n);
            return true;
        }
        if (kind == 3)
        {
            char* e;
            double d = strtod(t.c_str(), &e);
            if (t.empty() || *e || !(isdigit(static_cast<unsigned char>(t[0])) || (t[0] == '-' && t.size() > 1))) return false;
            v.d = d;
            return true;
        }
        return false;
    }
    const std::vector<std::string> Texts = {"5", "-7", "", "x", "2.5", "200", "a text that is longer than the small buffer", "true"};

    // The real content of a saver, read through its public interface.
    void CheckSaver(const mvlt::DataSaver& d, const Val& v, uint64_t tag, const char* who)
    {
        PBT_CHECK(tag, d.GetDataType() == TypeOf(v.kind), "%s has type %s, expected that of %s", who, d.GetDataType().name(), v.show().c_str());
        PBT_CHECK(tag, d.Str() == v.text(), "%s is '%s' as a string, expected that of %s", who, pbt::Show(d.Str()).c_str(), v.show().c_str());
        for (int k = 1; k <= 5; ++k)
        {
            Val probe;
            probe.kind = k;
            probe.i = 77; probe.s = "untouched"; probe.d = 77;
            Visit(probe, [&](const auto& x)
            {
                auto data = x;
                bool ok = d.GetData(data);
                PBT_CHECK(tag, ok == (k == v.kind), "reading %s, which holds %s, as kind %d returns %d", who, v.show().c_str(), k, ok);
                Val got = Wrap(data), want = ok ? v : Wrap(x);
                PBT_CHECK(tag, got == want, "reading %s as kind %d gives %s, expected %s", who, k, got.show().c_str(), want.show().c_str());
            });
        }
    }
}

void SaverHistory(Src& s)
{
    const uint64_t tag = P(25);
    pbt::SetOpTags(tag);
    Mute mute;
    Live = 0;
    Calls.clear();
    struct Slot { mvlt::DataSaver* d; Val v; int del; };
    std::vector<Slot> a;
    for (int i = 0; i < 3; ++i) a.push_back({new mvlt::DataSaver(), Val(), 0});
    for (unsigned n = 0; s.more(n, 25, 9); ++n)
    {
        s.begin();
        std::size_t x = s.draw(3), y = s.draw(3);
        switch (s.weighted({5, 2, 3, 2, 2, 2, 1}))
        {
        case 0:
        {
            Val v = GenVal(s);
            int del = static_cast<int>(s.draw(3));
            pbt::Log("d%zu.SetData(%s%s)", x, v.show().c_str(), del ? del == 1 ? ", deleter 1" : ", deleter 2" : "");
            bool plain = s.flip();
            Visit(v, [&](const auto& val)
            {
                using T = std::decay_t<decltype(val)>;
                if (del == 0 && plain) a[x].d->SetData(val);
                else a[x].d->SetData(val, Deleter<T>(del));
            });
            a[x].v = v;
            a[x].del = del;
            pbt::Mark("set");
            break;
        }
        case 1:
        {
            pbt::Log("d%zu becomes a copy of d%zu", x, y);
            auto* c = new mvlt::DataSaver(*a[y].d);
            delete a[x].d;
            a[x].d = c;
            if (x != y) { a[x].v = a[y].v; a[x].del = a[y].del; }
            pbt::Mark("copy");
            break;
        }
        case 2:
            pbt::Log("d%zu = d%zu", x, y);
            *a[x].d = *a[y].d;
            a[x].v = a[y].v;
            a[x].del = a[y].del;
            pbt::Mark("copy");
            break;
        case 3:
            pbt::Log("d%zu.Swap(d%zu)", x, y);
            a[x].d->Swap(*a[y].d);
            if (x != y) { std::swap(a[x].v, a[y].v); std::swap(a[x].del, a[y].del); }
            pbt::Mark("swap");
            break;
        case 4:
        {
            pbt::Log("d%zu.ResetData()", x);
            Calls.clear();
            a[x].d->ResetData();
            PBT_CHECK(tag, Calls.size() == (a[x].del ? 1u : 0u), "ResetData calls the delete function %zu times, expected %d", Calls.size(), a[x].del ? 1 : 0);
            if (a[x].del) PBT_CHECK(tag, Calls[0].which == a[x].del && Calls[0].v == a[x].v, "ResetData calls delete function %d with %s, expected %d with %s", Calls[0].which, Calls[0].v.show().c_str(), a[x].del, a[x].v.show().c_str());
            a[x].v = Val();
            a[x].del = 0;
            pbt::Mark("reset");
            break;
        }
        case 5:
        {
            const std::string& t = s.pick(Texts);
            bool ok = a[x].d->SetDataFromString(t);
            Val v = a[x].v;
            bool want = Parse(v.kind, t, v);
            pbt::Log("d%zu.SetDataFromString('%s') -> %d", x, t.c_str(), ok);
            PBT_CHECK(tag, ok == want, "reading '%s' into %s returns %d", t.c_str(), a[x].v.show().c_str(), ok);
            a[x].v = v;
            break;
        }
        default:
        {
            // constructors
            Val v = GenVal(s);
            int del = static_cast<int>(s.draw(3));
            delete a[x].d;
            pbt::Log("d%zu is constructed from %s", x, v.show().c_str());
            Visit(v, [&](const auto& val)
            {
                using T = std::decay_t<decltype(val)>;
                if (del == 0) a[x].d = new mvlt::DataSaver(val);
                else a[x].d = new mvlt::DataSaver(val, Deleter<T>(del));
            });
            a[x].v = v;
            a[x].del = del;
        }
        }
        long counted = 0;
        for (auto& sl : a)
        {
            CheckSaver(*sl.d, sl.v, tag, pbt::Fmt("d%d", static_cast<int>(&sl - &a[0])).c_str());
            if (sl.v.kind == 4) ++counted;
        }
        PBT_CHECK(tag, Live == counted, "%ld stored objects are alive, expected %ld", Live, counted);
        s.end();
    }
    for (auto& sl : a) delete sl.d;
    PBT_CHECK(tag, Live == 0, "%ld stored objects are never destroyed", Live);
}

namespace
{
    struct Elem { Val v; int del; };
    using Model = std::multimap<std::string, Elem>;
    const std::vector<std::string> Keys = {"a", "b", "", "c", "a key that is longer than the small buffer"};

    template <class C> std::vector<std::pair<std::string, Val>> Items(C& c, uint64_t tag)
    {
        std::vector<std::pair<std::string, Val>> out;
        auto read = [&](const mvlt::DataSaver& d)
        {
            Val v;
            for (int k = 1; k <= 5; ++k)
                if (d.GetDataType() == TypeOf(k))
                {
                    Val probe;
                    probe.kind = k;
                    Visit(probe, [&](const auto& x) { auto data = x; PBT_CHECK(tag, d.GetData(data), "an element cannot be read in its own type"); v = Wrap(data); });
                }
            return v;
        };
        for (auto it = c.begin(); it != c.end(); ++it) out.emplace_back(it->first, read(it->second));
        std::size_t i = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it, ++i)
            PBT_CHECK(tag, i < out.size() && out[i].first == it->first && out[i].second == read(it->second), "const iteration differs from iteration");
        return out;
    }
    std::string ShowItems(std::vector<std::pair<std::string, Val>> v)
    {
        std::string o;
        for (auto& x : v) o += "'" + x.first + "' " + x.second.show() + "; ";
        return o;
    }

    template <class C, bool Multi, bool Ordered> void RunContainer(Src& s)
    {
        const uint64_t tag = P(26);
        Live = 0;
        {
            C c;
            Model m;
            auto sorted = [](std::vector<std::pair<std::string, Val>> v) { std::sort(v.begin(), v.end()); return v; };
            auto items = [&](const Model& x) { std::vector<std::pair<std::string, Val>> r; for (auto& e : x) r.emplace_back(e.first, e.second.v); return sorted(r); };
            for (unsigned n = 0; s.more(n, 25, 9); ++n)
            {
                s.begin();
                const std::string key = s.pick(Keys);
                std::size_t cnt = m.count(key);
                switch (s.weighted({6, 3, 2, 2, 3, 3, 2, 1}))
                {
                case 0:
                {
                    Val v = GenVal(s);
                    int del = static_cast<int>(s.draw(3));
                    pbt::Log("AddData('%s', %s, deleter %d)", key.c_str(), v.show().c_str(), del);
                    Visit(v, [&](const auto& val) { using T = std::decay_t<decltype(val)>; if (del == 0) c.AddData(key, val); else c.AddData(key, val, Deleter<T>(del)); });
                    if (Multi || cnt == 0) m.emplace(key, Elem{v, del});
                    pbt::Mark("add");
                    break;
                }
                case 1:
                case 2:
                {
                    // replaces some element with this key, or adds one
                    Val v = GenVal(s);
                    int del = static_cast<int>(s.draw(3));
                    bool viaSaver = s.flip();
                    pbt::Log("SetData('%s', %s, deleter %d)%s", key.c_str(), v.show().c_str(), del, viaSaver ? " from a saver" : "");
                    if (cnt > 1) del = 0;
                    Visit(v, [&](const auto& val)
                    {
                        using T = std::decay_t<decltype(val)>;
                        if (viaSaver) { mvlt::DataSaver d(val, Deleter<T>(del)); c.SetDataFromDataSaver(key, d); }
                        else if (del == 0) c.SetData(key, val);
                        else c.SetData(key, val, Deleter<T>(del));
                    });
                    if (cnt == 0) m.emplace(key, Elem{v, del});
                    else
                    {
                        auto now = sorted(Items(c, tag));
                        bool found = false;
                        for (auto r = m.equal_range(key); r.first != r.second && !found; ++r.first)
                        {
                            Elem old = r.first->second;
                            r.first->second = Elem{v, del};
                            if (items(m) == now) found = true;
                            else r.first->second = old;
                        }
                        PBT_CHECK(tag, found, "SetData('%s') does not replace one element: %s", key.c_str(), ShowItems(now).c_str());
                    }
                    pbt::Mark("set");
                    break;
                }
                case 3:
                {
                    Val v = GenVal(s);
                    pbt::Log("AddDataFromDataSaver('%s', %s)", key.c_str(), v.show().c_str());
                    Visit(v, [&](const auto& val) { mvlt::DataSaver d(val); c.AddDataFromDataSaver(key, d); });
                    if (Multi || cnt == 0) m.emplace(key, Elem{v, 0});
                    break;
                }
                case 4:
                {
                    pbt::Log("EraseData('%s')", key.c_str());
                    Calls.clear();
                    c.EraseData(key);
                    if (cnt == 0) PBT_CHECK(tag, Calls.empty(), "erasing a missing key calls a delete function");
                    else
                    {
                        auto now = sorted(Items(c, tag));
                        bool found = false;
                        for (auto r = m.equal_range(key); r.first != r.second && !found; ++r.first)
                        {
                            Elem old = r.first->second;
                            bool callsOk = old.del == 0 ? Calls.empty() : Calls.size() == 1 && Calls[0].which == old.del && Calls[0].v == old.v;
                            Model t = m;
                            auto it = t.begin();
                            std::advance(it, std::distance(m.begin(), Model::iterator(r.first)));
                            t.erase(it);
                            if (callsOk && items(t) == now) { m = t; found = true; break; }
                        }
                        PBT_CHECK(tag, found, "EraseData('%s') does not erase one element and call its delete function (%zu calls): %s", key.c_str(), Calls.size(), ShowItems(now).c_str());
                        pbt::Mark("erase");
                    }
                    break;
                }
                case 5:
                {
                    // reading
                    for (int k = 1; k <= 5; ++k)
                    {
                        Val probe;
                        probe.kind = k;
                        probe.i = 77; probe.s = "untouched"; probe.d = 77;
                        Visit(probe, [&](const auto& x)
                        {
                            auto data = x;
                            bool ok = c.GetData(key, data);
                            PBT_CHECK(tag, ok == (cnt > 0), "GetData('%s') returns %d", key.c_str(), ok);
                            Val got = Wrap(data);
                            bool fits = cnt == 0 ? got == Wrap(x) : false;
                            for (auto r = m.equal_range(key); r.first != r.second; ++r.first)
                                if (r.first->second.v.kind == k ? got == r.first->second.v : got == Wrap(x)) fits = true;
                            PBT_CHECK(tag, fits, "GetData('%s') as kind %d gives %s", key.c_str(), k, got.show().c_str());
                        });
                    }
                    std::string str = "untouched";
                    bool ok = c.GetDataAsString(key, str), fits = cnt == 0 && str == "untouched";
                    for (auto r = m.equal_range(key); r.first != r.second; ++r.first) if (r.first->second.v.text() == str) fits = true;
                    PBT_CHECK(tag, ok == (cnt > 0) && fits, "GetDataAsString('%s') returns %d, '%s'", key.c_str(), ok, pbt::Show(str).c_str());
                    mvlt::DataSaver d(4);
                    ok = c.GetDataSaver(key, d);
                    fits = cnt == 0 && d.GetDataType() == typeid(int) && d.Str() == "4";
                    for (auto r = m.equal_range(key); r.first != r.second; ++r.first) if (r.first->second.v.text() == d.Str() && d.GetDataType() == TypeOf(r.first->second.v.kind)) fits = true;
                    PBT_CHECK(tag, ok == (cnt > 0) && fits, "GetDataSaver('%s') returns %d with '%s'", key.c_str(), ok, pbt::Show(d.Str()).c_str());
                    break;
                }
                case 6:
                {
                    const std::string& t = s.pick(Texts);
                    bool ok = c.SetDataFromString(key, t);
                    pbt::Log("SetDataFromString('%s', '%s') -> %d", key.c_str(), t.c_str(), ok);
                    auto now = sorted(Items(c, tag));
                    bool found = cnt == 0 && !ok && now == items(m);
                    for (auto r = m.equal_range(key); r.first != r.second && !found; ++r.first)
                    {
                        Elem old = r.first->second;
                        Val v = old.v;
                        bool want = Parse(v.kind, t, v);
                        if (want) r.first->second.v = v;
                        if (ok == want && items(m) == now) found = true;
                        else r.first->second = old;
                    }
                    PBT_CHECK(tag, found, "SetDataFromString('%s', '%s') returns %d and gives %s", key.c_str(), t.c_str(), ok, ShowItems(now).c_str());
                    break;
                }
                default:
                    pbt::Log("Clear()");
                    c.Clear();
                    m.clear();
                }
                auto raw = Items(c, tag);
                auto now = sorted(raw);
                PBT_CHECK(tag, now == items(m), "the container holds %s; expected %s", ShowItems(now).c_str(), ShowItems(items(m)).c_str());
                if (Ordered) PBT_CHECK(tag, std::is_sorted(raw.begin(), raw.end(), [](auto& x, auto& y) { return x.first < y.first; }), "the container is not ordered by key");
                PBT_CHECK(tag, c.Size() == m.size(), "Size() is %zu, expected %zu", c.Size(), m.size());
                for (auto& k : Keys)
                {
                    PBT_CHECK(tag, c.IsData(k) == (m.count(k) > 0), "IsData('%s') is %d", k.c_str(), c.IsData(k));
                    if constexpr (Multi)
                    {
                        auto r = c.GetAllData(k);
                        std::vector<std::string> got, want;
                        for (auto it = r.first; it != r.second; ++it) { PBT_CHECK(tag, it->first == k, "GetAllData('%s') has key '%s'", k.c_str(), it->first.c_str()); got.push_back(it->second.Str()); }
                        for (auto e = m.equal_range(k); e.first != e.second; ++e.first) want.push_back(e.first->second.v.text());
                        std::sort(got.begin(), got.end());
                        std::sort(want.begin(), want.end());
                        PBT_CHECK(tag, got == want, "GetAllData('%s') gives %zu elements, expected %zu", k.c_str(), got.size(), want.size());
                    }
                }
                long counted = 0;
                for (auto& e : m) if (e.second.v.kind == 4) ++counted;
                PBT_CHECK(tag, Live == counted, "%ld stored objects are alive, expected %ld", Live, counted);
                s.end();
            }
        }
        PBT_CHECK(tag, Live == 0, "%ld stored objects are never destroyed", Live);
    }
}

void ContainerHistory(Src& s)
{
    pbt::SetOpTags(P(26));
    Mute mute;
    switch (s.draw(4))
    {
    case 0: pbt::Log("DataHashMap"); RunContainer<mvlt::DataHashMap, false, false>(s); break;
    case 1: pbt::Log("DataMultiHashMap"); RunContainer<mvlt::DataMultiHashMap, true, false>(s); break;
    case 2: pbt::Log("DataMap"); RunContainer<mvlt::DataMap, false, true>(s); break;
    default: pbt::Log("DataMultiMap"); RunContainer<mvlt::DataMultiMap, true, true>(s); break;
    }
}

namespace
{
    using Pairs = std::vector<std::pair<int, int>>;
    std::string ShowPairs(const Pairs& p)
    {
        std::string o;
        for (auto& x : p) o += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
        return o;
    }
    template <class It> Pairs Walk(It a, It b, std::size_t max = 1000)
    {
        Pairs r;
        for (; a != b && r.size() < max; ++a) r.push_back(*a);
        return r;
    }

    template <class M, bool Ordered> void RunMap(Src& s)
    {
        const uint64_t tag = P(27);
        bool multi = s.flip();
        pbt::Log("%s%s", multi ? "multi " : "", Ordered ? "Map" : "UnorderedMap");
        M m(multi);
        std::multimap<int, int> model;
        auto all = [&]
        {
            Pairs r(model.begin(), model.end());
            std::sort(r.begin(), r.end());
            return r;
        };
        auto sorted = [](Pairs p) { std::sort(p.begin(), p.end()); return p; };
        int serial = 0;
        M other(!multi);
        other.Emplace(1, 1000);
        other.Emplace(3, 1001);
        decltype(m.begin()) held;
        bool has = false;
        std::pair<int, int> heldVal;
        PBT_CHECK(tag, m.IsMultiContainer() == multi, "IsMultiContainer() is wrong");
        for (unsigned n = 0; s.more(n, 40, 14); ++n)
        {
            s.begin();
            int key = static_cast<int>(s.draw(7));
            std::size_t cnt = model.count(key);
            switch (s.weighted({6, 2, 3, 1, 2}))
            {
            case 0:
            {
                int val = ++serial;
                auto r = m.Emplace(int(key), int(val));
                pbt::Log("Emplace(%d, %d) -> %d", key, val, r.second);
                bool want = multi || cnt == 0;
                PBT_CHECK(tag, r.second == want, "Emplace of key %d, of which there are %zu, returns %d", key, cnt, r.second);
                if (want) model.emplace(key, val);
                auto at = *r.first;
                PBT_CHECK(tag, at.first == key && (want ? at.second == val : at.second == model.find(key)->second), "Emplace(%d, %d) gives an iterator to %d:%d", key, val, at.first, at.second);
                pbt::Mark("emplace");
                if (multi && cnt) pbt::Mark("equal-keys");
                break;
            }
            case 1:
            {
                std::size_t k = m.Erase(key);
                pbt::Log("Erase(%d) -> %zu", key, k);
                PBT_CHECK(tag, k == cnt, "Erase(%d) returns %zu, expected %zu", key, k, cnt);
                model.erase(key);
                pbt::Mark("erase");
                break;
            }
            case 2:
            {
                // erase at an iterator
                if (model.empty()) break;
                std::size_t k = s.draw(model.size());
                auto it = m.begin();
                for (std::size_t i = 0; i < k; ++i) ++it;
                auto victim = *it;
                Pairs before = Walk(m.begin(), m.end());
                auto next = m.Erase(it);
                pbt::Log("Erase(iterator to %d:%d)", victim.first, victim.second);
                Pairs tail = Walk(next, m.end()), want(before.begin() + static_cast<long>(k) + 1, before.end());
                PBT_CHECK(tag, tail == want, "after erasing %d:%d the iteration goes on with %s; expected %s", victim.first, victim.second, ShowPairs(tail).c_str(), ShowPairs(want).c_str());
                for (auto r = model.equal_range(victim.first); r.first != r.second; ++r.first)
                    if (r.first->second == victim.second) { model.erase(r.first); break; }
                pbt::Mark("erase");
                break;
            }
            case 3:
                pbt::Log("Clear()");
                m.Clear();
                model.clear();
                break;
            default:
            {
                // copies of iterators
                auto a = m.begin();
                auto b = a;
                auto e = m.end();
                PBT_CHECK(tag, a == b && !(a != b), "an iterator differs from its copy");
                if (model.empty()) { PBT_CHECK(tag, a == e, "begin of an empty map is not its end"); break; }
                PBT_CHECK(tag, a != e && !(a == e), "begin of a map with elements is its end");
                auto first = *a;
                ++a;
                PBT_CHECK(tag, a != b && *b == first, "moving an iterator moves its copy");
                if constexpr (Ordered)
                {
                    --a;
                    PBT_CHECK(tag, a == b && *a == first, "moving back and forth does not end where it began");
                }
                b = a;
                PBT_CHECK(tag, b == a, "an assigned iterator differs");
                // an iterator of a map of the other kind, or of none, assigned one of this map
                decltype(a) c;
                auto d = other.begin();
                unsigned how = static_cast<unsigned>(s.draw(4));
                auto from = m.Find(a == e ? first.first : (*a).first);
                if (how == 0) { d = b; }
                else if (how == 1) { d = std::move(b); }
                else if (how == 2) { c = a; d = std::move(c); }
                else { d = from; auto x(std::move(d)); d = other.end(); d = x; a = from; }
                pbt::Log("an iterator of another map is assigned one of this, way %u", how);
                PBT_CHECK(tag, d == a && !(d != a) && (d == e) == (a == e), "an assigned iterator differs from its source");
                Pairs rest = Walk(a, m.End());
                PBT_CHECK(tag, Walk(d, m.End()) == rest, "an assigned iterator goes another way than its source");
                pbt::Mark("assigned");
                if (Ordered)
                {
                    // the last element, from the end backwards
                    if constexpr (Ordered) { auto z = m.End(); --z; Pairs w = Walk(m.begin(), m.end()); PBT_CHECK(tag, *z == w.back(), "the element before the end is %d:%d", (*z).first, (*z).second); }
                    held = a; has = a != e;
                    if (has) heldVal = *a;
                }
                // and it can be used to erase
                if (d != e && s.chance(1, 4))
                {
                    auto victim = *d;
                    pbt::Log("Erase(iterator to %d:%d)", victim.first, victim.second);
                    PBT_CHECK(tag, Walk(m.Erase(d), m.end()) == Pairs(rest.begin() + 1, rest.end()), "the iteration goes on wrongly after an erasure");
                    for (auto r = model.equal_range(victim.first); r.first != r.second; ++r.first)
                        if (r.first->second == victim.second) { model.erase(r.first); break; }
                    pbt::Mark("erase");
                }
            }
            }
            Pairs raw = Walk(m.begin(), m.end());
            if (Ordered) PBT_CHECK(tag, raw == Pairs(model.begin(), model.end()), "the map holds %s; expected %s, in this order", ShowPairs(raw).c_str(), ShowPairs(Pairs(model.begin(), model.end())).c_str());
            if (has)
            {
                auto at = std::find(raw.begin(), raw.end(), heldVal);
                if (at == raw.end()) has = false;
                else
                {
                    PBT_CHECK(tag, Walk(held, m.End()) == Pairs(at, raw.end()), "an iterator kept meanwhile goes another way: %s", ShowPairs(Walk(held, m.End())).c_str());
                    pbt::Mark("kept");
                }
            }
            PBT_CHECK(tag, Walk(other.begin(), other.end()).size() == 2, "another map was changed");
            PBT_CHECK(tag, sorted(raw) == all(), "the map holds %s; expected %s", ShowPairs(raw).c_str(), ShowPairs(all()).c_str());
            PBT_CHECK(tag, Walk(m.Begin(), m.End()) == raw, "Begin and begin differ");
            PBT_CHECK(tag, m.Size() == model.size(), "Size() is %zu, expected %zu", m.Size(), model.size());
            for (int k = -1; k <= 7; ++k)
            {
                auto r = m.EqualRange(k);
                Pairs got = sorted(Walk(r.first, r.second)), want;
                for (auto e = model.equal_range(k); e.first != e.second; ++e.first) want.push_back(*e.first);
                PBT_CHECK(tag, got == sorted(want), "EqualRange(%d) is %s; expected %s", k, ShowPairs(got).c_str(), ShowPairs(want).c_str());
                auto f = m.Find(k);
                PBT_CHECK(tag, (f == m.end()) == want.empty(), "Find(%d) %s", k, want.empty() ? "finds something" : "finds nothing");
                if (!want.empty()) PBT_CHECK(tag, std::find(want.begin(), want.end(), std::pair<int, int>(*f)) != want.end(), "Find(%d) finds another element", k);
                if constexpr (Ordered)
                {
                    Pairs lo = Walk(m.LowerBound(k), m.End()), hi = Walk(m.UpperBound(k), m.End());
                    Pairs wlo, whi;
                    for (auto& x : raw) { if (x.first >= k) wlo.push_back(x); if (x.first > k) whi.push_back(x); }
                    PBT_CHECK(tag, lo == wlo, "LowerBound(%d) gives %s; expected %s", k, ShowPairs(lo).c_str(), ShowPairs(wlo).c_str());
                    PBT_CHECK(tag, hi == whi, "UpperBound(%d) gives %s; expected %s", k, ShowPairs(hi).c_str(), ShowPairs(whi).c_str());
                }
            }
            if constexpr (Ordered)
            {
                PBT_CHECK(tag, std::is_sorted(raw.begin(), raw.end(), [](auto& x, auto& y) { return x.first < y.first; }), "the map is not ordered: %s", ShowPairs(raw).c_str());
                Pairs back = Walk(m.Rbegin(), m.Rend());
                std::reverse(back.begin(), back.end());
                PBT_CHECK(tag, back == raw, "reverse iteration gives %s; expected the reverse of %s", ShowPairs(back).c_str(), ShowPairs(raw).c_str());
            }
            s.end();
        }
    }
}

void MapHistory(Src& s)
{
    pbt::SetOpTags(P(27));
    if (s.flip()) RunMap<mvlt::Map<int, int>, true>(s);
    else RunMap<mvlt::UnorderedMap<int, int>, false>(s);
}
