// P37: the work of a search, counted in hashes and comparisons of key values, against the documented O(1) and O(log n).
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include "../engine/pbt.h"
#include "props.h"
#include "MVault.h"

using pbt::Src;
using Ref = mvlt::VaultRecordRef;

// Every edge of the library's control flow that is taken counts as a step (clang's -fsanitize-coverage=trace-pc-guard).
static long long Edges = 0;
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++Edges; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}

namespace
{
    long long Work = 0, Hashes = 0;
    struct Num
    {
        long long v = 0;
        Num() = default;
        explicit Num(long long x) : v(x) {}
        bool operator==(const Num& o) const { ++Work; return v == o.v; }
        bool operator<(const Num& o) const { ++Work; return v < o.v; }
    };
}
namespace std { template <> struct hash<Num> { size_t operator()(const Num& n) const noexcept { ++Hashes; return static_cast<size_t>(n.v); } }; }
namespace mvlt
{
    template <> inline std::string ToString(const Num& n) noexcept { return std::to_string(n.v); }
    template <> inline bool FromString(const std::string& s, Num& n) noexcept { n.v = atoll(s.c_str()); return true; }
}

namespace
{
    const uint64_t T = P(37);
    const std::size_t All = static_cast<std::size_t>(-1);

    struct Column { std::string name; int shape; bool uniq; long long span; };     // shape 0 distinct-ish, 1 small groups, 2 few values
    struct Row { std::vector<long long> v; bool inSet; };

    struct Prng                              // bulk data comes from one choice, so that a case stays short
    {
        uint64_t x;
        uint64_t operator()(uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 11) % n; }
    };

    struct Bench
    {
        Src& s;
        std::unique_ptr<mvlt::Vault> v{new mvlt::Vault};
        mvlt::VaultRecordSet set, out;
        std::vector<Column> cols;
        std::vector<Row> rows;
        long long nextUnique = 0;
        bool haveSet = false;
        Prng rnd{1};

        explicit Bench(Src& src) : s(src) {}

        double lg() const { return std::log2(static_cast<double>(rows.size()) + 2); }
        long long gen(const Column& c) { return c.uniq ? nextUnique++ : static_cast<long long>(rnd(static_cast<uint64_t>(c.span))); }

        template <class F> std::size_t count(bool inSet, std::size_t c, F&& f) const
        {
            std::size_t n = 0;
            for (auto& r : rows) if ((!inSet || r.inSet) && f(r.v[c])) ++n;
            return n;
        }
        std::size_t dup(bool inSet, std::size_t c, long long x) const { return count(inSet, c, [&](long long y) { return y == x; }); }

        template <class F> void measure(const std::string& what, double bound, bool hashes, F&& f)
        {
            Work = Hashes = Edges = 0;
            f();
            long long e = Edges;
            long long w = Work + (hashes ? Hashes : 0);
            double steps = 4000 + 12 * bound;
            if (hashes) PBT_CHECK(T, static_cast<double>(e) <= steps, "%s takes %lld steps among %zu records, at most %.0f expected", what.c_str(), e, rows.size(), steps);
            pbt::Log("%s: %lld hashes and comparisons, %lld steps", what.c_str(), w, e);
            PBT_CHECK(T, static_cast<double>(w) <= bound, "%s takes %lld hashes and comparisons of key values among %zu records, at most %.0f expected", what.c_str(), w, rows.size(), bound);
            if (static_cast<double>(rows.size()) > bound && static_cast<double>(rows.size()) * 5 > steps) pbt::Mark("cheaper-than-a-scan");
        }

        void build()
        {
            unsigned bits = 3 + static_cast<unsigned>(s.draw(11));
            std::size_t n = (std::size_t(1) << bits) + s.draw(std::size_t(1) << bits);
            std::size_t nc = 1 + s.draw(3);
            rnd.x = 88172645463325252ull + s.draw(1u << 20) * 2654435761u;
            for (std::size_t k = 0; k < nc; ++k)
            {
                Column c;
                c.name = "c" + std::to_string(k);
                c.uniq = s.chance(1, 3);
                c.shape = static_cast<int>(s.weighted({3, 2, 1}));
                c.span = c.shape == 0 ? static_cast<long long>(n) * 4 : c.shape == 1 ? static_cast<long long>(n / 4 + 1) : 3;
                if (c.uniq) v->AddUniqueKey<Num>(c.name); else v->AddKey(c.name, Num(0));
                cols.push_back(c);
            }
            pbt::Log("%zu records, columns:", n);
            for (auto& c : cols) pbt::Log("  %s %s", c.name.c_str(), c.uniq ? "unique" : c.shape == 0 ? "mostly distinct" : c.shape == 1 ? "small groups" : "three values");
            Edges = 0;
            for (std::size_t i = 0; i < n; ++i) create(i + 20 >= n);
            // an index that grows is rebuilt now and then, so what counts is the mean
            double mean = static_cast<double>(Edges) / static_cast<double>(n), most = 2000 + 12 * static_cast<double>(nc) * (16 + 4 * lg());
            PBT_CHECK(T, mean <= most, "creating %zu records takes %.0f steps each, at most %.0f expected", n, mean, most);
            if (s.chance(1, 4))
            {
                Column c{"late", 2, false, 1};
                v->AddKey(c.name, Num(0));
                cols.push_back(c);
                for (auto& r : rows) r.v.push_back(0);
                pbt::Log("  late: added when the records were there");
            }
            if (s.chance(1, 4)) { std::unique_ptr<mvlt::Vault> w(new mvlt::Vault(*v)); v.swap(w); pbt::Log("continues in a copy of the vault"); }
            else if (s.chance(1, 4)) { std::unique_ptr<mvlt::Vault> w(new mvlt::Vault(std::move(*v))); v.swap(w); pbt::Log("continues in a vault moved to"); }
            if (s.flip())
            {
                std::size_t c = s.draw(cols.size());
                long long mid = rows[s.draw(rows.size())].v[c];
                v->RequestGreaterOrEqual(cols[c].name, Num(mid), set);
                for (auto& r : rows) r.inSet = r.v[c] >= mid;
                haveSet = true;
                pbt::Log("a set holds the records with %s >= %lld", cols[c].name.c_str(), mid);
                if (s.chance(1, 3)) { mvlt::VaultRecordSet t(set); set = t; }
            }
        }
        void create(bool measured)
        {
            Row r; r.inSet = false;
            std::vector<std::pair<std::string, mvlt::VaultParamInput>> params;
            double bound = 64;
            for (std::size_t c = 0; c < cols.size(); ++c)
            {
                r.v.push_back(gen(cols[c]));
                params.emplace_back(cols[c].name, mvlt::VaultParamInput(Num(r.v[c])));
                bound += 16 + 4 * lg();
            }
            long long before = Edges;
            auto f = [&] { PBT_CHECK(T, v->CreateRecord(params).IsOperationSuccess, "CreateRecord fails"); };
            if (measured) measure("CreateRecord", bound, false, f); else f();
            if (measured) Edges += before;
            rows.push_back(r);
        }
        std::size_t pickRow() { return s.draw(rows.size()); }
        // What changing the value of one column, or erasing it, may cost: the indexes of the vault and of the sets that hold the record.
        double indexCost(std::size_t c, long long x) const
        {
            return 2 * (24 + 4 * lg()) + 4 * static_cast<double>(dup(false, c, x) + dup(true, c, x) + dup(false, c, x));
        }

        template <class V> void search(V& where, bool inSet, const char* name)
        {
            std::size_t c = s.draw(cols.size());
            const std::string& key = cols[c].name;
            double C = static_cast<double>(cols.size());
            auto per = [&](std::size_t d) { return 64 + 8 * lg() + static_cast<double>(d) * C * (10 + 2 * lg()); };
            std::size_t i = pickRow();
            long long x = rows[i].v[c];
            if (s.chance(1, 5)) x += static_cast<long long>(s.draw(3));
            std::size_t same = dup(inSet, c, x);
            std::size_t amount = s.chance(1, 4) ? 1 + s.draw(3) : All;
            // a predicate is asked about matching records, and no longer once there are enough
            std::size_t asked = 0;
            const bool ask = s.chance(1, 3);
            const std::function<bool(const Ref&)> counting = [&](const Ref&) { ++asked; return true; };
            auto checkAsked = [&](std::size_t d) { if (ask) PBT_CHECK(T, asked <= std::min(d, amount), "the predicate is asked %zu times, %zu records match, the limit is %lld", asked, d, static_cast<long long>(amount)); };
            out.Reset();
            switch (s.draw(6))
            {
            case 0:
            {
                Ref r;
                bool ok = false;
                measure(std::string(name) + "GetRecord(" + key + ", " + std::to_string(x) + ")", 64 + 8 * lg() + 4 * static_cast<double>(same), true, [&] { ok = where.GetRecord(key, Num(x), r).IsOperationSuccess; });
                PBT_CHECK(T, ok == (same > 0), "GetRecord gives %d", ok);
                break;
            }
            case 1:
            {
                std::vector<Ref> refs;
                measure(std::string(name) + "GetRecords(" + key + ", " + std::to_string(x) + ")", 64 + 8 * lg() + 8 * static_cast<double>(same), true, [&] { where.GetRecords(key, Num(x), refs, amount); });
                PBT_CHECK(T, refs.size() == std::min(same, amount), "GetRecords gives %zu of %zu", refs.size(), same);
                break;
            }
            case 2:
            {
                double b = per(std::min(same, amount)) + 8 * static_cast<double>(same);
                measure(std::string(name) + "RequestEqual(" + key + ", " + std::to_string(x) + ")", b, true, [&] { if (ask) where.RequestEqual(key, Num(x), out, amount, counting); else where.RequestEqual(key, Num(x), out, amount); });
                checkAsked(same);
                PBT_CHECK(T, out.Size() == std::min(same, amount), "RequestEqual gives %zu of %zu", out.Size(), same);
                break;
            }
            case 3: case 4:
            {
                // a bound near one end, so that few records match
                std::vector<long long> all;
                for (auto& r : rows) if (!inSet || r.inSet) all.push_back(r.v[c]);
                if (all.empty()) return;
                std::sort(all.begin(), all.end());
                std::size_t at = std::min<std::size_t>(all.size() - 1, s.draw(6));
                unsigned k = static_cast<unsigned>(s.draw(5));
                std::size_t mid = s.draw(all.size());
                long long lo = all[mid], hi = all[std::min(all.size() - 1, mid + s.draw(5))];
                if (k == 0 || k == 1) lo = all[all.size() - 1 - at];
                if (k == 2 || k == 3) hi = all[at];
                bool ib = k == 0 || (k == 4 && s.flip()), ie = k == 2 || (k == 4 && s.flip());
                std::size_t d = count(inSet, c, [&](long long y)
                {
                    bool a = k == 2 || k == 3 || (ib ? y >= lo : y > lo), b = k == 0 || k == 1 || (ie ? y <= hi : y < hi);
                    return a && b;
                });
                static const char* n[] = {"RequestGreaterOrEqual", "RequestGreater", "RequestLessOrEqual", "RequestLess", "RequestInterval"};
                // lo == hi may be answered from the hash index
                double b = per(std::min(d, amount)) + (k == 4 && lo == hi ? 8 * static_cast<double>(dup(inSet, c, lo)) : 0);
                measure(std::string(name) + n[k] + "(" + key + pbt::Fmt(", %lld, %lld), limit %lld", lo, hi, static_cast<long long>(amount)), b, true, [&]
                {
                    switch (k)
                    {
                    case 0: ask ? where.RequestGreaterOrEqual(key, Num(lo), out, amount, counting) : where.RequestGreaterOrEqual(key, Num(lo), out, amount); break;
                    case 1: ask ? where.RequestGreater(key, Num(lo), out, amount, counting) : where.RequestGreater(key, Num(lo), out, amount); break;
                    case 2: ask ? where.RequestLessOrEqual(key, Num(hi), out, amount, counting) : where.RequestLessOrEqual(key, Num(hi), out, amount); break;
                    case 3: ask ? where.RequestLess(key, Num(hi), out, amount, counting) : where.RequestLess(key, Num(hi), out, amount); break;
                    default: ask ? where.RequestInterval(key, Num(lo), Num(hi), out, ib, ie, amount, counting) : where.RequestInterval(key, Num(lo), Num(hi), out, ib, ie, amount);
                    }
                });
                checkAsked(d);
                PBT_CHECK(T, out.Size() == std::min(d, amount), "%s gives %zu of %zu", n[k], out.Size(), d);
                if (d) pbt::Mark("few-of-many");
                break;
            }
            default:
            {
                std::vector<Ref> got;
                std::size_t limit = 1 + s.draw(4);
                bool rev = s.flip();
                measure(std::string(name) + "GetSortedRecords(" + key + ")", 64 + 8 * lg(), true, [&] { got = where.GetSortedRecords(key, rev, limit); });
                std::size_t have = count(inSet, c, [](long long) { return true; });
                PBT_CHECK(T, got.size() == std::min(have, limit), "GetSortedRecords gives %zu", got.size());
            }
            }
        }
        // And/Or of two conditions that few records meet.
        void complex()
        {
            std::size_t a = s.draw(cols.size()), b = s.draw(cols.size());
            long long x = rows[pickRow()].v[a], y = rows[pickRow()].v[b];
            if (s.flip())
            {
                y = rows[0].v[b];
                for (auto& r : rows) y = std::max(y, r.v[b]);
                y -= static_cast<long long>(s.draw(4));
            }
            std::size_t da = dup(false, a, x), db = count(false, b, [&](long long z) { return z >= y; });
            if (da > 40 || db > 40) return;
            bool both = s.flip();
            std::size_t want = 0;
            for (auto& r : rows) if (both ? r.v[a] == x && r.v[b] >= y : r.v[a] == x || r.v[b] >= y) ++want;
            double bound = 128 + 16 * lg() + static_cast<double>(da + db) * static_cast<double>(cols.size()) * (10 + 2 * lg());
            out.Reset();
            measure(pbt::Fmt("vault.Request(Equal(%s, %lld) %s GreaterOrEqual(%s, %lld))", cols[a].name.c_str(), x, both ? "&&" : "||", cols[b].name.c_str(), y), bound, true, [&]
            {
                if (both) v->Request(mvlt::Equal(cols[a].name, Num(x)) && mvlt::GreaterOrEqual(cols[b].name, Num(y)), out);
                else v->Request(mvlt::Equal(cols[a].name, Num(x)) || mvlt::GreaterOrEqual(cols[b].name, Num(y)), out);
            });
            PBT_CHECK(T, out.Size() == want, "the request gives %zu of %zu", out.Size(), want);
        }
        // One record more or less in a set.
        void member()
        {
            std::size_t i = pickRow();
            Ref r;
            if (!grab(i, r)) return;
            double b = 64;
            for (std::size_t c = 0; c < cols.size(); ++c) b += 24 + 4 * lg() + 4 * static_cast<double>(dup(true, c, rows[i].v[c]));
            if (rows[i].inSet) measure("set.RemoveRecord", b, true, [&] { set.RemoveRecord(r); });
            else measure("set.AddRecord", b, false, [&] { set.AddRecord(r); });
            rows[i].inSet = !rows[i].inSet;
        }
        bool grab(std::size_t i, Ref& r)
        {
            for (std::size_t c = 0; c < cols.size(); ++c)
                if (dup(false, c, rows[i].v[c]) == 1) return v->GetRecord(cols[c].name, Num(rows[i].v[c]), r).IsOperationSuccess;
            return false;
        }
        void change()
        {
            std::size_t i = pickRow(), c = s.draw(cols.size());
            Ref r;
            if (!grab(i, r)) return;
            long long x = gen(cols[c]);
            double b = 64 + indexCost(c, rows[i].v[c]) + 2 * static_cast<double>(dup(false, c, x));
            measure("SetData(" + cols[c].name + ", " + std::to_string(x) + ")", b, true, [&] { PBT_CHECK(T, r.SetData(cols[c].name, Num(x)).IsOperationSuccess, "SetData fails"); });
            rows[i].v[c] = x;
        }
        void erase()
        {
            if (rows.size() < 4) return;
            std::size_t i = pickRow();
            double b = 64;
            for (std::size_t c = 0; c < cols.size(); ++c) b += indexCost(c, rows[i].v[c]) + 16 + 2 * lg();
            Ref r;
            if (!grab(i, r)) return;
            std::size_t size = v->Size();
            measure("EraseRecord", b, true, [&] { v->EraseRecord(r); });
            PBT_CHECK(T, v->Size() == size - 1, "EraseRecord leaves %zu of %zu", v->Size(), size);
            rows.erase(rows.begin() + static_cast<std::ptrdiff_t>(i));
        }
        void run()
        {
            build();
            unsigned n = 0;
            while (s.more(n++, 60, 25))
            {
                switch (s.weighted({8, haveSet ? 5u : 0u, 2, 2, 1, 2, haveSet ? 2u : 0u}))
                {
                case 0: search(*v, false, "vault."); break;
                case 1: search(set, true, "set."); break;
                case 2: change(); break;
                case 3: erase(); break;
                case 4: create(true); break;
                case 5: complex(); break;
                default: member();
                }
                s.end();
            }
        }
    };
    void Cost(Src& s) { pbt::SetOpTags(T); Bench b(s); b.run(); }
}

int main(int argc, char** argv)
{
    return pbt::Main(argc, argv, {
        {"P37", T, Cost, {"cheaper-than-a-scan", "few-of-many"}, "some search was held to fewer steps than the vault has records, and a range request found some of many records", 4000, 200000},
    });
}
