#include "machine.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include <unistd.h>

using namespace mvlt;
using pbt::Fmt; using pbt::Log; using pbt::Mark; using pbt::Show;

namespace
{
const int NV = 3, NS = 4, NR = 6;
const std::size_t All = static_cast<std::size_t>(-1);

const std::vector<const TypeOps*>& Types()
{
    static const std::vector<const TypeOps*> t = {&OpsInt(), &OpsString(), &OpsTracked(), &OpsDouble(), &OpsBool(), &OpsU16()};
    return t;
}
const char* KindName(Kind k)
{
    static const char* n[] = {"Equal", "Less", "LessOrEqual", "Greater", "GreaterOrEqual", "Interval"};
    return n[static_cast<int>(k)];
}
std::string Ids(const std::set<Id>& s) { std::string r = "{"; for (Id i : s) r += std::to_string(i) + " "; return r + "}"; }

struct PredM           // a predicate over record ids, pure so that the model can evaluate it
{
    int kind = 0;      // 0 none, 1 odd id, 2 id >= k, 3 all, 4 nothing, 5 column value == val, 6 odd id and queries the vault meanwhile
    Id k = 0;
    std::string key;
    int val = 0;
};

// The tree of a complex request.
struct Node
{
    bool leaf = true, isAnd = false;
    std::string key; const TypeOps* ops = nullptr; int val = 0; Kind kind = Kind::Equal; PredM pred;
    std::unique_ptr<Node> a, b;
    std::unique_ptr<AnyRequest> req;
    Pred fn;
};

struct World
{
    pbt::Src& s;
    Options o;
    std::array<VaultM, NV> V;
    std::array<SetM, NS> S;
    std::array<RefM, NR> R;
    Id nextId = 1;
    unsigned opNo = 0;
    unsigned maxRecs = 8;
    unsigned skew = 3;                 // values are drawn from the first few of the pool most of the time
    std::vector<std::pair<Ref, Id>> escaped;   // references stored by a callback
    bool callbackReadFailed = false, nestedBad = false;

    World(pbt::Src& src, const Options& opt) : s(src), o(opt) {}

    // ---------------------------------------------------------------- helpers
    int pickVault(bool needAlive = true)
    {
        std::vector<int> c;
        for (int i = 0; i < NV; ++i) if (V[i].alive() || !needAlive) c.push_back(i);
        if (c.empty()) return -1;
        return c[s.draw(c.size())];
    }
    int pickSet() { return static_cast<int>(s.draw(NS)); }
    int pickSetWithParent()
    {
        std::vector<int> c;
        for (int i = 0; i < NS; ++i) if (S[i].parent >= 0) c.push_back(i);
        if (c.empty() || s.chance(1, 12)) return pickSet();
        return c[s.draw(c.size())];
    }
    int pickRef(RefM::St want)
    {
        std::vector<int> c;
        for (int i = 0; i < NR; ++i) if (R[i].st == want) c.push_back(i);
        if (c.empty()) return -1;
        return c[s.draw(c.size())];
    }
    int pickVal(const TypeOps* t)
    {
        int n = t->count();
        if (s.chance(1, 5)) return static_cast<int>(s.draw(static_cast<uint64_t>(n)));
        return (t->zero() + static_cast<int>(s.draw(std::min<uint64_t>(skew, static_cast<uint64_t>(n))))) % n;
    }
    // A value that is present in the column, usually.
    int pickPresent(const VaultM& v, const Col& c)
    {
        if (!v.recs.empty() && s.chance(3, 4))
        {
            auto it = v.recs.begin();
            std::advance(it, static_cast<long>(s.draw(v.recs.size())));
            return it->second.at(c.name);
        }
        return pickVal(c.ops);
    }
    const Col* pickCol(const VaultM& v, bool needOps = true)
    {
        std::vector<const Col*> c;
        for (auto& x : v.cols) if (x.ops || !needOps) c.push_back(&x);
        if (c.empty()) return nullptr;
        return c[s.draw(c.size())];
    }
    struct Target { std::string key; const TypeOps* t; int val; Code err; const Col* col; };   // err Success: well formed
    Target pickTarget(const VaultM& v, unsigned badOneIn = 8)
    {
        const Col* c = pickCol(v);
        Target r{"", Types()[0], 0, Code::Success, nullptr};
        bool bad = s.chance(1, badOneIn);
        if (c && !bad)
            return Target{c->name, c->ops, pickPresent(v, *c), Code::Success, c};
        r.t = Types()[s.draw(Types().size())];
        r.val = pickVal(r.t);
        if (!v.cols.empty() && s.flip())
        {
            const Col* x = pickCol(v, false);
            if (x->type() != r.t->type()) { r.key = x->name; r.err = Code::WrongType; r.col = x; return r; }
        }
        r.key = "nokey"; r.err = Code::WrongKey;
        return r;
    }
    // A result describes itself: its text names the code and nothing else, printing it shows every field, and results are equal when all fields are.
    void checkResultText(const Res& r, const char* op)
    {
        static std::map<std::string, int> codeOf;
        if (codeOf.empty())
            for (int c = 0; c <= static_cast<int>(Code::Success); ++c)
            {
                Res x;
                x.ResultCode = static_cast<Code>(c);
                std::string text = x.ResultCodeString();
                PBT_CHECK(P(8), !text.empty() && codeOf.emplace(text, c).second, "the codes %d and %d have the same text '%s'", c, codeOf.count(text) ? codeOf[text] : -1, text.c_str());
            }
        auto it = codeOf.find(r.ResultCodeString());
        PBT_CHECK(P(8), it != codeOf.end() && it->second == static_cast<int>(r.ResultCode), "%s: the text of result code %d is '%s'", op, static_cast<int>(r.ResultCode), r.ResultCodeString().c_str());
        std::stringstream ss;
        auto* old = std::cout.rdbuf(ss.rdbuf());
        r.Print();
        std::cout.rdbuf(old);
        const std::string out = ss.str();
        auto has = [&](const std::string& x) { return out.find(x) != std::string::npos; };
        PBT_CHECK(P(8), has("Success!") == r.IsOperationSuccess && has("Failed!") == !r.IsOperationSuccess && has(r.ResultCodeString()) && has(r.Key) && has(r.RequestedType.name()) && has(r.SavedType.name()), "%s: the result prints as '%s'", op, Show(out).c_str());
        Res same = r, key = r, code = r, success = r, saved = r, req = r;
        key.Key += "?";
        code.ResultCode = r.ResultCode == Code::Idle ? Code::Success : Code::Idle;
        success.IsOperationSuccess = !r.IsOperationSuccess;
        saved.SavedType = r.SavedType == typeid(World) ? typeid(Res) : typeid(World);
        req.RequestedType = r.RequestedType == typeid(World) ? typeid(Res) : typeid(World);
        PBT_CHECK(P(8), r == same && !(r == key) && !(r == code) && !(r == success) && !(r == saved) && !(r == req), "%s: results are compared wrongly", op);
    }
    // Fields of a failed operation's result.
    void expectFail(uint64_t tags, const char* op, const Res& r, Code code, const std::string* key, const std::type_index* req, const std::type_index* saved)
    {
        tags |= P(8);
        opTags |= P(8);                    // the state check after this operation is about a failed operation
        PBT_CHECK(tags, !r.IsOperationSuccess, "%s must fail with code %d but reports success", op, static_cast<int>(code));
        PBT_CHECK(tags, r.ResultCode == code, "%s: result code %d (%s), expected %d", op, static_cast<int>(r.ResultCode), r.ResultCodeString().c_str(), static_cast<int>(code));
        if (key) PBT_CHECK(tags, r.Key == *key, "%s: result Key '%s', expected '%s'", op, r.Key.c_str(), key->c_str());
        if (req) PBT_CHECK(tags, r.RequestedType == *req, "%s: RequestedType %s, expected %s", op, r.RequestedType.name(), req->name());
        if (saved) PBT_CHECK(tags, r.SavedType == *saved, "%s: SavedType %s, expected %s", op, r.SavedType.name(), saved->name());
        checkResultText(r, op);
        Mark("failed-op");
    }
    void expectFailTarget(uint64_t tags, const char* op, const Res& r, const Target& t)
    {
        std::type_index req = t.t->type();
        std::type_index saved = t.col ? t.col->type() : std::type_index(typeid(void));
        expectFail(tags, op, r, t.err, &t.key, &req, t.err == Code::WrongType ? &saved : nullptr);
    }
    void expectOk(uint64_t tags, const char* op, const Res& r, const std::string* key = nullptr)
    {
        PBT_CHECK(tags, r.IsOperationSuccess && r.ResultCode == Code::Success, "%s: expected success, got code %d (%s) key '%s'", op, static_cast<int>(r.ResultCode), r.ResultCodeString().c_str(), r.Key.c_str());
        if (key) PBT_CHECK(tags, r.Key == *key, "%s: successful result has Key '%s', expected '%s'", op, r.Key.c_str(), key->c_str());
    }
    Id idOf(const Ref& r, uint64_t tags)
    {
        Id id = -1;
        Res x = r.GetData("id", id);
        PBT_CHECK(tags, x.IsOperationSuccess, "GetData(id) on a returned reference failed with code %d (%s)", static_cast<int>(x.ResultCode), x.ResultCodeString().c_str());
        return id;
    }
    std::set<Id> idsOf(const std::vector<Ref>& refs, uint64_t tags)
    {
        std::set<Id> r;
        for (auto& x : refs)
        {
            Id i = idOf(x, tags);
            PBT_CHECK(tags, r.insert(i).second, "the record with id %lld is returned twice", static_cast<long long>(i));
        }
        return r;
    }
    std::set<Id> setIds(const VaultRecordSet& vs, uint64_t tags) { return idsOf(vs.GetSortedRecords("id"), tags); }

    std::set<Id> idsOfVault(int v) const { std::set<Id> r; for (auto& x : V[v].recs) r.insert(x.first); return r; }

    bool predHolds(const PredM& p, const VaultM& v, Id id) const
    {
        switch (p.kind)
        {
        case 1: case 6: return id % 2 != 0;
        case 2: return id >= p.k;
        case 4: return false;
        case 5: return v.recs.at(id).at(p.key) == p.val;
        default: return true;
        }
    }
    PredM pickPred(const VaultM& v)
    {
        PredM p;
        p.kind = static_cast<int>(s.draw(7));
        p.k = s.range(0, nextId);
        if (p.kind >= 5)
        {
            const Col* c = pickCol(v);
            if (!c) p.kind = 1;
            else { p.key = c->name; p.val = pickPresent(v, *c); }
        }
        return p;
    }
    // Queries made inside a callback see the vault as it is.
    void nested(mvlt::Vault& real, const TypeOps* ops, const PredM& p, const std::set<Id>& want)
    {
        SV sv; sv.v = &real;
        auto ids = [&](const std::vector<Ref>& refs) { std::set<Id> r; for (auto& x : refs) { Id i = -1; x.GetData("id", i); r.insert(i); } return r; };
        std::vector<Ref> refs;
        ops->getRecords(sv, p.key, p.val, refs, All, false);
        bool ok = ids(refs) == want && refs.size() == want.size();
        VaultRecordSet local;
        ops->request(sv, Kind::GreaterOrEqual, p.key, p.val, p.val, false, false, All, nullptr, true, local);
        std::size_t n = 0;
        local.SortBy(p.key, [&](const Ref& x) { int y = -1; ops->getData(x, p.key, y); if (y == p.val) ++n; return true; });
        ok = ok && n == want.size() && real.Size() >= want.size() && local.Size() >= n;
        if (!ok) nestedBad = true;
        Mark("nested-query");
    }
    Pred makePred(const PredM& p, const VaultM& v, bool escape)
    {
        const TypeOps* ops = p.kind >= 5 ? v.col(p.key)->ops : nullptr;
        std::set<Id> want;
        if (p.kind == 6) for (auto& x : v.recs) if (x.second.at(p.key) == p.val) want.insert(x.first);
        mvlt::Vault* real = v.real.get();
        // Nothing may be thrown out of a callback: a failed read is recorded and reported after the operation.
        return [this, p, ops, escape, want, real](const Ref& r) -> bool
        {
            Id id = -1;
            if (!r.GetData("id", id).IsOperationSuccess || !r.IsValid()) { callbackReadFailed = true; return false; }
            if (escape && escaped.size() < 3) escaped.emplace_back(r, id);
            switch (p.kind)
            {
            case 1: return id % 2 != 0;
            case 2: return id >= p.k;
            case 4: return false;
            case 5: { int x = -1; if (!ops->getData(r, p.key, x).IsOperationSuccess) callbackReadFailed = true; return x == p.val; }
            case 6: nested(*real, ops, p, want); return id % 2 != 0;
            default: return true;
            }
        };
    }
    void afterCallbacks(uint64_t tags, int v)
    {
        PBT_CHECK(tags, !callbackReadFailed, "a record handed to a callback could not be read inside the callback");
        PBT_CHECK(tags, !nestedBad, "a query made inside a callback gave a wrong result");
        for (auto& e : escaped)
        {
            int slot = static_cast<int>(s.draw(NR));
            R[slot].real = e.first;
            R[slot].st = RefM::Live; R[slot].vault = v; R[slot].id = e.second;
            Mark("callback-ref-kept");
        }
        escaped.clear();
    }
    std::size_t pickAmount(std::size_t matches)
    {
        switch (s.draw(5))
        {
        case 0: return All;
        case 1: return 1;
        case 2: return matches == 0 ? 1 : matches - s.draw(std::min<std::size_t>(matches, 2));
        case 3: return s.draw(matches + 2);
        default:
            // no limit at all, were it cut to fewer bits
            if (s.chance(1, 3)) return (static_cast<std::size_t>(1) << (s.flip() ? 32 : s.pick(std::vector<int>{8, 16, 31, 48, 63}))) + s.draw(2);
            return 0;
        }
    }
    bool cmp(Kind k, int x, int a, int b, bool ib, bool ie) const
    {
        switch (k)
        {
        case Kind::Equal: return x == a;
        case Kind::Less: return x < a;
        case Kind::LessOrEqual: return x <= a;
        case Kind::Greater: return x > a;
        case Kind::GreaterOrEqual: return x >= a;
        case Kind::Interval: return (ib ? x >= a : x > a) && (ie ? x <= b : x < b);
        }
        return false;
    }
    void killRefs(int v, const std::set<Id>* only = nullptr)
    {
        for (auto& r : R) if (r.st == RefM::Live && r.vault == v && (!only || only->count(r.id))) r.st = RefM::Dead;
    }
    void eraseIds(int v, const std::set<Id>& ids)
    {
        killRefs(v, &ids);
        for (Id i : ids) { V[v].recs.erase(i); for (auto& x : S) if (x.parent == v) x.ids.erase(i); }
    }
    void detachSets(int v) { for (auto& x : S) if (x.parent == v) { x.parent = -1; x.ids.clear(); } }
    void bindRef(int slot, int v, Id id) { R[slot].st = RefM::Live; R[slot].vault = v; R[slot].id = id; }

    // ---------------------------------------------------------------- state checks
    void checkKeys(SV sv, const VaultM& m, uint64_t tags)
    {
        auto names = [&] { std::vector<std::string> r; for (auto& c : m.cols) r.push_back(c.name); return r; }();
        std::vector<std::string> uniq;
        for (auto& c : m.cols) if (c.uniq) uniq.push_back(c.name);
        std::sort(uniq.begin(), uniq.end());
        auto got = sv.v ? sv.v->GetKeys() : sv.s->GetKeys();
        PBT_CHECK(tags, got == names, "GetKeys returns %zu keys, expected %zu in order of addition", got.size(), names.size());
        auto gotU = sv.v ? sv.v->GetUniqueKeys() : sv.s->GetUniqueKeys();
        std::sort(gotU.begin(), gotU.end());
        PBT_CHECK(tags, gotU == uniq, "GetUniqueKeys returns %zu keys, expected %zu", gotU.size(), uniq.size());
        for (auto& c : m.cols)
        {
            PBT_CHECK(tags, sv.v ? sv.v->IsKeyExist(c.name) : sv.s->IsKeyExist(c.name), "IsKeyExist(%s) is false", c.name.c_str());
            std::type_index t = typeid(void);
            bool ok = sv.v ? sv.v->GetKeyType(c.name, t) : sv.s->GetKeyType(c.name, t);
            PBT_CHECK(tags, ok && t == c.type(), "GetKeyType(%s) gives %s, expected %s", c.name.c_str(), t.name(), c.type().name());
            if (c.ops)
            {
                int d = -9;
                Res r = c.ops->getKeyValue(sv, c.name, d);
                if (c.uniq)
                    PBT_CHECK(tags, !r.IsOperationSuccess && r.ResultCode == Code::UniqueKey && d == -1, "GetKeyValue of unique key %s: code %d", c.name.c_str(), static_cast<int>(r.ResultCode));
                else
                {
                    PBT_CHECK(tags, r.IsOperationSuccess && r.ResultCode == Code::Success, "GetKeyValue(%s): code %d", c.name.c_str(), static_cast<int>(r.ResultCode));
                    PBT_CHECK(tags, d == c.def, "GetKeyValue(%s) gives %s, expected the default %s", c.name.c_str(), d < 0 ? "?" : Show(c.ops->str(d)).c_str(), Show(c.ops->str(c.def)).c_str());
                }
            }
        }
        std::type_index t = typeid(void);
        PBT_CHECK(tags, !(sv.v ? sv.v->IsKeyExist("nokey") : sv.s->IsKeyExist("nokey")) && !(sv.v ? sv.v->GetKeyType("nokey", t) : sv.s->GetKeyType("nokey", t)), "a key that was never added exists");
    }
    std::vector<Ref> sorted(SV sv, const std::string& key, bool rev, std::size_t n = All) { return sv.v ? sv.v->GetSortedRecords(key, rev, n) : sv.s->GetSortedRecords(key, rev, n); }

    // Contents through the id index, then every value.
    void checkContents(SV sv, const VaultM& m, const std::set<Id>& ids, uint64_t tags)
    {
        std::size_t n = sv.v ? sv.v->Size() : sv.s->Size();
        PBT_CHECK(tags, n == ids.size(), "Size is %zu, expected %zu %s", n, ids.size(), Ids(ids).c_str());
        if (!m.hasId()) return;
        auto refs = sorted(sv, "id", false);
        auto got = idsOf(refs, tags);
        PBT_CHECK(tags, got == ids, "the records are %s, expected %s", Ids(got).c_str(), Ids(ids).c_str());
        for (auto& r : refs)
        {
            Id id = idOf(r, tags);
            for (auto& c : m.cols)
            {
                if (!c.ops) continue;
                int x = -9;
                Res res = c.ops->getData(r, c.name, x);
                PBT_CHECK(tags, res.IsOperationSuccess, "GetData(%s) of record %lld: code %d", c.name.c_str(), static_cast<long long>(id), static_cast<int>(res.ResultCode));
                int want = m.recs.at(id).at(c.name);
                PBT_CHECK(tags, x == want, "record %lld has %s = %s, expected %s", static_cast<long long>(id), c.name.c_str(), x < 0 ? "?" : Show(c.ops->str(x)).c_str(), Show(c.ops->str(want)).c_str());
            }
        }
    }
    // Every index path.
    void checkIndexes(SV sv, const VaultM& m, const std::set<Id>& ids, uint64_t tags)
    {
        if (!m.hasId()) return;
        for (auto& c : m.cols)
        {
            for (int rev = 0; rev < 2; ++rev)
            {
                auto refs = sorted(sv, c.name, rev == 1);
                auto got = idsOf(refs, tags);
                PBT_CHECK(tags, got == ids, "sorted by %s%s: records %s, expected %s", c.name.c_str(), rev ? " (reverse)" : "", Ids(got).c_str(), Ids(ids).c_str());
                long long prev = 0; bool first = true;
                for (auto& r : refs)
                {
                    Id id = idOf(r, tags);
                    long long x = c.ops ? m.recs.at(id).at(c.name) : id;
                    PBT_CHECK(tags | P(6), first || (rev ? x <= prev : x >= prev), "sorted by %s%s: record %lld is out of order", c.name.c_str(), rev ? " (reverse)" : "", static_cast<long long>(id));
                    prev = x; first = false;
                }
            }
            if (!c.ops) continue;
            for (int v = 0; v < c.ops->count(); ++v)
            {
                std::set<Id> want;
                for (Id i : ids) if (m.recs.at(i).at(c.name) == v) want.insert(i);
                std::vector<Ref> refs;
                Res r = c.ops->getRecords(sv, c.name, v, refs, All, true);
                PBT_CHECK(tags, r.IsOperationSuccess == !want.empty() && r.ResultCode == (want.empty() ? Code::WrongValue : Code::Success), "GetRecords(%s, %s): code %d, %zu records have that value", c.name.c_str(), Show(c.ops->str(v)).c_str(), static_cast<int>(r.ResultCode), want.size());
                auto got = idsOf(refs, tags);
                PBT_CHECK(tags, got == want, "GetRecords(%s, %s) gives %s, expected %s", c.name.c_str(), Show(c.ops->str(v)).c_str(), Ids(got).c_str(), Ids(want).c_str());
                Ref one;
                r = c.ops->getRecord(sv, c.name, v, one);
                PBT_CHECK(tags, r.IsOperationSuccess == !want.empty() && one.IsValid() == !want.empty(), "GetRecord(%s, %s): code %d", c.name.c_str(), Show(c.ops->str(v)).c_str(), static_cast<int>(r.ResultCode));
                if (!want.empty()) PBT_CHECK(tags, want.count(idOf(one, tags)) == 1, "GetRecord(%s, %s) gives a record without that value", c.name.c_str(), Show(c.ops->str(v)).c_str());
            }
        }
    }
    void checkToStrings(SV sv, const VaultM& m, const std::set<Id>& ids, uint64_t tags)
    {
        if (m.cols.empty())
        {
            std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
            if (sv.v) sv.v->Print(); else sv.s->Print();
            std::cout.rdbuf(old);
            std::string want = std::string(sv.v ? "Vault" : "VaultRecordSet") + " does not contain keys!\n (" + std::to_string(sv.v ? sv.v->Size() : sv.s->Size()) + " records)\n";
            PBT_CHECK(tags | P(10) | P(8), ss.str() == want, "Print without keys prints %s", Show(ss.str()).c_str());
        }
        if (!m.hasId()) return;
        auto rows = sv.v ? sv.v->ToStrings() : sv.s->ToStrings();
        PBT_CHECK(tags, rows.size() == ids.size(), "ToStrings gives %zu rows, expected %zu", rows.size(), ids.size());
        std::set<Id> seen;
        for (auto& row : rows)
        {
            PBT_CHECK(tags, row.size() == m.cols.size(), "ToStrings row has %zu fields, expected %zu", row.size(), m.cols.size());
            Id id = 0;
            for (std::size_t i = 0; i < row.size(); ++i) if (m.cols[i].name == "id") id = atoll(row[i].second.c_str());
            PBT_CHECK(tags, ids.count(id) && seen.insert(id).second, "ToStrings shows record %lld", static_cast<long long>(id));
            for (std::size_t i = 0; i < row.size(); ++i)
            {
                PBT_CHECK(tags, row[i].first == m.cols[i].name, "ToStrings field %zu is %s, expected %s", i, row[i].first.c_str(), m.cols[i].name.c_str());
                if (m.cols[i].ops)
                {
                    std::string want = m.cols[i].ops->str(m.recs.at(id).at(m.cols[i].name));
                    PBT_CHECK(tags, row[i].second == want, "ToStrings: record %lld %s = '%s', expected '%s'", static_cast<long long>(id), m.cols[i].name.c_str(), Show(row[i].second).c_str(), Show(want).c_str());
                }
            }
        }
    }
    void checkRef(RefM& r, uint64_t tags, bool full)
    {
        if (r.st == RefM::Live)
        {
            const VaultM& m = V[r.vault];
            PBT_CHECK(tags | P(12), r.real.IsValid(), "the reference to live record %lld is not valid", static_cast<long long>(r.id));
            if (!m.hasId()) return;
            PBT_CHECK(tags | P(12), idOf(r.real, tags | P(12)) == r.id, "a reference moved to another record");
            if (!full) return;
            for (auto& c : m.cols)
            {
                if (!c.ops) continue;
                int x = -9;
                Res res = c.ops->getData(r.real, c.name, x);
                PBT_CHECK(tags | P(12), res.IsOperationSuccess && x == m.recs.at(r.id).at(c.name), "reference to record %lld reads a stale value of %s", static_cast<long long>(r.id), c.name.c_str());
                std::string str;
                res = r.real.GetDataAsString(c.name, str);
                PBT_CHECK(tags | P(12), res.IsOperationSuccess && str == c.ops->str(m.recs.at(r.id).at(c.name)), "GetDataAsString(%s) of record %lld gives '%s'", c.name.c_str(), static_cast<long long>(r.id), Show(str).c_str());
            }
            // PrintRecord: a line naming the record, then one line for each key, in any order
            std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
            r.real.PrintRecord();
            std::cout.rdbuf(old);
            std::string text = ss.str();
            auto eol = text.find('\n');
            PBT_CHECK(tags | P(12) | P(10), eol != std::string::npos && text.compare(0, 13, "Vault record ") == 0, "PrintRecord of record %lld prints %s", static_cast<long long>(r.id), Show(text).c_str());
            text.erase(0, eol + 1);
            std::size_t size = 0;
            for (auto& c : m.cols)
            {
                std::string line = "\t" + c.name + " = " + (c.ops ? c.ops->str(m.recs.at(r.id).at(c.name)) : std::to_string(r.id)) + "\n";
                size += line.size();
                PBT_CHECK(tags | P(12) | P(10), text.find(line) != std::string::npos, "PrintRecord of record %lld prints %s, without %s", static_cast<long long>(r.id), Show(text).c_str(), Show(line).c_str());
            }
            PBT_CHECK(tags | P(12) | P(10), size == text.size(), "PrintRecord of record %lld prints %s: more than the record's %zu keys", static_cast<long long>(r.id), Show(text).c_str(), m.cols.size());
        }
        else
            PBT_CHECK(tags | P(13), !r.real.IsValid(), "a reference to %s is valid", r.st == RefM::Dead ? "an erased record" : "nothing");
    }
    void checkAll(uint64_t tags, bool full)
    {
        pbt::SetOpTags(tags | P(33) | P(1) | P(2));
        for (int i = 0; i < NV; ++i)
        {
            if (!V[i].alive()) continue;
            SV sv; sv.v = V[i].real.get();
            auto ids = idsOfVault(i);
            checkContents(sv, V[i], ids, tags | P(1));
            if (full)
            {
                checkKeys(sv, V[i], tags | P(10));
                checkIndexes(sv, V[i], ids, tags | P(2));
                checkToStrings(sv, V[i], ids, tags | P(1));
            }
        }
        pbt::SetOpTags(tags | P(33) | P(14));
        for (int i = 0; i < NS; ++i)
        {
            auto& x = S[i];
            PBT_CHECK(tags | P(14) | P(13), x.real->GetIsParentVaultValid() == (x.parent >= 0), "set %d: GetIsParentVaultValid is %d", i, x.real->GetIsParentVaultValid());
            if (x.parent < 0)
            {
                PBT_CHECK(tags | P(13), x.real->Size() == 0 && x.real->GetKeys().empty(), "set %d without a vault is not empty", i);
                continue;
            }
            SV sv; sv.s = x.real.get();
            checkContents(sv, V[x.parent], x.ids, tags | P(14));
            if (full)
            {
                checkKeys(sv, V[x.parent], tags | P(14));
                checkIndexes(sv, V[x.parent], x.ids, tags | P(14));
                checkToStrings(sv, V[x.parent], x.ids, tags | P(14));
                for (auto& r : R)
                    if (r.st == RefM::Live)
                        PBT_CHECK(tags | P(14), x.real->CheckRecord(r.real) == (r.vault == x.parent && x.ids.count(r.id)), "CheckRecord of record %lld in set %d", static_cast<long long>(r.id), i);
            }
        }
        pbt::SetOpTags(tags | P(33) | P(12) | P(13));
        for (auto& r : R) checkRef(r, tags, full);
    }

    // ---------------------------------------------------------------- operations
    // Each returns the property tags of what it did; it returns 0 when it was not applicable.
    bool opNewVault()
    {
        int i = -1;
        for (int k = 0; k < NV; ++k) if (!V[k].alive()) { i = k; break; }
        if (i < 0) return false;
        V[i] = VaultM();
        V[i].real.reset(new Vault());
        Log("vault%d = new Vault", i);
        setupId(i);
        return true;
    }
    // Adds the identifying column, sometimes to a vault that already holds keys or records.
    void setupId(int i)
    {
        uint64_t T = P(10);
        auto& m = V[i];
        unsigned before = s.chance(1, 6) ? static_cast<unsigned>(s.draw(3)) : 0;
        for (unsigned k = 0; k < before; ++k) addKey(i, false);
        unsigned recs = s.chance(1, 6) ? static_cast<unsigned>(1 + s.draw(3)) : 0;
        std::vector<Ref> refs(recs);
        bool uniqueCol = false;
        for (auto& c : m.cols) uniqueCol |= c.uniq;
        if (uniqueCol && recs > 1) { recs = 1; refs.resize(1); }
        for (unsigned k = 0; k < recs; ++k)
        {
            Res r = m.real->CreateRecord(refs[k], {});
            expectOk(T | P(9), "CreateRecord({})", r);
        }
        bool uniq = s.flip();
        std::vector<Id> ids;
        if (!uniq)
        {
            bool ok = m.real->AddKey("id", Id(0));
            PBT_CHECK(T, ok, "AddKey(id) failed");
            for (auto& r : refs)
            {
                Id id = nextId++;
                expectOk(T | P(1), "SetData(id)", r.SetData("id", id));
                ids.push_back(id);
            }
        }
        else
        {
            Id base = nextId;
            std::vector<Id> given;
            Res r = m.real->AddUniqueKey<Id>("id", [&](const std::size_t& c, const VaultRecordRef&) -> Id { given.push_back(base + static_cast<Id>(c)); return given.back(); });
            expectOk(T | P(7), "AddUniqueKey(id)", r);
            nextId += recs;
            for (unsigned k = 0; k < recs; ++k) ids.push_back(base + k);
        }
        Log("  add id column (%s) with %u keys and %u records present", uniq ? "unique" : "plain", before, recs);
        Row defaults;
        for (auto& c : m.cols) defaults[c.name] = c.def;
        Col c; c.name = "id"; c.uniq = uniq;
        m.cols.push_back(c);
        for (Id id : ids) m.recs[id] = defaults;
        if (recs) Mark("keys-added-to-records");
    }
    std::string freeName(const VaultM& m)
    {
        static const std::vector<std::string> names = {"A", "B", "C", "D", "longer key name, not inline", "E"};
        std::vector<std::string> f;
        for (auto& n : names) if (!m.col(n)) f.push_back(n);
        return f.empty() ? "" : f[s.draw(f.size())];
    }
    bool addKey(int vi, bool withFn)
    {
        uint64_t T = P(10);
        auto& m = V[vi];
        bool dup = !m.cols.empty() && s.chance(1, 8);
        std::string key = dup ? m.cols[s.draw(m.cols.size())].name : freeName(m);
        if (key.empty() || (m.cols.size() > 5 && !dup)) return false;
        const TypeOps* t = Types()[s.draw(Types().size())];
        int def = pickVal(t);
        int how = withFn ? 2 : static_cast<int>(s.weighted({6, 2}));
        if (how == 0)
        {
            Log("vault%d.AddKey<%s>(%s, %s)%s", vi, t->name(), key.c_str(), Show(t->str(def)).c_str(), dup ? " (duplicate)" : "");
            pbt::SetOpTags(T | P(33));
            bool ok = t->addKey(*m.real, key, def);
            PBT_CHECK(T | (dup ? P(8) : 0), ok == !dup, "AddKey(%s) returned %d", key.c_str(), ok);
            if (dup) { Mark("failed-op"); opTags |= P(8); return true; }
            Col c; c.name = key; c.ops = t; c.def = def;
            m.cols.push_back(c);
            for (auto& r : m.recs) r.second[key] = def;
            if (!m.recs.empty()) Mark("keys-added-to-records");
            return true;
        }
        T |= P(7);
        pbt::SetOpTags(T | P(33));
        std::type_index req = t->type();
        if (how == 1)
        {
            Log("vault%d.AddUniqueKey<%s>(%s)%s", vi, t->name(), key.c_str(), dup ? " (duplicate)" : "");
            Res r = t->addUnique(*m.real, key);
            if (dup) { std::type_index st = m.col(key)->type(); expectFail(T, "AddUniqueKey of an existing key", r, Code::DuplicateKey, &key, &req, &st); return true; }
            if (m.real->Size() != 0 || !m.recs.empty())
            {
                expectFail(T, "AddUniqueKey without a function on a non-empty vault", r, Code::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, &key, &req, nullptr);
                return true;
            }
            expectOk(T, "AddUniqueKey", r, &key);
            Col c; c.name = key; c.ops = t; c.uniq = true; c.def = t->zero();
            m.cols.push_back(c);
            return true;
        }
        if (!m.hasId()) return false;
        // A function of the record: injective or not.
        std::map<Id, int> val;
        bool clash = s.chance(1, 4);
        std::set<int> used;
        for (auto& r : m.recs)
        {
            int v = static_cast<int>(s.draw(static_cast<uint64_t>(t->count())));
            if (!clash) for (int k = 0; k < t->count() && used.count(v); ++k) v = (v + 1) % t->count();
            used.insert(v);
            val[r.first] = v;
        }
        bool inj = used.size() == m.recs.size();
        Log("vault%d.AddUniqueKey<%s>(%s, f) f %s%s", vi, t->name(), key.c_str(), inj ? "injective" : "clashing", dup ? " (duplicate)" : "");
        bool readOk = true;
        unsigned calls = 0;
        bool drift = s.chance(1, 5);        // a function whose later calls would give other values
        std::map<Id, int> first;
        Res r = t->addUniqueFn(*m.real, key, [&](std::size_t, const Ref& ref) -> int
        {
            Id id = -1;
            if (!ref.GetData("id", id).IsOperationSuccess || !val.count(id)) { readOk = false; return 0; }
            ++calls;
            if (drift && first.count(id)) return (first[id] + 1) % t->count();
            first[id] = val[id];
            return val[id];
        });
        PBT_CHECK(T, readOk, "the unique key function could not read the record it was given");
        if (dup) { std::type_index st = m.col(key)->type(); expectFail(T, "AddUniqueKey of an existing key", r, Code::DuplicateKey, &key, &req, &st); return true; }
        if (!inj) { expectFail(T, "AddUniqueKey with duplicate values", r, Code::UniqueKeyValueAlredyInSet, &key, &req, nullptr); return true; }
        expectOk(T, "AddUniqueKey", r, &key);
        Col c; c.name = key; c.ops = t; c.uniq = true; c.def = t->zero();
        m.cols.push_back(c);
        for (auto& x : m.recs) x.second[key] = val[x.first];
        Mark("unique-key");
        if (!m.recs.empty()) Mark("keys-added-to-records");
        return true;
    }
    bool opAddKey() { int v = pickVault(); return v >= 0 && addKey(v, false); }
    bool opAddUniqueFn() { int v = pickVault(); return v >= 0 && addKey(v, true); }
    bool opUpdateKey()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        Target t = pickTarget(m, 6);
        Log("vault%d.UpdateKey<%s>(%s, %s)", vi, t.t->name(), t.key.c_str(), Show(t.t->str(t.val)).c_str());
        Res r = t.t->updateKey(*m.real, t.key, t.val);
        if (t.err != Code::Success) { expectFailTarget(P(10), "UpdateKey", r, t); return true; }
        for (auto& c : m.cols) if (c.name == t.key)
        {
            std::type_index ty = c.type();
            if (c.uniq) { expectFail(P(10) | P(7), "UpdateKey of a unique key", r, Code::UniqueKey, &t.key, &ty, nullptr); return true; }
            expectOk(P(10), "UpdateKey", r, &t.key);
            c.def = t.val;
            Mark("default-updated");
        }
        return true;
    }
    bool opRemoveKey()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        const Col* c = pickCol(m);
        if (!c || s.chance(1, 8))
        {
            Log("vault%d.RemoveKey(nokey)", vi);
            PBT_CHECK(P(10) | P(8), !m.real->RemoveKey("nokey"), "RemoveKey of a missing key returned true");
            return true;
        }
        std::string key = c->name;
        Log("vault%d.RemoveKey(%s)", vi, key.c_str());
        PBT_CHECK(P(10), m.real->RemoveKey(key), "RemoveKey(%s) returned false", key.c_str());
        m.cols.erase(std::find_if(m.cols.begin(), m.cols.end(), [&](const Col& x) { return x.name == key; }));
        for (auto& r : m.recs) r.second.erase(key);
        if (!m.recs.empty()) Mark("key-removed-with-records");
        return true;
    }
    bool opCreate()
    {
        int vi = pickVault();
        if (vi < 0 || !V[vi].hasId()) return false;
        auto& m = V[vi];
        if (m.recs.size() >= maxRecs && s.chance(7, 8)) return false;
        uint64_t T = P(1) | P(9);
        std::vector<std::pair<std::string, VaultParamInput>> params;
        Row row;
        for (auto& c : m.cols) if (c.ops) row[c.name] = c.def;
        Id id = nextId++;
        std::string shown;
        std::vector<const Col*> order;
        for (auto& c : m.cols) order.push_back(&c);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i)]);
        for (auto c : order)
        {
            if (!c->ops) { params.emplace_back("id", VaultParamInput(id)); continue; }
            if (s.chance(1, c->uniq ? 12 : 4)) continue;                      // default value
            int v = c->uniq ? static_cast<int>(s.draw(static_cast<uint64_t>(c->ops->count()))) : pickVal(c->ops);
            params.emplace_back(c->name, c->ops->param(v));
            PBT_CHECK(T | P(12), params.back().second.GetDataType() == c->ops->type(), "GetDataType of a parameter of type %s", c->ops->name());
            row[c->name] = v;
            shown += c->name + "=" + Show(c->ops->str(v)) + " ";
        }
        std::string badKey; Code bad = Code::Success; std::type_index badReq = typeid(void), badSaved = typeid(void);
        if (s.chance(1, 8))
        {
            Target t = pickTarget(m, 1);
            badKey = t.key; bad = t.err; badReq = t.t->type(); if (t.col) badSaved = t.col->type();
            params.emplace(params.begin() + static_cast<long>(s.draw(params.size() + 1)), badKey, t.t->param(t.val));
        }
        bool clash = false; std::string clashKey;
        std::set<std::string> clashing;
        for (auto& c : m.cols) if (c.ops && c.uniq && m.uniqueTaken(c.name, row[c.name], -1)) { clash = true; clashing.insert(c.name); }
        bool withRef = s.flip();
        int slot = static_cast<int>(s.draw(NR));
        Log("%s vault%d.CreateRecord(id=%lld %s)%s%s", withRef ? Fmt("ref%d <-", slot).c_str() : "", vi, static_cast<long long>(id), shown.c_str(), bad != Code::Success ? " +bad param" : "", clash ? " clash" : "");
        if (clash || bad != Code::Success) T |= P(8);
        if (clash) T |= P(7);
        for (auto& c : m.cols) if (c.uniq) T |= P(7);
        pbt::SetOpTags(T | P(33));
        Res r = withRef ? m.real->CreateRecord(R[slot].real, params) : m.real->CreateRecord(params);
        if (bad != Code::Success)
        {
            expectFail(T, "CreateRecord with a bad parameter", r, bad, &badKey, &badReq, bad == Code::WrongType ? &badSaved : nullptr);
            return true;
        }
        if (clash)
        {
            expectFail(T, "CreateRecord with a taken unique value", r, Code::UniqueKeyValueAlredyInSet, nullptr, nullptr, nullptr);
            PBT_CHECK(T, clashing.count(r.Key), "CreateRecord blames key '%s', which does not clash", r.Key.c_str());
            PBT_CHECK(T, r.RequestedType == m.col(r.Key)->type(), "CreateRecord: RequestedType of the clashing key is %s", r.RequestedType.name());
            Mark("unique-clash");
            return true;
        }
        expectOk(T, "CreateRecord", r);
        m.recs[id] = row;
        if (withRef) bindRef(slot, vi, id);
        return true;
    }
    bool opBulkCreate()
    {
        unsigned n = static_cast<unsigned>(2 + s.draw(5));
        for (unsigned i = 0; i < n; ++i) opCreate();
        return true;
    }
    // More records than a byte counts.
    void crowd()
    {
        auto& m = V[0];
        for (auto& c : m.cols) if (c.uniq && c.ops) return;
        if (!m.hasId()) return;
        std::uint64_t n = 257 + s.draw(30);
        std::vector<Row> kinds;
        for (int k = 0; k < 3; ++k)
        {
            Row r;
            for (auto& c : m.cols) if (c.ops) r[c.name] = pickVal(c.ops);
            kinds.push_back(r);
        }
        Log("vault0: %llu records are created", static_cast<unsigned long long>(n));
        for (std::uint64_t i = 0; i < n; ++i)
        {
            const Row& row = kinds[i % kinds.size()];
            std::vector<std::pair<std::string, VaultParamInput>> params{{"id", VaultParamInput(nextId)}};
            for (auto& c : m.cols) if (c.ops) params.emplace_back(c.name, c.ops->param(row.at(c.name)));
            expectOk(P(1) | P(9), "CreateRecord", m.real->CreateRecord(params));
            m.recs[nextId++] = row;
        }
        Mark("crowd");
    }
    // Loads a file into a vault that already has records, sets and references.
    bool opReadFile()
    {
        int vi = pickVault();
        if (vi < 0 || !V[vi].hasId()) return false;
        auto& m = V[vi];
        if (m.recs.size() >= maxRecs && s.chance(7, 8)) return false;
        const uint64_t T = P(1) | P(7) | P(9);
        std::vector<std::string> cols{"id"};
        for (auto& c : m.cols) if (c.ops && s.chance(3, 4)) cols.push_back(c.name);
        for (std::size_t i = cols.size(); i > 1; --i) std::swap(cols[i - 1], cols[s.draw(i)]);
        std::size_t idAt = static_cast<std::size_t>(std::find(cols.begin(), cols.end(), "id") - cols.begin());
        bool unknown = s.chance(1, 12), header = s.flip();
        if (unknown) cols.push_back("nokey");
        std::string content;
        auto field = [&](const std::string& x)
        {
            if (x.find_first_of("\",;\r\n") == std::string::npos && !s.chance(1, 6)) { content += x; return; }
            content += '"';
            for (char c : x) { content += c; if (c == '"') content += c; }
            content += '"';
        };
        auto finish = [&] { content += "\r\n"; };
        if (header) { for (std::size_t i = 0; i < cols.size(); ++i) { if (i) content += ','; field(cols[i]); } finish(); }
        std::map<Id, Row> added;
        std::size_t bad = 0;
        VaultM probe;                                      // what the unique keys are checked against
        probe.recs = m.recs;
        std::uint64_t n = s.draw(5);
        for (std::uint64_t k = 0; k < n; ++k)
        {
            Id id = nextId++;
            Row row;
            for (auto& c : m.cols) if (c.ops) row[c.name] = c.def;
            std::size_t width = s.chance(1, 6) ? idAt + 1 + s.draw(cols.size() - idAt) : cols.size();
            bool ok = true;
            for (std::size_t i = 0; i < width; ++i)
            {
                if (i) content += ',';
                const Col* c = m.col(cols[i]);
                if (!c) { ok = false; field("1"); continue; }
                bool spoil = s.chance(1, 16);
                if (!c->ops) { field(spoil ? "none" : std::to_string(id)); ok = ok && !spoil; continue; }
                if (spoil && !c->ops->quoted()) { field("?"); ok = false; continue; }
                int v = c->uniq ? static_cast<int>(s.draw(static_cast<uint64_t>(c->ops->count()))) : pickVal(c->ops);
                row[c->name] = v;
                field(c->ops->str(v));
            }
            finish();
            bool clash = false;
            for (auto& c : m.cols) if (ok && c.ops && c.uniq && probe.uniqueTaken(c.name, row[c.name], -1)) clash = true;
            if (clash) Mark("unique-clash");
            if (!ok || clash) { ++bad; continue; }
            added[id] = row;
            probe.recs[id] = row;
        }
        const char* dir = getenv("PBT_SCRATCH");
        std::string file = std::string(dir ? dir : "/tmp") + "/mload" + std::to_string(getpid());
        { std::ofstream f(file, std::ios::binary); f << content; }
        Log("vault%d.ReadFile(%s'%s'): %zu good rows, %zu bad", vi, header ? "" : "no header, keys given, ", Show(content).c_str(), added.size(), bad);
        pbt::SetOpTags(T | P(33));
        bool ok = header ? m.real->ReadFile(file) : m.real->ReadFile(file, ',', false, cols);
        unlink(file.c_str());
        PBT_CHECK(T, ok, "loading a file fails");
        PBT_CHECK(T | P(8), m.real->GetErrorsInLastReadedFile().size() == bad, "%zu rows are reported as wrong, expected %zu", m.real->GetErrorsInLastReadedFile().size(), bad);
        for (auto& r : added) m.recs[r.first] = r.second;
        if (!added.empty()) Mark("file-loaded");
        if (bad) { Mark("file-row-refused"); opTags |= P(8); }
        return true;
    }
    // Gives several sets of one vault independent random subsets of its records.
    bool opScatter()
    {
        int vi = pickVault();
        if (vi < 0 || !V[vi].hasId() || V[vi].recs.empty()) return false;
        auto& m = V[vi];
        uint64_t T = P(3) | P(4) | P(14) | P(16);
        for (int si = 0; si < NS; ++si)
        {
            if (s.chance(1, 4)) continue;
            std::set<Id> want;
            for (auto& r : m.recs) if (s.flip()) want.insert(r.first);
            Log("set%d <- vault%d.RequestGreaterOrEqual<id>(id, 0, pred = member of %s)", si, vi, Ids(want).c_str());
            pbt::SetOpTags(T | P(33));
            Res r = m.real->RequestGreaterOrEqual("id", Id(0), *S[si].real, All, [&](const Ref& x) { Id id = -1; x.GetData("id", id); return want.count(id) == 1; });
            expectOk(T, "RequestGreaterOrEqual", r);
            attach(si, vi, want);
            auto got = setIds(*S[si].real, T);
            PBT_CHECK(T, got == want, "request with a predicate gives %s, expected %s", Ids(got).c_str(), Ids(want).c_str());
        }
        return true;
    }
    bool opSetData()
    {
        int ri = pickRef(RefM::Live);
        if (ri < 0) return opGrabRef();
        auto& ref = R[ri]; auto& m = V[ref.vault];
        Target t = pickTarget(m);
        uint64_t T = P(1) | P(12) | P(14);
        if (t.err == Code::Success && t.col->uniq) { T |= P(7); t.val = static_cast<int>(s.draw(static_cast<uint64_t>(t.t->count()))); }
        Log("ref%d(record %lld).SetData<%s>(%s, %s)", ri, static_cast<long long>(ref.id), t.t->name(), t.key.c_str(), Show(t.t->str(t.val)).c_str());
        pbt::SetOpTags(T | P(33));
        Res r = t.t->setData(ref.real, t.key, t.val);
        if (t.err != Code::Success) { expectFailTarget(P(12), "SetData", r, t); return true; }
        if (t.col->uniq && m.uniqueTaken(t.key, t.val, ref.id))
        {
            std::type_index ty = t.t->type();
            expectFail(P(7), "SetData of a taken unique value", r, Code::UniqueKeyValueAlredyInSet, &t.key, &ty, nullptr);
            Mark("unique-clash");
            return true;
        }
        expectOk(T, t.col->uniq ? "SetData of a free unique value" : "SetData", r, &t.key);
        bool shared = m.uniqueTaken(t.key, m.recs[ref.id][t.key], ref.id);
        if (shared) Mark("update-of-shared-value");
        if (t.col->uniq) Mark("unique-update");
        m.recs[ref.id][t.key] = t.val;
        for (auto& x : S) if (x.parent == ref.vault && x.ids.count(ref.id)) Mark("update-seen-by-set");
        return true;
    }
    // Reading with keys and types that do not fit.
    bool opMisread()
    {
        int ri = pickRef(RefM::Live);
        if (ri < 0) return opGrabRef();
        auto& ref = R[ri]; auto& m = V[ref.vault];
        Target t = pickTarget(m, 1);
        Log("ref%d(record %lld): read %s as %s", ri, static_cast<long long>(ref.id), t.key.c_str(), t.t->name());
        int x = -9;
        expectFailTarget(P(12), "GetData", t.t->getData(ref.real, t.key, x), t);
        PBT_CHECK(P(8) | P(12), x == -1, "a failed GetData changed its output");
        std::string str = "untouched", missing = "nokey";
        if (t.err == Code::WrongKey)
        {
            expectFail(P(12), "GetDataAsString", ref.real.GetDataAsString(t.key, str), Code::WrongKey, &t.key, nullptr, nullptr);
            PBT_CHECK(P(8) | P(12), str == "untouched", "a failed GetDataAsString changed its output");
        }
        PBT_CHECK(P(10) | P(12), ref.real.IsKeyExist(t.key) == (t.err != Code::WrongKey) && !ref.real.IsKeyExist(missing), "IsKeyExist(%s) of a reference", t.key.c_str());
        SV sv; sv.v = m.real.get();
        for (auto& s2 : S) if (s2.parent == ref.vault && s.chance(1, 3)) { sv.v = nullptr; sv.s = s2.real.get(); break; }
        x = -9;
        expectFailTarget(P(10), "GetKeyValue", t.t->getKeyValue(sv, t.key, x), t);
        PBT_CHECK(P(8) | P(10), x == -1, "a failed GetKeyValue changed its output");
        for (auto& c : m.cols)
            if (c.ops && c.uniq && s.flip())
            {
                std::type_index ty = c.type();
                x = -9;
                expectFail(P(10), "GetKeyValue of a unique key", c.ops->getKeyValue(sv, c.name, x), Code::UniqueKey, &c.name, &ty, &ty);
                PBT_CHECK(P(8) | P(10), x == -1, "a failed GetKeyValue changed its output");
            }
        return true;
    }
    bool opSetDataVec()
    {
        int ri = pickRef(RefM::Live);
        if (ri < 0) return opGrabRef();
        auto& ref = R[ri]; auto& m = V[ref.vault];
        std::vector<std::pair<std::string, VaultParamInput>> params;
        uint64_t T = P(1) | P(12);
        unsigned n = static_cast<unsigned>(1 + s.draw(3));
        Row next = m.recs[ref.id];
        bool failed = false; Target ft{"", nullptr, 0, Code::Success, nullptr}; Code fcode = Code::Success;
        std::string lastKey, shown;
        for (unsigned i = 0; i < n; ++i)
        {
            Target t = pickTarget(m, 9);
            params.emplace_back(t.key, t.t->param(t.val));
            shown += t.key + "=" + Show(t.t->str(t.val)) + " ";
            if (failed) continue;
            if (t.err != Code::Success) { failed = true; ft = t; fcode = t.err; continue; }
            if (t.col->uniq) { T |= P(7); if (m.uniqueTaken(t.key, t.val, ref.id)) { failed = true; ft = t; fcode = Code::UniqueKeyValueAlredyInSet; continue; } }
            next[t.key] = t.val;
            lastKey = t.key;
        }
        Log("ref%d(record %lld).SetData({%s})", ri, static_cast<long long>(ref.id), shown.c_str());
        pbt::SetOpTags(T | P(33));
        Res r = ref.real.SetData(params);
        m.recs[ref.id] = next;
        if (failed)
        {
            std::type_index req = ft.t->type();
            std::type_index saved = ft.col ? ft.col->type() : req;
            expectFail(T, "SetData of several keys", r, fcode, &ft.key, &req, fcode == Code::WrongType ? &saved : nullptr);
            return true;
        }
        expectOk(T, "SetData of several keys", r, &lastKey);
        return true;
    }
    // Binds a reference through one of the query paths.
    bool opGrabRef()
    {
        int vi = pickVault();
        if (vi < 0 || V[vi].recs.empty()) return false;
        auto& m = V[vi];
        int slot = static_cast<int>(s.draw(NR));
        std::vector<SV> sources;
        SV sv; sv.v = m.real.get();
        std::set<Id> ids = idsOfVault(vi);
        for (auto& x : S) if (x.parent == vi && !x.ids.empty() && s.chance(1, 4)) { sv.v = nullptr; sv.s = x.real.get(); ids = x.ids; break; }
        auto it = ids.begin();
        std::advance(it, static_cast<long>(s.draw(ids.size())));
        Id id = *it;
        int how = static_cast<int>(s.draw(4));
        Log("ref%d <- record %lld of %s via %d", slot, static_cast<long long>(id), sv.v ? "vault" : "a set", how);
        uint64_t T = P(12);
        if (how == 0)
        {
            Ref x;
            Res r = sv.v ? sv.v->GetRecord("id", id, x) : sv.s->GetRecord("id", id, x);
            expectOk(T | P(2), "GetRecord(id)", r);
            R[slot].real = std::move(x);
        }
        else if (how == 1)
        {
            auto refs = sorted(sv, "id", false);
            for (auto& r : refs) if (idOf(r, T) == id) R[slot].real = r;
        }
        else if (how == 2)
        {
            auto f = [&](const Ref& r) { Id x = -1; if (r.GetData("id", x).IsOperationSuccess && x == id) { R[slot].real = r; return false; } return true; };
            if (sv.v) sv.v->SortBy("id", f); else sv.s->SortBy("id", f);
        }
        else
        {
            std::vector<Ref> refs;
            Res r = sv.v ? sv.v->GetRecords("id", id, refs) : sv.s->GetRecords("id", id, refs);
            expectOk(T | P(2), "GetRecords(id)", r);
            if (!refs.empty()) R[slot].real = std::move(refs[0]);
        }
        bindRef(slot, vi, id);
        return true;
    }
    bool opRefLife()
    {
        int a = static_cast<int>(s.draw(NR)), b = static_cast<int>(s.draw(NR));
        auto copyM = [&](RefM& d, const RefM& x) { d.st = x.st; d.vault = x.vault; d.id = x.id; };
        switch (s.draw(6))
        {
        case 0: Log("ref%d = ref%d", a, b); R[a].real = R[b].real; copyM(R[a], R[b]); break;
        case 1:
            Log("ref%d = move(ref%d)", a, b);
            R[a].real = std::move(R[b].real);
            if (a != b) { copyM(R[a], R[b]); R[b].st = RefM::Empty; }
            break;
        case 2: Log("ref%d.Reset", a); R[a].real.Reset(); R[a].st = RefM::Empty; break;
        case 3: { Log("copy and destroy ref%d", a); Ref x(R[a].real); PBT_CHECK(P(12), (x == R[a].real) && !(x != R[a].real), "a copied reference differs from the original"); Ref y(std::move(x)); PBT_CHECK(P(12), y == R[a].real, "a moved copy of a reference differs"); break; }
        case 4:
        {
            Log("compare ref%d with ref%d", a, b);
            bool la = R[a].st == RefM::Live, lb = R[b].st == RefM::Live;
            bool want = la && lb ? (R[a].vault == R[b].vault && R[a].id == R[b].id) : la == lb;
            PBT_CHECK(P(12) | P(13), (R[a].real == R[b].real) == want && (R[a].real != R[b].real) == !want, "comparison of references: == %d, != %d", R[a].real == R[b].real, R[a].real != R[b].real);
            std::string ua = R[a].real.GetRecordUniqueId(), ub = R[b].real.GetRecordUniqueId();
            PBT_CHECK(P(12) | P(13), (ua == ub) == want && (ua == "null") == !la, "unique ids %s and %s", ua.c_str(), ub.c_str());
            break;
        }
        default:
        {
            Log("ref%d in vectors", a);
            std::vector<Ref> v(3, R[a].real);
            v.erase(v.begin());
            v.insert(v.begin(), R[b].real);
            std::swap(v[0], v[2]);
            PBT_CHECK(P(12), v[0] == R[a].real && v[2] == R[b].real, "references changed while stored in a container");
        }
        }
        return true;
    }
    bool opDeadRef()
    {
        int ri = s.flip() ? pickRef(RefM::Dead) : pickRef(RefM::Empty);
        if (ri < 0) return false;
        auto& r = R[ri];
        uint64_t T = P(13);
        Log("use ref%d, which is %s", ri, r.st == RefM::Dead ? "dead" : "empty");
        if (r.st == RefM::Dead) Mark("dead-ref-used");
        const TypeOps* t = Types()[s.draw(Types().size())];
        int x = -9, v = pickVal(t);
        std::type_index ty = t->type();
        std::string key = s.flip() ? "A" : "id", str = "untouched";
        expectFail(T, "GetData on a dead reference", t->getData(r.real, key, x), Code::DataRecordNotValid, &key, &ty, nullptr);
        PBT_CHECK(T, x == -1, "GetData on a dead reference changed its output");
        expectFail(T, "SetData on a dead reference", t->setData(r.real, key, v), Code::DataRecordNotValid, &key, &ty, nullptr);
        expectFail(T, "SetData(list) on a dead reference", r.real.SetData({{key, t->param(v)}}), Code::DataRecordNotValid, nullptr, nullptr, nullptr);
        expectFail(T, "GetDataAsString on a dead reference", r.real.GetDataAsString(key, str), Code::DataRecordNotValid, &key, nullptr, nullptr);
        PBT_CHECK(T, str == "untouched", "GetDataAsString on a dead reference changed its output");
        PBT_CHECK(T, r.real.GetKeys().empty() && r.real.ToStrings().empty() && r.real.GetRecordUniqueId() == "null", "a dead reference shows data");
        std::string js = r.real.ToJson(false);
        PBT_CHECK(T, js == "{}", "ToJson of a dead reference is %s", Show(js).c_str());
        PBT_CHECK(T, !r.real.IsKeyExist(key), "a dead reference has keys");
        std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
        r.real.PrintRecord();
        std::cout.rdbuf(old);
        PBT_CHECK(T, ss.str() == "VaultRecordRef not valid!\n", "PrintRecord of a dead reference prints %s", Show(ss.str()).c_str());
        int vi = pickVault();
        if (vi >= 0)
        {
            PBT_CHECK(T | P(11), !V[vi].real->EraseRecord(r.real), "EraseRecord of a dead reference returned true");
        }
        int si = pickSet();
        if (S[si].parent >= 0)
        {
            Res a = S[si].real->AddRecord(r.real);
            PBT_CHECK(T, !a.IsOperationSuccess && a.ResultCode == Code::DataRecordNotValid, "AddRecord of a dead reference: code %d", static_cast<int>(a.ResultCode));
            PBT_CHECK(T, !S[si].real->RemoveRecord(r.real) && !S[si].real->CheckRecord(r.real), "a dead reference is in a set");
        }
        return true;
    }
    bool opErase()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        uint64_t T = P(11) | P(1);
        int how = static_cast<int>(s.draw(4));
        if (how == 0)
        {
            int ri = pickRef(RefM::Live);
            if (ri < 0) return opGrabRef();
            bool mine = R[ri].vault == vi;
            if (s.chance(5, 6)) { vi = R[ri].vault; mine = true; }
            Id id = R[ri].id;
            Log("vault%d.EraseRecord(ref%d -> record %lld of vault%d)", vi, ri, static_cast<long long>(id), R[ri].vault);
            bool ok = V[vi].real->EraseRecord(R[ri].real);
            PBT_CHECK(T, ok == mine, "EraseRecord(ref) returned %d", ok);
            if (mine) { countShared(vi, id); eraseIds(vi, {id}); }
            return true;
        }
        Target t = pickTarget(m);
        std::set<Id> match;
        if (t.err == Code::Success) for (auto& r : m.recs) if (r.second.at(t.key) == t.val) match.insert(r.first);
        std::size_t amount = how == 1 ? 1 : how == 2 ? All : pickAmount(match.size());
        Log("vault%d.%s<%s>(%s, %s, %zd) matches %zu", vi, how == 1 ? "EraseRecord" : "EraseRecords", t.t->name(), t.key.c_str(), Show(t.t->str(t.val)).c_str(), static_cast<ssize_t>(amount), match.size());
        SV sv; sv.v = m.real.get();
        Res r = how == 1 ? t.t->erase(sv, t.key, t.val) : t.t->eraseMany(sv, t.key, t.val, amount, how == 2);
        if (t.err != Code::Success) { expectFailTarget(T, "EraseRecord(s)", r, t); return true; }
        if (match.empty())
        {
            std::type_index ty = t.t->type();
            expectFail(T, "EraseRecord(s) of an absent value", r, Code::WrongValue, &t.key, &ty, nullptr);
            return true;
        }
        expectOk(T, "EraseRecord(s)", r, &t.key);
        auto left = idsOf(m.real->GetSortedRecords("id"), T);
        std::set<Id> gone;
        for (auto& x : m.recs) if (!left.count(x.first)) gone.insert(x.first);
        std::size_t want = std::min(amount, match.size());
        PBT_CHECK(T, gone.size() == want, "%zu records were erased, expected %zu", gone.size(), want);
        for (Id i : gone) PBT_CHECK(T, match.count(i), "record %lld was erased but does not have the value", static_cast<long long>(i));
        for (Id i : gone) countShared(vi, i);
        eraseIds(vi, gone);
        return true;
    }
    void countShared(int vi, Id id)
    {
        for (auto& c : V[vi].cols) if (c.ops && V[vi].uniqueTaken(c.name, V[vi].recs[id][c.name], id)) Mark("erase-of-shared-value");
        for (auto& x : S) if (x.parent == vi && x.ids.count(id)) Mark("erase-seen-by-set");
    }
    bool opDrop()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        uint64_t T = P(11);
        auto& m = V[vi];
        if (s.chance(2, 3))
        {
            Log("vault%d.DropData", vi);
            m.real->DropData();
            if (!m.recs.empty()) Mark("dropped-data");
            eraseIds(vi, idsOfVault(vi));
            return true;
        }
        Log("vault%d.DropVault", vi);
        m.real->DropVault();
        if (!m.recs.empty()) Mark("dropped-data");
        eraseIds(vi, idsOfVault(vi));
        m.cols.clear();
        detachSets(vi);
        PBT_CHECK(T | P(10), m.real->Size() == 0 && m.real->GetKeys().empty() && m.real->GetUniqueKeys().empty(), "DropVault left keys or records");
        checkAll(T | P(13), true);
        setupId(vi);
        return true;
    }
    bool opQuery()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        SV sv; sv.v = m.real.get();
        std::set<Id> ids = idsOfVault(vi);
        for (auto& x : S) if (x.parent == vi && s.chance(1, 4)) { sv.v = nullptr; sv.s = x.real.get(); ids = x.ids; break; }
        Target t = pickTarget(m);
        std::set<Id> match;
        if (t.err == Code::Success) for (Id i : ids) if (m.recs.at(i).at(t.key) == t.val) match.insert(i);
        std::size_t amount = pickAmount(match.size());
        Log("%s.GetRecords<%s>(%s, %s, %zd) matches %zu", sv.v ? "vault" : "set", t.t->name(), t.key.c_str(), Show(t.t->str(t.val)).c_str(), static_cast<ssize_t>(amount), match.size());
        uint64_t T = P(4) | P(2);
        std::vector<Ref> refs;
        if (s.flip()) refs.resize(2);
        Res r = t.t->getRecords(sv, t.key, t.val, refs, amount, false);
        Ref one;
        bool pre = false;
        int live = pickRef(RefM::Live);
        if (live >= 0 && s.flip()) { one = R[live].real; pre = true; }
        Res r1 = t.t->getRecord(sv, t.key, t.val, one);
        if (t.err != Code::Success)
        {
            expectFailTarget(P(2), "GetRecords", r, t);
            expectFailTarget(P(2), "GetRecord", r1, t);
            PBT_CHECK(P(8), one.IsValid() == pre && (!pre || one == R[live].real), "a failed GetRecord changed the reference");
            return true;
        }
        PBT_CHECK(P(2), r1.IsOperationSuccess == !match.empty() && one.IsValid() == !match.empty(), "GetRecord: code %d", static_cast<int>(r1.ResultCode));
        if (match.empty())
        {
            std::type_index ty = t.t->type();
            expectFail(P(2), "GetRecord of an absent value", r1, Code::WrongValue, &t.key, &ty, nullptr);
            expectFail(P(2), "GetRecords of an absent value", r, Code::WrongValue, &t.key, &ty, nullptr);
            PBT_CHECK(P(2), refs.empty(), "GetRecords of an absent value returned records");
            return true;
        }
        expectOk(T, "GetRecords", r, &t.key);
        auto got = idsOf(refs, T);
        PBT_CHECK(T, got.size() == std::min(amount, match.size()), "GetRecords with amount %zd returned %zu of %zu matching records", static_cast<ssize_t>(amount), got.size(), match.size());
        for (Id i : got) PBT_CHECK(T, match.count(i), "GetRecords returned record %lld, which does not match", static_cast<long long>(i));
        if (amount < match.size()) Mark("limited");
        return true;
    }
    bool opSort()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        uint64_t T = P(6);
        SV sv; sv.v = m.real.get();
        std::set<Id> ids = idsOfVault(vi);
        for (auto& x : S) if (x.parent == vi && s.chance(1, 3)) { sv.v = nullptr; sv.s = x.real.get(); ids = x.ids; break; }
        const Col* c = pickCol(m, false);
        bool rev = s.flip();
        if (!c || s.chance(1, 12))
        {
            unsigned calls = 0;
            auto f = [&](const Ref&) { ++calls; return true; };
            if (sv.v) sv.v->SortBy("nokey", f, rev); else sv.s->SortBy("nokey", f, rev);
            PBT_CHECK(T, sorted(sv, "nokey", rev).empty() && calls == 0, "sorting by a missing key returned records");
            return true;
        }
        std::vector<long long> all;
        auto val = [&](Id i) { return c->ops ? static_cast<long long>(m.recs.at(i).at(c->name)) : static_cast<long long>(i); };
        for (Id i : ids) all.push_back(val(i));
        std::sort(all.begin(), all.end());
        if (rev) std::reverse(all.begin(), all.end());
        std::size_t amount = pickAmount(ids.size());
        bool early = s.chance(1, 3);
        std::size_t stopAt = early ? 1 + s.draw(ids.size() + 1) : All;
        bool viaSortBy = s.flip();
        Log("%s.%s(%s, reverse=%d, amount=%zd, stop=%zd) of %zu", sv.v ? "vault" : "set", viaSortBy ? "SortBy" : "GetSortedRecords", c->name.c_str(), rev, static_cast<ssize_t>(amount), static_cast<ssize_t>(stopAt), ids.size());
        std::vector<Ref> refs;
        std::size_t want = std::min(amount, ids.size());
        if (viaSortBy)
        {
            want = std::min(want, stopAt);
            // the callback may query the vault or write another key of the record it is given
            PredM p;
            const Col* d = nullptr;
            int w = 0;
            if (s.chance(1, 4)) { d = pickCol(m); if (d && (d == c || d->uniq)) d = nullptr; if (d) w = pickVal(d->ops); }
            else if (s.chance(1, 4)) { p = pickPred(m); if (p.kind != 6) p.kind = 0; }
            Pred fn = makePred(p, m, false);
            bool written = true;
            auto f = [&](const Ref& r)
            {
                refs.push_back(r);
                if (p.kind) fn(r);
                if (d) { Ref x = r; written = d->ops->setData(x, d->name, w).IsOperationSuccess && written; }
                return refs.size() < stopAt;
            };
            if (d) Log("  each visited record gets %s = %s", d->name.c_str(), d->ops->str(w).c_str());
            if (sv.v) sv.v->SortBy(c->name, f, rev, amount); else sv.s->SortBy(c->name, f, rev, amount);
            PBT_CHECK(T | P(12), written, "a record could not be written inside a callback");
            if (d) { for (auto& r : refs) m.recs.at(idOf(r, T)).at(d->name) = w; Mark("written-in-callback"); }
            afterCallbacks(T, vi);
        }
        else refs = sorted(sv, c->name, rev, amount);
        PBT_CHECK(T, refs.size() == want, "%zu records were visited, expected %zu", refs.size(), want);
        auto got = idsOf(refs, T);
        for (Id i : got) PBT_CHECK(T, ids.count(i), "sorting returned record %lld, which is not there", static_cast<long long>(i));
        for (std::size_t i = 0; i < refs.size(); ++i) PBT_CHECK(T, val(idOf(refs[i], T)) == all[i], "position %zu of the sorted order holds a wrong value", i);
        if (want >= 2) Mark("sorted2");
        return true;
    }
    // Gives set `si` the state "attached to vault vi, holding ids".
    void attach(int si, int vi, std::set<Id> ids) { S[si].parent = vi; S[si].ids = std::move(ids); }

    bool opRequest()
    {
        bool onSet = s.chance(1, 3);
        int src = onSet ? pickSetWithParent() : -1;
        int vi = onSet ? S[src].parent : pickVault();
        uint64_t T = P(3) | (onSet ? P(17) : 0);
        int dst = pickSet();
        if (onSet && vi < 0)
        {
            Log("set%d (no vault).RequestEqual -> set%d", src, dst);
            SV sv; sv.s = S[src].real.get();
            std::string key = "A"; const TypeOps* t = Types()[s.draw(Types().size())];
            std::type_index ty = t->type();
            Res r = t->request(sv, static_cast<Kind>(s.draw(6)), key, 0, 1, true, true, All, nullptr, true, *S[dst].real);
            expectFail(P(13), "a request on a set without a vault", r, Code::ParentVaultNotValid, &key, &ty, nullptr);
            return true;
        }
        if (vi < 0) return false;
        auto& m = V[vi];
        SV sv; if (onSet) sv.s = S[src].real.get(); else sv.v = m.real.get();
        std::set<Id> ids = onSet ? S[src].ids : idsOfVault(vi);
        Target t = pickTarget(m);
        Kind k = static_cast<Kind>(s.draw(6));
        int j = k == Kind::Interval ? (t.col && t.err == Code::Success ? pickPresent(m, *t.col) : pickVal(t.t)) : t.val;
        int lo = t.val;
        if (k == Kind::Interval && lo > j && s.chance(2, 3)) std::swap(lo, j);
        bool ib = s.flip(), ie = s.flip();
        PredM p = s.chance(1, 3) ? pickPred(m) : PredM();
        std::set<Id> match;
        if (t.err == Code::Success) for (Id i : ids) if (cmp(k, m.recs.at(i).at(t.key), lo, j, ib, ie) && predHolds(p, m, i)) match.insert(i);
        bool useDefault = p.kind == 0 && s.flip();
        std::size_t amount = useDefault ? All : s.chance(1, 2) ? All : pickAmount(match.size());
        if (amount != All || p.kind) T |= P(4);
        Pred fn = makePred(p, m, s.chance(1, 4));
        Log("set%d <- %s%d.Request%s<%s>(%s, %s..%s %d %d, amount=%zd, pred=%d) matches %s", dst, onSet ? "set" : "vault", onSet ? src : vi, KindName(k), t.t->name(), t.key.c_str(), Show(t.t->str(lo)).c_str(), Show(t.t->str(j)).c_str(), ib, ie, static_cast<ssize_t>(amount), p.kind, Ids(match).c_str());
        pbt::SetOpTags(T | P(33));
        Res r = t.t->request(sv, k, t.key, lo, j, ib, ie, amount, p.kind ? &fn : nullptr, useDefault, *S[dst].real);
        if (onSet && src == dst)
        {
            expectFail(T | P(15), "a request of a set into itself", r, Code::SameVaultRecordSet, &t.key, nullptr, nullptr);
            return true;
        }
        if (t.err != Code::Success)
        {
            expectFailTarget(T, "a request", r, t);
            attach(dst, vi, {});
            return true;
        }
        expectOk(T, "a request", r, &t.key);
        std::set<Id> got = setIds(*S[dst].real, T);
        attach(dst, vi, got);
        afterCallbacks(T, vi);
        for (Id i : got) PBT_CHECK(T, match.count(i), "the request returned record %lld, which does not match", static_cast<long long>(i));
        PBT_CHECK(T, got.size() == std::min(amount, match.size()), "the request returned %zu records; %zu match and the limit is %zd", got.size(), match.size(), static_cast<ssize_t>(amount));
        if (!match.empty() && match.size() < ids.size()) Mark("selective-request");
        if (k == Kind::Interval && !match.empty()) Mark("interval-hit");
        if (amount < match.size()) Mark("limited");
        if (p.kind == 1 || p.kind == 2 || p.kind == 5) Mark("predicate");
        if (onSet) Mark("request-on-set");
        return true;
    }
    // ---- complex requests
    std::unique_ptr<Node> genNode(const VaultM& m, int depth)
    {
        auto n = std::make_unique<Node>();
        if (depth == 0 || s.chance(1, 3))
        {
            Target t = pickTarget(m, 14);
            n->key = t.key; n->ops = t.t; n->val = t.val;
            n->kind = static_cast<Kind>(s.draw(5));
            if (s.chance(1, 4)) n->pred = pickPred(m);
            return n;
        }
        n->leaf = false;
        n->isAnd = s.flip();
        n->a = genNode(m, depth - 1);
        n->b = genNode(m, depth - 1);
        // The interval shape, often on one key: Greater(OrEqual) && Less(OrEqual).
        if (n->a->leaf && n->b->leaf && s.flip())
        {
            n->a->kind = s.flip() ? Kind::Greater : Kind::GreaterOrEqual;
            n->b->kind = static_cast<Kind>(s.draw(5));
            if (s.chance(3, 4)) { n->b->key = n->a->key; n->b->ops = n->a->ops; n->b->val = pickVal(n->a->ops); }
            else if (s.flip()) n->b->key = n->a->key;
        }
        return n;
    }
    std::string show(const Node& n) const
    {
        if (n.leaf) return Fmt("%s<%s>(%s,%s%s)", KindName(n.kind), n.ops->name(), n.key.c_str(), Show(n.ops->str(n.val)).c_str(), n.pred.kind ? Fmt(",p%d", n.pred.kind).c_str() : "");
        return "(" + show(*n.a) + (n.isAnd ? " && " : " || ") + show(*n.b) + ")";
    }
    void buildLeaves(Node& n, const VaultM& m)
    {
        if (n.leaf)
        {
            if (n.pred.kind) n.fn = makePred(n.pred, m, false);
            n.req = n.ops->leaf(n.kind, n.key, n.val, n.pred.kind ? &n.fn : nullptr);
            return;
        }
        buildLeaves(*n.a, m); buildLeaves(*n.b, m);
        n.req = CombineRequests(*n.a->req, *n.b->req, n.isAnd, s.flip());
    }
    struct Err { std::string key; std::type_index req; std::type_index saved; Code code; };
    std::set<Id> evalNode(const Node& n, const VaultM& m, const std::set<Id>& ids, std::vector<Err>& errs)
    {
        std::set<Id> r;
        if (n.leaf)
        {
            const Col* c = m.col(n.key);
            if (!c) { errs.push_back({n.key, n.ops->type(), typeid(void), Code::WrongKey}); return r; }
            if (c->type() != n.ops->type()) { errs.push_back({n.key, n.ops->type(), c->type(), Code::WrongType}); return r; }
            for (Id i : ids) if (cmp(n.kind, m.recs.at(i).at(n.key), n.val, n.val, false, false) && predHolds(n.pred, m, i)) r.insert(i);
            return r;
        }
        auto a = evalNode(*n.a, m, ids, errs), b = evalNode(*n.b, m, ids, errs);
        for (Id i : a) if (!n.isAnd || b.count(i)) r.insert(i);
        if (!n.isAnd) for (Id i : b) r.insert(i);
        return r;
    }
    void dropParts(Node& n, bool top)
    {
        if (!n.leaf) { dropParts(*n.a, false); dropParts(*n.b, false); }
        if (!top) n.req.reset();
    }
    bool opComplex()
    {
        bool onSet = s.chance(1, 4);
        int src = onSet ? pickSetWithParent() : -1;
        int vi = onSet ? S[src].parent : pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        uint64_t T = P(5) | (onSet ? P(17) : 0);
        int dst = pickSet();
        const bool self = onSet && s.chance(1, 12);
        if (self) dst = src;
        else if (onSet && dst == src) dst = (dst + 1) % NS;
        SV sv; if (onSet) sv.s = S[src].real.get(); else sv.v = m.real.get();
        std::set<Id> ids = onSet ? S[src].ids : idsOfVault(vi);
        auto tree = genNode(m, static_cast<int>(1 + s.draw(2)));
        std::vector<Err> errs;
        auto want = evalNode(*tree, m, ids, errs);
        int life = static_cast<int>(s.weighted({4, 1, 1, 1}));   // keep the parts, drop them, use a copy, use a copy after dropping everything
        Log("set%d <- %s%d.Request(%s) life=%d expect %s%s", dst, onSet ? "set" : "vault", onSet ? src : vi, show(*tree).c_str(), life, Ids(want).c_str(), errs.empty() ? "" : " error");
        pbt::SetOpTags(T | P(33));
        buildLeaves(*tree, m);
        std::unique_ptr<AnyRequest> copy;
        AnyRequest* use = tree->req.get();
        if (life >= 2) { copy = CopyRequest(*tree->req, static_cast<int>(s.draw(3))); use = copy.get(); Mark("request-copied"); }
        if (life == 1) { dropParts(*tree, true); Mark("request-stored"); }
        if (life == 3) { dropParts(*tree, true); tree->req.reset(); Mark("request-stored"); }
        int runs = s.chance(1, 4) ? 2 : 1;
        for (int run = 0; run < runs; ++run)
        {
            Res r = RunRequest(sv, *use, *S[dst].real);
            if (self)
            {
                expectFail(T, "a complex request into the set itself", r, Code::SameVaultRecordSet, nullptr, nullptr, nullptr);
                continue;
            }
            if (!errs.empty())
            {
                expectFail(T, "a complex request", r, r.ResultCode == Code::Success ? Code::WrongKey : r.ResultCode, nullptr, nullptr, nullptr);
                bool known = false;
                for (auto& e : errs) known |= e.code == r.ResultCode && e.key == r.Key && e.req == r.RequestedType && (e.code != Code::WrongType || e.saved == r.SavedType);
                PBT_CHECK(T | P(8), known, "the complex request's error (code %d, key '%s', types %s/%s) belongs to none of its parts", static_cast<int>(r.ResultCode), r.Key.c_str(), r.RequestedType.name(), r.SavedType.name());
                attach(dst, vi, {});
                afterCallbacks(T, vi);
                continue;
            }
            expectOk(T, "a complex request", r);
            auto got = setIds(*S[dst].real, T);
            attach(dst, vi, got);
            afterCallbacks(T, vi);
            PBT_CHECK(T, got == want, "the complex request returned %s, expected %s", Ids(got).c_str(), Ids(want).c_str());
        }
        if (errs.empty() && !want.empty() && want.size() < ids.size()) Mark("selective-complex");
        if (onSet) Mark("request-on-set");
        return true;
    }
    // ---- sets
    bool opSetLife()
    {
        int a = pickSet(), b = pickSetWithParent();
        uint64_t T = P(16) | P(17) | P(14);
        pbt::SetOpTags(T | P(33));
        auto moved = [&](int d, int x) { S[d].parent = S[x].parent; S[d].ids = S[x].ids; if (d != x) { S[x].parent = -1; S[x].ids.clear(); } };
        switch (s.draw(8))
        {
        case 0: Log("set%d = set%d", a, b); *S[a].real = *S[b].real; S[a].parent = S[b].parent; S[a].ids = S[b].ids; if (S[b].parent >= 0) Mark("set-copied"); break;
        case 1: Log("set%d = move(set%d)", a, b); if (a != b && S[a].parent >= 0 && S[b].parent >= 0) Mark("set-moved-over"); *S[a].real = std::move(*S[b].real); moved(a, b); break;
        case 2: Log("set%d = new set(set%d)", a, b); { auto n = std::unique_ptr<VaultRecordSet>(new VaultRecordSet(*S[b].real)); int p = S[b].parent; auto ids = S[b].ids; S[a].real = std::move(n); S[a].parent = p; S[a].ids = ids; if (p >= 0) Mark("set-copied"); } break;
        case 3: Log("set%d = new set(move(set%d))", a, b); { auto n = std::unique_ptr<VaultRecordSet>(new VaultRecordSet(std::move(*S[b].real))); int p = S[b].parent; auto ids = S[b].ids; S[b].parent = -1; S[b].ids.clear(); S[a].real = std::move(n); S[a].parent = p; S[a].ids = ids; if (p >= 0) Mark("set-moved"); } break;
        case 4: Log("set%d.Reset", a); S[a].real->Reset(); S[a].parent = -1; S[a].ids.clear(); break;
        case 5: Log("set%d.Clear", a); S[a].real->Clear(); S[a].ids.clear(); break;
        case 6: Log("set%d destroyed and recreated", a); S[a].real.reset(new VaultRecordSet()); S[a].parent = -1; S[a].ids.clear(); Mark("set-destroyed"); break;
        default:
        {
            Log("compare set%d and set%d", a, b);
            bool eq = S[a].parent == S[b].parent && S[a].ids == S[b].ids;
            PBT_CHECK(T, (*S[a].real == *S[b].real) == eq && (*S[a].real != *S[b].real) == !eq, "comparison of sets: == %d, != %d, expected %d", *S[a].real == *S[b].real, *S[a].real != *S[b].real, eq);
            std::string ua = S[a].real->GetParentVaultUniqueId(), ub = S[b].real->GetParentVaultUniqueId();
            PBT_CHECK(T, (ua == ub) == (S[a].parent == S[b].parent) && (ua == "null") == (S[a].parent < 0), "parent ids %s and %s", ua.c_str(), ub.c_str());
        }
        }
        return true;
    }
    bool opSetAdd()
    {
        int si = pickSetWithParent(), ri = pickRef(RefM::Live);
        if (ri < 0) return opGrabRef();
        uint64_t T = P(16) | P(17);
        auto& x = S[si];
        Log("set%d.AddRecord(ref%d -> record %lld of vault%d)", si, ri, static_cast<long long>(R[ri].id), R[ri].vault);
        Res r = x.real->AddRecord(R[ri].real);
        Code want = x.parent < 0 ? Code::ParentVaultNotValid : x.parent != R[ri].vault ? Code::ParentVaultNotMatch : x.ids.count(R[ri].id) ? Code::RecordAlredyInSet : Code::Success;
        if (want == Code::Success) { expectOk(T, "AddRecord", r); x.ids.insert(R[ri].id); Mark("record-added-to-set"); }
        else expectFail(T | (x.parent < 0 ? P(13) : 0), "AddRecord", r, want, nullptr, nullptr, nullptr);
        return true;
    }
    bool opSetRemove()
    {
        int si = pickSetWithParent();
        auto& x = S[si];
        uint64_t T = P(16) | P(17) | P(14);
        int how = static_cast<int>(s.draw(4));
        if (how == 0)
        {
            int ri = pickRef(RefM::Live);
            if (ri < 0) return opGrabRef();
            bool in = x.parent == R[ri].vault && x.ids.count(R[ri].id);
            Log("set%d.RemoveRecord(ref%d -> record %lld)", si, ri, static_cast<long long>(R[ri].id));
            bool ok = x.real->RemoveRecord(R[ri].real);
            PBT_CHECK(T, ok == in, "RemoveRecord(ref) returned %d", ok);
            if (in) { x.ids.erase(R[ri].id); Mark("record-removed-from-set"); }
            return true;
        }
        SV sv; sv.s = x.real.get();
        if (x.parent < 0)
        {
            Log("set%d (no vault).RemoveRecord(s) by value", si);
            const TypeOps* t = Types()[s.draw(Types().size())];
            std::string key = "A"; std::type_index ty = t->type();
            Res r = how == 1 ? t->erase(sv, key, 0) : t->eraseMany(sv, key, 0, 1, how == 2);
            expectFail(P(13), "RemoveRecord(s) on a set without a vault", r, Code::ParentVaultNotValid, &key, &ty, nullptr);
            return true;
        }
        auto& m = V[x.parent];
        Target t = pickTarget(m);
        std::set<Id> match;
        if (t.err == Code::Success) for (Id i : x.ids) if (m.recs.at(i).at(t.key) == t.val) match.insert(i);
        std::size_t amount = how == 1 ? 1 : how == 2 ? All : pickAmount(match.size());
        Log("set%d.%s<%s>(%s, %s, %zd) matches %zu", si, how == 1 ? "RemoveRecord" : "RemoveRecords", t.t->name(), t.key.c_str(), Show(t.t->str(t.val)).c_str(), static_cast<ssize_t>(amount), match.size());
        Res r = how == 1 ? t.t->erase(sv, t.key, t.val) : t.t->eraseMany(sv, t.key, t.val, amount, how == 2);
        if (t.err != Code::Success) { expectFailTarget(T, "RemoveRecord(s)", r, t); return true; }
        if (match.empty())
        {
            std::type_index ty = t.t->type();
            expectFail(T, "RemoveRecord(s) of an absent value", r, Code::WrongValue, &t.key, &ty, nullptr);
            return true;
        }
        expectOk(T, "RemoveRecord(s)", r, &t.key);
        auto left = setIds(*x.real, T);
        std::set<Id> gone;
        for (Id i : x.ids) if (!left.count(i)) gone.insert(i);
        PBT_CHECK(T, gone.size() == std::min(amount, match.size()), "%zu records left the set, expected %zu", gone.size(), std::min(amount, match.size()));
        for (Id i : gone) { PBT_CHECK(T, match.count(i), "record %lld left the set but does not have the value", static_cast<long long>(i)); x.ids.erase(i); }
        Mark("record-removed-from-set");
        return true;
    }
    bool opSetAlgebra()
    {
        int a = pickSetWithParent(), b = pickSetWithParent(), d = pickSet();
        uint64_t T = P(15) | P(17) | P(14);
        pbt::SetOpTags(T | P(33));
        int how = static_cast<int>(s.draw(5));
        static const char* names[] = {"Join", "Exclude", "Intersect", "Union", "Intersection"};
        if (s.chance(2, 3))
        {
            // Prefer operands that can be combined.
            std::vector<int> c;
            for (int i = 0; i < NS; ++i) if (i != a && S[i].parent == S[a].parent && S[a].parent >= 0) c.push_back(i);
            if (!c.empty()) b = c[s.draw(c.size())];
            if (d == a || d == b) for (d = 0; d == a || d == b; ++d) {}
        }
        auto& A = S[a]; auto& B = S[b]; auto& D = S[d];
        std::set<Id> un = A.ids, in, ex;
        un.insert(B.ids.begin(), B.ids.end());
        for (Id i : A.ids) (B.ids.count(i) ? in : ex).insert(i);
        Res r;
        if (how < 3)
        {
            Log("set%d.%s(set%d) %s with %s", a, names[how], b, Ids(A.ids).c_str(), Ids(B.ids).c_str());
            r = how == 0 ? A.real->Join(*B.real) : how == 1 ? A.real->Exclude(*B.real) : A.real->Intersect(*B.real);
            Code want = A.parent < 0 ? Code::ParentVaultNotValid : B.parent < 0 ? Code::OtherParentVaultNotValid : A.parent != B.parent ? Code::ParentVaultNotMatch : a == b ? Code::SameVaultRecordSet : Code::Success;
            if (want != Code::Success) { expectFail(T | (A.parent < 0 || B.parent < 0 ? P(13) : 0), names[how], r, want, nullptr, nullptr, nullptr); return true; }
            expectOk(T, names[how], r);
            bool overlap = !in.empty() && !ex.empty() && un.size() > A.ids.size();
            A.ids = how == 0 ? un : how == 1 ? ex : in;
            auto got = setIds(*A.real, T);
            PBT_CHECK(T, got == A.ids, "%s gives %s, expected %s", names[how], Ids(got).c_str(), Ids(A.ids).c_str());
            if (overlap) Mark("overlapping-algebra");
            Mark("set-algebra");
            return true;
        }
        Log("%s(set%d, set%d, set%d) %s with %s", names[how], a, b, d, Ids(A.ids).c_str(), Ids(B.ids).c_str());
        r = how == 3 ? Union(*A.real, *B.real, *D.real) : Intersection(*A.real, *B.real, *D.real);
        Code want = (a == b || a == d || b == d) ? Code::SameVaultRecordSet : A.parent < 0 ? Code::ParentVaultNotValid : B.parent < 0 ? Code::OtherParentVaultNotValid : A.parent != B.parent ? Code::ParentVaultNotMatch : Code::Success;
        if (want != Code::Success) { expectFail(T | (A.parent < 0 || B.parent < 0 ? P(13) : 0), names[how], r, want, nullptr, nullptr, nullptr); return true; }
        expectOk(T, names[how], r);
        if (!in.empty() && !ex.empty() && un.size() > A.ids.size()) Mark("overlapping-algebra");
        attach(d, A.parent, how == 3 ? un : in);
        auto got = setIds(*D.real, T);
        PBT_CHECK(T, got == D.ids, "%s gives %s, expected %s", names[how], Ids(got).c_str(), Ids(D.ids).c_str());
        Mark("set-algebra");
        return true;
    }
    // ---- whole vaults
    bool opVaultCopy()
    {
        int b = pickVault();
        if (b < 0) return false;
        uint64_t T = P(18);
        pbt::SetOpTags(T | P(33));
        int a = static_cast<int>(s.draw(NV));
        if (s.flip() && V[a].alive())
        {
            Log("vault%d = vault%d", a, b);
            *V[a].real = *V[b].real;
            if (a == b) return true;
            killRefs(a);
            detachSets(a);
        }
        else
        {
            if (a == b) return false;
            Log("vault%d = new Vault(vault%d)", a, b);
            auto n = std::unique_ptr<Vault>(new Vault(*V[b].real));
            if (V[a].alive()) { killRefs(a); detachSets(a); V[a].real.reset(); }
            V[a].real = std::move(n);
        }
        V[a].cols = V[b].cols;
        V[a].recs = V[b].recs;
        Mark("vault-copied");
        if (!V[b].recs.empty()) Mark("vault-copied-with-records");
        if (s.chance(1, 2)) checkAll(T, true);
        return true;
    }
    bool opVaultMove()
    {
        int b = pickVault();
        if (b < 0) return false;
        uint64_t T = P(19);
        pbt::SetOpTags(T | P(33));
        int a = static_cast<int>(s.draw(NV));
        bool assign = s.flip() && V[a].alive();
        if (s.chance(1, 3))
        {
            // a file of which every row is refused
            std::string file = std::string(getenv("PBT_SCRATCH")) + "/move-" + std::to_string(getpid()) + ".csv";
            { std::ofstream f(file); f << "no such key\r\n"; for (std::uint64_t k = s.draw(3); k > 0; --k) f << "1\r\n"; }
            Log("  vault%d.ReadFile: rows with an unknown key", b);
            V[b].real->ReadFile(file);
            unlink(file.c_str());
        }
        const auto errors = V[b].real->GetErrorsInLastReadedFile();
        if (!errors.empty()) Mark("moved-errors");
        if (a == b)
        {
            if (!assign) return false;
            Log("vault%d = move(vault%d)", a, b);
            Vault& self = *V[a].real;
            *V[a].real = std::move(self);
            return true;
        }
        if (assign)
        {
            Log("vault%d = move(vault%d)", a, b);
            *V[a].real = std::move(*V[b].real);
            killRefs(a); detachSets(a);
        }
        else
        {
            Log("vault%d = new Vault(move(vault%d))", a, b);
            auto n = std::unique_ptr<Vault>(new Vault(std::move(*V[b].real)));
            if (V[a].alive()) { killRefs(a); detachSets(a); V[a].real.reset(); }
            V[a].real = std::move(n);
        }
        V[a].cols = V[b].cols; V[a].recs = V[b].recs;
        for (auto& x : S) if (x.parent == b) { x.parent = a; Mark("set-of-moved-vault"); }
        for (auto& x : R) if (x.st == RefM::Live && x.vault == b) { x.vault = a; Mark("ref-of-moved-vault"); }
        V[b].cols.clear(); V[b].recs.clear();
        Mark("vault-moved");
        PBT_CHECK(T, V[a].real->GetErrorsInLastReadedFile() == errors, "the moved vault reports %zu errors of the last file, %zu before", V[a].real->GetErrorsInLastReadedFile().size(), errors.size());
        PBT_CHECK(T, V[b].real->Size() == 0 && V[b].real->GetKeys().empty() && V[b].real->GetUniqueKeys().empty(), "a moved-from vault is not empty");
        if (s.flip()) { Log("  moved-from vault%d destroyed", b); V[b].real.reset(); Mark("moved-from-destroyed"); }
        else { checkAll(T, false); setupId(b); Mark("moved-from-reused"); }
        checkAll(T, true);
        return true;
    }
    bool opVaultDestroy()
    {
        int a = pickVault();
        if (a < 0) return false;
        Log("vault%d destroyed", a);
        if (!V[a].recs.empty()) Mark("vault-destroyed");
        for (auto& r : R) if (r.st == RefM::Live && r.vault == a) Mark("ref-of-destroyed-vault");
        for (auto& x : S) if (x.parent == a) Mark("set-of-destroyed-vault");
        pbt::SetOpTags(P(13) | P(33));
        V[a].real.reset();
        killRefs(a); detachSets(a);
        V[a].cols.clear(); V[a].recs.clear();
        return true;
    }
    bool opNullSet()
    {
        int si = -1;
        for (int i = 0; i < NS; ++i) if (S[i].parent < 0) si = i;
        if (si < 0) return false;
        auto& x = S[si];
        uint64_t T = P(13);
        Log("use set%d, which has no vault", si);
        Mark("null-set-used");
        SV sv; sv.s = x.real.get();
        const TypeOps* t = Types()[s.draw(Types().size())];
        std::type_index ty = t->type();
        std::string key = "A";
        int d = -9;
        expectFail(T, "GetKeyValue", t->getKeyValue(sv, key, d), Code::ParentVaultNotValid, &key, &ty, nullptr);
        PBT_CHECK(T, d == -1, "GetKeyValue on a set without a vault changed its output");
        Ref one;
        expectFail(T, "GetRecord", t->getRecord(sv, key, 0, one), Code::ParentVaultNotValid, &key, &ty, nullptr);
        std::vector<Ref> refs;
        expectFail(T, "GetRecords", t->getRecords(sv, key, 0, refs, All, s.flip()), Code::ParentVaultNotValid, &key, &ty, nullptr);
        std::type_index kt = typeid(void);
        PBT_CHECK(T, x.real->Size() == 0 && x.real->GetKeys().empty() && x.real->GetUniqueKeys().empty() && !x.real->IsKeyExist("id") && !x.real->GetKeyType("id", kt) && x.real->GetSortedRecords("id").empty() && x.real->ToStrings().empty() && x.real->ToJson() == "{}", "a set without a vault shows data");
        unsigned calls = 0;
        x.real->SortBy("id", [&](const Ref&) { ++calls; return true; });
        PBT_CHECK(T, calls == 0 && x.real->GetParentVaultUniqueId() == "null", "a set without a vault has records");
        int live = pickRef(RefM::Live);
        if (live >= 0) PBT_CHECK(T, !x.real->CheckRecord(R[live].real) && !x.real->RemoveRecord(R[live].real), "a set without a vault contains a record");
        int di = pickSet();
        if (di != si)
        {
            std::unique_ptr<AnyRequest> leaf = t->leaf(static_cast<Kind>(s.draw(5)), key, 0, nullptr);
            expectFail(T, "a request object on a set without a vault", RunRequest(sv, *leaf, *S[di].real), Code::ParentVaultNotValid, nullptr, nullptr, nullptr);
        }
        x.real->Clear(); x.real->Reset();
        PBT_CHECK(T, !x.real->SaveToFile("/nonexistent-dir-for-verif/x.csv"), "SaveToFile on a set without a vault returned true");
        return true;
    }

    // A copy of a vault loses all its keys, refuses a key, and gets new keys.
    bool opKeyless()
    {
        int vi = pickVault();
        if (vi < 0) return false;
        auto& m = V[vi];
        uint64_t T = P(10) | P(18);
        Vault c(*m.real);
        std::size_t n = m.recs.size();
        VaultRecordSet set;
        Ref one;
        bool withSet = m.hasId() && s.flip();
        if (withSet) c.RequestGreater("id", static_cast<Id>(-1), set);
        Log("a copy of vault%d with %zu records loses all its keys", vi, n);
        std::vector<std::string> names;
        for (auto& col : m.cols) names.push_back(col.name);
        while (!names.empty())
        {
            std::size_t k = s.draw(names.size());
            PBT_CHECK(T, c.RemoveKey(names[k]), "RemoveKey(%s) of a copy failed", names[k].c_str());
            PBT_CHECK(T, !c.RemoveKey(names[k]) && !c.IsKeyExist(names[k]), "a removed key is still there");
            names.erase(names.begin() + static_cast<std::ptrdiff_t>(k));
        }
        auto print = [](const Vault& v) { std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf()); v.Print(); std::cout.rdbuf(old); return ss.str(); };
        auto printSet = [](const VaultRecordSet& v) { std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf()); v.Print(); std::cout.rdbuf(old); return ss.str(); };
        std::string want = " does not contain keys!\n (" + std::to_string(n) + " records)\n";
        auto keyless = [&](const char* when, uint64_t tags)
        {
            PBT_CHECK(tags, c.Size() == n && c.GetKeys().empty() && c.GetUniqueKeys().empty(), "%s: the vault has %zu records of %zu, and keys", when, c.Size(), n);
            std::string text = print(c);
            PBT_CHECK(tags, text == "Vault" + want, "%s: Print gives %s", when, Show(text).c_str());
            auto rows = c.ToStrings();
            PBT_CHECK(tags, rows.size() == n, "%s: ToStrings gives %zu rows", when, rows.size());
            for (auto& r : rows) PBT_CHECK(tags, r.empty(), "%s: a row of ToStrings has fields", when);
            if (withSet)
            {
                PBT_CHECK(tags, set.Size() == n && set.GetKeys().empty(), "%s: the set has %zu records", when, set.Size());
                text = printSet(set);
                PBT_CHECK(tags, text == "VaultRecordSet" + want, "%s: Print of a set gives %s", when, Show(text).c_str());
            }
        };
        keyless("without keys", T);
        if (n > 0)
        {
            Res r = c.AddUniqueKey<int>("U");
            PBT_CHECK(T | P(8), !r.IsOperationSuccess && r.ResultCode == Code::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, "AddUniqueKey without a function: code %d", static_cast<int>(r.ResultCode));
            keyless("after a refused unique key", T | P(8));
        }
        if (n > 1)
        {
            Res r = c.AddUniqueKey<std::string>("U", [](std::size_t i, const Ref&) { return std::string(i < 1 ? "a" : "b"); });
            PBT_CHECK(T | P(8), r.IsOperationSuccess == (n <= 2), "AddUniqueKey with a function: code %d", static_cast<int>(r.ResultCode));
            if (n <= 2) PBT_CHECK(T, c.RemoveKey("U"), "the new key could not be removed");
            keyless("after a refused unique key", T | P(8));
            Mark("unique-key-refused-without-keys");
        }
        // new keys
        PBT_CHECK(T, c.AddKey("N", 5), "AddKey failed");
        Res r = c.AddUniqueKey<int>("U", [](std::size_t i, const Ref&) { return static_cast<int>(i) * 2; });
        PBT_CHECK(T | P(7), r.IsOperationSuccess, "AddUniqueKey with a function: code %d", static_cast<int>(r.ResultCode));
        for (int round = 0; round < (withSet ? 2 : 1); ++round)
        {
            std::vector<Ref> sorted = round ? set.GetSortedRecords("U") : c.GetSortedRecords("U");
            PBT_CHECK(T, sorted.size() == n, "the new key sorts %zu of %zu records", sorted.size(), n);
            for (std::size_t i = 0; i < n; ++i)
            {
                int a = -1, b = -1;
                sorted[i].GetData("U", a);
                sorted[i].GetData("N", b);
                PBT_CHECK(T, a == static_cast<int>(i) * 2 && b == 5, "record %zu has the new keys %d and %d", i, a, b);
            }
        }
        r = c.CreateRecord(one, {{"U", 1}});
        PBT_CHECK(T | P(7), r.IsOperationSuccess && c.Size() == n + 1, "CreateRecord with new keys: code %d", static_cast<int>(r.ResultCode));
        if (n) PBT_CHECK(T | P(7), !c.CreateRecord({{"U", 0}}).IsOperationSuccess && c.Size() == n + 1, "a taken value of a new unique key was accepted");
        if (s.flip()) { c.DropVault(); PBT_CHECK(T | P(11), c.Size() == 0 && !one.IsValid() && !set.GetIsParentVaultValid() && !c.IsKeyExist("N") && print(c) == "Vault does not contain keys!\n (0 records)\n", "a dropped vault has keys or records"); }
        return true;
    }

    // Values that are equal and yet different: 0.0 and -0.0 are one value for every index, but each write must be shown.
    bool opShades()
    {
        uint64_t T = P(1) | P(12) | P(2);
        Log("a table of zeros with signs");
        Vault v;
        auto text = [](bool neg) { return std::string(neg ? "-0" : "0"); };
        bool def = s.flip();
        PBT_CHECK(T, v.AddKey("Z", def ? -0.0 : 0.0), "AddKey failed");
        std::vector<Ref> refs;
        std::vector<bool> neg;
        VaultRecordSet set;
        bool withSet = s.flip();
        if (withSet) v.RequestEqual("Z", 0.0, set);
        for (unsigned k = 0; s.more(k, 12, 5); ++k)
        {
            bool n = s.flip();
            std::size_t i = refs.empty() ? 0 : s.draw(refs.size());
            switch (refs.empty() ? s.draw(2) : s.draw(5))
            {
            case 0: refs.emplace_back(); neg.push_back(n); v.CreateRecord(refs.back(), {{"Z", n ? -0.0 : 0.0}}); Log("  create %s", text(n).c_str()); break;
            case 1: refs.emplace_back(); neg.push_back(def); v.CreateRecord(refs.back(), {}); Log("  create a default"); break;
            case 2: Log("  record %zu = %s, by list", i, text(n).c_str()); PBT_CHECK(T, refs[i].SetData({{"Z", n ? -0.0 : 0.0}}).IsOperationSuccess, "SetData failed"); neg[i] = n; break;
            case 3: Log("  record %zu = %s", i, text(n).c_str()); PBT_CHECK(T, refs[i].SetData("Z", n ? -0.0 : 0.0).IsOperationSuccess, "SetData failed"); neg[i] = n; break;
            default: Log("  default = %s", text(n).c_str()); PBT_CHECK(T, v.UpdateKey("Z", n ? -0.0 : 0.0).IsOperationSuccess, "UpdateKey failed"); def = n;
            }
            if (withSet && !refs.empty()) set.AddRecord(refs.back());
            for (std::size_t j = 0; j < refs.size(); ++j)
            {
                double d = 1;
                std::string str;
                PBT_CHECK(T, refs[j].GetData("Z", d).IsOperationSuccess && d == 0.0 && std::signbit(d) == neg[j] && refs[j].GetDataAsString("Z", str).IsOperationSuccess && str.substr(0, 2) == text(neg[j]) + (neg[j] ? "" : str.substr(1, 1)), "record %zu shows '%s' although %s was written last", j, str.c_str(), text(neg[j]).c_str());
            }
            VaultRecordSet all;
            v.RequestEqual("Z", s.flip() ? 0.0 : -0.0, all);
            PBT_CHECK(T, all.Size() == refs.size() && v.GetSortedRecords("Z").size() == refs.size(), "%zu of %zu zeros are found", all.Size(), refs.size());
            if (withSet) PBT_CHECK(T, set.Size() <= refs.size() && set.GetSortedRecords("Z").size() == set.Size(), "a set of %zu zeros sorts %zu", set.Size(), set.GetSortedRecords("Z").size());
        }
        Mark("equal-yet-different");
        return true;
    }

    // ---------------------------------------------------------------- driver
    struct Op { const char* name; unsigned w; uint64_t tags; bool (World::*fn)(); };

    void run()
    {
        static const Op ops[] = {
            {"create", 22, P(1) | P(9) | P(2), &World::opCreate},
            {"bulk", 3, P(1) | P(9) | P(2) | P(3) | P(4) | P(5) | P(6) | P(15) | P(14) | P(18), &World::opBulkCreate},
            {"readfile", 2, P(1) | P(7) | P(9), &World::opReadFile},
            {"scatter", 2, P(14) | P(15) | P(16) | P(17), &World::opScatter},
            {"setdata", 12, P(1) | P(2) | P(7) | P(12) | P(14), &World::opSetData},
            {"setdatavec", 4, P(1) | P(12) | P(8), &World::opSetDataVec},
            {"grab", 6, P(12), &World::opGrabRef},
            {"addkey", 7, P(10), &World::opAddKey},
            {"adduniquefn", 2, P(7) | P(10), &World::opAddUniqueFn},
            {"updatekey", 3, P(10) | P(9) | P(18), &World::opUpdateKey},
            {"removekey", 2, P(10), &World::opRemoveKey},
            {"erase", 6, P(11) | P(2) | P(13) | P(14), &World::opErase},
            {"drop", 1, P(11) | P(13) | P(14), &World::opDrop},
            {"query", 3, P(2) | P(4), &World::opQuery},
            {"sort", 3, P(6), &World::opSort},
            {"request", 7, P(3) | P(4) | P(14), &World::opRequest},
            {"complex", 4, P(5), &World::opComplex},
            {"setlife", 5, P(16) | P(14), &World::opSetLife},
            {"setadd", 4, P(16) | P(17), &World::opSetAdd},
            {"setremove", 4, P(16) | P(17), &World::opSetRemove},
            {"algebra", 5, P(15) | P(17), &World::opSetAlgebra},
            {"ref", 5, P(12), &World::opRefLife},
            {"deadref", 2, P(13), &World::opDeadRef},
            {"misread", 2, P(8) | P(12), &World::opMisread},
            {"nullset", 1, P(13), &World::opNullSet},
            {"keyless", 1, P(10) | P(8) | P(18), &World::opKeyless},
            {"shades", 1, P(1) | P(12) | P(2), &World::opShades},
            {"newvault", 3, 0, &World::opNewVault},
            {"vcopy", 1, P(18), &World::opVaultCopy},
            {"vmove", 1, P(19), &World::opVaultMove},
            {"vdestroy", 1, P(13), &World::opVaultDestroy},
        };
        std::vector<unsigned> w;
        for (auto& op : ops) w.push_back(oneVault && (op.fn == &World::opNewVault || op.fn == &World::opVaultCopy || op.fn == &World::opVaultMove || op.fn == &World::opVaultDestroy) ? 0u : op.w * ((op.tags & o.focus) ? (op.w <= 2 ? 8u : 4u) : 1u));
        maxRecs = s.chance(1, 8) ? 30 : 8;
        skew = static_cast<unsigned>(2 + s.draw(3));
        for (auto& x : S) if (!x.real) x.real.reset(new VaultRecordSet());
        if (V[0].alive()) setupId(0); else opNewVault();
        for (int k = 0; k < 2; ++k) addKey(0, false);
        unsigned most = o.maxOps;
        if (!oneVault && s.chance(1, 250)) { crowd(); most = 12; }
        if (s.chance(2, 3))
        {
            for (std::uint64_t k = s.draw(3); k > 0; --k) opBulkCreate();
            if (s.flip()) opScatter();
            for (int k = 0; k < 2; ++k) if (s.flip()) opGrabRef();
            checkAll(P(1) | P(9), true);
        }
        while (s.more(opNo, std::min<unsigned>(most, o.maxOps), o.avgOps))
        {
            std::size_t k = s.weighted(w);
            const Op& op = ops[k];              // (indexing inside the member-pointer call trips gcc's UBSan)
            const auto fn = op.fn;
            uint64_t tags = op.tags;
            pbt::SetOpTags(tags | P(33));
            opTags = tags;
            bool done = (this->*fn)();
            ++opNo;
            // The tags of the operation are the properties a wrong state afterwards would break.
            if (done) checkAll(opTags & ~(P(3) | P(4) | P(5) | P(6)), opNo % 3 == 0 || (opTags & o.focus));
            s.end();
        }
        checkAll(opTags & ~(P(3) | P(4) | P(5) | P(6)), true);
    }
    // Brings the first vault back to where it began, without destroying it.
    void empty()
    {
        pbt::SetOpTags(P(38) | P(33));
        auto& m = V[0];
        escaped.clear();
        for (int k = 0; k < NR; ++k) { if (s.flip()) R[k].real.Reset(); else R[k].real = Ref(); R[k].st = RefM::Empty; }
        auto sets = [&]
        {
            for (int k = 0; k < NS; ++k)
            {
                switch (s.draw(3)) { case 0: S[k].real->Reset(); break; case 1: *S[k].real = VaultRecordSet(); break; default: S[k].real.reset(new VaultRecordSet()); }
                S[k].parent = -1; S[k].ids.clear();
            }
        };
        bool setsFirst = s.flip();
        if (setsFirst) sets();
        std::uint64_t how = s.draw(4);
        if (m.cols.empty() && how != 0) how = 1;
        if (!m.hasId() && how == 2) how = 1;
        Log("everything is removed again (%d)", static_cast<int>(how));
        switch (how)
        {
        case 0: m.real->DropVault(); m.cols.clear(); break;
        case 1: m.real->DropData(); break;
        case 2: for (auto& r : m.recs) m.real->EraseRecord("id", r.first); break;
        default:
        {
            std::vector<Ref> all = m.real->GetSortedRecords(m.cols[0].name);
            for (auto& r : all) m.real->EraseRecord(r);
        }
        }
        if (!m.recs.empty()) Mark("long-used");
        m.recs.clear();
        if (!setsFirst && s.flip()) { sets(); setsFirst = true; }
        while (!m.cols.empty())
        {
            std::size_t k = s.draw(m.cols.size());
            m.real->RemoveKey(m.cols[k].name);
            m.cols.erase(m.cols.begin() + static_cast<long>(k));
        }
        if (!setsFirst) sets();
        PBT_CHECK(P(38) | P(10) | P(11), m.real->Size() == 0 && m.real->GetKeys().empty() && m.real->GetUniqueKeys().empty(), "an emptied vault has keys or records");
        nextId = 1; opNo = 0;
    }
    void teardown()
    {
        // Tear down in an order of the case's choosing.
        pbt::SetOpTags(P(13) | P(33));
        switch (s.draw(3))
        {
        case 0: for (auto& v : V) v.real.reset(); for (auto& r : R) { PBT_CHECK(P(13), !r.real.IsValid(), "a reference outlived every vault and is valid"); r.real.Reset(); } break;
        case 1: for (auto& x : S) x.real.reset(); for (auto& v : V) v.real.reset(); break;
        default: for (auto& r : R) r.real.Reset(); for (auto& v : V) v.real.reset(); for (auto& x : S) PBT_CHECK(P(13), !x.real->GetIsParentVaultValid() && x.real->Size() == 0, "a set outlived its vault and is attached");
        }
    }
    uint64_t opTags = 0;
    bool oneVault = false;
};
}

void RunMachine(pbt::Src& s, const Options& o)
{
    World w(s, o);
    w.run();
    w.teardown();
}

void RunLong(pbt::Src& s, const Options& o, const std::function<void()>& cycleDone)
{
    {
        World w(s, o);
        w.oneVault = true;
        w.run();
        w.empty();
    }
    const std::vector<uint64_t> choices = s.used;
    pbt::Src r;
    World w(r, o);
    w.oneVault = true;
    pbt::Src* keep = pbt::Cur;
    for (int k = 0; k < 5; ++k)
    {
        r = pbt::Src();
        r.mode = pbt::Src::Replay;
        r.choices = choices;
        pbt::Cur = &r;
        w.run();
        w.empty();
        pbt::Cur = keep;
        cycleDone();
    }
}
