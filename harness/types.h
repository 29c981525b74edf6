// Type-erased access to the library's templates: one column type = one TypeOps object, one translation unit.
// A value is an index into a pool of distinct values sorted strictly ascending, so the reference model compares
// values by comparing indices.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <typeindex>
#include <variant>
#include <vector>
#include "MVault.h"

using Res = mvlt::VaultOperationResult;
using Code = mvlt::VaultOperationResultCode;
using Ref = mvlt::VaultRecordRef;
using Pred = std::function<bool(const Ref&)>;

struct SV                       // a Vault or a VaultRecordSet
{
    mvlt::Vault* v = nullptr;
    mvlt::VaultRecordSet* s = nullptr;
};

enum class Kind { Equal, Less, LessOrEqual, Greater, GreaterOrEqual, Interval };

// A request object of any of the seven request types.
using AnyRequest = std::variant<mvlt::Less, mvlt::LessOrEqual, mvlt::Equal, mvlt::GreaterOrEqual, mvlt::Greater, mvlt::And, mvlt::Or>;

class TypeOps
{
public:
    virtual ~TypeOps() = default;
    virtual const char* name() const = 0;
    virtual int count() const = 0;                     // pool size
    virtual int zero() const = 0;                      // index of T{}
    virtual std::type_index type() const = 0;
    virtual std::string str(int i) const = 0;          // expected ToString
    virtual bool quoted() const = 0;                   // is a JSON string
    virtual bool csv() const = 0;                      // FromString(ToString(x)) == x for every pool value
    virtual bool addKey(mvlt::Vault& v, const std::string& key, int i) const = 0;
    virtual Res addUnique(mvlt::Vault& v, const std::string& key) const = 0;
    virtual Res addUniqueFn(mvlt::Vault& v, const std::string& key, const std::function<int(std::size_t, const Ref&)>& f) const = 0;
    virtual Res updateKey(mvlt::Vault& v, const std::string& key, int i) const = 0;
    virtual Res getKeyValue(SV sv, const std::string& key, int& out) const = 0;   // -1: left unchanged
    virtual Res getRecord(SV sv, const std::string& key, int i, Ref& ref) const = 0;
    virtual Res getRecords(SV sv, const std::string& key, int i, std::vector<Ref>& refs, std::size_t amount, bool useDefault) const = 0;
    virtual Res request(SV sv, Kind k, const std::string& key, int i, int j, bool ib, bool ie, std::size_t amount, const Pred* pred, bool useDefault, mvlt::VaultRecordSet& out) const = 0;
    virtual Res erase(SV sv, const std::string& key, int i) const = 0;
    virtual Res eraseMany(SV sv, const std::string& key, int i, std::size_t amount, bool useDefault) const = 0;
    virtual Res setData(Ref& r, const std::string& key, int i) const = 0;
    virtual Res getData(const Ref& r, const std::string& key, int& out) const = 0;
    virtual mvlt::VaultParamInput param(int i) const = 0;
    virtual std::unique_ptr<AnyRequest> leaf(Kind k, const std::string& key, int i, const Pred* pred) const = 0;
};

const TypeOps& OpsInt();
const TypeOps& OpsString();
const TypeOps& OpsDouble();
const TypeOps& OpsBool();
const TypeOps& OpsTracked();
const TypeOps& OpsU16();

// Instance-counted value type (ownership balance).
struct Tracked
{
    static long long live;
    int v = 0;
    int* heap;                                       // makes a wrong copy or a double delete visible to ASan
    Tracked() : heap(new int(0)) { ++live; }
    explicit Tracked(int x) : v(x), heap(new int(x)) { ++live; }
    Tracked(const Tracked& o) : v(o.v), heap(new int(*o.heap)) { ++live; }
    Tracked& operator=(const Tracked& o) { v = o.v; *heap = *o.heap; return *this; }
    ~Tracked() { delete heap; --live; }
    bool operator==(const Tracked& o) const { return *heap == *o.heap; }
    bool operator<(const Tracked& o) const { return *heap < *o.heap; }
};
namespace std { template <> struct hash<Tracked> { size_t operator()(const Tracked& t) const noexcept { return static_cast<size_t>(t.v) % 3; } }; }
namespace mvlt
{
    template <> inline std::string ToString(const Tracked& t) noexcept { return "T" + std::to_string(*t.heap); }
    template <> inline bool FromString(const std::string& s, Tracked& t) noexcept
    {
        if (s.size() < 2 || s[0] != 'T') return false;
        *t.heap = t.v = atoi(s.c_str() + 1);
        return true;
    }
}
