#pragma once
#include "types.h"
#include <deque>

template <class R> struct Tag { using type = R; };

template <class T>
class TypeOpsImpl : public TypeOps
{
    const char* Name;
    std::deque<T> Pool;      // not a vector: vector<bool> has no references
    std::vector<std::string> Strs;
    int Zero;
    bool Quoted, Csv;

    int idx(const T& v) const
    {
        for (std::size_t i = 0; i < Pool.size(); ++i) if (Pool[i] == v) return static_cast<int>(i);
        return -2;
    }
    template <class F> Res on(SV sv, F&& f) const { return sv.v ? f(*sv.v) : f(*sv.s); }

public:
    TypeOpsImpl(const char* n, std::deque<T> pool, std::vector<std::string> strs, int zero, bool quoted, bool csv)
        : Name(n), Pool(std::move(pool)), Strs(std::move(strs)), Zero(zero), Quoted(quoted), Csv(csv)
    {
        if (Pool.size() != Strs.size() || !(Pool[static_cast<std::size_t>(Zero)] == T{})) abort();
        for (std::size_t i = 1; i < Pool.size(); ++i) if (!(Pool[i - 1] < Pool[i])) abort();
    }
    const T& at(int i) const { return Pool[static_cast<std::size_t>(i)]; }
    const char* name() const override { return Name; }
    int count() const override { return static_cast<int>(Pool.size()); }
    int zero() const override { return Zero; }
    std::type_index type() const override { return typeid(T); }
    std::string str(int i) const override { return Strs[static_cast<std::size_t>(i)]; }
    bool quoted() const override { return Quoted; }
    bool csv() const override { return Csv; }
    bool addKey(mvlt::Vault& v, const std::string& key, int i) const override { return v.AddKey(key, at(i)); }
    Res addUnique(mvlt::Vault& v, const std::string& key) const override { return v.AddUniqueKey<T>(key); }
    Res addUniqueFn(mvlt::Vault& v, const std::string& key, const std::function<int(std::size_t, const Ref&)>& f) const override
    {
        std::function<T(const std::size_t&, const Ref&)> g = [&](const std::size_t& c, const Ref& r) -> T { return at(f(c, r)); };
        return v.AddUniqueKey<T>(key, g);
    }
    Res updateKey(mvlt::Vault& v, const std::string& key, int i) const override { return v.UpdateKey(key, at(i)); }
    Res getKeyValue(SV sv, const std::string& key, int& out) const override
    {
        // Two probes with different initial contents tell "unchanged" from "set to the initial content".
        T a = at(0), b = at(count() - 1);
        Res r = on(sv, [&](auto& x) { return x.GetKeyValue(key, a); });
        on(sv, [&](auto& x) { return x.GetKeyValue(key, b); });
        out = a == b ? idx(a) : (a == at(0) && b == at(count() - 1)) ? -1 : -3;
        return r;
    }
    Res getRecord(SV sv, const std::string& key, int i, Ref& ref) const override
    {
        return on(sv, [&](auto& x) { return x.GetRecord(key, at(i), ref); });
    }
    Res getRecords(SV sv, const std::string& key, int i, std::vector<Ref>& refs, std::size_t amount, bool useDefault) const override
    {
        if (useDefault) return on(sv, [&](auto& x) { return x.GetRecords(key, at(i), refs); });
        return on(sv, [&](auto& x) { return x.GetRecords(key, at(i), refs, amount); });
    }
    Res request(SV sv, Kind k, const std::string& key, int i, int j, bool ib, bool ie, std::size_t amount, const Pred* pred, bool useDefault, mvlt::VaultRecordSet& out) const override
    {
        return on(sv, [&](auto& x) -> Res
        {
            switch (k)
            {
            case Kind::Equal:
                return useDefault ? x.RequestEqual(key, at(i), out) : pred ? x.RequestEqual(key, at(i), out, amount, *pred) : x.RequestEqual(key, at(i), out, amount);
            case Kind::Less:
                return useDefault ? x.RequestLess(key, at(i), out) : pred ? x.RequestLess(key, at(i), out, amount, *pred) : x.RequestLess(key, at(i), out, amount);
            case Kind::LessOrEqual:
                return useDefault ? x.RequestLessOrEqual(key, at(i), out) : pred ? x.RequestLessOrEqual(key, at(i), out, amount, *pred) : x.RequestLessOrEqual(key, at(i), out, amount);
            case Kind::Greater:
                return useDefault ? x.RequestGreater(key, at(i), out) : pred ? x.RequestGreater(key, at(i), out, amount, *pred) : x.RequestGreater(key, at(i), out, amount);
            case Kind::GreaterOrEqual:
                return useDefault ? x.RequestGreaterOrEqual(key, at(i), out) : pred ? x.RequestGreaterOrEqual(key, at(i), out, amount, *pred) : x.RequestGreaterOrEqual(key, at(i), out, amount);
            case Kind::Interval:
                if (useDefault) return (ib && ie) ? x.RequestInterval(key, at(i), at(j), out) : x.RequestInterval(key, at(i), at(j), out, ib, ie);
                return pred ? x.RequestInterval(key, at(i), at(j), out, ib, ie, amount, *pred) : x.RequestInterval(key, at(i), at(j), out, ib, ie, amount);
            }
            abort();
        });
    }
    Res erase(SV sv, const std::string& key, int i) const override
    {
        return sv.v ? sv.v->EraseRecord(key, at(i)) : sv.s->RemoveRecord(key, at(i));
    }
    Res eraseMany(SV sv, const std::string& key, int i, std::size_t amount, bool useDefault) const override
    {
        if (useDefault) return sv.v ? sv.v->EraseRecords(key, at(i)) : sv.s->RemoveRecords(key, at(i));
        return sv.v ? sv.v->EraseRecords(key, at(i), amount) : sv.s->RemoveRecords(key, at(i), amount);
    }
    Res setData(Ref& r, const std::string& key, int i) const override { return r.SetData(key, at(i)); }
    Res getData(const Ref& r, const std::string& key, int& out) const override
    {
        T a = at(0), b = at(count() - 1);
        Res x = r.GetData(key, a);
        r.GetData(key, b);
        out = a == b ? idx(a) : (a == at(0) && b == at(count() - 1)) ? -1 : -3;
        return x;
    }
    mvlt::VaultParamInput param(int i) const override 
    {
        // a parameter holds the value, wherever the value came from has gone
        std::unique_ptr<T> x(new T(at(i)));
        return mvlt::VaultParamInput(*x);
    }
    std::unique_ptr<AnyRequest> leaf(Kind k, const std::string& key, int i, const Pred* pred) const override
    {
        auto make = [&](auto tag) -> std::unique_ptr<AnyRequest>
        {
            using R = typename decltype(tag)::type;
            // the request holds what it was given, which is gone when it runs
            std::unique_ptr<T> x(new T(at(i)));
            std::unique_ptr<std::string> k(new std::string(key));
            std::unique_ptr<Pred> p(pred ? new Pred(*pred) : nullptr);
            if (p) return std::make_unique<AnyRequest>(std::in_place_type<R>, *k, *x, *p);
            return std::make_unique<AnyRequest>(std::in_place_type<R>, *k, *x);
        };
        switch (k)
        {
        case Kind::Less: return make(Tag<mvlt::Less>{});
        case Kind::LessOrEqual: return make(Tag<mvlt::LessOrEqual>{});
        case Kind::Greater: return make(Tag<mvlt::Greater>{});
        case Kind::GreaterOrEqual: return make(Tag<mvlt::GreaterOrEqual>{});
        default: return make(Tag<mvlt::Equal>{});
        }
    }
};
