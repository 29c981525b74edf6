#include "reqtree.h"

std::unique_ptr<AnyRequest> CombineRequests(const AnyRequest& a, const AnyRequest& b, bool isAnd, bool viaOperator)
{
    return std::visit([&](const auto& x, const auto& y) -> std::unique_ptr<AnyRequest>
    {
        if (viaOperator)
        {
            if (isAnd) return std::unique_ptr<AnyRequest>(new AnyRequest(x && y));
            return std::unique_ptr<AnyRequest>(new AnyRequest(x || y));
        }
        if (isAnd) return std::unique_ptr<AnyRequest>(new AnyRequest(std::in_place_type<mvlt::And>, x, y));
        return std::unique_ptr<AnyRequest>(new AnyRequest(std::in_place_type<mvlt::Or>, x, y));
    }, a, b);
}

Res RunRequest(SV sv, const AnyRequest& r, mvlt::VaultRecordSet& out)
{
    return std::visit([&](const auto& x) { return sv.v ? sv.v->Request(x, out) : sv.s->Request(x, out); }, r);
}

std::unique_ptr<AnyRequest> CopyRequest(const AnyRequest& r, int how)
{
    if (how == 0) return std::make_unique<AnyRequest>(r);                  // copy construction
    return std::visit([&](const auto& x) -> std::unique_ptr<AnyRequest>    // copy construction, then moves
    {
        using R = std::decay_t<decltype(x)>;
        R y(x);
        R z(std::move(y));
        if (how == 2) y = x;                                               // moved-from objects are assignable
        auto p = std::unique_ptr<AnyRequest>(new AnyRequest(std::in_place_type<R>, z));
        if (how == 2) { R w; w = std::move(z); return std::unique_ptr<AnyRequest>(new AnyRequest(std::in_place_type<R>, w)); }
        return p;
    }, r);
}
