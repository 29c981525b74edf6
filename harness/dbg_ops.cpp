// Compiled twice: with NDEBUG as DBG_RUN=DbgReleaseRun, and without it as DBG_RUN=DbgDebugRun with the library's
// namespace renamed, so both are in one program.
#include "dbg_ops.h"
#include "MVault.h"
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <memory>

using namespace mvlt;

#define State DBG_STATE(DBG_RUN)
#define DBG_STATE(x) DBG_STATE2(x)
#define DBG_STATE2(x) x##State
struct State
{
    std::unique_ptr<Vault> v{ new Vault };
    VaultRecordSet set[2];
    VaultRecordRef ref[2];
    int next = 0;
    std::string file;
};

namespace
{
    const char* const Keys[6] = { "A", "S", "D", "U", "B", "none" };


    std::string Rows(std::vector<std::vector<std::pair<std::string, std::string>>> rows)
    {
        std::vector<std::string> l;
        for (auto& r : rows)
        {
            std::string x = "(";
            for (auto& f : r) x += f.first + "=" + f.second + ",";
            l.push_back(x + ")");
        }
        std::sort(l.begin(), l.end());
        std::string out;
        for (auto& x : l) out += x;
        return out;
    }
    std::string Lines(const std::string& text)
    {
        std::vector<std::string> l;
        std::istringstream s(text);
        std::string x;
        while (std::getline(s, x)) l.push_back(x);
        std::sort(l.begin(), l.end());
        std::string out;
        for (auto& y : l) out += y + "\n";
        return out;
    }
    std::string U(const VaultRecordRef& r)
    {
        int u = -1;
        if (r.IsValid()) r.GetData("U", u);
        return std::to_string(u);
    }
    std::string Refs(const std::vector<VaultRecordRef>& refs)
    {
        std::vector<std::string> l;
        for (auto& r : refs) l.push_back(U(r));
        std::sort(l.begin(), l.end());
        std::string out = "[";
        for (auto& x : l) out += x + " ";
        return out + "]";
    }

    // calls with one of three types; the line is the macro's
#define AT(name) do { out.fn = name; out.line = __LINE__; } while (0)
#define TYPED(name, obj, call) AT(name); switch (o.c % 3) { case 0: { const int V = o.b; (void)V; r = obj call; break; } case 1: { const std::string V = std::to_string(o.b); (void)V; r = obj call; break; } default: { const double V = o.b; (void)V; r = obj call; break; } }

#define STEP(...) void LocalStep(__VA_ARGS__)
#include "dbg_step.h"
#undef STEP
}
#define DBG_JOIN2(a, b) a##b
#define DBG_JOIN(a, b) DBG_JOIN2(a, b)
#define ExportedStep DBG_JOIN(DBG_RUN, Step)
void ExportedStep(State& st, const DbgOp& o, DbgOut& out);
#define STEP(...) void ExportedStep(__VA_ARGS__)
#include "dbg_step.h"

std::vector<DbgOut> DBG_RUN(const std::vector<DbgOp>& ops, std::string (*take)(), const std::string& file)
{
    std::vector<DbgOut> res;
    State st;
    st.file = file;
    st.v->AddKey("A", 1);
    st.v->AddKey("S", std::string("s"));
    st.v->AddKey("D", 0.5);
    st.v->AddUniqueKey<int>("U");
    for (int i = 0; i < 3; ++i) st.v->CreateRecord(st.ref[i % 2], { {"U", st.next++}, {"A", i} });
    st.v->RequestGreaterOrEqual("U", 1, st.set[0]);
    take();
    for (const DbgOp& o : ops)
    {
        res.emplace_back();
        if (o.exported) ExportedStep(st, o, res.back());
        else LocalStep(st, o, res.back());
        res.back().printed = take();
    }
    // the final state
    res.emplace_back();
    DbgOut& e = res.back();
    for (auto& k : st.v->GetKeys()) e.text += k + ",";
    e.text += Rows(st.v->ToStrings()) + Rows(st.set[0].ToStrings()) + Rows(st.set[1].ToStrings()) + U(st.ref[0]) + U(st.ref[1]);
    e.printed = take();
    return res;
}

#ifndef NDEBUG
void DbgDebugFormat(bool reports) { SetBackTraceFormat(reports ? BackTraceFormat::Compact : BackTraceFormat::None); }
void DbgDebugNoise(std::atomic<bool>& stop)
{
    Vault v;
    v.AddKey("A", 0);
    VaultRecordSet set;
    while (!stop)
    {
        VaultRecordRef r;
        v.CreateRecord(r, { {"A", 1} });
        v.RequestEqual("A", 1, set);
        r.SetData("A", 2);
        v.ToStrings();
        v.EraseRecord(r);
    }
}
#else
const char* const DbgKindName[DbgKinds] =
{
    "CreateRecord(ref)", "CreateRecord", "SetData", "GetData", "SetData(list)", "AddKey", "UpdateKey", "GetKeyValue", "RemoveKey", "GetRecord", "GetRecords", "RequestEqual", "RequestGreater", "RequestLessOrEqual",
    "RequestInterval", "RequestGreaterOrEqual", "RequestLess", "Request(Equal||Greater)", "Request(GreaterOrEqual&&Less)", "EraseRecord", "EraseRecords", "GetSortedRecords", "SortBy", "set algebra", "RemoveRecord(s) of a set",
    "print", "ToStrings/ToJson", "SaveToFile", "ReadFile", "RequestGreaterOrEqual with a wrong read in the callback", "copy", "drop/clear/reset"
};
#endif
