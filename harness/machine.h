// Model-based state machine over Vault / VaultRecordSet / VaultRecordRef.
#pragma once
#include <array>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include "../engine/pbt.h"
#include "props.h"
#include "types.h"
#include "reqtree.h"

using Id = std::int64_t;

struct Col
{
    std::string name;
    const TypeOps* ops = nullptr;      // nullptr: the "id" column (std::int64_t)
    bool uniq = false;
    int def = 0;
    std::type_index type() const { return ops ? ops->type() : std::type_index(typeid(Id)); }
};

using Row = std::map<std::string, int>;     // column name -> pool index (not for "id")

struct VaultM
{
    std::unique_ptr<mvlt::Vault> real;
    std::vector<Col> cols;                  // in key order
    std::map<Id, Row> recs;
    bool alive() const { return real != nullptr; }
    const Col* col(const std::string& n) const { for (auto& c : cols) if (c.name == n) return &c; return nullptr; }
    bool hasId() const { return col("id") != nullptr; }
    bool uniqueTaken(const std::string& key, int val, Id except) const
    {
        for (auto& r : recs) if (r.first != except && r.second.at(key) == val) return true;
        return false;
    }
};

struct SetM
{
    std::unique_ptr<mvlt::VaultRecordSet> real;
    int parent = -1;
    std::set<Id> ids;
};

struct RefM
{
    enum St { Empty, Live, Dead } st = Empty;
    Ref real;
    int vault = -1;
    Id id = 0;
};

struct Options
{
    uint64_t focus = 0;       // property bits whose operations are drawn more often
    unsigned maxOps = 60;
    unsigned avgOps = 25;
};

void RunMachine(pbt::Src& s, const Options& o);

// One vault used for the same history several times, emptied in between.
void RunLong(pbt::Src& s, const Options& o, const std::function<void()>& cycleDone);
