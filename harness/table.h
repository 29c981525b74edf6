// Generated typed tables, the vaults that hold them and the comparison of a vault with its table.
#pragma once
#include "io_types.h"
#include <algorithm>
#include <set>

using Records = std::vector<std::vector<std::string>>;

inline std::string ShowRow(const std::vector<std::string>& r)
{
    std::string o = "[";
    for (auto& f : r) o += "<" + pbt::Show(f) + ">";
    return o + "]";
}
inline std::string ShowRows(const Records& r)
{
    std::string o;
    for (auto& x : r) o += ShowRow(x) + " ";
    return o;
}

struct Column
{
    std::string name;
    const IoType* t;
    bool uniq;
    std::any def;
};
using Cell = std::any;

struct Table
{
    std::vector<Column> cols;
    std::vector<std::vector<Cell>> rows;
    std::vector<std::string> textRow(std::size_t i, const std::vector<std::size_t>& which) const
    {
        std::vector<std::string> r;
        for (std::size_t c : which) r.push_back(cols[c].t->text(rows[i][c]));
        return r;
    }
};

inline void GenColumns(pbt::Src& s, Table& t, unsigned max, bool opaque, bool weirdNames)
{
    std::size_t n = max == 4 && s.chance(1, 20) ? 0 : 1 + s.draw(max);
    std::set<std::string> used;
    for (std::size_t i = 0; i < n; ++i)
    {
        Column c;
        c.name = std::string(1, static_cast<char>('A' + i));
        if (weirdNames && s.chance(1, 3)) c.name = GenText(s);
        if (!used.insert(c.name).second) continue;
        c.t = s.pick(IoTypes());
        if (!opaque && std::string(c.t->name()) == "Opaque") c.t = IoTypes()[0];
        c.uniq = s.chance(1, 4);
        c.def = c.uniq || s.flip() ? c.t->zero() : c.t->gen(s);
        t.cols.push_back(c);
        pbt::Log("column '%s' %s%s default '%s'", pbt::Show(c.name).c_str(), c.t->name(), c.uniq ? " unique" : "", pbt::Show(c.t->text(c.def)).c_str());
    }
}

inline void MakeVault(const Table& t, const std::vector<std::size_t>& order, mvlt::Vault& v)
{
    for (std::size_t i : order)
    {
        const Column& c = t.cols[i];
        bool ok = c.uniq ? c.t->addUnique(v, c.name).IsOperationSuccess : c.t->addKey(v, c.name, c.def);
        PBT_CHECK(P(10), ok, "the column '%s' could not be added", pbt::Show(c.name).c_str());
    }
}

// Adds a generated row; values of unique columns must differ as text too.  Returns false when it would clash.
inline bool GenRow(pbt::Src& s, Table& t, std::vector<Ref>* refs, mvlt::Vault& v)
{
    std::vector<Cell> row;
    for (auto& c : t.cols)
    {
        Cell val = c.t->gen(s);
        if (c.uniq)
        {
            auto canon = [&](const Cell& x) { auto p = c.t->parse(c.t->text(x)); return p ? c.t->text(*p) : c.t->text(x); };
            for (auto& r : t.rows)
            {
                const Cell& o = r[static_cast<std::size_t>(&c - &t.cols[0])];
                if (c.t->text(o) == c.t->text(val) || canon(o) == canon(val) || c.t->same(o, val)) return false;
            }
        }
        row.push_back(val);
    }
    std::vector<std::pair<std::string, mvlt::VaultParamInput>> params;
    for (std::size_t i = 0; i < row.size(); ++i) params.emplace_back(t.cols[i].name, t.cols[i].t->param(row[i]));
    Ref r;
    Res res = v.CreateRecord(r, params);
    PBT_CHECK(P(9), res.IsOperationSuccess, "the record could not be created");
    if (refs) refs->push_back(r);
    t.rows.push_back(row);
    return true;
}

// Rarely: more rows than a byte counts, copies of the ones there are.
inline void Crowd(pbt::Src& s, Table& t, std::vector<Ref>* refs, mvlt::Vault& v)
{
    if (!s.chance(1, 300) || t.rows.empty()) return;
    for (auto& c : t.cols) if (c.uniq) return;
    std::size_t n = 257 + s.draw(30), m = t.rows.size();
    for (auto& c : t.rows) for (auto& x : c) if (x.type() == typeid(std::string) && std::any_cast<const std::string&>(x).size() > 100) return;
    pbt::Log("and %zu records more", n);
    pbt::Mark("crowd");
    for (std::size_t i = 0; i < n; ++i)
    {
        std::vector<Cell> row = t.rows[i % m];
        std::vector<std::pair<std::string, mvlt::VaultParamInput>> params;
        for (std::size_t k = 0; k < row.size(); ++k) params.emplace_back(t.cols[k].name, t.cols[k].t->param(row[k]));
        Ref r;
        PBT_CHECK(P(9), v.CreateRecord(r, params).IsOperationSuccess, "the record could not be created");
        if (refs) refs->push_back(r);
        t.rows.push_back(row);
    }
}

// Changes the vault and its table alike: the same content reached by a longer history.
inline void Age(pbt::Src& s, Table& t, std::vector<Ref>& refs, mvlt::Vault& v, uint64_t tag)
{
    if (!s.chance(1, 3)) return;
    pbt::Mark("aged");
    for (unsigned n = 0; s.more(n, 6, 2); ++n)
    {
        s.begin();
        std::size_t i = t.rows.empty() ? 0 : s.draw(t.rows.size()), c = t.cols.empty() ? 0 : s.draw(t.cols.size());
        switch (s.weighted({3, 3, 2, 2, 1, 1}))
        {
        case 0:
            if (t.rows.empty() || t.cols.empty() || t.cols[c].uniq) break;
            t.rows[i][c] = t.cols[c].t->gen(s);
            pbt::Log("row %zu: '%s' = '%s'", i, pbt::Show(t.cols[c].name).c_str(), pbt::Show(t.cols[c].t->text(t.rows[i][c])).c_str());
            PBT_CHECK(tag, refs[i].SetData({{t.cols[c].name, t.cols[c].t->param(t.rows[i][c])}}).IsOperationSuccess, "the value could not be changed");
            break;
        case 1:
        {
            // a key that comes back is the last one, with its default everywhere
            if (t.cols.empty() || t.cols[c].uniq) break;
            Column col = t.cols[c];
            pbt::Log("key '%s' is removed and added again", pbt::Show(col.name).c_str());
            PBT_CHECK(tag, v.RemoveKey(col.name), "the key could not be removed");
            PBT_CHECK(tag, col.t->addKey(v, col.name, col.def), "the key could not be added again");
            t.cols.erase(t.cols.begin() + static_cast<long>(c));
            t.cols.push_back(col);
            for (auto& r : t.rows) { r.erase(r.begin() + static_cast<long>(c)); r.push_back(col.def); }
            break;
        }
        case 2:
        {
            const IoType* ty = s.pick(IoTypes());
            std::string name = "passing";
            while (std::any_of(t.cols.begin(), t.cols.end(), [&](const Column& o) { return o.name == name; })) name += '+';
            pbt::Log("a key is added and removed");
            PBT_CHECK(tag, ty->addKey(v, name, ty->gen(s)), "the key could not be added");
            PBT_CHECK(tag, v.RemoveKey(name), "the key could not be removed");
            break;
        }
        case 3:
            if (t.rows.empty()) break;
            pbt::Log("row %zu is erased", i);
            PBT_CHECK(tag, v.EraseRecord(refs[i]), "the record could not be erased");
            refs.erase(refs.begin() + static_cast<long>(i));
            t.rows.erase(t.rows.begin() + static_cast<long>(i));
            break;
        case 4:
        {
            pbt::Log("the vault is moved away and back");
            mvlt::Vault other(std::move(v));
            v = std::move(other);
            break;
        }
        default:
            if (!s.chance(1, 3)) break;
            pbt::Log("all data is dropped");
            v.DropData();
            t.rows.clear();
            refs.clear();
            break;
        }
        s.end();
    }
}

inline std::vector<std::size_t> Iota(std::size_t n)
{
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(i);
    return r;
}
inline std::vector<std::size_t> Shuffled(pbt::Src& s, std::vector<std::size_t> v)
{
    for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + s.draw(v.size() - i)]);
    return v;
}

// All records of v as (text row in column order of t), sorted; checks ToStrings against GetData on the way.
inline Records Contents(const mvlt::Vault& v, const Table& t, uint64_t tag)
{
    Records out;
    std::vector<std::string> order = v.GetKeys();
    for (auto& rec : v.ToStrings())
    {
        std::vector<std::string> row(t.cols.size());
        PBT_CHECK(tag, rec.size() == order.size(), "a row has %zu values for %zu keys", rec.size(), order.size());
        for (auto& kv : rec)
            for (std::size_t i = 0; i < t.cols.size(); ++i)
                if (t.cols[i].name == kv.first) row[i] = kv.second;
        out.push_back(row);
    }
    std::sort(out.begin(), out.end());
    return out;
}

// The vault's rows must be exactly `want` (typed), also through references and index lookups.
inline void CheckVault(const mvlt::Vault& v, const Table& t, const std::vector<std::vector<Cell>>& want, uint64_t tag)
{
    Records texts;
    for (auto& r : want)
    {
        std::vector<std::string> x;
        for (std::size_t c = 0; c < t.cols.size(); ++c) x.push_back(t.cols[c].t->text(r[c]));
        texts.push_back(x);
    }
    std::sort(texts.begin(), texts.end());
    Records got = Contents(v, t, tag);
    PBT_CHECK(tag, got == texts, "the vault holds\n  %s\nexpected\n  %s", ShowRows(got).c_str(), ShowRows(texts).c_str());
    PBT_CHECK(tag, v.Size() == want.size(), "Size() is %zu, expected %zu", v.Size(), want.size());
    for (std::size_t c = 0; c < t.cols.size(); ++c)
    {
        const Column& col = t.cols[c];
        // typed multiset through the sorted view
        std::vector<Cell> vals, exp;
        for (auto& r : v.GetSortedRecords(col.name))
        {
            auto x = col.t->get(r, col.name);
            PBT_CHECK(tag, x.has_value(), "key '%s' cannot be read from a record", pbt::Show(col.name).c_str());
            vals.push_back(*x);
        }
        for (auto& r : want) exp.push_back(r[c]);
        auto lt = [&](const Cell& a, const Cell& b) { return col.t->less(a, b); };
        std::sort(exp.begin(), exp.end(), lt);
        PBT_CHECK(tag, vals.size() == exp.size(), "sorting by '%s' visits %zu of %zu records", pbt::Show(col.name).c_str(), vals.size(), exp.size());
        for (std::size_t i = 0; i < exp.size(); ++i)
            PBT_CHECK(tag, col.t->same(vals[i], exp[i]), "key '%s' holds '%s', expected '%s'", pbt::Show(col.name).c_str(),
                pbt::Show(col.t->text(vals[i])).c_str(), pbt::Show(col.t->text(exp[i])).c_str());
        for (auto& e : exp)
        {
            std::size_t n = 0;
            for (auto& f : exp) if (col.t->same(e, f)) ++n;
            PBT_CHECK(tag, col.t->lookup(v, col.name, e) == n, "looking up '%s' = '%s' finds %zu records, expected %zu", pbt::Show(col.name).c_str(),
                pbt::Show(col.t->text(e)).c_str(), col.t->lookup(v, col.name, e), n);
        }
    }
}
