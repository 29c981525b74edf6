// P23 conversions, P24 JSON, P30 printed tables, P31 identifiers, P34 big files, P35 I/O failures.
#include "table.h"
#include "CsvParser/CsvParser.h"
#include <csignal>
#include <deque>
#include <iostream>
#include <list>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using pbt::Src;
using Handler = std::function<void(const std::vector<std::string>& keys, std::vector<std::string>& values)>;

void SaverHistory(Src& s);
void ContainerHistory(Src& s);
void MapHistory(Src& s);
void LocaleChange(Src& s);

namespace
{
    struct Capture
    {
        std::ostringstream text;
        std::streambuf* old;
        std::ostream& os;
        explicit Capture(std::ostream& o) : old(o.rdbuf(text.rdbuf())), os(o) {}
        ~Capture() { os.rdbuf(old); }
    };

    // ---------------------------------------------------------------- P23
    void Conversions(Src& s)
    {
        const uint64_t tag = P(23);
        pbt::SetOpTags(tag);
        for (unsigned n = 0; s.more(n, 12, 5); ++n)
        {
            s.begin();
            const IoType& t = *s.pick(IoTypes());
            std::any v = t.gen(s), before = t.gen(s);
            std::string text = t.text(v);
            pbt::Log("%s '%s'", t.name(), pbt::Show(text).c_str());
            PBT_CHECK(tag, t.realText(v) == text, "%s is converted to '%s', expected '%s'", t.name(), pbt::Show(t.realText(v)).c_str(), pbt::Show(text).c_str());
            std::string in;
            switch (s.weighted({4, 2, 2, 1}))
            {
            case 0: in = NumText(s); break;
            case 1: in = text; break;
            case 2: { const IoType& u = *s.pick(IoTypes()); in = u.text(u.gen(s)); break; }
            default: in = GenText(s); break;
            }
            auto want = t.parse(in);
            auto got = t.realParse(in, before);
            pbt::Log("  read '%s' into %s holding '%s': %s", pbt::Show(in).c_str(), t.name(), pbt::Show(t.text(before)).c_str(), got.first ? "true" : "false");
            PBT_CHECK(tag, got.first == want.has_value(), "reading '%s' as %s %s", pbt::Show(in).c_str(), t.name(), got.first ? "succeeds" : "fails");
            const std::any& expected = want ? *want : before;
            PBT_CHECK(tag, t.same(got.second, expected), "reading '%s' as %s gives '%s', expected '%s'", pbt::Show(in).c_str(), t.name(),
                pbt::Show(t.text(got.second)).c_str(), pbt::Show(t.text(expected)).c_str());
            pbt::Mark(want ? "accepted" : "refused");
            // the same conversions inside a vault
            if (s.chance(1, 4))
            {
                mvlt::Vault vault;
                Ref r;
                t.addKey(vault, "k", before);
                vault.CreateRecord(r, {{"k", t.param(v)}});
                std::string str = "?";
                PBT_CHECK(tag, r.GetDataAsString("k", str).IsOperationSuccess && str == text, "GetDataAsString gives '%s', expected '%s'", pbt::Show(str).c_str(), pbt::Show(text).c_str());
                auto strs = r.ToStrings();
                PBT_CHECK(tag, strs.size() == 1 && strs[0].first == "k" && strs[0].second == text, "ToStrings of the record differs from ToString of its value");
                std::string name = ScratchFile("conv");
                std::string q = "\"";
                for (char c : in) { if (c == '"') q += '"'; q += c; }
                WriteFile(name, "k\n" + q + "\"\n");
                bool ok = vault.ReadFile(name);
                unlink(name.c_str());
                PBT_CHECK(tag, ok && vault.Size() == (want ? 2u : 1u), "loading '%s' as %s %s", pbt::Show(in).c_str(), t.name(), vault.Size() == 2 ? "succeeds" : "fails");
                if (want) PBT_CHECK(tag, t.lookup(vault, "k", *want) == (t.same(*want, v) ? 2u : 1u), "the loaded value of '%s' is not found", pbt::Show(in).c_str());
            }
            s.end();
        }
    }

    // ---------------------------------------------------------------- P24
    // Strict JSON (RFC 8259) reader; numbers keep their text.
    struct Json
    {
        char kind = 0;                                     // { [ s n t f 0
        std::string text, raw;
        std::vector<std::pair<Json, Json>> members;        // name, value
        std::vector<Json> items;
    };
    struct JsonParser
    {
        const std::string& c;
        std::size_t i = 0;
        explicit JsonParser(const std::string& x) : c(x) {}
        void ws() { while (i < c.size() && (c[i] == ' ' || c[i] == '\n' || c[i] == '\t' || c[i] == '\r')) ++i; }
        bool lit(const char* w) { std::size_t n = strlen(w); if (c.compare(i, n, w)) return false; i += n; return true; }
        bool digits() { std::size_t a = i; while (i < c.size() && c[i] >= '0' && c[i] <= '9') ++i; return i > a; }
        bool str(Json& o)
        {
            std::size_t a = i;
            if (i >= c.size() || c[i] != '"') return false;
            o.kind = 's';
            for (++i; i < c.size() && c[i] != '"';)
            {
                unsigned char ch = static_cast<unsigned char>(c[i++]);
                if (ch < 0x20) return false;
                if (ch != '\\') { o.text += static_cast<char>(ch); continue; }
                if (i >= c.size()) return false;
                char e = c[i++];
                switch (e)
                {
                case '"': case '\\': case '/': o.text += e; break;
                case 'b': o.text += '\b'; break;
                case 'f': o.text += '\f'; break;
                case 'n': o.text += '\n'; break;
                case 'r': o.text += '\r'; break;
                case 't': o.text += '\t'; break;
                case 'u':
                {
                    unsigned v = 0;
                    for (int k = 0; k < 4; ++k, ++i)
                    {
                        if (i >= c.size() || !isxdigit(static_cast<unsigned char>(c[i]))) return false;
                        v = v * 16 + static_cast<unsigned>(isdigit(static_cast<unsigned char>(c[i])) ? c[i] - '0' : (c[i] | 32) - 'a' + 10);
                    }
                    if (v < 0x80) o.text += static_cast<char>(v);
                    else if (v < 0x800) { o.text += static_cast<char>(0xc0 | v >> 6); o.text += static_cast<char>(0x80 | (v & 63)); }
                    else { o.text += static_cast<char>(0xe0 | v >> 12); o.text += static_cast<char>(0x80 | (v >> 6 & 63)); o.text += static_cast<char>(0x80 | (v & 63)); }
                    break;
                }
                default: return false;
                }
            }
            if (i >= c.size()) return false;
            ++i;
            o.raw = c.substr(a, i - a);
            return true;
        }
        bool value(Json& o, int depth = 0)
        {
            ws();
            if (i >= c.size() || depth > 4) return false;
            std::size_t a = i;
            switch (c[i])
            {
            case '"': return str(o);
            case 't': o.kind = 't'; o.raw = o.text = "true"; return lit("true");
            case 'f': o.kind = 'f'; o.raw = o.text = "false"; return lit("false");
            case 'n': o.kind = '0'; o.raw = o.text = "null"; return lit("null");
            case '[':
                o.kind = '[';
                ++i; ws();
                if (i < c.size() && c[i] == ']') { ++i; return true; }
                for (;;)
                {
                    o.items.emplace_back();
                    if (!value(o.items.back(), depth + 1)) return false;
                    ws();
                    if (i < c.size() && c[i] == ',') { ++i; continue; }
                    if (i < c.size() && c[i] == ']') { ++i; return true; }
                    return false;
                }
            case '{':
                o.kind = '{';
                ++i; ws();
                if (i < c.size() && c[i] == '}') { ++i; return true; }
                for (;;)
                {
                    o.members.emplace_back();
                    ws();
                    if (!str(o.members.back().first)) return false;
                    ws();
                    if (i >= c.size() || c[i++] != ':') return false;
                    if (!value(o.members.back().second, depth + 1)) return false;
                    ws();
                    if (i < c.size() && c[i] == ',') { ++i; continue; }
                    if (i < c.size() && c[i] == '}') { ++i; return true; }
                    return false;
                }
            default:
                o.kind = 'n';
                if (c[i] == '-') ++i;
                if (i < c.size() && c[i] == '0') ++i;
                else if (!digits()) return false;
                if (i < c.size() && c[i] == '.') { ++i; if (!digits()) return false; }
                if (i < c.size() && (c[i] | 32) == 'e')
                {
                    ++i;
                    if (i < c.size() && (c[i] == '+' || c[i] == '-')) ++i;
                    if (!digits()) return false;
                }
                o.raw = o.text = c.substr(a, i - a);
                return true;
            }
        }
    };

    std::string RowKey(const std::vector<std::string>& r) { return ShowRow(r); }

    // One record object against the columns; returns its values as text ('null' for a number that is not finite).
    std::vector<std::string> RecordFields(const Json& o, const Table& t, uint64_t tag)
    {
        std::vector<std::string> row;
        PBT_CHECK(tag, o.kind == '{', "a record is not a json object");
        PBT_CHECK(tag, o.members.size() == t.cols.size(), "a record has %zu members for %zu keys", o.members.size(), t.cols.size());
        for (std::size_t c = 0; c < t.cols.size(); ++c)
        {
            const Json& v = o.members[c].second;
            PBT_CHECK(tag, o.members[c].first.text == t.cols[c].name, "member %zu is called '%s', expected '%s'", c, pbt::Show(o.members[c].first.text).c_str(), pbt::Show(t.cols[c].name).c_str());
            bool kindOk = t.cols[c].t->json() == JsonKind::Text ? v.kind == 's' : t.cols[c].t->json() == JsonKind::Bool ? v.kind == 't' || v.kind == 'f' : v.kind == 'n' || v.kind == '0';
            PBT_CHECK(tag, kindOk, "key '%s' of type %s is written as the json value '%s'", pbt::Show(t.cols[c].name).c_str(), t.cols[c].t->name(), pbt::Show(v.raw).c_str());
            row.push_back(v.text);
        }
        return row;
    }
    // What the json text of a cell must be.
    std::string CellText(const Column& c, const Cell& v)
    {
        std::string x = c.t->text(v);
        if (c.t->json() == JsonKind::Number && x.find_first_of("in") != std::string::npos) return "null";
        return x;
    }

    std::string RecordLayout(const Json& o, bool format, const std::string& inner, const std::string& outer)
    {
        std::string r = "{";
        for (std::size_t i = 0; i < o.members.size(); ++i)
        {
            if (format) r += "\n" + inner;
            r += o.members[i].first.raw + ":" + (format ? " " : "") + o.members[i].second.raw;
            if (i + 1 < o.members.size()) r += ",";
        }
        return r + (format ? "\n" + outer : "") + "}";
    }

    void JsonCheck(Src& s)
    {
        const uint64_t tag = P(24);
        pbt::SetOpTags(tag);
        Table t;
        GenColumns(s, t, 4, true, true);
        mvlt::Vault v;
        MakeVault(t, Iota(t.cols.size()), v);
        std::vector<Ref> refs;
        while (s.some(static_cast<unsigned>(t.rows.size()), 8, 3)) GenRow(s, t, &refs, v);
        Crowd(s, t, &refs, v);
        Age(s, t, refs, v, tag);
        // numbers that are not finite
        for (std::size_t c = 0; c < t.cols.size(); ++c)
            if (!t.cols[c].uniq && !refs.empty() && s.chance(1, 6))
            {
                std::size_t i = s.draw(refs.size());
                double d = s.flip() ? std::numeric_limits<double>::infinity() : s.flip() ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
                if (std::string(t.cols[c].t->name()) == "double") { refs[i].SetData(t.cols[c].name, d); t.rows[i][c] = d; pbt::Mark("not-finite"); }
                else if (std::string(t.cols[c].t->name()) == "float") { refs[i].SetData(t.cols[c].name, static_cast<float>(d)); t.rows[i][c] = static_cast<float>(d); pbt::Mark("not-finite"); }
            }
        bool format = s.flip(), useTemplate = s.flip(), array = s.flip();
        std::size_t tabSize = s.draw(5);
        std::string tmpl = s.flip() ? "Record" : GenText(s);
        std::vector<std::size_t> rows = Iota(t.rows.size());
        std::string js;
        mvlt::VaultRecordSet set;
        bool fromSet = s.chance(1, 3);
        if (fromSet)
        {
            v.RequestEqual("no such key", 0, set);
            rows.clear();
            for (std::size_t i = 0; i < refs.size(); ++i)
                if (!s.chance(1, 3)) { set.AddRecord(refs[i]); rows.push_back(i); }
            js = set.ToJson(format, tabSize, useTemplate, tmpl, array);
        }
        else js = v.ToJson(format, tabSize, useTemplate, tmpl, array);
        pbt::Log("ToJson(%d, %zu, %d, '%s', %d) of %zu records%s -> '%s'", format, tabSize, useTemplate, pbt::Show(tmpl).c_str(), array, rows.size(), fromSet ? " of a set" : "", pbt::Show(js).c_str());
        Json top;
        JsonParser p(js);
        bool ok = p.value(top);
        p.ws();
        PBT_CHECK(tag, ok && p.i == js.size(), "this is not json (at %zu): '%s'", p.i, pbt::Show(js).c_str());
        PBT_CHECK(tag, top.kind == (array ? '[' : '{'), "the top level is '%c'", top.kind);
        std::vector<const Json*> objs;
        if (array) for (auto& o : top.items) objs.push_back(&o);
        else for (auto& o : top.members) objs.push_back(&o.second);
        PBT_CHECK(tag, objs.size() == rows.size(), "%zu records are written, expected %zu", objs.size(), rows.size());
        std::multiset<std::string> got, want;
        for (auto* o : objs) got.insert(RowKey(RecordFields(*o, t, tag)));
        auto wantRow = [&](std::size_t i)
        {
            std::vector<std::string> r;
            for (std::size_t c = 0; c < t.cols.size(); ++c) r.push_back(CellText(t.cols[c], t.rows[i][c]));
            return r;
        };
        std::map<std::string, std::string> byId;
        for (std::size_t i : rows) { want.insert(RowKey(wantRow(i))); byId[refs[i].GetRecordUniqueId()] = RowKey(wantRow(i)); }
        PBT_CHECK(tag, got == want, "the json holds other records than the vault: '%s'", pbt::Show(js).c_str());
        if (!array)
            for (std::size_t i = 0; i < objs.size(); ++i)
            {
                const std::string& name = top.members[i].first.text;
                if (useTemplate) PBT_CHECK(tag, name == tmpl + std::to_string(i), "record %zu is called '%s'", i, pbt::Show(name).c_str());
                else
                {
                    auto it = byId.find(name);
                    PBT_CHECK(tag, it != byId.end() && it->second == RowKey(RecordFields(*objs[i], t, tag)), "'%s' is not the identifier of that record", pbt::Show(name).c_str());
                    byId.erase(it);
                }
            }
        // layout
        std::string tab(tabSize, ' '), lay = array ? "[" : "{";
        for (std::size_t i = 0; i < objs.size(); ++i)
        {
            if (format) lay += "\n" + tab;
            if (!array) lay += top.members[i].first.raw + ":" + (format ? " " : "");
            lay += RecordLayout(*objs[i], format, tab + tab, tab);
            if (i + 1 < objs.size()) lay += ",";
        }
        lay += std::string(format ? "\n" : "") + (array ? "]" : "}");
        PBT_CHECK(tag, js == lay, "the layout is '%s', expected '%s'", pbt::Show(js).c_str(), pbt::Show(lay).c_str());
        // single values
        for (std::size_t c = 0; c < t.cols.size(); ++c)
            for (std::size_t i = 0; i < t.rows.size() && i < 2; ++i)
                for (bool saver : { false, true })
                {
                    std::string one = t.cols[c].t->realJson(t.rows[i][c], saver);
                    Json o;
                    JsonParser q(one);
                    bool good = q.value(o) && q.i == one.size();
                    bool kindOk = t.cols[c].t->json() == JsonKind::Text ? o.kind == 's' : t.cols[c].t->json() == JsonKind::Bool ? o.kind == 't' || o.kind == 'f' : o.kind == 'n' || o.kind == '0';
                    PBT_CHECK(tag, good && kindOk && o.text == CellText(t.cols[c], t.rows[i][c]), "the json of the %s '%s' is '%s'", t.cols[c].t->name(), pbt::Show(t.cols[c].t->text(t.rows[i][c])).c_str(), pbt::Show(one).c_str());
                }
        // single records
        for (std::size_t i = 0; i < refs.size() && i < 3; ++i)
        {
            std::string one = refs[i].ToJson(format, tabSize);
            Json o;
            JsonParser q(one);
            ok = q.value(o);
            q.ws();
            PBT_CHECK(tag, ok && q.i == one.size(), "the record is not json: '%s'", pbt::Show(one).c_str());
            PBT_CHECK(tag, RecordFields(o, t, tag) == wantRow(i), "the json of the record is '%s'", pbt::Show(one).c_str());
            std::string l = RecordLayout(o, format, tab, "");
            PBT_CHECK(tag, one == l, "the layout of the record is '%s', expected '%s'", pbt::Show(one).c_str(), pbt::Show(l).c_str());
        }
        if (!rows.empty() && !t.cols.empty()) pbt::Mark("rows");
        if (js.find('\\') != std::string::npos) pbt::Mark("escapes");
        if (s.chance(1, 8) && !refs.empty())
        {
            Ref gone = refs[0];
            v.EraseRecord(refs[0]);
            PBT_CHECK(tag, gone.ToJson(false) == "{}", "the json of an erased record is '%s'", gone.ToJson(false).c_str());
            v.DropVault();
            std::string empty = array ? "[]" : "{}";
            PBT_CHECK(tag, v.ToJson(false, tabSize, useTemplate, tmpl, array) == empty, "the json of a dropped vault is not empty");
            PBT_CHECK(tag, mvlt::VaultRecordSet().ToJson() == "{}", "the json of a set without a vault is not empty");
        }
    }

    // ---------------------------------------------------------------- P30
    struct Grid
    {
        std::vector<std::string> head;
        std::vector<std::vector<std::string>> cells;         // text of every row
        std::vector<std::size_t> width;
        void measure()
        {
            width.clear();
            for (std::size_t c = 0; c < head.size(); ++c)
            {
                std::size_t w = head[c].size();
                for (auto& r : cells) w = std::max(w, r[c].size());
                width.push_back(w);
            }
        }
        std::string line(char corner, char dash) const
        {
            std::string r(1, corner);
            for (std::size_t w : width) r += std::string(w + 2, dash) + corner;
            return r + "\n";
        }
        std::string row(const std::vector<std::string>& c) const
        {
            std::string r = "|";
            for (std::size_t i = 0; i < c.size(); ++i) r += " " + c[i] + std::string(width[i] - c[i].size(), ' ') + " |";
            return r;
        }
    };

    // Does `out` from `pos` on consist of the rows of `order`, groups of ties in any order, `left` rows in all?
    bool MatchRows(const std::string& out, std::size_t pos, const std::vector<std::vector<std::string>>& groups, std::vector<std::vector<char>>& used,
        std::size_t left, const std::string& tail)
    {
        if (left == 0) return out.compare(pos, std::string::npos, tail) == 0;
        std::size_t g = 0;
        while (g < groups.size() && std::find(used[g].begin(), used[g].end(), 0) == used[g].end()) ++g;
        if (g == groups.size()) return false;
        std::set<std::string> tried;
        for (std::size_t i = 0; i < groups[g].size(); ++i)
            if (!used[g][i] && tried.insert(groups[g][i]).second && out.compare(pos, groups[g][i].size(), groups[g][i]) == 0)
            {
                used[g][i] = 1;
                if (MatchRows(out, pos + groups[g][i].size(), groups, used, left - 1, tail)) return true;
                used[g][i] = 0;
            }
        return false;
    }

    bool MatchLines(const std::string& out, std::size_t pos, std::vector<std::string>& left)
    {
        if (left.empty()) return pos == out.size();
        for (std::size_t i = 0; i < left.size(); ++i)
            if (out.compare(pos, left[i].size(), left[i]) == 0)
            {
                std::string l = left[i];
                left.erase(left.begin() + static_cast<long>(i));
                if (MatchLines(out, pos + l.size(), left)) return true;
                left.insert(left.begin() + static_cast<long>(i), l);
            }
        return false;
    }

    template <template <class E, class A = std::allocator<E>> class C>
    void PrintContainer(const std::vector<Ref>& refs, bool id, std::size_t amount, bool all, const std::vector<std::string>& keys)
    {
        C<Ref> c(refs.begin(), refs.end());
        if (all && keys.empty()) mvlt::PrintAsTable(c, id);
        else mvlt::PrintAsTable(c, id, amount, keys);
    }

    void Printing(Src& s)
    {
        const uint64_t tag = P(30);
        pbt::SetOpTags(tag);
        Table t;
        GenColumns(s, t, 4, true, true);
        mvlt::Vault v;
        MakeVault(t, Iota(t.cols.size()), v);
        std::vector<Ref> refs;
        while (s.some(static_cast<unsigned>(t.rows.size()), 9, 4)) GenRow(s, t, &refs, v);
        Crowd(s, t, &refs, v);
        Age(s, t, refs, v, tag);
        auto texts = [&](std::size_t i, const std::vector<std::string>& keys)
        {
            std::vector<std::string> r;
            for (auto& k : keys)
            {
                std::string x;
                for (std::size_t c = 0; c < t.cols.size(); ++c) if (t.cols[c].name == k) x = t.cols[c].t->text(t.rows[i][c]);
                r.push_back(x);
            }
            return r;
        };
        std::vector<std::string> allKeys, chosen;
        for (auto& c : t.cols) allKeys.push_back(c.name);
        if (!t.cols.empty() && s.chance(1, 3))
        {
            chosen.push_back(s.pick(allKeys));
            for (uint64_t n = s.draw(4); n > 0; --n) chosen.push_back(s.chance(1, 4) ? "unknown" : s.pick(allKeys));
        }
        bool id = s.flip(), reverse = s.flip(), limited = s.chance(1, 3);
        std::size_t amount = limited ? s.draw(refs.size() + 2) : static_cast<std::size_t>(-1);
        mvlt::VaultRecordSet set;
        std::vector<std::size_t> rows = Iota(refs.size());
        uint64_t what = s.weighted({3, 2, 3, 1});
        if (what == 1)
        {
            v.RequestEqual("no such key", 0, set);
            rows.clear();
            for (std::size_t i = 0; i < refs.size(); ++i) if (!s.chance(1, 3)) { set.AddRecord(refs[i]); rows.push_back(i); }
        }
        std::string out;
        if (what <= 1)
        {
            std::string primary = t.cols.empty() || s.flip() ? "" : s.pick(allKeys);
            {
                Capture cap(std::cout);
                std::list<std::string> list(chosen.begin(), chosen.end());
                const mvlt::Vault& target = v;
                if (what == 0) { if (!limited && primary.empty() && !reverse && list.empty()) target.Print(id); else target.Print(id, amount, primary, reverse, list); }
                else set.Print(id, amount, primary, reverse, list);
                out = cap.text.str();
            }
            pbt::Log("Print(id %d, amount %zd, primary '%s', reverse %d, %zu keys)%s of %zu records ->\n%s", id, static_cast<ssize_t>(amount), pbt::Show(primary).c_str(), reverse, chosen.size(),
                what == 1 ? " of a set" : "", rows.size(), out.c_str());
            std::string count = " (" + std::to_string(rows.size()) + " records)\n";
            if (t.cols.empty())
            {
                PBT_CHECK(tag, out == std::string(what == 0 ? "Vault" : "VaultRecordSet") + " does not contain keys!\n" + count, "a vault without keys is printed as '%s'", pbt::Show(out).c_str());
                return;
            }
            Grid g;
            g.head = chosen.empty() ? allKeys : chosen;
            for (std::size_t i : rows) g.cells.push_back(texts(i, g.head));
            g.measure();
            std::string sortKey = primary.empty() ? g.head[0] : primary;
            std::size_t col = 0;
            while (t.cols[col].name != sortKey) ++col;
            const IoType& st = *t.cols[col].t;
            std::vector<std::size_t> order = rows;
            std::stable_sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b) { return reverse ? st.less(t.rows[b][col], t.rows[a][col]) : st.less(t.rows[a][col], t.rows[b][col]); });
            std::vector<std::vector<std::string>> groups;
            std::vector<std::vector<char>> used;
            for (std::size_t k = 0; k < order.size(); ++k)
            {
                if (k == 0 || !st.same(t.rows[order[k]][col], t.rows[order[k - 1]][col])) { groups.emplace_back(); used.emplace_back(); }
                groups.back().push_back(g.row(texts(order[k], g.head)) + (id ? " " + refs[order[k]].GetRecordUniqueId() : "") + "\n");
                used.back().push_back(0);
                if (groups.back().size() > 1) pbt::Mark("ties");
            }
            std::string headText = g.line('+', '-') + g.row(g.head) + "\n" + g.line('+', '-');
            std::string tail = (amount >= rows.size() ? g.line('+', '-') : g.line('$', '~')) + count;
            PBT_CHECK(tag, out.compare(0, headText.size(), headText) == 0, "the table starts with\n%s\nexpected\n%s", out.substr(0, headText.size()).c_str(), headText.c_str());
            PBT_CHECK(tag, MatchRows(out, headText.size(), groups, used, std::min(amount, rows.size()), tail), "the table is\n%s\nits rows or its last lines are not the expected ones", out.c_str());
            if (!rows.empty()) pbt::Mark("rows");
        }
        else if (what == 2)
        {
            // references in any order, repeated, stale or empty
            std::vector<Ref> list;
            std::vector<std::size_t> which;
            for (uint64_t n = s.draw(8); n > 0; --n)
            {
                std::size_t i = refs.empty() || s.chance(1, 8) ? refs.size() : s.draw(refs.size());
                which.push_back(i);
                list.push_back(i < refs.size() ? refs[i] : Ref());
            }
            if (!refs.empty() && s.chance(1, 4))
            {
                std::size_t dead = s.draw(refs.size());
                v.EraseRecord(refs[dead]);
                for (auto& w : which) if (w == dead) w = refs.size();
                pbt::Mark("stale");
            }
            {
                Capture cap(std::cout);
                switch (s.draw(3))
                {
                case 0: PrintContainer<std::vector>(list, id, amount, !limited, chosen); break;
                case 1: PrintContainer<std::list>(list, id, amount, !limited, chosen); break;
                default: PrintContainer<std::deque>(list, id, amount, !limited, chosen); break;
                }
                out = cap.text.str();
            }
            pbt::Log("PrintAsTable(id %d, amount %zd, %zu keys) of %zu references ->\n%s", id, static_cast<ssize_t>(amount), chosen.size(), list.size(), out.c_str());
            std::string want;
            if (list.empty()) want = "The keys could not be retrieved because the container is empty\n (0 records)\n";
            else
            {
                Grid g;
                g.head = !chosen.empty() ? chosen : which[0] < refs.size() ? allKeys : std::vector<std::string>();
                for (std::size_t w : which) g.cells.push_back(w < refs.size() ? texts(w, g.head) : std::vector<std::string>(g.head.size()));
                g.measure();
                want = g.line('+', '-') + g.row(g.head) + "\n" + g.line('+', '-');
                for (std::size_t k = 0; k < list.size() && k < amount; ++k)
                    want += g.row(g.cells[k]) + (id ? " " + (which[k] < refs.size() ? refs[which[k]].GetRecordUniqueId() : std::string("null")) : "") + "\n";
                want += (amount >= list.size() ? g.line('+', '-') : g.line('$', '~')) + " (" + std::to_string(list.size()) + " records)\n";
                pbt::Mark("rows");
            }
            PBT_CHECK(tag, out == want, "the table is\n%s\nexpected\n%s", out.c_str(), want.c_str());
        }
        else
        {
            Ref r = refs.empty() || s.chance(1, 6) ? Ref() : refs[0];
            {
                Capture cap(std::cout);
                r.PrintRecord();
                if (!r.IsValid()) { mvlt::VaultRecordSet none; none.Print(); }
                out = cap.text.str();
            }
            pbt::Log("PrintRecord -> '%s'", pbt::Show(out).c_str());
            if (!r.IsValid()) PBT_CHECK(tag, out == "VaultRecordRef not valid!\nThe parent Vault is not valid!\n", "an empty reference and a set without a vault are printed as '%s'", pbt::Show(out).c_str());
            else
            {
                std::string head = "Vault record " + r.GetRecordUniqueId() + ":\n";
                std::vector<std::string> lines;
                auto x = texts(0, allKeys);
                for (std::size_t c = 0; c < allKeys.size(); ++c) lines.push_back("\t" + allKeys[c] + " = " + x[c] + "\n");
                PBT_CHECK(tag, out.compare(0, head.size(), head) == 0 && MatchLines(out, head.size(), lines), "the record is printed as '%s'", pbt::Show(out).c_str());
                pbt::Mark("rows");
            }
        }
        PBT_CHECK(tag, v.Size() == refs.size() || what == 2, "printing changes the vault");
    }

    // ---------------------------------------------------------------- P31
    bool IsUuid4(const std::string& u)
    {
        if (u.size() != 36) return false;
        for (std::size_t i = 0; i < 36; ++i)
        {
            if (i == 8 || i == 13 || i == 18 || i == 23) { if (u[i] != '-') return false; }
            else if (!(u[i] >= '0' && u[i] <= '9') && !(u[i] >= 'a' && u[i] <= 'f')) return false;
        }
        return u[14] == '4' && (u[19] == '8' || u[19] == '9' || u[19] == 'a' || u[19] == 'b');
    }

    void Identifiers(Src& s)
    {
        const uint64_t tag = P(31);
        pbt::SetOpTags(tag);
        std::set<std::string> seen;
        for (unsigned n = 0; s.more(n, 20, 8); ++n)
        {
            s.begin();
            if (s.chance(1, 3))
            {
                std::string prefix = s.flip() ? "" : GenText(s), f = prefix.empty() && s.flip() ? mvlt::GenTmpFileName() : mvlt::GenTmpFileName(prefix);
                pbt::Log("GenTmpFileName('%s') -> '%s'", pbt::Show(prefix).c_str(), pbt::Show(f).c_str());
                PBT_CHECK(tag, f.compare(0, 5 + prefix.size(), "/tmp/" + prefix) == 0 && IsUuid4(f.substr(5 + prefix.size())), "the temporary name is '%s'", pbt::Show(f).c_str());
                PBT_CHECK(tag, seen.insert(f.substr(5 + prefix.size())).second, "the identifier of '%s' was given before", pbt::Show(f).c_str());
            }
            else if (s.chance(1, 3))
            {
                uint64_t x = s.flip() ? s.draw(~uint64_t(0)) : s.draw(300);
                char b[32];
                snprintf(b, sizeof b, "%016lx", x);
                PBT_CHECK(tag, mvlt::ToHex(x) == b, "ToHex(%lu) is '%s'", x, mvlt::ToHex(x).c_str());
            }
            else
            {
                std::string u = mvlt::Uuid();
                PBT_CHECK(tag, IsUuid4(u), "'%s' is not a version 4 uuid", u.c_str());
                PBT_CHECK(tag, seen.insert(u).second, "'%s' was given before", u.c_str());
                pbt::Mark("uuid");
            }
            s.end();
        }
        if (s.chance(1, 20))
        {
            // threads and processes of the same program
            std::vector<std::string> ids(3);
            std::vector<std::thread> th;
            for (auto& i : ids) th.emplace_back([&i] { i = mvlt::Uuid(); });
            for (auto& x : th) x.join();
            for (int k = 0; k < 2; ++k)
            {
                int fd[2];
                if (pipe(fd)) continue;
                pid_t pid = fork();
                if (pid == 0)
                {
                    std::string u = mvlt::Uuid();
                    ssize_t w = write(fd[1], u.data(), u.size());
                    _exit(w == 36 ? 0 : 1);
                }
                close(fd[1]);
                char b[64];
                ssize_t n = read(fd[0], b, sizeof b);
                close(fd[0]);
                int st;
                waitpid(pid, &st, 0);
                ids.emplace_back(b, n > 0 ? static_cast<std::size_t>(n) : 0);
            }
            ids.push_back(mvlt::Uuid());
            for (auto& u : ids)
            {
                PBT_CHECK(tag, IsUuid4(u), "'%s' is not a version 4 uuid", u.c_str());
                PBT_CHECK(tag, seen.insert(u).second, "'%s' was given to another thread or process too", u.c_str());
            }
            pbt::Mark("threads-and-processes");
        }
        if (s.chance(1, 100))
        {
            // every random hexadecimal digit takes every value it may
            std::vector<std::set<char>> digits(36);
            for (int k = 0; k < 2000; ++k)
            {
                std::string u = mvlt::Uuid();
                PBT_CHECK(tag, IsUuid4(u), "'%s' is not a version 4 uuid", u.c_str());
                PBT_CHECK(tag, seen.insert(u).second, "'%s' was given before", u.c_str());
                for (std::size_t i = 0; i < 36; ++i) digits[i].insert(u[i]);
            }
            for (std::size_t i = 0; i < 36; ++i)
            {
                std::size_t want = i == 8 || i == 13 || i == 18 || i == 23 || i == 14 ? 1 : i == 19 ? 4 : 16;
                PBT_CHECK(tag, digits[i].size() == want, "digit %zu takes %zu values, expected %zu", i, digits[i].size(), want);
            }
            pbt::Mark("many");
        }
    }

    // ---------------------------------------------------------------- P34
    struct Lcg
    {
        uint64_t x;
        uint32_t operator()(uint32_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return static_cast<uint32_t>((x >> 33) % n); }
    };

    // One record of a big file, from a small generator, appended as csv and as fields.
    void BigRecord(Lcg& g, std::string* csv, std::vector<std::string>& fields, uint32_t width)
    {
        fields.clear();
        uint32_t n = 2 + g(3);
        for (uint32_t f = 0; f < n; ++f)
        {
            std::string v;
            for (uint32_t k = g(width); k > 0; --k) v += "abcdefghij0123456789,\"\n\r \xc3"[g(26)];
            fields.push_back(v);
            if (!csv) { g(2); continue; }
            if (f) *csv += ',';
            bool quote = v.find_first_of(",\"\r\n") != std::string::npos;
            if (g(2) == 1) quote = true;
            if (!quote) { *csv += v; continue; }
            *csv += '"';
            for (char c : v) { if (c == '"') *csv += '"'; *csv += c; }
            *csv += '"';
        }
        uint32_t eol = g(3);
        if (csv) *csv += eol ? "\r\n" : "\n";
    }

    void BigFile(Src& s)
    {
        const uint64_t tag = P(34);
        pbt::SetOpTags(tag);
        const std::size_t limit = 10485760, block = 4096;
        uint64_t seed = s.draw(1u << 30);
        uint32_t width = static_cast<uint32_t>(2 + s.draw(400));
        // the size of the file in relation to the limit and to whole blocks
        std::size_t target = limit;
        switch (s.weighted({3, 2, 2}))
        {
        case 0: target += s.draw(600000); break;
        case 1: target = static_cast<std::size_t>(static_cast<int64_t>(limit) + s.range(-3, 3)); break;
        default: target += block * (1 + s.draw(40)) + static_cast<std::size_t>(s.range(-2, 2)); break;
        }
        std::string csv;
        csv.reserve(target + 4096);
        std::vector<std::string> fields;
        Lcg g{seed};
        std::size_t records = 0;
        while (csv.size() + 5000 < target) { BigRecord(g, &csv, fields, width); ++records; }
        // fill up to the exact size with one last field
        std::string last;
        bool lastEol = s.flip(), lastQuoted = s.flip();
        std::size_t extra = (lastEol ? 2 : 0) + (lastQuoted ? 2 : 0);
        last.assign(target - csv.size() - extra, 'z');
        csv += (lastQuoted ? "\"" : "") + last + (lastQuoted ? "\"" : "") + (lastEol ? "\r\n" : "");
        PBT_CHECK(0, csv.size() == target, "harness: wrong size");
        pbt::Log("%zu bytes, %zu records, fields below %u bytes, seed %lu, last field %zu bytes%s%s", csv.size(), records, width, seed, last.size(), lastQuoted ? " quoted" : "", lastEol ? " with line end" : "");
        std::string name = ScratchFile("big");
        WriteFile(name, csv);
        csv.clear();
        csv.shrink_to_fit();
        std::string wrong;
        {
            mvlt::CsvParser p;
            bool opened = p.OpenFile(name);
            unlink(name.c_str());
            PBT_CHECK(tag, opened, "the file cannot be opened");
            Lcg h{seed};
            std::vector<std::string> got;
            for (std::size_t i = 0; i < records; ++i)
            {
                BigRecord(h, nullptr, fields, width);
                // BigRecord draws the same numbers whether or not it writes
                if (!p.GetNextVector(got, ',')) { wrong = pbt::Fmt("the file ends after %zu of %zu records", i, records + 1); break; }
                if (got != fields) { wrong = pbt::Fmt("record %zu is read as %s, expected %s", i, ShowRow(got).c_str(), ShowRow(fields).c_str()); break; }
            }
            if (wrong.empty())
            {
                if (!p.GetNextVector(got, ',') || got.size() != 1 || got[0] != last) wrong = pbt::Fmt("the last record has %zu fields, the first of %zu bytes; expected one of %zu bytes", got.size(), got.empty() ? 0 : got[0].size(), last.size());
                else if (p.GetNextVector(got, ',')) wrong = "there is a record after the last one: " + ShowRow(got);
            }
        }
        PBT_CHECK(tag, wrong.empty(), "%s", wrong.c_str());
        pbt::Mark(target > limit ? "block-path" : "whole-file");
    }

    // ---------------------------------------------------------------- P35
    struct FileLimit
    {
        rlimit old;
        explicit FileLimit(rlim_t n)
        {
            signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            rlimit r = old;
            r.rlim_cur = n;
            setrlimit(RLIMIT_FSIZE, &r);
        }
        ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
    };

    void Failures(Src& s)
    {
        const uint64_t tag = P(35);
        pbt::SetOpTags(tag);
        Table t;
        GenColumns(s, t, 4, false, true);
        mvlt::Vault v;
        MakeVault(t, Iota(t.cols.size()), v);
        std::vector<Ref> refs;
        unsigned most = s.chance(1, 6) ? 400 : 10;            // beyond one stream buffer now and then
        while (s.some(static_cast<unsigned>(t.rows.size()), most, most > 10 ? 300 : 4)) { s.begin(); GenRow(s, t, &refs, v); s.end(); }
        Age(s, t, refs, v, tag);
        mvlt::VaultRecordSet set;
        bool fromSet = s.chance(1, 3);
        if (fromSet)
        {
            v.RequestEqual("no such key", 0, set);
            for (auto& r : refs) set.AddRecord(r);
        }
        bool header = s.flip();
        auto save = [&](const std::string& n) { return fromSet ? set.SaveToFile(n, {}, ",", header) : v.SaveToFile(n, {}, ",", header); };
        std::string name = ScratchFile("io");
        PBT_CHECK(tag, save(name), "saving fails");
        std::string full = ReadWhole(name);
        struct stat st;
        if (s.flip()) unlink(name.c_str());
        uint64_t what = s.weighted({4, 1, 2});
        if (what == 0)
        {
            std::size_t n = s.draw(full.size() + 3);
            bool ok;
            {
                FileLimit lim(n);
                ok = save(name);
            }
            std::string now = ReadWhole(name);
            pbt::Log("a save of %zu bytes with room for %zu: %s, the file has %zu bytes", full.size(), n, ok ? "true" : "false", now.size());
            PBT_CHECK(tag, ok == (n >= full.size()), "a save of %zu bytes with room for %zu returns %s", full.size(), n, ok ? "true" : "false");
            if (ok) PBT_CHECK(tag, now.size() == full.size(), "a successful save wrote %zu of %zu bytes", now.size(), full.size());
            pbt::Mark(ok ? "room" : "no-room");
            // the file is as good as ever once there is room again
            PBT_CHECK(tag, save(name) && ReadWhole(name).size() == full.size(), "saving again does not give the full file");
        }
        else if (what == 1)
        {
            bool ok = save("/dev/full");
            PBT_CHECK(tag, ok == full.empty(), "a save of %zu bytes to a full device returns %s", full.size(), ok ? "true" : "false");
            pbt::Mark("no-room");
        }
        else
        {
            unlink(name.c_str());
            std::string dir = ScratchFile("dir");
            mkdir(dir.c_str(), 0700);
            std::string bad = s.flip() ? dir : s.flip() ? dir + "/none/x" : dir + "/none";
            bool toRead = s.flip() || bad == dir + "/none";
            bool ok = toRead ? (s.flip() ? v.ReadFile(bad) : s.flip() ? v.ReadFile(bad, ';', false) : v.ReadFile(bad, ',', Handler([](const std::vector<std::string>&, std::vector<std::string>&) {}))) : save(bad);
            bool left = stat((dir + "/none").c_str(), &st) == 0;
            rmdir(dir.c_str());
            PBT_CHECK(tag, !ok, "%s '%s' succeeds", toRead ? "loading" : "saving to", bad.substr(dir.size()).empty() ? "a directory" : "a missing file");
            PBT_CHECK(tag, !left, "a file was created");
            if (toRead) PBT_CHECK(tag, v.GetErrorsInLastReadedFile().empty(), "a file that cannot be read has errors in its lines");
            pbt::Mark("bad-path"); if (t.rows.empty()) pbt::Mark("bad-path-no-rows");
        }
        unlink(name.c_str());
        CheckVault(v, t, t.rows, tag);
        for (auto& r : refs) PBT_CHECK(tag, r.IsValid(), "a reference is not valid any more");
    }
}

int main(int argc, char** argv)
{
    return pbt::Main(argc, argv, {
        {"P23", P(23), Conversions, {"accepted", "refused"}, "at least one text is accepted and one refused", 400000, 6000000},
        {"P24", P(24), JsonCheck, {"rows"}, "at least one record with at least one key is written", 150000, 2000000},
        {"P25", P(25), SaverHistory, {"set", "copy|swap", "reset"}, "data is stored, copied or swapped, and reset", 300000, 4000000},
        {"P26", P(26), ContainerHistory, {"add", "set|erase"}, "data is added and then changed or erased", 300000, 4000000},
        {"P27", P(27), MapHistory, {"emplace", "erase|equal-keys"}, "elements are inserted, and erased or equal", 300000, 4000000},
        {"P30", P(30), Printing, {"rows"}, "at least one record is printed", 150000, 2000000},
        {"P31", P(31), Identifiers, {"uuid"}, "at least one uuid is generated", 30000, 400000},
        {"P34", P(34), BigFile, {"block-path"}, "the file is larger than the limit and read in blocks", 64, 1200},
        {"P39", P(39), LocaleChange, {"rows", "c-locale|cpp-locale"}, "there is a record and the locale is not the classic one", 12000, 300000},
        {"P35", P(35), Failures, {"no-room|bad-path"}, "the file cannot be written or read", 25000, 600000},
    });
}
