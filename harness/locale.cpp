// P39: whatever the program's locale, the library writes and understands the same text.
// The same calls are made in the classic locale and in a generated one and their results compared.
#include "table.h"
#include "Uuid/Uuid.h"
#include <clocale>
#include <cstring>
#include <iostream>
#include <locale>
#include <sstream>

using pbt::Src;

namespace
{
    struct Capture
    {
        std::ostringstream text;
        std::streambuf* old;
        Capture() : old(nullptr) { text.imbue(std::locale::classic()); old = std::cout.rdbuf(text.rdbuf()); }
        ~Capture() { std::cout.rdbuf(old); }
    };

    // Number and bool texts unlike any the library writes.
    struct OddNumbers : std::numpunct<char>
    {
        char point, sep;
        std::string group;
        OddNumbers(char p, char s, std::string g) : point(p), sep(s), group(std::move(g)) {}
        char do_decimal_point() const override { return point; }
        char do_thousands_sep() const override { return sep; }
        std::string do_grouping() const override { return group; }
        std::string do_truename() const override { return "ja"; }
        std::string do_falsename() const override { return "nein"; }
    };
    // Other characters are white space, digits and letters.
    struct OddCharacters : std::ctype<char>
    {
        static const mask* table(int k)
        {
            static mask t[2][table_size];
            static bool done = false;
            if (!done)
            {
                for (auto& x : t) std::memcpy(x, classic_table(), sizeof(x));
                for (char c : std::string(",;\"-.07e")) t[0][static_cast<unsigned char>(c)] |= space;
                for (char c : std::string(" \t\r\n")) t[1][static_cast<unsigned char>(c)] = alpha | print;
                for (int c = 128; c < 256; ++c) t[1][c] |= digit | space;
                done = true;
            }
            return t[k];
        }
        explicit OddCharacters(int k) : std::ctype<char>(table(k)) {}
    };

    // The program's locale while it lives, the classic one afterwards.
    struct Under
    {
        Under(const std::string& c, const std::locale& cpp) { std::locale::global(cpp); setlocale(LC_ALL, c.c_str()); }
        ~Under() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
    };

    // Those check.py has made, if it could.
    std::vector<std::string> Installed()
    {
        std::vector<std::string> r;
        for (const char* n : {"de_DE.UTF-8", "fr_FR.ISO-8859-1", "tr_TR.ISO-8859-9", "fa_IR.UTF-8", "hi_IN.UTF-8", "C.utf8"})
            if (setlocale(LC_ALL, n)) r.push_back(n);
        setlocale(LC_ALL, "C");
        return r;
    }

    struct Snap
    {
        std::vector<std::pair<std::string, std::string>> texts;
        std::vector<std::pair<std::string, std::any>> values;       // with the type's number in front
        std::vector<std::size_t> types;
        void add(const std::string& what, const std::string& t) { texts.emplace_back(what, t); }
    };
}

void LocaleChange(Src& s)
{
    const uint64_t tag = P(39);
    pbt::SetOpTags(tag);
    static const std::vector<std::string> installed = Installed();
    // the locale
    std::string c = "C", how;
    std::locale cpp = std::locale::classic();
    std::size_t pick = s.draw(installed.size() + 1);
    if (pick > 0) c = installed[pick - 1];
    switch (s.draw(5))
    {
    case 0: if (pick > 0) { cpp = std::locale(c); how = "the same"; break; }
    // fall through
    case 1:
    case 2:
    {
        static const char points[] = ",.:'0 e-\"", seps[] = ".,' 0;-_\"";
        char p = points[s.draw(sizeof(points) - 1)], t = seps[s.draw(sizeof(seps) - 1)];
        std::string g = s.pick(std::vector<std::string>{"\1", "\3", "\2\3", ""});
        cpp = std::locale(cpp, new OddNumbers(p, t, g));
        how = pbt::Fmt("point '%c', separator '%c', groups of %d", p, t, g.empty() ? 0 : g[0]);
        break;
    }
    case 3: { int k = static_cast<int>(s.draw(2)); cpp = std::locale(cpp, new OddCharacters(k)); how = pbt::Fmt("other classes of characters (%d)", k); break; }
    default: how = "classic"; break;
    }
    pbt::Log("C locale %s, C++ locale: %s", c.c_str(), how.c_str());
    if (c != "C") pbt::Mark("c-locale");
    if (how != "classic") pbt::Mark("cpp-locale");

    // the vault
    Table t;
    GenColumns(s, t, 5, true, true);
    mvlt::Vault v;
    MakeVault(t, Iota(t.cols.size()), v);
    std::vector<Ref> refs;
    while (s.some(static_cast<unsigned>(t.rows.size()), 30, 6)) GenRow(s, t, &refs, v);
    mvlt::VaultRecordSet set;
    v.RequestEqual("no such key", 0, set);
    for (auto& r : refs) if (s.flip()) set.AddRecord(r);
    std::vector<std::pair<std::size_t, std::string>> noise;
    for (unsigned n = 0; s.more(n, 8, 4); ++n)
    {
        std::string x = s.chance(1, 6) ? GenText(s) : NumText(s);
        // with what other locales would accept
        if (s.chance(1, 3)) x.insert(s.draw(x.size() + 1), s.pick(std::vector<std::string>{",", ".", "'", " ", "\xd9\xab", "\xdb\xb1", "\xc2\xa0", "e", "+", "ja", "nein", "true"}));
        // the conversion of the custom type is not the library's
        std::size_t ty = s.draw(IoTypes().size());
        if (std::string(IoTypes()[ty]->name()) == "Color") ty = 0;
        noise.emplace_back(ty, x);
        pbt::Log("text '%s' as %s", pbt::Show(x).c_str(), IoTypes()[noise.back().first]->name());
    }
    const std::string sep(1, s.pick(std::vector<char>{',', ';', '\t', '.', '0'}));
    const bool format = s.flip(), tmpl = s.flip(), array = s.flip(), ids = s.flip();
    const std::size_t tab = s.draw(5);
    const std::uint64_t number = (static_cast<std::uint64_t>(s.draw(65536)) << 48) ^ s.draw(1000000);
    Res res;
    for (std::size_t i = 0; i < t.cols.size() && !res.IsOperationSuccess && i < refs.size(); ++i) res = refs[i].SetData("no such key", 1.5);
    const std::string name = ScratchFile("loc"), other = ScratchFile("loc2");
    // a file with rows that are not all right
    {
        std::string f;
        for (std::size_t i = 0; i < t.cols.size(); ++i) f += (i ? sep : "") + "\"" + [&] { std::string q; for (char ch : t.cols[i].name) { q += ch; if (ch == '"') q += ch; } return q; }() + "\"";
        f += "\n";
        for (auto& x : noise)
        {
            for (std::size_t i = 0; i < t.cols.size(); ++i)
            {
                std::string field = i == 0 || t.rows.empty() ? x.second : t.cols[i].t->text(t.rows[0][i]), q;
                for (char ch : field) { q += ch; if (ch == '"') q += ch; }
                f += (i ? sep : "") + "\"" + q + "\"";
            }
            f += "\n";
        }
        WriteFile(other, f);
    }

    auto take = [&](const std::string& under)
    {
        Snap o;
        for (std::size_t r = 0; r < t.rows.size(); ++r)
            for (std::size_t k = 0; k < t.cols.size(); ++k)
            {
                const Column& col = t.cols[k];
                o.add("ToString", col.t->realText(t.rows[r][k]));
                o.add("ToJson of a value", col.t->realJson(t.rows[r][k], false));
                o.add("ToJson of a saved value", col.t->realJson(t.rows[r][k], true));
                std::string x = "?";
                refs[r].GetDataAsString(col.name, x);
                o.add("GetDataAsString", x);
            }
        for (auto& x : noise)
        {
            auto p = IoTypes()[x.first]->realParse(x.second, IoTypes()[x.first]->zero());
            o.add("FromString of '" + pbt::Show(x.second) + "'", p.first ? "accepted" : "refused");
            o.types.push_back(x.first);
            o.values.emplace_back(x.second, p.second);
        }
        o.add("the vault's ToJson", v.ToJson(format, tab, tmpl, "R", array));
        o.add("the set's ToJson", set.ToJson(format, tab, tmpl, "R", array));
        for (auto& r : refs) { o.add("a record's ToJson", r.ToJson(format, tab)); o.add("GetRecordUniqueId", r.GetRecordUniqueId()); }
        o.add("GetParentVaultUniqueId", set.GetParentVaultUniqueId());
        for (auto& row : v.ToStrings()) for (auto& x : row) o.add("ToStrings", x.first + "=" + x.second);
        for (auto& row : set.ToStrings()) for (auto& x : row) o.add("the set's ToStrings", x.first + "=" + x.second);
        {
            Capture cap;
            v.Print(ids);
            set.Print(ids);
            if (!refs.empty()) refs[0].PrintRecord();
            mvlt::PrintAsTable(refs, ids);
            res.Print();
            o.add("what is printed", cap.text.str());
        }
        o.add("ResultCodeString", res.ResultCodeString());
        o.add("ToHex", mvlt::ToHex(number));
        PBT_CHECK(tag, v.SaveToFile(name, {}, sep), "saving fails (%s)", under.c_str());
        o.add("the saved file", ReadWhole(name));
        PBT_CHECK(tag, set.SaveToFile(name, {}, sep), "saving the set fails (%s)", under.c_str());
        o.add("the saved file of a set", ReadWhole(name));
        for (const std::string& file : {name, other})
        {
            mvlt::Vault b;
            MakeVault(t, Iota(t.cols.size()), b);
            PBT_CHECK(tag, b.ReadFile(file, sep[0]), "loading fails (%s)", under.c_str());
            for (auto& row : Contents(b, t, tag)) o.add("what is loaded", ShowRow(row));
            for (auto& e : b.GetErrorsInLastReadedFile()) o.add("the errors of a load", pbt::Fmt("%zu ", e.first) + e.second);
        }
        return o;
    };
    const Snap want = take("classic locale");
    Snap got;
    {
        Under u(c, cpp);
        got = take("changed locale");
    }
    unlink(name.c_str());
    unlink(other.c_str());
    PBT_CHECK(tag, want.texts.size() == got.texts.size(), "%zu texts instead of %zu", got.texts.size(), want.texts.size());
    for (std::size_t i = 0; i < want.texts.size(); ++i)
        PBT_CHECK(tag, want.texts[i] == got.texts[i], "%s is '%s' in the classic locale and '%s' in the other", want.texts[i].first.c_str(), pbt::Show(want.texts[i].second).c_str(), pbt::Show(got.texts[i].second).c_str());
    for (std::size_t i = 0; i < want.values.size(); ++i)
        PBT_CHECK(tag, IoTypes()[want.types[i]]->same(want.values[i].second, got.values[i].second), "FromString gives another value for '%s'", pbt::Show(want.values[i].first).c_str());
    if (!t.rows.empty()) pbt::Mark("rows");
}
