// P40: executes a script whose segments run before main, in it, in threads, in exit handlers and in the destructors of
// static and thread_local objects, and compares what the library answers with a model.
// Slots: 0..3 static objects of two files, 4 of main's thread, 5 and 6 of the two threads, 7 static in a function, 8 and 9 made with new.
#include "life.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace mvlt;

namespace life
{
    struct Op { std::string name; int a[4]; };

    struct VaultModel { std::map<int, int> rows; bool alive = true; };

    struct Slot
    {
        Parts p;
        bool alive = false;
        int vault = 0;                       // number of the vault in the model
        int refVault = 0, refRow = 0;        // what the reference refers to
        int setVault = 0;                    // the vault of the set
        std::set<int> setRows;
    };

    struct Engine
    {
        std::map<std::string, std::vector<Op>> script;
        Slot slots[10];
        std::map<int, VaultModel> vaults;
        std::set<std::string> ids;
        int nextRow = 1, nextVault = 1;
        std::string dir;
        const char* phase = "early";
        std::map<std::string, int> count;
        std::string segment;
        int step = 0;

        Engine()
        {
            const char* path = std::getenv("LIFE_SCRIPT");
            FILE* f = path ? std::fopen(path, "r") : nullptr;
            if (!f) { std::fprintf(stderr, "no script\n"); _exit(3); }
            char seg[32], name[32];
            int a, b, c, d;
            while (std::fscanf(f, "%31s %31s %d %d %d %d", seg, name, &a, &b, &c, &d) == 6) script[seg].push_back(Op{ name, { a, b, c, d } });
            std::fclose(f);
            const char* w = std::getenv("LIFE_DIR");
            dir = w ? w : ".";
        }
    };

    // never destroyed
    static Engine& E()
    {
        static Engine* e = new Engine();
        return *e;
    }

    static void Run(const std::string& segment);
    static void Exec(const Op& o);

    static void Fail(const char* what, const std::string& got, const std::string& want)
    {
        std::fprintf(stderr, "LIFE FAIL in segment %s step %d: %s is %s, not %s\n", E().segment.c_str(), E().step, what, got.c_str(), want.c_str());
        _exit(1);
    }

    template <class A, class B>
    static void Same(const char* what, const A& got, const B& want)
    {
        if (!(got == static_cast<A>(want)))
        {
            std::string g = std::to_string(got), w = std::to_string(static_cast<A>(want));
            Fail(what, g, w);
        }
    }

    static std::string Text(int row)
    {
        std::string r = "b" + std::to_string(row);
        if (row % 3 == 1) r += " and more, so that the text is \"longer\" than a short string";
        return r;
    }

    static bool Row(int vault, int row)
    {
        auto it = E().vaults.find(vault);
        return it != E().vaults.end() && it->second.alive && it->second.rows.count(row);
    }

    static bool Good(int i) { return i >= 0 && i < 10 && E().slots[i].alive; }

    static void Audit()
    {
        for (Slot& s : E().slots)
        {
            if (!s.alive) continue;
            VaultModel& m = E().vaults[s.vault];
            Same("the size of the vault", s.p.v->Size(), m.rows.size());
            Same("the validity of the reference", s.p.r->IsValid(), Row(s.refVault, s.refRow));
            bool parent = s.setVault != 0 && E().vaults[s.setVault].alive;
            Same("the validity of the set's parent", s.p.s->GetIsParentVaultValid(), parent);
            Same("the size of the set", s.p.s->Size(), parent ? s.setRows.size() : 0);
            if (Row(s.refVault, s.refRow))
            {
                int a = -1, u = -1;
                std::string b;
                Same("reading A", s.p.r->GetData("A", a).IsOperationSuccess, true);
                Same("A", a, E().vaults[s.refVault].rows[s.refRow]);
                Same("reading U", s.p.r->GetData("U", u).IsOperationSuccess, true);
                Same("U", u, s.refRow);
                s.p.r->GetData("B", b);
                if (b != Text(s.refRow)) Fail("B", b, Text(s.refRow));
            }
            else
            {
                int a = -1;
                Same("reading through an empty reference", s.p.r->IsKeyExist("A"), false);
                (void)a;
            }
        }
    }

    void Born(int i, const Parts& parts)
    {
        Slot& s = E().slots[i];
        s = Slot();
        s.p = parts;
        // the first object of a run chooses how errors are reported, as a program does
        if (E().nextVault == 1) SetBackTraceFormat(std::getenv("LIFE_TRACE") ? BackTraceFormat::Compact : BackTraceFormat::None);
        s.vault = E().nextVault++;
        E().vaults[s.vault] = VaultModel();
        Same("adding A", parts.v->AddKey("A", 0), true);
        Same("adding U", parts.v->AddUniqueKey<int>("U").IsOperationSuccess, true);
        Same("adding B", parts.v->AddKey("B", std::string("b")), true);
        s.alive = true;
        Run("c" + std::to_string(i));
    }

    static void Gone(Slot& s)
    {
        s.alive = false;
        E().vaults[s.vault].alive = false;
        E().vaults[s.vault].rows.clear();
        for (Slot& o : E().slots) if (o.setVault == s.vault) { o.setVault = 0; o.setRows.clear(); }
    }

    void Dies(int i)
    {
        Run("d" + std::to_string(i));
        Gone(E().slots[i]);
    }

    Host<true> gZero(0);
    Host<false> gOne(1);

    static thread_local int tlThread = 0;        // 0 is main's thread
    static thread_local int tlState = 0;         // 1: made, 2: gone

    struct Local : Host<true>
    {
        Local() : Host<true>(4 + tlThread) {}
        ~Local() { tlState = 2; }
    };

    static void TouchThreadLocal()
    {
        if (tlState) return;
        tlState = 1;
        static thread_local Local local;
    }

    static void TouchStatic()
    {
        static bool once = false;
        if (once) return;
        once = true;
        static Host<false> inFunction(7);
    }

    static bool busy8 = false, busy9 = false;
    static Host<true>* made8 = nullptr;
    static Host<false>* made9 = nullptr;

    static std::string OrderOf(const std::set<int>& rows)
    {
        std::string r;
        for (int x : rows) r += std::to_string(x) + " ";
        return r;
    }

    static std::set<int> RowsOf(const VaultRecordSet& s)
    {
        std::set<int> r;
        s.SortBy("U", [&r](const VaultRecordRef& ref)
        {
            int u = -1;
            ref.GetData("U", u);
            r.insert(u);
            return true;
        });
        return r;
    }

    template <class F>
    static std::set<int> Where(int vault, F f)
    {
        std::set<int> r;
        for (auto& x : E().vaults[vault].rows) if (f(x.second)) r.insert(x.first);
        return r;
    }

    static std::size_t Occurrences(const std::string& text, const std::string& what)
    {
        std::size_t n = 0;
        for (std::size_t p = text.find(what); p != std::string::npos; p = text.find(what, p + what.size())) ++n;
        return n;
    }

    static void Unique(const std::string& id)
    {
        if (!E().ids.insert(id).second) Fail("a new identifier", id, "new");
    }

    static void Asked(Slot& s, int vault, const std::set<int>& want)
    {
        s.setVault = vault;
        s.setRows = want;
        std::set<int> got = RowsOf(*s.p.s);
        if (got != want) Fail("the result of the request", OrderOf(got), OrderOf(want));
    }

    template <class T>
    static void Column(Vault& v, const std::string& key, const T& value) { if (!v.AddKey(key, value)) Fail("adding a column", key, "added"); }

    static std::string Lines(const std::string& text)
    {
        std::vector<std::string> lines(1);
        for (char c : text)
        {
            if (c == '\n') lines.emplace_back();
            else lines.back() += c;
        }
        std::sort(lines.begin(), lines.end());
        std::string r;
        for (const std::string& l : lines) r += l + "\n";
        return r;
    }

    static std::string FileText(const std::string& name)
    {
        std::string r;
        FILE* f = std::fopen(name.c_str(), "rb");
        if (!f) return "no file";
        for (int c; (c = std::fgetc(f)) != EOF;) r += static_cast<char>(c);
        std::fclose(f);
        return r;
    }

    // Everything the library answers about a small vault of its own; nothing in it depends on when it is asked
    static std::string Transcript(int x)
    {
        std::string t;
        auto add = [&t](const char* what, const std::string& text) { t += std::string(what) + ": " + text + "\n"; };
        const std::string longText = "a text \"quoted\", with a comma;\nand a second line " + std::string(static_cast<std::size_t>(x * 7), 'z');
        auto number = [](bool b) { return std::string(b ? "yes" : "no"); };
        Vault v;
        Column(v, "i8", static_cast<std::int8_t>(-x)); Column(v, "u8", static_cast<std::uint8_t>(200 + x)); Column(v, "i16", static_cast<std::int16_t>(-300 * x)); Column(v, "u16", static_cast<std::uint16_t>(60000 + x));
        Column(v, "i32", -100000 * x); Column(v, "u32", 4000000000u + x); Column(v, "i64", static_cast<std::int64_t>(-5000000000ll * x)); Column(v, "u64", static_cast<std::uint64_t>(18446744073709551000ull + x));
        Column(v, "f", 1.5f * x); Column(v, "d", 0.1 * x); Column(v, "b", x % 2 == 0); Column(v, "s", longText);
        add("unique", v.AddUniqueKey<int>("n", [](const std::size_t& counter, const VaultRecordRef&) { return static_cast<int>(counter); }).ResultCodeString());
        add("update", v.UpdateKey("n", 5).ResultCodeString());
        add("json of nothing", v.ToJson());
        VaultRecordRef one, two;
        add("create", v.CreateRecord(one, { {"n", 1} }).ResultCodeString());
        add("json", v.ToJson() + v.ToJson(true, 3, true, "Item", true));
        add("create", v.CreateRecord(two, { {"n", 2}, {"i32", 7}, {"d", -1e100}, {"s", std::string()}, {"b", true} }).ResultCodeString());
        add("again", v.CreateRecord({ {"n", 2} }).ResultCodeString());
        add("no key", v.CreateRecord({ {"nothing", 2} }).ResultCodeString());
        add("wrong", one.SetData("i32", std::string("text")).ResultCodeString());
        add("set", one.SetData("u8", static_cast<std::uint8_t>(x)).ResultCodeString());
        add("record", one.ToJson() + two.ToJson(true, 4));
        for (const std::string& key : v.GetKeys())
        {
            std::string text;
            one.GetDataAsString(key, text);
            std::type_index type = typeid(void);
            add(key.c_str(), text + " " + number(v.GetKeyType(key, type)) + type.name());
        }
        std::vector<std::string> found;
        for (auto& row : v.ToStrings()) { std::string r; for (auto& cell : row) r += cell.first + "=" + cell.second + " "; found.push_back(r); }
        std::sort(found.begin(), found.end());
        for (const std::string& r : found) add("row", r);
        VaultRecordSet a, b;
        add("less", v.RequestLess("n", 2, a).ResultCodeString() + std::to_string(a.Size()));
        add("all", v.Request(VaultRequest<VaultRequestType::GreaterOrEqual>("n", 1) && VaultRequest<VaultRequestType::LessOrEqual>("n", 2), b).ResultCodeString() + std::to_string(b.Size()));
        add("wrong type", v.Request(VaultRequest<VaultRequestType::Equal>("n", 1.0), a).ResultCodeString());
        add("join", b.Join(a).ResultCodeString() + std::to_string(b.Size()));
        add("sub", b.Exclude(a).ResultCodeString() + std::to_string(b.Size()));
        add("same", b.Intersect(b).ResultCodeString());
        {
            std::ostringstream out;
            std::streambuf* old = std::cout.rdbuf(out.rdbuf());
            v.Print(false, -1, "n", x % 2 == 0);
            b.Print(false, 1, "n");
            one.PrintRecord();
            std::cout.rdbuf(old);
            // the numbers of records and vaults are addresses
            std::string text = Lines(out.str());
            std::size_t at = text.find("0x");
            add("printed", at == std::string::npos ? text : text.substr(0, at));
        }
        std::string file = E().dir + "/probe.csv";
        add("saved", number(v.SaveToFile(file, {}, x % 2 ? ";" : ",")) + Lines(FileText(file)));
        Vault w;
        Column(w, "i8", static_cast<std::int8_t>(0)); Column(w, "u16", static_cast<std::uint16_t>(0)); Column(w, "u64", static_cast<std::uint64_t>(0)); Column(w, "i32", 0); Column(w, "f", 0.0f); Column(w, "d", 0.0); Column(w, "b", false); Column(w, "s", std::string());
        add("read", number(w.ReadFile(file, x % 2 ? ';' : ',')) + std::to_string(w.Size()));
        for (auto& error : w.GetErrorsInLastReadedFile()) add("error", std::to_string(error.first) + error.second);
        std::vector<std::string> order;
        w.SortBy("d", [&order](const VaultRecordRef& ref) { order.push_back(ref.ToJson()); return true; });
        for (const std::string& r : order) add("sorted", r);
        for (int code = 0; code <= static_cast<int>(VaultOperationResultCode::Success); ++code)
        {
            VaultOperationResult result;
            result.ResultCode = static_cast<VaultOperationResultCode>(code);
            add("code", result.ResultCodeString());
        }

        add("hex", ToHex(static_cast<std::uint64_t>(x) * 0x123456789abcdefull));
        add("erase", v.EraseRecord("n", 1).ResultCodeString() + number(one.IsValid()) + std::to_string(v.Size()));
        add("key", number(v.RemoveKey("n")) + number(v.IsKeyExist("n")) + two.ToJson());
        v.DropData();
        add("dropped", std::to_string(v.Size()) + number(two.IsValid()) + std::to_string(b.Size()) + two.GetData("i32", x).ResultCodeString());
        return t;
    }

    static void Probe(int x)
    {
        x = std::abs(x) % 7;
        static auto& known = *new std::map<int, std::pair<std::string, std::string>>();
        std::string text = Transcript(x);
        auto it = known.emplace(x, std::make_pair(text, std::string(E().phase))).first;
        const std::string& before = it->second.first;
        if (before == text) return;
        std::size_t k = 0;
        while (k < before.size() && k < text.size() && before[k] == text[k]) ++k;
        k = k < 30 ? 0 : k - 30;
        Fail(("what is answered " + std::string(E().phase) + ", and was answered " + it->second.second).c_str(), text.substr(k, 80), before.substr(k, 80));
    }

    static void Exec(const Op& o)
    {
        Engine& e = E();
        const std::string& n = o.name;
        int i = o.a[0], j = o.a[1], x = o.a[2], y = o.a[3];
        // operations that need no slot
        if (n == "static") return TouchStatic();
        if (n == "local") return TouchThreadLocal();
        if (n == "new8") { if (!made8 && !busy8) { busy8 = true; made8 = new Host<true>(8); busy8 = false; } return; }
        if (n == "new9") { if (!made9 && !busy9) { busy9 = true; made9 = new Host<false>(9); busy9 = false; } return; }
        if (n == "del8") { if (made8 && !busy8) { busy8 = true; delete made8; made8 = nullptr; busy8 = false; } return; }
        if (n == "del9") { if (made9 && !busy9) { busy9 = true; delete made9; made9 = nullptr; busy9 = false; } return; }
        if (n == "thread")
        {
            static bool started[3];
            int t = 1 + i % 2;
            if (started[t]) return;
            started[t] = true;
            std::thread([t]() { tlThread = t; Run("t" + std::to_string(t)); }).join();
            return;
        }
        if (n == "atexit")
        {
            static int registered = 0;
            if (++registered > 5) return;
            if (i % 3 == 0) std::atexit([]() { Run("a0"); });
            else if (i % 3 == 1) std::atexit([]() { Run("a1"); });
            else std::atexit([]() { Run("a2"); });
            return;
        }
        if (n == "exit") { if (!std::strcmp(e.phase, "main")) { e.phase = "late"; std::exit(0); } return; }
        if (n == "probe") { Probe(x); e.count[e.phase]++; e.count["probes"]++; return; }
        if (n == "uuid") { Unique(Uuid()); return; }
        if (!Good(i) || !Good(j)) return;
        Slot& s = e.slots[i];
        Slot& t = e.slots[j];
        VaultModel& m = e.vaults[t.vault];
        if (n == "create")
        {
            int row = e.nextRow++;
            Same("creating", t.p.v->CreateRecord(*s.p.r, { {"A", x}, {"U", row}, {"B", Text(row)} }).IsOperationSuccess, true);
            m.rows[row] = x;
            s.refVault = t.vault; s.refRow = row;
        }
        else if (n == "set")
        {
            bool ok = Row(s.refVault, s.refRow);
            Same("setting A", s.p.r->SetData("A", x).IsOperationSuccess, ok);
            if (ok) e.vaults[s.refVault].rows[s.refRow] = x;
        }
        else if (n == "get")
        {
            int k = 1;
            for (auto& row : m.rows) if (k-- == 0 || row.first % 3 == x % 3)
            {
                Same("getting", t.p.v->GetRecord("U", row.first, *s.p.r).IsOperationSuccess, true);
                s.refVault = t.vault; s.refRow = row.first;
                break;
            }
        }
        else if (n == "less") { Same("asking", t.p.v->RequestLess("A", x, *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x](int v) { return v < x; })); }
        else if (n == "equal") { Same("asking", t.p.v->RequestEqual("A", x, *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x](int v) { return v == x; })); }
        else if (n == "interval") { Same("asking", t.p.v->RequestInterval("A", x, y, *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x, y](int v) { return v >= x && v <= y; })); }
        else if (n == "picked")
        {
            Same("asking", t.p.v->RequestGreaterOrEqual("A", x, *s.p.s, -1, [y](const VaultRecordRef& ref) { int u = 0; ref.GetData("U", u); return u % 2 == y % 2; }).IsOperationSuccess, true);
            std::set<int> want;
            for (int row : Where(t.vault, [x](int v) { return v >= x; })) if (row % 2 == y % 2) want.insert(row);
            Asked(s, t.vault, want);
        }
        else if (n == "or") { Same("asking", t.p.v->Request(VaultRequest<VaultRequestType::Equal>("A", x) || VaultRequest<VaultRequestType::Less>("A", y), *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x, y](int v) { return v == x || v < y; })); }
        else if (n == "and") { Same("asking", t.p.v->Request(VaultRequest<VaultRequestType::Less>("A", x) && VaultRequest<VaultRequestType::LessOrEqual>("A", y), *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x, y](int v) { return v < x && v <= y; })); }
        else if (n == "between") { Same("asking", t.p.v->Request(VaultRequest<VaultRequestType::GreaterOrEqual>("A", x) && VaultRequest<VaultRequestType::Less>("A", y), *s.p.s).IsOperationSuccess, true); Asked(s, t.vault, Where(t.vault, [x, y](int v) { return v >= x && v < y; })); }
        else if (n == "tree")
        {
            auto even = [](const VaultRecordRef& ref) { int u = 0; ref.GetData("U", u); return u % 2 == 0; };
            Same("asking", t.p.v->Request((VaultRequest<VaultRequestType::Greater>("A", x) && VaultRequest<VaultRequestType::GreaterOrEqual>("A", y, even)) || VaultRequest<VaultRequestType::Equal>("U", e.nextRow - 1), *s.p.s).IsOperationSuccess, true);
            std::set<int> want;
            for (auto& row : m.rows) if ((row.second > x && row.second >= y && row.first % 2 == 0) || row.first == e.nextRow - 1) want.insert(row.first);
            Asked(s, t.vault, want);
        }
        else if (n == "inset")
        {
            // a request to the set's own records
            VaultRecordSet sub;
            bool parent = s.setVault != 0;
            bool ok = s.p.s->RequestGreater("A", x, sub).IsOperationSuccess;
            Same("asking the set", ok, parent);
            std::set<int> want;
            if (parent) for (int row : s.setRows) if (e.vaults[s.setVault].rows[row] > x) want.insert(row);
            std::set<int> got = RowsOf(sub);
            if (got != want) Fail("the result of asking the set", OrderOf(got), OrderOf(want));
        }
        else if (n == "copyset") { if (i != j) { *s.p.s = *t.p.s; s.setVault = t.setVault; s.setRows = t.setRows; } }
        else if (n == "copyref") { if (i != j) { *s.p.r = *t.p.r; s.refVault = t.refVault; s.refRow = t.refRow; } }
        else if (n == "resetset") { s.p.s->Reset(); s.setVault = 0; s.setRows.clear(); }
        else if (n == "resetref") { s.p.r->Reset(); s.refVault = s.refRow = 0; }
        else if (n == "addrow")
        {
            if (Row(s.refVault, s.refRow) && s.setVault == s.refVault)
            {
                Same("adding to the set", s.p.s->AddRecord(*s.p.r).IsOperationSuccess, s.setRows.count(s.refRow) == 0);
                s.setRows.insert(s.refRow);
            }
        }
        else if (n == "erase")
        {
            bool ok = Row(s.refVault, s.refRow) && s.refVault == t.vault;
            Same("erasing", t.p.v->EraseRecord(*s.p.r), ok);
            if (ok)
            {
                int row = s.refRow;
                m.rows.erase(row);
                for (Slot& q : e.slots) if (q.setVault == t.vault) q.setRows.erase(row);
            }
        }
        else if (n == "clear")
        {
            t.p.v->DropData();
            m.rows.clear();
            for (Slot& q : e.slots) if (q.setVault == t.vault) q.setRows.clear();
        }
        else if (n == "sort")
        {
            std::vector<int> got, want;
            t.p.v->SortBy("A", [&](const VaultRecordRef& ref) { int a = 0; ref.GetData("A", a); got.push_back(a); return true; });
            for (auto& row : m.rows) want.push_back(row.second);
            std::sort(want.begin(), want.end());
            if (got != want) Fail("the sorted values", std::to_string(got.size()), std::to_string(want.size()));
        }
        else if (n == "json")
        {
            Same("the records in the JSON of the vault", Occurrences(t.p.v->ToJson(), "\"U\":"), m.rows.size());
            Same("the records in the JSON of the set", Occurrences(s.p.s->ToJson(), "\"U\":"), s.setVault ? s.setRows.size() : 0);
            s.p.r->ToJson();
        }
        else if (n == "file")
        {
            std::string name = e.dir + "/f.csv";
            Same("saving", t.p.v->SaveToFile(name), true);
            Vault other;
            other.AddKey("A", -1);
            other.AddUniqueKey<int>("U");
            other.AddKey("B", std::string());
            Same("reading", other.ReadFile(name), true);
            Same("the size of the vault read", other.Size(), m.rows.size());
            for (auto& row : m.rows)
            {
                VaultRecordRef ref;
                int a = -1;
                Same("finding what was saved", other.GetRecord("U", row.first, ref).IsOperationSuccess, true);
                ref.GetData("A", a);
                Same("the value read", a, row.second);
            }
        }
        else if (n == "print") { t.p.v->Print(); s.p.s->Print(); s.p.r->PrintRecord(); }
        else if (n == "id")
        {
            std::string a = s.p.s->GetParentVaultUniqueId();
            if (a != (s.setVault ? s.p.s->GetParentVaultUniqueId() : "null")) Fail("the identifier", a, "null");
            s.p.r->GetRecordUniqueId();
        }
        else if (n == "bad")
        {
            std::string wrong;
            Same("asking for a key that is not there", t.p.v->RequestEqual("nothing", x, *s.p.s).IsOperationSuccess, false);
            e.count["errors"]++;
            // what a failed request leaves in the set is not the business of this property
            s.p.s->Reset();
            s.setVault = 0;
            s.setRows.clear();
        }
        else if (n == "wrong") { std::string text; Same("reading A as text", s.p.r->GetData("A", text).IsOperationSuccess, false); e.count["errors"]++; }
        else { std::fprintf(stderr, "unknown operation %s\n", n.c_str()); _exit(3); }
        e.count[e.phase]++;
        Audit();
    }

    static void Run(const std::string& segment)
    {
        Engine& e = E();
        auto it = e.script.find(segment);
        if (it == e.script.end()) return;
        std::string outer = e.segment;
        int outerStep = e.step;
        for (std::size_t k = 0; k < it->second.size(); ++k)
        {
            e.segment = segment;
            e.step = static_cast<int>(k);
            Exec(it->second[k]);
        }
        e.segment = outer;
        e.step = outerStep;
    }

    // runs after everything else
    __attribute__((destructor)) static void Count()
    {
        const char* path = std::getenv("LIFE_STAT");
        FILE* f = path ? std::fopen(path, "w") : nullptr;
        if (!f) return;
        for (auto& x : E().count) std::fprintf(f, "%s %d\n", x.first.c_str(), x.second);
        std::fprintf(f, "end 1\n");
        std::fclose(f);
    }
}

int main()
{
    life::E().phase = "main";
    life::Run("m");
    life::E().phase = "late";
    return 0;
}
