// P20 CSV round trip, P21 CSV reader, P22 loading rules.  Built with MVAULT_VERIF, which shrinks the limits from
// which a file is read in blocks, so that both the whole-file and the block path are exercised by small files.
#include "table.h"
#include "CsvParser/CsvParser.h"
#include <algorithm>
#include <set>

using pbt::Src;
using Handler = std::function<void(const std::vector<std::string>& keys, std::vector<std::string>& values)>;

namespace
{
    // Reference reader of well-formed CSV (RFC 4180 with LF also accepted as a line end).
    bool RefParse(const std::string& c, char sep, Records& out)
    {
        out.clear();
        std::size_t i = 0;
        while (i < c.size())
        {
            std::vector<std::string> rec;
            for (;;)
            {
                std::string f;
                if (i < c.size() && c[i] == '"')
                {
                    for (++i;;)
                    {
                        if (i >= c.size()) return false;
                        if (c[i] == '"')
                        {
                            if (i + 1 < c.size() && c[i + 1] == '"') { f += '"'; i += 2; continue; }
                            ++i;
                            break;
                        }
                        f += c[i++];
                    }
                }
                else
                    while (i < c.size() && c[i] != sep && c[i] != '\r' && c[i] != '\n')
                    {
                        if (c[i] == '"') return false;
                        f += c[i++];
                    }
                rec.push_back(f);
                if (i >= c.size()) break;
                if (c[i] == sep) { ++i; continue; }
                if (c[i] == '\r') ++i;
                if (i < c.size() && c[i] == '\n') { ++i; break; }
                return false;
            }
            out.push_back(rec);
        }
        return true;
    }

    const std::vector<std::string> Separators = {",", ";", "\t", "|", " ", ":", "a", "0", "-", ".", "'", "\\", "e", "\x01", "\xff"};

    void RoundTrip(Src& s)
    {
        const uint64_t tag = P(20);
        pbt::SetOpTags(tag);
        Table t;
        GenColumns(s, t, 5, false, true);
        mvlt::Vault a;
        MakeVault(t, Iota(t.cols.size()), a);
        std::vector<Ref> refs;
        while (s.some(static_cast<unsigned>(t.rows.size()), 12, 4)) GenRow(s, t, &refs, a);
        Crowd(s, t, &refs, a);
        Age(s, t, refs, a, tag);
        while (s.chance(1, 6)) GenRow(s, t, &refs, a);

        // what is saved
        std::vector<std::size_t> rows = Iota(t.rows.size());
        std::vector<std::size_t> file = Iota(t.cols.size());
        bool explicitKeys = s.chance(1, 3);
        if (explicitKeys)
        {
            file = Shuffled(s, file);
            if (t.rows.size() > 1)
            {
                // unique keys stay in, or the rows could not all be loaded
                std::vector<std::size_t> keep;
                for (std::size_t c : file) if (t.cols[c].uniq || !s.chance(1, 3)) keep.push_back(c);
                if (keep.empty()) keep.push_back(file[0]);
                file = keep;
            }
        }
        bool header = !s.chance(1, 3);
        std::string sep = s.flip() ? "," : s.pick(Separators);
        std::vector<std::string> keys;
        for (std::size_t c : file) keys.push_back(t.cols[c].name);
        std::string name = ScratchFile("csv");
        if (s.chance(1, 8)) WriteFile(name, std::string(s.draw(300), 'z'));     // what was there before must go
        bool fromSet = s.chance(1, 3), saved;
        if (fromSet)
        {
            mvlt::VaultRecordSet set;
            a.RequestEqual("no such key", 0, set);
            rows.clear();
            for (std::size_t i = 0; i < refs.size(); ++i)
                if (!s.chance(1, 3))
                {
                    Res r = set.AddRecord(refs[i]);
                    PBT_CHECK(P(16), r.IsOperationSuccess, "the record could not be added to the set");
                    rows.push_back(i);
                }
            saved = explicitKeys ? set.SaveToFile(name, keys, sep, header) : set.SaveToFile(name, {}, sep, header);
            pbt::Mark("from-set");
        }
        else if (sep == "," && header) saved = explicitKeys ? a.SaveToFile(name, keys) : a.SaveToFile(name);
        else saved = explicitKeys ? a.SaveToFile(name, keys, sep, header) : a.SaveToFile(name, {}, sep, header);
        PBT_CHECK(tag, saved, "saving failed");
        std::string content = ReadWhole(name);
        pbt::Log("separator '%s', %s, %zu columns, %zu rows%s -> '%s'", pbt::Show(sep).c_str(), header ? "header" : "no header", file.size(), rows.size(),
            fromSet ? " of a set" : "", pbt::Show(content).c_str());

        // the file is well-formed CSV with exactly these rows
        Records parsed, want;
        PBT_CHECK(tag, RefParse(content, sep[0], parsed), "the file is not well-formed CSV: '%s'", pbt::Show(content).c_str());
        for (std::size_t i : rows) want.push_back(t.textRow(i, file));
        if (header)
        {
            PBT_CHECK(tag, !parsed.empty() && parsed[0] == keys, "the first line of the file is not the list of keys: '%s'", pbt::Show(content).c_str());
            parsed.erase(parsed.begin());
        }
        std::sort(parsed.begin(), parsed.end());
        std::sort(want.begin(), want.end());
        PBT_CHECK(tag, parsed == want, "the file holds the rows\n  %s\nexpected\n  %s", ShowRows(parsed).c_str(), ShowRows(want).c_str());

        // and loads into an equal vault
        mvlt::Vault b;
        bool passKeys = !header && (explicitKeys || s.flip());
        bool sameOrder = !header && !passKeys;
        MakeVault(t, sameOrder ? Iota(t.cols.size()) : Shuffled(s, Iota(t.cols.size())), b);
        std::vector<std::vector<Cell>> expected;
        for (std::size_t i : rows)
        {
            std::vector<Cell> r;
            for (std::size_t c = 0; c < t.cols.size(); ++c)
            {
                bool in = std::find(file.begin(), file.end(), c) != file.end();
                r.push_back(in ? *t.cols[c].t->parse(t.cols[c].t->text(t.rows[i][c])) : t.cols[c].def);
            }
            expected.push_back(r);
        }
        bool loaded;
        if (header && sep == "," && s.flip()) loaded = b.ReadFile(name);
        else if (header) loaded = s.chance(1, 4) ? b.ReadFile(name, sep[0], Handler([](const std::vector<std::string>&, std::vector<std::string>&) {})) : b.ReadFile(name, sep[0]);
        else loaded = passKeys ? b.ReadFile(name, sep[0], false, keys) : b.ReadFile(name, sep[0], false);
        unlink(name.c_str());
        PBT_CHECK(tag, loaded, "loading failed");
        auto errors = b.GetErrorsInLastReadedFile();
        PBT_CHECK(tag, errors.empty(), "loading the saved file reports an error in line %zu, key '%s'; file '%s'", errors[0].first, pbt::Show(errors[0].second).c_str(), pbt::Show(content).c_str());
        CheckVault(b, t, expected, tag);
        CheckVault(a, t, t.rows, tag);
        if (!rows.empty()) pbt::Mark("rows");
        if (content.find('"') != std::string::npos) pbt::Mark("quoting");
        if (content.size() > 64) pbt::Mark("block-path");
        if (s.chance(1, 20))
        {
            mvlt::Vault none;
            for (uint64_t n = s.draw(3); n > 0; --n) none.CreateRecord({});
            PBT_CHECK(tag, none.SaveToFile(name, {}, sep, header), "saving a vault without keys fails");
            content = ReadWhole(name);
            unlink(name.c_str());
            PBT_CHECK(tag, content.find_first_not_of("\r\n") == std::string::npos, "a vault without keys is saved as '%s'", pbt::Show(content).c_str());
            PBT_CHECK(tag, !a.SaveToFile("/nonexistent-dir/x"), "saving to an impossible path succeeds");
            PBT_CHECK(tag, !b.ReadFile("/nonexistent-dir/x"), "loading a missing file succeeds");
            CheckVault(b, t, expected, tag);
        }
    }

    // ---------------------------------------------------------------- P21
    std::string EncodeField(Src& s, const std::string& f, char sep, bool force)
    {
        bool need = force || f.find_first_of(std::string("\"\r\n") + sep) != std::string::npos;
        if (!need && !s.chance(1, 4)) return f;
        std::string r = "\"";
        for (char c : f) { r += c; if (c == '"') r += c; }
        return r + "\"";
    }

    void Tokenizer(Src& s)
    {
        const uint64_t tag = P(21);
        pbt::SetOpTags(tag);
        char sep = s.chance(1, 3) ? s.pick(Separators)[0] : ',';
        std::string name = ScratchFile("tok");
        if (s.chance(1, 4))
        {
            // arbitrary bytes: the reader terminates, its position only grows, every byte is seen once
            std::string c;
            for (uint64_t n = s.draw(150); n > 0; --n) c += s.chance(2, 3) ? s.pick(std::vector<char>{'"', ',', '\n', '\r', 'a', 'b', ' ', '\0'}) : static_cast<char>(s.draw(256));
            WriteFile(name, c);
            pbt::Log("bytes '%s'", pbt::Show(c).c_str());
            mvlt::StreamFileReader r;
            mvlt::CsvParser p;
            PBT_CHECK(tag, !r.IsOpen(), "a new reader is open");
            for (uint64_t k = s.draw(3); k > 0; --k)
            {
                // the reader was used for another file before, and left somewhere in it, closed or not
                std::string before(s.draw(150), 'z'), other = ScratchFile("before");
                if (before.size() > 3) before[before.size() / 2] = '\n';
                bool there = !s.chance(1, 5);
                if (there) WriteFile(other, before);
                PBT_CHECK(tag, r.Open(other) == there, "Open of %s file gives %d", there ? "a" : "no", !there);
                for (uint64_t i = s.draw(before.size() + 3); i > 0; --i) r.Move();
                if (s.flip()) r.Close();
                PBT_CHECK(tag, p.OpenFile(other) == there, "OpenFile of %s file gives %d", there ? "a" : "no", !there);
                std::vector<std::string> rec;
                for (uint64_t i = s.draw(4); i > 0; --i) p.GetNextVector(rec, sep);
                if (!there) PBT_CHECK(tag, !r.IsOpen() && r.GetFileSize() == 0 && !p.GetNextVector(rec, sep) && rec.empty(), "a reader of no file still has the file before");
                unlink(other.c_str());
                pbt::Mark("reader-used-again");
            }
            PBT_CHECK(tag, r.Open(name) && r.IsOpen(), "the file cannot be opened");
            PBT_CHECK(tag, r.GetFileSize() == c.size(), "size %zu, expected %zu", r.GetFileSize(), c.size());
            if (c.empty()) PBT_CHECK(tag, r.GetCurrentPos() == 0, "position %zu in an empty file", r.GetCurrentPos());
            for (std::size_t i = 0; i < c.size(); ++i)
            {
                PBT_CHECK(tag, r.GetCurrentPos() == i, "position %zu, expected %zu", r.GetCurrentPos(), i);
                PBT_CHECK(tag, r.GetChar() == c[i], "byte %zu of %zu is %d, expected %d", i, c.size(), r.GetChar(), c[i]);
                if (i + 1 < c.size()) PBT_CHECK(tag, r.GetNextChar() == c[i + 1], "byte after %zu of %zu is %d, expected %d", i, c.size(), r.GetNextChar(), c[i + 1]);
                PBT_CHECK(tag, r.Move(), "cannot move from byte %zu of %zu", i, c.size());
            }
            for (uint64_t n = s.draw(20); n > 0; --n) PBT_CHECK(tag, !r.Move(), "moves beyond the end of %zu bytes", c.size());
            PBT_CHECK(tag, p.OpenFile(name), "the file cannot be opened");
            std::vector<std::string> rec;
            std::size_t n = 0, total = 0;
            while (p.GetNextVector(rec, sep))
            {
                ++n;
                for (auto& f : rec) total += f.size();
                PBT_CHECK(tag, n <= c.size() + 1 && total <= c.size(), "%zu records with %zu bytes out of a file of %zu bytes", n, total, c.size());
            }
            PBT_CHECK(tag, !p.GetNextVector(rec, sep) && rec.empty(), "a finished reader gives another record");
            unlink(name.c_str());
            pbt::Mark("arbitrary-bytes");
            if (c.size() > 64) pbt::Mark("block-path");
            return;
        }
        Records want;
        std::string c;
        bool quoted = false, last = true;
        while (s.some(static_cast<unsigned>(want.size()), 14, 5))
        {
            std::vector<std::string> rec;
            for (uint64_t n = s.draw(6); n > 0; --n) rec.push_back(GenText(s));
            // a record without fields is a blank line
            for (std::size_t i = 0; i < rec.size(); ++i)
            {
                std::string e = EncodeField(s, rec[i], sep, rec.size() == 1 && rec[i].empty());
                if (e.size() > rec[i].size()) quoted = true;
                c += (i ? std::string(1, sep) : "") + e;
            }
            want.push_back(rec);
            last = true;
            c += s.flip() ? "\r\n" : "\n";
        }
        // the last line end is optional
        if (!want.empty() && !want.back().empty() && s.flip())
        {
            c.pop_back();
            if (!c.empty() && c.back() == '\r') c.pop_back();
            last = false;
        }
        WriteFile(name, c);
        pbt::Log("separator '%s' file '%s'", pbt::Show(std::string(1, sep)).c_str(), pbt::Show(c).c_str());
        mvlt::CsvParser p;
        if (s.chance(1, 4))
        {
            std::string other = ScratchFile("before");
            WriteFile(other, "a,\"b\nc" + std::string(s.draw(100), 'd'));
            PBT_CHECK(tag, p.OpenFile(other), "the file before cannot be opened");
            std::vector<std::string> before;
            if (s.flip()) p.GetNextVector(before, sep);
            unlink(other.c_str());
            pbt::Mark("reader-used-again");
        }
        PBT_CHECK(tag, p.OpenFile(name), "the file cannot be opened");
        unlink(name.c_str());
        std::vector<std::string> rec{"stale"};
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            PBT_CHECK(tag, p.GetNextVector(rec, sep), "record %zu of %zu is missing; file '%s'", i, want.size(), pbt::Show(c).c_str());
            PBT_CHECK(tag, rec == want[i], "record %zu is %s, expected %s; file '%s'", i, ShowRow(rec).c_str(), ShowRow(want[i]).c_str(), pbt::Show(c).c_str());
        }
        PBT_CHECK(tag, !p.GetNextVector(rec, sep), "the reader gives the record %s after the last one; file '%s'", ShowRow(rec).c_str(), pbt::Show(c).c_str());
        if (quoted) pbt::Mark("quoting");
        if (c.size() > 64) pbt::Mark("block-path");
        if (!last) pbt::Mark("no-final-line-end");
    }

    // ---------------------------------------------------------------- P22
    void Loading(Src& s)
    {
        const uint64_t tag = P(22);
        pbt::SetOpTags(tag);
        Table t;
        GenColumns(s, t, 4, true, false);
        mvlt::Vault v;
        MakeVault(t, Iota(t.cols.size()), v);
        std::vector<Ref> refs;
        for (uint64_t n = s.draw(3); n > 0; --n) GenRow(s, t, &refs, v);
        std::vector<std::vector<Cell>> model = t.rows;
        std::string name = ScratchFile("load");

        for (int round = 0; round < (s.chance(1, 3) ? 2 : 1); ++round)
        {
            char sep = s.chance(1, 4) ? ';' : ',';
            // header: key | no header, all keys | no header, given keys
            unsigned mode = static_cast<unsigned>(s.weighted({3, 2, 2}));
            std::vector<std::size_t> names = Iota(t.cols.size());
            std::vector<std::string> cols;
            if (mode != 1)
            {
                names = Shuffled(s, names);
                for (std::size_t c : names)
                {
                    if (s.chance(1, 6)) continue;
                    cols.push_back(t.cols[c].name);
                }
                if (s.chance(1, 8)) cols.insert(cols.begin() + static_cast<std::ptrdiff_t>(s.draw(cols.size() + 1)), "unknown");
                if (s.chance(1, 10) && !cols.empty()) cols.push_back(s.pick(cols));      // a repeated column: the later one counts
                if (cols.empty() && !t.cols.empty() && !s.chance(1, 4)) cols.push_back(t.cols[0].name);
                if (cols.empty() && mode == 2) mode = 1;
            }
            if (mode == 1) cols.clear();
            if (mode == 1)
                for (auto& c : t.cols) cols.push_back(c.name);

            bool handler = mode == 0 && s.chance(1, 4);
            std::string content;
            auto put = [&](const std::vector<std::string>& rec)
            {
                for (std::size_t i = 0; i < rec.size(); ++i)
                    content += (i ? std::string(1, sep) : "") + EncodeField(s, rec[i], sep, rec.size() == 1 && rec[i].empty());
                content += s.flip() ? "\r\n" : "\n";
            };
            if (mode == 0) put(cols);
            Records rows;
            unsigned n = 0;
            std::vector<std::pair<std::size_t, std::set<std::string>>> errors;
            while (s.some(n++, 10, 4))
            {
                std::vector<std::string> rec;
                std::size_t width = cols.size();
                if (s.chance(1, 5)) width = s.draw(cols.size() + 3);
                for (std::size_t i = 0; i < width; ++i)
                {
                    const IoType* ty = i < cols.size() ? nullptr : IoTypes()[0];
                    for (auto& c : t.cols) if (i < cols.size() && c.name == cols[i]) ty = c.t;
                    if (!ty) ty = IoTypes()[0];
                    switch (s.weighted({8, 1, 1}))
                    {
                    case 0: rec.push_back(ty->text(ty->gen(s))); break;
                    case 1: rec.push_back(NumText(s)); break;
                    default: rec.push_back(GenText(s)); break;
                    }
                }
                put(rec);
                rows.push_back(rec);
            }
            if (s.chance(1, 300))
            {
                // line numbers beyond one and two bytes
                std::size_t more = (!handler && s.chance(1, 8) ? 65536 : 256) + s.draw(4);
                rows.insert(rows.begin(), more, {});
                std::size_t at = mode == 0 ? content.find('\n') + 1 : 0;
                bool quotedBreak = false;
                for (auto& k : cols) quotedBreak = quotedBreak || k.find('\n') != std::string::npos;
                if (mode == 0 && quotedBreak) rows.erase(rows.begin(), rows.begin() + static_cast<long>(more));
                else { content.insert(at, more, '\n'); pbt::Log("%zu blank lines come first", more); pbt::Mark("many-lines"); }
            }
            WriteFile(name, content);
            pbt::Log("%s, separator '%c'%s, file '%s'", mode == 0 ? "header" : mode == 1 ? "no header" : "given keys", sep, handler ? ", handler" : "", pbt::Show(content).c_str());

            // the model
            std::size_t handled = 0;
            for (std::size_t i = 0; i < rows.size(); ++i)
            {
                std::vector<std::string> rec = rows[i];
                if (handler) { if (rec.size() > 1) rec.pop_back(); if (!rec.empty() && i % 3 == 1) rec[0] = "1"; if (i % 4 == 3) rec.push_back("2"); }
                if (rec.empty() || cols.empty()) { pbt::Mark("blank-line"); continue; }
                std::vector<Cell> row;
                for (auto& c : t.cols) row.push_back(c.def);
                bool ok = true;
                for (std::size_t k = 0; ok && k < rec.size() && k < cols.size(); ++k)
                {
                    std::size_t ci = t.cols.size();
                    for (std::size_t c = 0; c < t.cols.size(); ++c) if (t.cols[c].name == cols[k]) ci = c;
                    std::optional<std::any> val;
                    if (ci < t.cols.size()) val = t.cols[ci].t->parse(rec[k]);
                    if (!val)
                    {
                        ok = false;
                        errors.push_back({i + (mode == 0 ? 2 : 1), {cols[k]}});
                        pbt::Mark("bad-field");
                    }
                    else row[ci] = *val;
                }
                if (!ok) continue;
                if (rec.size() > cols.size()) pbt::Mark("long-row");
                if (rec.size() < cols.size()) pbt::Mark("short-row");
                std::set<std::string> clash;
                for (std::size_t c = 0; c < t.cols.size(); ++c)
                    if (t.cols[c].uniq)
                        for (auto& o : model) if (t.cols[c].t->same(o[c], row[c])) clash.insert(t.cols[c].name);
                if (!clash.empty())
                {
                    errors.push_back({i + 1, clash});
                    pbt::Mark("unique-clash");
                    continue;
                }
                model.push_back(row);
                pbt::Mark("row-loaded");
            }
            bool ok;
            std::string wrong;
            if (handler)
                ok = v.ReadFile(name, sep, Handler([&](const std::vector<std::string>& keys, std::vector<std::string>& values)
                {
                    // no exceptions here: ReadFile is noexcept
                    if (keys != cols) wrong = "the handler gets the keys " + ShowRow(keys);
                    if (handled >= rows.size() || values != rows[handled]) wrong = "the handler gets the row " + ShowRow(values) + " as number " + std::to_string(handled);
                    std::size_t i = handled++;
                    if (values.size() > 1) values.pop_back();
                    if (!values.empty() && i % 3 == 1) values[0] = "1";
                    if (i % 4 == 3) values.push_back("2");
                }));
            else if (mode == 0) ok = v.ReadFile(name, sep);
            else if (mode == 1) ok = v.ReadFile(name, sep, false);
            else ok = v.ReadFile(name, sep, false, cols);
            unlink(name.c_str());
            PBT_CHECK(tag, ok, "loading fails");
            PBT_CHECK(tag, wrong.empty(), "%s", wrong.c_str());
            if (handler) PBT_CHECK(tag, handled == rows.size(), "the handler is called for %zu of %zu rows", handled, rows.size());
            CheckVault(v, t, model, tag);
            auto got = v.GetErrorsInLastReadedFile();
            for (auto& e : got) pbt::Log("  error: line %zu key '%s'", e.first, e.second.c_str());
            PBT_CHECK(tag, got.size() == errors.size(), "%zu errors are reported, expected %zu", got.size(), errors.size());
            for (std::size_t i = 0; i < got.size(); ++i)
                PBT_CHECK(tag, got[i].first == errors[i].first && errors[i].second.count(got[i].second), "error %zu is reported for line %zu, key '%s'; expected line %zu, key '%s'",
                    i, got[i].first, pbt::Show(got[i].second).c_str(), errors[i].first, pbt::Show(*errors[i].second.begin()).c_str());
            if (content.size() > 64) pbt::Mark("block-path");
        }
        for (auto& r : refs) PBT_CHECK(tag, r.IsValid(), "loading invalidates a reference");
        if (s.chance(1, 10))
        {
            PBT_CHECK(tag, !v.ReadFile("/nonexistent-dir/x"), "loading a missing file succeeds");
            PBT_CHECK(tag, v.GetErrorsInLastReadedFile().empty(), "a missing file leaves the errors of the previous one");
            CheckVault(v, t, model, tag);
        }
    }
}

void FilesLeft(pbt::Src& s);

int main(int argc, char** argv)
{
    return pbt::Main(argc, argv, {
        {"P20", P(20), RoundTrip, {"rows"}, "at least one row is saved and loaded", 100000, 1500000},
        {"P21", P(21), Tokenizer, {"quoting|block-path|arbitrary-bytes"}, "the file uses quoting, is read in blocks or is arbitrary bytes", 400000, 3000000},
        {"P41", P(41), FilesLeft, {"saved-over|save-cut", "loaded|handler|parsed|read"}, "a file that was there is replaced or a save is cut off, and a file is read", 80000, 1500000},
        {"P22", P(22), Loading, {"row-loaded", "bad-field|unique-clash|blank-line|long-row|short-row"}, "the file has a row that is loaded and a row that is irregular or rejected", 120000, 1500000},
    });
}
