// Typed columns for the text harnesses (CSV, JSON, printing): generation of values, an independent rendering of
// them as text and an independent reading of text.
#pragma once
#include <any>
#include <climits>
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include "MVault.h"
#include "../engine/pbt.h"
#include "props.h"

using Res = mvlt::VaultOperationResult;
using Code = mvlt::VaultOperationResultCode;
using Ref = mvlt::VaultRecordRef;

// A custom type with text conversions.
struct Color
{
    int v = 0;
    bool operator==(const Color& o) const { return v == o.v; }
    bool operator<(const Color& o) const { return v < o.v; }
};
// A custom type without them.
struct Opaque
{
    int v = 0;
    bool operator==(const Opaque& o) const { return v == o.v; }
    bool operator<(const Opaque& o) const { return v < o.v; }
};
namespace std
{
    template <> struct hash<Color> { size_t operator()(const Color& c) const noexcept { return static_cast<size_t>(c.v & 3); } };
    template <> struct hash<Opaque> { size_t operator()(const Opaque& c) const noexcept { return static_cast<size_t>(c.v & 3); } };
}
namespace mvlt
{
    template <> inline std::string ToString(const Color& c) noexcept { return "rgb(\"" + std::to_string(c.v) + "\",0)"; }
    template <> inline bool FromString(const std::string& s, Color& c) noexcept
    {
        int n = 0, v = 0;
        if (sscanf(s.c_str(), "rgb(\"%d\",0)%n", &v, &n) != 1 || static_cast<size_t>(n) != s.size()) return false;
        c.v = v;
        return true;
    }
}

enum class JsonKind { Number, Bool, Text };

class IoType
{
public:
    virtual ~IoType() = default;
    virtual const char* name() const = 0;
    virtual JsonKind json() const = 0;
    virtual std::any zero() const = 0;                                   // T{}
    virtual std::any gen(pbt::Src& s) const = 0;
    virtual std::string text(const std::any& v) const = 0;               // what ToString must give
    virtual std::optional<std::any> parse(const std::string& s) const = 0;   // what FromString must give
    virtual bool same(const std::any& a, const std::any& b) const = 0;
    virtual bool less(const std::any& a, const std::any& b) const = 0;
    virtual bool addKey(mvlt::Vault& v, const std::string& key, const std::any& def) const = 0;
    virtual Res addUnique(mvlt::Vault& v, const std::string& key) const = 0;
    virtual mvlt::VaultParamInput param(const std::any& v) const = 0;
    virtual std::optional<std::any> get(const Ref& r, const std::string& key) const = 0;
    virtual std::size_t lookup(const mvlt::Vault& v, const std::string& key, const std::any& val) const = 0;
    // ToString / FromString themselves
    virtual std::string realText(const std::any& v) const = 0;
    virtual std::string realJson(const std::any& v, bool saver) const = 0;   // saver: through a DataSaver
    virtual std::pair<bool, std::any> realParse(const std::string& s, const std::any& initial) const = 0;
};

const std::vector<const IoType*>& IoTypes();            // every type, the arithmetic ones first
std::string GenText(pbt::Src& s);                       // arbitrary text
std::string NumText(pbt::Src& s);                       // text that is nearly a number
std::string ScratchFile(const char* tag);               // a file name private to this process
void WriteFile(const std::string& name, const std::string& content);
std::string ReadWhole(const std::string& name);
