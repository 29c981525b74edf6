#include "io_types.h"
#include <fstream>
#include <sstream>
#include <unistd.h>

using pbt::Src;

std::string ScratchFile(const char* tag)
{
    const char* d = getenv("PBT_SCRATCH");
    return std::string(d ? d : "/tmp") + "/f" + tag + std::to_string(getpid());
}

void WriteFile(const std::string& name, const std::string& content)
{
    std::ofstream f(name, std::ios::binary | std::ios::trunc);
    f.write(content.data(), static_cast<std::streamsize>(content.size()));
    f.close();
    if (!f) { perror("scratch file"); abort(); }
}

std::string ReadWhole(const std::string& name)
{
    std::ifstream f(name, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

std::string GenText(Src& s)
{
    static const std::vector<std::string> pieces = {"a", "", "b", ",", "\"", "\n", "\r", "\r\n", ";", "\t", " ", "|", "\"\"", "x,y", "0", "-1", "true",
        "\\", "/", "\\n", "{", "}", "[", "]", ":", "'", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\b", "\f", "null", "long text that is not stored inline"};
    std::string r;
    switch (s.weighted({3, 2, 1}))
    {
    case 0:
        for (uint64_t n = s.draw(3); n > 0; --n) r += s.pick(pieces);
        break;
    case 1:
        for (uint64_t n = s.draw(8); n > 0; --n) r += s.pick(pieces);
        break;
    default:
        for (uint64_t n = s.draw(40); n > 0; --n) r += static_cast<char>('a' + s.draw(256));
        // longer than a byte or two bytes count
        if (s.chance(1, 60))
        {
            std::size_t n = (s.chance(1, 30) ? 65535 : 255) + s.draw(4);
            std::string unit = s.flip() || r.empty() ? s.pick(pieces) + "k" : r;
            for (r.clear(); r.size() < n; ) r += unit;
            r.resize(n);
        }
    }
    return r;
}

std::string NumText(Src& s)
{
    std::string r;
    auto digits = [&](uint64_t n) { for (; n > 0; --n) r += static_cast<char>('0' + s.draw(10)); };
    if (s.chance(1, 3)) r += "-";
    switch (s.weighted({3, 3, 2, 1}))
    {
    case 0: digits(s.draw(4)); break;
    case 1: digits(s.draw(25)); break;
    case 2:
    {
        // around the limits of some type, written exactly
        static const std::vector<unsigned> bits = {7, 8, 15, 16, 31, 32, 63, 64};
        unsigned __int128 v = static_cast<unsigned __int128>(1) << s.pick(bits);
        int64_t d = s.range(-3, 3);
        v += static_cast<unsigned __int128>(static_cast<__int128>(d));
        std::string t;
        while (v) { t += static_cast<char>('0' + static_cast<int>(v % 10)); v /= 10; }
        r.append(t.rbegin(), t.rend());
        break;
    }
    default: digits(s.draw(60)); r.insert(r.size() > 0 && r[0] == '-' ? 1 : 0, std::string(s.draw(4), '0')); break;
    }
    if (s.chance(1, 3)) { r += "."; digits(s.draw(12)); }
    if (s.chance(1, 6))
    {
        static const std::vector<std::string> bad = {" ", "+", "-", ".", "e5", "x", "nan", "inf", "/", ":", "0x1", "\n", "\xff", "f", "1.5"};
        r.insert(s.draw(r.size() + 1), s.pick(bad));
    }
    return r;
}

namespace
{
    template <class T> struct Base : IoType
    {
        const char* Name;
        JsonKind Json;
        Base(const char* n, JsonKind j) : Name(n), Json(j) {}
        static const T& of(const std::any& v) { return *std::any_cast<T>(&v); }
        const char* name() const override { return Name; }
        JsonKind json() const override { return Json; }
        std::any zero() const override { return T{}; }
        bool same(const std::any& a, const std::any& b) const override { return of(a) == of(b); }
        bool less(const std::any& a, const std::any& b) const override { return of(a) < of(b); }
        bool addKey(mvlt::Vault& v, const std::string& key, const std::any& def) const override { return v.AddKey(key, of(def)); }
        Res addUnique(mvlt::Vault& v, const std::string& key) const override { return v.AddUniqueKey<T>(key); }
        mvlt::VaultParamInput param(const std::any& v) const override { std::unique_ptr<T> x(new T(of(v))); return mvlt::VaultParamInput(*x); }
        std::optional<std::any> get(const Ref& r, const std::string& key) const override
        {
            T t{};
            if (!r.GetData(key, t).IsOperationSuccess) return std::nullopt;
            return std::any(t);
        }
        std::size_t lookup(const mvlt::Vault& v, const std::string& key, const std::any& val) const override
        {
            std::vector<Ref> refs;
            v.GetRecords(key, of(val), refs);
            return refs.size();
        }
        std::string realText(const std::any& v) const override { return mvlt::ToString(of(v)); }
        std::string realJson(const std::any& v, bool saver) const override { return saver ? mvlt::ToJson(mvlt::DataSaver(of(v))) : mvlt::ToJson(of(v)); }
        std::pair<bool, std::any> realParse(const std::string& s, const std::any& initial) const override
        {
            T t = of(initial);
            bool ok = mvlt::FromString(s, t);
            return {ok, std::any(t)};
        }
    };

    template <class T> struct IntType : Base<T>
    {
        explicit IntType(const char* n) : Base<T>(n, JsonKind::Number) {}
        std::any gen(Src& s) const override
        {
            using L = std::numeric_limits<T>;
            switch (s.weighted({4, 2, 2, 1}))
            {
            case 0: return static_cast<T>(s.draw(6));
            case 1: return static_cast<T>(s.range(-5, 5));
            case 2: return static_cast<T>(s.flip() ? L::max() - static_cast<T>(s.draw(3)) : L::min() + static_cast<T>(s.draw(3)));
            default: return static_cast<T>(s.draw(~uint64_t(0)));
            }
        }
        std::string text(const std::any& v) const override
        {
            __int128 x = Base<T>::of(v);
            bool neg = x < 0;
            if (neg) x = -x;
            std::string t;
            do { t += static_cast<char>('0' + static_cast<int>(x % 10)); x /= 10; } while (x);
            if (neg) t += '-';
            return std::string(t.rbegin(), t.rend());
        }
        std::optional<std::any> parse(const std::string& s) const override
        {
            std::size_t i = 0;
            bool neg = false;
            if (std::numeric_limits<T>::is_signed && !s.empty() && s[0] == '-') { neg = true; i = 1; }
            if (i == s.size()) return std::nullopt;
            __int128 v = 0;
            for (; i < s.size(); ++i)
            {
                if (s[i] < '0' || s[i] > '9') return std::nullopt;
                v = v * 10 + (s[i] - '0');
                if (v > (static_cast<__int128>(1) << 70)) v = static_cast<__int128>(1) << 70;
            }
            if (neg) v = -v;
            if (v > static_cast<__int128>(std::numeric_limits<T>::max()) || v < static_cast<__int128>(std::numeric_limits<T>::min())) return std::nullopt;
            return std::any(static_cast<T>(v));
        }
    };

    template <class T> struct FloatType : Base<T>
    {
        explicit FloatType(const char* n) : Base<T>(n, JsonKind::Number) {}
        std::any gen(Src& s) const override
        {
            switch (s.weighted({4, 2, 2, 2, 1, 1}))
            {
            case 0: return static_cast<T>(s.draw(6));
            case 1: return static_cast<T>(s.range(-20, 20)) / 4;
            case 2: return static_cast<T>(s.range(-1000000, 1000000)) / 1000;
            case 3:
            {
                static const std::vector<double> v = {2147483647.0, 2147483648.0, -2147483649.0, 4294967296.5, 1e10, -1e15, 123456789.987654, 1e18, 9007199254740993.0, 3e38, 0.000001, 0.0000004, -0.0000006, 16777217.0, 0.1, 0.2, 0.3, -1.2};
                return static_cast<T>(s.pick(v));
            }
            case 4: return static_cast<T>(static_cast<double>(s.draw(~uint64_t(0))) / static_cast<double>(1 + s.draw(1000000)));
            default: return static_cast<T>(std::ldexp(1.0 + static_cast<double>(s.draw(1u << 20)) / (1u << 20), static_cast<int>(s.range(-30, sizeof(T) == 4 ? 120 : 1000))));
            }
        }
        std::string text(const std::any& v) const override
        {
            char b[400];
            snprintf(b, sizeof b, "%f", static_cast<double>(Base<T>::of(v)));
            return b;
        }
        std::optional<std::any> parse(const std::string& s) const override
        {
            std::size_t i = 0, digits = 0;
            if (!s.empty() && s[0] == '-') i = 1;
            for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) ++digits;
            if (i < s.size() && s[i] == '.')
                for (++i; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) ++digits;
            if (i != s.size() || digits == 0) return std::nullopt;
            T v = sizeof(T) == 4 ? static_cast<T>(strtof(s.c_str(), nullptr)) : static_cast<T>(strtod(s.c_str(), nullptr));
            if (std::isinf(v)) return std::nullopt;
            return std::any(v);
        }
    };

    struct BoolType : Base<bool>
    {
        BoolType() : Base<bool>("bool", JsonKind::Bool) {}
        std::any gen(Src& s) const override { return s.flip(); }
        std::string text(const std::any& v) const override { return of(v) ? "true" : "false"; }
        std::optional<std::any> parse(const std::string& s) const override
        {
            if (s == "true") return std::any(true);
            if (s == "false") return std::any(false);
            return std::nullopt;
        }
    };

    struct StringType : Base<std::string>
    {
        StringType() : Base<std::string>("string", JsonKind::Text) {}
        std::any gen(Src& s) const override { return GenText(s); }
        std::string text(const std::any& v) const override { return of(v); }
        std::optional<std::any> parse(const std::string& s) const override { return std::any(s); }
    };

    struct ColorType : Base<Color>
    {
        ColorType() : Base<Color>("Color", JsonKind::Text) {}
        std::any gen(Src& s) const override { return Color{static_cast<int>(s.range(-3, 9))}; }
        std::string text(const std::any& v) const override { return "rgb(\"" + std::to_string(of(v).v) + "\",0)"; }
        std::optional<std::any> parse(const std::string& s) const override
        {
            Color c;
            if (!mvlt::FromString(s, c)) return std::nullopt;
            return std::any(c);
        }
    };

    struct OpaqueType : Base<Opaque>
    {
        OpaqueType() : Base<Opaque>("Opaque", JsonKind::Text) {}
        std::any gen(Src& s) const override { return Opaque{static_cast<int>(s.range(-3, 9))}; }
        std::string text(const std::any&) const override { return ""; }
        std::optional<std::any> parse(const std::string&) const override { return std::nullopt; }
    };
}

const std::vector<const IoType*>& IoTypes()
{
    static const std::vector<const IoType*> t = {
        new IntType<std::int32_t>("int32"), new StringType, new FloatType<double>("double"), new BoolType, new ColorType,
        new IntType<std::int8_t>("int8"), new IntType<std::uint8_t>("uint8"), new IntType<std::int16_t>("int16"), new IntType<std::uint16_t>("uint16"),
        new IntType<std::uint32_t>("uint32"), new IntType<std::int64_t>("int64"), new IntType<std::uint64_t>("uint64"), new FloatType<float>("float"), new OpaqueType};
    return t;
}
