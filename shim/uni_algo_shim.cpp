#include <uni_algo/conv.h>
#include <cstring>
namespace una
{
namespace vshim
{
#include <uni_algo/unicode_tables.inc>
    template <class E, size_t N> static const E* find(const E (&t)[N], uint32_t c)
    {
        auto it = std::lower_bound(t, t + N, c, [](const E& e, uint32_t v) { return e.cp < v; });
        return it != t + N && it->cp == c ? it : nullptr;
    }
    std::u32string decode(std::string_view s)
    {
        std::u32string r;
        size_t i = 0;
        auto cont = [&](size_t k) { return k < s.size() && (uint8_t(s[k]) & 0xC0) == 0x80; };
        while (i < s.size())
        {
            uint8_t c = s[i];
            if (c < 0x80) { r.push_back(c); ++i; continue; }
            int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : 0;
            bool ok = n > 0;
            for (int k = 1; ok && k <= n; ++k) ok = cont(i + k);
            if (!ok) { r.push_back(0xFFFD); ++i; continue; }
            uint32_t v = n == 3 ? c & 7 : n == 2 ? c & 15 : c & 31;
            for (int k = 1; k <= n; ++k) v = v << 6 | (uint8_t(s[i + k]) & 63);
            if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000))
                v = 0xFFFD;
            r.push_back(v);
            i += n + 1;
        }
        return r;
    }
    std::string encode(const std::u32string& s)
    {
        std::string r;
        for (uint32_t v : s)
        {
            if (v < 0x80) r.push_back(v);
            else if (v < 0x800) { r.push_back(0xC0 | v >> 6); r.push_back(0x80 | (v & 63)); }
            else if (v < 0x10000) { r.push_back(0xE0 | v >> 12); r.push_back(0x80 | (v >> 6 & 63)); r.push_back(0x80 | (v & 63)); }
            else { r.push_back(0xF0 | v >> 18); r.push_back(0x80 | (v >> 12 & 63)); r.push_back(0x80 | (v >> 6 & 63)); r.push_back(0x80 | (v & 63)); }
        }
        return r;
    }
    std::u32string fold(const std::u32string& s)
    {
        std::u32string r;
        for (uint32_t c : s)
        {
            if (c < 0x80) { r.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c); continue; }
            if (auto e = find(kFold, c)) { for (uint32_t x : e->to) if (x) r.push_back(x); }
            else r.push_back(c);
        }
        return r;
    }
    static int ccc(uint32_t c) { auto e = find(kCcc, c); return e ? e->ccc : 0; }
    std::u32string nfd(const std::u32string& s)
    {
        std::u32string r;
        for (uint32_t c : s)
        {
            if (c >= 0xAC00 && c < 0xD7A4)
            {
                uint32_t i = c - 0xAC00;
                r.push_back(0x1100 + i / 588);
                r.push_back(0x1161 + i % 588 / 28);
                if (i % 28) r.push_back(0x11A7 + i % 28);
            }
            else if (auto e = find(kDecomp, c)) { for (uint32_t x : e->to) if (x) r.push_back(x); }
            else r.push_back(c);
        }
        for (size_t i = 0; i < r.size();)
        {
            if (!ccc(r[i])) { ++i; continue; }
            size_t j = i;
            while (j < r.size() && ccc(r[j])) ++j;
            std::stable_sort(r.begin() + i, r.begin() + j, [](uint32_t a, uint32_t b) { return ccc(a) < ccc(b); });
            i = j;
        }
        return r;
    }
    static uint32_t comp(uint32_t a, uint32_t b)
    {
        if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
        if (a >= 0xAC00 && a < 0xD7A4 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + (b - 0x11A7);
        auto lt = [](const CompEntry& e, std::pair<uint32_t, uint32_t> v) { return e.a != v.first ? e.a < v.first : e.b < v.second; };
        auto end = kComp + sizeof(kComp) / sizeof(kComp[0]);
        auto it = std::lower_bound(kComp, end, std::make_pair(a, b), lt);
        return it != end && it->a == a && it->b == b ? it->c : 0;
    }
    std::u32string nfc(const std::u32string& s)
    {
        std::u32string d = nfd(s), r;
        size_t starter = size_t(-1);
        int last = 0;
        for (uint32_t c : d)
        {
            int k = ccc(c);
            if (starter != size_t(-1) && (last < k || (last == 0 && r.size() == starter + 1)))
            {
                if (uint32_t x = comp(r[starter], c)) { r[starter] = x; continue; }
            }
            if (k == 0) { starter = r.size(); last = 0; }
            else last = k;
            r.push_back(c);
        }
        return r;
    }
}
namespace cases { std::string to_casefold_utf8(std::string_view s) { return vshim::encode(vshim::fold(vshim::decode(s))); } }
namespace caseless
{
    int compare_utf8(std::string_view a, std::string_view b)
    {
        return vshim::fold(vshim::decode(a)).compare(vshim::fold(vshim::decode(b)));
    }
}
namespace norm
{
    std::string to_nfc_utf8(std::string_view s) { return vshim::encode(vshim::nfc(vshim::decode(s))); }
    std::string to_nfd_utf8(std::string_view s) { return vshim::encode(vshim::nfd(vshim::decode(s))); }
}
}
