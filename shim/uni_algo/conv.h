// Offline stand-in for uni-algo (the real library is not installable in the sandbox).
// Only the functions securefs uses on POSIX are provided; full Unicode data, simple algorithms.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <string_view>
namespace una
{
namespace vshim
{
    struct MapEntry { uint32_t cp; uint32_t to[4]; };
    struct CccEntry { uint32_t cp; int ccc; };
    struct CompEntry { uint32_t a, b, c; };
    std::u32string decode(std::string_view s);
    std::string encode(const std::u32string& s);
    std::u32string fold(const std::u32string& s);
    std::u32string nfd(const std::u32string& s);
    std::u32string nfc(const std::u32string& s);
}
namespace cases { std::string to_casefold_utf8(std::string_view s); }
namespace caseless { int compare_utf8(std::string_view a, std::string_view b); }
namespace norm
{
    std::string to_nfc_utf8(std::string_view s);
    std::string to_nfd_utf8(std::string_view s);
}
}
