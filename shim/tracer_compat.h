// Force-included for fuse_tracer_v2.cpp only: apt's abseil 20220623 has no %v / AbslStringify.
#pragma once
#include <absl/strings/escaping.h>
#include <absl/strings/str_format.h>
#include <cstdio>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
namespace absl
{
struct VshimSink
{
    std::string out;
    void Append(std::string_view s) { out.append(s); }
};
inline std::string vshim_Utf8SafeCEscape(std::string_view s)
{
    return Utf8SafeCEscape(absl::string_view(s.data(), s.size()));
}
template <class T> void vshim_one(std::string& o, const std::string& spec, const T& v)
{
    char b[512];
    char c = spec.back();
    if constexpr (std::is_enum_v<T>) return vshim_one(o, spec, static_cast<long long>(v));
    else if constexpr (std::is_integral_v<T>)
    {
        bool hash = spec.find('#') != std::string::npos;
        if (c == 'c') snprintf(b, sizeof b, "%c", int(v));
        else if (c == 'o') snprintf(b, sizeof b, hash ? "%#llo" : "%llo", (unsigned long long)v);
        else if (std::is_signed_v<T>) snprintf(b, sizeof b, "%lld", (long long)v);
        else snprintf(b, sizeof b, "%llu", (unsigned long long)v);
        o += b;
    }
    else if constexpr (std::is_floating_point_v<T>) { snprintf(b, sizeof b, "%g", double(v)); o += b; }
    else if constexpr (std::is_null_pointer_v<T>) o += "(nil)";
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) o += std::string(std::string_view(v));
    else if constexpr (std::is_convertible_v<const T&, absl::string_view>) o += std::string(absl::string_view(v));
    else if constexpr (std::is_pointer_v<T>) { snprintf(b, sizeof b, "%p", (const void*)v); o += b; }
    else { VshimSink s; AbslStringify(s, v); o += s.out; }
}
inline void vshim_go(std::string& o, const char* f) { for (; *f; ++f) { if (*f == '%') ++f; o.push_back(*f); } }
template <class T, class... A> void vshim_go(std::string& o, const char* f, const T& v, const A&... a)
{
    for (; *f; ++f)
    {
        if (*f != '%') { o.push_back(*f); continue; }
        if (f[1] == '%') { o.push_back('%'); ++f; continue; }
        std::string spec;
        for (;;) { char c = *++f; spec.push_back(c); if (strchr("diouxXcspvgf", c)) break; }
        vshim_one(o, spec, v);
        return vshim_go(o, f + 1, a...);
    }
}
template <class... A> void vshim_Format(VshimSink* s, const char* f, const A&... a) { vshim_go(s->out, f, a...); }
template <class... A> int vshim_FPrintF(std::FILE* fp, const char* f, const A&... a)
{
    std::string o;
    vshim_go(o, f, a...);
    return int(fwrite(o.data(), 1, o.size(), fp));
}
}
#include "fuse_tracer_v2.h"
#include "stat_workaround.h"
#include <absl/time/time.h>
#define FPrintF vshim_FPrintF
#define Format vshim_Format
#define Utf8SafeCEscape vshim_Utf8SafeCEscape
