// Drives one directory index (BtreeDirectory) through its public interface and dumps its pages after a flush.
// Commands, one per line, one JSON answer each:
//   new <path> <cmp 0..3> <iv> <pad>   open a directory over two files (created when missing)
//   add <name> <tag> <type> | del <name> | get <name> | iter | empty | dump | reload | quit
#ifndef VBT_SMALL
#include "btree_dir.h"
#endif
#include "files.h"
#include "mystring.h"
#include "myutils.h"
#include "platform.h"
#include <fcntl.h>
#include <iostream>
#include <mutex>
#include <set>
#include <sstream>

using namespace securefs;

// The page store and the page numbers in the header, seen as a plain file over the same two streams.
struct Peek : RegularFile
{
    using RegularFile::RegularFile;
    uint32_t root() { return get_root_page(); }
    uint32_t free() { return get_start_free_page(); }
    uint32_t nfree() { return get_num_free_page(); }
};
static std::string dir_path;
static int cmp_kind, iv_size, pad_size;
static Directory::DirNameComparison cmps[] = {{&binary_compare}, {&case_insensitive_compare}, {&uni_norm_insensitive_compare}, {&case_uni_norm_insensitve_compare}};
template <class T, class... A>
static std::unique_ptr<T> open_as(bool create, A... a)
{
    static key_type key(0x3e);
    int flags = O_RDWR | (create ? O_CREAT : 0);
    return std::make_unique<T>(a...,
                               OSService::get_default().open_file_stream(dir_path + ".d", flags, 0644),
                               OSService::get_default().open_file_stream(dir_path + ".m", flags, 0644),
                               StrongType<key_type, tMasterKey>(key),
                               id_type{},
                               StrongType<bool, tVerify>(true),
                               StrongType<unsigned, tBlockSize>(4096),
                               StrongType<unsigned, tIvSize>(iv_size),
                               StrongType<unsigned, tMaxPaddingSize>(pad_size),
                               StrongType<bool, tStoreTimeWithinFs>(false));
}
static std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else r += s[i];
    return r;
}
static std::string esc(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s)
        if (isalnum(c) || c == '_' || c == '-' || c == '.') r += c;
        else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    return r;
}
static id_type make_id(uint32_t tag)
{
    id_type id;
    for (size_t i = 0; i < id.size(); ++i) id.data()[i] = static_cast<byte>((tag >> (8 * (i % 4))) ^ (i * 7));
    return id;
}
static long tag_of(const id_type& id)
{
    uint32_t t = 0;
    for (size_t i = 0; i < 4; ++i) t |= static_cast<uint32_t>(static_cast<byte>(id.data()[i] ^ (i * 7))) << (8 * i);
    return std::equal(id.data(), id.data() + id.size(), make_id(t).data()) ? static_cast<long>(t) : -1L;
}
static uint32_t le(const byte* p, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v |= uint32_t(p[i]) << (8 * i); return v; }
static void dump(std::ostream& o)
{
    const size_t PAGE = 4096;
    auto f = open_as<Peek>(false);
    std::lock_guard<FileBase> lg(*f);
    size_t n = f->size() / PAGE;
    o << "{\"r\":0,\"rest\":" << f->size() % PAGE << ",\"root\":" << static_cast<int32_t>(f->root()) << ",\"free\":" << static_cast<int32_t>(f->free()) << ",\"nfree\":" << f->nfree() << ",\"pg\":[";
    for (size_t i = 0; i < n; ++i)
    {
        byte b[PAGE] = {};
        o << (i ? "," : "");
        size_t got = f->read(b, i * PAGE, PAGE);
        if (got != PAGE) { o << "{\"k\":\"bad\"}"; continue; }
        uint32_t flag = le(b, 4);
        if (flag == 0) { o << "{\"k\":\"free\",\"next\":" << static_cast<int32_t>(le(b + 4, 4)) << ",\"prev\":" << static_cast<int32_t>(le(b + 8, 4)) << "}"; continue; }
        unsigned nc = le(b + 4, 2), ne = le(b + 6, 2);
        if (flag != 1 || 8 + nc * 4 + ne * 292 > PAGE) { o << "{\"k\":\"bad\"}"; continue; }
        o << "{\"k\":\"node\",\"c\":[";
        for (unsigned j = 0; j < nc; ++j) o << (j ? "," : "") << static_cast<int32_t>(le(b + 8 + 4 * j, 4));
        o << "],\"e\":[";
        for (unsigned j = 0; j < ne; ++j)
        {
            const byte* p = b + 8 + nc * 4 + j * 292;
            id_type id;
            memcpy(id.data(), p + 256, 32);
            o << (j ? "," : "") << "[\"" << esc(std::string(reinterpret_cast<const char*>(p), strnlen(reinterpret_cast<const char*>(p), 256))) << "\"," << tag_of(id) << "," << le(p + 288, 4) << "]";
        }
        o << "]}";
    }
    o << "]}";
}
int main()
{
    std::unique_ptr<BtreeDirectory> dir;
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::ostringstream o;
        std::string c, name;
        in >> c;
        if (c == "quit") break;
        if (dir) dir->lock();
        try
        {
            id_type id{};
            int type = 0;
            if (c == "new") { in >> dir_path >> cmp_kind >> iv_size >> pad_size; dir = open_as<BtreeDirectory>(true, cmps[cmp_kind]); dir->lock(); o << "{\"r\":0}"; }
            else if (c == "add")
            {
                uint32_t tag;
                in >> name >> tag >> type;
                o << "{\"r\":" << dir->add_entry(unesc(name), make_id(tag), type) << "}";
            }
            else if (c == "del") { in >> name; bool r = dir->remove_entry(unesc(name), id, type); o << "{\"r\":" << r << ",\"id\":" << (r ? tag_of(id) : 0) << ",\"t\":" << (r ? type : 0) << "}"; }
            else if (c == "get")
            {
                in >> name;
                auto r = dir->get_entry(unesc(name), id, type);
                o << "{\"r\":" << r.has_value() << ",\"nm\":\"" << (r ? esc(std::string(*r)) : "") << "\",\"id\":" << (r ? tag_of(id) : 0) << ",\"t\":" << (r ? type : 0) << "}";
            }
            else if (c == "iter")
            {
                o << "{\"r\":0,\"e\":[";
                bool first = true;
                dir->iterate_over_entries([&](const std::string& n, const id_type& i, int t) { o << (first ? "" : ",") << "[\"" << esc(n) << "\"," << tag_of(i) << "," << t << "]"; first = false; });
                o << "]}";
            }
            else if (c == "empty") o << "{\"r\":" << dir->empty() << "}";
            else if (c == "flush") { dir->flush(); o << "{\"r\":0}"; }
            else if (c == "dump") { dir->flush(); dump(o); }
            else if (c == "reload") { dir->flush(); dir->unlock(); dir.reset(); dir = open_as<BtreeDirectory>(false, cmps[cmp_kind]); dir->lock(); o << "{\"r\":0}"; }
            else o << "{\"r\":-9001}";
        }
        catch (const VFSException& e) { o.str(""); o << "{\"r\":-" << e.error_number() << "}"; }
        catch (const std::exception& e) { o.str(""); o << "{\"r\":-9999,\"what\":\"" << esc(e.what()) << "\"}"; }
        if (dir) dir->unlock();
        std::cout << o.str() << "\n";
    }
    std::cout << std::flush;
    if (dir) { dir->lock(); dir->flush(); dir->unlock(); }
}
