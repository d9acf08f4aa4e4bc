// Line driven driver around the real securefs code.  Reads commands on stdin, answers one JSON line each on fd 3
// (or stdout when fd 3 is closed).  The boundary is the fuse_operations table the program hands to libfuse.
#include "commands.h"
#include "exceptions.h"
#include "fuse_high_level_ops_base.h"
#include "internal_mount.h"
#include "params_io.h"
#include "lite_format.h"
#include "logger.h"
#include "params.pb.h"
#include "platform.h"
#include "resettable_timer.h"

#include <absl/time/clock.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <fuse.h>
#include <iostream>
#include <map>
#include <memory>
#include <linux/capability.h>
#include <mutex>
#include <random>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <thread>
#include <unistd.h>
#include <vector>

using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------ interposition of libc
namespace
{
enum class Inj { kOff, kCount, kFail, kCrash, kCrashTorn, kCrashAfter, kPause };
std::atomic<int> inj_mode{0};
std::atomic<int> inj_n{0}, inj_count{0}, inj_len{1}, inj_errno{EIO};
std::atomic<bool> inj_reads{false};
std::atomic<int> jitter_us{0};
std::atomic<unsigned> jitter_seed{1};
std::atomic<bool> vclock_on{false};
std::atomic<long> vclock_sec{0};
FILE* wlog = nullptr;
int wlog_ops = 0;
std::mutex wlog_mu;
FILE* out = nullptr;
string pause_file;
// "step" mode: the process stops before every storage call that changes something and every call that concerns the lock file, tells what it is about to
// do, and goes on when it gets a byte.
std::atomic<int> step_fd{-1};
const char* const kLock = ".securefs.lock";
int last_pipe[2] = {-1, -1};
thread_local bool in_driver_io = false;
thread_local long slow_clock_us = 0;
std::atomic<int> dir_order{0};
struct Listing
{
    vector<dirent64> es;
    size_t at = 0;
};
std::map<DIR*, Listing> listings;
std::mutex listing_mu;

template <class F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) (*([]() { static auto f = real<decltype(&::name)>(#name); return f; }()))

// ---- "sched": the threads of a "par" take turns; a turn ends at the points the plan names.
struct Sched
{
    std::mutex mu;
    std::condition_variable cv;
    bool on = false;
    vector<std::pair<int, long>> plan;
    size_t at = 0;
    long left = 0;
    int cur = -1;
    long ticks = 0;
    vector<int> state;    // 0 can run, 1 waits for somebody else, 2 finished
    vector<long> points;
    void begin(int n)
    {
        std::lock_guard<std::mutex> lg(mu);
        state.assign(n, 0);
        points.assign(n, 0);
        at = 0;
        left = plan.empty() ? 1L << 60 : plan[0].second;
        cur = plan.empty() ? 0 : plan[0].first;
        ticks = 0;
        on = true;
    }
    void choose(int t)    // somebody other than t, if possible
    {
        int n = static_cast<int>(state.size());
        cur = -1;
        for (int k = 1; k <= n && cur < 0; ++k)
            if (state[(t + k) % n] == 0)
                cur = (t + k) % n;
        ++ticks;
        cv.notify_all();
    }
    void take(std::unique_lock<std::mutex>& lk, int t)
    {
        while (cur != t)
        {
            if (cur < 0)
            {
                cur = t;
                break;
            }
            long seen = ticks;
            if (cv.wait_for(lk, std::chrono::milliseconds(25)) == std::cv_status::timeout && seen == ticks && cur != t)
                cur = t;    // whoever had the turn is stuck somewhere
        }
    }
    void point(int t)
    {
        std::unique_lock<std::mutex> lk(mu);
        ++ticks;
        ++points[t];
        state[t] = 0;
        if (cur == t && --left <= 0)
        {
            ++at;
            left = 1L << 60;
            int next = -1;
            if (at < plan.size())
            {
                next = plan[at].first;
                left = plan[at].second;
            }
            if (next >= 0 && next != t && state[next] == 0)
                cur = next, cv.notify_all();
            else if (next != t)
                choose(t);
        }
        take(lk, t);
    }
    void blocked(int t)    // t goes on as soon as somebody else lets it
    {
        std::unique_lock<std::mutex> lk(mu);
        state[t] = 1;
        if (cur == t)
            choose(t);
    }
    void unblocked(int t)
    {
        std::unique_lock<std::mutex> lk(mu);
        state[t] = 0;
        take(lk, t);
    }
    void finished(int t)
    {
        std::unique_lock<std::mutex> lk(mu);
        state[t] = 2;
        if (cur == t)
            choose(t);
    }
    bool pause(int t)    // t waits for a while; false if there is nobody to wait for
    {
        std::unique_lock<std::mutex> lk(mu);
        if (cur == t)
        {
            choose(t);
            if (cur < 0 || cur == t)
            {
                cur = t;
                return false;
            }
        }
        take(lk, t);
        return true;
    }
} sched;
thread_local int sched_id = -1;
void sched_point()
{
    if (sched_id >= 0 && !in_driver_io)
        sched.point(sched_id);
}

void jitter()
{
    sched_point();
    int j = jitter_us.load(std::memory_order_relaxed);
    if (j <= 0)
        return;
    static thread_local std::minstd_rand rng(jitter_seed.fetch_add(7919));
    unsigned r = rng() % 100;
    if (r < 40)
        return;
    if (r < 70)
    {
        sched_yield();
        return;
    }
    timespec ts{0, static_cast<long>(rng() % (j * 1000L)) + 1};
    REAL(nanosleep)(&ts, nullptr);
}

string fd_path(int fd)
{
    char b[64], p[4096];
    snprintf(b, sizeof b, "/proc/self/fd/%d", fd);
    ssize_t n = ::readlink(b, p, sizeof p - 1);
    return n < 0 ? "?" : string(p, n);
}

void step(const char* what, const string& path, bool changes)
{
    if (step_fd.load() < 0 || in_driver_io)
        return;
    in_driver_io = true;
    bool lock = path.find(kLock) != string::npos;
    fprintf(out, "{\"at\":\"%s\",\"lock\":%d,\"changes\":%d}\n", what, lock ? 1 : 0, changes ? 1 : 0);
    fflush(out);
    char c;
    while (::read(step_fd.load(), &c, 1) != 1)
        usleep(1000);
    in_driver_io = false;
}
bool is_lock_fd(int fd) { return step_fd.load() >= 0 && !in_driver_io && fd_path(fd).find(kLock) != string::npos; }

// Returns 0: perform normally, 1: fail with errno set, 2: torn write then exit, 3: exit after performing.
int mutation(const char* what = "change", const string& path = "")
{
    if (in_driver_io)
        return 0;
    step(what, path, true);
    jitter();
    auto mode = static_cast<Inj>(inj_mode.load());
    if (mode == Inj::kOff)
        return 0;
    int k = ++inj_count;
    int n = inj_n.load();
    switch (mode)
    {
    case Inj::kFail:
        if (k >= n && k < n + inj_len.load())
        {
            errno = inj_errno.load();
            return 1;
        }
        return 0;
    case Inj::kCrash:
        if (k == n)
            _exit(77);
        return 0;
    case Inj::kCrashTorn:
        return k == n ? 2 : 0;
    case Inj::kCrashAfter:
        return k == n ? 3 : 0;
    case Inj::kPause:
        if (k == n)
        {
            in_driver_io = true;
            fprintf(out, "{\"paused\":%d}\n", k);
            fflush(out);
            while (access(pause_file.c_str(), F_OK) != 0)
                usleep(2000);
            in_driver_io = false;
        }
        return 0;
    default:
        return 0;
    }
}
// kind, inode, offset or length, bytes in hex ("-" if none), path
void log_write(const char* kind, ino_t ino, const string& path, long off, const void* data, size_t len)
{
    if (!wlog || in_driver_io)
        return;
    std::lock_guard<std::mutex> lg(wlog_mu);
    fprintf(wlog, "%s %llu %ld ", kind, static_cast<unsigned long long>(ino), off);
    auto p = static_cast<const unsigned char*>(data);
    if (!len)
        fputc('-', wlog);
    for (size_t i = 0; i < len; ++i)
        fprintf(wlog, "%02x", p[i]);
    fprintf(wlog, " %s\n", path.c_str());
    fflush(wlog);
}
ino_t ino_of(int fd)
{
    struct stat64 st{};
    return fstat64(fd, &st) == 0 ? st.st_ino : 0;
}
ino_t ino_of(const char* p)
{
    struct stat64 st{};
    return lstat64(p, &st) == 0 ? st.st_ino : 0;
}
int logged_xattr(int rc, ino_t ino, const string& path, const char* name, const void* data, size_t len)
{
    int e = errno;
    if (wlog && rc == 0)
        log_write("X", ino, path + "|" + name, 0, data, len);
    errno = e;
    return rc;
}
}    // namespace

#define MUT(call) MUTN(__func__, "", call)
#define MUTN(what, path, call)                                                                     \
    int m_ = mutation(what, path);                                                                        \
    if (m_ == 1)                                                                                   \
        return -1;                                                                                 \
    if (m_ == 2)                                                                                   \
        _exit(77);                                                                                 \
    auto rc_ = call;                                                                               \
    if (m_ == 3)                                                                                   \
        _exit(77);                                                                                 \
    return rc_;

extern "C"
{
    int i_openat64(int d, const char* p, int flags, ...) asm("openat64");
    int i_openat(int d, const char* p, int flags, ...) asm("openat");
    int i_open64(const char* p, int flags, ...) asm("open64");
    ssize_t i_pwrite64(int fd, const void* b, size_t n, off64_t o) asm("pwrite64");
    ssize_t i_pwrite(int fd, const void* b, size_t n, off64_t o) asm("pwrite");
    int i_ftruncate64(int fd, off64_t n) asm("ftruncate64");
    int i_ftruncate(int fd, off64_t n) asm("ftruncate");
    ssize_t i_pread64(int fd, void* b, size_t n, off64_t o) asm("pread64");
    ssize_t i_pread(int fd, void* b, size_t n, off64_t o) asm("pread");
    int i_openat64(int d, const char* p, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
        va_end(ap);
        if (flags & (O_CREAT | O_TRUNC))
        {
            MUTN("openat", p, REAL(openat64)(d, p, flags, mode))
        }
        if (strstr(p, kLock))
            step("open", p, false);
        jitter();
        return REAL(openat64)(d, p, flags, mode);
    }
    int i_openat(int d, const char* p, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
        va_end(ap);
        return i_openat64(d, p, flags, mode);
    }
    int i_open64(const char* p, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
        va_end(ap);
        if ((flags & O_TRUNC) || ((flags & O_CREAT) && access(p, F_OK) != 0))
        {
            MUT(REAL(open64)(p, flags, mode))
        }
        return REAL(open64)(p, flags, mode);
    }
    int unlinkat(int d, const char* p, int f) noexcept { MUTN("unlink", p, REAL(unlinkat)(d, p, f)) }
    int unlink(const char* p) noexcept { MUTN("unlink", p, REAL(unlink)(p)) }
    int mkdirat(int d, const char* p, mode_t m) noexcept { MUT(REAL(mkdirat)(d, p, m)) }
    int renameat(int d, const char* p, int e, const char* q) noexcept
    {
        MUT(REAL(renameat)(d, p, e, q))
    }
    int linkat(int d, const char* p, int e, const char* q, int f) noexcept
    {
        MUT(REAL(linkat)(d, p, e, q, f))
    }
    int symlinkat(const char* t, int d, const char* p) noexcept { MUT(REAL(symlinkat)(t, d, p)) }
    ssize_t i_pwrite64(int fd, const void* b, size_t n, off64_t o)
    {
        int m = mutation("write", step_fd.load() >= 0 && !in_driver_io ? fd_path(fd) : "");
        if (m == 1)
            return -1;
        if (m == 2)
        {
            (void)REAL(pwrite64)(fd, b, n / 2, o);
            _exit(77);
        }
        if (wlog)
            log_write("W", ino_of(fd), fd_path(fd), o, b, n);
        auto rc = REAL(pwrite64)(fd, b, n, o);
        if (m == 3)
            _exit(77);
        return rc;
    }
    ssize_t i_pwrite(int fd, const void* b, size_t n, off64_t o) { return i_pwrite64(fd, b, n, o); }
    int i_ftruncate64(int fd, off64_t n)
    {
        if (wlog)
            log_write("T", ino_of(fd), fd_path(fd), n, nullptr, 0);
        MUTN("truncate", step_fd.load() >= 0 && !in_driver_io ? fd_path(fd) : "", REAL(ftruncate64)(fd, n))
    }
    int i_ftruncate(int fd, off64_t n) { return i_ftruncate64(fd, n); }
    int fchmodat(int d, const char* p, mode_t m, int f) noexcept
    {
        MUT(REAL(fchmodat)(d, p, m, f))
    }
    int fchownat(int d, const char* p, uid_t u, gid_t g, int f) noexcept
    {
        MUT(REAL(fchownat)(d, p, u, g, f))
    }
    int utimensat(int d, const char* p, const timespec* t, int f) noexcept
    {
        MUT(REAL(utimensat)(d, p, t, f))
    }
    int futimens(int fd, const timespec* t) noexcept { MUT(REAL(futimens)(fd, t)) }
    int fsync(int fd) { MUT(REAL(fsync)(fd)) }
    int fdatasync(int fd) { MUT(REAL(fdatasync)(fd)) }
    int lsetxattr(const char* p, const char* n, const void* v, size_t s, int f) noexcept
    {
        MUT(logged_xattr(REAL(lsetxattr)(p, n, v, s, f), ino_of(p), p, n, v, s))
    }
    int fsetxattr(int fd, const char* n, const void* v, size_t s, int f) noexcept
    {
        MUT(logged_xattr(REAL(fsetxattr)(fd, n, v, s, f), ino_of(fd), fd_path(fd), n, v, s))
    }
    int lremovexattr(const char* p, const char* n) noexcept { MUT(REAL(lremovexattr)(p, n)) }
    int fremovexattr(int fd, const char* n) noexcept { MUT(REAL(fremovexattr)(fd, n)) }
    ssize_t i_pread64(int fd, void* b, size_t n, off64_t o)
    {
        jitter();
        if (is_lock_fd(fd))
            step("read", kLock, false);
        if (inj_reads.load() && !in_driver_io && mutation() == 1)
            return -1;
        return REAL(pread64)(fd, b, n, o);
    }
    ssize_t i_pread(int fd, void* b, size_t n, off64_t o) { return i_pread64(fd, b, n, o); }
    int i_fstatat64(int d, const char* p, struct stat64* st, int f) asm("fstatat64");
    int i_fstatat64(int d, const char* p, struct stat64* st, int f)
    {
        jitter();
        return REAL(fstatat64)(d, p, st, f);
    }
    ssize_t readlinkat(int d, const char* p, char* b, size_t n) noexcept
    {
        jitter();
        return REAL(readlinkat)(d, p, b, n);
    }
    ssize_t lgetxattr(const char* p, const char* x, void* v, size_t n) noexcept
    {
        jitter();
        return REAL(lgetxattr)(p, x, v, n);
    }
    ssize_t llistxattr(const char* p, char* l, size_t n) noexcept
    {
        jitter();
        return REAL(llistxattr)(p, l, n);
    }
    DIR* opendir(const char* p)
    {
        jitter();
        return REAL(opendir)(p);
    }
    int nanosleep(const timespec* ts, timespec* rest)
    {
        // Abseil's own waiting is not ours to schedule.
        Dl_info from{};
        if (sched_id < 0 || (dladdr(__builtin_return_address(0), &from) && from.dli_fname && strstr(from.dli_fname, "libabsl")) || !sched.pause(sched_id))
            return REAL(nanosleep)(ts, rest);
        return 0;
    }
    int usleep(useconds_t us)
    {
        if (sched_id < 0 || !sched.pause(sched_id))
            return REAL(usleep)(us);
        return 0;
    }
    int flock(int fd, int op) noexcept
    {
        if (sched_id >= 0 && !in_driver_io)
        {
            sched.point(sched_id);
            if ((op & LOCK_UN) || (op & LOCK_NB))
                return REAL(flock)(fd, op);
            if (REAL(flock)(fd, op | LOCK_NB) == 0)
                return 0;
            if (errno != EWOULDBLOCK)
                return -1;
            sched.blocked(sched_id);
            int rc = REAL(flock)(fd, op), e = errno;
            sched.unblocked(sched_id);
            errno = e;
            return rc;
        }
        if (step_fd.load() < 0 || in_driver_io || (op & LOCK_UN) || (op & LOCK_NB))
        {
            if (op & LOCK_UN && is_lock_fd(fd))
                step("unlock", kLock, false);
            return REAL(flock)(fd, op);
        }
        while (true)
        {
            step("lock", kLock, false);
            if (REAL(flock)(fd, op | LOCK_NB) == 0)
                return 0;
            if (errno != EWOULDBLOCK)
                return -1;
        }
    }
    int i_fstat64(int fd, struct stat64* st) asm("fstat64");
    int i_fstat64(int fd, struct stat64* st)
    {
        if (is_lock_fd(fd))
            step("fstat", kLock, false);
        return REAL(fstat64)(fd, st);
    }
    int i_fstat(int fd, struct stat64* st) asm("fstat");
    int i_fstat(int fd, struct stat64* st) { return i_fstat64(fd, st); }
    int kill(pid_t pid, int sig) noexcept
    {
        if (sig == 0)
            step("alive?", kLock, false);
        return REAL(kill)(pid, sig);
    }
    int close(int fd)
    {
        if (is_lock_fd(fd))
            step("close", kLock, false);
        return REAL(close)(fd);
    }
    // The order in which a directory is listed is not the program's business: "dirorder" replaces the file system's.
    dirent64* i_readdir64(DIR* d) asm("readdir64");
    dirent64* i_readdir(DIR* d) asm("readdir");
    dirent64* i_readdir64(DIR* d)
    {
        if (in_driver_io || dir_order.load() == 0)
            return REAL(readdir64)(d);
        std::lock_guard<std::mutex> lg(listing_mu);
        auto it = listings.find(d);
        if (it == listings.end())
        {
            Listing l;
            while (dirent64* e = REAL(readdir64)(d))
                l.es.push_back(*e);
            int mode = dir_order.load();
            auto key = [mode](const dirent64& e)
            {
                string n(e.d_name);
                return mode <= 2 ? n : std::to_string(std::hash<string>()(n + std::to_string(mode))) + n;
            };
            std::sort(l.es.begin(), l.es.end(), [&](const dirent64& a, const dirent64& b) { return mode == 2 ? key(b) < key(a) : key(a) < key(b); });
            it = listings.emplace(d, std::move(l)).first;
        }
        auto& l = it->second;
        if (l.at >= l.es.size())
        {
            errno = 0;
            return nullptr;
        }
        return &l.es[l.at++];
    }
    dirent64* i_readdir(DIR* d) { return i_readdir64(d); }
    void rewinddir(DIR* d) noexcept
    {
        {
            std::lock_guard<std::mutex> lg(listing_mu);
            listings.erase(d);
        }
        REAL(rewinddir)(d);
    }
    int closedir(DIR* d)
    {
        {
            std::lock_guard<std::mutex> lg(listing_mu);
            listings.erase(d);
        }
        return REAL(closedir)(d);
    }
    int pipe(int* p) noexcept
    {
        int rc = REAL(pipe)(p);
        if (rc == 0)
        {
            last_pipe[0] = p[0];
            last_pipe[1] = p[1];
        }
        return rc;
    }
    int clock_gettime(clockid_t c, timespec* t) noexcept
    {
        if (c == CLOCK_REALTIME && vclock_on.load(std::memory_order_relaxed))
        {
            t->tv_sec = vclock_sec.load();
            t->tv_nsec = 123456789;
            return 0;
        }
        int rc = REAL(clock_gettime)(c, t);
        if (c == CLOCK_REALTIME && slow_clock_us)
        {
            // The thread is not scheduled for a while after having looked at the clock.
            long us = slow_clock_us;
            slow_clock_us = 0;
            usleep(us);
        }
        return rc;
    }
}

// Abseil's clock looks at the system clock only now and then, under a lock: read it directly, so that a thread can be delayed after looking at it.
// Points before every acquisition and after every release.
void absl::Mutex::Lock()
{
    static auto f = reinterpret_cast<void (*)(absl::Mutex*)>(dlsym(RTLD_NEXT, "_ZN4absl7debian35Mutex4LockEv"));
    jitter();
    if (sched_id >= 0 && !in_driver_io)
    {
        if (!TryLock())
        {
            sched.blocked(sched_id);
            f(this);
            sched.unblocked(sched_id);
            return;
        }
        static auto un = reinterpret_cast<void (*)(absl::Mutex*)>(dlsym(RTLD_NEXT, "_ZN4absl7debian35Mutex6UnlockEv"));
        un(this);    // the real function looks for lock orders that can deadlock
    }
    f(this);
}
void absl::Mutex::Unlock()
{
    static auto f = reinterpret_cast<void (*)(absl::Mutex*)>(dlsym(RTLD_NEXT, "_ZN4absl7debian35Mutex6UnlockEv"));
    f(this);
    jitter();
}
void absl::Mutex::ReaderLock()
{
    static auto f = reinterpret_cast<void (*)(absl::Mutex*)>(dlsym(RTLD_NEXT, "_ZN4absl7debian35Mutex10ReaderLockEv"));
    jitter();
    if (sched_id >= 0 && !in_driver_io)
    {
        if (!ReaderTryLock())
        {
            sched.blocked(sched_id);
            f(this);
            sched.unblocked(sched_id);
            return;
        }
        ReaderUnlock();
    }
    f(this);
}

absl::Time absl::Now()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return absl::TimeFromTimespec(t);
}

// ------------------------------------------------------------------------------------------ fuse stand-in
namespace
{
std::shared_ptr<securefs::FuseHighLevelOpsBase> g_ops;
void* g_private = nullptr;
fuse_operations ops{};
bool mounted = false;
bool by_command = false;      // "cmount": mounted by the command line program itself, which returns when the repository is unmounted
bool g_command_mounted = false;
thread_local uid_t c_uid = 0;
thread_local gid_t c_gid = 0;
bool run_loop();
}    // namespace
extern "C" struct fuse_context* fuse_get_context(void)
{
    static thread_local fuse_context ctx;
    ctx.fuse = nullptr;
    ctx.uid = c_uid;
    ctx.gid = c_gid;
    ctx.pid = getpid();
    ctx.umask = 0;
    ctx.private_data = g_private;
    return &ctx;
}
extern "C" struct fuse* fuse_setup(int argc, char** argv, const struct fuse_operations* op, size_t, char** mp, int* mt, void* ud)
{
    ops = *op;
    g_private = ud;
    mounted = true;
    fuse_conn_info ci{};
    if (ops.init)
        ops.init(&ci);
    fprintf(out, by_command ? "{\"r\":0}\n" : "{\"mounted\":1}\n");
    fflush(out);
    g_command_mounted = by_command;
    if (by_command)
        g_ops = std::shared_ptr<securefs::FuseHighLevelOpsBase>(static_cast<securefs::FuseHighLevelOpsBase*>(ud), [](auto*) {});
    run_loop();
    if (by_command && ops.destroy)
        ops.destroy(ud);
    if (by_command)
        g_ops = nullptr;
    mounted = false;
    g_private = nullptr;
    ops = {};
    return nullptr;
}

// ------------------------------------------------------------------------------------------ helpers
namespace
{
string unpct(const string& s)
{
    string r;
    if (s == "%-")
        return r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '%' && i + 2 < s.size())
        {
            r.push_back(static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)));
            i += 2;
        }
        else
            r.push_back(s[i]);
    }
    return r;
}
string pct(const string& s)
{
    static const char* hex = "0123456789abcdef";
    string r;
    for (unsigned char c : s)
    {
        if (isalnum(c) || c == '_' || c == '-' || c == '.' || c == '/' || c == '~')
            r.push_back(c);
        else
        {
            r.push_back('%');
            r.push_back(hex[c >> 4]);
            r.push_back(hex[c & 15]);
        }
    }
    return r;
}
string qs(const string& s) { return "\"" + pct(s) + "\""; }

struct Slot
{
    fuse_file_info fi{};
    bool dir = false;
};
std::map<int, std::shared_ptr<Slot>> slots;
std::mutex slots_mu;

std::shared_ptr<Slot> slot(int h)
{
    std::lock_guard<std::mutex> lg(slots_mu);
    auto it = slots.find(h);
    return it == slots.end() ? nullptr : it->second;
}

void fill_pattern(char* b, size_t n, long off, int tag)
{
    for (size_t i = 0; i < n; ++i)
        b[i] = static_cast<char>((tag << 4) | ((off + static_cast<long>(i)) % 13));
}
string runs(const char* b, size_t n, long off)
{
    std::ostringstream s;
    s << "[";
    size_t i = 0;
    bool first = true;
    auto tag_of = [&](size_t k)
    {
        unsigned char c = b[k];
        if (c == 0)
            return 0;
        if ((c & 15) == ((off + static_cast<long>(k)) % 13) && (c >> 4) != 0)
            return c >> 4;
        return 99;
    };
    while (i < n)
    {
        int t = tag_of(i);
        size_t j = i + 1;
        while (j < n && tag_of(j) == t)
            ++j;
        s << (first ? "" : ",") << "[" << (j - i) << "," << t << "]";
        first = false;
        i = j;
    }
    s << "]";
    return s.str();
}
string tm_json(const timespec& t)
{
    return "[" + std::to_string(t.tv_sec) + "," + std::to_string(t.tv_nsec) + "]";
}
string stat_json(const struct stat& st)
{
    std::ostringstream s;
    const char* k = S_ISDIR(st.st_mode) ? "d" : S_ISREG(st.st_mode) ? "f" : S_ISLNK(st.st_mode) ? "l" : "?";
    s << "\"k\":\"" << k << "\",\"m\":" << (st.st_mode & 07777) << ",\"u\":" << st.st_uid << ",\"g\":" << st.st_gid
      << ",\"n\":" << st.st_nlink << ",\"s\":" << st.st_size << ",\"ino\":\"" << st.st_ino << "\",\"at\":" << tm_json(st.st_atim)
      << ",\"mt\":" << tm_json(st.st_mtim) << ",\"ct\":" << tm_json(st.st_ctim);
    return s.str();
}
struct DirEnt
{
    string name;
    int kind;
    ino_t ino;
};
int filler(void* buf, const char* name, const struct stat* st, off_t)
{
    static_cast<vector<DirEnt>*>(buf)->push_back({name, st ? static_cast<int>(st->st_mode & S_IFMT) : 0, st ? st->st_ino : 0});
    return 0;
}
const char* kind_of(int ifmt)
{
    switch (ifmt)
    {
    case S_IFDIR:
        return "d";
    case S_IFREG:
        return "f";
    case S_IFLNK:
        return "l";
    default:
        return "?";
    }
}
string list_json(vector<DirEnt>& v)
{
    std::ostringstream s;
    s << "[";
    bool first = true;
    int dots = 0;
    for (auto& e : v)
    {
        if (e.name == "." || e.name == "..")
        {
            ++dots;
            continue;
        }
        s << (first ? "" : ",") << "[" << qs(e.name) << ",\"" << kind_of(e.kind) << "\"]";
        first = false;
    }
    s << "],\"dots\":" << dots;
    return s.str();
}
int list_dir(const string& path, vector<DirEnt>& v)
{
    fuse_file_info fi{};
    int rc = ops.opendir(path.c_str(), &fi);
    if (rc)
        return rc;
    rc = ops.readdir(nullptr, &v, filler, 0, &fi);
    int rc2 = ops.releasedir(nullptr, &fi);
    return rc ? rc : rc2;
}
// Kernel-like view of a path prefix: 0 or the error the VFS would give without calling the operation.
int parent_check(const string& path)
{
    size_t pos = 1;
    while (true)
    {
        size_t e = path.find('/', pos);
        if (e == string::npos)
            return 0;
        struct stat st{};
        int rc = ops.getattr(path.substr(0, e).c_str(), &st);
        if (rc)
            return rc;
        if (!S_ISDIR(st.st_mode))
            return -ENOTDIR;
        pos = e + 1;
    }
}
int kind(const string& path)
{
    if (path == "/")
        return S_IFDIR;
    struct stat st{};
    int rc = ops.getattr(path.c_str(), &st);
    return rc ? rc : static_cast<int>(st.st_mode & S_IFMT);
}
// 1: everything the kernel checks before calling; 2: kinds and parents only, existence is left to the code; 0: nothing
int vfs_filter = 1;

string xattr_json(const string& path, const string& err_prefix, vector<string>& errs)
{
    std::ostringstream s;
    s << "[";
    if (ops.listxattr)
    {
        int n = ops.listxattr(path.c_str(), nullptr, 0);
        if (n < 0)
            errs.push_back(err_prefix + "listxattr:" + std::to_string(n));
        else if (n > 0)
        {
            vector<char> b(n + 600);
            int m = ops.listxattr(path.c_str(), b.data(), b.size());
            if (m < 0)
                errs.push_back(err_prefix + "listxattr2:" + std::to_string(m));
            bool first = true;
            for (int i = 0; i < m;)
            {
                string nm(&b[i]);
                i += nm.size() + 1;
                int sz = ops.getxattr(path.c_str(), nm.c_str(), nullptr, 0);
                vector<char> v(std::max(sz, 0) + 1);
                int got = sz < 0 ? sz : ops.getxattr(path.c_str(), nm.c_str(), v.data(), std::max(sz, 1));
                if (got < 0)
                    errs.push_back(err_prefix + "getxattr:" + pct(nm) + ":" + std::to_string(got));
                else if (got != sz)
                    errs.push_back(err_prefix + "getxattr-size:" + pct(nm) + ":" + std::to_string(sz) + ":" + std::to_string(got));
                s << (first ? "" : ",") << "[" << qs(nm) << "," << (got < 0 ? "\"!\"" : qs(string(v.data(), got))) << "]";
                first = false;
            }
        }
    }
    s << "]";
    return s.str();
}

// data: 0 none, 1 as runs, 2 in hex
void snap_rec(const string& path, std::ostringstream& s, bool& first, vector<string>& errs, int data, bool xa, int depth)
{
    if (depth > 40)
        return;
    struct stat st{};
    string real = path.empty() ? "/" : path;
    int rc = ops.getattr(real.c_str(), &st);
    if (rc)
    {
        errs.push_back("getattr:" + pct(real) + ":" + std::to_string(rc));
        return;
    }
    s << (first ? "" : ",") << "{\"p\":" << qs(real) << "," << stat_json(st);
    first = false;
    vector<DirEnt> v;
    if (S_ISDIR(st.st_mode))
    {
        rc = list_dir(real, v);
        if (rc)
            errs.push_back("list:" + pct(real) + ":" + std::to_string(rc));
        s << ",\"ls\":" << list_json(v);
    }
    else if (S_ISREG(st.st_mode) && data)
    {
        fuse_file_info fi{};
        fi.flags = O_RDONLY;
        rc = ops.open(real.c_str(), &fi);
        if (rc)
            errs.push_back("open:" + pct(real) + ":" + std::to_string(rc));
        else
        {
            size_t want = static_cast<size_t>(std::max<off_t>(st.st_size, 0)) + 64;
            if (want > (64u << 20))
                want = 64u << 20;
            vector<char> b(want);
            int n = ops.read(nullptr, b.data(), b.size(), 0, &fi);
            if (n < 0)
                errs.push_back("read:" + pct(real) + ":" + std::to_string(n));
            else if (data == 1)
                s << ",\"d\":" << runs(b.data(), n, 0);
            else
            {
                s << ",\"raw\":\"";
                for (int i = 0; i < n; ++i)
                    s << "0123456789abcdef"[(b[i] >> 4) & 15] << "0123456789abcdef"[b[i] & 15];
                s << "\"";
            }
            rc = ops.release(nullptr, &fi);
            if (rc)
                errs.push_back("release:" + pct(real) + ":" + std::to_string(rc));
        }
    }
    else if (S_ISLNK(st.st_mode))
    {
        vector<char> b(5000);
        rc = ops.readlink(real.c_str(), b.data(), b.size());
        if (rc)
            errs.push_back("readlink:" + pct(real) + ":" + std::to_string(rc));
        else
            s << ",\"t\":" << qs(b.data());
    }
    if (xa && !S_ISLNK(st.st_mode))
        s << ",\"x\":" << xattr_json(real, pct(real) + ":", errs);
    s << "}";
    if (S_ISDIR(st.st_mode))
    {
        vector<string> names;
        for (auto& e : v)
            if (e.name != "." && e.name != "..")
                names.push_back(e.name);
        std::sort(names.begin(), names.end());
        names.erase(std::unique(names.begin(), names.end()), names.end());
        for (auto& n : names)
            snap_rec(path + "/" + n, s, first, errs, data, xa, depth + 1);
    }
}

int do_mount(std::map<string, string>& kv)
{
    using namespace securefs;
    auto num = [&](const char* k, long d) { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); };
    DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(num("block", 4096));
    p.mutable_size_params()->set_iv_size(num("iv", 12));
    p.mutable_size_params()->set_max_padding_size(num("pad", 0));
    int seed = num("keyseed", 1);
    auto key = [&](int i)
    {
        std::mt19937 g(seed * 97 + i);
        string s(32, 0);
        for (auto& c : s)
            c = static_cast<char>(g());
        return s;
    };
    if (kv["format"] == "lite")
    {
        auto l = p.mutable_lite_format_params();
        l->set_name_key(key(1));
        l->set_content_key(key(2));
        l->set_xattr_key(key(3));
        if (num("pad", 0) > 0)
            l->set_padding_key(key(4));
        if (num("thr", 128) >= 0)
            l->set_long_name_threshold(num("thr", 128));
        if (kv.count("suf"))
            l->set_long_name_suffix(unpct(kv["suf"]));
    }
    else
    {
        auto f = p.mutable_full_format_params();
        f->set_master_key(key(5));
        f->set_store_time(num("store_time", 0));
        f->set_legacy_file_table_io(num("legacy", 0));
        f->set_case_insensitive(num("ci", 0));
        f->set_unicode_normalization_agnostic(num("uninorm", 0));
    }
    if (kv.count("cfg"))
    {
        try
        {
            string pass = kv.count("pass") ? unpct(kv["pass"]) : string(" ");
            p = decrypt(OSService::get_default().open_file_stream(unpct(kv["cfg"]), O_RDONLY, 0)->as_string(),
                        {reinterpret_cast<const byte*>(pass.data()), pass.size()},
                        maybe_open_key_stream(kv.count("keyfile") ? unpct(kv["keyfile"]) : string()).get());
        }
        catch (const std::exception& e)
        {
            fprintf(stderr, "config: %s\n", e.what());
            return -9997;
        }
    }
    MountOptions m;
    m.set_read_only(num("ro", 0));
    m.set_disable_verification(num("noverify", 0));
    m.set_enable_xattr(num("xattr", 1));
    m.set_case_fold(num("fold", 0));
    m.set_unicode_normalize_nfc(num("nfc", 0));
    m.set_plain_text_names(num("plain", 0));
    if (kv.count("uid"))
        m.set_uid_override(num("uid", 0));
    if (kv.count("gid"))
        m.set_gid_override(num("gid", 0));
    if (num("idle", 0))
        m.set_max_idle_seconds(num("idle", 0));
    try
    {
        auto os = std::make_shared<OSService>(unpct(kv["dir"]));
        g_ops = make_fuse_high_level_ops(os, p, m);
    }
    catch (const ExceptionBase& e)
    {
        return -(e.error_number() ? e.error_number() : EIO);
    }
    catch (const std::exception& e)
    {
        fprintf(stderr, "mount: %s\n", e.what());
        return -9999;
    }
    g_private = g_ops.get();
    ops = FuseHighLevelOpsBase::build_ops(g_ops.get());
    fuse_conn_info ci{};
    if (ops.init)
        ops.init(&ci);
    mounted = true;
    return 0;
}

struct Cmd
{
    vector<string> a;
    long n(size_t i, long d = 0) const { return i < a.size() ? atol(a[i].c_str()) : d; }
    string s(size_t i) const { return i < a.size() ? unpct(a[i]) : string(); }
};
Cmd split(const string& line)
{
    Cmd c;
    std::istringstream is(line);
    string t;
    while (is >> t)
        c.a.push_back(t);
    return c;
}
string R(long r) { return "{\"r\":" + std::to_string(r) + "}"; }

// Executes one file system operation; thread safe.
string fsop(const Cmd& c)
{
    const string& op = c.a[0];
    if (!mounted)
        return "{\"r\":-9998}";
    auto filt = [&](const string& p) { return vfs_filter ? parent_check(p) : 0; };
    int rc;
    if (op == "create" || op == "open")
    {
        auto s = std::make_shared<Slot>();
        string p = c.s(2);
        if ((rc = filt(p)))
            return R(rc);
        if (op == "create")
        {
            if (vfs_filter == 1 && (rc = kind(p)) > 0)
                return R(-EEXIST);
            s->fi.flags = O_RDWR | O_CREAT | O_EXCL;
            rc = ops.create(p.c_str(), c.n(3, 0644) | S_IFREG, &s->fi);
        }
        else
        {
            if (vfs_filter)
            {
                rc = kind(p);
                if (rc < 0 && vfs_filter == 1)
                    return R(rc);
                if (rc == S_IFDIR)
                    return R(-EISDIR);
                if (rc == S_IFLNK)
                    return R(-ELOOP);
            }
            string m = c.s(3);
            s->fi.flags = m == "r" ? O_RDONLY : m == "w" ? O_WRONLY : m == "t" ? (O_RDWR | O_TRUNC) : m == "a" ? (O_WRONLY | O_APPEND) : O_RDWR;
            rc = ops.open(p.c_str(), &s->fi);
        }
        if (rc == 0)
        {
            std::lock_guard<std::mutex> lg(slots_mu);
            slots[c.n(1)] = s;
        }
        return R(rc);
    }
    if (op == "release" || op == "releasedir")
    {
        auto s = slot(c.n(1));
        if (!s)
            return R(-9997);
        {
            std::lock_guard<std::mutex> lg(slots_mu);
            slots.erase(c.n(1));
        }
        return R(s->dir ? ops.releasedir(nullptr, &s->fi) : ops.release(nullptr, &s->fi));
    }
    if (op == "opendir")
    {
        string p = c.s(2);
        if ((rc = filt(p)))
            return R(rc);
        if (vfs_filter)
        {
            rc = kind(p);
            if (rc < 0 && vfs_filter == 1)
                return R(rc);
            if (rc >= 0 && rc != S_IFDIR)
                return R(-ENOTDIR);
        }
        auto s = std::make_shared<Slot>();
        s->dir = true;
        rc = ops.opendir(p.c_str(), &s->fi);
        if (rc == 0)
        {
            std::lock_guard<std::mutex> lg(slots_mu);
            slots[c.n(1)] = s;
        }
        return R(rc);
    }
    if (op == "read" || op == "write" || op == "ftruncate" || op == "fgetattr" || op == "readdir" || op == "flush" || op == "fsync")
    {
        auto s = slot(c.n(1));
        if (!s)
            return R(-9997);
        if (op == "read")
        {
            long off = c.n(2), len = c.n(3);
            vector<char> b(len + 1, '\xee');
            rc = ops.read(nullptr, b.data(), len, off, &s->fi);
            if (rc < 0)
                return R(rc);
            return "{\"r\":" + std::to_string(rc) + ",\"d\":" + runs(b.data(), std::min<long>(rc, len), off) + "}";
        }
        if (op == "write")
        {
            long off = c.n(2), len = c.n(3);
            vector<char> b(len + 1);
            if (c.n(4) == 0)
                memset(b.data(), 0, len);
            else
                fill_pattern(b.data(), len, off, c.n(4));
            return R(ops.write(nullptr, b.data(), len, off, &s->fi));
        }
        if (op == "ftruncate")
            return R(ops.ftruncate(nullptr, c.n(2), &s->fi));
        if (op == "fgetattr")
        {
            struct stat st{};
            rc = ops.fgetattr(nullptr, &st, &s->fi);
            return rc ? R(rc) : "{\"r\":0," + stat_json(st) + "}";
        }
        if (op == "readdir")
        {
            vector<DirEnt> v;
            rc = ops.readdir(nullptr, &v, filler, 0, &s->fi);
            return rc ? R(rc) : "{\"r\":0,\"ls\":" + list_json(v) + "}";
        }
        if (op == "flush")
            return R(ops.flush(nullptr, &s->fi));
        return R(ops.fsync(nullptr, c.n(2), &s->fi));
    }
    // Path operations
    string p = c.s(1);
    if (op == "link" || op == "rename")
    {
        string q = c.s(2);
        if ((rc = filt(p)) || (rc = filt(q)))
            return R(rc);
        if (vfs_filter)
        {
            int kp = kind(p);
            if (kp < 0 && vfs_filter == 1)
                return R(kp);
            int kq = kind(q);
            if (kq < 0 && kq != -ENOENT && kq != -ENAMETOOLONG && vfs_filter == 1)
                return R(kq);
            if (op == "link")
            {
                if (kq > 0 && vfs_filter == 1)
                    return R(-EEXIST);
                if (kp == S_IFDIR)
                    return R(-EPERM);
            }
            else
            {
                if (kp < 0 && (p == q || p.compare(0, q.size() + 1, q + "/") == 0 || q.compare(0, p.size() + 1, p + "/") == 0))
                    return R(kp);
                if (p == q)
                    return R(0);
                if (kp == S_IFDIR && q.compare(0, p.size() + 1, p + "/") == 0)
                    return R(-EINVAL);
                if (kq > 0)
                {
                    if (p.compare(0, q.size() + 1, q + "/") == 0)
                        return R(-ENOTEMPTY);
                    if (kp == S_IFDIR && kq != S_IFDIR)
                        return R(-ENOTDIR);
                    if (kp > 0 && kp != S_IFDIR && kq == S_IFDIR)
                        return R(-EISDIR);
                }
            }
        }
        return R(op == "link" ? ops.link(p.c_str(), q.c_str()) : ops.rename(p.c_str(), q.c_str()));
    }
    if (op == "symlink")
    {
        string q = c.s(2);
        if ((rc = filt(q)))
            return R(rc);
        if (vfs_filter == 1 && kind(q) > 0)
            return R(-EEXIST);
        return R(ops.symlink(p.c_str(), q.c_str()));
    }
    if ((rc = filt(p)))
        return R(rc);
    if (op == "getattr")
    {
        struct stat st{};
        rc = ops.getattr(p.c_str(), &st);
        return rc ? R(rc) : "{\"r\":0," + stat_json(st) + "}";
    }
    if (op == "mkdir")
    {
        if (vfs_filter == 1 && kind(p) > 0)
            return R(-EEXIST);
        return R(ops.mkdir(p.c_str(), c.n(2, 0755)));
    }
    if (op == "rmdir" || op == "unlink" || op == "truncate" || op == "readlink" || op == "ls")
    {
        if (vfs_filter)
        {
            int k = kind(p);
            if (k < 0 && vfs_filter == 1)
                return R(k);
            if (k < 0)
                ;
            else if (op == "rmdir" && k != S_IFDIR)
                return R(-ENOTDIR);
            else if (op == "unlink" && k == S_IFDIR)
                return R(-EISDIR);
            else if (op == "truncate" && k != S_IFREG)
                return R(k == S_IFDIR ? -EISDIR : -EINVAL);
            else if (op == "readlink" && k != S_IFLNK)
                return R(-EINVAL);
            else if (op == "ls" && k != S_IFDIR)
                return R(-ENOTDIR);
        }
        if (op == "rmdir")
            return R(ops.rmdir(p.c_str()));
        if (op == "unlink")
            return R(ops.unlink(p.c_str()));
        if (op == "truncate")
            return R(ops.truncate(p.c_str(), c.n(2)));
        if (op == "ls")
        {
            vector<DirEnt> v;
            rc = list_dir(p, v);
            return rc ? R(rc) : "{\"r\":0,\"ls\":" + list_json(v) + "}";
        }
        vector<char> b(c.n(2, 5000) + 1);
        rc = ops.readlink(p.c_str(), b.data(), b.size() - 1);
        return rc ? R(rc) : "{\"r\":0,\"t\":" + qs(b.data()) + "}";
    }
    if (op == "chmod")
    {
        if (vfs_filter && kind(p) == S_IFLNK)
            return R(-EOPNOTSUPP);
        struct stat st{};
        if ((rc = ops.getattr(p.c_str(), &st)))
            return R(rc);
        return R(ops.chmod(p.c_str(), (st.st_mode & S_IFMT) | c.n(2)));
    }
    if (op == "chown")
        return R(ops.chown(p.c_str(), c.n(2), c.n(3)));
    if (op == "utimens")
    {
        if (c.a.size() > 2 && c.a[2] == "now")
            return R(ops.utimens(p.c_str(), nullptr));
        timespec ts[2];
        ts[0].tv_sec = c.n(2);
        ts[0].tv_nsec = c.n(3);
        ts[1].tv_sec = c.n(4);
        ts[1].tv_nsec = c.n(5);
        return R(ops.utimens(p.c_str(), ts));
    }
    if (op == "setxattr")
    {
        if (!ops.setxattr)
            return R(-ENOSYS);
        string v = c.s(3);
        return R(ops.setxattr(p.c_str(), c.s(2).c_str(), v.data(), v.size(), c.n(4)));
    }
    if (op == "getxattr")
    {
        if (!ops.getxattr)
            return R(-ENOSYS);
        long sz = c.n(3);
        vector<char> b(sz + 1, '\xee');
        rc = ops.getxattr(p.c_str(), c.s(2).c_str(), sz ? b.data() : nullptr, sz);
        if (rc < 0 || sz == 0)
            return R(rc);
        return "{\"r\":" + std::to_string(rc) + ",\"v\":" + qs(string(b.data(), std::min<long>(rc, sz))) + "}";
    }
    if (op == "listxattr")
    {
        if (!ops.listxattr)
            return R(-ENOSYS);
        long sz = c.n(2);
        vector<char> b(sz + 1, '\xee');
        rc = ops.listxattr(p.c_str(), sz ? b.data() : nullptr, sz);
        if (rc < 0 || sz == 0)
            return R(rc);
        std::ostringstream s;
        s << "{\"r\":" << rc << ",\"l\":[";
        bool first = true;
        for (int i = 0; i < rc && i < sz;)
        {
            string nm(&b[i], strnlen(&b[i], rc - i));
            s << (first ? "" : ",") << qs(nm);
            first = false;
            i += nm.size() + 1;
        }
        s << "]}";
        return s.str();
    }
    if (op == "removexattr")
        return ops.removexattr ? R(ops.removexattr(p.c_str(), c.s(2).c_str())) : R(-ENOSYS);
    if (op == "getpath")
    {
        if (!ops.getattr || !g_ops || !g_ops->has_getpath())
            return R(-ENOSYS);
        vector<char> b(c.n(2, 4096) + 1);
        try
        {
            rc = g_ops->vgetpath(p.c_str(), b.data(), b.size() - 1, nullptr, fuse_get_context());
        }
        catch (const securefs::ExceptionBase& e)
        {
            rc = -e.error_number();
        }
        return rc ? R(rc) : "{\"r\":0,\"t\":" + qs(b.data()) + "}";
    }
    if (op == "statfs")
    {
        struct statvfs b{};
        rc = ops.statfs(p.c_str(), &b);
        return rc ? R(rc) : "{\"r\":0,\"namemax\":" + std::to_string(b.f_namemax) + "}";
    }
    return "{\"r\":-9996}";
}

void reply(const string& s)
{
    in_driver_io = true;
    fputs(s.c_str(), out);
    fputc('\n', out);
    fflush(out);
    in_driver_io = false;
}

void on_alarm(int)
{
    const char m[] = "{\"hang\":1}\n";
    (void)!REAL(write)(fileno(out), m, sizeof m - 1);
    _exit(78);
}

long stamp()
{
    timespec t;
    REAL(clock_gettime)(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
// Times at which the shutdown callback wrote to the self pipe of my_fuse_main.
std::mutex fires_mu;
vector<long> fires;
void watch_exit()
{
    std::thread(
        []()
        {
            char c;
            while (::read(last_pipe[0], &c, 1) == 1)
            {
                std::lock_guard<std::mutex> lg(fires_mu);
                fires.push_back(stamp());
            }
        })
        .detach();
}
// One line per timer: steps separated by commas, performed by a thread of its own on a ResettableTimer of its own:
// s<ms> sets the deadline that many milliseconds from now (negative: in the past), w<us> waits, d destroys it (without it the thread waits for the
// callback for as long as told and then destroys it), D destroys it after this many microseconds while the thread itself goes on.
string timers(const string& file, long patience_ms)
{
    std::ifstream in(file);
    vector<string> specs;
    string line;
    while (std::getline(in, line))
        specs.push_back(line);
    vector<string> results(specs.size());
    std::atomic<size_t> next{0};
    vector<std::thread> th;
    for (size_t w = 0; w < std::min<size_t>(specs.size(), 256); ++w)
        th.emplace_back(
            [&]()
            {
                for (size_t k; (k = next++) < specs.size();)
                {
                    std::ostringstream s;
                    std::mutex mu;
                    vector<long> at;
                    auto timer = std::make_unique<securefs::ResettableTimer>(
                        [&]()
                        {
                            long t = stamp();
                            std::lock_guard<std::mutex> lg(mu);
                            at.push_back(t);
                        });
                    bool first = true;
                    auto ev = [&](const char* op, long b, long e, long d)
                    {
                        s << (first ? "" : ",") << "{\"op\":\"" << op << "\",\"b\":" << b << ",\"e\":" << e << ",\"d\":" << d << "}";
                        first = false;
                    };
                    auto fired = [&]()
                    {
                        std::lock_guard<std::mutex> lg(mu);
                        return !at.empty();
                    };
                    std::istringstream is(specs[k]);
                    string a;
                    bool set = false;
                    while (std::getline(is, a, ','))
                    {
                        long v = a.size() > 1 ? atol(a.c_str() + 1) : 0;
                        if (a[0] == 's')
                        {
                            long b = stamp(), d = b + v * 1000;
                            timer->setTimePoint(absl::FromUnixMicros(d));
                            ev("set", b, stamp(), d);
                            set = true;
                        }
                        else if (a[0] == 'w')
                            usleep(v);
                        else if (a[0] == 'd')
                            break;
                        else if (a[0] == 'f')    // until it fires
                        {
                            long b = stamp();
                            while (set && !fired() && stamp() < b + patience_ms * 1000)
                                usleep(2000);
                            ev("waited", b, stamp(), 0);
                            usleep(v);
                        }
                    }
                    long b = stamp();
                    timer.reset();
                    long e = stamp();
                    ev("destroyed", b, e, 0);
                    usleep(20000);
                    for (long t : at)
                        ev("fire", t, t, 0);
                    ev("end", stamp(), stamp(), 0);
                    results[k] = s.str();
                }
            });
    for (auto& t : th)
        t.join();
    std::ostringstream s;
    s << "{\"r\":0,\"timers\":[";
    for (size_t i = 0; i < results.size(); ++i)
        s << (i ? "," : "") << "[" << results[i] << "]";
    s << "]}";
    return s.str();
}

void par(int nthreads)
{
    struct Item
    {
        int t;
        string text;
        Cmd c;
        long s = 0, e = 0, b = 0, x = 0;
        string res;
    };
    vector<vector<Item>> per(nthreads);
    string line;
    while (std::getline(std::cin, line) && line != "endpar")
    {
        size_t sp = line.find(' ');
        Item it;
        it.t = atoi(line.substr(0, sp).c_str());
        it.text = line.substr(sp + 1);
        it.c = split(it.text);
        per[it.t].push_back(it);
    }
    std::atomic<long> seq{0};
    std::atomic<int> ready{0};
    vector<std::thread> th;
    uid_t u = c_uid;
    gid_t g = c_gid;
    bool sch = !sched.plan.empty();
    if (sch)
        sched.begin(nthreads);
    for (int t = 0; t < nthreads; ++t)
        th.emplace_back(
            [&, t]()
            {
                c_uid = u;
                c_gid = g;
                ++ready;
                while (ready.load() < nthreads)
                    ;
                if (sch)
                {
                    sched_id = t;
                    std::unique_lock<std::mutex> lk(sched.mu);
                    sched.take(lk, t);
                }
                for (auto& it : per[t])
                {
                    const string& w = it.c.a[0];
                    if (w == "sleep")
                    {
                        usleep(it.c.n(1) * 1000);
                        it.res = R(0);
                        continue;
                    }
                    if (w == "slow")
                    {
                        slow_clock_us = it.c.n(1) * 1000;
                        it.res = R(0);
                        continue;
                    }
                    it.b = stamp();
                    it.s = ++seq;
                    it.res = fsop(it.c);
                    it.e = ++seq;
                    it.x = stamp();
                }
                if (sch)
                    sched.finished(t);
                sched_id = -1;
            });
    for (auto& t : th)
        t.join();
    std::ostringstream s;
    s << "{\"r\":0,\"points\":[";
    for (int t = 0; sch && t < nthreads; ++t)
        s << (t ? "," : "") << sched.points[t];
    sched.plan.clear();
    s << "],\"par\":[";
    bool first = true;
    for (int t = 0; t < nthreads; ++t)
        for (size_t i = 0; i < per[t].size(); ++i)
        {
            auto& it = per[t][i];
            s << (first ? "" : ",") << "{\"t\":" << t << ",\"i\":" << i << ",\"s\":" << it.s << ",\"e\":" << it.e << ",\"b\":" << it.b << ",\"x\":" << it.x << ",\"o\":" << it.res << "}";
            first = false;
        }
    s << "]}";
    reply(s.str());
}

string mount_dir;
struct Objects
{
    long data = 0, meta = 0, links = 0, dirs = 0, empty = 0, tables = 0, other = 0;
};
// Counts what the data directory holds; returns the number of entries that are neither empty directories nor ours.
long count_objects(const string& d, Objects& o, bool top, bool full)
{
    long n = 0;
    DIR* dp = ::opendir(d.c_str());
    if (!dp)
        return 0;
    while (auto e = ::readdir(dp))
    {
        string nm = e->d_name;
        if (nm == "." || nm == "..")
            continue;
        struct stat st{};
        if (::lstat((d + "/" + nm).c_str(), &st))
            continue;
        ++n;
        if (S_ISDIR(st.st_mode))
        {
            ++o.dirs;
            if (count_objects(d + "/" + nm, o, false, full) == 0)
            {
                ++o.empty;
                if (full)
                    --n;
            }
        }
        else if (S_ISLNK(st.st_mode))
            ++o.links;
        else if (full && top && nm == ".securefs.lock")
            --n;
        else if (full && top)
            ++o.other;
        else if (nm == ".long_names.db")
            ++o.tables;
        else if (nm.compare(0, 15, ".long_names.db-") == 0)
            ; // a journal
        else if (full && nm.size() > 5 && nm.compare(nm.size() - 5, 5, ".meta") == 0)
            ++o.meta;
        else
            ++o.data;
    }
    ::closedir(dp);
    return n;
}

bool run_loop()
{
    string line;
    while (std::getline(std::cin, line))
    {
        Cmd c = split(line);
        if (c.a.empty() || c.a[0][0] == '#')
            continue;
        const string& op = c.a[0];
        if (wlog && !in_driver_io)
        {
            fprintf(wlog, "O 0 %d - %s\n", ++wlog_ops, op.c_str());
            fflush(wlog);
        }
        if (vclock_on)
            ++vclock_sec;
        if (op == "exitloop")
            return true;
        else if (op == "quit")
            _exit(0);
        else if (op == "user")
        {
            // From now on a process of that user: it may open everything, but has no power over the processes of others.
            uid_t u = (uid_t)c.n(1);
            int rc = prctl(PR_SET_KEEPCAPS, 1);
            if (!rc)
                rc = setresuid(u, u, 0);
            __user_cap_header_struct h{_LINUX_CAPABILITY_VERSION_3, 0};
            __user_cap_data_struct cap[2];
            if (!rc)
                rc = (int)syscall(SYS_capget, &h, cap);
            if (!rc)
            {
                for (auto& x : cap)
                    x.effective = x.permitted, x.inheritable = 0;
                cap[0].effective &= ~(1u << CAP_KILL);
                rc = (int)syscall(SYS_capset, &h, cap);
            }
            reply(R(rc ? -errno : 0));
        }
        else if (op == "step")
        {
            step_fd = c.a.size() > 1 ? ::open(c.s(1).c_str(), O_RDWR | O_CLOEXEC) : -1;
            reply(R(step_fd.load()));
        }
        else if (op == "dig")
        {
            // names and digests (FNV-1a) of the regular files directly in a directory
            in_driver_io = true;
            std::map<string, string> m;
            string dir = c.s(1);
            if (DIR* d = opendir(dir.c_str()))
            {
                while (auto e = readdir(d))
                {
                    struct stat st{};
                    if (::lstat((dir + "/" + e->d_name).c_str(), &st) || !S_ISREG(st.st_mode))
                        continue;
                    unsigned long h = 1469598103934665603UL;
                    if (FILE* f = fopen((dir + "/" + e->d_name).c_str(), "rb"))
                    {
                        int ch;
                        while ((ch = fgetc(f)) != EOF)
                            h = (h ^ ch) * 1099511628211UL;
                        fclose(f);
                    }
                    m[e->d_name] = std::to_string(h);
                }
                closedir(d);
            }
            string t;
            for (auto& [k, v] : m)
                t += (t.empty() ? "" : ",") + qs(k) + ":" + qs(v);
            in_driver_io = false;
            reply("{\"files\":{" + t + "}}");
        }
        else if (op == "dirorder")
        {
            dir_order = c.n(1);
            reply(R(0));
        }
        else if (op == "cmount")
        {
            // The same options as for "mount", by way of the command line program (which first creates the repository if there is none).
            std::map<string, string> kv;
            for (size_t i = 1; i < c.a.size(); ++i)
            {
                size_t e = c.a[i].find('=');
                kv[c.a[i].substr(0, e)] = unpct(c.a[i].substr(e + 1));
            }
            mount_dir = kv["dir"];
            auto on = [&](const char* k) { auto it = kv.find(k); return it != kv.end() && it->second != "0"; };
            auto call = [](const vector<string>& args)
            {
                vector<const char*> av;
                for (auto& a : args)
                    av.push_back(a.c_str());
                av.push_back(nullptr);
                try
                {
                    return securefs::commands_main(av.size() - 1, av.data());
                }
                catch (const std::exception& e)
                {
                    fprintf(stderr, "%s\n", e.what());
                    return 1;
                }
            };
            vector<string> cred;
            if (!kv.count("keyfile") || (kv.count("pass") && kv["pass"] != " "))      // " " is what the program takes when it is given only a key file
                cred = {"--pass", kv.count("pass") ? kv["pass"] : "pw"};
            if (kv.count("keyfile"))
            {
                cred.push_back("--keyfile");
                cred.push_back(kv["keyfile"]);
            }
            int rc = 0;
            struct stat cst;
            in_driver_io = true;
            bool there = on("nocreate") || kv.count("cfg") || ::stat((mount_dir + "/.config.pb").c_str(), &cst) == 0;
            in_driver_io = false;
            if (!there)
            {
                vector<string> a{"securefs", "create", "--format", kv["format"], "--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1"};
                a.insert(a.end(), cred.begin(), cred.end());
                for (auto [k, o] : {std::make_pair("block", "--block-size"), {"iv", "--iv-size"}, {"pad", "--max-padding"}, {"thr", "--long-name-threshold"}, {"suf", "--long-name-suffix"}})
                    if (kv.count(k))
                    {
                        a.push_back(o);
                        a.push_back(kv[k]);
                    }
                if (on("ci"))
                    a.insert(a.end(), {"--case", "insensitive"});
                if (on("uninorm"))
                    a.insert(a.end(), {"--uninorm", "insensitive"});
                a.push_back(mount_dir);
                rc = call(a);
            }
            if (rc == 0)
            {
                string at = mount_dir + ".mnt";
                vector<string> a{"securefs", "mount"};
                a.insert(a.end(), cred.begin(), cred.end());
                if (kv.count("cfg"))
                    a.insert(a.end(), {"--config", kv["cfg"]});
                for (auto [k, o] : {std::make_pair("noverify", "--insecure"), {"plain", "--plain-text-names"}, {"single", "--single"}, {"noxattr", "--noxattr"}})
                    if (on(k))
                        a.push_back(o);
                for (auto [k, o] : {std::make_pair("uid", "--uid-override"), {"gid", "--gid-override"}, {"idle", "--max-idle-seconds"}, {"useino", "--use-ino"}})
                    if (kv.count(k))
                    {
                        a.push_back(o);
                        a.push_back(kv[k]);
                    }
                if (on("fold") || on("nfc"))
                    a.insert(a.end(), {"--normalization", on("fold") && on("nfc") ? "casefold+nfc" : on("fold") ? "casefold" : "nfc"});
                a.push_back(mount_dir);
                a.push_back(at);
                by_command = true;
                rc = call(a);
                by_command = false;
                // the answer to "umount", or to a mount that was refused
                bool was = rc == 1 && !mounted && g_command_mounted;
                g_command_mounted = false;
                in_driver_io = true;
                ::rmdir(at.c_str());
                in_driver_io = false;
                reply(R(was ? 0 : rc ? -EPERM : 0));
            }
            else
                reply(R(-9996));
        }
        else if (op == "mount")
        {
            std::map<string, string> kv;
            for (size_t i = 1; i < c.a.size(); ++i)
            {
                size_t e = c.a[i].find('=');
                kv[c.a[i].substr(0, e)] = c.a[i].substr(e + 1);
            }
            mount_dir = unpct(kv["dir"]);
            reply(R(do_mount(kv)));
        }
        else if (op == "umount")
        {
            // "umount open": files that are still open are not released first, as when the process is stopped by a signal.
            if (c.a.size() > 1)
                slots.clear();
            {
                std::lock_guard<std::mutex> lg(slots_mu);
                for (auto& [h, s] : slots)
                    s->dir ? ops.releasedir(nullptr, &s->fi) : ops.release(nullptr, &s->fi);
                slots.clear();
            }
            if (by_command)
                return true;
            if (ops.destroy)
                ops.destroy(g_private);
            mounted = false;
            g_private = nullptr;
            ops = {};
            g_ops.reset();
            reply(R(0));
        }
        else if (op == "drop")
        {
            // handles are forgotten as a killed client would; the mount object is leaked: only used before quit
            reply(R(0));
        }
        else if (op == "ctx")
        {
            c_uid = c.n(1);
            c_gid = c.n(2);
            reply(R(0));
        }
        else if (op == "filter")
        {
            vfs_filter = c.n(1);
            reply(R(0));
        }
        else if (op == "vclock")
        {
            vclock_sec = c.n(1);
            vclock_on = c.n(1) != 0;
            reply(R(0));
        }
        else if (op == "now")
            reply("{\"r\":0,\"now\":" + std::to_string(vclock_sec.load()) + "}");
        else if (op == "jitter")
        {
            jitter_us = c.n(1);
            jitter_seed = c.n(2, 1);
            reply(R(0));
        }
        else if (op == "sched")
        {
            sched.plan.clear();
            for (size_t i = 1; i < c.a.size(); ++i)
                sched.plan.push_back({atoi(c.a[i].c_str()), atol(c.a[i].c_str() + c.a[i].find(':') + 1)});
            reply(R(0));
        }
        else if (op == "alarm")
        {
            signal(SIGALRM, on_alarm);
            alarm(c.n(1));
            reply(R(0));
        }
        else if (op == "fault" || op == "crash" || op == "pause" || op == "count")
        {
            inj_count = 0;
            inj_n = c.n(1);
            inj_reads = false;
            if (op == "fault")
            {
                inj_errno = c.n(2, EIO);
                inj_len = c.n(3, 1);
                inj_reads = c.n(4, 0);
                inj_mode = static_cast<int>(Inj::kFail);
            }
            else if (op == "crash")
            {
                string m = c.s(2);
                inj_mode = static_cast<int>(m == "torn" ? Inj::kCrashTorn : m == "after" ? Inj::kCrashAfter : Inj::kCrash);
            }
            else if (op == "pause")
            {
                pause_file = c.s(2);
                inj_mode = static_cast<int>(Inj::kPause);
            }
            else
                inj_mode = static_cast<int>(Inj::kCount);
            reply(R(0));
        }
        else if (op == "disarm")
        {
            inj_mode = 0;
            reply("{\"r\":0,\"count\":" + std::to_string(inj_count.load()) + "}");
        }
        else if (op == "wlog")
        {
            std::lock_guard<std::mutex> lg(wlog_mu);
            if (wlog)
                fclose(wlog);
            wlog = c.a.size() > 1 ? fopen(c.s(1).c_str(), "a") : nullptr;
            reply(R(0));
        }
        else if (op == "cli")
        {
            vector<string> args{"securefs"};
            for (size_t i = 1; i < c.a.size(); ++i)
                args.push_back(c.s(i));
            vector<const char*> av;
            for (auto& a : args)
                av.push_back(a.c_str());
            av.push_back(nullptr);
            int rc;
            string what, printed;
            fflush(stdout);
            int cap = memfd_create("cli", 0), saved = dup(1);
            if (cap >= 0)
                dup2(cap, 1);
            try
            {
                rc = securefs::commands_main(av.size() - 1, av.data());
            }
            catch (const std::exception& e)
            {
                rc = -9995;
                what = e.what();
            }
            fflush(stdout);
            dup2(saved, 1);
            close(saved);
            if (cap >= 0)
            {
                in_driver_io = true;
                char b[4096];
                ssize_t n;
                lseek(cap, 0, SEEK_SET);
                while ((n = ::read(cap, b, sizeof b)) > 0)
                    printed.append(b, n);
                close(cap);
                in_driver_io = false;
            }
            reply("{\"r\":" + std::to_string(rc) + ",\"what\":" + qs(what) + ",\"out\":" + qs(printed) + "}");
        }
        else if (op == "exitpipe")
        {
            // Has the shutdown callback written to the self pipe of my_fuse_main within the given milliseconds?
            fd_set s;
            FD_ZERO(&s);
            FD_SET(last_pipe[0], &s);
            timeval tv{c.n(1) / 1000, (c.n(1) % 1000) * 1000};
            timespec a, b;
            REAL(clock_gettime)(CLOCK_MONOTONIC, &a);
            int n = select(last_pipe[0] + 1, &s, nullptr, nullptr, &tv);
            REAL(clock_gettime)(CLOCK_MONOTONIC, &b);
            int bytes = 0;
            if (n > 0)
            {
                char buf[64];
                bytes = ::read(last_pipe[0], buf, sizeof buf);
            }
            reply("{\"r\":" + std::to_string(bytes) + ",\"ms\":" + std::to_string((b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000) + "}");
        }
        else if (op == "watchexit")
        {
            watch_exit();
            reply("{\"r\":0,\"t\":" + std::to_string(stamp()) + "}");
        }
        else if (op == "fires")
        {
            // Waits up to so many milliseconds for the shutdown callback, then tells when it was called (so often).
            long b = stamp(), n = 0;
            std::ostringstream s;
            while (true)
            {
                {
                    std::lock_guard<std::mutex> lg(fires_mu);
                    if (!fires.empty() || stamp() > b + c.n(1) * 1000)
                        break;
                }
                usleep(2000);
            }
            usleep(c.n(2) * 1000);
            std::lock_guard<std::mutex> lg(fires_mu);
            s << "{\"r\":0,\"t\":" << stamp() << ",\"fires\":[";
            for (long f : fires)
                s << (n++ ? "," : "") << f;
            s << "]}";
            reply(s.str());
        }
        else if (op == "timers")
            reply(timers(c.s(1), c.n(2)));
        else if (op == "sleep")
        {
            usleep(c.n(1) * 1000);
            reply(R(0));
        }
        else if (op == "migrate")
        {
            // change_long_name_suffix on a lite repository made by "mount" with the same keyseed
            securefs::DecryptedSecurefsParams p;
            p.mutable_lite_format_params()->set_long_name_suffix(c.s(2));
            int rc = 0;
            try
            {
                securefs::lite_format::change_long_name_suffix(c.s(1), p, c.s(3));
            }
            catch (const securefs::ExceptionBase& e)
            {
                rc = -(e.error_number() ? e.error_number() : EIO);
            }
            catch (const std::exception& e)
            {
                rc = -9999;
            }
            reply("{\"r\":" + std::to_string(rc) + ",\"suf\":" + qs(p.lite_format_params().long_name_suffix()) + "}");
        }
        else if (op == "par")
            par(c.n(1));
        else if (op == "snap")
        {
            if (!mounted)
            {
                reply(R(-9998));
                continue;
            }
            std::ostringstream s;
            vector<string> errs;
            bool first = true;
            s << "{\"r\":0,\"snap\":[";
            snap_rec("", s, first, errs, c.n(1, 1), c.n(2, 1), 0);
            s << "],\"err\":[";
            for (size_t i = 0; i < errs.size(); ++i)
                s << (i ? "," : "") << "\"" << errs[i] << "\"";
            s << "]}";
            reply(s.str());
        }
        else if (op == "objects")
        {
            Objects o;
            in_driver_io = true;
            count_objects(mount_dir, o, true, c.n(1) != 0);
            in_driver_io = false;
            std::ostringstream s;
            s << "{\"r\":0,\"o\":{\"data\":" << o.data << ",\"meta\":" << o.meta << ",\"links\":" << o.links << ",\"dirs\":" << o.dirs << ",\"empty\":" << o.empty << ",\"tables\":" << o.tables << ",\"other\":" << o.other << "}}";
            reply(s.str());
        }
        else if (op == "has")
        {
            reply(string("{\"r\":0,\"xattr\":") + (ops.setxattr ? "1" : "0") + ",\"getpath\":" + (g_ops && g_ops->has_getpath() ? "1" : "0") + "}");
        }
        else
            reply(fsop(c));
    }
    return false;
}
}    // namespace

int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    std::cin.tie(nullptr);
    umask(0);
    int fd = dup(1);
    fcntl(fd, F_SETFD, FD_CLOEXEC);
    out = fdopen(fd, "w");
    dup2(2, 1);
    if (!getenv("VDRV_LOG"))
        securefs::global_logger.reset();
    run_loop();
    fflush(out);
    // A process whose input ended without "umount" dies like a killed one.
    _exit(0);
}
