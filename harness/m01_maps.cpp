// M01: a circular buffer is mirrored or not given out at all, whatever the system answers to every single request.
#include <mc.hpp>
#include <Pothos/Framework/SharedBuffer.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace Pothos;

// ---- the system, with faults -------------------------------------------------------------------
namespace sys {
static bool on = false; static int budget = 0, used = 0; static std::string always; // the request that is refused from now on
static std::map<size_t, size_t> maps; static std::set<int> fds; static std::vector<std::string> files; static std::vector<std::pair<char *, size_t>> intruders; static const char *bad = nullptr;
// what happens to this request: 0 granted, 1 refused, 2 and more as the caller defines
static int fate(const char *what, int kinds)
{
    if (always == what) { if (mc::tracing()) mc::trace(std::string(what) + " refused again"); return 1; } if (not budget) return 0;
    const int c = mc::choose(kinds + 1, what); if (not c) return 0; budget--; used++;
    if (c == kinds) { always = what; if (mc::tracing()) mc::trace(std::string(what) + " refused from now on"); return 1; }
    if (mc::tracing()) mc::trace(std::string(what) + (c == 1?" refused":c == 2?" misplaced, someone else is there":" misplaced, next to someone else")); return c;
}
static void *raw(void *a, size_t n, int p, int f, int fd, off_t o) { return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
static void intrude(void *at, size_t n) { void *p = raw(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) return; std::memset(p, 0x5a, n); intruders.emplace_back((char *)p, n); }
static void *map(void *a, size_t n, int p, int f, int fd, off_t o)
{
    if (not on) return raw(a, n, p, f, fd, o);
    const bool hinted = a != nullptr; const int c = fate(hinted?"mmap at an address":"mmap", hinted?4:2);
    if (c == 1) { errno = ENOMEM; return MAP_FAILED; }
    if (f & MAP_FIXED) { if (c) { errno = ENOMEM; return MAP_FAILED; } bool own = false; for (auto &m : maps) if (size_t(a) >= m.first and size_t(a) + n <= m.first + m.second) own = true; if (not own) bad = "a mapping is forced onto memory that is not reserved"; }
    else { const size_t pg = 4096; if (c == 2) intrude(a, n); if (c == 3) intrude((char *)a + n - pg, pg); }
    void *r = raw(a, n, p, f, fd, o); if (r == MAP_FAILED) return r;
    if (f & MAP_FIXED) { std::map<size_t, size_t> keep; for (auto m : maps) { const size_t b = size_t(a), e = b + n; if (m.first < b) keep[m.first] = std::min(m.second, b - m.first); if (m.first + m.second > e and m.first < e) keep[e] = m.first + m.second - e; if (m.first >= e) keep[m.first] = m.second; } maps = keep; }
    maps[size_t(r)] = n; return r;
}
static int unmap(void *a, size_t n)
{
    if (not on) return int(syscall(SYS_munmap, a, n));
    // every page given back must be one of ours
    for (size_t x = size_t(a); x < size_t(a) + n; x += 4096) { bool own = false; for (auto &m : maps) if (x >= m.first and x < m.first + m.second) own = true; if (not own) bad = "memory is unmapped that belongs to someone else"; }
    std::map<size_t, size_t> keep; for (auto m : maps) { const size_t b = size_t(a), e = b + n; if (m.first < b) keep[m.first] = std::min(m.second, b - m.first); if (m.first + m.second > e and m.first < e) keep[e] = m.first + m.second - e; if (m.first >= e) keep[m.first] = m.second; } maps = keep;
    return int(syscall(SYS_munmap, a, n));
}
static int open(const char *path, int f, int mode)
{
    if (not on) return int(syscall(SYS_openat, AT_FDCWD, path, f, mode)); if (fate("open", 2)) { errno = EMFILE; return -1; }
    const int fd = int(syscall(SYS_openat, AT_FDCWD, path, f, mode)); if (fd >= 0) { fds.insert(fd); files.push_back(path); } return fd;
}
static int truncate(int fd, off_t n) { if (on and fate("ftruncate", 2)) { errno = ENOSPC; return -1; } return int(syscall(SYS_ftruncate, fd, n)); }
static int close(int fd) { if (on) { if (syscall(SYS_fcntl, fd, F_GETFD) < 0) bad = "a file is closed that is not open"; fds.erase(fd); if (fate("close", 2)) { syscall(SYS_close, fd); errno = EIO; return -1; } } return int(syscall(SYS_close, fd)); }
}
// (with large files, the ordinary names are those ending in 64)
extern "C" {
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) noexcept { return sys::map(a, n, p, f, fd, o); }
void *plain_mmap(void *, size_t, int, int, int, off_t) noexcept __asm__("mmap");
void *plain_mmap(void *a, size_t n, int p, int f, int fd, off_t o) noexcept { return sys::map(a, n, p, f, fd, o); }
int munmap(void *a, size_t n) noexcept { return sys::unmap(a, n); }
int open(const char *path, int f, ...) { int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, int); va_end(v); } return sys::open(path, f, m); }
int plain_open_2(const char *, int) __asm__("__open_2");
int plain_open_2(const char *path, int f) { return sys::open(path, f, 0); }
int __open64_2(const char *path, int f) { return sys::open(path, f, 0); }
int plain_open(const char *, int, ...) __asm__("open");
int plain_open(const char *path, int f, ...) { int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, int); va_end(v); } return sys::open(path, f, m); }
int ftruncate(int fd, off_t n) noexcept { return sys::truncate(fd, n); }
int plain_ftruncate(int, off_t) noexcept __asm__("ftruncate");
int plain_ftruncate(int fd, off_t n) noexcept { return sys::truncate(fd, n); }
int close(int fd) { return sys::close(fd); }
}
static void reset(int budget) { sys::on = false; sys::budget = budget; sys::used = 0; sys::always.clear(); sys::maps.clear(); sys::fds.clear(); sys::files.clear(); sys::bad = nullptr; for (auto &i : sys::intruders) munmap(i.first, i.second); sys::intruders.clear(); }
static void intact(void)
{
    if (sys::bad) mc::check(false, "foreign", sys::bad);
    for (auto &i : sys::intruders) for (size_t k = 0; k < i.second and not mc::failed(); k += 64) mc::check(i.first[k] == 0x5a, "foreign-memory", "the memory of someone else was changed");
}
static size_t leftFiles(void) { size_t n = 0; for (auto &f : sys::files) { struct stat st; if (stat(f.c_str(), &st) == 0) n++; } return n; }
// ---- circular buffers ---------------------------------------------------------------------------
struct Live { SharedBuffer b; size_t asked; unsigned char seed; };
static bool mirrored(Live &l, bool write)
{
    const size_t n = l.b.getLength(); volatile unsigned char *p = (volatile unsigned char *)l.b.getAddress();
    if (write) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i*7 + (i >> 8)*13 + l.seed); }
    for (size_t i = 0; i < n; i++) { const unsigned char w = (unsigned char)(i*7 + (i >> 8)*13 + l.seed); if (p[i] != w or p[n + i] != w) return false; }
    return true;
}
static void circ(int depth, int faults)
{
    reset(faults); std::list<Live> live; std::vector<SharedBuffer> parts; unsigned char seed = 1; sys::on = true;
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        const int op = mc::choose(4, "op"); mc::step(); mc::Hash h; h.add(op); h.add(d); h.add(live.size()); h.add(sys::used); h.add(sys::always); mc::state(h.h);
        if (op < 2)
        {
            const size_t n = op?5000:4096; const int before = sys::used; const bool doomed = not sys::always.empty(); const size_t maps = sys::maps.size(), fds = sys::fds.size(); if (mc::tracing()) mc::trace("make a circular buffer of " + std::to_string(n));
            try
            {
                SharedBuffer b = SharedBuffer::makeCirc(n); live.push_back(Live{b, n, seed++}); Live &l = live.back();
                mc::check(b.getAddress() and b.getLength() >= n and b.getAlias() == b.getAddress() + b.getLength(), "shape", "address, length or alias of the buffer are wrong"); if (mc::failed()) break;
                // all of it is memory of this buffer
                for (size_t x = b.getAddress(); x < b.getAddress() + 2*b.getLength(); x += 4096) { bool own = false; for (auto &m : sys::maps) if (x >= m.first and x < m.first + m.second) own = true; mc::check(own, "own", "the buffer covers memory that was not mapped for it"); }
                for (auto &o : live) if (&o != &l) mc::check(o.b.getAddress() + 2*o.b.getLength() <= b.getAddress() or b.getAddress() + 2*b.getLength() <= o.b.getAddress(), "overlap", "two buffers overlap"); if (mc::failed()) break;
                mc::check(mirrored(l, true), "mirrored", "the second half does not show the first half");
                volatile unsigned char *p = (volatile unsigned char *)b.getAddress(); const size_t len = b.getLength(); for (size_t i = 0; i < len; i += 61) { p[len + i] ^= 0xff; if (p[i] != p[len + i]) mc::check(false, "mirrored", "the first half does not show the second half"); p[i] ^= 0xff; }
            }
            catch (const SharedBufferError &e) { if (mc::tracing()) mc::trace("refused: " + e.displayText()); mc::check(sys::used != before or doomed, "refused", "creation failed on a healthy system: " + e.displayText()); mc::check(sys::maps.size() == maps and sys::fds.size() == fds, "leak", "a failed creation leaves " + std::to_string(sys::maps.size() - maps) + " mappings and " + std::to_string(sys::fds.size() - fds) + " open files"); }
        }
        else if (live.empty()) return;
        else if (op == 2) { if (mc::tracing()) mc::trace("drop the oldest buffer"); live.pop_front(); }
        else { Live &l = live.back(); if (mc::tracing()) mc::trace("keep a part of the newest buffer, drop it"); const SharedBuffer part(l.b.getAddress() + l.b.getLength() - 8, 16, l.b); parts.push_back(part); mc::check(part.getAlias() == l.b.getAlias() + (part.getAddress() - l.b.getAddress()), "alias", "the alias of a part is wrong"); bool out = true; for (auto o : {size_t(0) - 1, 2*l.b.getLength() - 15}) try { SharedBuffer(l.b.getAddress() + o, 16, l.b); out = false; } catch (const SharedBufferError &) {} mc::check(out, "subset", "a part outside of the buffer is accepted"); std::memset((void *)part.getAddress(), 7, 16); mc::check(((char *)l.b.getAddress())[7] == 7, "part", "a part across the end is not the beginning"); live.pop_back(); std::memset((void *)part.getAddress(), 8, 16); }
        for (auto &l : live) mc::check(mirrored(l, false), "undisturbed", "another buffer has changed"); intact(); mc::check(leftFiles() == 0, "file", "the file of a buffer is left behind");
    }
    live.clear(); parts.clear(); if (not mc::failed()) { intact(); mc::check(sys::maps.empty(), "leak", std::to_string(sys::maps.size()) + " mappings are left when all buffers are gone"); mc::check(sys::fds.empty(), "leak", std::to_string(sys::fds.size()) + " files are left open when all buffers are gone"); mc::check(leftFiles() == 0, "file", "the file of a buffer is left behind"); }
    reset(0);
}
// ---- file buffers ---------------------------------------------------------------------------------
static void fileMap(int faults)
{
    reset(faults); const std::string path = "m01-" + std::to_string(getpid()); const size_t sizes[] = {0, 1, 4096, 5000}; const int s = mc::choose(5, "file"), access = mc::choose(3, "access"); mc::step(); mc::Hash h; h.add(s); h.add(access); mc::state(h.h);
    std::string want; if (s < 4) { for (size_t i = 0; i < sizes[s]; i++) want += char(i*11 + 3); const int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); if (::write(fd, want.data(), want.size()) < 0) {} close(fd); } else unlink(path.c_str());
    sys::on = true; const bool w = access != 0, r = access != 1; bool made = false;
    { SharedBuffer b; try { b = SharedBuffer::makeFromFileMMap(path, r or true, w); made = true; } catch (const Exception &e) { if (mc::tracing()) mc::trace("refused: " + e.displayText()); }
      if (made) { mc::check(b.getLength() == want.size() and std::memcmp((void *)b.getAddress(), want.data(), want.size()) == 0, "content", "the buffer does not show the file"); if (w and not mc::failed()) { for (size_t i = 0; i < want.size(); i += 97) want[i] ^= 0x55, ((char *)b.getAddress())[i] ^= 0x55; } }
      else { mc::check(sys::used or s == 4 or s == 0, "refused", "mapping failed on a healthy system"); } }
    mc::check(sys::maps.empty(), "leak", std::to_string(sys::maps.size()) + " mappings are left"); mc::check(sys::fds.empty(), "leak", std::to_string(sys::fds.size()) + " files are left open"); intact(); sys::on = false;
    if (s < 4) { std::string got(want.size() + 10, 0); const int fd = open(path.c_str(), O_RDONLY); got.resize(size_t(::read(fd, &got[0], got.size()))); close(fd); mc::check(got == want, "file-content", "the file does not hold what was written"); unlink(path.c_str()); }
    reset(0);
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("one-fault", [t]{ circ(t?6:5, 1); });
    add("two-faults", [t]{ circ(t?4:3, 2); });
    add("three-faults", [t]{ circ(t?2:1, t?4:3); });
    add("file", [t]{ fileMap(t?3:2); });
    return s;
}
