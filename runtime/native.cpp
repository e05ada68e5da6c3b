// Native implementation of the harness vocabulary: replays a counterexample or drives the
// harness with generated inputs (bounded fallback).  Files live below the scratch directory given
// on the command line.
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <dlfcn.h>
#include <exception>

struct VfReject { };

static std::string root;
static bool replay;
static std::mt19937_64 rng;
static std::map<std::string, uint64_t> vals;
struct FileIn {
    uint64_t size {};
    uint8_t dflt {};
    std::map<uint64_t, uint8_t> bytes;
};
static std::map<std::string, FileIn> fins;
static std::map<std::string, int> names;
static std::map<std::string, int> handles;
static std::vector<std::string> log_;
static uint64_t asserts;

static std::string un(std::string n)
{
    int k = names[n]++;
    return n + "#" + std::to_string(k);
}
static uint64_t rnd() { return rng(); }

extern "C" {
bool vf_symbolic(void) { return false; }
unsigned long vf_declen(unsigned long v)
{
    unsigned long n = 1;
    for (; v >= 10; v /= 10)
        ++n;
    return n;
}
unsigned char vf_decchar(unsigned long v, unsigned long k)
{
    for (unsigned long n = vf_declen(v); n > k + 1; --n)
        v /= 10;
    return (unsigned char)('0' + v % 10);
}
char const* vf_root(void) { return root.c_str(); }
uint64_t vf_nondet(char const* name, int bits)
{
    std::string n = un(name);
    uint64_t v = 0;
    if (replay) {
        auto i = vals.find(n);
        v = i == vals.end() ? 0 : i->second;
    } else if (name[0] == 'n' && name[1] == '_') {
        static uint64_t const sm[] = { 0, 1, 2, 3, 5, 8, 17, 40 };
        v = rnd() % 3 ? sm[rnd() % 8] : rnd() % 300;
    } else {
        switch (rnd() % 8) {
        case 0: v = 0; break;
        case 1: v = ~0ull; break;
        case 2: v = rnd() % 16; break;
        case 3: v = 1ull << (rnd() % unsigned(bits)); break;
        case 4: v = (1ull << (rnd() % unsigned(bits))) - 1; break;
        case 5: v = 0 - (rnd() % 1000); break;
        default: v = rnd();
        }
    }
    if (bits < 64)
        v &= (1ull << bits) - 1;
    char b[200];
    snprintf(b, sizeof b, "%s = 0x%llx", n.c_str(), (unsigned long long)v);
    log_.push_back(b);
    return v;
}
void vf_assume(bool c)
{
    if (!c)
        throw VfReject {};
}
static void dump()
{
    for (auto& s : log_)
        fprintf(stderr, "  input %s\n", s.c_str());
    for (auto& p : handles) {
        struct stat sb;
        if (!fstat(p.second, &sb))
            fprintf(stderr, "  file %s: %lld bytes\n", p.first.c_str(), (long long)sb.st_size);
    }
}
void vf_assert(bool c, char const* label)
{
    ++asserts;
    if (!c) {
        fprintf(stderr, "VF-FAIL: %s\n", label);
        dump();
        fflush(nullptr);
        _exit(3);
    }
}
void vf_cover(char const*) {}
int64_t vf_fnew(char const* name, uint64_t size)
{
    std::string n = un(std::string("file.") + name);
    std::string path = root + name;
    if (size > (replay ? (1ull << 40) : (1ull << 24)))
        throw VfReject {};
    auto hi = handles.find(name);
    if (hi != handles.end())
        close(hi->second);
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, off_t(size)))
        throw VfReject {};
    if (replay) {
        auto& f = fins[n];
        if (f.dflt && size <= (1u << 26)) {
            std::vector<uint8_t> v(size, f.dflt);
            if (pwrite(fd, v.data(), size, 0) < 0)
                throw VfReject {};
        }
        for (auto& p : f.bytes)
            if (p.first < size && pwrite(fd, &p.second, 1, off_t(p.first)) < 0)
                throw VfReject {};
    } else {
        std::vector<uint8_t> v(size);
        int mode = int(rnd() % 4);
        for (auto& b : v)
            b = mode == 0 ? 0 : uint8_t(mode == 1 && rnd() % 4 ? 0 : rnd());
        if (size && pwrite(fd, v.data(), size, 0) < 0)
            throw VfReject {};
    }
    handles[name] = fd;
    return fd;
}
int64_t vf_fget(char const* name)
{
    auto hi = handles.find(name);
    if (hi != handles.end())
        close(hi->second);
    int fd = open((root + name).c_str(), O_RDWR);
    if (fd < 0) {
        handles.erase(name);
        return -1;
    }
    handles[name] = fd;
    return fd;
}
uint64_t vf_fsize(int64_t h)
{
    struct stat sb;
    fstat(int(h), &sb);
    return uint64_t(sb.st_size);
}
uint8_t vf_fbyte(int64_t h, uint64_t off)
{
    uint8_t b = 0;
    if (pread(int(h), &b, 1, off_t(off)) != 1)
        return 0;
    return b;
}
void vf_fcopy(int64_t h, uint64_t off, char* to, uint64_t n)
{
    if (n && pread(int(h), to, n, off_t(off)) != ssize_t(n))
        throw VfReject {};
}
void vf_fput(int64_t h, uint64_t off, uint8_t v)
{
    if (pwrite(int(h), &v, 1, off_t(off)) != 1)
        throw VfReject {};
}
void vf_fzero(int64_t h, uint64_t off, uint64_t n)
{
    for (uint64_t i = 0; i < n; ++i)
        vf_fput(h, off + i, 0);
}
}

using Fn = void (*)(int);

static void reset()
{
    for (auto& p : handles) {
        close(p.second);
        unlink((root + p.first).c_str());
    }
    handles.clear();
    names.clear();
    log_.clear();
}

static int once(Fn f, int cfg)
{
    try {
        f(cfg);
    } catch (VfReject const&) {
        return 77;
    } catch (std::exception const& e) {
        fprintf(stderr, "VF-FAIL: exception escaped the harness\n");
        dump();
        return 3;
    }
    return 0;
}

int main(int argc, char** argv)
{
    // prog <scratch> <harness> <cfg> replay <inputs> | random <seed> <seconds>
    if (argc < 6)
        return 2;
    root = std::string(argv[1]) + "/";
    Fn f = reinterpret_cast<Fn>(dlsym(RTLD_DEFAULT, argv[2]));
    if (!f) {
        fprintf(stderr, "no harness %s\n", argv[2]);
        return 2;
    }
    int cfg = atoi(argv[3]);
    replay = !strcmp(argv[4], "replay");
    if (replay) {
        std::ifstream in(argv[5]);
        std::string line;
        while (getline(in, line)) {
            std::istringstream s(line);
            std::string k, n;
            s >> k >> n;
            if (k == "v") {
                std::string x;
                s >> x;
                vals[n] = strtoull(x.c_str(), nullptr, 16);
            } else if (k == "f") {
                FileIn fi;
                unsigned d;
                s >> fi.size >> d;
                fi.dflt = uint8_t(d);
                std::string e;
                while (s >> e) {
                    auto c = e.find(':');
                    fi.bytes[strtoull(e.substr(0, c).c_str(), nullptr, 10)] =
                        uint8_t(strtoul(e.substr(c + 1).c_str(), nullptr, 10));
                }
                fins[n] = fi;
            }
        }
        int r = once(f, cfg);
        reset();
        return r;
    }
    uint64_t seed = strtoull(argv[5], nullptr, 10);
    double secs = argc > 6 ? atof(argv[6]) : 5;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t ok = 0, rej = 0;
    for (uint64_t it = 0;; ++it) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > secs)
            break;
        rng.seed(seed * 1000003 + it);
        int r = once(f, cfg);
        if (r == 3) {
            reset();
            return 3;
        }
        ++(r == 0 ? ok : rej);
        reset();
    }
    printf("runs=%llu rejected=%llu asserts=%llu\n", (unsigned long long)ok, (unsigned long long)rej,
        (unsigned long long)asserts);
    return 0;
}
