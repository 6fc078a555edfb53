#include "core.h"
#include <malloc.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <unistd.h>

namespace sim {
double Rng::logUni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }

const char* const kFaultName[F_NKINDS] = {
    "clock_jump", "clock_freeze", "slow_step", "alloc_fail", "open_enoent", "open_emfile", "read_eio", "read_short",
    "read_eintr", "torn_file", "write_enospc", "write_short", "write_eio", "close_error", "crash", "heap_junk",
    "preempt", "spurious_wakeup", "rand_edge", "bit_flip"};

std::string fmt(double v) {
    char b[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15) snprintf(b, sizeof b, "%.0f", v);
    else snprintf(b, sizeof b, "%.17g", v);
    return b;
}
void Scn::addNum(const std::string& k, const std::vector<double>& v) {
    std::vector<std::string> t;
    for (double d : v) t.push_back(fmt(d));
    add(k, t);
}
void Scn::set(const std::string& k, const std::vector<std::string>& v) {
    for (auto& l : lines) if (l.first == k) { l.second = v; return; }
    add(k, v);
}
void Scn::setNum(const std::string& k, const std::vector<double>& v) {
    std::vector<std::string> t;
    for (double d : v) t.push_back(fmt(d));
    set(k, t);
}
bool Scn::has(const std::string& k) const { for (auto& l : lines) if (l.first == k) return true; return false; }
std::string Scn::str(const std::string& k, const std::string& d) const {
    for (auto& l : lines) if (l.first == k && !l.second.empty()) return l.second[0];
    return d;
}
double Scn::num(const std::string& k, double d) const {
    for (auto& l : lines) if (l.first == k && !l.second.empty()) return atof(l.second[0].c_str());
    return d;
}
static std::vector<double> toN(const std::vector<std::string>& t) {
    std::vector<double> v;
    for (auto& s : t) v.push_back(strtod(s.c_str(), nullptr));
    return v;
}
std::vector<double> Scn::nums(const std::string& k) const {
    for (auto& l : lines) if (l.first == k) return toN(l.second);
    return {};
}
std::vector<std::vector<double>> Scn::all(const std::string& k) const {
    std::vector<std::vector<double>> r;
    for (auto& l : lines) if (l.first == k) r.push_back(toN(l.second));
    return r;
}
std::vector<std::vector<std::string>> Scn::allStr(const std::string& k) const {
    std::vector<std::vector<std::string>> r;
    for (auto& l : lines) if (l.first == k) r.push_back(l.second);
    return r;
}
std::string Scn::text() const {
    std::string o;
    for (auto& l : lines) {
        o += l.first;
        for (auto& t : l.second) o += " " + t;
        o += "\n";
    }
    return o;
}
Scn Scn::sub(const std::string& p) const {
    Scn r;
    for (auto& l : lines) if (l.first.compare(0, p.size() + 1, p + ":") == 0) r.lines.push_back({l.first.substr(p.size() + 1), l.second});
    return r;
}
void Scn::addAll(const Scn& o, const std::string& p) {
    for (auto& l : o.lines) lines.push_back({p.empty() ? l.first : p + ":" + l.first, l.second});
}
Scn Scn::parse(const std::string& t) {
    Scn s;
    std::istringstream is(t);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string k, w;
        ls >> k;
        if (k.empty()) continue;
        std::vector<std::string> v;
        while (ls >> w) v.push_back(w);
        s.add(k, v);
    }
    return s;
}

State S;
static thread_local int tQuiet = 0;
Quiet::Quiet() { ++tQuiet; }
Quiet::~Quiet() { --tQuiet; }
bool seamOn() { return S.active && tQuiet == 0; }

static void fnv(uint64_t v) {
    for (int i = 0; i < 8; ++i) { S.hash ^= (v >> (8 * i)) & 0xff; S.hash *= 1099511628211ULL; }
}
void ev(const char* tag, uint64_t a, uint64_t b) {
    uint64_t t = 0;
    for (const char* p = tag; *p; ++p) t = t * 131 + (unsigned char)*p;
    fnv(t); fnv(a); fnv(b);
    if (S.trace) {
        char buf[160];
        int n = snprintf(buf, sizeof buf, "EV t%d %s %llu %llu @%lld\n", sched::self(), tag, (unsigned long long)a,
                         (unsigned long long)b, (long long)S.mono);
        if (::write(2, buf, size_t(n)) < 0) {}
    }
}
void evd(const char* tag, double v) { uint64_t u; std::memcpy(&u, &v, 8); ev(tag, u); }
void probe(const std::string& n, long k) { Quiet q; S.st.probe[n] += k; }

void ClockState::read(const Scn& s) {
    *this = ClockState();
    clockRng = Rng(uint64_t(s.num("simseed", 1)) * 7 + 1);
    auto c = s.nums("clock");  // stepLo stepHi allocCost freeze
    if (c.size() >= 4) { stepLo = c[0]; stepHi = c[1]; allocCost = c[2]; granularity = int64_t(c[3]); }
    else { stepLo = 1e5; stepHi = 1e6; allocCost = 0; }
    wallBase = int64_t(s.num("wallbase", 1700000000)) * 1000000000LL;
    for (auto& j : s.all("clockjump")) if (j.size() >= 2) jumps.push_back({long(j[0]), j[1]});
    for (auto& j : s.all("stall")) if (j.size() >= 2) stalls.push_back({long(j[0]), j[1]});
}
void begin(const Scn& s) {
    Quiet q;
    bool tr = S.trace;
    S = State();
    S.trace = tr;
    uint64_t seed = uint64_t(s.num("simseed", 1));
    S.randRng = Rng(seed * 7 + 2);
    S.schedRng = Rng(uint64_t(s.num("schedseed", double(seed % 1000003))) * 7 + 3);
    S.randSeed = mix64(uint64_t(s.num("randseed", 1)));
    static_cast<ClockState&>(S).read(s);
    auto a = s.nums("allocfail");
    if (a.size() >= 2) { S.allocFailAt = long(a[0]); S.allocFailLen = long(a[1]); }
    S.preemptProb = s.num("preempt", 0);
    S.preemptAlloc = s.num("preemptalloc", 0) != 0;
    S.randEdge = s.num("randedge", 0);
    S.allocLimit = long(s.num("alloclimit", 300e6));
    S.clockLimit = long(s.num("clocklimit", 5e6));
    if (S.granularity > 0) S.st.fault[F_CLOCK_FREEZE]++;
    sched::reset();
    if (s.has("heapjunk")) {
        setHeapJunk(int(s.num("heapjunk")));
        S.st.fault[F_HEAP_JUNK]++;
    }
    S.active = true;
}
void end() { S.active = false; }
double elapsed() { return double(S.before + S.mono) * 1e-9; }

__attribute__((noinline)) void stackSmear(unsigned char byte) {
    volatile unsigned char buf[512 * 1024];
    for (size_t i = 0; i < sizeof buf; ++i) buf[i] = byte;
    asm volatile("" ::"r"(buf) : "memory");
}
void setHeapJunk(int byte) { mallopt(M_PERTURB, byte & 0xff); }
}  // namespace sim
