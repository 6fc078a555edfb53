// Simulator core: one seed decides everything a run of the real /repo code can observe.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s = 1;
    Rng() = default;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5bf03635)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    double uni() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    int below(int n) { return n <= 0 ? 0 : int(u64() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(double p) { return uni() < p; }
    double logUni(double a, double b);
};

// ---------------------------------------------------------------- Scenario
// A scenario is a list of "key tok tok ..." lines. It is the replay file.
struct Scn {
    std::vector<std::pair<std::string, std::vector<std::string>>> lines;
    void add(const std::string& k, const std::vector<std::string>& v) { lines.push_back({k, v}); }
    void addNum(const std::string& k, const std::vector<double>& v);
    void set(const std::string& k, const std::vector<std::string>& v);
    void setNum(const std::string& k, const std::vector<double>& v);
    bool has(const std::string& k) const;
    std::string str(const std::string& k, const std::string& dflt = "") const;
    double num(const std::string& k, double dflt = 0) const;
    std::vector<double> nums(const std::string& k) const;
    std::vector<std::vector<double>> all(const std::string& k) const;
    std::vector<std::vector<std::string>> allStr(const std::string& k) const;
    std::string text() const;
    Scn sub(const std::string& prefix) const;                      // lines "prefix:key ..." without the prefix
    void addAll(const Scn& o, const std::string& prefix = "");
    static Scn parse(const std::string& t);
};
std::string fmt(double v);

// ---------------------------------------------------------------- Run state (per simulated run)
enum FaultKind {
    F_CLOCK_JUMP, F_CLOCK_FREEZE, F_SLOW, F_ALLOC, F_OPEN_ENOENT, F_OPEN_EMFILE, F_READ_EIO, F_READ_SHORT,
    F_READ_EINTR, F_TORN_FILE, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EIO, F_CLOSE_ERR, F_CRASH, F_HEAP_JUNK,
    F_PREEMPT, F_SPURIOUS, F_RAND_EDGE, F_BITFLIP, F_NKINDS
};
extern const char* const kFaultName[F_NKINDS];

struct Stats {
    long fault[F_NKINDS] = {0};
    long clockReads = 0, randDraws = 0, allocs = 0, ioOps = 0, switches = 0, threads = 0;
    std::map<std::string, long> probe;
};

struct CrashNow {};      // thrown to model a process crash at an I/O point

// Everything a flow of control sees of time. Simulated caller threads can each have their own.
struct ClockState {
    int64_t mono = 0;        // true elapsed simulated time (ns)
    int64_t wallOffset = 0;  // system_clock = wallBase + mono + wallOffset
    int64_t wallBase = 0;
    double stepLo = 0, stepHi = 0;  // cost of the work between two clock readings (ns), log-uniform
    long phase = 0;                 // stretches of work between clock readings so far
    long readN = 0;                 // clock readings so far
    long allocN = 0;                // allocations so far
    long allocsAtRead = 0;
    double allocCost = 0;           // ns charged per allocation
    int64_t granularity = 0;        // clocks only show multiples of this (coarse clock)
    std::vector<std::pair<long, double>> jumps;  // (clock read index, seconds) on the wall clock
    std::vector<std::pair<long, double>> stalls; // (stretch of work, seconds): slow step, all clocks
    Rng clockRng;
    void read(const Scn& s);        // clock keys of a scenario
};
struct State : ClockState {
    int64_t before = 0;             // simulated time of the requests before this one (ns)
    bool active = false;
    uint64_t hash = 1469598103934665603ULL;
    bool trace = false;
    Stats st;
    long clockLimit = -1;           // step budget in clock readings
    bool crashed = false;           // the process 'died': later disk effects are dropped
    double randEdge = 0;            // probability that rand() returns an extreme legal value
    void (*onBudget)() = nullptr;   // step budget exhausted
    Rng randRng;
    std::function<void()> onClock;  // invariants evaluated mid-run
    // randomness
    uint64_t randSeed = 0;
    // allocator
    long allocFailAt = -1;   // index of operator new / malloc that fails
    long allocFailLen = 1;
    long allocLimit = -1;    // step budget
    // scheduler
    bool threadClocks = false;  // every simulated thread has its own ClockState
    double preemptProb = 0;  // at clock/alloc/mutex points
    bool preemptAlloc = false;
    Rng schedRng;
    std::vector<long> schedScript;
};
extern State S;

struct Quiet {  // harness code: seams pass through, nothing is logged
    Quiet();
    ~Quiet();
};
bool seamOn();  // true when called from simulated code

void ev(const char* tag, uint64_t a, uint64_t b = 0);
void evd(const char* tag, double v);
void probe(const std::string& name, long n = 1);

void resetRand();
void begin(const Scn& s);  // reset state, read clock/alloc/sched keys
void end();
double elapsed();          // simulated monotonic seconds

// ---------------------------------------------------------------- Virtual disk
namespace vfs {
struct Fault { std::string pathSub; std::string kind; long nth; long arg; long seen = 0; bool done = false; };
void reset();
void put(const std::string& path, const std::string& bytes);
bool exists(const std::string& path);
std::string get(const std::string& path);
void remove(const std::string& path);
void addFault(const Fault& f);
void clearFaults();
int openNow();   // descriptors still open
long fired();    // armed faults that have struck
// Crash semantics: what survives. Volatile (not yet closed/written) data obeys the policy of the run.
std::vector<std::string> list();
extern long opens, reads, writes;
void loadReal(const std::string& realDir, const std::string& simDir);  // recursive, at start-up
void dropVolatile(uint64_t seed); // after a crash: writes since the last close may be lost in part
}  // namespace vfs

// ---------------------------------------------------------------- Cooperative threads
namespace sched {
void reset();
// Runs the bodies as simulated caller threads; only one runs at a time, the seeded scheduler chooses who.
void runThreads(const std::vector<std::function<void()>>& bodies);
// The same, each thread living on its own clock.
void runThreads(const std::vector<std::function<void()>>& bodies, const std::vector<ClockState>& clocks);
void yieldPoint(const char* why);
int self();
uint64_t order();  // hash of the switch sequence
}  // namespace sched

void stackSmear(unsigned char byte);
void setHeapJunk(int byte);
}  // namespace sim
