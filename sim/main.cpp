// sim_main batch --prop P --from A --to B     run seeds A..B-1, one forked child each, JSON lines on stdout
// sim_main run --scenario FILE [--trace]      replay one scenario file
// sim_main gen --prop P --seed N              print the scenario of a seed
#include "harness.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sstream>
#include <string_view>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <ompl/util/Console.h>

using namespace hz;
static int gOut = 1;
static Out* gCur = nullptr;
static std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
static void emit(uint64_t seed, const Out& o, const std::string& extraKind = "", const std::string& extraDetail = "") {
    std::ostringstream j;
    j << "{\"seed\":" << seed << ",\"hash\":\"" << std::hex << sim::S.hash << std::dec << "\",\"key\":\"" << std::hex << o.key << std::dec
      << "\",\"nontrivial\":" << (o.nontrivial ? 1 : 0) << ",\"sim\":" << sim::elapsed() << ",\"order\":\"" << std::hex << sim::sched::order() << std::dec << "\",\"viol\":[";
    bool first = true;
    auto v = [&](const std::string& k, const std::string& d) { j << (first ? "" : ",") << "{\"kind\":\"" << esc(k) << "\",\"detail\":\"" << esc(d) << "\"}"; first = false; };
    for (auto& x : o.viol) v(x.kind, x.detail);
    if (!extraKind.empty()) v(extraKind, extraDetail);
    j << "],\"faults\":{";
    first = true;
    for (int i = 0; i < sim::F_NKINDS; ++i)
        if (sim::S.st.fault[i]) { j << (first ? "" : ",") << "\"" << sim::kFaultName[i] << "\":" << sim::S.st.fault[i]; first = false; }
    j << "},\"m\":{\"clock_reads\":" << sim::S.st.clockReads << ",\"random_draws\":" << sim::S.st.randDraws << ",\"allocations\":" << sim::S.st.allocs
      << ",\"io_ops\":" << sim::S.st.ioOps << ",\"switches\":" << sim::S.st.switches << ",\"threads\":" << sim::S.st.threads;
    for (auto& x : o.m) j << ",\"" << esc(x.first) << "\":" << x.second;
    for (auto& x : sim::S.st.probe) j << ",\"" << esc(x.first) << "\":" << x.second;
    j << "}}\n";
    std::string s = j.str();
    size_t off = 0;
    while (off < s.size()) {
        ssize_t k = syscall(SYS_write, gOut, s.data() + off, s.size() - off);
        if (k <= 0) break;
        off += size_t(k);
    }
}
static uint64_t gSeed = 0;
static void onBudget() {
    sim::Quiet q;
    emit(gSeed, *gCur, "no-progress", "step budget exhausted: the operation neither returned nor failed within the bounded number of steps (or all simulated threads are blocked)");
    _exit(0);
}
static void runOne(const Scn& s, uint64_t seed) {
    gSeed = seed;
    Out o;
    gCur = &o;
    const Prop* p = nullptr;
    for (auto& x : props()) if (s.str("prop") == x.id) p = &x;
    if (!p) { fprintf(stderr, "unknown property %s\n", s.str("prop").c_str()); _exit(3); }
    bool threw = false;
    std::string what;
    sim::begin(s);
    sim::S.onBudget = onBudget;
    try { p->run(s, o); }
    catch (const std::exception& e) { threw = true; what = e.what(); }
    catch (...) { threw = true; what = "non-standard exception"; }
    sim::Quiet q;
    sim::end();
    if (threw) emit(seed, o, "exception", "uncaught exception: " + what);
    else emit(seed, o);
}
static void quietChild() {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    if (!getenv("SIM_STDERR")) dup2(n, 2);
}
static void child(const Scn& s, uint64_t seed, bool trace) {
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {8ull << 30, 8ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    sim::S.trace = trace;
    runOne(s, seed);
    _exit(0);
}
// The parent works in static buffers only: the heap a run inherits is the same whichever command started it and whatever ran before.
static char gText[1 << 20], gBuf[1 << 22];
static size_t gTextLen = 0;
static size_t slurp(int fd, char* to, size_t cap) {
    size_t n = 0;
    while (n < cap) {
        ssize_t k = read(fd, to + n, cap - n);
        if (k <= 0) break;
        n += size_t(k);
    }
    return n;
}
static bool textFromFile(const char* path) {
    int fd = open(path, O_RDONLY);
    if (fd < 0) return false;
    gTextLen = slurp(fd, gText, sizeof gText);
    close(fd);
    return true;
}
static void textFromSeed(const Prop* p, uint64_t seed) {   // generated in a child of its own
    int pfd[2];
    if (pipe(pfd)) _exit(4);
    pid_t pid = fork();
    if (pid == 0) {
        std::string t = p->gen(seed).text();
        size_t off = 0;
        while (off < t.size()) {
            ssize_t k = write(pfd[1], t.data() + off, t.size() - off);
            if (k <= 0) break;
            off += size_t(k);
        }
        _exit(0);
    }
    close(pfd[1]);
    gTextLen = slurp(pfd[0], gText, sizeof gText);
    close(pfd[0]);
    waitpid(pid, nullptr, 0);
}
static uint64_t seedOfText() {
    for (size_t i = 0; i + 5 < gTextLen; ++i)
        if ((i == 0 || gText[i - 1] == '\n') && !memcmp(gText + i, "seed ", 5)) return strtoull(gText + i + 5, nullptr, 10);
    return 0;
}
// fork, run gText, report crashes and hangs as violations
static void forked(bool trace, int wallLimit) {
    fflush(stdout);
    const uint64_t seed = seedOfText();
    int pfd[2];
    if (pipe(pfd)) _exit(4);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        gOut = fcntl(pfd[1], F_DUPFD, 200);
        close(pfd[1]);
        if (!trace) quietChild();
        child(Scn::parse(std::string(gText, gTextLen)), seed, trace);
    }
    close(pfd[1]);
    size_t len = 0;
    time_t t0 = time(nullptr);
    bool hung = false;
    for (;;) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        int k = poll(&pf, 1, 1000);
        if (k > 0) {
            if (len == sizeof gBuf) break;
            ssize_t n = read(pfd[0], gBuf + len, sizeof gBuf - len);
            if (n <= 0) break;
            len += size_t(n);
        }
        if (time(nullptr) - t0 > wallLimit) { kill(pid, SIGKILL); hung = true; break; }
    }
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!len) {
        char kind[128];
        if (hung) snprintf(kind, sizeof kind, "hang");
        else if (WIFSIGNALED(st)) snprintf(kind, sizeof kind, "crash-%s", strsignal(WTERMSIG(st)));
        else snprintf(kind, sizeof kind, "exit-%d", WEXITSTATUS(st));
        for (char* c = kind; *c; ++c) if (*c == ' ') *c = '_';
        len = size_t(snprintf(gBuf, sizeof gBuf, "{\"seed\":%llu,\"hash\":\"%s\",\"key\":\"0\",\"nontrivial\":1,\"sim\":0,\"order\":\"0\",\"viol\":[{\"kind\":\"%s\",\"detail\":\"the process died inside the simulated run\"}],\"faults\":{},\"m\":{}}\n",
                              (unsigned long long)seed, kind, kind));
    }
    if (getenv("SIM_TIMES")) fprintf(stderr, "%llu %ld s\n", (unsigned long long)seed, long(time(nullptr) - t0));
    for (size_t off = 0; off < len;) {
        ssize_t k = write(1, gBuf + off, len - off);
        if (k <= 0) _exit(5);
        off += size_t(k);
    }
}
static const char* arg(int argc, char** argv, const char* name, const char* def = nullptr) {
    for (int i = 2; i < argc; ++i)
        if (!strncmp(argv[i], "--", 2) && !strcmp(argv[i] + 2, name)) return i + 1 < argc && strncmp(argv[i + 1], "--", 2) ? argv[i + 1] : "1";
    return def;
}
int main(int argc, char** argv) {
    if (!getenv("SIM_NOREEXEC")) {
        setenv("SIM_NOREEXEC", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    const char* mode = argc > 1 ? argv[1] : "";
    const char* pn = arg(argc, argv, "prop", "");
    const Prop* p = nullptr;
    for (auto& x : props()) if (x.id == std::string_view(pn)) p = &x;
    sim::vfs::loadReal(arg(argc, argv, "resources", "/repo/resources"), "/simfs/resources");
    const int wall = atoi(arg(argc, argv, "wall", "120"));
    if (!strcmp(mode, "gen")) {
        if (!p) return 2;
        textFromSeed(p, strtoull(arg(argc, argv, "seed", "0"), nullptr, 10));
        fwrite(gText, 1, gTextLen, stdout);
        return 0;
    }
    if (!strcmp(mode, "list")) { for (auto& x : props()) std::cout << x.id << "\n"; return 0; }
    if (!strcmp(mode, "run")) {
        if (!textFromFile(arg(argc, argv, "scenario", ""))) return 3;
        forked(arg(argc, argv, "trace") != nullptr, wall);
        return 0;
    }
    if (!strcmp(mode, "serve")) {  // scenario paths on stdin, one result line each
        static char in[1 << 20];
        const size_t n = slurp(0, in, sizeof in - 1);
        in[n] = 0;
        for (char* s = in; *s;) {
            char* e = strchr(s, '\n');
            if (e) *e = 0;
            if (*s) {
                if (!textFromFile(s)) return 3;
                forked(false, wall);
            }
            if (!e) break;
            s = e + 1;
        }
        return 0;
    }
    if (!strcmp(mode, "batch")) {
        if (!p) return 2;
        const uint64_t from = strtoull(arg(argc, argv, "from", "0"), nullptr, 10), to = strtoull(arg(argc, argv, "to", "0"), nullptr, 10);
        const uint64_t step = strtoull(arg(argc, argv, "step", "1"), nullptr, 10);
        const double budget = atof(arg(argc, argv, "seconds", "1e9"));
        time_t t0 = time(nullptr);
        for (uint64_t sd = from; sd < to; sd += step) {
            if (double(time(nullptr) - t0) >= budget) break;
            textFromSeed(p, sd);
            forked(false, wall);
        }
        return 0;
    }
    return 2;
}
