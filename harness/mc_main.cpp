#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <chrono>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" void __lsan_disable() __attribute__((weak));
namespace mc {
namespace {
constexpr int kSlots = 64;
uint64_t kTable = 1ull << 23;
struct Slot { std::atomic<uint64_t> cur; volatile uint64_t beat; std::atomic<int> has; char msg[3800]; };
struct Shared {
    std::atomic<uint64_t> knownHit[64];
    std::atomic<uint64_t> states, saturated, transitions, executions, capped;
    std::atomic<uint64_t> spaceDone[16384]; std::atomic<uint64_t> spaceUs[16384];
    Slot slot[kSlots];
};
Shared* shm;
std::atomic<uint64_t>* table;
std::vector<void (*)()>& parts() { static std::vector<void (*)()> p; return p; }
std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
bool gThorough;
std::vector<std::string> gKnown;   // 'space | execution' of the listed findings

double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}

Part::Part(void (*f)()) { parts().push_back(f); }
void add(Space s) { if (s.count) spaces().push_back(std::move(s)); }
bool thorough() { return gThorough; }

std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char buf[6000]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}
void Ctx::fail(const char* fmt, ...) {
    if (failed) return;
    va_list ap; va_start(ap, fmt); char buf[3600]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    failed = true; msg = buf;
}
void rawCopy(void* to, const void* from, std::size_t n) { memcpy(to, from, n); }
uint64_t hash(const void* data, std::size_t n, uint64_t salt) {
    const auto* p = static_cast<const unsigned char*>(data);
    uint64_t h = 0x9E3779B97F4A7C15ull ^ (salt * 0xD6E8FEB86659FD93ull) ^ n;
    while (n >= 8) { uint64_t w; memcpy(&w, p, 8); h = (h ^ w) * 0xff51afd7ed558ccdull; h ^= h >> 32; p += 8; n -= 8; }
    uint64_t w = 0; memcpy(&w, p, n); h = (h ^ w) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
    return h;
}
void Ctx::state(const void* d, std::size_t n, uint64_t salt) { state(hash(d, n, salt)); }
void Ctx::state(uint64_t h) {
    if (h == 0) h = 1;
    uint64_t i = h & (kTable - 1);
    for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (kTable - 1)) {
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (table[i].compare_exchange_strong(v, h, std::memory_order_relaxed)) { shm->states.fetch_add(1, std::memory_order_relaxed); return; }
            if (v == h) return;
        }
    }
    shm->saturated.store(1, std::memory_order_relaxed);
}

namespace {
struct Task { int space; uint64_t from, to; };
struct Job { pid_t pid = 0; Task t; double last = 0; uint64_t seen = 0; int slot = 0; };

[[noreturn]] void childRun(const Task& t, int slot, bool count) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Slot& s = shm->slot[slot];
    Ctx c; c.beat = &s.beat; const Space& sp = spaces()[static_cast<size_t>(t.space)]; const double started = now();
    for (uint64_t i = t.from; i < t.to; ++i) {
        s.cur.store(i + 1, std::memory_order_relaxed);
        c.index = i;
        try { sp.run(c, i); }
        catch (const std::exception& e) { c.fail("unexpected exception escaped the operation: %s", e.what()); }
        catch (...) { c.fail("unexpected exception escaped the operation"); }
        if (c.failed && !gKnown.empty()) {
            const std::string id = sp.name + " | " + (sp.show ? sp.show(i) : std::string());
            for (size_t k = 0; k < gKnown.size() && k < 64; ++k) if (gKnown[k] == id) { shm->knownHit[k].fetch_add(1); c.failed = false; c.msg.clear(); break; }
        }
        if (c.failed) { strncpy(s.msg, c.msg.c_str(), sizeof s.msg - 1); s.has.store(1); _exit(3); }
    }
    if (count) {
        shm->transitions.fetch_add(c.transitions); shm->capped.fetch_add(c.capped); shm->executions.fetch_add(t.to - t.from);
        shm->spaceDone[t.space].fetch_add(t.to - t.from); shm->spaceUs[t.space].fetch_add(static_cast<uint64_t>((now() - started) * 1e6));
    }
    _exit(0);
}
pid_t spawn(const Task& t, int slot, bool count, int errfd = -1) {
    Slot& s = shm->slot[slot]; s.cur.store(t.from + 1); s.beat = 0; s.has.store(0); s.msg[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { if (errfd >= 0) { dup2(errfd, 2); dup2(errfd, 1); } childRun(t, slot, count); }
    return p;
}
// outcome of a single process: 0 ok, 1 violation, 2 hang, 3 killed (resources) / internal
int waitOne(pid_t p, int slot, double limit, std::string& msg, uint64_t& at) {
    double t0 = now(); uint64_t seen = 0;
    for (;;) {
        if (const uint64_t b = shm->slot[slot].cur.load() * 0x100000000ull + shm->slot[slot].beat; b != seen) { seen = b; t0 = now(); }
        int st; pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) {
            at = shm->slot[slot].cur.load() - 1;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && shm->slot[slot].has.load()) { msg = shm->slot[slot].msg; return 1; }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { msg = "killed"; return 3; }
            if (WIFSIGNALED(st)) { msg = strf("the process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return 1; }
            msg = strf("the process exited with status %d (sanitizer or library abort)", WEXITSTATUS(st)); return 1;
        }
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); at = shm->slot[slot].cur.load() - 1; msg = strf("no result within %.0f s", limit); return 2; }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
}
std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
}
} // namespace mc

using namespace mc;
// usage: bin OUT.json [--jobs J] [--hang SEC] | bin OUT.json --replay SPACE FROM TO | bin --list
int main(int argc, char** argv) {
    const char* tier = getenv("VERIF_TIER"); gThorough = tier && !strcmp(tier, "thorough");
    if (gThorough) kTable = 1ull << 26;
    std::string out, rspace; uint64_t rf = 0, rt = 0; int jobs = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN)); double hang = 20; bool replay = false, list = false;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--hang") hang = atof(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--known") { FILE* f = fopen(argv[++i], "r"); char b[8192]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; gKnown.push_back(b); } if (f) fclose(f); }
        else if (a == "--only") only = argv[++i];
        else if (a == "--replay") { replay = true; rspace = argv[i + 1]; rf = strtoull(argv[i + 2], nullptr, 10); rt = strtoull(argv[i + 3], nullptr, 10); i += 3; }
        else out = a;
    }
    if (jobs < 1) jobs = 1;
    if (jobs > kSlots - 2) jobs = kSlots - 2;
    shm = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    table = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, kTable * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    for (auto f : parts()) f();
    auto& sp = spaces();
    if (!only.empty()) { std::vector<Space> k; for (auto& s : sp) if (s.name.find(only) != std::string::npos) k.push_back(s); sp.swap(k); }
    if (sp.size() > 16384) { fprintf(stderr, "too many spaces\n"); return 2; }
    if (sp.empty()) { fprintf(stderr, "no spaces registered\n"); return 2; }
    if (list) { for (auto& s : sp) printf("%s %llu\n", s.name.c_str(), static_cast<unsigned long long>(s.count)); return 0; }
    if (replay) {
        for (size_t i = 0; i < sp.size(); ++i) if (sp[i].name == rspace) {
            std::string msg; uint64_t at = 0;
            pid_t p = spawn({static_cast<int>(i), rf, rt}, 0, false);
            int r = waitOne(p, 0, 600, msg, at);
            printf("space: %s\nexecution: %llu (from %llu)\n%s\n", rspace.c_str(), static_cast<unsigned long long>(at), static_cast<unsigned long long>(rf), sp[i].show ? sp[i].show(at).c_str() : "");
            printf("result: %s\n", r == 0 ? "holds" : msg.c_str());
            return r == 0 ? 0 : 1;
        }
        fprintf(stderr, "no such space %s\n", rspace.c_str()); return 2;
    }
    double t0 = now();
    std::vector<Task> tasks;
    for (size_t i = 0; i < sp.size(); ++i) {
        uint64_t ch = sp[i].chunk ? sp[i].chunk : std::max<uint64_t>(1, (sp[i].count + 15) / 16);
        for (uint64_t a = 0; a < sp[i].count; a += ch) tasks.push_back({static_cast<int>(i), a, std::min(a + ch, sp[i].count)});
    }
    std::vector<Job> run(static_cast<size_t>(jobs)); size_t next = 0; int live = 0;
    bool bad = false; Task badTask{}; uint64_t badAt = 0; std::string badMsg; int badKind = 0;
    char logname[] = "/tmp/mcerrXXXXXX"; int errfd = mkstemp(logname); if (errfd >= 0) unlink(logname);
    auto killAll = [&] { for (auto& j : run) if (j.pid) { kill(j.pid, SIGKILL); int st; waitpid(j.pid, &st, 0); j.pid = 0; } live = 0; };
    std::map<int, double> spaceTime;
    while (!bad && (next < tasks.size() || live)) {
        for (int k = 0; k < jobs && next < tasks.size(); ++k) if (!run[static_cast<size_t>(k)].pid) {
            Job& j = run[static_cast<size_t>(k)]; j.t = tasks[next++]; j.slot = k; j.last = now(); j.seen = 0; j.pid = spawn(j.t, k, true, errfd); ++live;
        }
        bool any = false;
        for (auto& j : run) if (j.pid) {
            int st; pid_t r = waitpid(j.pid, &st, WNOHANG);
            if (r == j.pid) {
                any = true; j.pid = 0; --live;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                uint64_t at = shm->slot[j.slot].cur.load() - 1;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { killAll(); fprintf(stderr, "worker killed (out of memory?) in %s\n", sp[static_cast<size_t>(j.t.space)].name.c_str()); return 2; }
                bad = true; badTask = j.t; badAt = at; badMsg = shm->slot[j.slot].has.load() ? shm->slot[j.slot].msg : strf("process status %x", st); badKind = 1; break;
            }
            uint64_t c = shm->slot[j.slot].cur.load(); const uint64_t b = c * 0x100000000ull + shm->slot[j.slot].beat;
            if (b != j.seen) { j.seen = b; j.last = now(); }
            else if (now() - j.last > hang) { kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); j.pid = 0; --live; any = true; bad = true; badTask = j.t; badAt = c - 1; badMsg = "hang"; badKind = 2; break; }
        }
        if (!any) usleep(500);
    }
    killAll();
    std::string vjson;
    int rc = 0;
    if (bad) {
        // replay in a fresh process: alone first, then with the executions that preceded it in its process
        const Space& s = sp[static_cast<size_t>(badTask.space)];
        bool confirmed = false; uint64_t from = badAt; std::string msg; uint64_t at = 0; int kind = 0;
        for (int attempt = 0; attempt < 4 && !confirmed; ++attempt) {
            uint64_t f = attempt == 0 ? badAt : badTask.from;
            int r = waitOne(spawn({badTask.space, f, badAt + 1}, 0, false, errfd), 0, attempt == 0 ? hang * 4 : hang * 4 + 200, msg, at);
            if (r == 1 || r == 2) { confirmed = true; from = f; kind = r; }
            if (attempt == 0 && badKind == 2 && r == 0) { break; }
        }
        std::string errtail;
        if (errfd >= 0) { off_t e = lseek(errfd, 0, SEEK_END); off_t b = e > 6000 ? e - 6000 : 0; errtail.resize(static_cast<size_t>(e - b)); if (pread(errfd, errtail.data(), errtail.size(), b) < 0) errtail.clear(); }
        if (!confirmed) {
            fprintf(stderr, "a failure in %s at %llu did not reproduce (%s); first report: %s\n%s\n", s.name.c_str(), static_cast<unsigned long long>(badAt), msg.c_str(), badMsg.c_str(), errtail.c_str());
            rc = 2;
        } else {
            rc = 1;
            if (kind == 2) msg = "the operation does not terminate: " + msg;
            vjson = strf("\"violation\": {\"space\": \"%s\", \"from\": %llu, \"to\": %llu, \"at\": %llu, ", jesc(s.name).c_str(), static_cast<unsigned long long>(from), static_cast<unsigned long long>(at + 1), static_cast<unsigned long long>(at));
            vjson += "\"message\": \"" + jesc(msg) + "\", \"execution\": \"" + jesc(s.show ? s.show(at) : "") + "\", \"log\": \"" + jesc(errtail) + "\"}, ";
        }
    }
    if (getenv("MC_TIMES")) for (size_t i = 0; i < sp.size(); ++i) fprintf(stderr, "%8.2f s  %10llu  %s\n", shm->spaceUs[i].load() / 1e6, static_cast<unsigned long long>(sp[i].count), sp[i].name.c_str());
    std::string j = "{" + vjson;
    uint64_t total = 0; bool complete = true;
    j += "\"spaces\": [";
    for (size_t i = 0; i < sp.size(); ++i) {
        uint64_t d = shm->spaceDone[i].load(); total += d; if (d != sp[i].count) complete = false;
        j += strf("%s{\"name\": \"%s\", \"count\": %llu, \"done\": %llu}", i ? ", " : "", jesc(sp[i].name).c_str(), static_cast<unsigned long long>(sp[i].count), static_cast<unsigned long long>(d));
    }
    j += "], \"samples\": [";
    std::string kn; for (size_t k = 0; k < gKnown.size() && k < 64; ++k) kn += strf("%s%llu", k ? ", " : "", static_cast<unsigned long long>(shm->knownHit[k].load()));
    bool first = true;
    size_t stride = std::max<size_t>(1, sp.size() / 10);
    for (size_t i = 0; i < sp.size(); i += stride) if (sp[i].show) {
        j += strf("%s{\"space\": \"%s\", \"index\": %llu, \"execution\": \"", first ? "" : ", ", jesc(sp[i].name).c_str(), static_cast<unsigned long long>(sp[i].count * 2 / 3)) + jesc(sp[i].show(sp[i].count * 2 / 3)).substr(0, 1500) + "\"}";
        first = false;
    }
    j += "], \"known_hits\": [" + kn;
    j += strf("], \"states\": %llu, \"states_saturated\": %s, \"transitions\": %llu, \"executions\": %llu, \"capped\": %llu, \"complete\": %s, \"wall\": %.3f}",
              static_cast<unsigned long long>(shm->states.load()), shm->saturated.load() ? "true" : "false", static_cast<unsigned long long>(shm->transitions.load()),
              static_cast<unsigned long long>(total), static_cast<unsigned long long>(shm->capped.load()), complete ? "true" : "false", now() - t0);
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; } fputs(j.c_str(), f); fputs("\n", f); fclose(f); }
    else puts(j.c_str());
    return rc;
}
