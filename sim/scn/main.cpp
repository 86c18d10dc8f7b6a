// gwsim: one seed is one run.
//   gwsim batch <prop> <first> <count> <tier>      one JSON line per seed
//   gwsim run <prop> <seed> <tier> [params|-] [trace|-]
#include "scen.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
using std::string;

static Ctx* g_ctx; static string g_prop; static int g_fd = 1; static bool g_emitted = false;

static string esc(const string& s) {
    string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o;
}
static void emit() {
    sim::Rt rt;
    if (g_emitted) return; g_emitted = true;
    Ctx& x = *g_ctx; std::ostringstream o;
    o << "{\"prop\":\"" << g_prop << "\",\"seed\":" << x.p.seed << ",\"params\":\"" << x.p.str() << "\",\"skip\":\"" << esc(x.skip) << "\",\"viol\":[";
    for (size_t i = 0; i < x.viol.size(); i++) o << (i ? "," : "") << "[\"" << esc(x.viol[i].first) << "\",\"" << esc(x.viol[i].second.substr(0, 600)) << "\"]";
    o << "],\"hash\":\"" << std::hex << (sim::st.evHash ^ (sim::st.sigHash * 31) ^ (sim::st.points * 1000003)) << "\",\"sig\":\"" << sim::st.sigHash << std::dec << "\",\"st\":{";
    auto& s = sim::st; bool f = true;
#define S(n) o << (f ? "" : ",") << "\"" #n "\":" << s.n; f = false;
    S(points) S(seams) S(switches) S(preempts) S(forced) S(conflicts) S(teams) S(maxTeam) S(ticks) S(sends) S(rendezvous) S(delayed) S(wildcardChoices) S(reordered) S(collectives) S(waitsForced) S(allocs) S(allocFails) S(polls) S(cancels) S(lapack) S(lapackAfterStop) S(dists) S(distsAfterStop)
    o << "},\"fault\":{"; f = true; for (auto& k : x.fault) { o << (f ? "" : ",") << "\"" << k.first << "\":" << k.second; f = false; }
    o << "},\"probe\":{"; f = true; for (auto& k : x.probe) { o << (f ? "" : ",") << "\"" << k.first << "\":" << k.second; f = false; }
    o << "}";
    if (!x.viol.empty() || getenv("GWSIM_TRACE")) o << ",\"trace\":\"" << sim::recorded().str() << "\"";
    o << "}\n";
    string t = o.str(); size_t at = 0; while (at < t.size()) { ssize_t n = write(g_fd, t.data() + at, t.size() - at); if (n <= 0) break; at += n; }
}
static void fatalHook(const string& cls, const string& what) {
    sim::Rt rt; g_ctx->bad(cls, what); emit(); _exit(0);
}
static void onTerminate() {
    sim::Rt rt; string w = "std::terminate called";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& q) { w += string(": an exception left a parallel region or thread (") + q.what() + ")"; } catch (...) { w += ": an exception left a parallel region or thread"; } }
    fatalHook("terminate", w);
}
static void onSig(int s) { sim::Rt rt; sim::dying = true; fatalHook(s == SIGALRM ? "hang" : "signal", s == SIGALRM ? "no result within the real-time limit" : string("killed by signal ") + strsignal(s)); }

static void child(const string& prop, Scenario fn, Ctx& x) {
    g_ctx = &x; g_prop = prop; sim::onFatal = fatalHook; std::set_terminate(onTerminate);
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) sigaction(s, &sa, nullptr);
    const char* lim = getenv("GWSIM_ALARM"); alarm(lim ? atoi(lim) : 120);
    try { fn(x); }
    catch (const std::exception& e) { x.bad("harness", string("unexpected exception in scenario: ") + e.what()); }
    catch (...) { x.bad("harness", "unexpected exception in scenario"); }
    emit(); _exit(0);
}
static const ScenDef* find(const string& id) { for (int i = 0; i < nScenarios; i++) if (id == scenarios[i].id) return &scenarios[i]; return nullptr; }

int main(int argc, char** argv) {
    if (!getenv("GWSIM_EXEC")) {   // OpenBLAS reads its thread count when it is loaded; addresses must not vary
        setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); setenv("GWSIM_EXEC", "1", 1);
        unsetenv("OMP_DYNAMIC"); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv);
    }
    if (argc >= 2 && !strcmp(argv[1], "list")) { for (int i = 0; i < nScenarios; i++) printf("%s %s\n", scenarios[i].id, scenarios[i].what); return 0; }
    if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
    string mode = argv[1], prop = argv[2]; auto* d = find(prop); if (!d) { fprintf(stderr, "no scenario %s\n", argv[2]); return 2; }
    if (mode == "batch") {
        uint64_t first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10); int tier = argc > 5 ? atoi(argv[5]) : 0;
        const char* until = getenv("GWSIM_UNTIL"); time_t stop = until ? (time_t)atoll(until) : 0;
        for (uint64_t s = first; s < first + count; s++) {
            if (stop && time(nullptr) >= stop) break;
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) { Ctx* x = new Ctx; x->p.seed = s; x->tier = tier; child(prop, d->fn, *x); }
            int st = 0; while (waitpid(c, &st, 0) < 0) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"prop\":\"%s\",\"seed\":%llu,\"params\":\"\",\"skip\":\"\",\"viol\":[[\"died\",\"run ended without a result (status %d)\"]],\"hash\":\"0\",\"sig\":\"0\",\"st\":{},\"fault\":{},\"probe\":{},\"trace\":\"\"}\n", prop.c_str(), (unsigned long long)s, st); fflush(stdout); }
        }
        return 0;
    }
    Ctx* x = new Ctx; x->p.seed = strtoull(argv[3], 0, 10); x->tier = atoi(argv[4]);
    if (argc > 5 && strcmp(argv[5], "-")) { std::stringstream s(argv[5]); string kv; while (std::getline(s, kv, ',')) { auto e = kv.find('='); if (e != string::npos) x->p.over[kv.substr(0, e)] = atof(kv.c_str() + e + 1); } }
    if (argc > 6 && strcmp(argv[6], "-")) { std::ifstream f(argv[6]); string t((std::istreambuf_iterator<char>(f)), {}); x->replay = new sim::Trace(sim::Trace::parse(t)); }
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) child(prop, d->fn, *x);
    int st = 0; while (waitpid(c, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"prop\":\"%s\",\"seed\":%s,\"params\":\"\",\"skip\":\"\",\"viol\":[[\"died\",\"run ended without a result (status %d)\"]],\"hash\":\"0\",\"sig\":\"0\",\"st\":{},\"fault\":{},\"probe\":{},\"trace\":\"\"}\n", prop.c_str(), argv[3], st); }
    return 0;
}
