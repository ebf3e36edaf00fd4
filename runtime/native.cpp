// Native runner: the harness interface over recorded values, so that a case
// found symbolically can be run against the real code with the real library.
// usage: native CASES      each line: entry;b0,b1,...;param=value,...
// prints per line: END <done|exit> <code> <obshash> | VIOL <kind> <msg> | ASSUME | KNOWN <id> | CRASH <status>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <iostream>
#include <map>
#include <exception>
#include <dlfcn.h>
#include <cxxabi.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "sym.h"

static std::vector<int> g_vals; static size_t g_at = 0;
static std::map<std::string, int64_t> g_params;
static uint64_t g_hash = 1469598103934665603ull;
static int g_outfd = 1;
static std::ostringstream g_streams[4], g_cout, g_cerr;
static unsigned g_width = 0; static bool g_in_case = false;
static bool g_verbose = false;
static std::vector<std::string> g_reach;

static void emit(const std::string& s) { std::string t = s + "\n"; if (write(g_outfd, t.data(), t.size()) < 0) {} }
[[noreturn]] static void finish() { _exit(0); }
extern "C" void sym_on_exit(int) __attribute__((weak));
extern "C" {
uint8_t sym_u8(const char* name, int lo, int hi) {
    int v = g_at < g_vals.size() ? g_vals[g_at] : lo; g_at++;
    if (v < lo || v > hi) { emit("ASSUME"); finish(); }
    if (g_verbose) fprintf(stderr, "  %s = %d '%c'\n", name, v, v >= 32 && v < 127 ? v : '.');
    return (uint8_t)v;
}
void sym_assume(int c) { if (!c) { emit("ASSUME"); finish(); } }
void sym_check(int c, const char* m) { if (!c) { emit(std::string("VIOL check ") + m); finish(); } }
void sym_reach(const char* l) { if (g_verbose) fprintf(stderr, "  reached %s\n", l); }
void sym_obs(uint64_t v) { if (g_verbose) fprintf(stderr, "  obs %llu\n", (unsigned long long)v); for (int i = 0; i < 8; i++) { g_hash ^= (v >> (8 * i)) & 255; g_hash *= 1099511628211ull; } }
void sym_obs_bytes(const void* p, size_t n) { if (g_verbose) fprintf(stderr, "  obs \"%.*s\"\n", (int)n, (const char*)p); bool v = g_verbose; g_verbose = false; sym_obs(n); g_verbose = v; for (size_t i = 0; i < n; i++) { g_hash ^= ((const unsigned char*)p)[i]; g_hash *= 1099511628211ull; } }
uint64_t sym_fix(uint64_t v) { return v; }
int sym_symbolic() { return 0; }
int64_t sym_param(const char* n, int64_t d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second; }
void sym_known(const char* id) { emit(std::string("KNOWN ") + id); finish(); }
static void done(const char* k, int code) { emit(std::string("END ") + k + " " + std::to_string(code) + " " + std::to_string(g_hash)); finish(); }
void sym_end() { done("done", -1); }
void sym_debug(const char*, uint64_t) {}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) { if (!g_in_case) __real_exit(code); if (sym_on_exit) sym_on_exit(code); done("exit", code); __builtin_unreachable(); }
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long req, void* p) {
    if (req != TIOCGWINSZ) return __real_ioctl(fd, req, p);
    if (!g_width) { errno = ENOTTY; return -1; }
    winsize* w = (winsize*)p; w->ws_row = 25; w->ws_col = g_width; w->ws_xpixel = w->ws_ypixel = 0; return 0;
}
// stand-ins for strtod/strtof, when the harness asks for them
double (*sym_strtod_hook)(const char*, char**) = nullptr;
float (*sym_strtof_hook)(const char*, char**) = nullptr;
double __real_strtod(const char*, char**); float __real_strtof(const char*, char**);
double __wrap_strtod(const char* s, char** e) { return sym_strtod_hook ? sym_strtod_hook(s, e) : __real_strtod(s, e); }
float __wrap_strtof(const char* s, char** e) { return sym_strtof_hook ? sym_strtof_hook(s, e) : __real_strtof(s, e); }
}
std::ostream* sym_stream(int k) { return &g_streams[k]; }
std::string sym_text(int k) { return g_streams[k].str(); }
std::string sym_stdout() { return g_cout.str(); }
std::string sym_stderr() { return g_cerr.str(); }
void sym_set_console_width(unsigned w) { g_width = w; }

static void onterm() {
    std::string m = "uncaught";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { m = x.what(); } catch (...) {} }
    emit("VIOL exception " + m); _exit(0);
}
static void runCase(const std::string& line) {
    auto p = line.find(';'); std::string entry = line.substr(0, p); auto q = line.find(';', p + 1);
    std::string vals = line.substr(p + 1, q == std::string::npos ? q : q - p - 1), params = q == std::string::npos ? "" : line.substr(q + 1);
    std::istringstream vs(vals); std::string t; while (std::getline(vs, t, ',')) if (!t.empty()) g_vals.push_back(atoi(t.c_str()));
    std::istringstream ps(params); while (std::getline(ps, t, ',')) { auto e = t.find('='); if (e != std::string::npos) g_params[t.substr(0, e)] = atoll(t.c_str() + e + 1); }
    auto f = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!f) { emit("NOENTRY " + entry); _exit(0); }
    std::cout.rdbuf(g_cout.rdbuf()); std::cerr.rdbuf(g_cerr.rdbuf());
    std::set_terminate(onterm);
    g_in_case = true;
    try { f(); }
    catch (std::exception& e) { emit(std::string("VIOL exception ") + e.what()); finish(); }
    catch (...) { emit("VIOL exception ?"); finish(); }
    done("done", -1);
}
int main(int argc, char** argv) {
    const char* file = nullptr; int to = 20;
    for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "-v")) g_verbose = true; else if (!strcmp(argv[i], "-t")) to = atoi(argv[++i]); else file = argv[i]; }
    FILE* f = fopen(file, "r"); if (!f) return 2;
    std::string line; int c; std::vector<std::string> lines;
    while ((c = fgetc(f)) != EOF) { if (c == '\n') { if (!line.empty()) lines.push_back(line); line.clear(); } else line += (char)c; }
    if (!line.empty()) lines.push_back(line);
    for (auto& l : lines) {
        int pf[2]; if (pipe(pf)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { close(pf[0]); g_outfd = pf[1]; alarm(to); if (!g_verbose) { int n = open("/dev/null", O_WRONLY); (void)n; } runCase(l); _exit(0); }
        close(pf[1]);
        std::string out; char b[4096]; ssize_t n; while ((n = read(pf[0], b, sizeof b)) > 0) out.append(b, n);
        close(pf[0]); int st; waitpid(pid, &st, 0);
        if (out.empty() || out.back() != '\n' || !WIFEXITED(st) || WEXITSTATUS(st)) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) out = "CRASH timeout\n";
            else if (WIFSIGNALED(st)) out = "CRASH signal " + std::to_string(WTERMSIG(st)) + "\n";
            else if (WEXITSTATUS(st)) out = "CRASH exit " + std::to_string(WEXITSTATUS(st)) + "\n";
            else if (out.empty()) out = "CRASH silent\n";
        }
        auto nl = out.find('\n'); printf("%s\n", out.substr(0, nl).c_str()); fflush(stdout);
    }
}
