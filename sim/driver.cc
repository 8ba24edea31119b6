// Main program of every harness: explores seeds, or runs one seed, or replays a trace.
#include "driver.h"
#include "rt_internal.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

static std::map<std::string, std::string> options;
std::string option(char const* name, char const* fallback) {
    auto it = options.find(name);
    return it == options.end() ? fallback : it->second;
}

bool known_finding(char const* id) {
    Suspend q;
    static std::map<std::string, std::string> names;      // Probes keep the pointer.
    if(("," + option("known", "") + ",").find("," + std::string(id) + ",") == std::string::npos) return false;
    auto it = names.emplace(id, "known finding " + std::string(id)).first;
    probe(it->second.c_str());
    return true;
}

void swarm_schedule(Rng& rng, Params& p) {
    static double const ps[] = {0.02, 0.1, 0.3, 0.6, 1.0};
    switch(rng.below(8)) {
        case 0: case 1: case 2: case 3: p.strategy = 0; break;
        case 4: case 5: case 6: p.strategy = 1; break;
        default: p.strategy = 2; break;
    }
    p.p_sync = ps[rng.below(5)];
    p.p_atomic = rng.chance(0.4) ? p.p_sync : rng.chance(0.5) ? p.p_sync * 0.1 : 0.01;
    static double const pp[] = {0, 0, 0, 1e-4, 1e-3, 1e-2};
    p.p_plain = pp[rng.below(6)];
    p.change_points = int(rng.range(0, 8));
    p.slow_thread = rng.chance(0.25) ? int(rng.range(0, 5)) : -1;
    p.cpus = int(rng.range(1, 8));
}

static std::string out_path;
static double t0;
static double wall() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
static std::string esc(std::string const& s) {
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
static std::string trace_json(Trace const& t) {
    std::ostringstream s;
    s << "{\"schedule\":[";
    for(size_t i = 0; i < t.schedule.size(); ++i) s << (i ? "," : "") << "[" << t.schedule[i].step << "," << t.schedule[i].tid << "]";
    s << "],\"faults\":[";
    for(size_t i = 0; i < t.faults.size(); ++i)
        s << (i ? "," : "") << "[\"" << fault_name[t.faults[i].kind] << "\"," << t.faults[i].nth << "," << t.faults[i].arg << "]";
    s << "]}";
    return s.str();
}

static std::vector<std::string> samples;
static std::unordered_set<uint64_t> inter, nontrivial_inter;
static uint64_t runs = 0, nontrivial_runs = 0;

static uint64_t repeats, differing, next;

static std::string stats_json() {
    Stats const& s = stats();
    std::ostringstream o;
    o << "\"repeats\":" << repeats << ",\"differing\":" << differing << ",\"runs\":" << runs << ",\"nontrivial_runs\":" << nontrivial_runs
      << ",\"steps\":" << s.steps << ",\"sync_steps\":" << s.sync_steps << ",\"switches\":" << s.switches
      << ",\"accesses\":" << s.races_checked << ",\"threads\":" << s.threads << ",\"sim_ns\":" << s.sim_ns
      << ",\"wall\":" << (wall() - t0) << ",\"interleavings\":" << inter.size() << ",\"faults\":{";
    for(int i = 0; i < F_NR; ++i)
        o << (i ? "," : "") << "\"" << fault_name[i] << "\":[" << s.fault_injected[i] << "," << s.fault_points[i] << "]";
    o << "},\"probes\":{";
    auto pr = probes();
    for(size_t i = 0; i < pr.size(); ++i) o << (i ? "," : "") << "\"" << esc(pr[i].first) << "\":" << pr[i].second;
    o << "},\"samples\":[";
    for(size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
    o << "]";
    return o.str();
}

static void write_out(std::string const& s) {
    FILE* f = out_path.empty() ? stdout : fopen((out_path + ".tmp").c_str(), "w");
    if(!f) _exit(98);
    fwrite(s.data(), 1, s.size(), f);
    fputc('\n', f);
    if(f != stdout) { fclose(f); rename((out_path + ".tmp").c_str(), out_path.c_str()); }
    else fflush(f);
}

static void report(std::string const& kind, std::string const& detail) {
    static bool reported = false;
    if(reported) return;
    reported = true;
    Result r = current_result();
    std::ostringstream o;
    o << "{\"violation\":{\"kind\":\"" << esc(kind) << "\",\"detail\":\"" << esc(detail) << "\",\"seed\":" << current_seed()
      << ",\"workload\":\"" << esc(current_description()) << "\",\"during\":\"" << esc(current_context())
      << "\",\"hash\":\"" << std::hex << r.hash << std::dec << "\",\"step\":" << r.steps << ",\"sim_ns\":" << r.sim_ns
      << ",\"trace\":" << trace_json(r.trace) << "}," << stats_json() << "}";
    write_out(o.str());
    _exit(10);
}

static void on_signal(int sig) {
    signal(sig, SIG_DFL);
    if(sig == SIGALRM) violation("no-progress", "no scheduling point reached within the real-time limit");
    violation(std::string("crash"), std::string("signal ") + std::to_string(sig) + " (" + strsignal(sig) + ") during " + current_context());
}
static void on_terminate() {
    std::string what = "std::terminate called";
    try { if(auto e = std::current_exception()) std::rethrow_exception(e); }
    catch(std::exception const& e) { what += std::string(", exception: ") + e.what(); }
    catch(...) { what += ", unknown exception"; }
    violation("terminate", what + " during " + current_context());
}

static Trace read_trace(std::string const& path) {
    Trace t;
    std::ifstream f(path);
    if(!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(98); }
    std::string k;
    while(f >> k) {
        if(k == "s") { Decision d; f >> d.step >> d.tid; t.schedule.push_back(d); }
        else if(k == "f") {
            std::string n; FaultAt a{};
            f >> n >> a.nth >> a.arg;
            for(int i = 0; i < F_NR; ++i) if(n == fault_name[i]) { a.kind = Fault(i); t.faults.push_back(a); }
        }
    }
    std::sort(t.schedule.begin(), t.schedule.end(), [](Decision const& a, Decision const& b) { return a.step < b.step; });
    return t;
}

static Result one(uint64_t seed, Trace const* trace) {
    Rng rng(seed);
    Scenario sc = make_scenario(rng, seed);
    describe(sc.description);
    context("");
    Result r = run(seed, sc.params, trace, sc.body);
    ++runs;
    inter.insert(r.interleaving);
    if(sc.nontrivial) { ++nontrivial_runs; nontrivial_inter.insert(r.interleaving); }
    if(samples.size() < 3 && runs % 7 == 1) {
        std::ostringstream o;
        o << "seed " << seed << ": " << sc.description << "; " << r.threads << " threads, " << r.switches << " switches, "
          << r.sync_steps << " sync steps, sim " << r.sim_ns / 1000 << " us";
        for(int i = 0; i < F_NR; ++i) if(r.injected[i]) o << ", " << r.injected[i] << "x " << fault_name[i];
        samples.push_back(o.str());
    }
    return r;
}

} // namespace sim

extern "C" void __assert_fail(char const* expr, char const* file, unsigned line, char const* func) {
    char const* base = strrchr(file, '/');
    std::string s = std::string(expr) + " at " + (base ? base + 1 : file);
    (void)line; (void)func;
    sim::violation("assertion", s + " during " + sim::current_context());
}

int main(int argc, char** argv) {
    using namespace sim;
    t0 = wall();
    uint64_t base = 1, stride = 1, offset = 0, max_runs = ~0ull, single = 0;
    bool have_single = false, check_repeat = true;
    double limit = 1e9;
    int cpu = -1;
    std::string trace_path, inter_path;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { if(i + 1 >= argc) exit(98); return std::string(argv[++i]); };
        if(a == "--base") base = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--offset") offset = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--runs") max_runs = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--limit") limit = strtod(val().c_str(), nullptr);
        else if(a == "--out") out_path = val();
        else if(a == "--inter") inter_path = val();
        else if(a == "--cpu") cpu = atoi(val().c_str());
        else if(a == "--one") { single = strtoull(val().c_str(), nullptr, 10); have_single = true; }
        else if(a == "--trace") trace_path = val();
        else if(a == "--opt") { std::string s = val(); size_t p = s.find('='); if(p != std::string::npos) sim::options[s.substr(0, p)] = s.substr(p + 1); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 98; }
    }
    if(cpu >= 0) {
        cpu_set_t set;
        CPU_ZERO(&set);
        CPU_SET(cpu, &set);
        sched_setaffinity(0, sizeof set, &set);
    }
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
        struct sigaction action{};
        action.sa_handler = on_signal;
        action.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &action, nullptr);
    }
    std::set_terminate(on_terminate);
    on_violation = report;
    std::thread([] { std::ostringstream first_use; first_use << 1.5; }).join();      // The C++ library's own first use of locales.
    context("the first use of the library, outside of any simulated run");
    alarm(60);
    warm_up();
    alarm(0);
    context("");
    // A first run nobody looks at: one-time initialisations happen here.
    if(have_single) {
        Trace t;
        bool rep = !trace_path.empty();
        if(rep) t = read_trace(trace_path);
        Result r = one(single, rep ? &t : nullptr);
        std::ostringstream o;
        o << "{\"hash\":\"" << std::hex << r.hash << std::dec << "\",\"trace\":" << trace_json(r.trace) << "," << stats_json() << "}";
        write_out(o.str());
        return 0;
    }
    uint64_t const repeat = strtoull(option("repeat", "64").c_str(), nullptr, 10);
    for(uint64_t k = 0; k < max_runs; ++k) {
        if(wall() - t0 > limit) break;
        if(worn()) { next = k; break; }                // Blocks of earlier runs fill the heap.
        uint64_t seed = base + offset + k * stride;
        Result r = one(seed, nullptr);
        // The engine's own determinism is watched all the time: the same seed
        // again, and the recorded trace again, give the same execution, unless
        // the code under test keeps state of its own from run to run.
        if(check_repeat && k % repeat == 5 % repeat) {
            Result r2 = one(seed, nullptr);
            Result r3 = one(seed, &r.trace);
            ++repeats;
            if(r2.hash != r.hash || r2.steps != r.steps || r3.hash != r.hash || r3.steps != r.steps) {
                if(!differing++) fprintf(stderr, "seed %llu is repeated with %llu and %llu instead of %llu steps\n", (unsigned long long)seed,
                    (unsigned long long)r2.steps, (unsigned long long)r3.steps, (unsigned long long)r.steps);
                if(option("strict", "") == "1") harness_error("seed " + std::to_string(seed) + " is not deterministic");
            }
            runs -= 2;
            nontrivial_runs = std::min(nontrivial_runs, runs);
        }
    }
    if(!inter_path.empty()) {
        FILE* f = fopen(inter_path.c_str(), "wb");
        if(f) {
            for(uint64_t h : nontrivial_inter) fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    write_out("{\"next\":" + std::to_string(next) + "," + stats_json() + "}");
    return 0;
}
