// engine: runs seeds (worker) or one plan (replay).
#include "model.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" const char * __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=8:exitcode=77:detect_stack_use_after_return=0:malloc_context_size=8:max_allocation_size_mb=2000:handle_segv=1:handle_abort=1:abort_on_error=0:strict_string_checks=0:check_printf=1:alloc_dealloc_mismatch=1:symbolize=0:detect_odr_violation=0"; }
namespace sim {
void extra_works(std::map<string, Work> & m) __attribute__((weak));
const std::map<string, Work> & works() {
    static std::map<string, Work> m;
    if (m.empty()) {
        for (const char * p : {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P20"}) m[p] = {gen_serial, exec_serial};
        for (const char * p : {"P16", "P17", "P18", "P19"}) m[p] = {gen_mpi, exec_mpi};
        for (const char * p : {"P21", "P22"}) m[p] = {gen_prim, exec_prim};
        m["P15"] = {gen_threads, exec_threads};
        m["P14"] = {gen_procs, exec_procs};
        for (const char * p : {"P23", "P24", "P25", "P26", "P29"}) m[p] = {gen_tools, exec_tools};
        // some properties have a serial and a collective half
        for (const char * p : {"P12", "P20"}) m[p] = {[](const string & q, u64 seed, int scale) { return seed % (q == "P20" ? 2 : 4) == 1 ? gen_mpi(q, seed, scale) : gen_serial(q, seed, scale); }, [](const Plan & p) { if (p.pi("mpi")) exec_mpi(p); else exec_serial(p); }};
        // some of the runs use blocks that 32 bits cannot count
        for (const char * p : {"P01", "P03", "P04", "P06", "P08", "P09", "P16", "P17", "P20"}) {
            static std::map<string, Work> small; small[p] = m[p];
            m[p] = {[](const string & q, u64 seed, int scale) { return mix64(seed, 0x4096e) % 10 == 0 ? gen_huge(q, seed, scale) : small.at(q).gen(q, seed, scale); }, [](const Plan & p) { if (p.pi("huge")) exec_huge(p); else { auto i = p.par.find("as"); small.at(i == p.par.end() ? p.prop.substr(0, 3) : i->second).exec(p); } }};
        }
        // what is taken is given back: in the histories of the others, with everything closed now and then
        m["P30"] = {[](const string & q, u64 seed, int scale) {
            static const char * AS[] = {"P10", "P18", "P10", "P18", "P13", "P11", "P01", "P05", "P16", "P17", "P20", "P07", "P03", "P21", "P22", "P15", "P14"};
            Rng g(mix64(seed, 0x1eaf)); string as = AS[g.below(sizeof AS / sizeof *AS)];
            Plan p = works().at(as).gen(as, seed, scale); p.prop = q; p.par["as"] = as; p.par["leak"] = "1"; p.par.erase("async");
            if (as == "P14" || as == "P15" || as == "P21" || as == "P22") return p;
            vector<Op> n; bool mpi = p.pi("mpi"); vector<Fault> fs;
            auto closing = [&] { if (mpi) { for (int b = 0; b < 4; b++) { Op c; c.kind = "close"; c.set("b", b); n.push_back(c); } Op c; c.kind = "fclose"; n.push_back(c); } else { Op c; c.kind = "closeall"; n.push_back(c); c.kind = "fclose"; c.set("f", 0); n.push_back(c); c.set("f", 1); n.push_back(c); } };
            std::map<int, int> at;
            for (auto & o : p.ops) { if (o.kind == "restart" || g.below(12) == 0) closing(); at[o.idx] = (int) n.size(); n.push_back(o); }
            closing();
            for (auto & f : p.faults) { if (at.count(f.op)) f.op = at[f.op]; }
            for (size_t i = 0; i < n.size(); i++) n[i].idx = (int) i;
            p.ops = n; return p;
        }, [](const Plan & p) { auto i = p.par.find("as"); works().at(i == p.par.end() ? "P10" : i->second).exec(p); }};
        if (extra_works) extra_works(m);
    }
    return m;
}
struct Status { u64 seed; u64 start_ms; u64 runs; u64 variant; };
static Status * ST;
static u64 now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
static string jstr(const string & s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += c; } return r + "\""; }
static const Plan * cur_plan; static bool searching;
struct Out { bool viol = false; string kind, msg; int op = -1; u64 hash = 0, shash = 0, fsdig = 0; long steps = 0, switches = 0, nchoice = 0; u64 vtime = 0; std::map<string, long> stat; vector<std::pair<long, int>> dec; vector<string> faults; };
static Out collect(Run & run, Fs & fs) {
    Out o; o.viol = run.v.set; o.kind = run.v.kind; o.msg = run.v.msg; o.op = run.v.op; o.fsdig = fs.digest(); o.hash = mix64(run.hash, o.fsdig, run.v.set ? hash_bytes(run.v.msg.data(), run.v.msg.size()) : 0); o.shash = run.shash;
    o.steps = run.step; o.switches = run.switches; o.nchoice = run.nchoice; o.vtime = run.vtime_us; o.stat = run.stat; o.dec = run.decisions;
    return o;
}
static Out run_plan(const Plan & p, bool trace) {
    cur_plan = &p;
    lib_restore_all();
    Run run; R = &run; Fs fs; FS = &fs;
    run.cfg = p.cfg; run.faults = p.faults; run.trace = trace;
    run.calm = p.faults.empty() && p.cfg.cap < 0 && p.cfg.fdlimit == 0;
    for (auto & o : p.ops) if (o.kind == "deny" || o.kind == "damage" || o.kind == "plant" || o.kind == "foreign") run.calm = false;
    data_file_hook = nullptr;
    mpi_reset();
    try { works().at(p.prop.substr(0, 3)).exec(p); } catch (Killed &) {}
    end_phase();
    Out o = collect(run, fs);
    R = nullptr; free_run_memory(); FS = nullptr;
    return o;
}
static void alarm_handler(int) { const char m[] = "engine: time limit of one run exceeded\n"; ssize_t k = write(2, m, sizeof m - 1); (void) k; _exit(78); }
// processor time, so that a busy machine does not look like a hang; the wall clock is only the last resort
static void limit_run(int secs) { struct itimerval v = {}; v.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &v, nullptr); alarm(secs * 15); }
static string rd(const char * path) { string s; FILE * f = strcmp(path, "-") ? fopen(path, "r") : stdin; if (!f) { perror(path); _exit(3); } char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); if (f != stdin) fclose(f); return s; }
static string outjson(const Plan & p, const Out & o, bool withplan) {
    string s = strf("{\"viol\":%s,\"kind\":%s,\"op\":%d,\"hash\":\"%016llx\",\"steps\":%ld,\"nchoice\":%ld,\"vtime_us\":%llu,\"switches\":%ld,\"msg\":", o.viol ? "true" : "false", jstr(o.kind).c_str(), o.op, (unsigned long long) o.hash, o.steps, o.nchoice, (unsigned long long) o.vtime, o.switches) + jstr(o.msg) + ",\"stat\":{";
    bool first = true; for (auto & x : o.stat) { s += (first ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second); first = false; }
    s += "},\"sched\":["; for (size_t i = 0; i < o.dec.size(); i++) s += strf("%s[%ld,%d]", i ? "," : "", o.dec[i].first, o.dec[i].second);
    s += "]"; if (withplan) s += ",\"plan\":" + jstr(p.text());
    return s + "}";
}
// a violation that cannot be unwound: report it from where it happened
void report_and_exit() {
    limit_run(0); Out o = collect(*R, *FS);
    if (searching) printf("{\"found\":{\"seed\":%llu,\"out\":%s}}\n", (unsigned long long) cur_plan->seed, outjson(*cur_plan, o, true).c_str()); else printf("%s\n", outjson(*cur_plan, o, false).c_str());
    fflush(stdout); _exit(1);
}
}
using namespace sim;
int main(int argc, char ** argv) {
    // engine LIBDIR replay PLAN [trace]
    // engine LIBDIR gen PROP SEED SCALE
    // engine LIBDIR run PROP FIRST STEP SECONDS SCALE STATUSFILE [MAXRUNS]
    if (argc < 3) return 2;
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    lib_dir = argv[1]; string cmd = argv[2];
    signal(SIGPROF, alarm_handler); signal(SIGALRM, alarm_handler); signal(SIGPIPE, SIG_IGN);
    int limit = getenv("BF_RUNLIMIT") ? atoi(getenv("BF_RUNLIMIT")) : 10;
    if (cmd == "replay") {
        Plan p = Plan::parse(rd(argv[3])); bool tr = argc > 4;
        if (!works().count(p.prop.substr(0, 3))) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
        limit_run(limit); Out o = run_plan(p, tr); limit_run(0);
        printf("%s\n", outjson(p, o, false).c_str());
        return o.viol ? 1 : 0;
    }
    if (cmd == "gen") { Plan p = works().at(string(argv[3]).substr(0, 3)).gen(argv[3], strtoull(argv[4], 0, 10), atoi(argv[5])); printf("%s", p.text().c_str()); return 0; }
    if (cmd == "run") {
        searching = true; string prop = argv[3]; u64 first = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); int scale = atoi(argv[7]);
        int fd = open(argv[8], O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) return 3;
        ST = (Status *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        u64 maxruns = argc > 9 ? strtoull(argv[9], 0, 10) : ~0ull; int selfcheck = getenv("BF_SELFCHECK") ? atoi(getenv("BF_SELFCHECK")) : 50;
        u64 t0 = now_ms(); auto & wk = works().at(prop.substr(0, 3));
        std::map<string, long> stat; std::set<u64> hashes, scheds; u64 runs = 0, vt = 0, steps = 0, sw = 0, nontrivial = 0, checked = 0; vector<string> viols; vector<string> samples; std::set<string> kinds;
        for (u64 s = first; runs < maxruns && (now_ms() - t0) < secs * 1000; s += step) {
            ST->seed = s; ST->start_ms = now_ms(); ST->runs = runs;
            Plan p = wk.gen(prop, s, scale);
            limit_run(limit); Out o = run_plan(p, false);
            if (runs % selfcheck == 0) { Out o2 = run_plan(p, false); checked++; if (o2.hash != o.hash || o2.shash != o.shash || o2.steps != o.steps) { printf("{\"nondet\":%llu,\"a\":%s,\"b\":%s}\n", (unsigned long long) s, outjson(p, o, false).c_str(), outjson(p, o2, false).c_str()); return 4; } }
            limit_run(0);
            runs++; vt += o.vtime; steps += o.steps; sw += o.switches; if (o.steps > 20) hashes.insert(o.hash); if (o.switches) scheds.insert(mix64(o.shash, o.hash)); if (o.steps > 20) nontrivial++;
            for (auto & x : o.stat) stat[x.first] += x.second;
            if (o.steps > 400000) stat["runs_over_400000_steps"]++;
            if (samples.size() < 2 && o.steps > 20) samples.push_back(outjson(p, o, true));
            if (o.viol && kinds.insert(o.kind).second) { viols.push_back(strf("{\"seed\":%llu,\"out\":", (unsigned long long) s) + outjson(p, o, true) + "}"); printf("{\"found\":%s}\n", viols.back().c_str()); fflush(stdout); if (getenv("BF_STOP")) break; }
        }
        ST->runs = runs; ST->seed = ~0ull;
        string s = strf("{\"runs\":%llu,\"ms\":%llu,\"vtime_us\":%llu,\"steps\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"selfchecked\":%llu,\"distinct_exec\":%zu,\"distinct_sched\":%zu,\"stat\":{", (unsigned long long) runs, (unsigned long long) (now_ms() - t0), (unsigned long long) vt, (unsigned long long) steps, (unsigned long long) sw, (unsigned long long) nontrivial, (unsigned long long) checked, hashes.size(), scheds.size());
        bool f1 = true; for (auto & x : stat) { s += (f1 ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second); f1 = false; }
        s += "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) s += (i ? "," : "") + samples[i];
        printf("{\"done\":%s]}}\n", s.c_str());
        if (FILE * f = fopen((string(argv[8]) + ".h").c_str(), "w")) { for (u64 h : hashes) fwrite(&h, 8, 1, f); fclose(f); }
        if (FILE * f = fopen((string(argv[8]) + ".s").c_str(), "w")) { for (u64 h : scheds) fwrite(&h, 8, 1, f); fclose(f); }
        return viols.empty() ? 0 : 1;
    }
    return 2;
}
