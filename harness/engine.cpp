// Parallel, crash-isolated case runner with shrinking.
//   engine --prop P --seed S --cases N --jobs J --stats OUT.json --fail FAIL.txt [--wall SEC]
//   engine --prop P --replay FILE            run one saved case with a trace
//   engine --prop P --bytes FILE --fail OUT  adopt a fuzzer input, shrink it
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;

static int g_case_cpu_s = 20; // CPU seconds one case may use before it counts as a hang
static std::string g_scratch_root;
static const char* TIMEOUT_MSG = "the operation does not terminate (case exceeded its CPU allowance by orders of magnitude)";

static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

template <class T>
static T* shared(size_t n = 1)
{
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return (T*)p;
}

static void on_prof(int)
{
    static const char m[] = "case exceeded CPU allowance\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(77);
}

static void arm()
{
    struct itimerval t = {};
    t.it_value.tv_sec = g_case_cpu_s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

// An expensive case says so.
static void heavy(int factor)
{
    struct itimerval t = {};
    t.it_value.tv_sec = factor * g_case_cpu_s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct Worker {
    uint64_t cur;
    uint64_t done;
    uint64_t nontrivial;
    double t_case;
};

static std::string make_scratch(const std::string& tag)
{
    std::string d = g_scratch_root + "/" + tag;
    mkdir(d.c_str(), 0700);
    return d;
}

// Execute one case in a child process. Returns true if it failed; fills msg.
static bool run_isolated(const Property& p, const std::vector<uint64_t>& choices, Record* rec, std::string& msg, bool trace, bool quiet, int* infra, bool sequence = false)
{
    rec->status = 0;
    rec->msg[0] = 0;
    rec->n_choices = rec->n_spans = 0;
    if (infra) *infra = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        if (infra) *infra = 1;
        return false;
    }
    if (pid == 0) {
        if (quiet) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            if (!trace) dup2(fd, 1);
        }
        arm();
        std::string scratch = make_scratch("iso" + std::to_string(getpid()));
        if (sequence) {
            for (size_t i = 0; i < choices.size(); ++i) {
                arm();
                Ctx c(choices[i], rec);
                c.tracing = trace && i + 1 == choices.size();
                c.scratch = scratch;
                run_case(p, c, rec);
                if (rec->status == 2 || rec->status == 3) _exit(42);
            }
            _exit(0);
        }
        Ctx c(choices, rec);
        c.tracing = trace;
        c.scratch = scratch;
        run_case(p, c, rec);
        if (rec->status == 2 || rec->status == 3) _exit(42);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    std::string d = g_scratch_root + "/iso" + std::to_string(pid);
    if (access(d.c_str(), F_OK) == 0) {
        std::string cmd = "rm -rf '" + d + "'";
        (void)!system(cmd.c_str());
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
        msg = rec->msg;
        return true;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        msg = TIMEOUT_MSG;
        return true;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        // most likely the memory guard of the sandbox: no verdict
        if (infra) *infra = 1;
        return false;
    }
    std::ostringstream o;
    if (WIFSIGNALED(st))
        o << "the code under test died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    else
        o << "the code under test was stopped by a sanitizer report or exit (code " << WEXITSTATUS(st) << ")";
    msg = o.str();
    return true;
}

static void get_record(Record* rec, std::vector<uint64_t>& ch, std::vector<uint32_t>& sp)
{
    ch.assign(rec->choices, rec->choices + rec->n_choices);
    sp.assign(rec->spans, rec->spans + rec->n_spans);
}

struct Shrinker {
    const Property& p;
    Record* rec;
    std::vector<uint64_t> best;
    std::vector<uint32_t> spans;
    std::string msg;
    int budget;
    double deadline;
    int execs = 0;

    bool attempt(const std::vector<uint64_t>& cand)
    {
        if (execs >= budget || now() > deadline) return false;
        ++execs;
        std::string m;
        int infra = 0;
        if (!run_isolated(p, cand, rec, m, false, true, &infra)) return false;
        std::vector<uint64_t> ch;
        std::vector<uint32_t> sp;
        get_record(rec, ch, sp);
        // normal form: what was actually consumed; drop trailing zeros
        while (!ch.empty() && ch.back() == 0) ch.pop_back();
        auto weight = [](const std::vector<uint64_t>& v) {
            long double s = 0;
            for (auto x : v) s += (long double)x;
            return s;
        };
        if (ch.size() < best.size() || (ch.size() == best.size() && weight(ch) < weight(best))) {
            best = ch;
            spans = sp;
            msg = m;
            return true;
        }
        return false;
    }
    bool live() { return execs < budget && now() < deadline; }

    void run()
    {
        bool progress = true;
        while (progress && live()) {
            progress = false;
            // whole operations, long runs first
            for (size_t k = 16; k >= 1; k /= 2) {
                for (size_t i = spans.size(); i-- > 0 && live();) {
                    if (i >= spans.size()) continue;
                    size_t a = spans[i], b = i + k < spans.size() ? spans[i + k] : best.size();
                    if (a >= best.size() || b > best.size() || b <= a) continue;
                    std::vector<uint64_t> cand(best.begin(), best.begin() + a);
                    cand.insert(cand.end(), best.begin() + b, best.end());
                    if (attempt(cand)) progress = true;
                }
            }
            // chunks of raw choices
            for (size_t k = 8; k >= 1; k /= 2) {
                for (size_t i = best.size(); i-- > 0 && live();) {
                    if (i + k > best.size()) continue;
                    std::vector<uint64_t> cand(best.begin(), best.begin() + i);
                    cand.insert(cand.end(), best.begin() + i + k, best.end());
                    if (attempt(cand)) progress = true;
                }
            }
            // values
            for (size_t i = 0; i < best.size() && live(); ++i) {
                if (best[i] == 0) continue;
                std::vector<uint64_t> cand = best;
                cand[i] = 0;
                if (attempt(cand)) {
                    progress = true;
                    continue;
                }
                while (i < best.size() && best[i] > 1 && live()) {
                    cand = best;
                    cand[i] /= 2;
                    if (!attempt(cand)) break;
                    progress = true;
                }
                while (i < best.size() && best[i] > 0 && live()) {
                    cand = best;
                    cand[i] -= 1;
                    if (!attempt(cand)) break;
                    progress = true;
                }
            }
        }
    }
};

static void save_case(const std::string& path, const std::string& prop, const std::vector<uint64_t>& ch, const std::string& msg)
{
    std::ofstream f(path);
    f << "property " << prop << "\n";
    f << "scale " << g_scale << "\n";
    std::string one = msg;
    for (auto& x : one)
        if (x == '\n') x = ' ';
    f << "failure " << one << "\n";
    f << "choices";
    for (auto x : ch) f << ' ' << x;
    f << "\n";
}

// A failure that needs what earlier cases left behind in the process: the case
// seeds to run one after the other.
static void save_sequence(const std::string& path, const std::string& prop, const std::vector<uint64_t>& seeds, const std::string& msg)
{
    std::ofstream f(path);
    f << "property " << prop << "\nscale " << g_scale << "\nfailure " << msg << "\nsequence";
    for (auto x : seeds) f << ' ' << x;
    f << "\n";
}

static bool load_case(const std::string& path, std::vector<uint64_t>& ch, bool& sequence)
{
    std::ifstream f(path);
    std::string line;
    sequence = false;
    while (std::getline(f, line)) {
        if (line.rfind("scale ", 0) == 0) g_scale = atoi(line.c_str() + 6);
        if (line.rfind("sequence", 0) == 0) {
            sequence = true;
            std::istringstream is(line.substr(8));
            uint64_t v;
            while (is >> v) ch.push_back(v);
            return true;
        }
        if (line.rfind("choices", 0) == 0) {
            std::istringstream is(line.substr(7));
            uint64_t v;
            while (is >> v) ch.push_back(v);
            return true;
        }
    }
    return false;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k == "--list") {
            for (auto& p : registry()) std::cout << p.id << "\n";
            return 0;
        }
        if (i + 1 < argc) a[k] = argv[++i];
    }
    const Property* p = find_property(a["--prop"]);
    if (!p) {
        fprintf(stderr, "unknown property\n");
        return 3;
    }
    if (a.count("--scale")) g_scale = atoi(a["--scale"].c_str());
    if (a.count("--case-cpu")) g_case_cpu_s = atoi(a["--case-cpu"].c_str());
    signal(SIGPROF, on_prof);
    g_heavy = heavy;

    char tmpl[] = "/tmp/vf-scratch-XXXXXX";
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 3;
    }
    g_scratch_root = tmpl;
    struct Cleanup {
        pid_t owner = getpid();
        ~Cleanup()
        {
            if (getpid() != owner) return;
            std::string cmd = "rm -rf '" + g_scratch_root + "'";
            (void)!system(cmd.c_str());
        }
    };
    auto cleanup = std::make_unique<Cleanup>();
    auto finish = [&](int rc) {
        cleanup.reset();
        fflush(stdout);
        _exit(rc);
    };

    Record* rec0 = shared<Record>();

    if (a.count("--replay")) {
        std::vector<uint64_t> ch;
        bool sequence = false;
        if (!load_case(a["--replay"], ch, sequence)) {
            fprintf(stderr, "cannot read case\n");
            finish(3);
        }
        std::string msg;
        int infra = 0;
        bool failed = run_isolated(*p, ch, rec0, msg, true, a.count("--quiet") != 0, &infra, sequence);
        if (infra) finish(3);
        if (failed) {
            printf("FAILS: %s\n", msg.c_str());
            finish(1);
        }
        printf("PASSES\n");
        finish(0);
    }

    std::vector<uint64_t> fail_choices;
    std::vector<uint32_t> fail_spans;
    std::vector<uint64_t> history; // seeds of the cases the failing worker ran, in order
    std::string fail_msg;
    bool failed = false;
    int infra_errors = 0;
    int rc = 0;

    if (a.count("--bytes")) {
        std::ifstream f(a["--bytes"], std::ios::binary);
        std::string data((std::istreambuf_iterator<char>(f)), {});
        pid_t pid = fork();
        if (pid == 0) {
            arm();
            Ctx c((const uint8_t*)data.data(), data.size(), rec0);
            c.scratch = make_scratch("iso" + std::to_string(getpid()));
            run_case(*p, c, rec0);
            _exit(rec0->status == 1 ? 0 : 42);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            printf("bytes pass\n");
            finish(0);
        }
        get_record(rec0, fail_choices, fail_spans);
        fail_msg = rec0->msg;
        failed = true;
    } else {
        uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
        uint64_t cases = strtoull(a["--cases"].c_str(), nullptr, 10);
        int jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
        double wall = a.count("--wall") ? atof(a["--wall"].c_str()) : 600;
        uint64_t pseed = seed;
        for (char ch : p->id) pseed = mix(pseed, (uint64_t)ch);

        Worker* w = shared<Worker>(jobs);
        Record* recs = shared<Record>(jobs);
        volatile uint32_t* stop = shared<uint32_t>();
        double t0 = now();
        std::vector<pid_t> pids(jobs);
        std::string statdir = g_scratch_root + "/stats";
        mkdir(statdir.c_str(), 0700);
        std::map<pid_t, int> who;
        for (int j = 0; j < jobs; ++j) {
            pid_t pid = fork();
            if (pid < 0) {
                perror("fork");
                finish(3);
            }
            if (pid == 0) {
                std::map<std::string, uint64_t> lab;
                std::vector<uint64_t> hashes;
                std::string scratch = make_scratch("w" + std::to_string(j));
                int code = 0;
                for (uint64_t i = j; i < cases; i += jobs) {
                    if (*stop || now() - t0 > wall) break;
                    w[j].cur = i;
                    arm();
                    Ctx c(mix(pseed, i), &recs[j]);
                    c.scratch = scratch;
                    run_case(*p, c, &recs[j]);
                    ++w[j].done;
                    if (c.is_nontrivial) {
                        ++w[j].nontrivial;
                        hashes.push_back(c.choice_hash());
                    }
                    for (auto& l : c.labels) ++lab[l];
                    if (recs[j].status != 1) {
                        code = 42;
                        break;
                    }
                }
                std::ofstream f(statdir + "/" + std::to_string(j));
                for (auto& l : lab) f << "L " << l.second << ' ' << l.first << "\n";
                for (auto h : hashes) f << "H " << h << "\n";
                f.close();
                fflush(stdout);
                _exit(code);
            }
            pids[j] = pid;
            who[pid] = j;
        }
        int bad = -1;
        int badst = 0;
        double until = 0; // after a failure the other workers get a few seconds to end their cases
        for (int k = 0; k < jobs;) {
            int st = 0;
            pid_t pid = waitpid(-1, &st, until > 0 ? WNOHANG : 0);
            if (pid < 0 && errno == EINTR) continue;
            if (pid < 0) break;
            if (pid == 0) {
                if (now() > until)
                    for (auto& x : who) kill(x.first, SIGKILL);
                usleep(20000);
                continue;
            }
            ++k;
            int j = who[pid];
            who.erase(pid);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            *stop = 1;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                if (until == 0) ++infra_errors;
                continue;
            }
            if (until == 0) until = now() + 5;
            if (bad < 0 || w[j].cur < w[bad].cur) {
                bad = j;
                badst = st;
            }
        }
        (void)badst;
        if (bad >= 0) {
            failed = true;
            get_record(&recs[bad], fail_choices, fail_spans);
            fail_msg = recs[bad].msg;
            for (uint64_t i = bad; i <= w[bad].cur; i += jobs) history.push_back(mix(pseed, i));
        }
        // statistics
        uint64_t done = 0, nontriv = 0;
        std::map<std::string, uint64_t> lab;
        std::set<uint64_t> distinct;
        for (int j = 0; j < jobs; ++j) {
            done += w[j].done;
            nontriv += w[j].nontrivial;
            std::ifstream f(statdir + "/" + std::to_string(j));
            std::string line;
            while (std::getline(f, line)) {
                if (line[0] == 'L') {
                    std::istringstream is(line.substr(2));
                    uint64_t n;
                    std::string l;
                    is >> n;
                    std::getline(is, l);
                    lab[l.substr(1)] += n;
                } else if (line[0] == 'H')
                    distinct.insert(strtoull(line.c_str() + 2, nullptr, 10));
            }
        }
        // samples: the first non-trivial cases, with their traces
        std::vector<std::string> samples;
        if (!failed) {
            for (uint64_t i = 0; i < std::min<uint64_t>(cases, 200) && samples.size() < 3; ++i) {
                int fds[2];
                if (pipe(fds)) break;
                pid_t pid = fork();
                if (pid == 0) {
                    dup2(fds[1], 1);
                    close(fds[0]);
                    close(fds[1]);
                    int fd = open("/dev/null", O_WRONLY);
                    dup2(fd, 2);
                    arm();
                    Ctx c(mix(pseed, i), rec0);
                    c.tracing = true;
                    c.scratch = make_scratch("s" + std::to_string(i));
                    run_case(*p, c, rec0);
                    fflush(stdout);
                    _exit(c.is_nontrivial ? 0 : 1);
                }
                close(fds[1]);
                std::string out;
                char buf[4096];
                ssize_t n;
                while ((n = read(fds[0], buf, sizeof buf)) > 0)
                    if (out.size() < 6000) out.append(buf, n);
                close(fds[0]);
                int st;
                waitpid(pid, &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    if (out.size() > 2500) out = out.substr(0, 2500) + "\n... (trace cut)";
                    samples.push_back("case " + std::to_string(i) + " of seed " + std::to_string(seed) + ":\n" + out);
                }
            }
        }
        std::ofstream f(a["--stats"]);
        f << "{\"evaluations\": " << done << ", \"planned\": " << cases << ", \"nontrivial\": " << nontriv
          << ", \"distinct_nontrivial\": " << distinct.size() << ", \"infra\": " << infra_errors
          << ", \"wall_s\": " << (now() - t0) << ", \"rule\": " << jstr(p->rule) << ", \"labels\": {";
        bool first = true;
        for (auto& l : lab) {
            f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second;
            first = false;
        }
        f << "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << jstr(samples[i]);
        f << "]}\n";
    }

    if (failed) {
        // confirm three times, in fresh processes
        std::string msg;
        int infra = 0, hits = 0;
        // (what depends on the schedule of threads may take more than three runs to show three times)
        const int tries = a.count("--tries") ? atoi(a["--tries"].c_str()) : 3;
        int need = 3;
        double start = now();
        for (int k = 0; k < tries && hits < need; ++k) {
            if (run_isolated(*p, fail_choices, rec0, msg, false, true, &infra)) ++hits;
            if (k == 0 && now() - start > 18) need = msg == TIMEOUT_MSG ? 1 : 2; // a case this slow (a hang, mostly) is repeated less and not shrunk
        }
        bool slow = need < 3;
        if (hits < need) {
            // alone it passes: repeat it after the cases that ran before it
            for (size_t k = 2; !history.empty(); k = std::min(k * 4, history.size())) {
                std::vector<uint64_t> seq(history.end() - std::min(k, history.size()), history.end());
                int h = 0;
                for (int t = 0; t < 3; ++t)
                    if (run_isolated(*p, seq, rec0, msg, false, true, &infra, true)) ++h;
                if (h == 3) {
                    save_sequence(a["--fail"], p->id, seq, msg);
                    printf("FAILED %s: %s (after %zu earlier cases in the same process)\n", p->id.c_str(), msg.c_str(), seq.size() - 1);
                    finish(1);
                }
                if (k >= history.size()) break;
            }
            fprintf(stderr, "failure not reproducible (%d of 3): %s\n", hits, fail_msg.c_str());
            finish(4);
        }
        Shrinker s{*p, rec0, fail_choices, fail_spans, msg, 4000, now() + (a.count("--shrink-s") ? atof(a["--shrink-s"].c_str()) : 60)};
        if (!slow) {
            // spans as seen in isolation
            std::string m2;
            run_isolated(*p, fail_choices, rec0, m2, false, true, nullptr);
            get_record(rec0, s.best, s.spans);
        }
        if (slow) {
            s.best = fail_choices;
            s.msg = msg;
        } else {
            s.run();
        }
        hits = slow ? 3 : 0; // not again
        for (int k = 0; k < tries && hits < 3; ++k)
            if (run_isolated(*p, s.best, rec0, msg, false, true, &infra)) ++hits;
        if (hits < 3) {
            s.best = fail_choices; // fall back to the confirmed original
            for (int k = 0; k < tries; ++k)
                if (run_isolated(*p, s.best, rec0, msg, false, true, &infra)) break;
        }
        save_case(a["--fail"], p->id, s.best, msg);
        printf("FAILED %s: %s (shrunk to %zu choices in %d runs)\n", p->id.c_str(), msg.c_str(), s.best.size(), s.execs);
        rc = 1;
    }
    finish(rc);
}
