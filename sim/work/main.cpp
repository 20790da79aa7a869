// Driver: batches of simulated runs (one forked process per run), gates on
// every reported violation, minimiser, replay.
#include <errno.h>
#include <math.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "work/common.h"

namespace sim {
void oracle_setup(const Plan& p);
}
using namespace sim;

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static Result* new_slot() {
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(4); }
  return (Result*)p;
}
static void clear_slot(Result* r) {
  memset(r, 0, offsetof(Result, extra));
}

static uint64_t g_step_limit = 6000000;

// One task of a run executes at a time: all its threads stay on one processor,
// which makes handing over cheap.
static void pin(int worker) {
  cpu_set_t have, one;
  if (sched_getaffinity(0, sizeof have, &have)) return;
  int n = CPU_COUNT(&have), k = 0;
  if (n < 1) return;
  CPU_ZERO(&one);
  for (int c = 0; c < CPU_SETSIZE; c++)
    if (CPU_ISSET(c, &have) && k++ == worker % n) { CPU_SET(c, &one); break; }
  sched_setaffinity(0, sizeof one, &one);
}

// The shape of a map depends on the order of insertion, and looking something
// up in it is counted by the instrumented build: one shape for all.
static Plan canonical(const Plan& p) {
  Plan q = p;
  auto again = [](std::map<std::string, std::string>* m) {
    std::map<std::string, std::string> n;
    for (auto& x : *m) n[x.first] = x.second;
    m->swap(n);
  };
  again(&q.cfg.kv);
  for (auto& o : q.ops) again(&o.kv);
  return q;
}
static pid_t launch(const Plan& given, Result* slot, int worker = 0) {
  clear_slot(slot);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(4); }
  if (pid) return pid;
  const Plan p = canonical(given);
  pin(worker);
  g_res = slot;
  if (!g_log) {   // a crashing library may print; keep the driver's output clean
    if (!freopen("/dev/null", "w", stdout)) {}
  }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  Scenario* s = scenario(p.property);
  Knobs k = knobs_of(p);
  uint64_t steps = p.cfg.u("steps", g_step_limit);
  run(k, p.replay, p.tape, steps, [&p, s] {
    oracle_setup(p);
    s->execute(p);
  });
}

struct Got { Outcome o = Outcome::kNone; std::string cls, msg; uint64_t trace = 0, state = 0; };
static Got read_slot(Result* r, int status) {
  Got g;
  g.o = (Outcome)r->outcome;
  g.cls = r->cls;
  g.msg = r->msg;
  g.trace = r->trace_hash;
  g.state = r->state_hash;
  if (g.o == Outcome::kNone) {
    g.o = Outcome::kHarness;
    g.cls = "harness";
    g.msg = "run ended without a result, wait status " + std::to_string(status);
  }
  return g;
}
static bool wait_pid(pid_t pid, int* status, double timeout) {
  double t0 = wall();
  for (;;) {
    pid_t r = waitpid(pid, status, WNOHANG);
    if (r == pid) return true;
    if (wall() - t0 > timeout) { kill(pid, SIGKILL); waitpid(pid, status, 0); return false; }
    usleep(300);
  }
}
static Got run_one(const Plan& p, Result* slot) {
  pid_t pid = launch(p, slot, getpid());
  int st = 0;
  if (!wait_pid(pid, &st, 400)) { Got g; g.o = Outcome::kHarness; g.cls = "harness"; g.msg = "run exceeded the wall-clock limit"; return g; }
  return read_slot(slot, st);
}
static Plan with_tape(const Plan& p, const Result* r) {
  Plan q = p;
  q.replay = true;
  q.tape.assign(r->tape, r->tape + r->tape_len);
  return q;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

// A message without its numbers and without the place it happened at.
static std::string normal(const std::string& m) {
  std::string o;
  for (char c : m.substr(0, m.find(';'))) {
    if (c == '(' || c == '[') break;
    if (c >= '0' && c <= '9') { if (o.empty() || o.back() != '#') o += '#'; } else o += c;
  }
  return o;
}

// {pc:hex} -> function and line, for reports
static std::string with_lines(std::string m) {
  for (size_t at = 0; (at = m.find("{pc:", at)) != std::string::npos;) {
    size_t e = m.find('}', at);
    if (e == std::string::npos) break;
    unsigned long pc = strtoul(m.c_str() + at + 4, nullptr, 16);
    char cmd[200], line[1000] = "";
    snprintf(cmd, sizeof cmd, "addr2line -Cfpse /proc/%d/exe %lx 2>/dev/null", (int)getpid(), pc ? pc - 1 : 0);
    if (FILE* f = popen(cmd, "r")) {
      if (!fgets(line, sizeof line, f)) line[0] = 0;
      pclose(f);
    }
    std::string l = line;
    while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
    if (l.empty()) { at = e; continue; }
    if (l.size() > 300) l = l.substr(0, 120) + " ... " + l.substr(l.size() - 160);
    m.replace(at, e + 1 - at, l);
    at += l.size();
  }
  return m;
}
// ------------------------------------------------------------- minimiser
struct Minimiser {
  std::string cls, msg;
  Result* slot;
  double deadline;
  std::vector<std::string> skip{};      // recorded findings of this class
  int tries = 0;
  bool bad(const Plan& p) {
    if (wall() > deadline) return false;
    tries++;
    Got g = run_one(p, slot);
    for (auto& k : skip) if (k.empty() || g.msg.find(k) != std::string::npos) return false;
    return g.o == Outcome::kViolation && g.cls == cls && normal(g.msg) == msg;
  }
  template <class T, class F> void ddmin(std::vector<T> all, F apply, Plan* best) {
    size_t n = 2;
    while (all.size() >= 1 && wall() < deadline) {
      size_t chunk = (all.size() + n - 1) / n;
      bool any = false;
      for (size_t i = 0; i < all.size() && wall() < deadline; i += chunk) {
        std::vector<T> t(all.begin(), all.begin() + i);
        t.insert(t.end(), all.begin() + std::min(all.size(), i + chunk), all.end());
        Plan q = *best;
        apply(&q, t);
        if (bad(q)) { all = t; *best = q; any = true; n = std::max<size_t>(n - 1, 2); break; }
      }
      if (!any) { if (chunk <= 1) break; n = std::min(all.size(), n * 2); }
    }
  }
  void ints(Plan* best) {
    for (size_t i = 0; i < best->ops.size(); i++) {
      if (best->ops[i].i("unsup")) continue;      // what cannot be supported depends on the sizes
      for (const char* key : {"n", "N", "t", "d"}) {
        if (!best->ops[i].has(key)) continue;
        std::string v = best->ops[i].s(key);
        if (v.find(',') != std::string::npos || ((std::string)best->ops[i].kind == "abo" || best->ops[i].kind == "spf")) {
          auto l = best->ops[i].list("n");
          for (size_t j = 0; j < l.size() && std::string(key) == "n"; j++) {
            for (int64_t c : {int64_t(1), int64_t(2), l[j] / 8, l[j] / 2}) {
              if (c >= l[j] || c < 1) continue;
              Plan q = *best;
              auto m = l;
              m[j] = c;
              q.ops[i].setl("n", m);
              if (bad(q)) { *best = q; l = m; break; }
            }
          }
          continue;
        }
        int64_t x = best->ops[i].i(key);
        for (int64_t c : {int64_t(0), int64_t(1), int64_t(2), x / 8, x / 2, x - x / 4}) {
          if (c >= x || c < 0) continue;
          if (c == 0 && std::string(key) != "d" && best->ops[i].kind != "gil" && best->ops[i].kind != "msg") continue;
          if (std::string(key) == "N" && c < best->ops[i].i("t")) continue;
          Plan q = *best;
          q.ops[i].set(key, c);
          if (bad(q)) { *best = q; break; }
        }
      }
    }
  }
  Plan go(Plan p) {
    Plan best = p;
    Plan e = p;
    e.tape.clear();
    if (bad(e)) best = e;
    ddmin<Op>(best.ops, [](Plan* q, const std::vector<Op>& o) { q->ops = o; }, &best);
    for (const char* k : {"nt0", "nt1"})
      for (int v : {1, 2})
        if (best.cfg.i(k) > v) { Plan q = best; q.cfg.set(k, v); if (bad(q)) { best = q; break; } }
    ints(&best);
    if (!best.tape.empty()) ddmin<TapeEntry>(best.tape, [](Plan* q, const std::vector<TapeEntry>& t) { q->tape = t; }, &best);
    e = best;
    e.tape.clear();
    if (!best.tape.empty() && bad(e)) best = e;
    return best;
  }
};

// --------------------------------------------------------------- batches
struct Known { std::string property, cls, match, text; uint64_t hits = 0; };
static std::vector<Known> load_known(const std::string& f) {
  // known: property=<id> class=<class> match=<text in the message> -- <what fails>
  std::vector<Known> v;
  std::ifstream in(f);
  std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "known:") != 0) continue;
    Known k;
    auto field = [&](const char* n) -> std::string {
      size_t a = line.find(std::string(n) + "=");
      if (a == std::string::npos) return "";
      a += strlen(n) + 1;
      if (line[a] == '"') { size_t b = line.find('"', a + 1); return line.substr(a + 1, b - a - 1); }
      return line.substr(a, line.find(' ', a) - a);
    };
    k.property = field("property");
    k.cls = field("class");
    k.match = field("match");
    size_t d = line.find(" -- ");
    k.text = d == std::string::npos ? "" : line.substr(d + 4);
    v.push_back(k);
  }
  return v;
}

static int cmd_batch(std::map<std::string, std::string>& a) {
  std::string prop = a["property"];
  uint64_t seed = strtoull(a["seed"].c_str(), 0, 10);
  int tier = a["tier"] == "thorough";
  uint64_t runs = strtoull(a["runs"].c_str(), 0, 10);
  double limit = atof(a["seconds"].c_str());
  int workers = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
  uint64_t twice = a.count("twice") ? strtoull(a["twice"].c_str(), 0, 10) : 16;
  Scenario* sc = scenario(prop);
  if (!sc) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 4; }
  std::vector<Known> known = load_known(a["known"]);
  struct Slot { Result* r; pid_t pid = 0; uint64_t index = 0; Plan plan; bool second = false; uint64_t trace1 = 0, state1 = 0; double t0 = 0; };
  std::vector<Slot> slots(workers);
  for (auto& s : slots) s.r = new_slot();
  double slow = 0;
  uint64_t slow_index = 0;
  uint64_t next = 0, done = 0, okruns = 0, verified = 0, trivial = 0;
  double t0 = wall();
  std::vector<uint64_t> stats(kStCount, 0);
  unsigned __int128 virt = 0;
  std::unordered_set<uint64_t> traces, states;
  std::vector<std::string> samples;
  std::set<std::string> kinds_seen;
  bool have_v = false;
  Plan vplan;
  Got vgot;
  uint64_t vindex = 0;
  std::string harness;
  uint64_t aux[3] = {0, 0, 0};
  std::map<std::string, uint64_t> op_count;
  // a fresh process must execute the same plan in the same way (development aid)
  uint64_t fresh = a.count("fresh") ? strtoull(a["fresh"].c_str(), 0, 10) : 0;
  std::vector<std::pair<Plan, Got>> fresh_runs;
  bool survey = a.count("survey");
  std::map<std::string, std::pair<uint64_t, uint64_t>> classes;
  for (;;) {
    bool stop = have_v || !harness.empty() || (limit > 0 && wall() - t0 > limit);
    int active = 0;
    for (auto& s : slots) {
      if (!s.pid && !stop && next < runs) {
        s.index = next++;
        s.plan = sc->generate(seed, tier, s.index);
        s.second = false;
        s.t0 = wall();
        s.pid = launch(s.plan, s.r, (int)(&s - slots.data()));
      }
      if (s.pid) active++;
    }
    if (!active) break;
    bool any = false;
    for (auto& s : slots) {
      if (!s.pid) continue;
      int st = 0;
      pid_t r = waitpid(s.pid, &st, WNOHANG);
      if (r != s.pid) {
        if (wall() - s.t0 > 400) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); s.pid = 0; if (harness.empty()) harness = "run " + std::to_string(s.index) + " exceeded the wall-clock limit"; }
        continue;
      }
      any = true;
      s.pid = 0;
      if (wall() - s.t0 > slow) { slow = wall() - s.t0; slow_index = s.index; }
      Got g = read_slot(s.r, st);
      if (g.o == Outcome::kHarness) { if (harness.empty()) harness = "run " + std::to_string(s.index) + ": " + g.msg; continue; }
      if (s.second) {
        if (g.trace != s.trace1 || g.state != s.state1) { if (harness.empty()) harness = "run " + std::to_string(s.index) + " is not reproducible: the same seed gave another event trace"; continue; }
        verified++;
        continue;
      }
      done++;
      for (int i = 0; i < kStCount; i++) stats[i] += s.r->stats[i];
      virt += s.r->virt_ns;
      for (int i = 0; i < 3; i++) aux[i] += s.r->aux[i];
      for (auto& o : s.plan.ops) op_count[o.kind]++;
      if (s.r->stats[kStOps] == 0) trivial++; else traces.insert(g.trace);
      states.insert(g.state);
      if (sc->aggregate(*s.r, s.plan)) {}
      if (samples.size() < 6 && (s.index % 7 == 0)) samples.push_back(s.plan.text());
      if (g.o == Outcome::kViolation) {
        bool is_known = false;
        for (auto& k : known)
          if (k.property == prop && k.cls == g.cls && (k.match.empty() || g.msg.find(k.match) != std::string::npos)) { k.hits++; is_known = true; }
        if (survey) { auto& e = classes[g.cls + ": " + normal(g.msg)]; if (!e.first++) e.second = s.index; continue; }
        if (!is_known && (!have_v || s.index < vindex)) { have_v = true; vplan = s.plan; vgot = g; vindex = s.index; }
        continue;
      }
      okruns++;
      if (s.index < fresh) fresh_runs.push_back({s.plan, g});
      if (twice && s.index % twice == 0) {
        s.trace1 = g.trace;
        s.state1 = g.state;
        s.second = true;
        s.t0 = wall();
        s.pid = launch(s.plan, s.r, (int)(&s - slots.data()));
      }
    }
    if (!any) usleep(200);
  }
  double run_wall = wall() - t0;
  for (auto& fr : fresh_runs) {
    std::string file = a["replays"] + "/fresh.replay";
    { std::ofstream o(file); o << fr.first.text(); }
    std::string cmd = "'" + a["self"] + "' replay '" + file + "' 2>/dev/null", out;
    FILE* f = popen(cmd.c_str(), "r");
    char line[8192], want[100];
    while (fgets(line, sizeof line, f)) out += line;
    pclose(f);
    snprintf(want, sizeof want, "trace=%016llx state=%016llx", (unsigned long long)fr.second.trace, (unsigned long long)fr.second.state);
    if (out.find(want) == std::string::npos && harness.empty()) harness = "a fresh process executes a plan differently (" + file + "): " + out + " instead of " + want;
  }
  for (auto& c : classes) printf("survey %llu x (first: run %llu) %s\n", (unsigned long long)c.second.first, (unsigned long long)c.second.second, c.first.c_str());
  std::string replay_file, verdict = "ok", batch_cls;
  if (!have_v && harness.empty()) {
    std::string bv = sc->batch_verdict(&batch_cls);
    // insertions that failed against what the published parameters predict
    double e0 = (double)aux[2] / ldexp(1.0, 55);
    if (bv.empty() && (double)aux[0] > 3 + 10 * e0) {
      batch_cls = "insertion_fails";
      bv = std::to_string(aux[0]) + " insertions into the recommended number of buckets failed, " + std::to_string(e0) + " expected";
    }
    if (bv.empty() && (double)aux[1] > 5 + 5e-5 * (double)done) {
      batch_cls = "insertion_fails";
      bv = std::to_string(aux[1]) + " of " + std::to_string(done) + " runs failed because cuckoo insertion failed";
    }
    if (!bv.empty()) {
      // batch-level violation: the replay file names the whole batch
      verdict = "violation";
      vgot.cls = batch_cls;
      vgot.msg = bv;
      replay_file = a["replays"] + "/" + prop + "-batch.replay";
      std::ofstream o(replay_file);
      o << "# " << batch_cls << ": " << bv << "\nproperty " << prop << "\nbatch seed=" << seed << " tier=" << tier << " runs=" << done << "\n";
    }
  }
  int minimised_tries = 0;
  if (have_v && harness.empty()) {
    verdict = "violation";
    Result* slot = slots[0].r;
    // gate 1: the same seed again
    Got g2 = run_one(vplan, slot);
    if (g2.o != Outcome::kViolation || g2.cls != vgot.cls || (g2.trace != vgot.trace && vgot.cls != "no_progress"))
      harness = "violation in run " + std::to_string(vindex) + " (" + vgot.cls + ": " + vgot.msg + ") did not repeat with the same seed";
    // a run with too many decisions to list is repeated from its seed instead
    Plan rp = slot->tape_overflow ? vplan : with_tape(vplan, slot);
    // gate 2: the recorded decisions alone reproduce it
    Plan final_plan = vplan;
    if (harness.empty()) {
      Got g3 = run_one(rp, slot);
      if (g3.o == Outcome::kViolation && g3.cls == vgot.cls) {
        Minimiser m{vgot.cls, normal(vgot.msg), slot, wall() + (a.count("minsec") ? atof(a["minsec"].c_str()) : 45)};
        for (auto& k : known) if (k.property == prop && k.cls == vgot.cls) m.skip.push_back(k.match);
        final_plan = m.go(rp);
        minimised_tries = m.tries;
        // keep the minimised plan's own report
        Got g4 = run_one(final_plan, slot);
        if (g4.o == Outcome::kViolation && g4.cls == vgot.cls) vgot = g4; else final_plan = rp;
      } else {
        harness = "violation in run " + std::to_string(vindex) + " does not replay from its decision tape";
      }
    }
    if (harness.empty()) {
      char b[64];
      snprintf(b, sizeof b, "-%llu.replay", (unsigned long long)vindex);
      replay_file = a["replays"] + "/" + prop + b;
      std::ofstream o(replay_file);
      o << "# " << vgot.cls << ": " << with_lines(vgot.msg) << "\n# found by seed " << seed << " run " << vindex << "\n" << final_plan.text();
      o.close();
      // gate 3: a fresh process reproduces it from the file, twice
      for (int i = 0; i < 2 && harness.empty(); i++) {
        std::string cmd = "'" + a["self"] + "' replay '" + replay_file + "' 2>/dev/null";
        FILE* f = popen(cmd.c_str(), "r");
        char line[8192];
        std::string out;
        while (fgets(line, sizeof line, f)) out += line;
        pclose(f);
        if (out.find("OUTCOME violation class=" + vgot.cls + " ") == std::string::npos)
          harness = "replay file " + replay_file + " does not reproduce the violation in a fresh process: " + out;
      }
    }
  }
  if (!harness.empty()) verdict = "harness";
  std::ostringstream j;
  j << "{\"verdict\":" << json_str(verdict) << ",\"property\":" << json_str(prop) << ",\"seed\":" << seed << ",\"runs\":" << done
    << ",\"planned\":" << runs << ",\"ok\":" << okruns << ",\"verified_twice\":" << verified << ",\"wall\":" << run_wall
    << ",\"virtual_ms\":" << (uint64_t)(virt / 1000000) << ",\"distinct_traces\":" << traces.size() << ",\"distinct_states\":" << states.size()
    << ",\"slowest_s\":" << slow << ",\"slowest_run\":" << slow_index << ",\"trivial\":" << trivial << ",\"harness\":" << json_str(harness) << ",\"class\":" << json_str(vgot.cls) << ",\"message\":" << json_str(with_lines(vgot.msg))
    << ",\"replay\":" << json_str(replay_file) << ",\"run_index\":" << vindex << ",\"minimiser_runs\":" << minimised_tries << ",\"describe\":" << json_str(sc->describe()) << ",\"insertion_failures\":[" << aux[0] << "," << aux[1] << "," << (double)aux[2] / ldexp(1.0, 55) << "],\"stats\":{";
  bool f = true;
  for (int i = 0; i < kStCount; i++) { if (i == kStVirtMs) continue; j << (f ? "" : ",") << json_str(kStatNames[i]) << ":" << stats[i]; f = false; }
  j << "},\"ops\":{";
  f = true;
  for (auto& o : op_count) { j << (f ? "" : ",") << json_str(o.first) << ":" << o.second; f = false; }
  j << "},\"known\":[";
  f = true;
  for (auto& k : known) if (k.property == prop) { j << (f ? "" : ",") << "{\"text\":" << json_str(k.text) << ",\"hits\":" << k.hits << "}"; f = false; }
  j << "],\"samples\":[";
  f = true;
  for (auto& s : samples) { j << (f ? "" : ",") << json_str(s); f = false; }
  j << "]}";
  std::ofstream o(a["out"]);
  o << j.str() << "\n";
  o.close();
  printf("%s runs=%llu ok=%llu wall=%.1f verified=%llu %s %s\n", verdict.c_str(), (unsigned long long)done, (unsigned long long)okruns, run_wall, (unsigned long long)verified,
         vgot.cls.c_str(), with_lines(vgot.msg).c_str());
  if (!harness.empty()) printf("harness: %s\n", harness.c_str());
  return verdict == "ok" ? 0 : verdict == "violation" ? 1 : 3;
}

static int cmd_replay(const std::string& file, std::map<std::string, std::string>& a) {
  std::string text = slurp(file);
  if (text.empty()) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 4; }
  size_t b = text.find("\nbatch ");
  if (b != std::string::npos) {
    Plan p = Plan::parse(text);
    Fields f;
    std::stringstream ls(text.substr(b + 7, text.find('\n', b + 1) - b - 7));
    std::string x;
    while (ls >> x) { size_t e = x.find('='); if (e != std::string::npos) f.kv[x.substr(0, e)] = x.substr(e + 1); }
    a["property"] = p.property;
    a["seed"] = f.s("seed");
    a["tier"] = f.i("tier") ? "thorough" : "quick";
    a["runs"] = f.s("runs");
    a["seconds"] = "0";
    a["twice"] = "0";
    a["replays"] = "/tmp";
    a["out"] = "/dev/null";
    if (!a.count("known")) a["known"] = "";
    int rc = cmd_batch(a);
    printf("OUTCOME %s class=batch \n", rc == 1 ? "violation" : "ok");
    return rc;
  }
  Plan p = Plan::parse(text);
  if (!scenario(p.property)) { fprintf(stderr, "unknown property %s\n", p.property.c_str()); return 4; }
  g_log = getenv("SIM_LOG") != nullptr;
  Result* slot = new_slot();
  Got g = run_one(p, slot);
  const char* o = g.o == Outcome::kOk ? "ok" : g.o == Outcome::kViolation ? "violation" : "harness";
  printf("OUTCOME %s class=%s trace=%016llx state=%016llx\n%s\n", o, g.cls.c_str(), (unsigned long long)g.trace, (unsigned long long)g.state, with_lines(g.msg).c_str());
  return g.o == Outcome::kOk ? 0 : g.o == Outcome::kViolation ? 1 : 3;
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i];
    else pos.push_back(s);
  }
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  a["self"] = n > 0 ? std::string(self, n) : argv[0];
  if (pos.empty()) { fprintf(stderr, "usage: simctl batch|replay FILE|gen\n"); return 4; }
  if (pos[0] == "batch") return cmd_batch(a);
  if (pos[0] == "replay" && pos.size() > 1) return cmd_replay(pos[1], a);
  if (pos[0] == "gen") {
    Scenario* s = scenario(a["property"]);
    if (!s) return 4;
    std::cout << s->generate(strtoull(a["seed"].c_str(), 0, 10), a["tier"] == "thorough", strtoull(a["index"].c_str(), 0, 10)).text();
    return 0;
  }
  if (pos[0] == "dump" && pos.size() > 1) { std::cout << Plan::parse(slurp(pos[1])).text(); return 0; }
  if (pos[0] == "list") { for (auto& s : scenario_names()) std::cout << s << "\n"; return 0; }
  return 4;
}
