// One scenario per property: what histories are generated, how a run is
// carried out, which oracles decide.
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "work/twin.h"

namespace sim {

static std::unique_ptr<Net> make_net(const Plan& p, int world, int pair, uint64_t salt) {
  int id0 = (int)p.cfg.i("id0", 0), id1 = (int)p.cfg.i("id1", 1);
  bool measured = p.cfg.i("meas") != 0;
  if (pair & 1) { std::swap(id0, id1); measured = !measured; }
  return std::make_unique<Net>(world, pair, id0, id1, measured, salt);
}
static std::vector<const Op*> ops_of(const Plan& p, int pair) {
  std::vector<const Op*> v;
  for (auto& o : p.ops) if (o.pair == pair) v.push_back(&o);
  return v;
}
static int pairs_of(const Plan& p) {
  int n = 1;
  for (auto& o : p.ops) n = std::max(n, o.pair + 1);
  return n;
}

// All sessions of the plan, side by side, no party fails.
struct Plain : Scenario {
  explicit Plain(const std::string& id) : name(id) {}
  std::string name;
  bool record = false;
  void execute(const Plan& p) override {
    World w(p, 0);
    for (int i = 0; i < pairs_of(p); i++) {
      w.add_session(i, make_net(p, 0, i, 1), ops_of(p, i));
      if (record) { w.sessions.back()->net->ep[0].record = true; w.sessions.back()->net->ep[1].record = true; }
    }
    w.start();
    w.wait();
    for (auto& s : w.sessions) {
      std::string why;
      if (g_oracle.drained && !s->net->quiet(&why)) violation("undrained", "after all operations: " + why);
      for (int i = 0; i < 2; i++)
        if (s->party[i].finished != s->ops.size()) harness_error("a party stopped early without a report");
    }
  }
};

// ---- C01: vector OLE histories
struct C01 : Plain {
  C01() : Plain("C01") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    bool real = g.chance(tier ? 12 : 3);
    int pairs = !real && g.chance(15) ? 2 : 1;
    g.config(pairs);
    if (real) {   // tens of millions of scheduling points: keep the schedule tame
      g.tame();
    }
    if (!real) g.add(0, "vpar").set("vp", g.range(1, 3));
    for (int pr = 0; pr < pairs; pr++) {
      int slots = !real && g.chance(30) ? 2 : 1;
      struct S { int ty, role; } sl[2];
      for (int i = 0; i < slots; i++) sl[i] = {g.any_type(), (int)g.below(2)};
      int n = (int)g.range(1, real ? 4 : 9);
      int64_t cap = real ? 20000 : 2500;
      int bigs = 0;
      for (int k = 0; k < n; k++) {
        int i = (int)g.below(slots);
        int64_t sz = g.size(cap);
        if (real) {   // the batch is large enough for what follows
          if (k == 0) { sz = g.range(3000, 6000); if (bigs == 0 && g.chance(30) && sl[i].ty != kZZp) { sz = g.range(20000, tier ? 260000 : 60000); bigs++; } }
          else sz = g.range(1, bigs || sl[i].ty == kZZp ? 9000 : 20000);
          if (g.chance(25)) g.vpre(pr, sl[i].ty, i, sl[i].role, g.range(3000, 9000));
          else g.vrun(pr, sl[i].ty, i, sl[i].role, k && g.chance(5) ? 0 : sz);
          continue;
        }
        if (g.chance(25)) g.vpre(pr, sl[i].ty, i, sl[i].role, g.chance(15) ? 1 : g.chance(5) ? INT64_MAX - g.below(2) * g.below(300) : sz);
        else g.vrun(pr, sl[i].ty, i, sl[i].role, g.chance(6) ? 1 : g.request(sz));
        if (g.chance(8)) g.msg(pr);
        if (g.chance(8) && !is_ntl(sl[0].ty) && !is_ntl(sl[slots - 1].ty)) g.nt(pr);
        if (g.chance(8)) g.abo(pr, g.any_type(), 200).set("i", 3);
        if (g.chance(5)) g.gil(pr, g.any_type(), 60);
      }
    }
    return g.done();
  }
};

// ---- C03..C06: one protocol each, in long mixed histories
struct Mixed : Plain {
  int wabo, wspf, wgil, wmpf;
  Mixed(const std::string& id, int a, int s, int gl, int m) : Plain(id), wabo(a), wspf(s), wgil(gl), wmpf(m) { record = id == "C04"; }
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    g.big = g.chance(tier ? 8 : 4);
    int pairs = !g.big && g.chance(15) ? 2 : 1;
    g.config(pairs);
    if (g.big) g.tame();
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(1, g.big ? 3 : 8);
      int64_t max = tier ? 6000 : 1500;
      for (int k = 0; k < n; k++) {
        int64_t w = g.below(wabo + wspf + wgil + wmpf);
        int ty = g.any_type();
        if ((w -= wabo) < 0) g.abo(pr, ty, max);
        else if ((w -= wspf) < 0) g.spf(pr, ty, max);
        else if ((w -= wgil) < 0) {
          if (is_ntl(ty) && name == "C05" && g.chance(60)) g.mod(pr, ty, true);
          g.gil(pr, ty, tier ? 1200 : 500);
          if (is_ntl(ty) && name == "C05") g.mod(pr, ty, false);
        }
        else g.mpf(pr, ty, max, tier ? 400 : 120);
        if (g.chance(10)) g.msg(pr);
        if (g.chance(10)) g.nt(pr);
        if (g.chance(10)) g.mod(pr, g.chance(50) ? kZZp : kzzp, false);
      }
    }
    return g.done();
  }
};

// ---- C07: hashing
struct C07 : Plain {
  C07() : Plain("C07") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    g.config(1);
    if (index == 0) {   // twenty inputs that cannot be placed (see known_findings.txt)
      Op& o = g.add(0, "hash");
      o.set("nf", 3);
      o.set("n", 20);
      o.set("in", 0);
      o.set("B", 0);
      o.set("s", 3208839);
      o.set("strict", 1);
      return g.done();
    }
    if (g.chance(60)) g.p.cfg.set("nt0", g.range(1, 12));
    if (g.chance(60)) g.p.cfg.set("nt1", g.range(1, 12));
    int n = (int)g.range(2, 12);
    for (int k = 0; k < n; k++) {
      g.hash(0, tier ? 20000 : 4000);
      if (g.chance(20)) g.nt(0);
    }
    return g.done();
  }
};

static void any_op(Gen& g, int pr, int64_t max) {
  switch (g.below(6)) {
    case 0: g.abo(pr, g.any_type(), max); break;
    case 1: g.spf(pr, g.any_type(), max); break;
    case 2: g.gil(pr, g.any_type(), std::min<int64_t>(max, 200)); break;
    case 3: g.mpf(pr, g.any_type(), max, 60); break;
    case 4: g.msg(pr); break;
    default: g.hash(pr, 200);
  }
}

// ---- C08: progress and stream alignment under adversarial delivery
struct C08 : Plain {
  bool vole;
  C08(const std::string& id, bool v) : Plain(id), vole(v) {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    // more hostile than elsewhere
    Fields& c = g.p.cfg;
    if (g.chance(50)) c.set("starve", g.range(1, 2));
    if (g.chance(50)) c.set("outage", g.pick({20, 100, 400}));
    if (g.chance(50)) c.set("stall", g.pick({5, 30}));
    if (g.chance(30)) { c.set("spill", 0); c.set("split", 0); }   // nothing leaves before flush
    int pairs = (int)g.range(1, 3);
    g.config(pairs);
    if (vole) g.add(0, "vpar").set("vp", g.range(1, 3));
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(2, 9);
      int vty = g.any_type(), vr = (int)g.below(2);
      for (int k = 0; k < n; k++) {
        if (vole && g.chance(35)) {
          if (g.chance(30)) g.vpre(pr, vty, 0, vr, g.size(400)); else g.vrun(pr, vty, 0, vr, g.request(g.size(600)));
        } else {
          any_op(g, pr, 300);
        }
        if (!is_ntl(vty) && g.chance(10)) g.nt(pr);
      }
    }
    return g.done();
  }
};

// Twin runs: same randomness except that the sender's source is replaced right
// before the last request. Its outputs have to change in the places and by the
// amounts of fresh noise.
Plan twin_plan(Gen& g, int profile, bool any_type) {
  g.config(1);
  Fields& c = g.p.cfg;
  c.set("mode", 1);
  for (const char* k : {"sw", "stall", "lat", "split", "spill", "outage", "chunk", "short", "starve", "policy"}) c.kv.erase(k);
  const u128 one = 1;
  g.m[0] = (one << 127) - 1;
  c.sets("m0", u128s(g.m[0]));
  c.set("sec", 30);
  int ty = any_type ? g.any_type() : g.pick({(int)kU128, (int)kGF, (int)kZZp}), role = (int)g.below(2);
  if (any_type && g.chance(12)) ty = kzzp;
  if (ty == kzzp && g.chance(60)) { g.m[1] = (u128)g.pick({2, 3, 3, 5, 7}); c.sets("m1", u128s(g.m[1])); }
  g.add(0, "vpar").set("vp", profile);
  // A batch that exceeds the first size in the table only together with the
  // seeds of the next expansion, or one far beyond the largest size.
  int64_t one_batch = profile == 7 ? 200 : 1500;
  int64_t batch = profile == 6 && g.chance(50) ? g.pick({(int64_t)5000, (int64_t)1 << 40, INT64_MAX - 50, INT64_MAX}) : one_batch;
  g.vpre(0, ty, 0, role, batch).set("ds", 0);
  // Hand out exactly what is cached, so that the changed randomness meets a
  // later expansion of a shape that has been seen before.
  if (batch == one_batch && g.chance(50)) g.vrun(0, ty, 0, role, batch);
  g.add(0, "salt").set("r", role);
  g.vrun(0, ty, 0, role, profile == 7 ? 500 : 4000);   // more than is cached: expands several times
  return g.done();
}
// Each twin starts in a copy of the process, so that everything the twins have
// in common, down to the addresses of their objects (which decide the order of
// hash tables), is the same.
static bool twin_once(const Plan& p, int t, Ring* ring, std::vector<u128>* u, std::vector<u128>* v, uint64_t* before) {
  for (int side = 0; side < 2; side++) set_rand_salt(0, side, 0);
  World w(p, 0);
  w.add_session(0, make_net(p, 0, 0, 1), ops_of(p, 0));
  w.sessions[0]->twin = t;
  w.start();
  w.wait();
  Session& s = *w.sessions[0];
  size_t last = s.ops.size();
  if (last == 0 || s.ops[last - 1]->kind != "vrun") return false;
  const Op& op = *s.ops[last - 1];
  OpOut& o = s.party[op.i("r") ? 1 : 0].out[last - 1];
  if (o.vals.size() != 2) return false;
  for (size_t k = 0; k + 1 < last; k++)
    for (auto& vv : s.party[op.i("r") ? 1 : 0].out[k].vals)
      for (u128 x : vv) *before = mix2(*before, (uint64_t)x ^ (uint64_t)(x >> 64));
  *ring = o.ring;
  *u = o.vals[0];
  *v = o.vals[1];
  return true;
}
TwinOut twin_run(const Plan& p) {
  TwinOut t3;
  bool salted = false;
  for (auto& o : p.ops) salted |= o.kind == "salt";
  // No allocation between the copies: results are kept outside the heap.
  const size_t kMax = 65536;
  struct Shared { int done[3]; size_t n[3]; uint64_t before[3]; u128 u[3][kMax], v[3][kMax]; };
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) harness_error("mmap");
  Ring ring;
  auto once = [&](int t) {
    std::vector<u128> u, v;
    bool got = twin_once(p, t, &ring, &u, &v, &sh->before[t]) && u.size() <= kMax && v.size() == u.size();
    if (got) {
      sh->n[t] = u.size();
      std::copy(u.begin(), u.end(), sh->u[t]);
      std::copy(v.begin(), v.end(), sh->v[t]);
    }
    sh->done[t] = got ? 2 : 1;
  };
  for (int t = 2; t >= 1; t--) {
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      once(t);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!sh->done[t]) {                      // the copy ended the run: its result stands
      if (WIFSIGNALED(st)) raise(WTERMSIG(st));
      _exit(WEXITSTATUS(st));
    }
  }
  once(0);
  for (int t = 0; t < 3; t++) {
    if (sh->done[t] != 2 || sh->before[t] != sh->before[0]) return t3;
    t3.u.emplace_back(sh->u[t], sh->u[t] + sh->n[t]);
    t3.v.emplace_back(sh->v[t], sh->v[t] + sh->n[t]);
    for (u128 x : t3.u[t]) trace(20 + t, (uint64_t)x, (uint64_t)(x >> 64));
  }
  munmap(sh, sizeof(Shared));
  t3.ring = ring;
  t3.ok = salted && t3.u[0].size() == t3.u[1].size() && t3.u[0].size() == t3.u[2].size();
  return t3;
}

// ---- C02: freshness across calls, batches, instances and sessions
struct C02 : Plain {
  C02() : Plain("C02") { record = true; }
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    int mode = g.chance(25) ? 1 : 0;
    if (mode == 1) return twin(g);
    int pairs = (int)g.range(1, 2);
    g.config(pairs);
    const u128 one = 1;
    g.m[0] = g.pick({(one << 127) - 1, ~(u128)0 - 158, (one << 107) - 1, (one << 100) - 15});
    g.p.cfg.sets("m0", u128s(g.m[0]));
    g.p.cfg.set("sec", 30);
    g.add(0, "vpar").set("vp", g.range(1, 3));
    int n = (int)g.range(3, 9);
    for (int pr = 0; pr < pairs; pr++) {
      int vty = g.pick({(int)kU128, (int)kGF, (int)kZZp}), vr = (int)g.below(2);
      if (g.chance(30)) {                    // many small requests from one instance
        int64_t b = g.chance(50) ? g.range(1, 4) : g.size(60);
        for (int k = (int)g.range(5, 14), any = 0; k > 0; k--) {
          if (any == 0 && g.chance(70)) g.vpre(pr, vty, 0, vr, b);
          g.vrun(pr, vty, 0, vr, !any || g.chance(50) ? b : g.range(1, 2 * b));
          any = 1;
        }
        continue;
      }
      bool rep = false;
      for (int k = 0; k < n; k++) {
        int ty = g.pick({(int)kU128, (int)kGF, (int)kZZp});
        if (rep && g.chance(40)) {           // the same call with the same inputs again
          std::vector<Op> mine;
          for (auto& o : g.p.ops) if (o.pair == pr && o.kind != "vpar") mine.push_back(o);
          if (!mine.empty()) { Op o = mine[g.below(mine.size())]; if (g.chance(30)) o.set("i", g.below(3)); g.p.ops.push_back(o); continue; }
        }
        rep = true;
        switch (g.below(6)) {
          case 0: g.abo(pr, ty, 400); break;
          case 1: g.spf(pr, ty, 400); break;
          case 2: { Op& o = g.gil(pr, ty, 100); (void)o; break; }
          case 3: { Op& o = g.mpf(pr, ty, 400, 40); (void)o; break; }
          case 4: g.vpre(pr, vty, (int)g.below(2), vr, g.size(500)); break;
          default: g.vrun(pr, vty, (int)g.below(2), vr, g.request(g.size(900)));
        }
      }
    }
    return g.done();
  }
  Plan twin(Gen& g) { return twin_plan(g, 4); }
  void execute(const Plan& p) override {
    if (p.cfg.i("mode") != 1) { Plain::execute(p); return; }
    TwinOut tw = twin_run(p);
    if (!tw.ok) return;
    NoRace nr;
    auto& u = tw.u;
    Ring ring = tw.ring;
    size_t n = u[0].size(), diff = 0;
    for (size_t j = 0; j < n; j++) diff += u[0][j] != u[1][j];
    probe(0);
    if (diff == 0) violation("noise_not_fresh", "the sender's u does not depend on randomness drawn during the expansion (" + std::to_string(n) + " elements identical in twin runs with different randomness)");
    // The first batch differs only where fresh noise was added; later batches
    // grow from it. Support of run a's noise: where a differs from both others.
    size_t win = std::min<size_t>(n, 1300), d01 = 0;
    std::set<size_t> sup[3];
    std::set<u128> vals[3];
    for (size_t j = 0; j < win; j++) {
      d01 += u[0][j] != u[1][j];
      for (int a = 0; a < 3; a++) {
        int b = (a + 1) % 3, c = (a + 2) % 3;
        if (u[b][j] == u[c][j] && u[a][j] != u[b][j]) { sup[a].insert(j); vals[a].insert(ring.sub(u[a][j], u[b][j])); }
      }
    }
    if (d01 == 0 || d01 * 2 > win) return;
    probe(1);
    size_t agree = 0, every = 0;
    for (size_t j = 0; j < win; j++) {
      int k = (u[0][j] != u[1][j]) + (u[0][j] != u[2][j]) + (u[1][j] != u[2][j]);
      every += k > 0;
      agree += k == 3;
    }
    if (every >= 6 && agree * 10 >= every * 9)
      violation("noise_not_fresh", "the noise positions of an expansion are the same in twin runs with different randomness (" + std::to_string(agree) + " of " + std::to_string(every) + ")");
    for (int a = 0; a < 3; a++)
      if (sup[a].size() >= 5 && vals[a].size() * 2 <= sup[a].size())
        violation("noise_not_fresh", "noise values repeat within an expansion: " + std::to_string(vals[a].size()) + " values at " + std::to_string(sup[a].size()) + " positions");
  }
};

// ---- C09: crash of one party, out-of-memory, loss of the connection
struct C09 : Plain {
  C09() : Plain("C09") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    int pairs = g.chance(40) ? 2 : 1;
    g.config(pairs);
    Fields& c = g.p.cfg;
    c.set("side", g.below(2));
    bool loss = g.chance(25);
    c.set("cmode", loss ? 4 : g.chance(20) ? 3 : g.below(3));    // 3: allocation failure, 4: loss of the connection
    c.setu("cp", g.r.next() & 0xffffff);
    bool vole = g.chance(loss ? 80 : 35);
    if (vole) g.add(0, "vpar").set("vp", g.range(1, 3));
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(1, 5);
      int vty = g.any_type(), vr = (int)g.below(2);
      if (loss) n += 3;
      for (int k = 0; k < n; k++) {
        if (vole && g.chance(loss ? 80 : 60)) {
          if (g.chance(30)) g.vpre(pr, vty, 0, vr, g.size(300));
          else g.vrun(pr, vty, 0, vr, loss && g.chance(50) ? g.range(1, 8) : g.size(500));
        } else {
          any_op(g, pr, 200);
        }
      }
    }
    return g.done();
  }
  void execute(const Plan& p) override {
    int side = (int)p.cfg.i("side"), mode = (int)p.cfg.i("cmode");
    int pairs = pairs_of(p);
    std::vector<OpOut> base[2];
    uint64_t total_ops = 0, total_allocs = 0;
    {
      World w(p, 0);
      w.add_session(0, make_net(p, 0, 0, 1), ops_of(p, 0));
      w.start();
      w.wait();
      Session& s = *w.sessions[0];
      for (int i = 0; i < 2; i++) base[i] = s.party[i].out;
      total_ops = s.party[side].ep->ops;
      total_allocs = s.party[side].allocs;
    }
    NoRace nr;
    // the faulted world: same randomness, one party fails at a chosen point
    reset_rand(0, 0);
    reset_rand(0, 1);
    uint64_t cp = p.cfg.u("cp");
    {
      World w(p, 1, true);
      w.add_session(0, make_net(p, 1, 0, 1), ops_of(p, 0));
      Session& s = *w.sessions[0];
      s.crash_side = side;
      if (mode == 3) {
        s.party[side].alloc_fail_at = total_allocs ? (int64_t)(cp % total_allocs) : -1;
      } else {
        s.party[side].ep->crash_at = total_ops ? (int64_t)(cp % total_ops) : -1;
        s.party[side].ep->crash_mode = mode;
        // Both parties live on: they keep calling, and what succeeds on both
        // sides has to be right.
        s.go_on = mode == 4;
      }
      for (int i = 1; i < pairs; i++) {
        w.add_session(i, make_net(p, 1, i, 1), ops_of(p, i));
        w.sessions.back()->faulted = false;   // other sessions must not notice
      }
      w.start();
      w.wait();
      bool failed = s.party[side].stopped || s.broken;
      if (failed) probe(0);
      for (int i = 0; i < 2; i++) {
        for (size_t k = 0; k < s.ops.size(); k++) {
          OpOut& o = s.party[i].out[k];
          OpOut& b = base[i][k];
          if (!o.ran) break;
          if (i != side && failed) probe(1);
          if (o.threw || o.code) { if (i != side) probe(2); break; }
          if (!o.done) break;
          const std::string& kd = s.ops[k]->kind;
          if (kd == "bad" || kd == "vbad" || s.ops[k]->i("unsup")) continue;
          if (o.code == 0 && o.recv1 < b.recv1)
            violation("false_success", "party " + std::to_string(i) + " reported success of op " + std::to_string(k) + " (" + op_text(*s.ops[k]) + ") having received only " + std::to_string(o.recv1) + " of the " + std::to_string(b.recv1) + " bytes its peer sends in a run without failure");
          if (o.code == 0 && i != side && b.code == 0 && o.vals.size() == b.vals.size()) {
            // same randomness, same inputs: the survivor's result is the one of the fault-free run
            bool det = !kd.empty() && kd != "hash";
            (void)det;
          }
        }
      }
      if (!failed) {
        // the fault point was never reached: then nothing may have failed
        for (int i = 0; i < 2; i++)
          if (s.party[i].finished != s.ops.size()) violation("status", "without a failure a party did not complete its operations");
      }
    }
    // afterwards new sessions of the same parties work as ever
    stat(kStRestart);
    {
      World w(p, 2);
      w.add_session(0, make_net(p, 2, 0, 2), ops_of(p, 0));
      w.start();
      w.wait();
      std::string why;
      if (!w.sessions[0]->net->quiet(&why)) violation("undrained", "after all operations of the new session: " + why);
    }
  }
};

// ---- C10: invalid arguments
struct C10 : Plain {
  bool vole;
  C10(const std::string& id, bool v) : Plain(id), vole(v) {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    g.config(1);
    if (g.chance(50)) { g.sec = 40; g.p.cfg.kv.erase("sec"); }
    // instances 0 of every kind exist first
    g.abo(0, g.any_type(), 20).set("i", 0);
    g.spf(0, g.any_type(), 20).set("i", 0);
    g.gil(0, g.any_type(), 10).set("i", 0);
    g.mpf(0, g.any_type(), 40, 5).set("i", 0);
    int vty = g.any_type(), vr = (int)g.below(2);
    bool v = vole && g.chance(40);
    int vp = 0;
    if (v) {
      vp = (int)g.range(1, 4);
      g.add(0, "vpar").set("vp", vp);
      g.add(0, "vnew").set("ty", vty);
      if (g.chance(70)) g.vrun(0, vty, 0, vr, g.size(60));
    }
    int n = (int)g.range(2, 9);
    for (int k = 0; k < n; k++) {
      int64_t w = g.below(10);
      if (w < 5 && g.chance(5)) {
        // more elements than a 32-bit number counts
        Op& o = g.add(0, "bad");
        o.sets("k", "abo_many");
        o.set("ty", kZZp);
        o.set("p", g.below(2));
        o.set("i", 0);
        o.set("d", g.below(50));
        borderline_modulus(g, o, exp2(32));
      }
      else if (w < 5) g.bad(0);
      else if (w < 7 && v) {
        Op& o = g.add(0, "vbad");
        static const char* kk[] = {"v_null", "v_negsec", "v_spre", "v_rpre", "v_srun", "v_rrun"};
        o.sets("k", kk[g.below(6)]);
        o.set("ty", vty);
        // RunSender/RunReceiver are called in the role the party has
        bool sender_call = o.s("k") == "v_spre" || o.s("k") == "v_srun";
        o.set("p", sender_call ? vr : 1 - vr);
        o.set("d", g.chance(50) ? g.below(3) : g.below(100000));
      }
      else if (w < 8) unsup(g, vp);
      else any_op(g, 0, 60);
      // the session is still usable
      if (g.chance(50)) {
        if (v && g.chance(40)) g.vrun(0, vty, 0, vr, g.request(g.size(80))); else any_op(g, 0, 60);
      }
    }
    any_op(g, 0, 60);
    return g.done();
  }
  // A modulus results cannot be uniform for: both parties refuse.
  void unsup(Gen& g, int vp) {
    switch (g.below(10)) {
      case 0: case 1: wide(g); break;
      case 2: case 3: coarse(g); break;
      default: borderline(g, vp);
    }
  }
  // Elements longer than what is hashed into them.
  static void wide(Gen& g) {
    static const char* w[] = {"340282366920938463463374607431768211507", "680564733841876926926749214863536422987", "115792089237316195423570985008687907853269984665640564039457584007913129639747"};
    Op* o;
    switch (g.below(3)) {
      case 0: o = &g.abo(0, kZZp, 30); break;
      case 1: o = &g.spf(0, kZZp, 30); break;
      default: o = &g.gil(0, kZZp, 20); if (o->i("n") == 0) o->set("n", 1);
    }
    o->sets("uwide", w[g.below(3)]);
    if (o->kind != "gil" && (o->s("n").empty() || o->list("n")[0] == 0)) { o->sets("n", "3"); o->sets("x", "1"); }
    o->set("unsup", 1);
    o->set("i", 0);
  }
  // Not even one element.
  static void coarse(Gen& g) {
    const u128 one = 1;
    u128 v = ((one << 127) + (one << 126)) + g.r.next();
    if (g.chance(30)) v = (one << 120) + (one << 119) + (g.r.next() >> 1);
    Op* o;
    switch (g.below(2)) {
      case 0: o = &g.abo(0, kZZp, 30); break;
      default: o = &g.spf(0, kZZp, 30); break;
    }
    o->sets("um", u128s(v));
    if (o->s("n").empty() || o->list("n")[0] == 0) { o->sets("n", "3"); o->sets("x", "1"); }
    o->set("unsup", 1);
    o->set("i", 0);
  }
  // One element would do, all of those the call needs do not: with 2^128 =
  // q*m + r, a sample falls into the r values that are too frequent about
  // r/2^128 more often than it should, the samples of a call together `count`
  // times as often, and that exceeds 2^-sec four times over.
  static void borderline(Gen& g, int vp) {
    double count = 0;
    Op* o;
    int k = vp && g.chance(50) ? 3 : (int)g.below(3);
    switch (k) {
      case 0: o = &g.abo(0, kZZp, 600); break;
      case 1: o = &g.spf(0, kZZp, 600); break;
      case 2: o = &g.mpf(0, kZZp, 600, 30); count = (double)o->i("N"); break;
      default:
        // the code's entries, ten for every element of the output
        o = &g.vpre(0, kZZp, 5 + (int)g.below(2), (int)g.below(2), g.range(30, 1500));
        count = 10.0 * (double)std::min<int64_t>(o->i("n"), vp == 4 ? 1500 : 100);
    }
    if (k < 2) {
      for (int64_t n : o->list("n")) count += (double)n;
      if (count < 16) { o->sets("n", "40,20"); o->sets("x", "1,19"); count = 60; }
    }
    o->set("i", k == 3 ? 5 + g.below(2) : 0);
    o->set("unsup", 1);
    if (k == 2 && count < 16) { o->set("N", 60 + o->i("N")); count = (double)o->i("N"); }
    borderline_modulus(g, *o, count);
  }
  static void borderline_modulus(Gen& g, Op& o, double count) {
    double logc = log2(count);
    for (;;) {
      double up = 2.2 + g.below(1000) / 1000.0 * std::max(0.1, (g.chance(50) ? 2.0 : logc - 2.2));
      double logr = 128 - g.sec - logc + up;
      u128 r = (u128)exp2(logr);
      u128 q = (u128)g.range(1, g.chance(50) ? 4 : 300);
      u128 mod = (~(u128)0 - r) / q;
      if (mod < 8 * r || (mod >> 100) == 0) continue;
      u128 rem = (~(u128)0 % mod + 1) % mod;
      double eps = (double)rem / exp2(128) * ((double)(mod - rem) / (double)mod);
      if (eps * count * exp2(g.sec) < 4) continue;
      if ((double)q * (double)rem / exp2(128) * count > 0.1) continue;
      o.sets("um", u128s(mod));
      break;
    }
  }
};

// ---- C11: modular types: moduli across calls, threads and sessions
struct C11 : Plain {
  C11() : Plain("C11") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    int pairs = (int)g.range(1, 3);
    g.config(pairs);
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(3, 10);
      for (int k = 0; k < n; k++) {
        int ty = g.pick({(int)kZZp, (int)kZZp, (int)kzzp});
        switch (g.below(9)) {
          case 0: case 1: g.mod(pr, ty, false); break;
          case 2: g.nt(pr); break;
          case 3: case 4: g.abo(pr, ty, 400); break;
          case 5: g.spf(pr, ty, 400); break;
          case 6: g.mpf(pr, ty, 300, 40); break;
          case 7: g.gil(pr, ty, 80); break;
          default: any_op(g, pr, 100);
        }
      }
    }
    return g.done();
  }
};

#ifdef SIM_RACE
// ---- C12: data races (instrumented build)
struct C12 : Plain {
  C12() : Plain("C12") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    g.p.cfg.set("preempt", g.pick({0, 30, 200, 2000, 20000}));
    int pairs = (int)g.range(1, 3);
    g.config(pairs);
    g.p.cfg.set("nt0", g.pick({1, 2, 3, 4, 5}));
    g.p.cfg.set("nt1", g.pick({1, 2, 3, 4, 5}));
    bool vole = g.chance(20);
    if (vole) g.add(0, "vpar").set("vp", g.range(1, 3));
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(1, 4);
      int vty = g.any_type(), vr = (int)g.below(2);
      for (int k = 0; k < n; k++) {
        if (vole && g.chance(60)) {
          if (g.chance(20)) g.vpre(pr, vty, 0, vr, g.size(200)); else g.vrun(pr, vty, 0, vr, g.request(g.size(300)));
        } else {
          any_op(g, pr, 120);
        }
        if (!vole && g.chance(15)) g.nt(pr);
      }
    }
    return g.done();
  }
};
#endif

// ---- C15: generators and trees as objects with a history
struct C15 : Plain {
  C15() : Plain("C15") {}
  Plan generate(uint64_t seed, int tier, uint64_t index) override {
    Gen g(name, seed, tier, index);
    g.knobs();
    g.p.cfg.set("preempt", g.pick({0, 30, 200, 2000, 20000}));
    int pairs = (int)g.range(1, 3);
    g.config(pairs);
    for (int pr = 0; pr < pairs; pr++) {
      int n = (int)g.range(2, 10);
      for (int k = 0; k < n; k++) {
        switch (g.below(10)) {
          case 0: case 1: case 2: case 3: {
            Op& o = g.add(pr, "gen");
            o.set("i", g.below(3));
            o.set("a", g.pick({0, 0, 1, 1, 2, 3, 4}));
            o.set("ss", g.below(6));
            o.set("xl", g.chance(70) ? 0 : g.below(40));
            if (g.chance(30)) o.set("mis", g.below(16));
            if (g.chance(97)) o.set("buf", g.chance(30) ? g.range(-1, 5) : g.size(600));
            o.set("n", g.chance(15) ? g.size(5000) : g.size(200));
            break;
          }
          case 4: {
            Op& o = g.add(pr, "gpar");
            o.set("k", g.range(2, 6));
            o.set("n", g.size(80));
            o.set("ss", g.below(6));
            o.set("buf", g.chance(50) ? g.range(1, 6) : g.size(60));
            break;
          }
          case 5: case 6: case 7: {
            Op& o = g.add(pr, "tree");
            shape(g, o, g.chance(15) ? 6000 : 300);
            break;
          }
          case 8: {
            Op& o = g.add(pr, "tpar");
            shape(g, o, 60);
            o.set("k", g.range(2, 5));
            break;
          }
          default: any_op(g, pr, 60);
        }
        if (g.chance(15)) g.nt(pr);
      }
    }
    return g.done();
  }
  static void shape(Gen& g, Op& o, int64_t max) {
    int64_t ar = g.chance(50) ? g.range(2, 5) : g.chance(80) ? g.range(2, 20) : g.range(2, 300);
    int64_t n = g.size(max);
    if (g.chance(40)) {                     // full trees and their neighbours
      int64_t v = 1;
      while (v * ar <= max && g.chance(70)) v *= ar;
      n = std::max<int64_t>(1, v + g.range(-1, 1));
    }
    o.set("ar", ar);
    o.set("n", n);
    o.set("m", g.pick<int64_t>({0, n - 1, g.below(n), g.below(n)}));
    o.set("ss", g.below(4));
    o.set("jk", g.below(2));
    if (g.chance(10)) o.set("eq", 1);
  }
};

struct Reg {
  Reg() {
    const char* want = nullptr;
    (void)want;
    register_scenario("C01", new C01());
    register_scenario("C02", new C02());
    register_scenario("C03", new Mixed("C03", 2, 10, 1, 1));
    register_scenario("C04", new Mixed("C04", 10, 2, 1, 1));
    register_scenario("C05", new Mixed("C05", 1, 1, 10, 1));
    register_scenario("C06", new Mixed("C06", 1, 1, 1, 10));
    register_scenario("C07", new C07());
    register_scenario("C08", new C08("C08", true));
    register_scenario("C09", new C09());
    register_scenario("C10", new C10("C10", true));
    register_scenario("C11", new C11());
    register_scenario("C15", new C15());
#ifdef SIM_RACE
    register_scenario("C12", new C12());
#endif
  }
} reg_;

}  // namespace sim

namespace sim {
void apply_vole_scale(const Op& op);
void oracle_setup(const Plan& p) {
  g_oracle = Oracle();
  g_oracle.fresh = p.property == "C02";
  g_oracle.uniform = p.property == "C13";
  for (auto& o : p.ops) if (o.kind == "vpar") apply_vole_scale(o);
}
}  // namespace sim
