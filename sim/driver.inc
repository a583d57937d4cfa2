// Program text, execution of one run, batch exploration, minimisation, replay.
namespace sim {

static std::vector<World>& world_list() { static std::vector<World>* v = new std::vector<World>(); return *v; }
WorldReg::WorldReg(const char* name, void (*gen)(Rng&, Program&, int), void (*run)(const Program&)) {
  world_list().push_back({name, gen, run});
}
const std::vector<World>& worlds() { return world_list(); }
const World* find_world(const std::string& n) {
  for (auto& w : world_list()) if (n == w.name) return &w;
  return nullptr;
}

std::string to_text(const Program& p) {
  std::ostringstream o;
  o << "simreplay 1\nworld " << p.world << "\nseed " << p.seed << "\nknob";
  for (auto k : p.knob) o << ' ' << k;
  o << '\n';
  for (auto& q : p.ops) {
    o << "op " << q.task << ' ' << q.kind << ' ' << q.fkind << ' ' << q.fat << ' ' << q.fpersist;
    for (auto a : q.a) o << ' ' << a;
    o << '\n';
  }
  o << "sched_mode " << p.sched_mode << ' ' << p.sched_period << '\n';
  for (auto& s : p.sched) o << "switch " << s.first << ' ' << s.second << '\n';
  return o.str();
}
bool from_text(const std::string& t, Program& p, std::string* ec, std::string* eh) {
  std::istringstream in(t);
  std::string line;
  bool ok = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w; l >> w;
    if (w == "simreplay") ok = true;
    else if (w == "world") l >> p.world;
    else if (w == "seed") l >> p.seed;
    else if (w == "knob") { int64_t k; while (l >> k) p.knob.push_back(k); }
    else if (w == "op") { Op q; l >> q.task >> q.kind >> q.fkind >> q.fat >> q.fpersist; int64_t a; while (l >> a) q.a.push_back(a); p.ops.push_back(q); }
    else if (w == "sched_mode") l >> p.sched_mode >> p.sched_period;
    else if (w == "switch") { uint64_t a; int b; l >> a >> b; p.sched.push_back({a, b}); }
    else if (w == "property") { int x = 0; std::string s; l >> s; if (s.size() > 1) x = atoi(s.c_str() + 1); g_prop = x; }
    else if (w == "expect") { std::string k, v; l >> k >> v; if (k == "class" && ec) *ec = v; if (k == "hash" && eh) *eh = v; }
  }
  return ok;
}


static void reset_run(const Program& p) {
  arena_reset(p.seed);
  set_step_cap(0, 0);
  g_steps = 0;
  set_step_cap(3000000, ANY_PROP);
  g_nontrivial = false;
  g_quota = -1; g_hooked = false;
  memset(&g_elem, 0, sizeof g_elem);
  for (int i = 0; i < 8; i++) { g_plans[i] = FaultPlan(); g_forbid_mask[i] = 0; g_mayalloc[i] = 0; }
  g_noalloc_props = 0;
  g_active = false; g_race_on = false; t_inlib = 0; t_task = 0;
  g_switches = 0;
  g_shm->hash = mix(0x51, p.seed * 0 + 1);
  g_shm->violated = 0; g_shm->foreign = 0;
}

static void run_one(const Program& p) {
  reset_run(p);
  const World* w = find_world(p.world);
  if (!w) { fprintf(stderr, "unknown world %s\n", p.world.c_str()); _exit(2); }
  g_seed = p.seed;
  w->run(p);
  g_step_cap = 0;
  ev(0xE0D, g_steps);
  g_shm->runs++;
  g_shm->steps += g_steps;
  g_shm->ops += p.ops.size();
  size_t wi = w - world_list().data();
  if (wi < 64) g_shm->world_runs[wi]++;
  if (g_nontrivial) {
    g_shm->nontrivial++;
    if (g_shm->nhashes < g_shm_cap) g_shm->hashes[g_shm->nhashes++] = g_shm->hash;
  }
}

struct Outcome {
  int kind = 0;   // 0 clean, 1 violation, 2 anomaly of another property, 3 crash, 4 hang, 5 harness error
  std::string cls, detail;
  uint64_t hash = 0;
  std::vector<std::pair<uint64_t, int>> sched;
  bool fails() const { return kind == 1 || kind == 3 || kind == 4; }
};

static std::string tail_of(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  off_t s = n > 400 ? n - 400 : 0;
  char b[401]; ssize_t r = pread(fd, b, 400, s);
  std::string t(b, r > 0 ? r : 0);
  for (auto& c : t) if (c == '\n') c = ' ';
  return t;
}

static Outcome run_forked(const Program& p, int timeout_s, bool want_sched) {
  static Shm* shm = nullptr;
  static SchedOut* so = nullptr;
  if (!shm) {
    shm = make_shm(1);
    so = (SchedOut*)mmap(nullptr, sizeof(SchedOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset((void*)shm, 0, sizeof(Shm));
  so->n = 0;
  int efd = memfd_create("err", 0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_shm = shm; g_shm_cap = 1;
    g_sched_out = want_sched ? so : nullptr;
    dup2(efd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    run_one(p);
    fflush(stdout);
    _exit(0);
  }
  Outcome o;
  int st = 0;
  double waited = 0;
  bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, waited > 0.02 || true ? WNOHANG : 0);
    if (r == pid) break;
    struct timespec ts = {0, waited < 0.02 ? 200000 : 5000000};
    nanosleep(&ts, nullptr);
    waited += ts.tv_nsec / 1e9;
    if (waited > timeout_s) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
  }
  o.hash = shm->hash;
  for (uint64_t i = 0; i < so->n; i++) o.sched.push_back(so->v[i]);
  if (killed) { o.kind = shm->foreign ? 2 : 4; o.cls = "hang"; o.detail = "run did not end"; o.hash = 0; }
  else if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (c == 0) o.kind = 0;
    else if (c == 77) { o.kind = 1; o.cls = shm->cls; o.detail = shm->detail; }
    else if (c == 78) { o.kind = 2; }
    else { o.kind = 5; o.detail = "exit code " + std::to_string(c) + ": " + tail_of(efd); }
  } else {
    o.kind = shm->foreign ? 2 : 3;
    o.cls = "crash-sig" + std::to_string(WTERMSIG(st));
    o.detail = tail_of(efd);
  }
  close(efd);
  return o;
}

static Program gen_program(uint64_t base, uint64_t idx, int prop, const std::vector<const World*>& ws, const std::vector<int>& weights) {
  Program p;
  p.seed = mix(mix(base, 0xABCDEF), idx);
  Rng r(p.seed);
  int tot = 0; for (int w : weights) tot += w;
  int64_t x = r.below(tot);
  size_t i = 0;
  while (x >= weights[i]) x -= weights[i++];
  p.world = ws[i]->name;
  ws[i]->gen(r, p, prop);
  return p;
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static Program minimise(Program p, Outcome& best, int timeout, double budget) {
  double t0 = now_s();
  int tried = 0;
  auto same = [&](const Program& q, Outcome& o) {
    if (now_s() - t0 > budget || tried > 4000) return false;
    tried++;
    o = run_forked(q, timeout, false);
    return o.fails() && o.cls == best.cls;
  };
  bool changed = true;
  for (int round = 0; changed && round < 4; round++) {
    changed = false;
    // drop ops
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < p.ops.size();) {
        Program q = p;
        size_t e = std::min(q.ops.size(), i + chunk);
        q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
        Outcome o;
        if (!q.ops.empty() && same(q, o)) { p = q; best = o; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    // drop task switches
    for (size_t chunk = std::max<size_t>(1, p.sched.size()); chunk >= 1 && !p.sched.empty(); chunk /= 2) {
      for (size_t i = 0; i < p.sched.size();) {
        Program q = p;
        size_t e = std::min(q.sched.size(), i + chunk);
        q.sched.erase(q.sched.begin() + i, q.sched.begin() + e);
        Outcome o;
        if (same(q, o)) { p = q; best = o; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    // drop and simplify faults
    for (size_t i = 0; i < p.ops.size(); i++) {
      if (p.ops[i].fkind) {
        Program q = p; q.ops[i].fkind = q.ops[i].fat = q.ops[i].fpersist = 0;
        Outcome o; if (same(q, o)) { p = q; best = o; changed = true; continue; }
        if (p.ops[i].fpersist) { q = p; q.ops[i].fpersist = 0; if (same(q, o)) { p = q; best = o; changed = true; } }
        while (p.ops[i].fat > 1) { q = p; q.ops[i].fat = p.ops[i].fat / 2; if (same(q, o)) { p = q; best = o; changed = true; } else break; }
        if (p.ops[i].fat > 1) { q = p; q.ops[i].fat--; if (same(q, o)) { p = q; best = o; changed = true; } }
      }
    }
    // shrink arguments
    for (size_t i = 0; i < p.ops.size(); i++)
      for (size_t k = 0; k < p.ops[i].a.size(); k++) {
        int64_t v = p.ops[i].a[k];
        for (int64_t c : {int64_t(0), int64_t(1), v / 16, v / 2, v - 1}) {
          if (c >= v || c < 0) continue;
          Program q = p; q.ops[i].a[k] = c; Outcome o;
          if (same(q, o)) { p = q; best = o; changed = true; break; }
        }
      }
    for (size_t k = 1; k < p.knob.size(); k++) {
      int64_t v = p.knob[k];
      for (int64_t c : {int64_t(0), int64_t(1), v / 2}) {
        if (c >= v) continue;
        Program q = p; q.knob[k] = c; Outcome o;
        if (same(q, o)) { p = q; best = o; changed = true; break; }
      }
    }
  }
  return p;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Args {
  std::string cmd, out, replay_dir, worlds, file, tag;
  uint64_t seed = 1, runs = 1000, start = 0; int prop = 1, workers = 8; double max_s = 60, budget = 60; bool v = false;
};

static void pick_worlds(const Args& a, std::vector<const World*>& ws, std::vector<int>& wt) {
  std::istringstream in(a.worlds);
  std::string t;
  while (std::getline(in, t, ',')) {
    int w = 1; size_t c = t.find('=');
    if (c != std::string::npos) { w = atoi(t.c_str() + c + 1); t = t.substr(0, c); }
    bool any = false;
    for (auto& x : worlds()) {
      std::string n = x.name;
      bool m = t == n || (t.size() && t.back() == '*' && n.compare(0, t.size() - 1, t, 0, t.size() - 1) == 0);
      if (m) { ws.push_back(&x); wt.push_back(w); any = true; }
    }
    if (!any) { fprintf(stderr, "no world %s\n", t.c_str()); exit(2); }
  }
  // Registration order depends on link order: sort by name.
  std::vector<std::pair<const World*, int>> z;
  for (size_t i = 0; i < ws.size(); i++) z.push_back({ws[i], wt[i]});
  std::sort(z.begin(), z.end(), [](auto& x, auto& y) { return strcmp(x.first->name, y.first->name) < 0; });
  for (size_t i = 0; i < z.size(); i++) { ws[i] = z[i].first; wt[i] = z[i].second; }
}

static int do_replay(const Args& a) {
  std::ifstream f(a.file); std::stringstream ss; ss << f.rdbuf();
  Program p; std::string ec, eh;
  if (!from_text(ss.str(), p, &ec, &eh)) { fprintf(stderr, "bad replay file\n"); return 2; }
  g_verbose = a.v;
  Outcome o = run_forked(p, 30, false);
  char h[32]; snprintf(h, 32, "%016lx", (unsigned long)o.hash);
  printf("replay kind=%d class=%s hash=%s\n", o.kind, o.cls.c_str(), h);
  if (o.fails()) printf("replay detail=%s\n", o.detail.c_str());
  if (!ec.empty()) printf("replay %s\n", (o.fails() && o.cls == ec && eh == h) ? "REPRODUCED exactly" : "DIFFERS from the recorded violation");
  if (o.kind == 5) return 2;
  return o.fails() ? 1 : 0;
}

static int do_explore(const Args& a) {
  std::vector<const World*> ws; std::vector<int> wt;
  pick_worlds(a, ws, wt);
  printf("seed %lu property C%02d runs %lu workers %d worlds %zu\n", (unsigned long)a.seed, a.prop, (unsigned long)a.runs, a.workers, ws.size());
  fflush(stdout);
  g_prop = a.prop;
  int W = a.workers;
  uint64_t cap = a.runs / W + 16;
  std::vector<Shm*> shm(W);
  std::vector<pid_t> pid(W);
  std::vector<uint64_t> next(W), lastbeat(W);
  std::vector<double> beat_t(W);
  std::vector<int> efd(W);
  std::vector<bool> done(W, false);
  double t0 = now_s();
  double deadline = t0 + a.max_s;
  auto spawn = [&](int w) {
    fflush(stdout);
    lseek(efd[w], 0, SEEK_SET); if (ftruncate(efd[w], 0)) {}
    shm[w]->busy = 0;
    pid_t c = fork();
    if (c == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      dup2(efd[w], 2);
      g_shm = shm[w]; g_shm_cap = cap;
      uint64_t k = 0;
      for (uint64_t i = next[w]; i < a.runs; i += W) {
        if ((k++ & 15) == 0 && now_s() > deadline) break;
        g_shm->cur = i; g_shm->busy = 1; g_shm->heartbeat++;
        Program p = gen_program(a.seed, a.start + i, a.prop, ws, wt);
        run_one(p);
        g_shm->busy = 0;
      }
      _exit(0);
    }
    pid[w] = c; beat_t[w] = now_s(); lastbeat[w] = shm[w]->heartbeat;
  };
  for (int w = 0; w < W; w++) { shm[w] = make_shm(cap); next[w] = w; efd[w] = memfd_create("werr", 0); }
  for (int w = 0; w < W; w++) spawn(w);
  struct Found { uint64_t idx; std::string cls, detail; };
  std::vector<Found> found;
  std::string harness_error;
  int left = W;
  auto finish = [&](int w, int st, bool hung) {
    uint64_t i = shm[w]->cur;
    bool more = false;
    if (hung) {
      if (!shm[w]->foreign) found.push_back({i, "hang", "run did not end"}); else more = true;
    } else if (WIFEXITED(st)) {
      int c = WEXITSTATUS(st);
      if (c == 77) found.push_back({i, shm[w]->cls, shm[w]->detail});
      else if (c == 78) more = true;
      else if (c != 0) harness_error = "worker exit " + std::to_string(c) + ": " + tail_of(efd[w]);
    } else {
      if (!shm[w]->foreign) found.push_back({i, "crash-sig" + std::to_string(WTERMSIG(st)), tail_of(efd[w])});
      else more = true;
    }
    if (more && found.empty() && now_s() < deadline) { next[w] = i + W; if (next[w] < a.runs) { spawn(w); return; } }
    done[w] = true; left--;
  };
  while (left > 0) {
    bool any = false;
    for (int w = 0; w < W; w++) {
      if (done[w]) continue;
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) { finish(w, st, false); any = true; continue; }
      if (shm[w]->heartbeat != lastbeat[w]) { lastbeat[w] = shm[w]->heartbeat; beat_t[w] = now_s(); }
      else if (now_s() - beat_t[w] > 30) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); finish(w, st, true); any = true; }
    }
    if (!found.empty() || !harness_error.empty()) {
      for (int w = 0; w < W; w++) if (!done[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); done[w] = true; left--; }
      break;
    }
    if (!any) { struct timespec ts = {0, 1000000}; nanosleep(&ts, nullptr); }
  }
  double wall = now_s() - t0;

  // totals
  uint64_t runs = 0, nt = 0, steps = 0, ops = 0, sw = 0, sp = 0, fr = 0, al = 0, fe = 0, eo = 0;
  uint64_t fl[F_COUNT] = {}, fp[F_COUNT] = {};
  std::map<std::string, uint64_t> probes, foreign, wr;
  std::vector<uint64_t> hs;
  std::vector<uint8_t> sb(1 << 19), cb(1 << 19);
  for (int w = 0; w < W; w++) {
    Shm* s = shm[w];
    runs += s->runs; nt += s->nontrivial; steps += s->steps; ops += s->ops; sw += s->switches; sp += s->sched_points;
    fr += s->foreign_runs; al += s->allocs; fe += s->frees; eo += s->elem_ops;
    for (int i = 0; i < F_COUNT; i++) { fl[i] += s->faults[i]; fp[i] += s->fault_planned[i]; }
    for (auto& pr : s->probes) if (pr.name[0]) probes[pr.name] += pr.n;
    for (int i = 0; i < 16; i++) if (s->foreign_cls[i][0]) foreign[s->foreign_cls[i]] += s->foreign_cnt[i];
    for (size_t i = 0; i < worlds().size() && i < 64; i++) if (s->world_runs[i]) wr[worlds()[i].name] += s->world_runs[i];
    hs.insert(hs.end(), s->hashes, s->hashes + s->nhashes);
    for (int i = 0; i < 1 << 19; i++) { sb[i] |= s->state_bits[i]; cb[i] |= s->sched_bits[i]; }
  }
  std::sort(hs.begin(), hs.end());
  uint64_t digest = 0; for (auto h : hs) digest = mix(digest, h);
  size_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
  auto pop = [](const std::vector<uint8_t>& v) { uint64_t n = 0; for (auto b : v) n += __builtin_popcount(b); return n; };

  std::ostringstream j;
  char hb[32];
  j << "{\"seed\":" << a.seed << ",\"start\":" << a.start << ",\"requested_runs\":" << a.runs << ",\"runs\":" << runs << ",\"nontrivial_runs\":" << nt << ",\"distinct_runs\":" << distinct;
  snprintf(hb, 32, "%016lx", (unsigned long)digest);
  j << ",\"digest\":\"" << hb << "\",\"steps\":" << steps << ",\"ops\":" << ops << ",\"task_switches\":" << sw << ",\"scheduling_points\":" << sp
    << ",\"other_property_runs\":" << fr << ",\"allocations\":" << al << ",\"releases\":" << fe << ",\"element_ops\":" << eo
    << ",\"distinct_states\":" << pop(sb) << ",\"distinct_schedules\":" << pop(cb) << ",\"wall_s\":" << wall;
  auto jm = [&](const char* n, const std::map<std::string, uint64_t>& m) {
    j << ",\"" << n << "\":{"; bool f = true;
    for (auto& kv : m) { j << (f ? "" : ",") << jstr(kv.first) << ":" << kv.second; f = false; }
    j << "}";
  };
  std::map<std::string, uint64_t> fm, fpm;
  for (int i = 1; i < F_COUNT; i++) { fm[fault_name[i]] = fl[i]; fpm[fault_name[i]] = fp[i]; }
  jm("faults_fired", fm); jm("faults_planned", fpm); jm("probes", probes); jm("other_property_classes", foreign); jm("world_runs", wr);
  // a few sample runs, as programs
  j << ",\"samples\":[";
  for (int i = 0; i < 2; i++) {
    Program p = gen_program(a.seed, a.start + i, a.prop, ws, wt);
    std::string t = to_text(p); if (t.size() > 1500) t = t.substr(0, 1500) + "...";
    j << (i ? "," : "") << jstr(t);
  }
  j << "]";

  int rc = 0;
  if (!harness_error.empty()) {
    printf("HARNESS ERROR %s\n", harness_error.c_str());
    j << ",\"error\":" << jstr(harness_error);
    rc = 2;
  } else if (!found.empty()) {
    std::sort(found.begin(), found.end(), [](const Found& x, const Found& y) { return x.idx < y.idx; });
    const Found& f = found[0];
    printf("found index=%lu class=%s detail=%s\n", (unsigned long)f.idx, f.cls.c_str(), f.detail.c_str());
    fflush(stdout);
    Program p = gen_program(a.seed, a.start + f.idx, a.prop, ws, wt);
    int timeout = f.cls == "hang" ? 10 : 30;
    Outcome o1 = run_forked(p, timeout, true), o2 = run_forked(p, timeout, false);
    std::string err;
    if (!o1.fails() || o1.cls != f.cls || o1.hash != o2.hash || o2.cls != o1.cls) err = "violation of run " + std::to_string(f.idx) + " does not repeat: " + o1.cls + "/" + o2.cls;
    std::string path;
    if (err.empty()) {
      // explicit schedule
      if (f.cls != "hang") {
        Program q = p; q.sched_mode = 1; q.sched = o1.sched;
        Outcome oq = run_forked(q, timeout, false);
        if (oq.fails() && oq.cls == o1.cls) { p = q; o1 = oq; }
        p = minimise(p, o1, timeout, a.budget);
      }
      Outcome g1 = run_forked(p, timeout, false), g2 = run_forked(p, timeout, false);
      if (!g1.fails() || g1.cls != g2.cls || g1.hash != g2.hash) err = "minimised violation does not repeat";
      else {
        snprintf(hb, 32, "%016lx", (unsigned long)g1.hash);
        path = a.replay_dir + "/" + (a.prop < 10 ? "C0" : "C") + std::to_string(a.prop) + "-" + a.tag + "-" + std::to_string(a.seed) + "-" + std::to_string(f.idx) + ".replay";
        std::ofstream of(path);
        char pn[8]; snprintf(pn, 8, "C%02d", a.prop);
        of << "# " << g1.cls << ": " << g1.detail << "\n# found by run " << f.idx << " of seed " << a.seed << "; replay with: " << a.tag << "\n";
        of << to_text(p) << "property " << pn << "\nexpect class " << g1.cls << "\nexpect hash " << hb << "\n";
        of.close();
        // fresh process
        char self[512]; ssize_t n = readlink("/proc/self/exe", self, 511); self[n > 0 ? n : 0] = 0;
        std::string cmd = std::string(self) + " replay --file '" + path + "'";
        FILE* pp = popen(cmd.c_str(), "r");
        std::string out; char b[512];
        while (pp && fgets(b, 512, pp)) out += b;
        int prc = pp ? pclose(pp) : -1;
        if (!(WIFEXITED(prc) && WEXITSTATUS(prc) == 1 && out.find("REPRODUCED exactly") != std::string::npos)) err = "fresh-process replay differs: " + out;
        j << ",\"violation\":{\"class\":" << jstr(g1.cls) << ",\"detail\":" << jstr(g1.detail) << ",\"index\":" << f.idx << ",\"replay\":" << jstr(path) << ",\"ops\":" << p.ops.size() << ",\"program\":" << jstr(to_text(p)) << "}";
        printf("VIOLATED class=%s detail=%s ops=%zu replay=%s\n", g1.cls.c_str(), g1.detail.c_str(), p.ops.size(), path.c_str());
        rc = 1;
      }
    }
    if (!err.empty()) { printf("GATE FAILED %s\n", err.c_str()); j << ",\"error\":" << jstr(err); rc = 2; }
  }
  j << "}\n";
  if (!a.out.empty()) { std::ofstream of(a.out); of << j.str(); }
  printf("runs %lu nontrivial %lu distinct %zu wall %.1f rc %d\n", (unsigned long)runs, (unsigned long)nt, distinct, wall, rc);
  return rc;
}

static int do_hashes(const Args& a) {
  // One line per run: index, outcome, event-log hash; each in its own process
  // when --workers is 0, else all in this one.
  std::vector<const World*> ws; std::vector<int> wt;
  pick_worlds(a, ws, wt);
  g_prop = a.prop;
  for (uint64_t i = a.start; i < a.start + a.runs; i++) {
    Program p = gen_program(a.seed, i, a.prop, ws, wt);
    if (a.workers == 0) {
      Outcome o = run_forked(p, 30, false);
      printf("%lu %d %s %016lx\n", (unsigned long)i, o.kind, o.cls.c_str(), (unsigned long)o.hash);
    } else {
      run_one(p);
      printf("%lu %d %s %016lx\n", (unsigned long)i, 0, "", (unsigned long)g_shm->hash);
    }
  }
  return 0;
}

int sim_main(int argc, char** argv) {
  Args a;
  if (argc > 1) a.cmd = argv[1];
  for (int i = 2; i < argc; i++) {
    std::string k = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--seed") a.seed = strtoull(val().c_str(), 0, 10);
    else if (k == "--runs") a.runs = strtoull(val().c_str(), 0, 10);
    else if (k == "--start") a.start = strtoull(val().c_str(), 0, 10);
    else if (k == "--prop") a.prop = atoi(val().c_str());
    else if (k == "--workers") a.workers = atoi(val().c_str());
    else if (k == "--max-seconds") a.max_s = atof(val().c_str());
    else if (k == "--min-seconds") a.budget = atof(val().c_str());
    else if (k == "--out") a.out = val();
    else if (k == "--replay-dir") a.replay_dir = val();
    else if (k == "--worlds") a.worlds = val();
    else if (k == "--file") a.file = val();
    else if (k == "--tag") a.tag = val();
    else if (k == "-v") a.v = true;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  arena_init();
  g_sched_rec = new std::vector<std::pair<uint64_t, int>>();
  g_sync = new std::unordered_map<uintptr_t, SyncVar>();
  g_shm = make_shm(1); g_shm_cap = 1;
  if (!a.replay_dir.empty()) mkdir(a.replay_dir.c_str(), 0777);
  if (a.cmd == "explore") return do_explore(a);
  if (a.cmd == "replay") return do_replay(a);
  if (a.cmd == "hashes") return do_hashes(a);
  if (a.cmd == "worlds") { for (auto& w : worlds()) printf("%s\n", w.name); return 0; }
  if (a.cmd == "show") {
    std::vector<const World*> ws; std::vector<int> wt; pick_worlds(a, ws, wt);
    g_prop = a.prop;
    Program p = gen_program(a.seed, a.start, a.prop, ws, wt);
    printf("%sproperty C%02d\n", to_text(p).c_str(), a.prop);
    return 0;
  }
  fprintf(stderr, "usage: sim explore|replay|hashes|worlds|show\n");
  return 2;
}

} // namespace sim

int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
