// Command line: run a range of seeds, replay a file.
#include "work.h"
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
extern std::string g_standins; void want_symbols(bool);
static std::string line(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const std::string& f) { std::string s; FILE* h = fopen(f.c_str(), "r"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void spit(const std::string& f, const std::string& s) { FILE* h = fopen(f.c_str(), "w"); if (!h) { perror(f.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), h); fclose(h); }

// ---- minimisation: simpler schedule first, then a simpler history ---------------
static bool again(const Plan& P, const std::string& cls) { Viol v; return judge(P, v) && v.cls == cls; }
static Plan minimise(Plan P, const std::string& cls, double budget) {
  double end = now() + budget; auto left = [&] { return now() < end; };
  // the recorded schedule, as explicit deviations from run-to-completion order
  { Viol v; if (judge(P, v)) { Plan Q = P; Q.sched = SchedSpec(); Q.sched.policy = S_EXPLICIT; Q.sched.pre = LAST.pre; Q.sched.forced = LAST.forced; if (again(Q, cls)) P = Q; } }
  { Plan Q = P; Q.sched = SchedSpec(); if (again(Q, cls)) P = Q; }
  auto shrink = [&](auto get) { // ddmin over a list
    size_t chunk = std::max<size_t>(1, get(P).size() / 2); while (left() && !get(P).empty()) { bool any = false; for (size_t i = 0; i < get(P).size() && left();) { Plan Q = P; auto& l = get(Q); l.erase(l.begin() + i, l.begin() + std::min(l.size(), i + chunk)); if (again(Q, cls)) { P = Q; any = true; } else i += chunk; } if (chunk == 1 && !any) break; if (chunk > 1) chunk = (chunk + 1) / 2; else if (!any) break; } };
  auto tryq = [&](auto f) { if (!left()) return; Plan Q = P; f(Q); if (again(Q, cls)) P = Q; };
  auto sched = [&] { if (P.sched.policy == S_EXPLICIT) { shrink([](Plan& q) -> std::vector<std::pair<u64, int>>& { return q.sched.forced; }); shrink([](Plan& q) -> std::vector<std::pair<u64, int>>& { return q.sched.pre; }); } };
  // drop whole calls
  for (int i = (int)P.ops.size() - 2; i >= 0 && left(); i--) { if (P.ops.size() < 2) break; Plan Q = P; int rem = i; Q.ops.erase(Q.ops.begin() + rem); for (auto& o : Q.ops) { if (o.reuse == rem) o.reuse = -1; else if (o.reuse > rem) o.reuse--; } { auto& l = Q.env.popen; l.erase(std::remove_if(l.begin(), l.end(), [&](auto& f) { return f.op == rem; }), l.end()); for (auto& f : l) if (f.op > rem) f.op--; } if (again(Q, cls)) P = Q; }
  tryq([](Plan& q) { q.env.wall.clear(); }); tryq([](Plan& q) { q.env.stall.clear(); }); tryq([](Plan& q) { q.env.team_mode = 0; }); tryq([](Plan& q) { q.env.dyn = false; }); tryq([](Plan& q) { for (auto& o : q.ops) o.napp = 0; }); tryq([](Plan& q) { q.env.fill = q.env.stackfill = 0; }); tryq([](Plan& q) { q.env.reuse = 0; q.env.layout_seed = 1; }); tryq([](Plan& q) { q.env.default_threads = 8; });
  shrink([](Plan& q) -> std::vector<std::pair<u64, i64>>& { return q.env.wall; }); shrink([](Plan& q) -> std::vector<std::pair<u64, i64>>& { return q.env.stall; }); shrink([](Plan& q) -> std::vector<EnvSpec::PF>& { return q.env.popen; });
  bool expl = P.sched.policy == S_EXPLICIT && P.sched.pre.size() + P.sched.forced.size() > 0;
  if (!expl) for (int round = 0; round < 3 && left(); round++) for (size_t i = 0; i < P.ops.size(); i++) for (int d = 0; d < 4 && left(); d++) { auto f = [&](Plan& q) -> int& { Op& o = q.ops[i]; return d == 0 ? o.M : d == 1 ? o.N : d == 2 ? o.K : o.p; }; for (int g = 0; g < 12 && left() && f(P) > 1; g++) { int v0 = f(P); Plan Q = P; f(Q) = std::max(1, v0 / 2); if (again(Q, cls)) { P = Q; continue; } Q = P; f(Q) = v0 - 1; if (again(Q, cls)) { P = Q; continue; } break; } }
  if (P.prop == "C07") tryq([](Plan& q) { q.env.alloc_persist = false; });
  sched(); return P;
}
static int sim_main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) execv("/proc/self/exe", argv); }
  std::map<std::string, std::string> a; for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1]; std::string cmd = argc > 1 ? argv[1] : "";
  g_standins = a["--standins"]; std::string libs = a["--libs"]; core_init(); for (auto n : {"fine0", "fine1", "coarse"}) lib_load(libs + "/" + n + ".so"); g_coarse = 2; { std::string t = slurp(libs + "/numbers"); const char* q = t.c_str(); char* e; for (long v; v = strtol(q, &e, 10), e != q; q = e) g_numbers.push_back((int)v); }
  if (cmd == "run") {
    std::string prop = a["--prop"]; if (!known_prop(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    u64 base = strtoull(a["--seed"].c_str(), 0, 10), from = atol(a["--from"].c_str()), stride = atol(a["--stride"].c_str()), count = atol(a["--count"].c_str()); double t0 = now(), tl = atof(a["--time"].c_str()); int unst = 0, maxv = a.count("--maxviol") ? atoi(a["--maxviol"].c_str()) : 1; J viol = J::arr(), samples = J::arr(); u64 done = 0, rechecks = 0, mism = 0; std::map<std::string, int> seen; bool verbose = a.count("--verbose"); u64 minp = atol(a["--minplans"].c_str()); double hard = a.count("--hardtime") ? atof(a["--hardtime"].c_str()) : tl; std::string stop = a["--stop"]; int pfd = a.count("--progress") ? open(a["--progress"].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644) : -1;
    for (u64 i = from; i < count && (now() - t0 < tl || (done < minp && now() - t0 < hard)) && (int)viol.a.size() - unst < maxv; i += stride) {
      if (!stop.empty() && (done & 7) == 0 && access(stop.c_str(), F_OK) == 0) break;
      u64 seed = base * 1000003ull + i; Plan P = generate(prop, seed); Viol v; if (verbose) { fprintf(stderr, "%llu %s\n", (unsigned long long)seed, P.ops[0].brief().c_str()); }
      if (pfd >= 0) { std::string t = sfmt("%-24llu\n", (unsigned long long)seed); if (pwrite(pfd, t.data(), t.size(), 0) < 0) {} }
      done++; bool bad = judge(P, v); u64 h = LAST.hash;
      if (!bad) { if (samples.a.size() < 2 && done % 37 == 5) samples.push(J::obj().set("seed", seed).set("trace_hash", sfmt("%016llx", (unsigned long long)h)).set("plan", P.json()));
        if (done % 50 == 7) { Stats keep = S; rechecks++; Viol w; if (judge(P, w) || LAST.hash != h) { mism++; fprintf(stderr, "seed %llu: a second execution differs\n", (unsigned long long)seed); } S = keep; }
        continue; }
      Viol v2; bool same = judge(P, v2) && v2.cls == v.cls && LAST.hash == h; if (!same) { viol.push(J::obj().set("unstable", true).set("property", prop).set("seed", seed).set("class", v.cls).set("message", line(v.msg + " / " + v2.msg)).set("plan", P.json())); if (++unst > 2) break; continue; }
      if (seen[v.cls]++ && maxv > 1) { if (seen[v.cls] <= 3) fprintf(stderr, "[%s] %llu %s\n", v.cls.c_str(), (unsigned long long)seed, v.msg.c_str()); continue; }
      want_symbols(false); Plan Q = a.count("--nomin") ? P : minimise(P, v.cls, a.count("--mintime") ? atof(a["--mintime"].c_str()) : 12); want_symbols(true); Viol v3; bool ok = judge(Q, v3) && v3.cls == v.cls; if (!ok) { Q = P; judge(Q, v3); } want_symbols(false);
      J rj = J::obj(); rj.set("format", "cake-sim-replay 1").set("property", prop).set("class", v3.cls).set("message", line(v3.msg)).set("found_by_seed", seed).set("trace_hash", sfmt("%016llx", (unsigned long long)LAST.hash)).set("steps", LAST.steps).set("plan", Q.json()); viol.push(rj); if (!stop.empty()) spit(stop, "");
      fprintf(stderr, "[%s] %llu %s\n", v3.cls.c_str(), (unsigned long long)seed, v3.msg.c_str());
    }
    struct rusage ru; getrusage(RUSAGE_SELF, &ru); J out = S.json(); out.set("seeds", done).set("seconds", now() - t0).set("cpu", ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) * 1e-6).set("rss_kb", (long long)ru.ru_maxrss).set("violations", viol).set("samples", samples).set("rechecks", rechecks).set("recheck_mismatches", mism);
    J ih = J::arr(); if (a.count("--inter")) { std::string b; for (u64 x : S.inter) b.append((char*)&x, 8); spit(a["--inter"], b); b.clear(); for (u64 x : S.hist) b.append((char*)&x, 8); spit(a["--inter"] + "h", b); } spit(a["--out"], out.dump()); return viol.a.empty() ? 0 : 1;
  }
  if (cmd == "replay") {
    J j; if (!J::parse(slurp(a["--file"]), j) || !j.get("plan")) { fprintf(stderr, "cannot read %s\n", a["--file"].c_str()); return 2; }
    Plan P = Plan::from(*j.get("plan")); want_symbols(true); Viol v; bool b = judge(P, v); std::string h = sfmt("%016llx", (unsigned long long)LAST.hash);
    printf("%s\n%s\ntrace hash %s, %llu steps\n", b ? v.cls.c_str() : "no violation", v.msg.c_str(), h.c_str(), (unsigned long long)LAST.steps); if (!b) return 0; bool same = v.cls == j.str("class") && h == j.str("trace_hash"); printf("%s\n", same ? "reproduced exactly" : "violates, but differs from the recorded execution"); return same ? 1 : 4;
  }
  if (cmd == "one") { Plan P = generate(a["--prop"], strtoull(a["--seed"].c_str(), 0, 10)); Viol v; return judge(P, v); }
  if (cmd == "hash") { std::string prop = a["--prop"]; u64 base = strtoull(a["--seed"].c_str(), 0, 10); for (u64 i = atol(a["--from"].c_str()), n = atol(a["--count"].c_str()); n--; i++) { u64 sd = base * 1000003ull + i; Plan P = generate(prop, sd); Viol v; bool b = judge(P, v); printf("%llu %d %016llx\n", (unsigned long long)sd, b, (unsigned long long)LAST.hash); } return 0; }
  if (cmd == "show") { Plan P = generate(a["--prop"], strtoull(a["--seed"].c_str(), 0, 10)); printf("%s\n", P.json().dump().c_str()); return 0; }
  fprintf(stderr, "usage: sim run|replay|show\n"); return 2;
}
int main(int argc, char** argv) { int r = sim_main(argc, argv); fflush(nullptr); _exit(r); }   // the libraries' static objects are not destroyed: their memory belonged to a run
