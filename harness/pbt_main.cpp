// Runner: linked with one props/cXX.cpp.
//  run:    runner run OUT.json HASHES.bin --seed N --scale X --workers W --max-seconds S
//  replay: runner replay FACET TAPEFILE        (exit 0 pass, 3 failure, other crash)
//  shrink: runner shrink FACET TAPEFILE OUT --budget SECONDS
#include "pbt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <fstream>
#include <typeinfo>

using namespace pbt;

static const int HANG_SECONDS = 30;  // CPU seconds, per case

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static uint64_t hash_str(const std::string &x) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : x) h = (h ^ c) * 1099511628211ull;
  return h;
}

static std::string json(const std::string &x) {
  std::string o = "\"";
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}

static void set_cpu_alarm(int sec) {
  itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static void on_hang(int) {
  const char m[] = "HANG: cpu time of one case exceeded\n";
  if (write(2, m, sizeof m - 1)) {
  }
  _exit(77);
}

static Buffer *new_buffer() {
  void *p = mmap(nullptr, sizeof(Buffer), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (Buffer *)p;
}

// returns true if ok; sets msg if it failed
static bool run_case(const Facet &f, Src &s, std::string &msg) {
  try {
    f.fn(s);
    return true;
  } catch (const Failure &e) {
    msg = e.msg;
  } catch (const Discard &) {
    s.label("discarded");
    s.nontrivial_ = false;
    return true;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception ") + typeid(e).name() + ": " +
          e.what();
  } catch (...) {
    msg = "unexpected non-standard exception";
  }
  return false;
}

struct Opts {
  uint64_t seed = 1;
  double scale = 1;
  int workers = 8;
  double max_seconds = 600;
  std::string only;
};

struct WorkerStats {
  uint64_t evals = 0;
  bool truncated = false;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, std::pair<uint64_t, uint64_t>> per_facet;
  std::vector<uint64_t> hashes;
  std::map<std::string, std::pair<uint64_t, std::string>> knowns;
  std::map<std::string, std::vector<uint64_t>> known_tape;
  std::vector<std::pair<uint32_t, std::vector<uint64_t>>> samples;
};

static std::string variant_name() {
#if defined(PBT_VARIANT)
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
  return PBT_STR(PBT_VARIANT);
#else
  return "plain";
#endif
}

// the seed of case i of a facet
static uint64_t case_seed(const Facet &f, uint64_t seed, uint64_t i) {
  uint64_t base = seed;
  Src::mix(base);
  base ^= hash_str(std::string(f.name) + "/" + variant_name());
  uint64_t r = base + i * 0x632be59bd9b4e019ull;
  Src::mix(r);
  return r;
}
static uint64_t case_count(const Facet &f, double scale) {
  // a facet whose case count is 1 is a fixed example
  return f.cases == 1 ? 1 : (uint64_t)std::ceil(f.cases * scale);
}

static const size_t MAX_HASH = 400000;

static void dump(const std::string &path, const WorkerStats &w) {
  std::ofstream o((path + ".tmp").c_str());
  o << w.evals << " " << w.truncated << "\n";
  o << w.labels.size() << "\n";
  for (auto &l : w.labels) o << l.first << "\n" << l.second << "\n";
  o << w.per_facet.size() << "\n";
  for (auto &l : w.per_facet)
    o << l.first << "\n" << l.second.first << " " << l.second.second << "\n";
  o << w.hashes.size() << "\n";
  for (auto h : w.hashes) o << h << " ";
  o << "\n" << w.knowns.size() << "\n";
  for (auto &k : w.knowns) {
    std::string d = k.second.second;
    for (auto &c : d)
      if (c == '\n') c = ' ';
    o << k.first << "\n" << d << "\n" << k.second.first << "\n";
  }
  o << w.samples.size() << "\n";
  for (auto &t : w.samples) {
    o << t.first << " " << t.second.size();
    for (auto x : t.second) o << " " << x;
    o << "\n";
  }
  o.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

static bool load(const std::string &path, WorkerStats &w) {
  std::ifstream i(path.c_str());
  uint64_t e;
  bool tr;
  if (!(i >> e >> tr)) return false;
  w.evals += e;
  w.truncated |= tr;
  size_t n = 0;
  std::string l, l2;
  n = 0;
  if (!(i >> n)) return false;
  std::getline(i, l);
  while (n--) {
    std::getline(i, l);
    uint64_t c;
    i >> c;
    std::getline(i, l2);
    w.labels[l] += c;
  }
  n = 0;
  if (!(i >> n)) return false;
  std::getline(i, l);
  while (n--) {
    std::getline(i, l);
    uint64_t c, d;
    i >> c >> d;
    std::getline(i, l2);
    w.per_facet[l].first += c;
    w.per_facet[l].second += d;
  }
  n = 0;
  if (!(i >> n)) return false;
  while (n--) {
    uint64_t h;
    i >> h;
    w.hashes.push_back(h);
  }
  n = 0;
  if (!(i >> n)) return false;
  std::getline(i, l);
  while (n--) {
    std::string d;
    std::getline(i, l);
    std::getline(i, d);
    uint64_t c;
    i >> c;
    std::getline(i, l2);
    w.knowns[l].first += c;
    w.knowns[l].second = d;
  }
  n = 0;
  if (!(i >> n)) return false;
  while (n--) {
    uint32_t f;
    size_t m;
    i >> f >> m;
    std::vector<uint64_t> t(m);
    for (auto &x : t) i >> x;
    w.samples.push_back(std::make_pair(f, t));
  }
  return true;
}

static void limits() {
  // the library warns on the standard streams; keep the file descriptors for
  // the sanitizers but drop stream output
  if (!getenv("PBT_STDERR")) {
    std::cerr.rdbuf(nullptr);
    std::clog.rdbuf(nullptr);
  }
  rlimit r;
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_HAS_ASAN 1
#endif
#endif
#ifndef PBT_HAS_ASAN
  r.rlim_cur = r.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &r);
#endif
#endif
}


static void worker(int id, const Opts &o, Buffer *buf, const std::string &out,
                   double t0) {
  limits();
  signal(SIGVTALRM, on_hang);
  WorkerStats st;
  int nsample = 0;
  for (size_t fi = 0; fi < facets().size(); ++fi) {
    const Facet &f = facets()[fi];
    if (!o.only.empty() && o.only != f.name) continue;
    uint64_t n = case_count(f, o.scale);
    int facet_samples = 0;
    for (uint64_t i = id; i < n; i += o.workers) {
      if ((i & 15) == (uint64_t)(id & 15) && now() - t0 > o.max_seconds) {
        st.truncated = true;
        break;
      }
      Src s;
      s.mode = Src::RANDOM;
      s.rng = case_seed(f, o.seed, i);
      s.buf = buf;
      buf->facet = fi;
      buf->index = i;
      buf->len = 0;
      buf->running = 1;
      set_cpu_alarm(HANG_SECONDS);
      std::string msg;
      bool ok = run_case(f, s, msg);
      buf->running = 0;
      ++st.evals;
      auto &pf = st.per_facet[f.name];
      ++pf.first;
      for (auto l : s.labels) ++st.labels[std::string(f.name) + ": " + l];
      for (auto &k : s.knowns) {
        auto &x = st.knowns[k.first];
        if (!x.first++) x.second = k.second;
      }
      if (!ok) {
        strncpy(buf->msg, msg.c_str(), sizeof(buf->msg) - 1);
        buf->failed = 1;
        dump(out, st);
        _exit(3);
      }
      if (s.nontrivial_) {
        ++pf.second;
        if (st.hashes.size() < MAX_HASH) st.hashes.push_back(s.hash ^ hash_str(f.name));
        if (id == 0 && facet_samples < 2 && nsample < 40) {
          ++facet_samples;
          ++nsample;
          st.samples.push_back(std::make_pair(
              (uint32_t)fi,
              std::vector<uint64_t>(buf->tape, buf->tape + buf->len)));
        }
      }
    }
  }
  set_cpu_alarm(0);
  dump(out, st);
  _exit(0);
}

static std::string describe(const Facet &f, const std::vector<uint64_t> &tape,
                            std::string *msg, bool *ok) {
  Src s;
  s.mode = Src::REPLAY;
  s.in = tape.data();
  s.nin = tape.size();
  s.verbose = true;
  std::string m;
  bool r = run_case(f, s, m);
  if (msg) *msg = m;
  if (ok) *ok = r;
  return s.out.str();
}

static const Facet *find_facet(const std::string &n) {
  for (auto &f : facets())
    if (n == f.name) return &f;
  return nullptr;
}

static std::vector<uint64_t> read_tape(const std::string &path) {
  std::ifstream i(path.c_str());
  std::vector<uint64_t> t;
  std::string line;
  while (std::getline(i, line)) {
    if (line.compare(0, 5, "tape:") != 0) continue;
    std::istringstream is(line.substr(5));
    uint64_t x;
    while (is >> x) t.push_back(x);
  }
  return t;
}

// run in a child; 0 ok, 1 property failure, 2 crash, 3 hang
static int probe(const Facet &f, const std::vector<uint64_t> &tape,
                 Buffer *buf, std::vector<uint64_t> *recorded) {
  fflush(stdout);
  buf->len = 0;
  pid_t p = fork();
  if (p == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    limits();
    signal(SIGVTALRM, on_hang);
    set_cpu_alarm(HANG_SECONDS);
    Src s;
    s.mode = Src::REPLAY;
    s.in = tape.data();
    s.nin = tape.size();
    s.buf = buf;
    std::string m;
    bool ok = run_case(f, s, m);
    _exit(ok ? 0 : 3);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (recorded) recorded->assign(buf->tape, buf->tape + buf->len);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 3;
  return 2;
}

static bool simpler(const std::vector<uint64_t> &a,
                    const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> t,
                                    double budget) {
  Buffer *buf = new_buffer();
  double t0 = now();
  std::vector<uint64_t> rec;
  int kind = probe(f, t, buf, &rec);
  if (kind == 0 || kind == 3) return t;
  if (simpler(rec, t)) t = rec;
  int tries = 0;
  auto attempt = [&](std::vector<uint64_t> c) {
    if (now() - t0 > budget || ++tries > 6000) return false;
    if (!simpler(c, t)) return false;
    std::vector<uint64_t> r;
    if (probe(f, c, buf, &r) != kind) return false;
    t = simpler(r, c) ? r : c;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && tries < 6000) {
    progress = false;
    // truncate
    for (size_t keep = 0; keep < t.size(); keep = keep * 2 + 1) {
      std::vector<uint64_t> c(t.begin(), t.begin() + keep);
      if (attempt(c)) {
        progress = true;
        break;
      }
    }
    // delete chunks
    for (size_t k : {32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = t.size(); i-- > 0;) {
        if (i + k > t.size()) continue;
        std::vector<uint64_t> c(t);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true;
        // deletion coupled with decrementing a preceding count
        else if (k <= 8) {
          for (size_t b = 1; b <= 3 && b <= i; ++b) {
            std::vector<uint64_t> d(t);
            if (!d[i - b]) continue;
            --d[i - b];
            d.erase(d.begin() + i, d.begin() + i + k);
            if (attempt(d)) {
              progress = true;
              break;
            }
          }
        }
        if (now() - t0 > budget) break;
      }
    }
    // zero chunks
    for (size_t k : {8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= t.size(); ++i) {
        std::vector<uint64_t> c(t);
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
    }
    // minimise values
    for (size_t i = 0; i < t.size(); ++i) {
      uint64_t lo = 0;
      while (i < t.size() && lo < t[i] && now() - t0 < budget) {
        uint64_t mid = lo + (t[i] - lo) / 2;
        std::vector<uint64_t> c(t);
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid + 1;
      }
    }
  }
  return t;
}

static void write_tape(std::ostream &o, const std::vector<uint64_t> &t) {
  o << "tape:";
  for (auto x : t) o << " " << x;
  o << "\n";
}

static const Facet *fuzz_facet(unsigned char b) {
  std::vector<const Facet *> fs;
  const char *only = getenv("PBT_ONLY");
  for (auto &f : facets())
    if (f.cases > 1 && (!only || strcmp(only, f.name) == 0)) fs.push_back(&f);
  return fs[b % fs.size()];
}

#ifndef PBT_FUZZ
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  Opts o;
  double budget = 20;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale")
      o.scale = atof(val().c_str());
    else if (a == "--workers")
      o.workers = atoi(val().c_str());
    else if (a == "--max-seconds")
      o.max_seconds = atof(val().c_str());
    else if (a == "--only")
      o.only = val();
    else if (a == "--budget")
      budget = atof(val().c_str());
    else
      pos.push_back(a);
  }
  if (cmd == "list") {
    for (auto &f : facets()) std::cout << f.name << " " << f.cases << "\n";
    return 0;
  }
  if (cmd == "replay") {
    const Facet *f = find_facet(pos.at(0));
    if (!f) {
      std::cout << "unknown facet\n";
      return 2;
    }
    limits();
    signal(SIGVTALRM, on_hang);
    set_cpu_alarm(HANG_SECONDS);
    std::vector<uint64_t> t = read_tape(pos.at(1));
    Src s;
    s.mode = Src::REPLAY;
    s.in = t.data();
    s.nin = t.size();
    s.verbose = true;
    std::string m;
    bool ok = run_case(*f, s, m);
    std::cout << s.out.str() << std::flush;
    for (auto &k : s.knowns)
      std::cout << "KNOWN " << k.first << ": " << k.second << "\n";
    if (!ok) std::cout << "FAILURE: " << m << "\n";
    std::cout << std::flush;
    _exit(ok ? 0 : 3);
  }
  if (cmd == "history") {
    // replays cases one after the other in one process, for failures which need what
    // earlier cases left behind. The argument is a file of lines "facet first last step".
    limits();
    signal(SIGVTALRM, on_hang);
    std::ifstream in(pos.at(0).c_str());
    std::string name;
    uint64_t first, last, step, total = 0, done = 0;
    std::vector<std::pair<const Facet *, uint64_t>> cases;
    while (in >> name >> first >> last >> step)
      for (uint64_t i = first; i <= last; i += step) {
        const Facet *f = find_facet(name);
        if (f) cases.push_back({f, i});
      }
    total = cases.size();
    Buffer *buf = new_buffer();
    for (auto &c : cases) {
      Src s;
      s.mode = Src::RANDOM;
      s.rng = case_seed(*c.first, o.seed, c.second);
      s.buf = buf;
      s.verbose = total - done <= 4;
      ++done;
      buf->len = 0;
      set_cpu_alarm(HANG_SECONDS);
      std::string m;
      bool ok = run_case(*c.first, s, m);
      if (s.verbose) std::cout << "case " << c.second << " of " << c.first->name << "\n" << s.out.str() << std::flush;
      if (!ok) {
        std::cout << "FAILURE: " << m << "\n" << std::flush;
        _exit(3);
      }
    }
    _exit(0);
  }
  if (cmd == "facets") {  // facet names in order, with their number of cases
    for (auto &f : facets()) std::cout << f.name << " " << case_count(f, o.scale) << "\n";
    return 0;
  }
  if (cmd == "shrink") {
    const Facet *f = find_facet(pos.at(0));
    std::vector<uint64_t> t = read_tape(pos.at(1));
    t = shrink(*f, t, budget);
    std::ofstream out(pos.at(2).c_str());
    write_tape(out, t);
    return 0;
  }
  if (cmd == "totape") {
    // convert a libFuzzer input (see below) into a facet and a tape
    std::ifstream in(pos.at(0).c_str(), std::ios::binary);
    std::string data((std::istreambuf_iterator<char>(in)),
                     std::istreambuf_iterator<char>());
    if (data.empty()) return 2;
    const Facet *f = fuzz_facet((unsigned char)data[0]);
    Buffer *buf = new_buffer();
    pid_t p = fork();
    if (p == 0) {
      limits();
      signal(SIGVTALRM, on_hang);
      set_cpu_alarm(HANG_SECONDS);
      Src s;
      s.mode = Src::BYTES;
      s.bytes = (const uint8_t *)data.data() + 1;
      s.nbytes = data.size() - 1;
      s.buf = buf;
      std::string m;
      run_case(*f, s, m);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    std::ofstream out(pos.at(1).c_str());
    write_tape(out, std::vector<uint64_t>(buf->tape, buf->tape + buf->len));
    std::cout << f->name << "\n";
    return 0;
  }
  if (cmd == "run") {
    double t0 = now();
    std::string out = pos.at(0);
    std::vector<Buffer *> bufs;
    std::vector<pid_t> pids;
    for (int w = 0; w < o.workers; ++w) bufs.push_back(new_buffer());
    for (int w = 0; w < o.workers; ++w) {
      pid_t p = fork();
      if (p == 0) {
        std::string e = out + ".err" + std::to_string(w);
        int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        std::cout.rdbuf(nullptr);
        worker(w, o, bufs[w], out + ".w" + std::to_string(w), t0);
      }
      pids.push_back(p);
    }
    int bad = -1;
    std::string kind;
    int left = o.workers;
    std::vector<bool> done(o.workers, false);
    while (left) {
      int st;
      pid_t p = wait(&st);
      if (p < 0) break;
      int w = -1;
      for (int i = 0; i < o.workers; ++i)
        if (pids[i] == p) w = i;
      if (w < 0) continue;
      --left;
      done[w] = true;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (bad >= 0) continue;
      bad = w;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        kind = "failure";
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        kind = "hang";
      else if (WIFSIGNALED(st))
        kind = "crash (signal " + std::to_string(WTERMSIG(st)) + ")";
      else
        kind = "crash (exit " + std::to_string(WEXITSTATUS(st)) + ")";
      for (int i = 0; i < o.workers; ++i)
        if (!done[i]) kill(pids[i], SIGKILL);
    }
    WorkerStats st;
    for (int w = 0; w < o.workers; ++w)
      load(out + ".w" + std::to_string(w), st);
    std::sort(st.hashes.begin(), st.hashes.end());
    st.hashes.erase(std::unique(st.hashes.begin(), st.hashes.end()),
                    st.hashes.end());
    std::ofstream js(out.c_str());
    js << "{\"evaluations\": " << st.evals
       << ", \"distinct_nontrivial\": " << st.hashes.size()
       << ", \"truncated\": " << (st.truncated ? "true" : "false")
       << ", \"seconds\": " << now() - t0 << ",\n\"labels\": {";
    bool first = true;
    for (auto &l : st.labels) {
      js << (first ? "" : ", ") << json(l.first) << ": " << l.second;
      first = false;
    }
    js << "},\n\"facets\": {";
    first = true;
    for (auto &l : st.per_facet) {
      js << (first ? "" : ", ") << json(l.first)
         << ": {\"cases\": " << l.second.first
         << ", \"nontrivial\": " << l.second.second << "}";
      first = false;
    }
    js << "},\n\"knowns\": {";
    first = true;
    for (auto &l : st.knowns) {
      js << (first ? "" : ", ") << json(l.first)
         << ": {\"count\": " << l.second.first
         << ", \"detail\": " << json(l.second.second) << "}";
      first = false;
    }
    js << "},\n\"samples\": [";
    first = true;
    if (bad < 0)
      for (auto &t : st.samples) {
        std::string d = describe(facets()[t.first], t.second, nullptr, nullptr);
        if (d.size() > 1500) d = d.substr(0, 1500) + "...";
        js << (first ? "" : ",\n ") << "{\"facet\": "
           << json(facets()[t.first].name) << ", \"case\": " << json(d) << "}";
        first = false;
      }
    js << "],\n\"failure\": ";
    if (bad < 0) {
      js << "null";
    } else {
      Buffer *b = bufs[bad];
      std::string tf = out + ".tape";
      std::ofstream tape(tf.c_str());
      write_tape(tape, std::vector<uint64_t>(b->tape, b->tape + b->len));
      std::string err;
      {
        std::ifstream e((out + ".err" + std::to_string(bad)).c_str());
        std::ostringstream os;
        os << e.rdbuf();
        err = os.str();
        if (err.size() > 6000) err = err.substr(0, 6000);
      }
      js << "{\"kind\": " << json(kind) << ", \"facet\": "
         << json(facets()[b->facet].name) << ", \"index\": " << b->index
         << ", \"running\": " << b->running
         << ", \"message\": " << json(b->failed ? b->msg : "")
         << ", \"stderr\": " << json(err) << ", \"tape\": " << json(tf)
         << "}";
    }
    js << "}\n";
    return 0;
  }
  return 2;
}
#else
// coverage-guided driver: byte 0 picks the facet, the rest is the tape
static Buffer *fuzz_buf;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (!size) return 0;
  if (!fuzz_buf) fuzz_buf = new_buffer();
  const Facet &f = *fuzz_facet(data[0]);
  Src s;
  s.mode = Src::BYTES;
  s.bytes = data + 1;
  s.nbytes = size - 1;
  s.buf = fuzz_buf;
  fuzz_buf->len = 0;
  std::string m;
  if (!run_case(f, s, m)) {
    fprintf(stderr, "PBT-FAILURE facet=%s %s\n", f.name, m.c_str());
    __builtin_trap();
  }
  return 0;
}
#endif
