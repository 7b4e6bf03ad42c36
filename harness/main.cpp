// Driver of one property:
//   worker  SEED TIER K N OUT CAP   run the cases with index % N == K
//   shrink  CASEFILE OUT BUDGET     minimise a failing case (forks per try)
//   replay  CASEFILE                run one case, print it; exit 1 if it fails
//   corpus  DIR                     replay every case file of a directory
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include <cpl_error.h>
#include "pbt.hpp"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:"
         "alloc_dealloc_mismatch=0";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:abort_on_error=1:print_stacktrace=1";
}

using pbt::Facet;
using pbt::Gen;
using pbt::Property;
using pbt::SharedCase;

namespace {

enum Outcome { PASS = 2, FAIL = 3, DISCARD = 4 };

const unsigned kCaseLimit = 60;  // seconds of wall time before a case "hangs"

double now() {
  return std::chrono::duration<double>(
      std::chrono::steady_clock::now().time_since_epoch()).count();
}

void quiet(CPLErr, CPLErrorNum, const char* m) {
  if (getenv("PBT_GDAL")) { std::fprintf(stderr, "GDAL: %s\n", m); }
}

Outcome runCase(const Facet& f, Gen& g, std::string* msg) {
  try {
    f.fn(g);
    return PASS;
  } catch (const pbt::Discard&) {
    return DISCARD;
  } catch (const pbt::Failure& e) {
    *msg = e.what();
  } catch (const std::exception& e) {
    *msg = std::string("uncaught exception from the library: ") + e.what();
  } catch (...) {
    *msg = "uncaught non-standard exception";
  }
  return FAIL;
}

std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') { o += "\\n"; }
    else if (c < 0x20 || c >= 0x7f) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;
    } else { o += static_cast<char>(c); }
  }
  return o + "\"";
}

struct CaseFile {
  std::string property, facet, seed, message, notes;
  std::vector<uint64_t> choices;
  // A failure that needs earlier cases in the same process: the facet and
  // the random seed of each, the failing one last.
  std::vector<std::pair<std::string, uint64_t>> history;
};

void writeCase(const std::string& path, const CaseFile& c) {
  std::ofstream o(path);
  o << "property " << c.property << "\nfacet " << c.facet << "\n";
  for (auto&& h : c.history) { o << "run " << h.first << " " << h.second << "\n"; }
  if (c.history.empty()) {
    o << "choices";
    for (auto v : c.choices) { o << ' ' << v; }
    o << "\n";
  }
  auto block = [&](const char* tag, const std::string& s) {
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) { o << "# " << tag << ": " << l << "\n"; }
  };
  block("case", c.notes);
  block("fails", c.message);
}

bool readCase(const std::string& path, CaseFile* c) {
  std::ifstream in(path);
  std::string l;
  bool ok = false;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "property") { s >> c->property; }
    else if (k == "facet") { s >> c->facet; }
    else if (k == "run") {
      std::string f;
      uint64_t v = 0;
      s >> f >> v;
      c->history.emplace_back(f, v);
      ok = true;
    }
    else if (k == "choices") {
      uint64_t v;
      while (s >> v) { c->choices.push_back(v); }
      ok = true;
    }
  }
  return ok;
}

const Facet* findFacet(const Property& p, const std::string& n) {
  for (auto&& f : p.facets) { if (f.name == n) { return &f; } }
  return nullptr;
}

uint64_t caseSeed(uint64_t seed, const std::string& f, uint64_t idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  for (char c : f) { s = (s ^ static_cast<uint64_t>(c)) * 0x100000001B3ULL; }
  uint64_t t = s ^ (idx * 0xD6E8FEB86659FD93ULL + 1);
  pbt::splitmix(t);
  return pbt::splitmix(t);
}

uint64_t hashRec(const std::string& f, const std::vector<uint64_t>& r) {
  uint64_t h = 1469598103934665603ULL;
  for (char c : f) { h = (h ^ static_cast<uint64_t>(c)) * 1099511628211ULL; }
  for (auto v : r) {
    for (int i = 0; i < 8; ++i) {
      h = (h ^ ((v >> (8 * i)) & 255)) * 1099511628211ULL;
    }
  }
  return h;
}

SharedCase* mapShared(const char* path) {
  int fd = -1;
  int flags = MAP_SHARED;
  if (path) {
    fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(SharedCase)) != 0) {
      perror("shared"); _exit(2);
    }
  } else {
    flags |= MAP_ANONYMOUS;
  }
  void* p = mmap(nullptr, sizeof(SharedCase), PROT_READ | PROT_WRITE, flags,
      fd, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return static_cast<SharedCase*>(p);
}

int worker(uint64_t seed, bool thorough, uint64_t k, uint64_t n,
    const std::string& out, double cap) {
  Property& p = pbt::theProperty();
  SharedCase* sh = mapShared((out + ".case").c_str());
  double t0 = now();
  struct Stat {
    uint64_t eval = 0, nontriv = 0, disc = 0, planned = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::pair<std::string, std::string>> samples;
  };
  std::vector<Stat> st(p.facets.size());
  std::string failed_facet, failed_msg;
  uint64_t failed_idx = 0;
  bool failed = false, capped = false;
  // Facets are interleaved, so that a time cap cuts all of them alike.
  std::vector<uint64_t> tot;
  uint64_t maxt = 0;
  for (auto&& f : p.facets) {
    tot.push_back(thorough ? f.thorough : f.quick);
    maxt = std::max(maxt, tot.back());
  }
  const uint64_t rounds = 64;
  for (uint64_t r = 0; r < rounds && !failed && !capped; ++r) {
    for (size_t fi = 0; fi < p.facets.size() && !failed && !capped; ++fi) {
      const Facet& f = p.facets[fi];
      uint64_t a = tot[fi] * r / rounds, b = tot[fi] * (r + 1) / rounds;
      for (uint64_t i = a; i < b; ++i) {
        if (i % n != k) { continue; }
        ++st[fi].planned;
        if (now() - t0 > cap) { capped = true; break; }
        Gen g;
        g.rng = caseSeed(seed, f.name, i);
        g.shared = sh;
        sh->facet = static_cast<uint32_t>(fi);
        sh->index = i;
        sh->n = 0;
        sh->state = 1;
        bool sampled = st[fi].samples.size() < 2 || (i % 997 == 3);
        g.keep_notes = sampled && st[fi].samples.size() < 3;
        std::string msg;
        alarm(kCaseLimit);
        Outcome o = runCase(f, g, &msg);
        alarm(0);
        sh->state = o;
        if (o == DISCARD) { ++st[fi].disc; continue; }
        ++st[fi].eval;
        if (o == FAIL) {
          failed = true;
          failed_facet = f.name;
          failed_msg = msg;
          failed_idx = i;
          strncpy(sh->message, msg.c_str(), sizeof(sh->message) - 1);
          break;
        }
        for (auto&& l : g.labels) { ++st[fi].labels[l]; }
        if (g.is_nontrivial) {
          ++st[fi].nontriv;
          st[fi].distinct.insert(hashRec(f.name, g.rec));
          if (g.keep_notes) {
            st[fi].samples.emplace_back(g.notes.substr(0, 1500), "");
          }
        }
      }
    }
  }
  std::ofstream o(out + ".json");
  o << "{\"failed\":" << (failed ? "true" : "false")
    << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"facet\":" << jsonStr(failed_facet)
    << ",\"index\":" << failed_idx
    << ",\"message\":" << jsonStr(failed_msg) << ",\"facets\":[";
  for (size_t i = 0; i < st.size(); ++i) {
    if (i) { o << ","; }
    o << "{\"name\":" << jsonStr(p.facets[i].name) << ",\"evaluations\":"
      << st[i].eval << ",\"nontrivial\":" << st[i].nontriv
      << ",\"discarded\":" << st[i].disc << ",\"labels\":{";
    bool first = true;
    for (auto&& l : st[i].labels) {
      if (!first) { o << ","; }
      first = false;
      o << jsonStr(l.first) << ":" << l.second;
    }
    o << "},\"samples\":[";
    for (size_t j = 0; j < st[i].samples.size(); ++j) {
      if (j) { o << ","; }
      o << jsonStr(st[i].samples[j].first);
    }
    o << "]}";
  }
  o << "]}\n";
  o.close();
  std::ofstream h(out + ".hashes", std::ios::binary);
  for (auto&& s : st) {
    for (uint64_t v : s.distinct) {
      h.write(reinterpret_cast<const char*>(&v), sizeof v);
    }
  }
  h.close();
  _exit(failed ? 1 : 0);
}

// Runs one candidate in a forked child. Returns true if it fails.
struct Tried { bool fails; std::vector<uint64_t> rec; std::string msg; };

Tried tryCase(const Facet& f, const std::vector<uint64_t>& choices,
    SharedCase* sh, bool show) {
  sh->n = 0;
  sh->state = 1;
  sh->message[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    if (!show) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
    }
    Gen g;
    g.mode = Gen::Mode::Replay;
    g.input = choices;
    g.shared = sh;
    std::string msg;
    alarm(kCaseLimit);
    Outcome o = runCase(f, g, &msg);
    alarm(0);
    strncpy(sh->message, msg.c_str(), sizeof(sh->message) - 1);
    sh->state = o;
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Tried t;
  t.rec.assign(sh->choices, sh->choices + std::min<uint64_t>(sh->n, 1u << 16));
  if (WIFSIGNALED(status)) {
    t.fails = true;
    t.msg = WTERMSIG(status) == SIGALRM
      ? std::string("the call did not return within the case limit")
      : std::string("the process was ended by signal ") +
        std::to_string(WTERMSIG(status)) +
        " (crash, or a sanitizer / library assertion report)";
  } else if (WEXITSTATUS(status) != 0) {
    t.fails = true;
    t.msg = "the process exited with status " +
      std::to_string(WEXITSTATUS(status)) + " (sanitizer report)";
  } else {
    t.fails = sh->state == FAIL;
    t.msg = sh->message;
  }
  return t;
}

int shrink(const std::string& in, const std::string& out, double budget) {
  CaseFile c;
  if (!readCase(in, &c)) { return 2; }
  Property& p = pbt::theProperty();
  const Facet* f = findFacet(p, c.facet);
  if (!f) { return 2; }
  SharedCase* sh = mapShared(nullptr);
  double t0 = now();
  Tried best = tryCase(*f, c.choices, sh, false);
  if (!best.fails) { return 3; }
  auto shorter = [](const std::vector<uint64_t>& a,
                    const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) { return a.size() < b.size(); }
    return a < b;
  };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now() - t0 > budget) { return false; }
    Tried t = tryCase(*f, cand, sh, false);
    if (t.fails && shorter(t.rec, best.rec)) { best = t; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.rec.size() / 2); len >= 1;
        len /= 2) {
      for (size_t i = 0; i + len <= best.rec.size() &&
          now() - t0 < budget;) {
        auto cand = best.rec;
        cand.erase(cand.begin() + static_cast<long>(i),
            cand.begin() + static_cast<long>(i + len));
        if (attempt(cand)) { progress = true; continue; }
        cand = best.rec;
        bool any = false;
        for (size_t j = i; j < i + len; ++j) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if (any && attempt(cand)) { progress = true; }
        i += len;
      }
      if (len == 1) { break; }
    }
    for (size_t i = 0; i < best.rec.size() && now() - t0 < budget; ++i) {
      uint64_t lo = 0, hi = best.rec[i];
      while (lo < hi && now() - t0 < budget) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best.rec;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          if (i >= best.rec.size()) { break; }
          hi = best.rec[i];
        } else {
          lo = mid + 1;
        }
      }
      // delete a choice and lower the one before it (list lengths)
      if (i + 1 < best.rec.size() && best.rec[i] > 0) {
        auto cand = best.rec;
        --cand[i];
        cand.erase(cand.begin() + static_cast<long>(i + 1));
        if (attempt(cand)) { progress = true; }
      }
    }
  }
  c.choices = best.rec;
  c.message = best.msg;
  c.property = p.id;
  // Re-run once more for the description; a crash leaves it shorter.
  int fds[2];
  if (pipe(fds) == 0) {
    pid_t pid = fork();
    if (pid == 0) {
      close(fds[0]);
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      Gen g;
      g.mode = Gen::Mode::Replay;
      g.input = c.choices;
      g.keep_notes = true;
      std::string msg;
      alarm(kCaseLimit);
      g.note_fd = fds[1];
      runCase(*f, g, &msg);
      _exit(0);
    }
    close(fds[1]);
    char buf[4096];
    ssize_t r;
    while ((r = read(fds[0], buf, sizeof buf)) > 0) {
      c.notes.append(buf, static_cast<size_t>(r));
    }
    close(fds[0]);
    int status;
    waitpid(pid, &status, 0);
  }
  writeCase(out, c);
  std::cout << c.message << std::endl;
  return 0;
}

// Turns a libFuzzer artifact (bytes) into a case file.
int decode(const std::string& in, const std::string& out) {
  std::ifstream s(in, std::ios::binary);
  std::string d((std::istreambuf_iterator<char>(s)),
      std::istreambuf_iterator<char>());
  if (d.empty()) { return 2; }
  Property& p = pbt::theProperty();
  const Facet& f = p.facets[static_cast<uint8_t>(d[0]) % p.facets.size()];
  SharedCase* sh = mapShared(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    Gen g;
    g.mode = Gen::Mode::Bytes;
    g.bytes = reinterpret_cast<const uint8_t*>(d.data()) + 1;
    g.nbytes = d.size() - 1;
    g.shared = sh;
    std::string msg;
    alarm(kCaseLimit);
    runCase(f, g, &msg);
    _exit(0);
  }
  int status;
  waitpid(pid, &status, 0);
  CaseFile c;
  c.property = p.id;
  c.facet = f.name;
  c.choices.assign(sh->choices,
      sh->choices + std::min<uint64_t>(sh->n, 1u << 16));
  writeCase(out, c);
  return 0;
}

// Runs cases one after another in one process; true if the last one fails.
typedef std::vector<std::pair<std::string, uint64_t>> History;
Outcome runHistory(const History& h, SharedCase* sh, std::string* msg,
    std::string* notes) {
  Property& p = pbt::theProperty();
  Outcome o = DISCARD;
  for (size_t i = 0; i < h.size(); ++i) {
    const Facet* f = findFacet(p, h[i].first);
    if (!f) { return DISCARD; }
    if (sh) { sh->index = i + 1; }
    Gen g;
    g.rng = h[i].second;
    g.keep_notes = notes != nullptr && i + 1 == h.size();
    msg->clear();
    alarm(kCaseLimit);
    o = runCase(*f, g, msg);
    alarm(0);
    if (g.keep_notes) { *notes = g.notes; }
  }
  return o;
}
bool tryHistory(const History& h, SharedCase* sh, std::string* msg) {
  sh->index = 0;
  sh->state = 0;
  sh->message[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    dup2(fd, 1);
    std::string m;
    const Outcome o = runHistory(h, sh, &m, nullptr);
    strncpy(sh->message, m.c_str(), sizeof(sh->message) - 1);
    sh->state = o;
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (sh->index != h.size()) { return false; }
  if (WIFSIGNALED(status) || WEXITSTATUS(status) != 0) {
    *msg = "the process was ended (crash or sanitizer report)";
    return true;
  }
  *msg = sh->message;
  return sh->state == FAIL;
}

// A failure that did not show alone: looks for the cases before it that it
// needs (the same order as in `worker`).
int history(uint64_t seed, bool thorough, uint64_t k, uint64_t n, size_t facet,
    uint64_t index, const std::string& out, double budget) {
  Property& p = pbt::theProperty();
  const double t0 = now();
  const uint64_t rounds = 64;
  History all;
  bool done = false;
  for (uint64_t r = 0; r < rounds && !done; ++r) {
    for (size_t fi = 0; fi < p.facets.size() && !done; ++fi) {
      const Facet& f = p.facets[fi];
      const uint64_t tot = thorough ? f.thorough : f.quick;
      for (uint64_t i = tot * r / rounds; i < tot * (r + 1) / rounds; ++i) {
        if (i % n != k) { continue; }
        all.emplace_back(f.name, caseSeed(seed, f.name, i));
        if (fi == facet && i == index) { done = true; break; }
      }
    }
  }
  if (!done) { return 3; }
  SharedCase* sh = mapShared(nullptr);
  std::string msg, m;
  History best;
  for (size_t len = 2; best.empty(); len *= 2) {
    const bool whole = len >= all.size();
    History h(whole ? all.begin() : all.end() - static_cast<long>(len), all.end());
    if (tryHistory(h, sh, &m)) { best = h; msg = m; }
    if (whole) { break; }
  }
  if (best.empty()) { return 3; }
  for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
    for (size_t i = 0; i + 1 < best.size() && now() - t0 < budget;) {
      History h = best;
      const size_t e = std::min(i + len, h.size() - 1);
      h.erase(h.begin() + static_cast<long>(i), h.begin() + static_cast<long>(e));
      if (tryHistory(h, sh, &m)) { best = h; msg = m; } else { i += len; }
    }
    if (len == 1) { break; }
  }
  CaseFile c;
  c.property = p.id;
  c.facet = best.back().first;
  c.history = best;
  c.message = msg + " (after the cases listed before it, in one process)";
  writeCase(out, c);
  return 0;
}

int replay(const std::string& in) {
  CaseFile c;
  if (!readCase(in, &c)) { std::cerr << "cannot read " << in << "\n"; return 2; }
  Property& p = pbt::theProperty();
  const Facet* f = findFacet(p, c.facet);
  if (!f) { std::cerr << "no facet " << c.facet << "\n"; return 2; }
  Gen g;
  g.mode = Gen::Mode::Replay;
  g.input = c.choices;
  g.keep_notes = true;
  std::string msg;
  Outcome o;
  if (!c.history.empty()) {
    o = runHistory(c.history, nullptr, &msg, &g.notes);
  } else {
    alarm(kCaseLimit);
    o = runCase(*f, g, &msg);
    alarm(0);
  }
  std::cout << g.notes;
  std::cout << (o == FAIL ? "FAILS: " + msg :
      o == PASS ? std::string("passes") : std::string("discarded"))
      << std::endl;
  _exit(o == FAIL ? 1 : 0);
}

}  // namespace

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv) {
  CPLSetErrorHandler(quiet);
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "worker" && argc == 8) {
    return worker(strtoull(argv[2], nullptr, 10),
        std::string(argv[3]) == "thorough", strtoull(argv[4], nullptr, 10),
        strtoull(argv[5], nullptr, 10), argv[6], atof(argv[7]));
  }
  if (cmd == "history" && argc == 10) {
    return history(strtoull(argv[2], nullptr, 10),
        std::string(argv[3]) == "thorough", strtoull(argv[4], nullptr, 10),
        strtoull(argv[5], nullptr, 10), strtoull(argv[6], nullptr, 10),
        strtoull(argv[7], nullptr, 10), argv[8], atof(argv[9]));
  }
  if (cmd == "shrink" && argc == 5) {
    return shrink(argv[2], argv[3], atof(argv[4]));
  }
  if (cmd == "replay" && argc == 3) { return replay(argv[2]); }
  if (cmd == "decode" && argc == 4) { return decode(argv[2], argv[3]); }
  if (cmd == "info") {
    Property& p = pbt::theProperty();
    std::cout << "{\"id\":" << jsonStr(p.id) << ",\"rule\":"
      << jsonStr(p.rule) << ",\"facets\":[";
    for (size_t i = 0; i < p.facets.size(); ++i) {
      std::cout << (i ? "," : "") << jsonStr(p.facets[i].name);
    }
    std::cout << "]}" << std::endl;
    return 0;
  }
  std::cerr << "usage: worker|shrink|replay|info\n";
  return 2;
}
#else
// Coverage-guided driver: byte 0 picks the facet, the rest are choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static bool init = (CPLSetErrorHandler(quiet), true);
  static uint64_t evals = 0, nontriv = 0;
  static const char* out = getenv("PBT_FUZZ_OUT");
  (void)init;
  if (size < 1) { return 0; }
  Property& p = pbt::theProperty();
  const Facet& f = p.facets[data[0] % p.facets.size()];
  if (f.thorough == 0) { return 0; }   // only there for replays
  Gen g;
  g.mode = Gen::Mode::Bytes;
  g.bytes = data + 1;
  g.nbytes = size - 1;
  std::string msg;
  Outcome o = runCase(f, g, &msg);
  ++evals;
  nontriv += g.is_nontrivial;
  if (out && (evals % 256 == 0 || o == FAIL)) {
    std::ofstream s(std::string(out) + ".stat");
    s << evals << " " << nontriv << "\n";
  }
  if (o == FAIL) {
    if (out) {
      CaseFile c;
      c.property = p.id;
      c.facet = f.name;
      c.choices = g.rec;
      c.message = msg;
      writeCase(std::string(out) + ".case", c);
    }
    __builtin_trap();
  }
  return 0;
}
#endif
