// Runs the real download code (src/dnl) against a simulated libcurl: the order and grouping of the
// answers, their bytes, and the progress of the writer follow a scenario. One command per line:
//   seed testing ntlm start limit parallel debug steps outcomes files
//   steps:    "a<f>" answer arrives, "h" the requests thread is called, "w<f>" the writer begins f,
//             "e<f>" ends it, "x<f>" fails in it, "t" the requests thread has given up; separated by ","
//   outcomes (attempt 0: of all others): "f.attempt.curlcode.httpcode.hexbody" separated by "," (anything else: see files)
//   files:    "f.lines.hexbody" separated by ","
// The answer is the list of events, in the order in which they happened.
#include "dnl/queuemgt.hpp"
#include "dnl/shared.hpp"
#include "drv.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstring>
#include <curl/curl.h>
#include <dlfcn.h>
#include <pthread.h>
#include <deque>
#include <map>
#include <mutex>
#include <poll.h>
#include <random>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

namespace hibp::dnl {
thread_logger logger;
cli_config_t  cli;
} // namespace hibp::dnl

namespace sim {

struct outcome {
  int         curl = 0;
  long        http = 200;
  std::string body;
};
struct file {
  int         lines = 0;
  std::string body;
};
struct step {
  char kind;
  long f;
};

std::map<std::pair<long, int>, outcome> outcomes;
std::map<long, file>                    files;
std::vector<step>                       steps;

std::mutex              mx;
std::condition_variable cv;
std::set<long>          failing;      // files which cannot be written
std::size_t             pos  = 0;     // next step
bool                    free_run = false;
// events: "a|url", "g|f|good", "l|text"
std::mutex              evmx;

int         evfd = -1;
std::size_t evbytes = 0;
void event(const std::string& e) {
  std::lock_guard lk(evmx);
  if (evbytes > 4000000) return; // an endless story
  std::string b = e + '\x1e';
  evbytes += b.size();
  const char* d = b.data();
  std::size_t n = b.size();
  while (n > 0) {
    auto k = write(evfd, d, n);
    if (k <= 0) break;
    d += k;
    n -= static_cast<std::size_t>(k);
  }
}

} // namespace sim

// ------------------------------------------------------------------------------------------- noise
// The threads are delayed wherever they synchronise, so that one may overtake the other there.
namespace sim {
unsigned                      noise = 0; // of 16 times
thread_local std::minstd_rand nrnd;
thread_local bool             seeded = false;
std::atomic<unsigned>         nseed{1};
void                          pause() {
  if (!noise) return;
  if (!seeded) {
    seeded = true;
    nrnd.seed(nseed++ * 7919);
  }
  if (nrnd() % 16 >= noise) return;
  auto     k = nrnd() % 16;
  timespec t{0, long((k == 0 ? 1500 : k < 4 ? 300 : 40) * 1000)};
  nanosleep(&t, nullptr);
}
template <class F> F real(F& f, const char* name, const char* version = nullptr) {
  if (!f) f = reinterpret_cast<F>(version ? dlvsym(RTLD_NEXT, name, version) : dlsym(RTLD_NEXT, name));
  return f;
}
int (*r_lock)(pthread_mutex_t*);
int (*r_unlock)(pthread_mutex_t*);
int (*r_wait)(pthread_cond_t*, pthread_mutex_t*);
int (*r_signal)(pthread_cond_t*);
int (*r_broadcast)(pthread_cond_t*);
bool mine(pthread_mutex_t* m) { return m == mx.native_handle() || m == evmx.native_handle(); }
} // namespace sim
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim::mine(m)) sim::pause();
  return sim::real(sim::r_lock, "pthread_mutex_lock")(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = sim::real(sim::r_unlock, "pthread_mutex_unlock")(m);
  if (!sim::mine(m)) sim::pause();
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!sim::mine(m)) sim::pause();
  return sim::real(sim::r_wait, "pthread_cond_wait", "GLIBC_2.3.2")(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (c != sim::cv.native_handle()) sim::pause();
  return sim::real(sim::r_signal, "pthread_cond_signal", "GLIBC_2.3.2")(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (c != sim::cv.native_handle()) sim::pause();
  return sim::real(sim::r_broadcast, "pthread_cond_broadcast", "GLIBC_2.3.2")(c);
}
}

// ------------------------------------------------------------------------------- simulated libcurl
struct Curl_easy_sim {
  std::string         url;
  curl_write_callback wf      = nullptr;
  void*               wd      = nullptr;
  void*               priv    = nullptr;
  long                code    = 0;
  long                f       = -1;
  bool                added   = false;
  std::size_t         given   = 0; // bytes delivered so far
  CURLMsg             msg{};
};
struct Curl_multi_sim {
  curl_socket_callback      sockf  = nullptr;
  void*                     sockd  = nullptr;
  curl_multi_timer_callback timf   = nullptr;
  void*                     timd   = nullptr;
  std::deque<Curl_easy_sim*> done;
  std::vector<Curl_easy_sim*> fly;
  int                       fd[2] = {-1, -1};
  bool                      reg   = false;
  void*                     sockp = nullptr;
};
namespace sim {
std::map<long, int>         tries;
std::mt19937                rnd;
Curl_multi_sim*             the_multi = nullptr;
std::thread                 controller;
std::vector<long>           arrivals; // to be delivered at the next call (mx)
std::atomic<bool>           over{false};
std::atomic<long>           calls{0};
std::atomic<int>            inflight{0};
std::atomic<bool>           requests_gone{false};
struct leaving { // one in the requests thread: destroyed when that ends
  bool on = false;
  ~leaving() {
    if (on) requests_gone = true;
  }
};
thread_local leaving in_requests;

outcome what(long f, int attempt) {
  if (auto i = outcomes.find({f, attempt}); i != outcomes.end()) return i->second;
  if (auto i = outcomes.find({f, 0}); i != outcomes.end()) return i->second; // always
  outcome o;
  if (auto i = files.find(f); i != files.end()) o.body = i->second.body;
  return o;
}
bool give(Curl_easy_sim* e, const std::string& body, std::size_t upto) {
  while (e->given < upto) {
    std::size_t n = std::min<std::size_t>(upto - e->given, rnd() % 3 ? 16384 : 1 + rnd() % 40);
    std::string chunk = body.substr(e->given, n);
    if (e->wf(chunk.data(), 1, n, e->wd) != n) return false;
    e->given += n;
  }
  return true;
}
void arrive(Curl_multi_sim* m, Curl_easy_sim* e) {
  auto o   = what(e->f, tries[e->f]);
  bool ok  = give(e, o.body, o.body.size());
  e->code  = o.http;
  auto it  = std::find(m->fly.begin(), m->fly.end(), e);
  m->fly.erase(it);
  inflight = static_cast<int>(m->fly.size());
  e->msg.msg         = CURLMSG_DONE;
  e->msg.easy_handle = reinterpret_cast<CURL*>(e);
  e->msg.data.result = ok ? static_cast<CURLcode>(o.curl) : CURLE_WRITE_ERROR;
  m->done.push_back(e);
  event("g|" + std::to_string(e->f) + "|" + (o.curl == 0 && o.http == 200 ? "1" : "0"));
}
// called in the requests thread: let arrive what the scenario says
void deliver(Curl_multi_sim* m) {
  std::vector<long> now;
  bool              fr;
  {
    std::lock_guard lk(mx);
    now.swap(arrivals);
    fr = free_run;
  }
  for (long f: now) {
    auto it = std::find_if(m->fly.begin(), m->fly.end(), [&](auto* e) { return e->f == f; });
    if (it != m->fly.end()) {
      arrive(m, *it);
    } else {
      std::lock_guard lk(mx);
      free_run = true;
    }
  }
  if (fr && now.empty()) {
    std::size_t k = m->fly.empty() ? 0 : 1 + rnd() % std::min<std::size_t>(m->fly.size(), rnd() % 2 ? 2 : 40);
    for (; k > 0; k--) arrive(m, m->fly[rnd() % m->fly.size()]);
  }
  // parts of other bodies
  if (!m->fly.empty() && rnd() % 2) {
    auto* e = m->fly[rnd() % m->fly.size()];
    auto  o = what(e->f, tries[e->f]);
    if (o.curl != CURLE_COULDNT_CONNECT) give(e, o.body, e->given + (o.body.size() - e->given) / 2);
  }
}
void poke() {
  if (the_multi && the_multi->fd[1] >= 0) (void)!::write(the_multi->fd[1], "x", 1);
}
void run_controller() {
  long last_calls = -1;
  while (!over) {
    std::unique_lock lk(mx);
    if (free_run || pos >= steps.size()) {
      free_run = true;
      cv.notify_all();
      lk.unlock();
      // the next call only when the one before was taken
      if (calls != last_calls || rnd() % 50 == 0) {
        last_calls = calls;
        poke();
      }
      std::this_thread::sleep_for(std::chrono::microseconds(calls % 3 ? 20 : 200));
      continue;
    }
    const step s = steps[pos];
    if (s.kind == 'a') {
      arrivals.push_back(s.f);
      pos++;
      cv.notify_all();
    } else if (s.kind == 'h') {
      const long before = calls;
      lk.unlock();
      poke();
      auto t0 = std::chrono::steady_clock::now();
      while (calls == before && !over && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(700))
        std::this_thread::sleep_for(std::chrono::microseconds(20));
      lk.lock();
      if (calls == before) free_run = true;
      pos++;
      cv.notify_all();
    } else if (s.kind == 't') {
      lk.unlock();
      auto t0 = std::chrono::steady_clock::now();
      while (!requests_gone && !over && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(700))
        std::this_thread::sleep_for(std::chrono::microseconds(20));
      lk.lock();
      if (!requests_gone) free_run = true;
      pos++;
      cv.notify_all();
    } else { // a step of the writer
      if (!cv.wait_for(lk, std::chrono::milliseconds(700), [&] { return over || free_run || pos >= steps.size() || (strchr("aht", steps[pos].kind)); })) {
        free_run = true;
        cv.notify_all();
      }
    }
  }
}
// the writer waits for its turn; returns false if it has to fail
bool turn(char kind, long f) {
  std::unique_lock lk(mx);
  auto at = [&] { return pos < steps.size() && steps[pos].f == f && (steps[pos].kind == kind || (kind == 'e' && steps[pos].kind == 'x')); };
  cv.wait(lk, [&] { return free_run || at(); });
  if (at()) {
    pos++;
    cv.notify_all();
  }
  return kind != 'e' || !failing.contains(f); // also if the schedule could not be followed
}
} // namespace sim

#define EASY(h) reinterpret_cast<Curl_easy_sim*>(h)
#define MULTI(h) reinterpret_cast<Curl_multi_sim*>(h)
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void     curl_global_cleanup() {}
CURL*    curl_easy_init() { return reinterpret_cast<CURL*>(new Curl_easy_sim); }
void     curl_easy_cleanup(CURL* h) { delete EASY(h); }
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
  va_list ap;
  va_start(ap, o);
  switch (o) {
  case CURLOPT_URL: {
    EASY(h)->url = va_arg(ap, char*);
    auto p       = EASY(h)->url.rfind('/');
    EASY(h)->f   = strtol(EASY(h)->url.c_str() + p + 1, nullptr, 16);
    break;
  }
  case CURLOPT_WRITEFUNCTION: EASY(h)->wf = va_arg(ap, curl_write_callback); break;
  case CURLOPT_WRITEDATA: EASY(h)->wd = va_arg(ap, void*); break;
  case CURLOPT_PRIVATE: EASY(h)->priv = va_arg(ap, void*); break;
  default: break;
  }
  va_end(ap);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  va_list ap;
  va_start(ap, i);
  void* p = va_arg(ap, void*);
  va_end(ap);
  if (i == CURLINFO_PRIVATE) *static_cast<void**>(p) = EASY(h)->priv;
  else if (i == CURLINFO_RESPONSE_CODE) *static_cast<long*>(p) = EASY(h)->code;
  else if (i == CURLINFO_EFFECTIVE_URL) *static_cast<const char**>(p) = EASY(h)->url.c_str();
  else return CURLE_UNKNOWN_OPTION;
  return CURLE_OK;
}
CURLcode    curl_easy_perform(CURL*) { return CURLE_COULDNT_CONNECT; }
const char* curl_easy_strerror(CURLcode) { return "simulated"; }
const char* curl_multi_strerror(CURLMcode) { return "simulated"; }

CURLM* curl_multi_init() {
  auto* m = new Curl_multi_sim;
  (void)!pipe2(m->fd, O_NONBLOCK);
  sim::the_multi  = m;
  sim::controller = std::thread(sim::run_controller);
  return reinterpret_cast<CURLM*>(m);
}
CURLMcode curl_multi_setopt(CURLM* h, CURLMoption o, ...) {
  va_list ap;
  va_start(ap, o);
  switch (o) {
  case CURLMOPT_SOCKETFUNCTION: MULTI(h)->sockf = va_arg(ap, curl_socket_callback); break;
  case CURLMOPT_SOCKETDATA: MULTI(h)->sockd = va_arg(ap, void*); break;
  case CURLMOPT_TIMERFUNCTION: MULTI(h)->timf = va_arg(ap, curl_multi_timer_callback); break;
  case CURLMOPT_TIMERDATA: MULTI(h)->timd = va_arg(ap, void*); break;
  default: break;
  }
  va_end(ap);
  return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* h, CURL* eh) {
  auto *m = MULTI(h);
  auto *e = EASY(eh);
  if (e->added) return CURLM_ADDED_ALREADY;
  e->added = true;
  sim::in_requests.on = true;
  e->given = 0;
  e->code  = 0;
  sim::event("a|" + e->url);
  sim::tries[e->f]++;
  m->fly.push_back(e);
  sim::inflight = static_cast<int>(m->fly.size());
  m->timf(h, sim::rnd() % 2 ? 0 : 1, m->timd);
  return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM* h, CURL* eh) {
  auto* m  = MULTI(h);
  auto* e  = EASY(eh);
  e->added = false;
  m->fly.erase(std::remove(m->fly.begin(), m->fly.end(), e), m->fly.end());
  m->done.erase(std::remove(m->done.begin(), m->done.end(), e), m->done.end());
  memset(&e->msg, 0x5a, sizeof e->msg); // "the data does not survive curl_multi_remove_handle"
  return CURLM_OK;
}
CURLMcode curl_multi_assign(CURLM* h, curl_socket_t, void* p) {
  MULTI(h)->sockp = p;
  return CURLM_OK;
}
CURLMcode curl_multi_socket_action(CURLM* h, curl_socket_t s, int, int* running) {
  auto* m = MULTI(h);
  if (s != CURL_SOCKET_TIMEOUT) {
    char b[64];
    while (read(m->fd[0], b, sizeof b) == sizeof b) {}
  }
  if (!m->reg && !m->fly.empty()) {
    m->reg = true;
    m->sockf(nullptr, m->fd[0], sim::rnd() % 2 ? CURL_POLL_IN : CURL_POLL_IN, m->sockd, m->sockp);
  }
  if (s != CURL_SOCKET_TIMEOUT) {
    sim::deliver(m);
    sim::calls++;
  }
  if (m->reg && m->fly.empty()) {
    m->reg = false;
    m->sockf(nullptr, m->fd[0], CURL_POLL_REMOVE, m->sockd, m->sockp);
    m->sockp = nullptr;
    m->timf(h, -1, m->timd);
  }
  *running = static_cast<int>(m->fly.size());
  return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM* h, int* left) {
  auto* m = MULTI(h);
  if (m->done.empty()) {
    *left = 0;
    return nullptr;
  }
  auto* e = m->done.front();
  m->done.pop_front();
  *left = static_cast<int>(m->done.size());
  return &e->msg;
}
CURLMcode curl_multi_cleanup(CURLM*) { return CURLM_OK; }
}

// ------------------------------------------------------------------------------- a scenario
static int play(const std::vector<std::string>& a) {
  using namespace sim;
  rnd.seed(static_cast<unsigned>(std::stoul(a.at(0))));
  auto& cli        = hibp::dnl::cli;
  cli.testing      = a.at(1) == "1";
  cli.ntlm         = a.at(2) == "1";
  cli.index_limit  = std::stoul(a.at(4));
  cli.parallel_max = std::stoul(a.at(5));
  hibp::dnl::logger.debug = cli.debug = a.at(6) == "1";
  cli.progress     = rnd() % 2 && !cli.debug; // as main does
  for (const auto& s: drv::split(a.at(7), ','))
    if (!s.empty()) steps.push_back({s[0], s.size() > 1 ? std::stol(s.substr(1)) : -1});
  for (const auto& s: drv::split(a.at(8), ','))
    if (!s.empty()) {
      auto p = drv::split(s, '.');
      outcomes[{std::stol(p.at(0)), std::stoi(p.at(1))}] = {std::stoi(p.at(2)), std::stol(p.at(3)), drv::unhex(p.at(4))};
    }
  for (const auto& s: drv::split(a.at(9), ','))
    if (!s.empty()) {
      auto p = drv::split(s, '.');
      files[std::stol(p.at(0))] = {std::stoi(p.at(1)), drv::unhex(p.at(2))};
    }
  free_run = steps.empty();
  for (const auto& s: steps)
    if (s.kind == 'x') failing.insert(s.f);
  auto slow = rnd() % 3;
  const unsigned levels[] = {0, 2, 6, 14};
  noise                   = levels[rnd() % 4];
  nseed                   = static_cast<unsigned>(std::stoul(a.at(0)) | 1U);

  long cur  = -1;
  int  left = 0;
  auto write_fn = [&](const std::string& line) {
    long f = line.size() >= 5 ? strtol(line.substr(0, 5).c_str(), nullptr, 16) : -1;
    if (f != cur || left == 0) {
      cur  = f;
      left = files.contains(f) ? files[f].lines : 1;
      turn('w', f);
    }
    left--;
    if (left == 0 && !turn('e', f)) {
      event("x");
      throw std::runtime_error("simulated write failure");
    }
    if (slow == 0 && rnd() % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
    event("l|" + drv::hex(line.data(), line.size()));
  };
  int rc = 0;
  try {
    hibp::dnl::run(write_fn, std::stoul(a.at(3)), cli.testing);
  } catch (const std::exception&) {
    rc = 1;
  }
  over  = true;
  noise = 0;
  {
    std::lock_guard lk(mx);
    free_run = true;
  }
  cv.notify_all();
  controller.join();
  event("r|" + std::to_string(rc) + "|" + std::to_string(pos) + "|" + std::to_string(steps.size()));
  return 0;
}

int main() {
  int hangs = 0;
  return drv::serve([&](const std::vector<std::string>& a) -> std::string {
    if (hangs >= 2) return "skipped";
    int p[2];
    (void)!pipe(p);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      sim::evfd = p[1];
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 2);
      dup2(nul, 1);
      dup2(nul, 0);
      try {
        play(a);
      } catch (...) {
        sim::event("t");
      }
      _exit(0);
    }
    close(p[1]);
    std::string out;
    auto        t0   = std::chrono::steady_clock::now();
    bool        hang = false;
    for (;;) {
      pollfd pf{p[0], POLLIN, 0};
      auto left = 25000 - std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      if (left <= 0 || poll(&pf, 1, static_cast<int>(left)) == 0) {
        hang = true;
        kill(pid, SIGKILL);
        break;
      }
      char b[65536];
      auto k = read(p[0], b, sizeof b);
      if (k <= 0) break;
      out.append(b, static_cast<std::size_t>(k));
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (hang) {
      hangs++;
      return out + "hang";
    }
    if (WIFSIGNALED(st)) return out + "crash|" + std::to_string(WTERMSIG(st));
    return out;
  });
}
