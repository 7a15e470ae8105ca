#include "drv.h"
#include "util/posix_logger.h"
#include <thread>
using namespace lsmdb; using namespace drv;
static std::string g_file; static int g_closed, g_writes;
static ssize_t cwrite(void*, const char* b, size_t n) { g_file.append(b, n); g_writes++; return n; }
static int cclose(void*) { g_closed++; return 0; }
static FILE* mk() { cookie_io_functions_t f; memset(&f, 0, sizeof f); f.write = cwrite; f.close = cclose; FILE* fp = fopencookie(nullptr, "w", f); static char big[1 << 20]; setvbuf(fp, big, _IOFBF, sizeof big); return fp; }
static size_t header(const std::string& s) {
  int y, mo, d, h, mi, se, us, n = -1;
  if (sscanf(s.c_str(), "%4d/%2d/%2d-%2d:%2d:%2d.%6d %n", &y, &mo, &d, &h, &mi, &se, &us, &n) != 7 || n != 27) return 0;
  size_t sp = s.find(' ', 27); if (sp == std::string::npos || sp == 27) return 0;
  return sp + 1;
}
static void one(Logger* l, const std::string& msg, int how) {
  g_runs++; g_file.clear(); g_writes = 0; char t[80]; snprintf(t, 80, "message of %zu bytes, kind %d, last byte %d", msg.size(), how, msg.empty() ? -1 : (unsigned char)msg.back()); g_input = t;
  std::string want = msg;
  if (how == 0) Log(l, "%s", msg.c_str());
  else if (how == 1) { Log(l, "%s%d|%s", msg.c_str(), 42, msg.c_str()); want = msg + "42|" + msg; }
  else { std::string f; for (char c : msg) { f += c; if (c == '%') f += '%'; } Log(l, f.c_str()); }
  size_t h = header(g_file); CHECK(h > 0, "the line starts with the complete header");
  if (want.empty() || want.back() != '\n') want += '\n';
  CHECK(g_file.size() == h + want.size(), "nothing truncated, exactly one newline added when missing");
  CHECK(g_file.compare(h, std::string::npos, want) == 0, "the message is complete");
  CHECK(g_writes == 1, "one write per call");
}
int main(int c, char** v) {
  init(c, v); Log(nullptr, "x %d", 3);
  do {
    g_closed = 0; Logger* l = new PosixLogger(mk());
    auto body = [&] {
      for (size_t n = 0; n < 1200; n++) {
        std::string m(n, 'a'); for (auto& ch : m) ch = "abc %xyz"[rnd(8)];
        if (n && rnd(3) == 0) m[n - 1] = '\n'; if (n && rnd(4) == 0) m[rnd(n)] = '\n'; if (n && rnd(4) == 0) m[rnd(n)] = (char)(128 + rnd(128));
        one(l, m, rnd(3));
      }
      for (size_t n : {4000, 8191, 65536, 300000}) for (int k = -2; k <= 2; k++) { std::string m(n + k, 'q'); if (rnd(2)) m.back() = '\n'; one(l, m, 0); }
    };
    body(); std::thread th(body); th.join();
    CHECK(g_closed == 0, "not closed while in use"); g_file.clear(); delete l; CHECK(g_closed == 1, "closed exactly once"); CHECK(g_file.empty(), "nothing written on close");
  } while (more());
  done(); return 0;
}
