#include <map>
#include <new>
#include "drv.h"
#include "util/arena.h"
using namespace lsmdb; using namespace drv;
// every block the arena obtains
static std::map<char*, size_t>* blocks; static size_t got, freed, bad;
void* operator new[](size_t n) { char* p = (char*)malloc(n ? n : 1); if (blocks) { (*blocks)[p] = n; got += n + sizeof(char*); } return p; }
void operator delete[](void* p) noexcept { if (p && blocks) { auto i = blocks->find((char*)p); if (i == blocks->end()) bad++; else { blocks->erase(i); freed++; } } free(p); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
struct Reg { unsigned char* p; size_t n; unsigned char v; };
int main(int c, char** v) {
  init(c, v);
  do {
    g_runs++; g_input.clear();
    std::map<char*, size_t> mine; blocks = &mine; got = freed = bad = 0;
    Arena* a = new Arena; CHECK(a->MemoryUsage() == 0, "an empty arena uses nothing");
    std::vector<Reg> regs; size_t total = 0, nblocks = 0; int ops = 1 + (int)rnd(rnd(4) ? 40 : 400); int flavour = (int)rnd(5);
    size_t left = 0;  // what a 4 KiB bump block would have left: used to aim at its edge
    for (int i = 0; i < ops; i++) {
      size_t n; switch (flavour == 4 ? rnd(6) : rnd(7)) {
        case 0: n = 1 + rnd(16); break; case 1: n = 1 + rnd(300); break; case 2: n = 1020 + rnd(10); break;
        case 3: n = 1 + rnd(9000); break; case 4: n = left ? left : 8; if (n > 1024) n = 1000 + rnd(25); break; case 5: n = 4090 + rnd(12); break;
        default: n = left > 8 ? left - rnd(8) : 1 + rnd(8); }
      if (!n) n = 1;
      if (flavour == 3) n = 1 + rnd(24);
      bool al = flavour == 0 ? false : flavour == 1 ? true : rnd(2);
      char b[48]; snprintf(b, 48, "%s(%zu) ", al ? "AllocateAligned" : "Allocate", n); if (g_input.size() < 3000) g_input += b;
      size_t before = mine.size();
      char* p = al ? a->AllocateAligned(n) : a->Allocate(n);
      CHECK(p != nullptr, "non-null"); if (al) CHECK(((uintptr_t)p & 7) == 0, "aligned requests are aligned to 8 bytes");
      auto it = mine.upper_bound(p); CHECK(it != mine.begin(), "inside memory the arena owns"); --it;
      CHECK(p >= it->first && p + n <= it->first + it->second, "inside one block the arena owns");
      if (mine.size() > before && it->second == 4096 && n <= 1024) left = 4096 - n; else if (n <= left) left -= n;
      for (auto& r : regs) CHECK((char*)r.p + r.n <= p || p + n <= (char*)r.p, "overlaps no earlier region");
      Reg r{(unsigned char*)p, n, (unsigned char)rnd()}; memset(p, r.v, n); regs.push_back(r); total += n;
      CHECK(freed == 0 && bad == 0, "nothing is freed before the arena is destroyed");
      CHECK(a->MemoryUsage() == got, "memory usage is the sum over blocks of size plus one pointer"); CHECK(a->MemoryUsage() >= total, "usage covers what was handed out");
    }
    for (auto& r : regs) for (size_t i = 0; i < r.n; i++) if (r.p[i] != r.v) { CHECK(false, "a region keeps its content"); }
    nblocks = mine.size(); delete a;
    CHECK(bad == 0, "only the arena's blocks are freed, each once"); CHECK(mine.empty() && freed == nblocks, "destruction frees every block");
    blocks = nullptr;
  } while (more());
  done();
}
