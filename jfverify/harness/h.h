#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sstream>
#include <string>
#include <vector>
// A harness provides: std::string Gen(Rng&), bool Run(const std::string&, std::string* msg).
struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return next() % n; }
  bool one_in(uint64_t n) { return below(n) == 0; }
};
std::string Gen(Rng& r, long n);
bool Run(const std::string& c, std::string* msg);
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc == 3 && !strcmp(argv[1], "case")) {
    std::string msg;
    bool ok = Run(argv[2], &msg);
    printf("%s %s :: %s\n", ok ? "OK" : "FAIL", argv[2], msg.c_str());
    return ok ? 0 : 1;
  }
  if (argc == 4 && !strcmp(argv[1], "run")) {
    Rng r{strtoull(argv[2], nullptr, 10)};
    double secs = atof(argv[3]);
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long n = 0;
    for (;; ++n) {
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (n >= 200 && (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
      std::string c = Gen(r, n), msg;
      printf("CASE %s\n", c.c_str());
      if (!Run(c, &msg)) {
        printf("FAIL %s :: %s\n", c.c_str(), msg.c_str());
        return 1;
      }
    }
    printf("DONE %ld\n", n);
    return 0;
  }
  fprintf(stderr, "usage: run SEED SECS | case TEXT\n");
  return 2;
}
