// Runs the cases of one shard of a property and reports, line by line, on the file given:
//   case N | violation KEY\tCASE\tDETAIL | count NAME N | distinct HASH | sample TEXT | done
#include <sys/resource.h>
#include <unistd.h>

#include <cstdlib>
#include <chrono>
#include <new>

#include "base.h"

using namespace mon;

static string oneLine(string s) {
  string r;
  for (char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += ' ';
    else if ((unsigned char)c < 32) r += '?';
    else r += c;
  }
  return r;
}

int main(int argc, char** argv) {
  u64 seed = 1, shard = 0, shards = 1;
  i64 only = -1, from = 0;
  double scale = 1;
  bool thorough = false;
  string path = "/dev/stdout";
  for (int i = 1; i + 1 < argc; i += 2) {
    string k = argv[i], v = argv[i + 1];
    if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--shard") shard = strtoull(v.c_str(), 0, 10);
    else if (k == "--shards") shards = strtoull(v.c_str(), 0, 10);
    else if (k == "--case") only = atoll(v.c_str());
    else if (k == "--from") from = atoll(v.c_str());
    else if (k == "--tier") thorough = v == "thorough";
    else if (k == "--scale") scale = atof(v.c_str());
    else if (k == "--report") path = v;
    else if (k == "--rule") { printf("%s\n", property().rule.c_str()); return 0; }
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 9; }
  }
  FILE* f = fopen(path.c_str(), "a");
  if (!f) return 9;
  // the engine prints to stdout when it refuses something
  if (path != "/dev/stdout") { FILE* d = freopen("/dev/null", "w", stdout); (void)d; }
  Prop p = property();
  u64 cases = (u64)((thorough ? p.thorough : p.quick) * scale);
  if (only >= 0) { shard = 0; shards = 1; from = only; cases = only + 1; }
  map<string, u64> counters;
  set<u64> distinct;
  vector<string> samples;
  u64 ran = 0;
  int violations = 0;
  double slowest = 0; u64 slowCase = 0;
  for (u64 n = 0; n < cases; n++) {
    if (n % shards != shard || n < (u64)from) continue;
    fprintf(f, "case %llu\n", (unsigned long long)n);
    fflush(f);
    auto began = std::chrono::steady_clock::now();
    Ctx c;
    c.caseNo = n;
    c.seed = seed;
    c.thorough = thorough;
    c.rng = Rng(mix(mix(seed, hashOf(p.id)), n));
    c.alive = [f] {
      fprintf(f, "alive\n");
      fflush(f);
    };
    c.counters.swap(counters);
    c.distinct.swap(distinct);
    c.samples.swap(samples);
    try {
      p.run(c);
    } catch (const Violated& v) {
      fprintf(f, "violation %s\t%llu\t%s || %s\n", oneLine(v.key).c_str(), (unsigned long long)n, oneLine(v.detail).substr(0, 3000).c_str(), oneLine(c.about).substr(0, 6000).c_str());
      fflush(f);
      violations++;
    } catch (const std::bad_alloc&) {
      fprintf(f, "violation out of memory\t%llu\tan operation asks for more memory than there is || %s\n", (unsigned long long)n, oneLine(c.about).substr(0, 6000).c_str());
      fflush(f);
      violations++;
    } catch (const std::exception& e) {
      if (oneLine(e.what()).rfind("monitor: ", 0) != 0) {
        // what the property speaks of is well-formed: the engine must not refuse it
        fprintf(f, "violation refused\t%llu\tthe engine throws %s || %s\n", (unsigned long long)n, oneLine(e.what()).substr(0, 3000).c_str(), oneLine(c.about).substr(0, 6000).c_str());
        fflush(f);
        violations++;
        c.counters.swap(counters);
        c.distinct.swap(distinct);
        c.samples.swap(samples);
        if (violations >= 5) break;
        continue;
      }
      // the monitor itself failed
      fprintf(f, "broken %llu\t%s || %s\n", (unsigned long long)n, oneLine(e.what()).c_str(), oneLine(c.about).substr(0, 3000).c_str());
      fflush(f);
      return 8;
    }
    c.counters.swap(counters);
    c.distinct.swap(distinct);
    c.samples.swap(samples);
    double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count();
    if (took > slowest) slowest = took, slowCase = n;
    ran++;
    if (violations >= 5) break;
  }
  for (auto& [k, v] : counters) fprintf(f, "count %s %llu\n", k.c_str(), (unsigned long long)v);
  for (u64 h : distinct) fprintf(f, "distinct %016llx\n", (unsigned long long)h);
  for (auto& s : samples) fprintf(f, "sample %s\n", oneLine(s).c_str());
  fprintf(f, "slowest %llu %.3f\n", (unsigned long long)slowCase, slowest);
  fprintf(f, "ran %llu\ndone\n", (unsigned long long)ran);
  fclose(f);
  return 0;
}
