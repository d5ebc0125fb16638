// One program, one run, every report compared with the reference model.
#pragma once
#include "engine.h"
#include "model.h"

namespace mon {

struct Watched {
  u64 reported = 0, compared = 0, skipped = 0;
  int endedBy = -1;          // the arrival at which a legitimate error ended the run
  set<string> active;        // types that produced output
  Out total;
};
// feeds the arrivals one per call through the debug interface; every difference is a violation
Watched watch(Ctx& c, const Prog& p, const vector<Arrival>& a);
// a program in which an entry Input with the given number of ports feeds all ports of one operator
Prog around(const Op& o, bool asEntry);

}  // namespace mon
