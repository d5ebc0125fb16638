// Reference model: every operator as a function from whole input streams to whole output streams.
// It shares no code and no style with the engine: nothing is pushed or buffered. Each message carries the step
// (the number of the input message) at which it has to appear, and a bound on the rounding error its value may have.
#pragma once
#include <climits>

#include "desc.h"

namespace mon {

struct Tok {
  u64 t;
  double v;
  double err;  // 0: the value is exact
  int step;
};

struct Stream {
  vector<Tok> m;
  int unsure = INT_MAX;  // from this step on the model makes no statement (a decision too close to call)
};

struct Model {
  map<string, map<string, Stream>> out;  // operator -> port -> stream, of the outer program
  int errorFrom = INT_MAX;               // from this step on the engine may report an error (demultiplexer)
  int mustError = INT_MAX;               // at this step it has to
  u64 awaiting = 0;                      // messages that synchronising operators, also nested ones, may still need at the end
};

// the streams of every operator when the entry receives the arrivals, the k-th of them at step k
Model evaluate(const Prog& p, const vector<Arrival>& a);
// one operator alone
map<string, Stream> evalOp(const Op& o, const map<string, Stream>& in, Model& whole);

// the messages to be reported at each step
struct Expect {
  map<string, map<string, vector<Tok>>> m;
};
bool closeTo(const Tok& want, const Msg& got);

// Compares what the engine reported at each step with the model.
class Follower {
  const Model& model;
  struct Pos { size_t next = 0; };
  map<string, map<string, Pos>> pos;

 public:
  u64 compared = 0, skipped = 0;
  explicit Follower(const Model& m) : model(m) {}
  // empty if the report of the steps up to and including `step` agrees, otherwise the difference
  string follow(int step, const Out& got);
};
string show(const Tok& t);

}  // namespace mon
