// Program descriptions: what the monitors send to the engine and what the reference model evaluates.
#pragma once
#include "base.h"

namespace mon {

struct Prog;

struct Op {
  string type, id;
  double value = 0;                      // Add, Scale, Power, Constant, filters, Variable
  vector<double> coeff;                  // FIR, AR, Linear
  vector<pair<double, double>> points;   // Function
  string interp = "linear";              // Function
  u64 n = 0;                             // windows
  u64 ports = 1;                         // Input, Output, Join, Demultiplexer
  u64 dt = 1;                            // resamplers (dt, interval)
  i64 shift = 1;                         // TimeShift dt
  int times = 1;                         // TimeShift
  std::shared_ptr<Prog> prog;            // Pipeline
  set<string> omit;                      // optional parameters left out of the description

  vector<string> ins() const;   // data ports
  vector<string> ctls() const;  // control ports
  vector<string> outs() const;
};

struct Conn {
  string from, to, fromPort, toPort;
  bool omitFrom = false, omitTo = false;  // leave the port out of the description
};

struct Prog {
  vector<Op> ops;
  vector<Conn> conns;
  string entry;
  bool hasOutput = false;
  map<string, vector<string>> output;
  const Op& op(const string& id) const;
  bool has(const string& id) const;
};

// how a description is written down, without changing what it means
struct Style {
  Rng* rng = nullptr;          // random order of keys and white space
  bool shuffleOps = false, shuffleConns = false;
};

string opJson(const Op& o, const Style& st = {});
// the text with something nested that deep that nobody asked for, or with the whole inside that many sub-programs
string nested(Rng& r, const string& text, u64 depth, bool pipelines);
string json(const Prog& p, const Style& st = {});
// the ports of a pipeline: inner operator and port behind i1, i2, ... and o1, o2, ...
vector<pair<string, string>> pipelineIns(const Prog& p);
vector<pair<string, string>> pipelineOuts(const Prog& p);
u64 shapeOf(const Prog& p);  // signature of types, parameters and wiring, not of the ids

// ---- random programs ----
struct GenOpts {
  int minOps = 2, maxOps = 14;
  int maxEntryPorts = 4;
  bool pipelines = true;
  bool demux = false, variable = false;  // operators whose outcome depends on the interleaving
  bool demuxFed = false;                 // every demultiplexer gets controls it can follow, also in pipelines
  bool resamplers = true;
  bool timeShift = true;
  bool negativeShift = false;
  int maxResamplers = 2;
  bool exactish = true;   // parameters that mostly keep values exactly representable
  u64 spacing = 10;       // typical distance of the input times
  int maxWindow = 12;
  bool unconnected = true;  // sometimes leave an input port unconnected
  vector<string> only;      // restrict the types
  bool output = false;      // declare outputs
  int depth = 0, maxDepth = 2;
  bool randomIds = true;
  bool branches = true;  // streams without common times meet in one port
  double large = 0.04;  // share of the programs with many ports, coefficients and points, wide fan-outs and long ids
  bool isLarge = false;  // this is one of them
};
string piecedId(Rng& r);
Prog randomProg(Rng& r, const GenOpts& g);
Op randomOp(Rng& r, const string& type, const string& id, const GenOpts& g);
const vector<string>& allTypes();

// ---- random streams ----
struct StreamOpts {
  size_t length = 100;
  u64 spacing = 10;
  u64 start = 1;
  int timeMode = -1;    // -1 random
  int valueMode = -1;
  bool hostile = false;  // repeated and late times
  bool repeats = false;  // messages delivered twice in a row, also to an entry that forwards them
  double large = 0.02;   // share of the streams with hundreds of messages and long backlogs
};
enum ValueMode { SMALL_INT, DYADIC, GAUSS, WALK, TIES, MIXED_SCALE, BINARY, SCALED, SPECIAL, VALUE_MODES };
double randomValue(Rng& r, int mode, double& state);
// strictly increasing times
vector<u64> randomTimes(Rng& r, size_t n, u64 start, u64 spacing, int mode = -1);
// now and then a leap that only 64 bits can tell
void leap(Rng& r, vector<u64>& t);
struct Arrival {
  string port;
  Msg m;
};
// an interleaving of one stream per port; the ports share most of their times
vector<Arrival> randomArrivals(Rng& r, const vector<string>& ports, const StreamOpts& o);
string show(const vector<Arrival>& a, size_t limit = 40);

}  // namespace mon
