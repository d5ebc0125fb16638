// The only door to the engine: the public FactoryOp interface, seen with the monitors' own types.
#pragma once
#include "base.h"

namespace mon {

struct Refused : std::runtime_error {  // the engine reported an error
  using std::runtime_error::runtime_error;
};

using Blob = vector<unsigned char>;

class Engine {
  struct Impl;
  std::unique_ptr<Impl> impl;

 public:
  Engine();
  ~Engine();
  Engine(Engine&&);
  Engine& operator=(Engine&&);

  // throws Refused if the description is refused in any way
  void create(const string& id, const string& json);
  void restore(const string& id, const Blob& snapshot);
  Blob snapshot(const string& id);
  bool remove(const string& id);
  void buffer(const string& id, const string& port, Msg m);
  Out flush(const string& id);
  Out flushDebug(const string& id);
  Out send(const string& id, const PortMsgs& m);
  Out sendDebug(const string& id, const PortMsgs& m);
  string entry(const string& id);
  vector<string> ports(const string& id);
  map<string, vector<string>> outputs(const string& id);

  Out sendDebug(const string& id, const string& port, Msg m) { return sendDebug(id, PortMsgs{{port, {m}}}); }
  Out send(const string& id, const string& port, Msg m) { return send(id, PortMsgs{{port, {m}}}); }
};

// reading an operator description and writing it again; throws Refused
string rewrite(const string& opJson);

}  // namespace mon
