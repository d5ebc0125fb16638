#include "engine.h"

#include "rtbot/FactoryOp.h"

namespace mon {

struct Engine::Impl {
  rtbot::FactoryOp f;
};

static rtbot::OperatorMessage<uint64_t, double> toNative(const PortMsgs& m) {
  rtbot::OperatorMessage<uint64_t, double> r;
  for (auto& [p, v] : m) {
    auto& d = r[p];
    for (auto& x : v) d.push_back(rtbot::Message<uint64_t, double>(x.t, x.v));
  }
  return r;
}
static Out fromNative(const rtbot::ProgramMessage<uint64_t, double>& m) {
  Out r;
  for (auto& [o, pm] : m) {
    auto& ro = r[o];
    for (auto& [p, v] : pm) {
      auto& d = ro[p];
      for (auto& x : v) d.push_back(Msg{x.time, x.value});
    }
  }
  return r;
}

template <class F>
static auto guarded(F f) -> decltype(f()) {
  try {
    return f();
  } catch (const Refused&) {
    throw;
  } catch (const std::bad_alloc&) {
    throw;
  } catch (const std::exception& e) {
    throw Refused(e.what());
  }
}

Engine::Engine() : impl(new Impl) {}
Engine::~Engine() = default;
Engine::Engine(Engine&&) = default;
Engine& Engine::operator=(Engine&&) = default;

void Engine::create(const string& id, const string& json) {
  string r = guarded([&] { return impl->f.createProgram(id, json); });
  if (!r.empty()) throw Refused(r);
}
void Engine::restore(const string& id, const Blob& b) {
  guarded([&] { return impl->f.createProgram(id, rtbot::Bytes(b)); });
}
Blob Engine::snapshot(const string& id) { return guarded([&] { return impl->f.serialize(id); }); }
bool Engine::remove(const string& id) { return guarded([&] { return impl->f.deleteProgram(id); }); }
void Engine::buffer(const string& id, const string& port, Msg m) {
  guarded([&] { return impl->f.addToMessageBuffer(id, port, rtbot::Message<uint64_t, double>(m.t, m.v)); });
}
Out Engine::flush(const string& id) { return guarded([&] { return fromNative(impl->f.processMessageBuffer(id)); }); }
Out Engine::flushDebug(const string& id) { return guarded([&] { return fromNative(impl->f.processMessageBufferDebug(id)); }); }
Out Engine::send(const string& id, const PortMsgs& m) { return guarded([&] { return fromNative(impl->f.processMessageMap(id, toNative(m))); }); }
Out Engine::sendDebug(const string& id, const PortMsgs& m) { return guarded([&] { return fromNative(impl->f.processMessageMapDebug(id, toNative(m))); }); }
string Engine::entry(const string& id) { return guarded([&] { return impl->f.getProgramEntryOperatorId(id); }); }
vector<string> Engine::ports(const string& id) { return guarded([&] { return impl->f.getProgramEntryPorts(id); }); }
map<string, vector<string>> Engine::outputs(const string& id) { return guarded([&] { return impl->f.getProgramOutputFilter(id); }); }

string rewrite(const string& opJson) {
  return guarded([&] { return rtbot::FactoryOp::writeOp(rtbot::FactoryOp::readOp(opJson)); });
}

}  // namespace mon
