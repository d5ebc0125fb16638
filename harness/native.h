// Operators made through the C++ constructors.
#pragma once
#include "engine.h"
#include "desc.h"

#include "rtbot/Collector.h"
#include "rtbot/Composite.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/FactoryOp.h"
#include "rtbot/Input.h"
#include "rtbot/Join.h"
#include "rtbot/Message.h"
#include "rtbot/Output.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/And.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/Division.h"
#include "rtbot/std/EqualTo.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/Function.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/GreaterThanStream.h"
#include "rtbot/std/HermiteResampler.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/LessThan.h"
#include "rtbot/std/LessThanStream.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/Multiplication.h"
#include "rtbot/std/Or.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Power.h"
#include "rtbot/std/Scale.h"
#include "rtbot/std/StandardDeviation.h"
#include "rtbot/std/TimeShift.h"
#include "rtbot/std/Variable.h"

namespace mon {

using NOp = rtbot::Operator<uint64_t, double>;
using NMsg = rtbot::Message<uint64_t, double>;

inline Out seen(const rtbot::ProgramMessage<uint64_t, double>& m) {
  Out r;
  for (auto& [o, pm] : m)
    for (auto& [p, v] : pm)
      for (auto& x : v) r[o][p].push_back(Msg{x.time, x.value});
  return r;
}

// nullptr: no constructor for it here
inline std::unique_ptr<NOp> construct(const Op& o) {
  using namespace rtbot;
  using T = uint64_t;
  using V = double;
  const string &t = o.type, &id = o.id;
  auto p = [](NOp* x) { return std::unique_ptr<NOp>(x); };
  if (t == "Input") return p(o.omit.count("numPorts") ? new Input<T, V>(id) : new Input<T, V>(id, o.ports));
  if (t == "Output") return p(o.omit.count("numPorts") ? new Output<T, V>(id) : new Output<T, V>(id, o.ports));
  if (t == "Join") return p(new Join<T, V>(id, o.ports));
  if (t == "Demultiplexer") return p(new Demultiplexer<T, V>(id, o.ports));
  if (t == "Add") return p(new Add<T, V>(id, o.value));
  if (t == "Scale") return p(new Scale<T, V>(id, o.value));
  if (t == "Power") return p(new Power<T, V>(id, o.value));
  if (t == "Constant") return p(new Constant<T, V>(id, o.value));
  if (t == "Identity") return p(new Identity<T, V>(id));
  if (t == "GreaterThan") return p(new GreaterThan<T, V>(id, o.value));
  if (t == "LessThan") return p(new LessThan<T, V>(id, o.value));
  if (t == "EqualTo") return p(new EqualTo<T, V>(id, o.value));
  if (t == "Variable") return p(o.omit.count("value") ? new Variable<T, V>(id) : new Variable<T, V>(id, o.value));
  if (t == "TimeShift") return p(o.omit.count("times") ? o.omit.count("dt") ? new TimeShift<T, V>(id) : new TimeShift<T, V>(id, o.shift) : new TimeShift<T, V>(id, o.shift, o.times));
  if (t == "Function") return p(o.omit.count("interpolationType") ? new Function<T, V>(id, o.points) : new Function<T, V>(id, o.points, o.interp));
  if (t == "MovingAverage") return p(new MovingAverage<T, V>(id, o.n));
  if (t == "StandardDeviation") return p(new StandardDeviation<T, V>(id, o.n));
  if (t == "PeakDetector") return p(new PeakDetector<T, V>(id, o.n));
  if (t == "RelativeStrengthIndex") return p(new RelativeStrengthIndex<T, V>(id, o.n));
  if (t == "FiniteImpulseResponse") return p(new FiniteImpulseResponse<T, V>(id, o.coeff));
  if (t == "AutoRegressive") return p(new AutoRegressive<T, V>(id, o.coeff));
  if (t == "Linear") return p(new Linear<T, V>(id, o.coeff));
  if (t == "Difference") return p(new Difference<T, V>(id));
  if (t == "Count") return p(new Count<T, V>(id));
  if (t == "CumulativeSum") return p(new CumulativeSum<T, V>(id));
  if (t == "ConstantResampler") return p(new ConstantResampler<T, V>(id, o.dt));
  if (t == "CosineResampler") return p(new CosineResampler<T, V>(id, o.dt));
  if (t == "HermiteResampler") return p(new HermiteResampler<T, V>(id, o.dt));
  if (t == "Plus") return p(new Plus<T, V>(id));
  if (t == "Minus") return p(new Minus<T, V>(id));
  if (t == "Multiplication") return p(new Multiplication<T, V>(id));
  if (t == "Division") return p(new Division<T, V>(id));
  if (t == "And") return p(new And<T, V>(id));
  if (t == "Or") return p(new Or<T, V>(id));
  if (t == "GreaterThanStream") return p(new GreaterThanStream<T, V>(id));
  if (t == "LessThanStream") return p(new LessThanStream<T, V>(id));
  return nullptr;
}

}  // namespace mon
