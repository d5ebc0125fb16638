#include "model.h"

#include <algorithm>

namespace mon {

static const double EPS = 2.220446049250313e-16;

string show(const Tok& t) {
  char b[80];
  snprintf(b, sizeof b, "%llu:%.17g(+-%.3g)@%d", (unsigned long long)t.t, t.v, t.err, t.step);
  return b;
}

bool closeTo(const Tok& w, const Msg& g) {
  if (w.t != g.t) return false;
  if (w.v == g.v || sameBits(w.v, g.v)) return true;  // the sign of a zero depends on the order of a sum
  if (!std::isfinite(w.v) || !std::isfinite(g.v)) return false;
  if (w.err == 0) return false;
  return std::fabs(w.v - g.v) <= 4 * w.err + 1e-300;
}

// a value with a bound on its rounding error
struct E {
  double v, e;
};

// does every order of summation give the exact sum?
struct Exact {
  int bits = 0;
  long double mag = 0;
  bool ok = true;
  static int frac(double v) {
    if (!std::isfinite(v)) return 999;
    for (int k = 0; k <= 40; k++) {
      double s = std::ldexp(v, k);
      if (std::fabs(s) > 4503599627370496.0) return v == std::floor(v) && std::fabs(v) < 4503599627370496.0 ? 0 : 999;
      if (s == std::floor(s)) return k;
    }
    return 999;
  }
  void term(double a) { product(a, 1); }
  void product(double a, double b) {
    int k = frac(a) + frac(b);
    if (k > 60) { ok = false; return; }
    bits = std::max(bits, k);
    mag += std::fabs((long double)a * b);
  }
  bool exact() const { return ok && std::ldexp(mag, bits) < 4503599627370496.0L; }
};

struct Writer {
  Stream& s;
  // false when the stream became unsure
  bool put(u64 t, E x, int step) {
    if (step >= s.unsure) return false;
    // beyond 1e288 an intermediate result may overflow
    if (std::isnan(x.e) || x.e > 1e288 || (!std::isfinite(x.v) && x.e > 0)) { s.unsure = std::min(s.unsure, step); return false; }
    s.m.push_back({t, x.v, x.e, step});
    return true;
  }
  void doubt(int step) { s.unsure = std::min(s.unsure, step); }
};

static E finish(double r, double err, std::initializer_list<E> in) {
  // an infinite or undefined result of exactly known operands is itself exactly known
  bool known = true, finite = true;
  for (auto& x : in) { known = known && x.e == 0; finite = finite && std::isfinite(x.v); }
  if (known && (!std::isfinite(r) || !finite)) return {r, 0};
  return {r, err};
}
static E add(E a, E b) {
  double s = a.v + b.v, bb = s - a.v, e = (a.v - (s - bb)) + (b.v - bb);
  return finish(s, a.e + b.e + (e == 0 ? 0 : EPS * std::fabs(s)), {a, b});
}
static E mul(E a, E b) {
  double r = a.v * b.v;
  bool exact = std::isfinite(r) && std::fma(a.v, b.v, -r) == 0 && (r == 0 ? a.v == 0 || b.v == 0 : std::fabs(r) > 1e-290);
  return finish(r, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + (exact ? 0 : EPS * std::fabs(r) + 5e-324), {a, b});
}
static E divide(E a, E b) {
  double r = a.v / b.v;
  bool exact = std::isfinite(r) && std::fma(r, b.v, -a.v) == 0 && (r == 0 ? a.v == 0 : std::fabs(r) > 1e-290);
  double room = std::fabs(b.v) - b.e;
  return finish(r, (a.e + std::fabs(r) * b.e) / room + (exact ? 0 : EPS * std::fabs(r) + 5e-324), {a, b});
}
static E neg(E a) { return {-a.v, a.e}; }

static E power(E a, double p, bool& doubt) {
  double r = std::pow(a.v, p);
  if (p == 1) return a;
  if (p == 0) return {1, 0};
  if (a.e == 0) {
    if (!std::isfinite(r) || !std::isfinite(a.v)) return {r, 0};
    if ((p == 2 || p == 3)) {
      E x = mul(a, a);
      if (p == 3) x = mul(x, a);
      if (x.e == 0) return x;
    }
    return {r, 8 * EPS * std::fabs(r) + 5e-324};
  }
  double lo = a.v - a.e, hi = a.v + a.e;
  if (lo <= 0 && hi >= 0 && (p < 0 || p != std::floor(p))) { doubt = true; return {r, 0}; }
  double d = std::max(std::fabs(std::pow(lo, p) - r), std::fabs(std::pow(hi, p) - r));
  if (std::isnan(r) && std::isnan(d)) return {r, 0};
  return {r, 2 * d + 8 * EPS * std::fabs(r)};
}

// the tabulated function, with the size of the terms it adds up
static pair<long double, long double> table(const vector<pair<double, double>>& pts, bool hermite, long double x) {
  size_t n = pts.size(), i = 0;
  for (size_t k = 0; k + 1 < n; k++) if ((long double)pts[k].first <= x) i = k;  // the segment, outside the table the nearest one
  long double x0 = pts[i].first, x1 = pts[i + 1].first, y0 = pts[i].second, y1 = pts[i + 1].second;
  long double w = x1 - x0, u = (x - x0) / w;
  if (!hermite) return {y0 + (y1 - y0) * u, fabsl(y0) + fabsl(y1 - y0) * fabsl(u)};
  auto slope = [&](size_t k) -> long double {
    size_t a = k == 0 ? 0 : k - 1, b = k == n - 1 ? n - 1 : k + 1;
    return ((long double)pts[b].second - pts[a].second) / ((long double)pts[b].first - pts[a].first);
  };
  long double m0 = slope(i) * w, m1 = slope(i + 1) * w;
  long double h00 = (1 + 2 * u) * (1 - u) * (1 - u), h10 = u * (1 - u) * (1 - u), h01 = u * u * (3 - 2 * u), h11 = u * u * (u - 1);
  long double au = fabsl(u), big = 2 * au * au * au + 3 * au * au + au + 1;
  return {h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1, big * (fabsl(y0) + fabsl(y1) + fabsl(m0) + fabsl(m1))};
}

static E weighted(const vector<double>& c, const vector<E>& x) {
  long double s = 0, mag = 0, e = 0;
  Exact ex;
  bool known = true, finite = true;
  for (size_t i = 0; i < c.size(); i++) {
    s += (long double)c[i] * x[i].v;
    if (std::isfinite(x[i].v)) mag += fabsl((long double)c[i] * x[i].v);
    e += fabsl((long double)c[i]) * x[i].e;
    ex.product(c[i], x[i].v);
    known = known && x[i].e == 0;
    finite = finite && std::isfinite(x[i].v);
  }
  double r = (double)s;
  if (!finite || mag > 1e305L) {
    // infinities, or an overflow that depends on the order
    if (!finite && known && mag <= 1e305L) { double q = 0; for (size_t i = 0; i < c.size(); i++) q += c[i] * x[i].v; return {q, 0}; }
    return {r, INFINITY};
  }
  return {r, (double)(e + (ex.exact() ? 0 : (c.size() + 2) * EPS * mag + 5e-324 * c.size()))};
}

// input streams cut where they become unsure
static Stream clean(const Stream& s) {
  Stream r;
  r.unsure = s.unsure;
  for (auto& x : s.m) if (x.step < s.unsure) r.m.push_back(x);
  return r;
}

map<string, Stream> evalOp(const Op& o, const map<string, Stream>& inRaw, Model& whole) {
  map<string, Stream> in, out;
  int unsure = INT_MAX;
  for (auto& [p, s] : inRaw) { in[p] = clean(s); unsure = std::min(unsure, s.unsure); }
  for (auto& p : o.outs()) out[p].unsure = unsure;
  const string& t = o.type;
  static const Stream none;
  const Stream& a = in.count("i1") ? in.at("i1") : none;
  Stream* so = out.count("o1") ? &out["o1"] : nullptr;

  if (t == "Input" || t == "Output") {
    for (u64 k = 1; k <= o.ports; k++) {
      const Stream& s = in["i" + to_string(k)];
      Stream& d = out["o" + to_string(k)];
      d.unsure = s.unsure;
      bool first = true;
      u64 last = 0;
      for (auto& x : s.m) {
        if (t == "Input" && !first && x.t <= last) continue;
        first = false;
        last = x.t;
        d.m.push_back(x);
      }
    }
    return out;
  }

  // ---- one message in, at most one out ----
  auto each = [&](auto f) {
    Writer w{*so};
    for (auto& x : a.m) f(w, x);
  };
  if (t == "Identity") { each([&](Writer& w, const Tok& x) { w.put(x.t, {x.v, x.err}, x.step); }); return out; }
  if (t == "Add") { each([&](Writer& w, const Tok& x) { w.put(x.t, add({x.v, x.err}, {o.value, 0}), x.step); }); return out; }
  if (t == "Scale") { each([&](Writer& w, const Tok& x) { w.put(x.t, mul({x.v, x.err}, {o.value, 0}), x.step); }); return out; }
  if (t == "Constant") { each([&](Writer& w, const Tok& x) { w.put(x.t, {o.value, 0}, x.step); }); return out; }
  if (t == "Count") { double c = 0; each([&](Writer& w, const Tok& x) { w.put(x.t, {c += 1, 0}, x.step); }); return out; }
  if (t == "TimeShift") {
    each([&](Writer& w, const Tok& x) {
      __int128 s = (__int128)o.shift * o.times + x.t;
      w.put(s < 0 ? 0 : (u64)s, {x.v, x.err}, x.step);
    });
    return out;
  }
  if (t == "Power") {
    each([&](Writer& w, const Tok& x) {
      bool doubt = false;
      E r = power({x.v, x.err}, o.value, doubt);
      if (doubt) w.doubt(x.step);
      w.put(x.t, r, x.step);
    });
    return out;
  }
  if (t == "Function") {
    auto pts = o.points;
    std::sort(pts.begin(), pts.end());
    bool h = o.interp == "hermite";
    each([&](Writer& w, const Tok& x) {
      if (std::isnan(x.v)) { w.put(x.t, {NAN, 0}, x.step); return; }
      auto [y, mag] = table(pts, h, x.v);
      double e = 64 * EPS * (double)mag;
      // the position in the segment is rounded relative to the knots
      double widest = 0, steepest = 0;
      for (size_t i = 0; i + 1 < pts.size(); i++) {
        double dx = pts[i + 1].first - pts[i].first;
        widest = std::max({widest, std::fabs(pts[i].first), std::fabs(pts[i + 1].first)});
        steepest = std::max(steepest, std::fabs((pts[i + 1].second - pts[i].second) / dx));
      }
      e += 64 * EPS * (widest + std::fabs(x.v)) * steepest * 3;
      if (x.err > 0) e += 2 * (double)std::max(fabsl(table(pts, h, (long double)x.v - x.err).first - y), fabsl(table(pts, h, (long double)x.v + x.err).first - y));
      if (!std::isfinite((double)y)) { w.doubt(x.step); return; }
      w.put(x.t, {(double)y, e}, x.step);
    });
    return out;
  }
  if (t == "GreaterThan" || t == "LessThan" || t == "EqualTo") {
    each([&](Writer& w, const Tok& x) {
      if (x.err > 0 && std::fabs(x.v - o.value) <= 4 * x.err) { w.doubt(x.step); return; }
      bool pass = t == "GreaterThan" ? x.v > o.value : t == "LessThan" ? x.v < o.value : x.v == o.value;
      if (pass) w.put(x.t, {x.v, x.err}, x.step);
    });
    return out;
  }

  // ---- windows ----
  if (t == "MovingAverage" || t == "StandardDeviation" || t == "FiniteImpulseResponse" || t == "Difference" || t == "PeakDetector") {
    size_t n = t == "Difference" ? 2 : t == "FiniteImpulseResponse" ? o.coeff.size() : o.n;
    Writer w{*so};
    for (size_t i = 0; i < a.m.size(); i++) {
      if (i + 1 < n) continue;
      const Tok* x = &a.m[i + 1 - n];  // x[0] .. x[n-1], oldest first
      const Tok& last = x[n - 1];
      if (t == "Difference") { w.put(last.t, add({x[1].v, x[1].err}, neg({x[0].v, x[0].err})), last.step); continue; }
      if (t == "FiniteImpulseResponse") {
        vector<E> v;
        for (size_t k = 0; k < n; k++) v.push_back({x[n - 1 - k].v, x[n - 1 - k].err});
        w.put(last.t, weighted(o.coeff, v), last.step);
        continue;
      }
      if (t == "PeakDetector") {
        const Tok& mid = x[n / 2];
        bool beaten = false, close = false;
        for (size_t k = 0; k < n; k++) {
          if (k == n / 2) continue;
          double slack = 4 * (x[k].err + mid.err);
          if (x[k].v - mid.v > slack) beaten = true;
          else if (slack > 0 && std::fabs(x[k].v - mid.v) <= slack) close = true;
        }
        if (beaten) continue;
        if (close) { w.doubt(last.step); continue; }
        w.put(mid.t, {mid.v, mid.err}, last.step);
        continue;
      }
      vector<E> v;
      double maxabs = 0, maxerr = 0;
      bool finite = true;
      for (size_t k = 0; k < n; k++) {
        v.push_back({x[k].v, x[k].err});
        maxabs = std::max(maxabs, std::fabs(x[k].v));
        maxerr = std::max(maxerr, x[k].err);
        finite = finite && std::isfinite(x[k].v);
      }
      E sum = weighted(vector<double>(n, 1.0), v);
      if (t == "MovingAverage") { w.put(last.t, divide(sum, {(double)n, 0}), last.step); continue; }
      if (!finite) { w.put(last.t, {NAN, maxerr}, last.step); continue; }
      long double mean = 0, ss = 0;
      for (auto& e : v) mean += e.v;
      mean /= n;
      for (auto& e : v) ss += (e.v - mean) * (e.v - mean);
      long double sd = n > 1 ? sqrtl(ss / (n - 1)) : NAN;
      if (n == 1) { w.put(last.t, {NAN, 0}, last.step); continue; }
      if (maxabs > 1e150) { w.doubt(last.step); continue; }
      bool flat = true;
      for (auto& e : v) flat = flat && e.v == v[0].v && e.e == 0;
      double f = std::sqrt((double)n / (n - 1));
      double err = 4 * (n + 4) * EPS * maxabs * f + 2 * f * maxerr + (n + 8) * EPS * (double)sd + 1e-160;
      (void)flat;
      w.put(last.t, {(double)sd, err}, last.step);
    }
    return out;
  }
  if (t == "RelativeStrengthIndex") {
    Writer w{*so};
    size_t n = o.n;
    long double g = 0, l = 0, e = 0;  // averages over the whole history, and a bound on the error of either
    long double top = 0;
    bool started = false;
    for (size_t i = 0; i < a.m.size(); i++) {
      const Tok& x = a.m[i];
      if (!std::isfinite(x.v)) { w.doubt(x.step); break; }
      top = std::max<long double>(top, fabsl(x.v));
      if (i < n) continue;
      auto change = [&](size_t k, long double& up, long double& down) {
        double d = a.m[k].v - a.m[k - 1].v;  // rounded once, as any evaluation has to
        up = d > 0 ? d : 0;
        down = d < 0 ? -d : 0;
        return (long double)(a.m[k].err + a.m[k - 1].err) + (std::fabs(d) > 0 ? EPS * fabsl(d) : 0);
      };
      if (!started) {
        for (size_t k = 1; k <= n; k++) {
          long double u, d;
          e += change(k, u, d);
          g += u;
          l += d;
        }
        g /= n; l /= n;
        e = e / n + (n + 2) * EPS * (g + l);
        started = true;
      } else {
        long double u, d;
        long double ce = change(i, u, d);
        g = (g * (n - 1) + u) / n;
        l = (l * (n - 1) + d) / n;
        e = (e * (n - 1) + ce) / n + 4 * EPS * (g + l);
      }
      long double all = g + l;
      if (all < 1e-280L && (all > 0 || e > 0)) { w.doubt(x.step); break; }
      if (l == 0 && e < 1e-280L) { w.put(x.t, {100, 0}, x.step); continue; }
      // nothing but rounding noise in both averages: the ratio is meaningless
      if (all <= 1000 * e) { w.doubt(x.step); break; }
      long double r = l == 0 ? 100 : 100 * g / all;
      w.put(x.t, {(double)r, (double)(200 * e / all + 1e-12L)}, x.step);
    }
    return out;
  }

  // ---- whole history ----
  if (t == "CumulativeSum") {
    long double s = 0, e = 0;
    double run = 0;
    bool known = true, finite = true;
    Exact ex;
    each([&](Writer& w, const Tok& x) {
      s += x.v;
      run += x.v;
      e += x.err;
      known = known && x.err == 0;
      finite = finite && std::isfinite(x.v);
      int k = Exact::frac(x.v);
      if (k > 60) ex.ok = false;
      else ex.bits = std::max(ex.bits, k);
      ex.mag = std::max(ex.mag, fabsl(s) + fabsl((long double)x.v));
      if (!ex.exact()) e += 2 * EPS * fabsl(s);
      if (!finite || !std::isfinite(run)) { w.put(x.t, {run, known && !finite ? 0 : INFINITY}, x.step); return; }
      w.put(x.t, {(double)s, (double)e}, x.step);
    });
    return out;
  }
  if (t == "AutoRegressive") {
    vector<E> y;
    each([&](Writer& w, const Tok& x) {
      vector<double> c{1};
      vector<E> v{{x.v, x.err}};
      for (size_t k = 0; k < o.coeff.size(); k++)
        if (k < y.size()) { c.push_back(o.coeff[k]); v.push_back(y[y.size() - 1 - k]); }
      E r = weighted(c, v);
      if (!std::isfinite(r.v)) w.doubt(x.step);
      y.push_back(r);
      w.put(x.t, r, x.step);
    });
    return out;
  }

  // ---- resamplers ----
  if (t == "ConstantResampler" || t == "CosineResampler") {
    Writer w{*so};
    if (a.m.empty()) return out;
    u64 t0 = a.m[0].t;
    for (size_t i = 1; i < a.m.size(); i++) {
      const Tok &p = a.m[i - 1], &q = a.m[i];
      for (u64 g = t0 + ((p.t - t0) / o.dt + 1) * o.dt; g <= q.t; g += o.dt) {
        if (t == "ConstantResampler") {
          const Tok& k = g == q.t ? q : p;
          w.put(g, {k.v, k.err}, q.step);
        } else {
          long double mu = (long double)(g - p.t) / (long double)(q.t - p.t);
          long double m2 = (1 - cosl(mu * 3.14159265358979323846264L)) / 2;
          long double r = p.v * (1 - m2) + q.v * m2;
          double e = std::max(p.err, q.err) + 32 * EPS * (std::fabs(p.v) + std::fabs(q.v)) + 1e-320;
          if (!std::isfinite(p.v) || !std::isfinite(q.v)) { w.doubt(q.step); continue; }
          w.put(g, {(double)r, e}, q.step);
        }
      }
    }
    return out;
  }
  if (t == "HermiteResampler") {
    Writer w{*so};
    if (a.m.size() < 4) return out;
    // the point in front of the first: one average step before it on the line fitted to the first four
    long double sx = 0, sy = 0, sxx = 0, sxy = 0, top = 0, maxerr = 0;
    for (int i = 0; i < 4; i++) {
      long double x = a.m[i].t - a.m[0].t, y = a.m[i].v;
      sx += x; sy += y; sxx += x * x; sxy += x * y;
      top = std::max(top, fabsl(y));
      maxerr = std::max<long double>(maxerr, a.m[i].err);
    }
    long double slope = (4 * sxy - sx * sy) / (4 * sxx - sx * sx), base = (sy - slope * sx) / 4;
    u64 step = (a.m[3].t - a.m[0].t) / 3;
    E before{(double)(base - slope * step), (double)(1e-11L * top * 10 + 10 * maxerr)};
    u64 t0 = a.m[0].t;
    for (size_t i = 1; i + 1 < a.m.size(); i++) {  // grid points between i-1 and i, known once i+1 is there
      const Tok &p = a.m[i - 1], &q = a.m[i];
      E y[4] = {i >= 2 ? E{a.m[i - 2].v, a.m[i - 2].err} : before, {p.v, p.err}, {q.v, q.err}, {a.m[i + 1].v, a.m[i + 1].err}};
      int due = a.m[std::max<size_t>(i + 1, 3)].step;
      for (u64 g = t0 + ((p.t - t0) / o.dt + 1) * o.dt; g <= q.t; g += o.dt) {
        long double u = (long double)(g - p.t) / (long double)(q.t - p.t);
        long double m0 = ((long double)y[2].v - y[0].v) / 2, m1 = ((long double)y[3].v - y[1].v) / 2;
        long double r = (1 + 2 * u) * (1 - u) * (1 - u) * y[1].v + u * (1 - u) * (1 - u) * m0 + u * u * (u - 1) * m1 + u * u * (3 - 2 * u) * y[2].v;
        double mag = 0, e = 0;
        bool finite = true;
        for (auto& k : y) { mag += std::fabs(k.v); e += k.e; finite = finite && std::isfinite(k.v); }
        if (g == q.t) { mag = std::fabs(y[2].v) + 1e-3 * mag; e = q.err + 1e-3 * e; }
        if (!finite) { w.doubt(due); continue; }
        w.put(g, {(double)r, e + 128 * EPS * mag + 1e-320}, due);
      }
    }
    return out;
  }

  // ---- synchronisation ----
  auto insNames = o.ins();
  auto common = [&](const vector<string>& names, auto f) {
    // the messages of every timestamp all the named streams have
    map<u64, vector<const Tok*>> at;
    for (auto& x : in[names[0]].m) at[x.t] = {&x};
    for (size_t k = 1; k < names.size(); k++)
      for (auto& x : in[names[k]].m) { auto it = at.find(x.t); if (it != at.end() && it->second.size() == k) it->second.push_back(&x); }
    for (auto& [time, v] : at)
      if (v.size() == names.size()) {
        int step = 0;
        for (auto* x : v) step = std::max(step, x->step);
        f(time, v, step);
      }
  };
  if (t == "Join") {
    common(insNames, [&](u64 time, const vector<const Tok*>& v, int step) {
      for (size_t k = 0; k < v.size(); k++) {
        Writer w{out["o" + to_string(k + 1)]};
        w.put(time, {v[k]->v, v[k]->err}, step);
      }
    });
    return out;
  }
  if (t == "Linear") {
    Writer w{*so};
    common(insNames, [&](u64 time, const vector<const Tok*>& v, int step) {
      vector<E> x;
      for (auto* k : v) x.push_back({k->v, k->err});
      w.put(time, weighted(o.coeff, x), step);
    });
    return out;
  }
  if (insNames.size() == 2 && t != "Pipeline") {
    Writer w{*so};
    common(insNames, [&](u64 time, const vector<const Tok*>& m, int step) {
      E x{m[0]->v, m[0]->err}, y{m[1]->v, m[1]->err};
      if (t == "Plus") w.put(time, add(x, y), step);
      else if (t == "Minus") w.put(time, add(x, neg(y)), step);
      else if (t == "Multiplication") w.put(time, mul(x, y), step);
      else if (t == "Division") {
        if (y.e > 0 && std::fabs(y.v) <= 4 * y.e) { w.doubt(step); return; }
        if (y.v != 0) w.put(time, divide(x, y), step);
      } else if (t == "And" || t == "Or") {
        for (E* k : {&x, &y}) if (std::isnan(k->v) || (k->e > 0 && std::fabs(k->v - 0.5) <= 4 * k->e)) { w.doubt(step); return; }
        bool l = x.v >= 0.5, r = y.v >= 0.5;
        w.put(time, {(t == "And" ? l && r : l || r) ? 1.0 : 0.0, 0}, step);
      } else {
        double slack = 4 * (x.e + y.e);
        if (slack > 0 && std::fabs(x.v - y.v) <= slack) { w.doubt(step); return; }
        if (t == "GreaterThanStream" ? x.v > y.v : x.v < y.v) w.put(time, x, step);
      }
    });
    return out;
  }

  // ---- controlled ----
  if (t == "Demultiplexer") {
    vector<map<u64, const Tok*>> c(o.ports);
    for (u64 k = 0; k < o.ports; k++) for (auto& x : in["c" + to_string(k + 1)].m) c[k][x.t] = &x;
    int head = -1;  // the step at which everything before the current data message was settled
    int end = INT_MAX;
    for (auto& d : a.m) {
      int ready = d.step, seen = INT_MAX;
      bool doubtful = false;
      vector<const Tok*> cs;
      for (u64 k = 0; k < o.ports; k++) {
        auto it = c[k].lower_bound(d.t);
        if (it == c[k].end()) { ready = INT_MAX; continue; }
        bool good = it->first == d.t && (it->second->v == 0 || it->second->v == 1) && it->second->err == 0;
        if (!good) {
          seen = std::min(seen, std::max(d.step, it->second->step));
          doubtful = doubtful || it->second->err != 0;
        }
        cs.push_back(it->second);
        if (ready != INT_MAX) ready = std::max(ready, it->second->step);
      }
      if (seen != INT_MAX) {
        // it cannot be followed: an error, at the latest when this message is next in line and anything more arrives
        whole.errorFrom = std::min(whole.errorFrom, seen);
        int must = INT_MAX;
        if (seen > head) must = seen;
        else
          for (auto& [port, s] : in)
            for (auto& x : s.m) if (x.step > std::max(seen, head)) { must = std::min(must, x.step); break; }
        if (doubtful) end = seen;
        else { whole.mustError = std::min(whole.mustError, must); end = must; }
        break;
      }
      if (ready == INT_MAX) break;  // those behind it wait as well
      head = std::max(head, ready);
      for (u64 k = 0; k < o.ports; k++)
        if (cs[k]->v == 1) Writer{out["o" + to_string(k + 1)]}.put(d.t, {d.v, d.err}, head);
    }
    whole.errorFrom = std::min(whole.errorFrom, unsure);  // unknown controls may be wrong ones
    for (auto& [p, s] : out) s.unsure = std::min(s.unsure, end);
    return out;
  }
  if (t == "Variable") {
    Writer w{*so};
    const Stream& q = in["c1"];
    const vector<Tok>& d = a.m;
    for (size_t i = 0; i < q.m.size(); i++) {
      const Tok& x = q.m[i];
      auto it = std::lower_bound(d.begin(), d.end(), x.t, [](const Tok& k, u64 time) { return k.t < time; });
      if (it == d.end()) continue;
      int due = std::max(x.step, it->step);
      if (i + 1 < q.m.size()) {
        if (q.m[i + 1].step < due) continue;                      // replaced while it was waiting
        if (q.m[i + 1].step == due && x.step < due) { w.doubt(due); continue; }  // in the same instant
        if (q.m[i + 1].step == due && it->step == due) { w.doubt(due); continue; }
      }
      if (it->t == x.t) w.put(x.t, {it->v, it->err}, due);
      else if (it == d.begin()) w.put(x.t, {o.value, 0}, due);
      else w.put(x.t, {(it - 1)->v, (it - 1)->err}, due);
    }
    return out;
  }
  throw std::logic_error("monitor: no model for " + t);
}

// a message of one input is still needed while some other input has not passed its time
static u64 awaited(const Op& o, const map<string, Stream>& in) {
  auto ports = o.ins();
  for (auto& c : o.ctls()) ports.push_back(c);
  if (ports.size() < 2 || o.type == "Input" || o.type == "Output" || o.type == "Pipeline") return 0;
  bool any = false, silent = false;
  u64 least = 0, n = 0;
  for (auto& q : ports) {
    if (o.type == "Variable" && q != "c1") continue;
    const Stream& s = in.at(q);
    if (s.m.empty()) { silent = true; continue; }
    if (!any || s.m.back().t < least) least = s.m.back().t;
    any = true;
  }
  bool joins = o.type != "Demultiplexer" && o.type != "Variable";
  u64 candidate = 0;  // the first time that all inputs but the silent ones have
  if (silent && any && joins) {
    map<u64, size_t> have;
    size_t speaking = 0;
    for (auto& q : ports) {
      speaking += !in.at(q).m.empty();
      for (auto& x : in.at(q).m) have[x.t]++;
    }
    candidate = UINT64_MAX;
    for (auto& [t, k] : have) if (k == speaking) { candidate = t; break; }
  }
  for (auto& q : ports)
    for (auto& x : in.at(q).m) {
      bool needed = !silent ? !any || x.t > least : !joins || x.t >= candidate || x.t > least;
      n += needed;
    }
  return n + (o.type == "Variable" ? 2 : 0);
}

static map<string, map<string, Stream>> evalGraph(const Prog& p, const map<pair<string, string>, Stream>& external, Model& whole) {
  map<string, map<string, Stream>> done;
  std::function<void(const string&)> need = [&](const string& id) {
    if (done.count(id)) return;
    const Op& o = p.op(id);
    map<string, Stream> in;
    auto ports = o.ins();
    for (auto& c : o.ctls()) ports.push_back(c);
    for (auto& q : ports) {
      in[q];
      auto e = external.find({id, q});
      if (e != external.end()) in[q] = e->second;
    }
    for (auto& c : p.conns)
      if (c.to == id) {
        need(c.from);
        Stream& to = in[c.toPort];
        const Stream& from = done[c.from][c.fromPort];
        if (to.m.empty() && to.unsure == INT_MAX) {
          to = from;
          continue;
        }
        // several streams without common times meet in one port (the generator makes only such)
        vector<Tok> both;
        std::merge(to.m.begin(), to.m.end(), from.m.begin(), from.m.end(), std::back_inserter(both), [](const Tok& x, const Tok& y) { return x.t < y.t; });
        for (size_t i = 1; i < both.size(); i++) if (both[i].t <= both[i - 1].t && both[i].step < std::min(to.unsure, from.unsure)) throw std::logic_error("monitor: streams with common times meet");
        to.m = both;
        to.unsure = std::min(to.unsure, from.unsure);
      }
    if (o.type == "Pipeline") {
      map<pair<string, string>, Stream> inner;
      auto pi = pipelineIns(*o.prog), po = pipelineOuts(*o.prog);
      for (size_t k = 0; k < pi.size(); k++) inner[pi[k]] = in["i" + to_string(k + 1)];
      auto r = evalGraph(*o.prog, inner, whole);
      auto& mine = done[id];
      for (size_t k = 0; k < po.size(); k++) mine["o" + to_string(k + 1)] = r[po[k].first][po[k].second];
    } else {
      whole.awaiting += awaited(o, in);
      auto r = evalOp(o, in, whole);
      done[id] = r;
    }
  };
  for (auto& o : p.ops) need(o.id);
  return done;
}

Model evaluate(const Prog& p, const vector<Arrival>& a) {
  Model m;
  map<pair<string, string>, Stream> ext;
  for (size_t i = 0; i < a.size(); i++) ext[{p.entry, a[i].port}].m.push_back({a[i].m.t, a[i].m.v, 0, (int)i});
  m.out = evalGraph(p, ext, m);
  return m;
}

string Follower::follow(int step, const Out& got) {
  set<string> accounted;
  for (auto& [op, ports] : model.out)
    for (auto& [port, s] : ports) {
      size_t& next = pos[op][port].next;
      vector<Msg> g;
      auto io = got.find(op);
      if (io != got.end()) {
        auto ip = io->second.find(port);
        if (ip != io->second.end()) {
          g = ip->second;
          if (g.empty()) return op + ":" + port + " is reported without messages";
        }
      }
      if (step >= s.unsure) { skipped += g.size(); continue; }
      size_t k = 0;
      while (next < s.m.size() && s.m[next].step <= step) {
        if (k >= g.size()) return op + ":" + port + " lacks " + show(s.m[next]);
        if (!closeTo(s.m[next], g[k])) return op + ":" + port + " reports " + show(g[k]) + " instead of " + show(s.m[next]);
        compared++;
        next++;
        k++;
      }
      if (k < g.size()) return op + ":" + port + " reports the additional message " + show(g[k]);
    }
  for (auto& [op, ports] : got) {
    auto im = model.out.find(op);
    if (im == model.out.end()) return "the unknown operator " + op + " is reported";
    if (ports.empty()) return op + " is reported without ports";
    for (auto& [port, v] : ports) if (!im->second.count(port)) return "the unknown port " + op + ":" + port + " is reported";
  }
  return "";
}

}  // namespace mon
