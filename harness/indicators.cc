// Feeds tick streams and values to the indicators, recording what they report after every step.
#include <functional>
#include <memory>
#include "common.h"
#include "eval/eval.h"
#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"
using namespace trader;
using verif::B;
using verif::ME;
namespace {
long long t0 = 0;
std::string T(const OhlcTick& t) {
  std::ostringstream o;
  o << "{\"t\":" << std::max<int64_t>(-2000000000, std::min<int64_t>(2000000000, t.timestamp_sec() - t0)) << ",\"o\":" << ME(t.open())
    << ",\"h\":" << ME(t.high()) << ",\"l\":" << ME(t.low()) << ",\"c\":" << ME(t.close()) << ",\"v\":" << ME(t.volume()) << "}";
  return o.str();
}
template <typename C>
std::string List(const C& c) {
  std::string o = "[";
  for (const auto& x : c) o += (o.size() > 1 ? "," : "") + x;
  return o + "]";
}
float Num(std::istream& is) { std::string s; is >> s; return std::strtof(s.c_str(), nullptr); }
OhlcTick Tick(std::istream& is) {
  OhlcTick t;
  long long ts;
  is >> ts;
  t.set_timestamp_sec(ts);
  t.set_open(Num(is)); t.set_high(Num(is)); t.set_low(Num(is)); t.set_close(Num(is)); t.set_volume(Num(is));
  return t;
}
std::string Fs(std::initializer_list<float> fs) {
  std::string o = "[";
  for (float f : fs) o += (o.size() > 1 ? "," : "") + ME(f);
  return o + "]";
}
// A trader that sells or buys as told and remembers what it was fed.
struct Fed { OhlcTick t; float b, q; };
struct Scripted : public Trader {
  Scripted(const std::vector<int>& s, std::vector<Fed>* f) : script(s), fed(f) {}
  void Update(const OhlcTick& t, const std::vector<float>&, float b, float q, std::vector<Order>& os) override {
    fed->push_back({t, b, q});
    const int what = script.empty() ? 0 : script[(fed->size() - 1) % script.size()];
    if (what == 0 || (what > 0 ? q : b) < 1e-3f) return;
    Order o;
    o.set_type(Order::MARKET);
    o.set_side(what > 0 ? Order::BUY : Order::SELL);
    if (what > 0) o.set_quote_amount(q * what / 10); else o.set_base_amount(b * -what / 10);
    os.push_back(o);
  }
  std::string GetInternalState() const override { return ""; }
  std::vector<int> script;
  std::vector<Fed>* fed;
};
struct Emitter : public TraderEmitter {
  std::string GetName() const override { return "scripted"; }
  std::unique_ptr<Trader> NewTrader() const override {
    fed.emplace_back(new std::vector<Fed>);
    return std::unique_ptr<Trader>(new Scripted(script, fed.back().get()));
  }
  std::vector<int> script;
  mutable std::vector<std::unique_ptr<std::vector<Fed>>> fed;
};
std::string Report(std::istream& is) {
  AccountConfig a;
  EvaluationConfig e;
  Emitter em;
  OhlcHistory ticks;
  std::string w;
  while (is >> w) {
    if (w == "eval") {
      long long s, t;
      int months, fast;
      is >> s >> t >> months >> fast;
      if (s) e.set_start_timestamp_sec(s);
      if (t) e.set_end_timestamp_sec(t);
      if (months) e.set_evaluation_period_months(months);
      e.set_fast_eval(fast);
      a.set_start_base_balance(Num(is)); a.set_start_quote_balance(Num(is));
      a.set_market_liquidity(.5f);
      a.mutable_market_order_fee_config()->set_relative_fee(.005f);
    } else if (w == "script") {
      int n, x;
      is >> n;
      while (n--) { is >> x; em.script.push_back(x); }
    } else if (w == "t") {
      ticks.push_back(Tick(is));
    }
  }
  const EvaluationResult r = EvaluateTrader(a, e, ticks, nullptr, em, nullptr);
  std::vector<std::string> ps;
  for (int i = 0; i < r.period_size(); ++i) {
    const auto& x = r.period(i).result();
    std::vector<std::string> fs;
    if (i < static_cast<int>(em.fed.size()))
      for (const Fed& f : *em.fed[i]) fs.push_back("{\"x\":" + T(f.t) + ",\"b\":" + ME(f.b) + ",\"q\":" + ME(f.q) + "}");
    ps.push_back("{\"fed\":" + List(fs) + ",\"hb\":" + B(x.has_base_volatility()) + ",\"ht\":" + B(x.has_trader_volatility()) + ",\"bv\":" +
                 ME(x.base_volatility()) + ",\"tv\":" + ME(x.trader_volatility()) + "}");
  }
  return "{\"traders\":" + std::to_string(em.fed.size()) + ",\"periods\":" + List(ps) + "}";
}
// n flat periods of the given size right before the tick that follows.
void Burn(std::istream& is, long long period, const std::function<void(const OhlcTick&)>& update) {
  long long n, first;
  is >> n >> first;
  const float p = Num(is);
  OhlcTick t;
  t.set_open(p); t.set_high(p); t.set_low(p); t.set_close(p); t.set_volume(1);
  for (long long k = n; k > 0; --k) {
    t.set_timestamp_sec((first / period - k) * period + k % period);
    update(t);
  }
}
std::string Run(const std::string&, std::istream& is) {
  std::string kind, w;
  int n = 0, period = 0;
  is >> kind >> t0;
  if (kind == "report") return Report(is);
  std::vector<std::string> evs;
  std::string init = "[]", after = "[]";
  int n0 = -1;
  if (kind == "agg") {
    int mask;
    is >> n >> period >> mask;
    LastNOhlcTicks a(n, period);
    std::vector<std::string> calls;
    auto call = [&](const char* k, const OhlcTick* old, const OhlcTick& now) {
      const auto& d = a.GetLastNOhlcTicks();
      const bool top = !d.empty() && d.back().SerializeAsString() == now.SerializeAsString();
      calls.push_back(std::string("{\"k\":\"") + k + "\",\"old\":[" + (old ? T(*old) : "") + "],\"new\":" + T(now) + ",\"size\":" +
                      std::to_string(d.size()) + ",\"top\":" + B(top) + "}");
    };
    if (mask & 1) a.RegisterLastTickUpdatedCallback([&](const OhlcTick& o, const OhlcTick& x) { call("updated", &o, x); });
    if (mask & 2) a.RegisterNewTickAddedCallback([&](const OhlcTick& x) { call("added", nullptr, x); });
    if (mask & 4) a.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& o, const OhlcTick& x) { call("removed", &o, x); });
    n0 = a.GetLastNOhlcTicks().size();
    while (is >> w) {
      if (w == "burn") { Burn(is, period, [&](const OhlcTick& t) { a.Update(t); calls.clear(); }); continue; }
      calls.clear();
      a.Update(Tick(is));
      std::vector<std::string> win;
      for (const OhlcTick& t : a.GetLastNOhlcTicks()) win.push_back(T(t));
      evs.push_back("{\"win\":" + List(win) + ",\"calls\":" + List(calls) + "}");
    }
  } else if (kind == "win") {
    long long burn, a, b;
    is >> n >> burn >> a >> b;
    SlidingWindowMeanAndVariance mv(n);
    SlidingWindowMinimum mn(n > 0 ? n : 1);
    SlidingWindowMaximum mx(n > 0 ? n : 1);
    auto obs = [&] {
      return Fs({mn.GetSlidingWindowMinimum(), mx.GetSlidingWindowMaximum(), mv.GetMean(), mv.GetVariance(), mv.GetStandardDeviation()});
    };
    auto counts = [&] {
      std::ostringstream o;
      o << "[" << mv.GetNumValues() << "," << mn.GetNumValues() << "," << mx.GetNumValues() << "," << mv.GetWindowSize() << "," << mn.GetWindowSize()
        << "," << mx.GetWindowSize() << "]";
      return o.str();
    };
    n0 = mv.GetNumValues() + mn.GetNumValues() + mx.GetNumValues() + mv.GetWindowSize() + mn.GetWindowSize() + mx.GetWindowSize();
    init = Fs({mv.GetMean(), mv.GetVariance(), mv.GetStandardDeviation()});
    for (long long i = 0; i < burn; ++i) {  // unrecorded values first
      const float v = i * a % b;
      mv.AddNewValue(v); mn.AddNewValue(v); mx.AddNewValue(v);
    }
    while (is >> w) {
      const float v = Num(is);
      if (w == "a") { mv.AddNewValue(v); mn.AddNewValue(v); mx.AddNewValue(v); }
      else { mv.UpdateCurrentValue(v); mn.UpdateCurrentValue(v); mx.UpdateCurrentValue(v); }
      evs.push_back("{\"r\":" + obs() + ",\"n\":" + counts() + "}");
    }
  } else if (kind == "emah") {
    ExponentialMovingAverageHelper h;
    n0 = h.GetNumValues();
    init = Fs({h.GetExponentialMovingAverage()});
    while (is >> w) {
      const float v = Num(is), wt = Num(is);
      if (w == "a") h.AddNewValue(v, wt); else h.UpdateCurrentValue(v, wt);
      evs.push_back("{\"r\":" + Fs({h.GetExponentialMovingAverage()}) + ",\"n\":[" + std::to_string(h.GetNumValues()) + "]}");
    }
  } else {
    std::function<void(const OhlcTick&, float, float)> update;
    std::function<std::string()> obs;
    std::function<int()> count;
    std::shared_ptr<void> hold;
    if (kind == "sma") {
      is >> n >> period;
      auto x = std::make_shared<SimpleMovingAverage>(n, period);
      update = [x](const OhlcTick& t, float, float) { x->Update(t); };
      obs = [x] { return Fs({x->GetSimpleMovingAverage()}); };
      count = [x] { return x->GetNumOhlcTicks(); };
    } else if (kind == "ema") {
      const float s = Num(is);
      is >> n >> period;
      auto x = std::make_shared<ExponentialMovingAverage>(s, n, period);
      update = [x](const OhlcTick& t, float, float) { x->Update(t); };
      obs = [x] { return Fs({x->GetExponentialMovingAverage()}); };
      count = [x] { return x->GetNumOhlcTicks(); };
    } else if (kind == "macd") {
      int s, g;
      is >> n >> s >> g >> period;
      auto x = std::make_shared<MovingAverageConvergenceDivergence>(n, s, g, period);
      update = [x](const OhlcTick& t, float, float) { x->Update(t); };
      obs = [x] {
        return Fs({x->GetFastExponentialMovingAverage(), x->GetSlowExponentialMovingAverage(), x->GetMACDSeries(), x->GetMACDSignal(), x->GetDivergence()});
      };
      count = [x] { return x->GetNumOhlcTicks(); };
    } else if (kind == "rsi") {
      is >> n >> period;
      auto x = std::make_shared<RelativeStrengthIndex>(n, period);
      update = [x](const OhlcTick& t, float, float) { x->Update(t); };
      obs = [x] { return Fs({x->GetUpwardChangeModifiedMovingAverage(), x->GetDownwardChangeModifiedMovingAverage(), x->GetRelativeStrengthIndex()}); };
      count = [x] { return x->GetNumOhlcTicks(); };
    } else if (kind == "so") {
      is >> n >> period;
      auto x = std::make_shared<StochasticOscillator>(n, period);
      update = [x](const OhlcTick& t, float, float) { x->Update(t); };
      obs = [x] { return Fs({x->GetLow(), x->GetHigh(), x->GetK(), x->GetFastD(), x->GetSlowD()}); };
      count = [x] { return x->GetNumOhlcTicks(); };
    } else {
      is >> n >> period;
      auto x = std::make_shared<Volatility>(n, period);
      update = [x](const OhlcTick& t, float b, float q) { x->Update(t, b, q); };
      obs = [x] { return Fs({x->GetVolatility()}); };
      count = [x] { return x->GetNumOhlcTicks(); };
    }
    n0 = count();
    init = obs();
    while (is >> w) {
      if (w == "burn") { Burn(is, period, [&](const OhlcTick& t) { update(t, 1, 0); }); after = obs(); continue; }
      const OhlcTick t = Tick(is);
      const float b = kind == "vol" ? Num(is) : 0, q = kind == "vol" ? Num(is) : 0;
      update(t, b, q);
      evs.push_back("{\"r\":" + obs() + ",\"n\":[" + std::to_string(count()) + "]}");
    }
  }
  return "{\"n0\":" + std::to_string(n0) + ",\"init\":" + init + ",\"after\":" + after + ",\"ev\":" + List(evs) + "}";
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
