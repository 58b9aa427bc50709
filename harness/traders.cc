// Feeds tick and balance histories to the bundled traders, recording orders and state.
#include <memory>
#include "common.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
using namespace trader;
using verif::B;
using verif::ME;
namespace {
std::string Orders(const std::vector<Order>& os) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < os.size(); ++i) {
    const Order& x = os[i];
    o << (i ? "," : "") << "{\"ty\":\"" << Order::Type_Name(x.type()) << "\",\"sd\":\"" << Order::Side_Name(x.side())
      << "\",\"hb\":" << B(x.has_base_amount()) << ",\"hq\":" << B(x.has_quote_amount()) << ",\"hp\":" << B(x.has_price())
      << ",\"ba\":" << ME(x.base_amount()) << ",\"qa\":" << ME(x.quote_amount()) << ",\"pr\":" << ME(x.price()) << "}";
  }
  return o.str() + "]";
}
std::string Run(const std::string&, std::istream& is) {
  std::string w;
  std::unique_ptr<TraderEmitter> emitter;
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  std::unique_ptr<Trader> trader;
  std::ostringstream o;
  bool first = true;
  auto num = [&] { std::string s; is >> s; return std::strtof(s.c_str(), nullptr); };
  while (is >> w) {
    if (w == "reb") {
      RebalancingTraderConfig c;
      c.set_alpha(num());
      c.set_epsilon(num());
      emitter.reset(new RebalancingTraderEmitter(c));
    } else if (w == "stop") {
      StopTraderConfig c;
      c.set_stop_order_margin(num());
      c.set_stop_order_move_margin(num());
      c.set_stop_order_increase_per_day(num());
      c.set_stop_order_decrease_per_day(num());
      emitter.reset(new StopTraderEmitter(c));
    } else if (w == "factory") {
      is >> w;
      emitter = GetTrader(w);
    } else if (w == "batch") {
      size_t k;
      is >> w >> k;
      batch = GetBatchOfTraders(w);
      emitter = k < batch.size() ? std::move(batch[k]) : GetTrader(w);
    } else if (w == "u") {
      if (!trader) trader = emitter->NewTrader();
      long long ts;
      int nsig;
      is >> ts;
      OhlcTick t;
      t.set_timestamp_sec(ts);
      t.set_open(num()); t.set_high(num()); t.set_low(num()); t.set_close(num()); t.set_volume(num());
      const float b = num(), q = num();
      std::vector<float> sig;
      is >> nsig;
      while (nsig--) sig.push_back(num());
      std::vector<Order> os, fresh;
      trader->Update(t, sig, b, q, os);
      emitter->NewTrader()->Update(t, {}, b, q, fresh);
      const std::string text = Orders(os);
      o << (first ? "{\"name\":" + verif::Esc(emitter->GetName()) + ",\"ev\":[" : std::string(","));
      first = false;
      o << "{\"o\":" << text << ",\"same\":" << B(text == Orders(fresh)) << ",\"st\":" << verif::Esc(trader->GetInternalState()) << "}";
    }
  }
  if (first) {
    o << "{\"name\":" << verif::Esc(emitter ? emitter->GetName() : "") << ",\"batch\":" << batch.size() << ",\"ev\":[";
  }
  o << "]}";
  return o.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
