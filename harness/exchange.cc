// Runs ExecuteTrader with a scripted (or input-dependent) trader and records
// every log row, execution and trader update.  Also SideInput look-ups.
#include "base/account.h"
#include "base/side_input.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "common.h"
#include <memory>
using namespace trader;
using verif::B;
using verif::Digest;
using verif::Scale;

namespace {
Scale sb, sq, sp, sv;
int64_t t0 = 0;

struct Ev {
  char k;            // r row, x exec, u update, s state
  int i = -1;        // tick index
  bool same = true;  // the tick is the input tick
  float b = 0, q = 0, f = 0;
  Order order;
  std::vector<Order> orders;
  std::vector<float> sig;
  size_t n0 = 0;
  std::string s;
};
struct RunSpec {
  std::vector<OhlcTick> ticks;
  SideHistory side;
  bool has_side = false, fast = false, react = false;
  int log = 1;  // 0 none, 1 recorder, 2 csv
  int burn = 0;  // that many more side records before the first one
  int past = 0;  // that many flat traded ticks before the first one, unrecorded but counted
  bool busy = false;  // the trader buys and sells during them
  mutable int rows = 0, execs = 0, updates = 0, odd = 0;  // of the past; odd: not as it should be
  bool Past(const OhlcTick& t) const { return past > 0 && t.timestamp_sec() < ticks.front().timestamp_sec(); }
  std::vector<std::vector<Order>> script;
  std::vector<Order> pool;
};
bool Same(const RunSpec& r, int i, const OhlcTick& t) {
  return i >= 0 && r.ticks[i].SerializeAsString() == t.SerializeAsString();
}
// Several ticks may have the same time; then the first fitting one from the given index on is meant.
int Find(const RunSpec& r, const OhlcTick& t, int from) {
  int first = -1, next = -1;
  for (int i = 0; i < static_cast<int>(r.ticks.size()); ++i) {
    if (r.ticks[i].timestamp_sec() != t.timestamp_sec()) continue;
    if (first < 0) first = i;
    if (i < from) continue;
    if (Same(r, i, t)) return i;
    if (next < 0) next = i;
  }
  return next >= 0 ? next : first;
}
// The index of the tick of the next event of kind k, after the recorded ones.
int Next(const RunSpec& r, const OhlcTick& t, char k, const std::vector<Ev>& ev) {
  int cursor = 0, row = -1, upd = -1;
  for (size_t n = ev.size(); n > 0; --n) {
    const Ev& e = ev[n - 1];
    if (e.k != 's') cursor = std::max(cursor, e.i);
    if (e.k == 'r') row = std::max(row, e.i);
    if (e.k == 'u') upd = std::max(upd, e.i);
    if (row >= 0 && upd >= 0) break;
  }
  return Find(r, t, k == 'r' ? row + 1 : k == 'x' ? cursor : std::max(cursor, upd + 1));
}
int32_t Bi(float f) { return static_cast<int32_t>(verif::Bits(f == 0 ? 0.0f : f)); }
int Od(const Order& o) { Digest d; d.s(o.SerializeAsString()); return d.get(); }
int TickDigest(const OhlcTick& t) {
  Digest d; d.i(t.timestamp_sec() - t0); d.f(t.open()); d.f(t.high()); d.f(t.low()); d.f(t.close()); d.f(t.volume());
  return d.get();
}

class Recorder : public Logger {
 public:
  Recorder(const RunSpec& r, std::vector<Ev>& ev) : r_(r), ev_(ev) {}
  void LogExchangeState(const OhlcTick& t, const Account& a) override { Add('r', t, a); }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override { Add('x', t, a); if (!hidden_) ev_.back().order = o; }
  void LogTraderState(absl::string_view s) override {
    if (hidden_) return;
    Ev e; e.k = 's'; e.s = std::string(s); ev_.push_back(e);
  }
 private:
  bool hidden_ = false;
  void Add(char k, const OhlcTick& t, const Account& a) {
    hidden_ = r_.Past(t);
    if (hidden_) {
      if (k == 'r') ++r_.rows; else ++r_.execs;
      return;
    }
    Ev e; e.k = k; e.i = Next(r_, t, k, ev_); e.same = Same(r_, e.i, t);
    e.b = a.base_balance; e.q = a.quote_balance; e.f = a.total_fee;
    // A batch has at most a few hundred orders: this many records of one tick are a runaway simulation.
    if (ev_.size() > 1000 * (r_.ticks.size() + 1)) { std::fprintf(stderr, "runaway simulation\n"); std::_Exit(9); }
    ev_.push_back(e);
  }
  const RunSpec& r_;
  std::vector<Ev>& ev_;
};
// A trader may also have nothing to say.
std::string StateText(int n) { return n % 5 == 3 ? "" : "state " + std::to_string(n); }
class Script : public Trader {
 public:
  Script(const RunSpec& r, std::vector<Ev>& ev) : r_(r), ev_(ev) {}
  void Update(const OhlcTick& t, const std::vector<float>& sig, float b, float q, std::vector<Order>& orders) override {
    if (r_.Past(t)) {
      if (!orders.empty()) ++r_.odd;
      if (r_.busy && ++r_.updates < r_.past) {
        Order o;
        o.set_type(Order::MARKET);
        o.set_side(r_.updates % 2 ? Order::BUY : Order::SELL);
        o.set_base_amount(sb.real(2));
        orders.push_back(o);
      } else if (!r_.busy) {
        ++r_.updates;
      }
      return;
    }
    Ev e; e.k = 'u'; e.i = Next(r_, t, 'u', ev_); e.same = Same(r_, e.i, t); e.b = b; e.q = q; e.sig = sig; e.n0 = orders.size();
    const size_t before = e.n0;
    if (r_.react) {
      Digest d; d.i(n_); d.i(TickDigest(t)); for (float s : sig) d.f(s); d.f(b); d.f(q);
      const int h = d.get();
      for (int k = 0; k < h % 4 && !r_.pool.empty(); ++k) orders.push_back(r_.pool[(h / 4 + 7 * k) % r_.pool.size()]);
    } else if (n_ < r_.script.size()) {
      for (const Order& o : r_.script[n_]) orders.push_back(o);
    }
    ++n_;
    e.orders.assign(orders.begin() + before, orders.end());   // emitted now
    ev_.push_back(e);
  }
  std::string GetInternalState() const override { return StateText(n_); }
 private:
  const RunSpec& r_;
  std::vector<Ev>& ev_;
  size_t n_ = 0;
};

void ReadFee(std::istream& is, FeeConfig* f) {
  long long r, d, x, m;
  is >> r >> d >> x >> m;
  f->set_relative_fee(static_cast<float>(static_cast<double>(r) / d));
  f->set_fixed_fee(sq.real(x));
  f->set_minimum_fee(sq.real(m));
}
Order ReadOrder(std::istream& is) {
  int ty, sd, kd;
  long long am, pr;
  is >> ty >> sd >> kd >> am >> pr;
  Order o;
  o.set_type(ty == 0 ? Order::MARKET : ty == 1 ? Order::STOP : Order::LIMIT);
  o.set_side(sd == 0 ? Order::BUY : Order::SELL);
  if (kd == 0) o.set_base_amount(sb.real(am)); else o.set_quote_amount(sq.real(am));
  if (pr != 0 || am % 2 == 0) o.set_price(sp.real(pr));  // no price, or an explicit zero
  return o;
}
// Which of the orders would the real account fill now, and its state after.
void Can(std::ostream& out, const AccountConfig& cfg, const Account& a, const std::vector<Order>& em, const OhlcTick& t) {
  out << ",\"can\":[";
  std::ostringstream aft;
  for (size_t j = 0; j < em.size(); ++j) {
    Account copy = a;
    const bool ok = copy.ExecuteOrder(cfg, em[j], t);
    out << (j ? "," : "") << B(ok);
    aft << (j ? "," : "") << "[" << Bi(copy.base_balance) << "," << Bi(copy.quote_balance) << "," << Bi(copy.total_fee) << "]";
  }
  out << "],\"aft\":[" << aft.str() << "]";
}
std::string AcctJson(float b, float q, float f) {
  std::ostringstream o;
  o << "\"a\":[" << Bi(b) << "," << Bi(q) << "," << Bi(f) << "],\"n\":[" << sb.of(b).n << "," << sq.of(q).n << "," << sq.of(f).n << "]";
  return o.str();
}
std::string OrderJson(const Order& o) {
  std::ostringstream s;
  s << "{\"ty\":" << verif::Esc(Order::Type_Name(o.type())) << ",\"sd\":" << verif::Esc(Order::Side_Name(o.side()))
    << ",\"ba\":" << (o.has_base_amount() ? sb.of(o.base_amount()).n : 0) << ",\"qa\":" << (o.has_quote_amount() ? sq.of(o.quote_amount()).n : 0)
    << ",\"hb\":" << B(o.has_base_amount()) << ",\"pr\":" << sp.of(o.price()).n << "}";
  return s.str();
}
std::string DoRun(const AccountConfig& cfg, const RunSpec& r) {
  std::vector<Ev> ev;
  Recorder rec(r, ev);
  Script trader(r, ev);
  std::ostringstream xs, ts;
  CsvLogger csv(&xs, &ts);
  std::unique_ptr<SideInput> side;
  if (r.has_side) {
    SideHistory all;
    for (int k = r.side.empty() ? 0 : r.burn; k > 0; --k) {
      all.push_back(r.side.front());
      all.back().set_timestamp_sec(r.side.front().timestamp_sec() - k);
      for (int j = 0; j < all.back().signal_size(); ++j) all.back().set_signal(j, -5000 - k % 977);
    }
    all.insert(all.end(), r.side.begin(), r.side.end());
    side.reset(new SideInput(all));
  }
  Logger* lg = r.log == 0 ? nullptr : r.log == 1 ? static_cast<Logger*>(&rec) : &csv;
  OhlcHistory past;
  for (int k = r.past; k > 0; --k) {
    past.push_back(r.ticks.front());
    past.back().set_timestamp_sec(r.ticks.front().timestamp_sec() - k);
    const float p = r.ticks.front().close();
    past.back().set_open(p); past.back().set_high(p); past.back().set_low(p);
    if (past.back().volume() == 0) past.back().set_volume(1);
  }
  if (r.past > 0) past.insert(past.end(), r.ticks.begin(), r.ticks.end());
  const OhlcHistory& all_ticks = r.past > 0 ? past : r.ticks;
  const ExecutionResult res = ExecuteTrader(cfg, all_ticks.begin(), all_ticks.end(), side.get(), r.fast, trader, lg);
  std::ostringstream out;
  Account shadow;
  shadow.InitAccount(cfg);
  out << "{\"start\":{" << AcctJson(cfg.start_base_balance(), cfg.start_quote_balance(), 0) << "},\"ev\":[";
  std::vector<Order> em;
  size_t p = 0;
  bool first = true;
  int updates = 0;
  Digest ud;  // trader-visible history, independent of logging
  auto emit = [&](const Ev& e) {
    out << (first ? "" : ",");
    first = false;
    if (e.k == 's') {
      out << "{\"k\":\"st\",\"ok\":" << B(e.s == StateText(updates)) << "}";
      return;
    }
    Digest d;
    d.i(e.k); d.i(e.i); d.f(e.b); d.f(e.q); d.f(e.f); d.i(e.n0);
    if (e.i >= 0) d.i(TickDigest(r.ticks[e.i]));
    for (float s : e.sig) d.f(s);
    for (const Order& o : e.orders) d.i(Od(o));
    if (e.k == 'x') d.i(Od(e.order));
    out << "{\"k\":\"" << (e.k == 'r' ? "row" : e.k == 'x' ? "exec" : "upd") << "\",\"i\":" << e.i + 1
        << ",\"same\":" << B(e.same) << ",\"d\":" << d.get() << ",";
    if (e.k == 'u') {
      ++updates;
      ud.i(d.get());
      out << "\"b\":" << Bi(e.b) << ",\"q\":" << Bi(e.q) << ",\"n0\":" << e.n0 << ",\"sig\":[";
      for (size_t j = 0; j < e.sig.size(); ++j) out << (j ? "," : "") << verif::ToInt(e.sig[j], sv.mul, sv.div).n;
      out << "],\"raw\":[";
      for (size_t j = 0; j < e.sig.size(); ++j) out << (j ? "," : "") << verif::ToInt(e.sig[j], 1, 1).n;
      out << "],\"em\":[";
      for (size_t j = 0; j < e.orders.size(); ++j) out << (j ? "," : "") << Od(e.orders[j]);
      out << "]}";
      em = e.orders;
      return;
    }
    out << AcctJson(e.b, e.q, e.f);
    if (e.k == 'x') {
      shadow.base_balance = e.b; shadow.quote_balance = e.q; shadow.total_fee = e.f;
      out << ",\"od\":" << Od(e.order) << ",\"o\":" << OrderJson(e.order);
      Can(out, cfg, shadow, em, r.ticks[std::max(0, e.i)]);
    }
    out << "}";
  };
  for (size_t i = 0; i < r.ticks.size(); ++i) {
    out << (first ? "" : ",") << "{\"k\":\"t\",\"i\":" << i + 1;
    first = false;
    Can(out, cfg, shadow, em, r.ticks[i]);
    out << "}";
    while (p < ev.size() && (ev[p].i <= static_cast<int>(i))) emit(ev[p++]);
  }
  while (p < ev.size()) emit(ev[p++]);
  Digest rd;
  rd.f(res.start_base_balance()); rd.f(res.start_quote_balance()); rd.f(res.end_base_balance()); rd.f(res.end_quote_balance());
  rd.f(res.start_price()); rd.f(res.end_price()); rd.f(res.start_value()); rd.f(res.end_value());
  rd.i(res.total_executed_orders()); rd.f(res.total_fee());
  out << "],\"past\":[" << r.past << "," << r.rows << "," << r.updates << "," << r.execs << "," << (r.busy && r.past > 0 ? r.past - 1 : 0) << "," << r.odd
      << "],\"ud\":" << ud.get() << ",\"nu\":" << updates << ",\"rd\":" << rd.get() << ",\"res\":{\"empty\":" << B(res.ByteSizeLong() == 0)
      << ",\"sa\":[" << Bi(res.start_base_balance()) << "," << Bi(res.start_quote_balance()) << "],\"ea\":["
      << Bi(res.end_base_balance()) << "," << Bi(res.end_quote_balance()) << "," << Bi(res.total_fee()) << "],\"pb\":["
      << Bi(res.start_price()) << "," << Bi(res.end_price()) << "],\"xp\":["
      << (r.ticks.empty() ? 0 : Bi(r.ticks.front().close())) << "," << (r.ticks.empty() ? 0 : Bi(r.ticks.back().close()))
      << "],\"n\":[" << sb.of(res.start_base_balance()).n << "," << sq.of(res.start_quote_balance()).n << ","
      << sb.of(res.end_base_balance()).n << "," << sq.of(res.end_quote_balance()).n << "],\"p\":["
      << sp.of(res.start_price()).n << "," << sp.of(res.end_price()).n << "],\"v\":["
      << sq.of(res.start_value()).n << "," << sq.of(res.end_value()).n << "],\"orders\":" << res.total_executed_orders() << "}";
  if (r.log == 2) {
    auto lines = [&](const std::string& s) {
      std::istringstream is(s);
      std::string l;
      out << "[";
      bool f1 = true;
      while (std::getline(is, l)) { out << (f1 ? "" : ",") << verif::Esc(l); f1 = false; }
      out << "]";
    };
    out << ",\"xlog\":"; lines(xs.str());
    out << ",\"tlog\":"; lines(ts.str());
    out << ",\"nl\":" << B((xs.str().empty() || xs.str().back() == '\n') && (ts.str().empty() || ts.str().back() == '\n'));
  }
  out << "}";
  return out.str();
}
std::string Lookups(const RunSpec& r, std::istream& is, int n) {
  const SideInput side(r.side);
  std::ostringstream out;
  out << "[";
  for (int k = 0; k < n; ++k) {
    long long dt;
    int hint;
    is >> dt >> hint;
    const int plain = side.GetSideInputIndex(t0 + dt);
    const int hinted = side.GetSideInputIndex(t0 + dt, hint);
    std::vector<float> sig{-7};
    std::ostringstream s, one;
    if (plain >= 0) {
      side.GetSideInputSignals(plain, sig);
      for (int j = 0; j < side.GetNumberOfSignals(); ++j) one << (j ? "," : "") << verif::ToInt(side.GetSideInputSignal(plain, j), sv.mul, sv.div).n;
    }
    for (size_t j = 1; j < sig.size(); ++j) s << (j > 1 ? "," : "") << verif::ToInt(sig[j], sv.mul, sv.div).n;
    out << (k ? "," : "") << "{\"t\":" << dt << ",\"hint\":" << hint + 1 << ",\"plain\":" << plain + 1 << ",\"hinted\":" << hinted + 1 << ",\"kept\":" << B(sig[0] == -7)
        << ",\"ts\":" << (plain >= 0 ? side.GetSideInputTimestamp(plain) - t0 : 0) << ",\"sig\":[" << s.str() << "],\"one\":[" << one.str() << "],\"cnt\":["
        << side.GetNumberOfRecords() << "," << side.GetNumberOfSignals() << "]}";
  }
  out << "]";
  return out.str();
}
std::string Run(const std::string&, std::istream& is) {
  AccountConfig cfg;
  std::vector<RunSpec> runs;
  std::string w, look = "[]";
  while (is >> w) {
    if (w == "scale") {
      is >> sb.mul >> sb.div >> sq.mul >> sq.div >> sp.mul >> sp.div >> sv.mul >> sv.div >> t0;
    } else if (w == "cfg") {
      long long bu, qu, ln, ld, rn, rd, b0, q0;
      is >> bu >> qu >> ln >> ld >> rn >> rd >> b0 >> q0;
      cfg.set_start_base_balance(sb.real(b0));
      cfg.set_start_quote_balance(sq.real(q0));
      cfg.set_base_unit(sb.real(bu));
      cfg.set_quote_unit(sq.real(qu));
      cfg.set_market_liquidity(static_cast<float>(static_cast<double>(ln) / ld));
      cfg.set_max_volume_ratio(static_cast<float>(static_cast<double>(rn) / rd));
      ReadFee(is, cfg.mutable_market_order_fee_config());
      ReadFee(is, cfg.mutable_stop_order_fee_config());
      ReadFee(is, cfg.mutable_limit_order_fee_config());
    } else if (w == "run") {  // log fast side react
      RunSpec r;
      int s, f, re;
      is >> r.log >> f >> s >> re;
      r.fast = f; r.has_side = s; r.react = re;
      runs.push_back(r);
    } else if (w == "burn") {
      is >> runs.back().burn;
    } else if (w == "past") {
      int b;
      is >> runs.back().past >> b;
      runs.back().busy = b;
    } else if (w == "like") {  // log fast: as the previous run
      RunSpec r = runs.back();
      int f;
      is >> r.log >> f;
      r.fast = f;
      runs.push_back(r);
    } else if (w == "t") {
      long long dt, o, h, l, c, v;
      is >> dt >> o >> h >> l >> c >> v;
      OhlcTick t;
      t.set_timestamp_sec(t0 + dt);
      t.set_open(sp.real(o)); t.set_high(sp.real(h)); t.set_low(sp.real(l)); t.set_close(sp.real(c));
      if (v != 0 || dt % 2) t.set_volume(sb.real(v));  // "no volume" may also be left out
      runs.back().ticks.push_back(t);
    } else if (w == "s") {
      long long dt, x;
      int n;
      is >> dt >> n;
      SideInputRecord s;
      s.set_timestamp_sec(t0 + dt);
      while (n--) { is >> x; s.add_signal(sv.real(x)); }
      runs.back().side.push_back(s);
    } else if (w == "e") {  // update number (from 0), order
      size_t k;
      is >> k;
      auto& sc = runs.back().script;
      if (sc.size() <= k) sc.resize(k + 1);
      sc[k].push_back(ReadOrder(is));
    } else if (w == "p") {
      runs.back().pool.push_back(ReadOrder(is));
    } else if (w == "look") {
      int n;
      is >> n;
      look = Lookups(runs.back(), is, n);
      runs.pop_back();
    }
  }
  std::ostringstream out;
  out << "{\"look\":" << look << ",\"runs\":[";
  for (size_t i = 0; i < runs.size(); ++i) out << (i ? "," : "") << DoRun(cfg, runs[i]);
  out << "]}";
  return out.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
