// Runs EvaluateBatchOfTraders under prescribed interleavings of the traders'
// updates and compares with one-by-one evaluation.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <thread>
#include "sim.h"
using namespace trader;
using verif::Digest;
using verif::HashTrader;
using verif::Sim;
namespace {
// Prescribed order of updates (trader ids).  A wait that cannot be satisfied
// (for example because the implementation runs the tasks one by one) gives up
// after a moment and lets everything run freely.
struct Gate {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<int> order;
  size_t head = 0;
  bool open = true;
  int honoured = 0;
  void Step(int id) {
    std::unique_lock<std::mutex> lk(mu);
    if (open || head >= order.size()) return;
    if (!cv.wait_for(lk, std::chrono::milliseconds(60), [&] { return open || head >= order.size() || order[head] == id; })) {
      open = true;
      cv.notify_all();
      return;
    }
    if (!open && head < order.size()) { ++head; ++honoured; }
    cv.notify_all();
  }
};
Gate gate;
int nap = 0, slow = 0;
std::atomic<bool> slept{false};
// Short and long names, names with separators, a name that is all spaces after its number.
std::string NameOf(int name) {
  static const char* const tail[] = {"", "[0.25|0.5]", " x,y;z", "-a-rather-long-name-of-a-trader-with-a-great-many-parameters=0.125,0.25,0.5,1,2,4,8,16,32,64,128", "   "};
  return "t" + std::to_string(name) + tail[name % 5];
}
int NumberOf(const std::string& name) {
  const int n = name.size() > 1 ? std::atoi(name.c_str() + 1) : -1;
  return n >= 0 && NameOf(n) == name ? n : -1;
}
struct Emitter : public TraderEmitter {
  Emitter(const Sim& s, int i, int nm, bool g) : sim(s), id(i), name(nm), gated(g) {}
  std::string GetName() const override { return NameOf(name); }
  std::unique_ptr<Trader> NewTrader() const override {
    const int i = id;
    return std::unique_ptr<Trader>(new HashTrader(sim.pool, id, gated ? std::function<void(const OhlcTick&)>([i](const OhlcTick& t) {
      gate.Step(i);
      if (i == slow && !slept.exchange(true)) std::this_thread::sleep_for(std::chrono::milliseconds(150));
      if (nap > 0 && (t.timestamp_sec() / 7 + i) % nap == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
    }) : nullptr));
  }
  const Sim& sim;
  int id;
  int name;
  bool gated;
};
int D(const EvaluationResult& r) {
  Digest d;
  d.s(r.name()); d.s(r.account_config().SerializeAsString()); d.s(r.eval_config().SerializeAsString());
  d.f(r.score()); d.f(r.avg_gain()); d.f(r.avg_base_gain()); d.f(r.avg_total_executed_orders()); d.f(r.avg_total_fee());
  for (const auto& p : r.period()) {
    d.i(p.start_timestamp_sec()); d.i(p.end_timestamp_sec()); d.f(p.final_gain()); d.f(p.base_final_gain());
    d.i(verif::ResultDigest(p.result()));
  }
  return d.get();
}
std::string Run(const std::string&, std::istream& is) {
  Sim s;
  std::string w;
  std::vector<int> ids, names;
  gate.order.clear();
  gate.head = 0;
  gate.open = true;
  gate.honoured = 0;
  nap = slow = 0;
  slept = false;
  while (is >> w) {
    if (s.Word(w, is)) continue;
    int n, x;
    is >> n;
    if (w == "ids") while (n--) { is >> x; ids.push_back(x); }
    else if (w == "names") while (n--) { is >> x; names.push_back(x); }
    else if (w == "order") while (n--) { is >> x; gate.order.push_back(x); }
    else if (w == "nap") nap = n;
    else if (w == "slow") slow = n;
  }
  std::unique_ptr<SideInput> side;
  if (s.has_side) side.reset(new SideInput(s.side));
  std::ostringstream o;
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  for (size_t i = 0; i < ids.size(); ++i) batch.emplace_back(new Emitter(s, ids[i], names[i], true));
  gate.open = gate.order.empty();
  const std::vector<EvaluationResult> got = EvaluateBatchOfTraders(s.cfg, s.ec, s.ticks, side.get(), batch);
  o << "{\"honoured\":" << gate.honoured << ",\"got\":[";
  for (size_t i = 0; i < got.size(); ++i)
    o << (i ? "," : "") << "{\"name\":" << NumberOf(got[i].name()) << ",\"d\":" << D(got[i]) << "}";
  o << "],\"alone\":[";
  std::unique_ptr<SideInput> side1;
  if (s.has_side) side1.reset(new SideInput(s.side));
  for (size_t i = 0; i < ids.size(); ++i) {
    Emitter e(s, ids[i], names[i], false);
    o << (i ? "," : "") << D(EvaluateTrader(s.cfg, s.ec, s.ticks, side1.get(), e, nullptr));
  }
  o << "]}";
  return o.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
