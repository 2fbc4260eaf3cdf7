#include "common.hh"
#include "stack.hh"
// C14: content and cadence of acks, against a second detail::decoder that is fed the same packets and a controlled clock.
static long long clock_ms = 1000000;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(std::chrono::duration_cast<steady_clock::duration>(std::chrono::microseconds(clock_ms))); } } } }
// clock_ms counts microseconds

struct event { bool ack; unsigned nb; std::vector<std::uint32_t> ids; std::vector<char> d; };
struct onack { std::vector<event>* ev; bytes cur; void operator()(const char* p, std::size_t n) { cur.insert(cur.end(), p, p + n); }
  void operator()() { event e; e.ack = true; std::size_t o = 0; auto g = [&](int n) { std::uint32_t r = 0; while (n--) { CK("C14", o < cur.size(), "an emitted ack is too short"); r = r * 256 + cur[o++]; } return r; };
    CK("C14", g(1) == 0, "an ack has another type"); e.nb = g(2); const unsigned ne = g(2); if (ne) { e.ids.push_back(g(4)); for (unsigned i = 1; i < ne; ++i) { unsigned c = g(1), v = g(2); while (c--) e.ids.push_back(e.ids.back() + v); } }
    CK("C14", o == cur.size(), "an ack has " << cur.size() << " bytes instead of " << o); cur.clear(); ev->push_back(e); } };
struct ondata { std::vector<event>* ev; void operator()(const char* p, std::size_t n) { event e; e.ack = false; e.nb = 0; e.d.assign(p, p + n); ev->push_back(e); } };

int main(int argc, char** argv)
{
  init(argc, argv, "random histories of up to 300 packets, thresholds 1 to 200, periods 0 to 200 ms, a controlled clock");
  rng R(seed0);
  do try
  {
    const int w = (const int[]){4, 8, 16}[R(3)]; const bool ordered = R(2); const auto ord = ordered ? ntc::in_order::yes : ntc::in_order::no;
    begin_case("seed " + std::to_string(R.s) + " w=" + std::to_string(w) + " ordered=" + std::to_string(ordered));
    std::vector<bytes> out; ntc::encoder<collect> enc(w, collect{&out, {}}); enc.set_rate(1 + R(6)); enc.set_window_size(1 + R(60));
    std::vector<event> got, want;
    ntc::decoder<onack, ondata> dec(w, ord, onack{&got, {}}, ondata{&got});
    long long t0 = clock_ms, period = 100000; unsigned thr = 50; std::uint16_t nb = 0; unsigned long nacks = 0;
    ntc::detail::decoder* ref = nullptr;
    auto ack_now = [&] { event e; e.ack = true; e.nb = nb; for (auto& s : ref->sources()) e.ids.push_back(s.first); want.push_back(e); nb = 0; ++nacks; };
    auto maybe = [&] { if (nb >= thr || (period != 0 && clock_ms - t0 >= period)) { ack_now(); t0 = clock_ms; } };
    ntc::detail::decoder rdec(w, [&](const ntc::detail::decoder_source& s) { event e; e.ack = false; e.nb = 0; e.d.assign(s.symbol(), s.symbol() + s.symbol_size()); want.push_back(e); maybe(); }, ord);
    ref = &rdec; std::vector<bytes> none; collect sh{&none, {}}; ntc::detail::packetizer<collect> pz(sh);
    std::vector<bytes> flight; const int loss = R(40), steps = 5 + R(R(5) ? 80 : 300);
    // sometimes only repairs that bring nothing arrive, to make the counter large
    for (int k = 0; k < steps; ++k)
    {
      const auto op = R(40);
      if (op == 0) { const unsigned v = 1 + R(R(2) ? 10 : 200); thr = std::min(v, 128u); story << "threshold(" << v << ") "; dec.set_ack_nb_packets(std::uint16_t(v)); CK("C14", dec.ack_nb_packets() == thr, "the threshold is " << dec.ack_nb_packets() << " instead of " << thr); }
      else if (op == 1) { const int v = R(3) ? R(200) : 0; period = v * 1000ll; story << "period(" << v << ") "; dec.set_ack_period(std::chrono::milliseconds(v)); CK("C14", dec.ack_period().count() == v, "the period is " << dec.ack_period().count()); }
      else if (op == 2) { story << "generate_ack "; ack_now(); dec.generate_ack(); }
      else if (op == 3) { story << "maybe_ack "; maybe(); dec.maybe_ack(); }
      else if (op < 12) { long long d = R(3) ? R(30000) : R(250000); if (R(5) == 0 && period) d = std::max(0ll, period - (clock_ms - t0)) - (R(2) ? 1 : 0); if (d < 0) d = 0; clock_ms += d; story << "+" << d << "us "; }
      else if (op == 13 && R(8) == 0) { bytes b; put(b, 1, 1); put(b, 0xffff0000u + k, 4); put(b, 1, 2); put(b, 0, 1); put(b, 0, 2); put(b, 0, 2); const unsigned c = R(2) ? R(70) : 65400 + R(400); story << c << " empty repairs "; for (unsigned i = 0; i < c; ++i) { dec(pkt(b)); ++nb; } }
      else
      {
        out.clear(); std::size_t n = 2 + 2 * R(12); ntc::data d(n); for (auto& c : d) c = char(R(256)); enc(std::move(d)); for (auto& b : out) if (!R.chance(loss)) flight.push_back(b);
        while (!flight.empty() && R(3)) { const std::size_t i = R(3) ? 0 : R(flight.size()); const bytes b = flight[i]; if (!R.chance(10)) flight.erase(flight.begin() + i); story << (b[0] == 1 ? "r " : "s "); ++nb;
          if (b[0] == 2) { auto res = pz.read_source(pkt(b)); rdec(std::move(res.first)); } else { auto res = pz.read_repair(pkt(b)); rdec(std::move(res.first)); }
          dec(pkt(b)); }
      }
      CK("C14", got.size() == want.size(), got.size() << " acks and data emitted instead of " << want.size());
      for (std::size_t i = 0; i < got.size(); ++i)
      {
        CK("C14", got[i].ack == want[i].ack, "event " << i << " is " << (got[i].ack ? "an ack" : "a datum"));
        CK("C14", got[i].nb == want[i].nb, "an ack counts " << got[i].nb << " packets instead of " << want[i].nb);
        CK("C14", got[i].ids == want[i].ids, "an ack lists " << got[i].ids.size() << " identifiers, the decoder holds " << want[i].ids.size());
        CK("C14", got[i].d == want[i].d, "other data");
      }
      got.clear(); want.clear();
      CK("C14", dec.nb_sent_acks() == nacks, "nb_sent_acks() is " << dec.nb_sent_acks() << " instead of " << nacks);
    }
  } catch (const desync&) {} while (elapsed() < budget);
  finish(0);
}
