#include "common.hh"
#include "stack.hh"
#include "netcode/dispatch.hh"
// C08: malformed packets. Also C18: which packets are accepted by whom.
struct sinkc { unsigned long* sum; unsigned long* n; void operator()(const char* p, std::size_t k) { for (std::size_t i = 0; i < k; ++i) *sum += (unsigned char)p[i]; ++*n; } };
static void hex(const bytes& b) { char t[4]; for (std::size_t i = 0; i < b.size() && i < 200; ++i) { std::snprintf(t, 4, "%02x", b[i]); story << t; } story << "(" << b.size() << ") "; }

int main(int argc, char** argv)
{
  init(argc, argv, "random sequences of up to 60 valid, mutated, truncated and made-up packets, fields 4, 8, 16, 32");
  rng R(seed0);
  do try
  {
    const int w = (const int[]){4, 8, 16, 32}[R(4)]; const int word = w == 16 ? 2 : w == 32 ? 4 : 1;
    const bool ordered = R(2);
    begin_case("seed " + std::to_string(R.s) + " w=" + std::to_string(w) + " ordered=" + std::to_string(ordered));
    std::vector<bytes> out, acks; unsigned long sum = 0, nd = 0;
    ntc::encoder<collect> enc(w, collect{&out, {}}); ntc::decoder<collect, sinkc> dec(w, ordered ? ntc::in_order::yes : ntc::in_order::no, collect{&acks, {}}, sinkc{&sum, &nd});
    dec.set_ack_period(std::chrono::milliseconds{0}); dec.set_ack_nb_packets(std::uint16_t(1 + R(20))); enc.set_rate(1 + R(4)); if (R(2)) enc.set_window_size(1 + R(12)); enc.set_adaptive(R(2));
    std::vector<bytes> pool; const int steps = 1 + R(60); std::uint32_t around = 0;
    auto ids = [&](bytes& b) {
      const unsigned ne = R(8) ? R(5) : R(3) ? R(300) : unsigned(R(65536)); put(b, R(10) ? ne : ne + 1, 2);
      if (ne) { put(b, R(4) ? std::uint32_t(around + R(6)) : std::uint32_t(R.next()), 4); for (unsigned i = 1; i < ne && i < 400; ++i) { put(b, R(3) ? 1 + R(3) : R(256), 1); put(b, R(3) ? R(4) : R(65536), 2); } }
    };
    for (int k = 0; k < steps; ++k)
    {
      out.clear();
      const int what = R(10);
      bytes b;
      if (what < 3 || pool.empty())
      {
        std::size_t n = (1 + R(40) + word - 1) / word * word; ntc::data d(n); for (auto& c : d) c = char(R(256));
        enc(std::move(d)); for (auto& o : out) pool.push_back(o); around++;
        if (pool.size() > 30) pool.erase(pool.begin(), pool.begin() + 15);
        if (out.empty()) continue; b = out[R(out.size())]; if (R.chance(50)) continue;
      }
      else if (what < 4) { const auto a0 = acks.size(); dec.generate_ack(); b = acks.back(); if (R(2)) acks.clear(); }
      else if (what < 7) { b = pool[R(pool.size())]; }
      else if (what == 7) { put(b, 2, 1); put(b, R(3) ? std::uint32_t(around + R(6)) : std::uint32_t(R.next()), 4); const unsigned n = R(3) ? 1 + R(40) : R(3) ? 0 : 60000; put(b, R(6) ? n : R(65536), 2); for (unsigned i = 0; i < n && (R(4) || n < 100); ++i) b.push_back((unsigned char)R(256)); }
      else if (what == 8) { put(b, 1, 1); put(b, R(3) ? std::uint32_t(R(40)) : std::uint32_t(R.next()), 4); const unsigned n = R(3) ? 1 + R(40) : R(3) ? 0 : 5000; put(b, R(6) ? n : R(65536), 2); for (unsigned i = 0; i < n; ++i) b.push_back((unsigned char)R(256)); ids(b); put(b, R(2) ? R(60) : R(65536), 2); }
      else { put(b, 0, 1); put(b, R(65536), 2); ids(b); }
      // mutate
      if (R.chance(45)) { const int m = 1 + R(3); for (int i = 0; i < m && !b.empty(); ++i) switch (R(5)) { case 0: b[R(b.size())] = (unsigned char)R(256); break; case 1: b.resize(1 + R(b.size())); break; case 2: b.push_back((unsigned char)R(256)); break; case 3: b[R(std::min<std::size_t>(b.size(), 12))] ^= (unsigned char)(1 << R(8)); break; default: b[b.size() - 1 - R(std::min<std::size_t>(b.size(), 4))] = (unsigned char)R(256); } }
      if (R.chance(3)) { b.resize(1 + R(12)); for (auto& c : b) c = (unsigned char)R(4); }
      hex(b);
      const int to = R(8); // 0 encoder, 1 dispatch, else decoder
      const auto win0 = enc.window(); const auto rate0 = enc.rate(); const auto nd0 = nd; const auto miss0 = dec.nb_missing_sources(); const auto a0 = acks.size();
      const bool ok = to == 0 ? b[0] == 0 : to == 1 ? b[0] <= 2 : b[0] == 1 || b[0] == 2;
      int res = 0; std::size_t rd = 0;
      try
      {
        // an exactly sized heap copy, so that every access outside the packet is seen
        if (to == 0) rd = enc(pkt(b)); else if (to == 1) rd = ntc::dispatch(enc, dec, pkt(b)); else { auto p = pkt(b); if (R(2)) rd = dec(p); else rd = dec(std::move(p)); }
      }
      catch (const ntc::packet_type_error&) { res = 1; }
      catch (const ntc::overflow_error&) { res = 2; }
      catch (const std::exception& e) { CK("C08 C18", false, "another exception: " << e.what()); }
      CK("C18", (res == 1) == !ok, (to == 0 ? "the encoder" : to == 1 ? "dispatch" : "the decoder") << (res == 1 ? " rejected" : " accepted") << " a packet of type " << int(b[0]));
      CK("C08", res != 0 || rd <= b.size(), rd << " bytes reported as read of a packet of " << b.size());
      if (res) { CK("C18", enc.window() == win0 && enc.rate() == rate0 && nd == nd0 && dec.nb_missing_sources() == miss0 && acks.size() == a0, "a rejected packet changed something"); }
      CK("C08", enc.rate() >= 1, "the rate is 0");
    }
  } catch (const desync&) {} while (elapsed() < budget);
  finish(0);
}
