#include "common.hh"
#include "stack.hh"
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/error.h"
#include "netcode/c/packet.h"
#include "netcode/c/detail/check_error.hh"
// C17: the C interface side by side with the C++ interface; failing allocations.
static long fail_after = -1; static bool failing = false;
void* operator new(std::size_t n) { if (failing && fail_after >= 0 && fail_after-- == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (failing && fail_after >= 0 && fail_after-- == 0) return nullptr; return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

struct log_ { std::vector<bytes> pk, data; bytes cur; unsigned long ctx_errors = 0; };
static log_* expect_ctx = nullptr;
extern "C" { static void prep(void* c, const char* p, size_t n) { auto l = static_cast<log_*>(c); l->cur.insert(l->cur.end(), p, p + n); } static void send(void* c) { auto l = static_cast<log_*>(c); l->pk.push_back(l->cur); l->cur.clear(); } static void rdata(void* c, const char* p, size_t n) { auto l = static_cast<log_*>(c); l->data.emplace_back(p, p + n); } }
struct hp { log_* l; void operator()(const char* p, std::size_t n) { prep(l, p, n); } void operator()() { send(l); } };
struct hd { log_* l; void operator()(const char* p, std::size_t n) { rdata(l, p, n); } };
struct weird {};
struct myex : std::exception { std::string m; explicit myex(std::string s) : m(s) {} ~myex() noexcept {} const char* what() const noexcept override { return m.c_str(); } };

static void errors(rng& R)
{
  begin_case("check_error, seed " + std::to_string(R.s));
  ntc_error e; std::memset(&e, 0x5a, sizeof e); e.message = nullptr; std::string cur; bool has = false;
  for (int k = 0; k < 12; ++k)
  {
    const int what = R(8); story << what << " "; std::string m(R(40), 'a'); for (auto& c : m) c = char('a' + R(26)); if (R(5) == 0) m = "";
    int r = ntc::detail::check_error([&]() -> int { switch (what) { case 0: return 7; case 1: throw ntc::packet_type_error{ntc::packet(3)}; case 2: throw ntc::overflow_error{}; case 3: throw std::bad_alloc(); case 4: throw myex(m); case 5: throw weird{}; case 6: throw std::runtime_error(m); default: throw 42; } }, &e);
    const int want[] = {ntc_no_error, ntc_packet_type_error, ntc_overflow_error, ntc_no_memory, ntc_unknown_error, ntc_unknown_error, ntc_unknown_error, ntc_unknown_error};
    CHECK(int(e.type) == want[what], "error code " << int(e.type) << " instead of " << want[what]);
    CHECK(r == (what == 0 ? 7 : 0), "result " << r);
    if (what == 4 || what == 6) { CHECK(e.message && std::string(e.message) == m, "the message is not the one of the exception"); }
    if (what == 5 || what == 7) CHECK(e.message == nullptr, "a message is left although there is none");
    if (R(4) == 0) { delete[] e.message; e.message = nullptr; }
    const int v = R(2); bool ran = false; ntc::detail::check_error([&] { ran = true; if (v) throw ntc::overflow_error{}; }, &e); CHECK(ran && e.type == (v ? ntc_overflow_error : ntc_no_error), "void function: error code " << int(e.type));
  }
  delete[] e.message;
}

static void both(rng& R)
{
  const int w = (const int[]){4, 8, 16, 32}[R(4)]; const bool ord = R(2); const int word = w == 16 ? 2 : w == 32 ? 4 : 1;
  begin_case("side by side, seed " + std::to_string(R.s) + " w=" + std::to_string(w));
  log_ a, b; ntc_packet_handler ph{&a, prep, send}; ntc_data_handler dh{&a, rdata};
  auto ce = ntc_new_encoder(std::uint8_t(w), ph); auto cd = ntc_new_decoder(std::uint8_t(w), ord ? ntc_in_order_yes : ntc_in_order_no, ph, dh);
  ntc::encoder<hp> e(w, hp{&b}); ntc::decoder<hp, hd> d(w, ord ? ntc::in_order::yes : ntc::in_order::no, hp{&b}, hd{&b});
  ntc_decoder_set_ack_period(cd, 0); d.set_ack_period(std::chrono::milliseconds{0});
  ntc_error er; er.message = nullptr; er.type = ntc_unknown_error; std::vector<bytes> pool;
  const int steps = 5 + R(60);
  for (int k = 0; k < steps; ++k)
  {
    const auto op = R(20); er.type = ntc_error_type(R(5)); int want = ntc_no_error;
    if (op < 6)
    {
      const unsigned n = (1 + R(60) + word - 1) / word * word; std::vector<char> x(n); for (auto& c : x) c = char(R(256));
      ntc_data_t* nd; if (R(2)) nd = ntc_new_data_from(x.data(), std::uint16_t(n)); else { nd = ntc_new_data(std::uint16_t(R(2) ? n : 1 + R(80))); if (ntc_data_get_size(nd) != n) { ntc_data_resize(nd, std::uint16_t(n), &er); CHECK(er.type == ntc_no_error, "resize reports error " << int(er.type)); } std::memcpy(ntc_data_buffer(nd), x.data(), n); }
      CHECK(ntc_data_get_size(nd) == n, "a datum has size " << ntc_data_get_size(nd) << " instead of " << n); CHECK(std::memcmp(ntc_data_buffer(nd), x.data(), n) == 0, "a datum has other bytes");
      er.type = ntc_error_type(R(5)); story << "data(" << n << ") "; ntc_encoder_add_data(ce, nd, &er); e(ntc::data(x.begin(), x.end())); ntc_delete_data(nd);
    }
    else if (op < 8) { if (e.window() == 0) continue; story << "generate_repair "; ntc_encoder_generate_repair(ce, &er); e.generate_repair(); }
    else if (op < 9) { story << "generate_ack "; ntc_decoder_generate_ack(cd, &er); d.generate_ack(); }
    else if (op < 10) { const auto v = 1 + R(9); story << "rate "; ntc_encoder_set_rate(ce, v); e.set_rate(v); CHECK(ce->rate() == v, "set_rate"); er.type = ntc_no_error; }
    else if (op < 11) { const auto v = 1 + R(30); story << "window_size "; ntc_encoder_set_window_size(ce, v); e.set_window_size(v); CHECK(ce->window_size() == v, "set_window_size"); er.type = ntc_no_error; }
    else if (op < 12) { const bool v = R(2); story << "adaptive(" << v << ") "; ntc_encoder_set_adaptive(ce, v); e.set_adaptive(v); CHECK(ce->adaptive() == v, "set_adaptive"); er.type = ntc_no_error; }
    else if (op < 13) { const bool v = R(2); story << "systematic(" << v << ") "; ntc_encoder_set_code_type(ce, v ? ntc_systematic_yes : ntc_systematic_no); e.set_code_type(v ? ntc::systematic::yes : ntc::systematic::no); CHECK(ce->code_type() == e.code_type(), "set_code_type"); er.type = ntc_no_error; }
    else if (op < 14) { const unsigned v = 1 + R(150); story << "ack_nb_packets(" << v << ") "; ntc_decoder_set_ack_nb_packets(cd, std::uint16_t(v)); d.set_ack_nb_packets(std::uint16_t(v)); CHECK(cd->ack_nb_packets() == d.ack_nb_packets(), "set_ack_nb_packets"); const auto q = R(3000000); ntc_decoder_set_ack_period(cd, q); CHECK(cd->ack_period().count() == (long)q, "set_ack_period"); ntc_decoder_set_ack_period(cd, 0); er.type = ntc_no_error; }
    else
    {
      bytes p; if (pool.empty() || R(6) == 0) { p.resize(1 + R(20)); for (auto& c : p) c = (unsigned char)R(5); } else p = pool[R(pool.size())];
      if (R(4) == 0) p.resize(1 + R(p.size())); if (R(8) == 0) p[0] = (unsigned char)R(256);
      ntc_packet_t* np; if (R(2)) np = ntc_new_packet_from(reinterpret_cast<char*>(p.data()), std::uint16_t(p.size())); else { np = ntc_new_packet(std::uint16_t(R(2) ? p.size() : 1 + R(90))); if (ntc_packet_get_size(np) != p.size()) { ntc_packet_resize(np, std::uint16_t(p.size()), &er); CHECK(er.type == ntc_no_error, "resize reports error " << int(er.type)); } std::memcpy(ntc_packet_buffer(np), p.data(), p.size()); }
      CHECK(ntc_packet_get_size(np) == p.size() && std::memcmp(ntc_packet_buffer(np), p.data(), p.size()) == 0, "a packet has other bytes");
      er.type = ntc_error_type(R(5)); const bool to_dec = R(3); story << (to_dec ? "dec" : "enc") << int(p[0]) << "(" << p.size() << ") "; std::size_t r1, r2 = 0;
      r1 = to_dec ? ntc_decoder_add_packet(cd, np, &er) : ntc_encoder_add_packet(ce, np, &er);
      try { r2 = to_dec ? d(pkt(p)) : e(pkt(p)); } catch (const ntc::packet_type_error&) { want = ntc_packet_type_error; } catch (const ntc::overflow_error&) { want = ntc_overflow_error; } catch (...) { want = ntc_unknown_error; }
      CHECK(r1 == r2, r1 << " bytes reported as read instead of " << r2); ntc_delete_packet(np);
    }
    CHECK(int(er.type) == want, "error code " << int(er.type) << " instead of " << want);
    CHECK(a.pk == b.pk, "other packets were emitted (" << a.pk.size() << ", C++: " << b.pk.size() << ")"); CHECK(a.data == b.data, "other data were handed over"); CHECK(ntc_encoder_window(ce) == e.window(), "the window is " << ntc_encoder_window(ce) << " instead of " << e.window());
    CHECK(ce->rate() == e.rate(), "rates differ");
    for (auto& x : b.pk) { if (pool.size() < 60) pool.push_back(x); else pool[R(60)] = x; } a.pk.clear(); b.pk.clear(); a.data.clear(); b.data.clear();
  }
  ntc_delete_encoder(ce); ntc_delete_decoder(cd); delete[] er.message;
}

static void memory(rng& R)
{
  // Data sizes are modest: only small vectors come from operator new here (aligned buffers use posix_memalign).
  begin_case("failing allocations, seed " + std::to_string(R.s));
  log_ a; a.pk.reserve(64); ntc_packet_handler ph{nullptr, [](void*, const char*, size_t) {}, [](void*) {}}; ntc_data_handler dh{nullptr, [](void*, const char*, size_t) {}};
  auto ce = ntc_new_encoder(8, ph); auto cd = ntc_new_decoder(8, ntc_in_order_no, ph, dh); ntc_error er; er.message = nullptr;
  for (int k = 0; k < 10; ++k)
  {
    auto nd = ntc_new_data(std::uint16_t(1 + R(40)));
    fail_after = long(R(6)); story << "fail " << fail_after << " "; const long f0 = fail_after; failing = true; ntc_encoder_add_data(ce, nd, &er); failing = false; const bool hit = fail_after < 0;
    ntc_delete_data(nd); if (hit) { CHECK(er.type == ntc_no_memory, "an allocation failed, the error code is " << int(er.type)); break; } CHECK(er.type == ntc_no_error, "no allocation failed, the error code is " << int(er.type)); fail_after = -1;
  }
  failing = false;
  { bytes b{2, 0, 0, 0, 1, 0, 1, 9}; auto np = ntc_new_packet_from(reinterpret_cast<char*>(b.data()), 8); fail_after = 0; failing = true; ntc_decoder_add_packet(cd, np, &er); failing = false; const bool hit = fail_after < 0; ntc_delete_packet(np); CHECK(er.type == (hit ? ntc_no_memory : ntc_no_error), "decoder: allocation failure gives code " << int(er.type)); }
}

int main(int argc, char** argv)
{
  init(argc, argv, "random sequences of up to 65 calls of the C interface side by side with the C++ interface, every kind of exception, failing allocations");
  rng R(seed0);
  do try { const int k = R(6); if (k < 2) errors(R); else if (k < 5) both(R); else memory(R); } catch (const desync&) {} while (elapsed() < budget);
  finish(0);
}
