#include "common.hh"
#define private public
#include "netcode/detail/galois_field.hh"
#undef private
using ntc::detail::galois_field;
// C09: coefficients non-zero, in the field, functional; scaling undone by the inverse, distributes over xor.
static std::uint32_t fieldmax(int w) { return w == 32 ? 0xffffffffu : (1u << w) - 1; }

static void one(galois_field& f, galois_field& g, int w, std::uint32_t r, std::uint32_t s, rng& R)
{
  begin_case("w=" + std::to_string(w) + " repair=" + std::to_string(r) + " source=" + std::to_string(s));
  const auto c = f.coefficient(r, s);
  CHECK(c != 0, "coefficient is zero");
  CHECK(c <= fieldmax(w), "coefficient " << c << " is not in the field");
  CHECK(c == g.coefficient(r, s), "coefficient differs between two fields of the same size");
  const auto i = f.invert(c);
  CHECK(i != 0 && i <= fieldmax(w), "inverse of " << c << " is not a field element: " << i);
  CHECK(f.multiply(c, i) == 1, "coefficient " << c << " times its inverse " << i << " is not 1");
  alignas(16) char a[64], b[64], c1[64], d[64];
  const std::size_t n = 4 * (1 + R(16));
  for (std::size_t k = 0; k < 64; ++k) { a[k] = char(R(256)); b[k] = 0x55; c1[k] = 0x55; }
  std::memset(b, 0x55, 64);
  f.multiply(a, b, n, c);
  f.multiply(b, c1, n, i);
  for (std::size_t k = 0; k < 64; ++k)
    CHECK(c1[k] == (k < n ? a[k] : 0x55), "scaling a symbol of " << n << " bytes by " << c << " then by its inverse: byte " << k << " differs");
  // distributes over xor
  char a2[64];
  alignas(16) char x[64], y[64], z[64];
  for (std::size_t k = 0; k < 64; ++k) { a2[k] = char(R(256)); x[k] = a[k] ^ a2[k]; }
  alignas(16) char s1[64];
  std::memcpy(s1, a2, 64);
  f.multiply(x, y, n, c);
  f.multiply(s1, z, n, c);
  for (std::size_t k = 0; k < n; ++k) CHECK(char(y[k] ^ z[k]) == b[k], "scaling does not distribute over xor at byte " << k);
  // multiply_add adds
  std::memcpy(d, a2, 64);
  alignas(16) char e[64];
  std::memcpy(e, a2, 64);
  f.multiply_add(a, e, n, c);
  for (std::size_t k = 0; k < 64; ++k) CHECK(e[k] == (k < n ? char(a2[k] ^ b[k]) : a2[k]), "multiply_add is not adding the scaled symbol at byte " << k);
  if (w != 32)
  {
    const std::uint16_t u = std::uint16_t(R(65536)), v = std::uint16_t(R(65536));
    CHECK(f.multiply_size(f.multiply_size(u, c), i) == u, "size " << u << " is not recovered after scaling by " << c << " and its inverse");
    CHECK(std::uint16_t(f.multiply_size(u, c) ^ f.multiply_size(v, c)) == f.multiply_size(std::uint16_t(u ^ v), c), "scaling of sizes " << u << "," << v << " does not distribute over xor");
  }
}

int main(int argc, char** argv)
{
  init(argc, argv, "field sizes 4,8,16,32; repair and source identifiers 0..63, around powers of two and random; symbols up to 64 bytes");
  rng R(seed0);
  galois_field* fs[4]; galois_field* gs[4];
  const int ws[] = {4, 8, 16, 32};
  for (int k = 0; k < 4; ++k) { fs[k] = new galois_field(ws[k]); gs[k] = new galois_field(ws[k]); }
  // any pair of identifiers in a small square, split between the processes
  for (unsigned r = seed0 % 8; r < 48; r += 8) for (unsigned s = 0; s < 48; ++s) for (int k = 0; k < 4; ++k) one(*fs[k], *gs[k], ws[k], r, s, R);
  while (elapsed() < budget)
  {
    auto pick = [&]() -> std::uint32_t {
      switch (R(4)) {
        case 0: return std::uint32_t(R(300));
        case 1: return std::uint32_t((1ull << R(33)) + R(5) - 2);
        case 2: return std::uint32_t(((1ull << R(17)) - 1) * (1 + R(70000)) - 1 + R(3));
        default: return std::uint32_t(R.next()); } };
    const int k = R(4);
    one(*fs[k], *gs[k], ws[k], pick(), pick(), R);
  }
  finish(0);
}
