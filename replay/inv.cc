#include "common.hh"
#include "stack.hh"
#include "netcode/detail/invert_matrix.hh"
// C10: inversion of random, structured and singular matrices.
int main(int argc, char** argv)
{
  init(argc, argv, "dimensions 1 to 12 (sometimes 40), fields 4, 8, 16, 32, dense, sparse, permuted, triangular and singular matrices");
  rng R(seed0); std::map<int, std::unique_ptr<refgf>> G; std::map<int, std::unique_ptr<ntc::detail::galois_field>> F;
  for (int w : {4, 8, 16, 32}) { G[w].reset(new refgf(w)); F[w].reset(new ntc::detail::galois_field(w)); }
  do try
  {
    const int w = (const int[]){4, 8, 16, 32}[R(4)]; auto& g = *G[w]; auto& f = *F[w];
    const std::size_t n = R(30) ? 1 + R(12) : 1 + R(40);
    begin_case("seed " + std::to_string(R.s) + " w=" + std::to_string(w) + " n=" + std::to_string(n));
    const std::uint64_t lim = w == 32 ? 0x100000000ull : 1ull << w; const int style = R(7), dens = 1 + R(100);
    ntc::detail::square_matrix a(n), m(n), inv(n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) a(i, j) = style == 0 ? R(lim) : style == 1 ? (R.chance(dens) ? R(lim) : 0) : style == 2 ? R(2) : style == 3 ? (i <= j ? R(lim) : 0) : style == 4 ? (i >= j ? R(lim) : 0) : (R.chance(60) ? 1 + R(2) : 0);
    if (style == 5) { for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) a(i, j) = 0; std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; ++i) p[i] = i; for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[R(i)]); for (std::size_t i = 0; i < n; ++i) a(i, p[i]) = 1 + R(lim - 1); }
    if (R.chance(20) && n > 1) { const auto x = R(n), y = R(n); if (x != y) for (std::size_t i = 0; i < n; ++i) { if (R(2)) a(i, x) = g.mul(a(i, y), 1 + R(3)); else a(x, i) = a(y, i); } }
    for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < n; ++j) { m(i, j) = a(i, j); inv(i, j) = R(lim); if (n < 7) story << a(i, j) << " "; } story << "/ "; }
    const auto r = ntc::detail::invert(f, m, inv);
    // rank
    std::vector<std::vector<std::uint32_t>> t(n, std::vector<std::uint32_t>(n)); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) t[i][j] = a(i, j);
    std::size_t rk = 0; for (std::size_t c = 0; c < n; ++c) { std::size_t p = rk; while (p < n && !t[p][c]) ++p; if (p == n) continue; std::swap(t[p], t[rk]); for (std::size_t q = rk + 1; q < n; ++q) if (t[q][c]) { const auto k = g.g.divide.w32(&g.g, t[q][c], t[rk][c]); for (std::size_t z = 0; z < n; ++z) t[q][z] ^= g.mul(k, t[rk][z]); } ++rk; }
    if (r) { CHECK(rk < n, "the inversion failed, the matrix has full rank"); CHECK(*r < n, "the reported index " << *r << " is no column"); }
    else
    {
      CHECK(rk == n, "the inversion succeeded, the matrix has rank " << rk);
      CHECK(inv.dimension() == n, "the inverse has dimension " << inv.dimension());
      for (int side = 0; side < 2; ++side) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { std::uint32_t s = 0; for (std::size_t k = 0; k < n; ++k) s ^= side ? g.mul(a(i, k), inv(k, j)) : g.mul(inv(i, k), a(k, j)); CHECK(s == (i == j), "product is " << s << " at " << i << "," << j); }
    }
  } catch (const desync&) {} while (elapsed() < budget);
  finish(0);
}
