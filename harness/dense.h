// Dense helpers shared by the decomposition monitors: matrices with a prescribed spectrum, the truncation rule.
#pragma once
#include "bt.h"
#include <algorithm>
#include <cmath>
namespace dense
{
using namespace bt;
inline Tensor isometry(Rng &r, int64_t rows, int64_t cols, torch::ScalarType dt)
{
	return std::get<0>(torch::linalg_qr(random_values(r, {rows, cols}, dt))).slice(1, 0, cols);
}
// decreasing list of non negative values
inline std::vector<double> spectrum(Rng &r, int64_t n)
{
	std::vector<double> s(n);
	int kind = r.in(0, 6);
	for (int64_t i = 0; i < n; ++i)
		switch (kind)
		{
		case 0: s[i] = 0.05 + r.unit() * 3; break;
		case 1: s[i] = std::pow(10., -0.7 * i) * (1 + 0.3 * r.unit()); break;
		case 2: s[i] = r.in(1, 3); break;                                      // degenerate
		case 3: s[i] = i < n / 2 ? 0.3 + r.unit() : 0; break;                  // rank deficient
		case 4: s[i] = 1; break;                                               // all equal
		case 5: s[i] = r.chance(0.5) ? r.in(1, 2) : 0.01 * (1 + r.in(0, 2)); break;
		default: s[i] = 0;
		}
	if (kind == 6 && n > 0)
		s[0] = r.unit();
	std::sort(s.rbegin(), s.rend());
	return s;
}
inline Tensor from(const std::vector<double> &v) { return torch::tensor(v, torch::kDouble); }
struct Trunc
{
	double tol;
	double pow;
	int64_t mn, mx; // mx<0: no limit
	std::string str() const { return cat("tol ", tol, " pow ", pow, " min ", mn, " max ", mx); }
};
inline Trunc random_trunc(Rng &r, const std::vector<double> &mag, double dpow)
{
	Trunc t;
	static const double pows[] = {1, 2, 0.5, 3, 1.5};
	t.pow = r.chance(0.4) ? dpow : pows[r.next() % 5];
	int64_t n = mag.size();
	double w = 0;
	int64_t k = r.in(0, n);
	for (int64_t i = k; i < n; ++i)
		w += std::pow(mag[i], t.pow);
	switch (r.next() % 4)
	{
	case 0: t.tol = 0; break;
	case 1: t.tol = r.unit() * 2; break;
	default: // near the weight of the last values
		t.tol = std::pow(w * (1 + (r.chance(0.5) ? -1 : 1) * 0.03 * (0.2 + r.unit())), 1 / t.pow);
	}
	t.mn = r.chance(0.5) ? 1 : r.in(0, n + 1);
	t.mx = r.chance(0.5) ? -1 : std::max<int64_t>(t.mn, r.in(1, n + 2));
	return t;
}
// is n the right number of values to keep out of mag (decreasing)? returns an explanation or ""
inline std::string trunc_defect(const std::vector<double> &mag, const Trunc &t, int64_t n, double eps)
{
	int64_t N = mag.size();
	if (n < 0 || n > N)
		return "impossible number of values";
	if (t.mx >= 0 && n > t.mx)
		return "more values than the maximum";
	if (n < std::min(t.mn, N))
		return "fewer values than the minimum";
	double lim = std::pow(t.tol, t.pow), w = 0, wmax = 0, floor = 0;
	for (int64_t i = n; i < N; ++i)
		w += std::pow(mag[i], t.pow);
	for (auto m : mag)
		wmax = std::max(wmax, m);
	floor = std::pow(wmax * eps, t.pow) * N + 1e-300; // numerical noise of the values themselves
	bool forced = t.mx >= 0 && n == std::min(t.mx, N);
	if (!forced && w > lim * (1 + 50 * eps) + floor)
		return cat("discarded weight ", w, " above the tolerance ", lim);
	if (n > std::min(t.mn, N))
	{
		double w1 = w + std::pow(mag[n - 1], t.pow);
		if (w1 < lim * (1 - 50 * eps) - floor)
			return cat("could also have discarded the next value: weight ", w1, " within the tolerance ", lim);
	}
	return "";
}
inline std::vector<double> tovec(const Tensor &t)
{
	auto x = t.to(torch::kDouble).contiguous();
	return {x.data_ptr<double>(), x.data_ptr<double>() + x.numel()};
}
inline void isometric(Case &c, const Tensor &m, double tol, const char *what)
{
	auto k = m.size(1);
	if (k == 0)
		return;
	auto e = (torch::matmul(m.conj().t(), m) - torch::eye(k, m.options())).abs().max().item<double>();
	c.check(e < tol, what, [&] { return cat("deviation ", e); });
}
inline Tensor matrix(const Tensor &t, int64_t rows) { return t.reshape({rows, rows ? t.numel() / rows : 0}); }

} // namespace dense
