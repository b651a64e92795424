// L01: block svd.  L02: truncation across sectors.  L03: Hermitian block eigendecomposition.
#include "bt.h"
#include "dense.h"
#include "blockTensor/LinearAlgebra.h"
#include <numeric>
using namespace bt;
using namespace dense;
namespace
{
// the sectors of the matrix (left dims | right dims): rows and columns of each
struct Sector
{
	std::vector<int64_t> rows, cols;
};
std::vector<Val> charges(const Grp &g, const Layout &l, size_t from, size_t to)
{
	std::vector<Val> o = {g.neutral()};
	for (size_t d = from; d < to; ++d)
	{
		std::vector<Val> n;
		for (auto &v : o)
			for (auto &s : l[d])
				for (int64_t k = 0; k < s.size; ++k)
					n.push_back(g.mul(v, s.q));
		o = n;
	}
	return o;
}
std::vector<Sector> sectors(const Spec &s, int split)
{
	auto R = charges(*s.g, s.lay, 0, split), C = charges(*s.g, s.lay, split, s.lay.size());
	std::map<Val, Sector> m;
	for (size_t i = 0; i < R.size(); ++i)
		m[R[i]].rows.push_back(i);
	for (size_t j = 0; j < C.size(); ++j)
	{
		auto need = s.g->mul(s.sel, s.g->inv(C[j]));
		auto it = m.find(need);
		if (it != m.end())
			it->second.cols.push_back(j);
	}
	std::vector<Sector> o;
	for (auto &x : m)
		if (!x.second.cols.empty())
			o.push_back(x.second);
	return o;
}
IL to_idx(const std::vector<int64_t> &v) { return v; }
void scatter(Tensor &M, const Sector &s, const Tensor &sub)
{
	auto r = torch::tensor(s.rows, torch::kLong), c = torch::tensor(s.cols, torch::kLong);
	M.index_put_({r.unsqueeze(1), c.unsqueeze(0)}, sub);
}
Tensor gather(const Tensor &M, const Sector &s)
{
	return M.index_select(0, torch::tensor(s.rows, torch::kLong)).index_select(1, torch::tensor(s.cols, torch::kLong));
}
int64_t nrows(const Spec &s, int split)
{
	int64_t n = 1;
	for (int i = 0; i < split; ++i)
		n *= dim_size(s.lay[i]);
	return n;
}
Tensor mat(const Tensor &t, int64_t rows) { return t.reshape({rows, rows == 0 ? 0 : t.numel() / rows}); }
torch::ScalarType real_of(torch::ScalarType dt) { return dt == torch::kComplexDouble ? torch::kDouble : dt; }
// block tensor holding the dense values; blocks that are zero everywhere are stored or not at random
btensor store(Rng &r, const Spec &s, const Tensor &dense, double keep_zero = 0.3)
{
	auto full = make_like_values(s, dense, r);
	btensor t(s.vecs(), s.selq(), torch::TensorOptions().dtype(dense.scalar_type()));
	for (auto &b : full)
		if ((std::get<1>(b).numel() != 0 && std::get<1>(b).abs().max().item<double>() != 0) || r.chance(keep_zero))
			t.block(std::get<0>(b)) = std::get<1>(b);
	return t;
}
struct Problem
{
	Spec s;
	int split = 1;
	torch::ScalarType dt = torch::kDouble;
	btensor A;
	Tensor M; // dense matrix
	std::vector<double> vals; // singular values, decreasing, without those of absent sectors
	double lo() const { return dt == torch::kFloat ? 3e-4 : 1e-9; }
	Problem() : A({}, any_quantity(quantit::conserved::Z(0))) {}
};
// random values in random blocks
Problem random_problem(Case &c, int min_rank = 2)
{
	Rng &r = c.rng;
	Problem p;
	auto &g = pick_group(r);
	int rank = r.in(min_rank, 4);
	p.s = random_spec(r, g, rank, rank > 3 ? 3 : 4, 3);
	if (r.chance(0.03)) // a dimension without sections: a matrix without rows or columns
		p.s.lay[r.in(0, rank - 1)].clear();
	p.split = r.in(1, std::max(1, rank - 1));
	p.dt = pick_dtype(r);
	MakeOpt mo;
	mo.density = r.chance(0.3) ? 1 : r.unit();
	p.A = make(r, p.s, p.dt, mo);
	if (r.chance(0.25)) // rank deficient blocks
		for (auto &b : p.A)
		{
			auto &x = std::get<1>(b);
			auto y = torch::zeros_like(x);
			if (x.size(0) > 0)
				y.select(0, 0).copy_(x.select(0, 0));
			x = y;
		}
	p.M = mat(dense_of(p.A), nrows(p.s, p.split));
	return p;
}
// prescribed singular values spread over the sectors
Problem spectral_problem(Case &c)
{
	Rng &r = c.rng;
	Problem p;
	auto &g = pick_group(r);
	int rank = r.in(2, 4);
	for (int tries = 0;; ++tries)
	{
		p.s = random_spec(r, g, rank, rank > 3 ? 3 : 4, 3);
		p.split = r.in(1, rank - 1);
		if (tries > 20 || !sectors(p.s, p.split).empty())
			break;
	}
	p.dt = pick_dtype(r);
	auto secs = sectors(p.s, p.split);
	std::vector<Sector> used;
	size_t total = 0;
	for (auto &s : secs)
		if (r.chance(0.85))
		{
			used.push_back(s);
			total += std::min(s.rows.size(), s.cols.size());
		}
	p.vals = spectrum(r, total);
	auto pool = p.vals;
	if (r.chance(0.7)) // otherwise: the largest values are all in the same sectors
		r.shuffle(pool);
	auto n = nrows(p.s, p.split);
	int64_t m = 1;
	for (size_t d = p.split; d < p.s.lay.size(); ++d)
		m *= dim_size(p.s.lay[d]);
	p.M = torch::zeros({n, m}, p.dt);
	for (auto &s : used)
	{
		int64_t R = s.rows.size(), C = s.cols.size(), k = std::min(R, C);
		std::vector<double> v(pool.end() - k, pool.end());
		pool.resize(pool.size() - k);
		std::sort(v.rbegin(), v.rend());
		auto sub = torch::matmul(isometry(r, R, k, p.dt) * from(v).to(p.dt), isometry(r, C, k, p.dt).conj().t());
		scatter(p.M, s, sub);
	}
	p.A = store(r, p.s, p.M.reshape(p.s.sizes()), 0.3);
	p.M = mat(dense_of(p.A), n);
	return p;
}
struct Bond
{
	std::vector<std::pair<int64_t, any_quantity>> sec;
	std::vector<bool> kept; // per element of the bond: is there a stored value?
	std::vector<double> vals, by_col;
};
// structure of the factors; returns the bond
Bond factors(Case &c, const Problem &p, const btensor &U, const btensor &d, const btensor &V, const char *what)
{
	std::string w = what;
	validate(c, U, (w + ": U is no valid tensor").c_str());
	validate(c, d, (w + ": d is no valid tensor").c_str());
	validate(c, V, (w + ": V is no valid tensor").c_str());
	auto lu = layout_of(U), ld = layout_of(d), lv = layout_of(V);
	int rank = p.s.rank();
	c.check(int(lu.size()) == p.split + 1 && ld.size() == 1 && int(lv.size()) == rank - p.split + 1, (w + ": ranks of the factors").c_str(),
	        [&] { return cat(show(U), show(d), show(V)); });
	auto &g = *p.s.g;
	for (int i = 0; i < rank; ++i)
	{
		auto &l = i < p.split ? lu[i] : lv[i - p.split];
		bool ok = l.size() == p.s.lay[i].size();
		for (size_t k = 0; ok && k < l.size(); ++k)
		{
			auto q = p.s.lay[i][k].q;
			ok = l[k].first == p.s.lay[i][k].size && l[k].second == g.make(i < p.split ? q : g.inv(q));
		}
		c.check(ok, (w + ": outer dimensions of the factors").c_str(), [&] { return cat("dim ", i, " ", show(i < p.split ? U : V), " of ", p.s.str()); });
	}
	Bond b;
	b.sec = lu.back();
	c.check(lv.back() == lu.back(), (w + ": bond of V differs from the bond of U").c_str(), [&] { return cat(show(U), show(V)); });
	c.check(ld[0].size() == lu.back().size(), (w + ": sections of d").c_str(), [&] { return cat(show(U), show(d)); });
	auto neutral = g.make(g.neutral());
	for (size_t k = 0; k < ld[0].size(); ++k)
		c.check(ld[0][k].first == lu.back()[k].first && ld[0][k].second == neutral, (w + ": sections of d").c_str(), [&] { return cat(show(U), show(d)); });
	c.check(sel_of(d) == neutral && sel_of(V) == neutral && sel_of(U) == p.s.selq(), (w + ": selection rules").c_str());
	c.check(dtype_of(d) == real_of(p.dt), (w + ": the singular values must be real").c_str(), [&] { return show(d); });
	c.check(dtype_of(U) == p.dt && dtype_of(V) == p.dt, (w + ": scalar types").c_str());
	auto D = dense_of(d);
	b.kept.assign(D.numel(), false);
	for (auto &blk : d)
	{
		int64_t o = 0, i = std::get<0>(blk)[0];
		for (int64_t k = 0; k < i; ++k)
			o += ld[0][k].first;
		auto v = tovec(std::get<1>(blk));
		for (size_t k = 0; k < v.size(); ++k)
		{
			b.kept[o + k] = true;
			b.vals.push_back(v[k]);
			c.check(v[k] >= 0 && (k == 0 || v[k] <= v[k - 1]), (w + ": values must be decreasing and non negative in each section").c_str(), [&] { return vstr(v); });
		}
	}
	b.by_col = tovec(D);
	std::sort(b.vals.rbegin(), b.vals.rend());
	return b;
}
void isometry_on(Case &c, const Tensor &m, const std::vector<bool> &kept, double lo, const char *what)
{
	int64_t k = m.size(1);
	if (k == 0)
		return;
	auto want = torch::zeros({k, k}, m.options());
	for (int64_t i = 0; i < k; ++i)
		if (kept[i])
			want.index_put_({i, i}, 1);
	auto e = (torch::matmul(m.conj().t(), m) - want).abs().max().item<double>();
	c.check(e < lo, what, [&] { return cat("deviation ", e); });
}
double frob(const Tensor &t) { return t.numel() ? torch::norm(t.abs()).item<double>() : 0.; }
// the factors reproduce the tensor up to the given discarded weight (sum of squares)
void reproduces(Case &c, const Problem &p, const btensor &U, const btensor &d, const btensor &V, const Bond &b, double disc2, const char *what)
{
	std::string w = what;
	auto u = mat(dense_of(U), p.M.size(0)), v = mat(dense_of(V), p.M.size(1));
	isometry_on(c, u, b.kept, p.lo(), (w + ": U is no isometry").c_str());
	isometry_on(c, v, b.kept, p.lo(), (w + ": V is no isometry").c_str());
	auto scale = 1 + frob(p.M);
	auto R = torch::matmul(u * dense_of(d).to(p.dt), v.conj().t());
	auto err = frob(R - p.M);
	c.check(std::abs(err - std::sqrt(disc2)) < p.lo() * 10 * scale, (w + ": reconstruction").c_str(), [&] { return cat("error ", err, " instead of ", std::sqrt(disc2)); });
	// with the library's own operations, as documented
	auto B = tensordot(U.mul(d), V.conj(), {U.dim() - 1}, {V.dim() - 1});
	validate(c, B, (w + ": reconstructed tensor is no valid tensor").c_str());
	expect_spec(c, B, p.s, (w + ": structure of the reconstructed tensor").c_str());
	err = frob(mat(dense_of(B), p.M.size(0)) - R);
	c.check(err < p.lo() * 10 * scale, (w + ": U.mul(d).V differs from the dense product").c_str(), [&] { return cat("error ", err); });
}
std::vector<double> svals(const Tensor &M)
{
	if (M.numel() == 0)
		return {};
	return tovec(torch::linalg_svdvals(M.resolve_conj().to(torch::kComplexDouble)));
}
void same_values(Case &c, std::vector<double> got, std::vector<double> want, double lo, const char *what)
{ // as multisets, up to zeros
	auto n = std::max(got.size(), want.size());
	got.resize(n, 0);
	want.resize(n, 0);
	auto abs_desc = [](double a, double b) { return a > b; };
	std::sort(got.begin(), got.end(), abs_desc);
	std::sort(want.begin(), want.end(), abs_desc);
	double top = 1;
	for (auto x : want)
		top = std::max(top, std::abs(x));
	for (size_t i = 0; i < n; ++i)
		c.check(std::abs(got[i] - want[i]) < lo * top, what, [&] { return cat(vstr(got), " instead of ", vstr(want)); });
}
void svd_case(Case &c)
{
	Rng &r = c.rng;
	auto p = r.chance(0.6) ? random_problem(c) : spectral_problem(c);
	c.describe(cat(p.s.str(), " split ", p.split, " ", torch::toString(p.dt), " blocks ", keys(p.A).size()));
	c.seen(cat(p.s.str(), p.split, keys(p.A).size()));
	c.count("blocks", keys(p.A).size());
	Snap snap(p.A);
	c.op("svd");
	auto [U, d, V] = quantit::svd(p.A, size_t(p.split));
	c.check(snap.diff(p.A) == "", "svd modified its input");
	auto b = factors(c, p, U, d, V, "svd");
	for (size_t i = 0; i < b.kept.size(); ++i)
		c.check(b.kept[i], "a bond section has no singular values");
	reproduces(c, p, U, d, V, b, 0, "svd");
	same_values(c, b.vals, svals(p.M), p.lo(), "singular values differ from those of the dense matrix");
	// never more values than the sectors have
	size_t most = 0;
	for (auto &s : sectors(p.s, p.split))
		most += std::min(s.rows.size(), s.cols.size());
	c.check(b.kept.size() <= most, "more singular values than the sectors have");
	auto [U2, d2, V2] = quantit::svd(p.A, int(p.split));
	c.check(Snap(U).diff(U2) == "" && Snap(d).diff(d2) == "" && Snap(V).diff(V2) == "", "svd with an int split");
	// the factors own their memory
	c.op("svd results are independent");
	U2.mul_(2);
	d2.mul_(3);
	V2.mul_(5);
	c.check(snap.diff(p.A) == "", "modifying the factors modified the input");
}
// batched over the leading dimensions
void batch_svd(Case &c)
{
	Rng &r = c.rng;
	Problem p = random_problem(c);
	int rank = p.s.rank();
	c.describe(cat(p.s.str(), " ", torch::toString(p.dt), " blocks ", keys(p.A).size()));
	c.seen(cat(p.s.str(), keys(p.A).size()));
	Snap snap(p.A);
	c.op("batched svd");
	auto [U, d, V] = quantit::svd(p.A);
	c.check(snap.diff(p.A) == "", "svd modified its input");
	validate(c, U, "U");
	validate(c, d, "d");
	validate(c, V, "V");
	c.check(U.dim() == rank && V.dim() == rank && d.dim() == rank - 1, "ranks of the factors");
	auto sz = p.s.sizes();
	int64_t B = 1;
	for (int i = 0; i < rank - 2; ++i)
		B *= sz[i];
	auto n = sz[rank - 2], m = sz[rank - 1];
	auto k = d.sizes().back();
	auto D = dense_of(p.A).reshape({B, n, m});
	auto u = dense_of(U).reshape({B, n, k}), v = dense_of(V).reshape({B, m, k});
	auto dd = dense_of(d).reshape({B, k});
	c.check(!dd.is_complex(), "the singular values must be real");
	auto R = torch::matmul(u * dd.unsqueeze(1).to(p.dt), v.conj().transpose(-1, -2));
	auto err = frob(R - D);
	c.check(err < p.lo() * 10 * (1 + frob(D)), "reconstruction", [&] { return cat("error ", err); });
	for (int64_t i = 0; i < B; ++i)
	{
		same_values(c, tovec(dd[i]), svals(D[i]), p.lo(), "singular values of a batch element");
		// columns are orthonormal or absent
		for (auto *f : {&u, &v})
		{
			auto x = (*f)[i];
			auto G = torch::matmul(x.conj().t(), x);
			auto e = k ? (torch::matmul(G, G) - G).abs().max().item<double>() : 0.;
			c.check(e < p.lo(), "the factors of a batch element are no isometries", [&] { return cat("deviation ", e); });
		}
	}
	for (auto &blk : d)
	{
		auto x = std::get<1>(blk);
		c.check(x.numel() == 0 || x.min().item<double>() >= 0, "negative singular value");
	}
	// documented reconstruction
	c.op("documented reconstruction");
	if (keys(p.A).empty() || k == 0)
		return; // bmm refuses contracted dimensions of size 0
	auto neutral = btensor({{{1, sel_of(d).neutral()}}}, sel_of(d).neutral());
	auto dr = d.reshape_as(quantit::shape_from(d, neutral)).transpose_(-1, -2);
	auto A2 = U.mul(dr).bmm(V.transpose(-1, -2).conj());
	validate(c, A2, "reconstructed tensor");
	expect_spec(c, A2, p.s, "reconstructed tensor");
	err = frob(dense_of(A2).reshape({B, n, m}) - D);
	c.check(err < p.lo() * 10 * (1 + frob(D)), "reconstruction with the library", [&] { return cat("error ", err); });
	c.op("values only");
	auto d3 = std::get<1>(quantit::svd(p.A, quantit::BOOL(true), quantit::BOOL(false)));
	c.check(layout_of(d3) == layout_of(d), "shape of the singular values without the vectors", [&] { return cat(show(d), show(d3)); });
	auto e3 = frob(dense_of(d3).reshape({B, k}) - dd);
	c.check(e3 < p.lo() * 10 * (1 + frob(dd)), "singular values without the vectors", [&] { return cat(show(d), show(d3), " deviation ", e3); });
}
// is keeping n values acceptable, a degenerate multiplet being kept whole or not?
std::string kept_defect(const std::vector<double> &mag, Trunc t, int64_t n, double eps, double tie)
{
	int64_t nz = 0;
	for (auto m : mag)
		nz += m > 1e-10 * (mag.empty() ? 1 : mag[0]);
	std::string first;
	for (int64_t k = n; k >= 0; --k)
	{
		if (k < n && !(k > 0 && mag[n - 1] >= mag[k - 1] * (1 - tie) - 1e-300))
			break; // not of the same multiplet any more
		auto why = trunc_defect(mag, t, k, eps);
		if (why != "" && t.mn > nz)
		{ // values that are zero needn't be kept
			auto t2 = t;
			t2.mn = std::min<int64_t>(t.mn, std::max(nz, k));
			why = trunc_defect(mag, t2, k, eps);
		}
		if (why == "")
			return "";
		if (first == "")
			first = why;
	}
	return first == "" ? "no values" : first;
}
void truncated(Case &c)
{
	Rng &r = c.rng;
	auto p = spectral_problem(c);
	if (p.vals.empty())
		return;
	auto t = random_trunc(r, p.vals, 2);
	t.mn = std::max<int64_t>(1, t.mn);
	if (t.mx >= 0)
		t.mx = std::max(t.mx, t.mn);
	c.describe(cat(p.s.str(), " split ", p.split, " ", torch::toString(p.dt), " blocks ", keys(p.A).size(), " values ", vstr(p.vals), " ", t.str()));
	c.seen(cat(p.s.str(), p.split, t.str()));
	Snap snap(p.A);
	double eps = p.dt == torch::kFloat ? 2e-5 : 1e-6, tie = p.dt == torch::kFloat ? 1e-5 : 1e-9;
	size_t mx = t.mx < 0 ? size_t(-1) : size_t(t.mx);
	auto look = [&](const btensor &U, const btensor &d, const btensor &V, Trunc tr, const char *what) {
		std::string w = what;
		auto b = factors(c, p, U, d, V, what);
		// kept values are the largest ones
		c.check(b.vals.size() <= p.vals.size(), (w + ": more values than there are").c_str());
		for (size_t i = 0; i < b.vals.size(); ++i)
			c.check(std::abs(b.vals[i] - p.vals[i]) < p.lo() * (1 + p.vals[0]), (w + ": the kept values are not the largest").c_str(),
			        [&] { return cat(vstr(b.vals), " of ", vstr(p.vals)); });
		auto why = kept_defect(p.vals, tr, b.vals.size(), eps, tie);
		c.check(why == "", (w + ": number of kept values").c_str(), [&] { return why + cat("; kept ", b.vals.size(), " of ", p.vals.size()); });
		double disc = 0;
		for (size_t i = b.vals.size(); i < p.vals.size(); ++i)
			disc += p.vals[i] * p.vals[i];
		reproduces(c, p, U, d, V, b, disc, what);
		c.check(snap.diff(p.A) == "", (w + " modified its input").c_str());
		c.count("values kept", b.vals.size());
		c.count("values discarded", p.vals.size() - b.vals.size());
	};
	c.op("truncated svd");
	{
		auto [U, d, V] = quantit::svd(p.A, size_t(p.split), t.tol, t.mn, mx, t.pow);
		look(U, d, V, t, "truncated svd");
	}
	c.op("truncated svd (int)");
	{
		auto [U, d, V] = quantit::svd(p.A, int(p.split), t.tol, t.mn, mx);
		auto t2 = t;
		t2.pow = 2;
		look(U, d, V, t2, "truncated svd (int)");
	}
	c.op("truncated svd (tolerance)");
	{
		auto [U, d, V] = quantit::svd(p.A, size_t(p.split), t.tol, t.pow);
		look(U, d, V, Trunc{t.tol, t.pow, 1, -1}, "truncated svd (tolerance)");
	}
	c.op("truncate");
	{
		auto [U, d, V] = quantit::svd(p.A, size_t(p.split));
		auto [U2, d2, V2] = quantit::truncate(std::move(U), std::move(d), std::move(V), mx, t.mn, t.tol, t.pow);
		look(U2, d2, V2, t, "truncate");
	}
}
// ---------------------------------------------------------------- L03
struct HProblem
{
	Spec s; // full spec: left dims, right dims
	int split = 1;
	torch::ScalarType dt = torch::kDouble;
	btensor A;
	Tensor M;
	std::vector<double> eigs; // of the whole dense matrix
	double lo() const { return dt == torch::kFloat ? 3e-4 : 1e-9; }
	HProblem() : A({}, any_quantity(quantit::conserved::Z(0))) {}
};
HProblem hermitian_problem(Case &c, bool pattern)
{
	Rng &r = c.rng;
	HProblem p;
	auto &g = pick_group(r);
	p.split = r.in(1, 2);
	p.s.g = &g;
	p.s.sel = g.neutral();
	for (int i = 0; i < p.split; ++i)
		p.s.lay.push_back(random_dim(r, g, p.split > 1 ? 3 : 5, p.split > 1 ? 2 : 3, r.chance(0.4) ? 1 : 2));
	for (int i = 0; i < p.split; ++i)
		p.s.lay.push_back(inv(g, p.s.lay[i]));
	if (r.chance(0.35))
	{ // the charges of one side may be shifted
		auto q = g.random(r, 2);
		auto d = r.in(0, 2 * p.split - 1);
		p.s.lay[d] = shift(g, p.s.lay[d], q);
		p.s.sel = q;
	}
	p.dt = pick_dtype(r);
	auto n = nrows(p.s, p.split);
	p.M = torch::zeros({n, n}, p.dt);
	for (auto &s : sectors(p.s, p.split))
	{
		if (r.chance(0.2))
			continue;
		int64_t k = s.rows.size();
		auto v = spectrum(r, k);
		for (auto &x : v)
			x *= r.chance(0.5) ? -1 : 1;
		auto U = isometry(r, k, k, p.dt);
		auto sub = torch::matmul(U * from(v).to(p.dt), U.conj().t());
		scatter(p.M, s, (sub + sub.conj().t()) / 2);
	}
	auto D = p.M.reshape(p.s.sizes()).clone();
	if (pattern)
	{ // remove pairs of blocks, diagonal ones included
		auto dens = r.unit();
		for (auto &b : allowed_blocks(p.s))
		{
			IL tb(b.begin() + p.split, b.end());
			tb.insert(tb.end(), b.begin(), b.begin() + p.split);
			if (b <= tb && r.chance(dens))
				for (auto &x : {b, tb})
				{
					auto o = block_offset(p.s.lay, x), sh = block_shape(p.s.lay, x);
					auto v = D;
					for (size_t d = 0; d < o.size(); ++d)
						v = v.slice(d, o[d], o[d] + sh[d]);
					v.zero_();
				}
		}
	}
	p.M = mat(D, n);
	p.A = store(r, p.s, D, r.unit() * 0.6);
	if (n)
		p.eigs = tovec(std::get<0>(torch::linalg_eigh(p.M.to(torch::kComplexDouble), "L")));
	return p;
}
std::vector<double> values_of(Case &c, const btensor &e, std::vector<bool> *kept = nullptr)
{
	std::vector<double> o;
	auto l = layout_of(e);
	if (kept)
		kept->assign(e.sizes().back(), false);
	for (auto &b : e)
	{
		int64_t off = 0, i = std::get<0>(b).back();
		for (int64_t k = 0; k < i; ++k)
			off += l.back()[k].first;
		auto v = tovec(std::get<1>(b));
		for (size_t k = 0; k < v.size(); ++k)
		{
			o.push_back(v[k]);
			if (kept)
				(*kept)[off + k] = true;
		}
	}
	return o;
}
void eig_factors(Case &c, const HProblem &p, const btensor &e, const btensor &U, std::vector<bool> &kept, double disc2, const char *what)
{
	std::string w = what;
	validate(c, e, (w + ": e is no valid tensor").c_str());
	validate(c, U, (w + ": U is no valid tensor").c_str());
	c.check(e.dim() == 1 && U.dim() == p.split + 1, (w + ": ranks").c_str(), [&] { return cat(show(e), show(U)); });
	auto lu = layout_of(U), le = layout_of(e);
	auto &g = *p.s.g;
	for (int i = 0; i < p.split; ++i)
	{
		bool ok = lu[i].size() == p.s.lay[i].size();
		for (size_t k = 0; ok && k < lu[i].size(); ++k)
			ok = lu[i][k].first == p.s.lay[i][k].size && lu[i][k].second == g.make(p.s.lay[i][k].q);
		c.check(ok, (w + ": outer dimensions of U").c_str(), [&] { return cat(show(U), " of ", p.s.str()); });
	}
	c.check(sel_of(e) == g.make(g.neutral()), (w + ": the eigenvalues must be neutral").c_str());
	c.check(le[0].size() == lu.back().size(), (w + ": sections of the eigenvalues").c_str());
	for (size_t k = 0; k < le[0].size(); ++k)
		c.check(le[0][k].first == lu.back()[k].first && le[0][k].second == g.make(g.neutral()), (w + ": sections of the eigenvalues").c_str());
	c.check(dtype_of(e) == real_of(p.dt), (w + ": the eigenvalues must be real").c_str());
	c.check(dtype_of(U) == p.dt, (w + ": scalar type of U").c_str());
	auto u = mat(dense_of(U), p.M.size(0));
	isometry_on(c, u, kept, p.lo(), (w + ": U is no isometry").c_str());
	auto R = torch::matmul(u * dense_of(e).to(p.dt), u.conj().t());
	auto err = frob(R - p.M);
	c.check(std::abs(err - std::sqrt(disc2)) < p.lo() * 10 * (1 + frob(p.M)), (w + ": reconstruction").c_str(), [&] { return cat("error ", err, " instead of ", std::sqrt(disc2)); });
	auto B = tensordot(U.mul(e), U.conj(), {U.dim() - 1}, {U.dim() - 1});
	validate(c, B, (w + ": reconstructed tensor").c_str());
	err = frob(mat(dense_of(B), p.M.size(0)) - R);
	c.check(err < p.lo() * 10 * (1 + frob(p.M)), (w + ": U.mul(e).U differs from the dense product").c_str(), [&] { return cat("error ", err); });
}
void eigh_case(Case &c)
{
	Rng &r = c.rng;
	auto p = hermitian_problem(c, r.chance(0.5));
	c.describe(cat(p.s.str(), " ", torch::toString(p.dt), " blocks ", [&] { std::string s; for (auto &k : keys(p.A)) s += vstr(k); return s; }()));
	c.seen(cat(p.s.str(), keys(p.A).size()));
	c.count("blocks", keys(p.A).size());
	Snap snap(p.A);
	c.op("eigh");
	auto [e, U] = quantit::eigh(p.A, size_t(p.split));
	c.check(snap.diff(p.A) == "", "eigh modified its input");
	std::vector<bool> kept;
	auto v = values_of(c, e, &kept);
	for (size_t i = 0; i < kept.size(); ++i)
		c.check(kept[i], "a section without eigenvalues");
	eig_factors(c, p, e, U, kept, 0, "eigh");
	// non zero eigenvalues are those of the dense matrix
	auto nonzero = [&](std::vector<double> x) {
		double top = 1;
		for (auto y : p.eigs)
			top = std::max(top, std::abs(y));
		x.erase(std::remove_if(x.begin(), x.end(), [&](double y) { return std::abs(y) < p.lo() * top; }), x.end());
		return x;
	};
	auto a = v, b = p.eigs;
	std::sort(a.begin(), a.end());
	if (a.size() < b.size())
		a.resize(b.size(), 0); // absent sectors
	c.check(v.size() <= p.eigs.size(), "more eigenvalues than the matrix has");
	same_values(c, a, b, p.lo(), "eigenvalues differ from those of the dense matrix");
	(void)nonzero;
	// truncation
	std::vector<double> mag;
	for (auto x : v)
		mag.push_back(std::abs(x));
	std::sort(mag.rbegin(), mag.rend());
	if (mag.empty())
		return;
	auto t = random_trunc(r, mag, 1);
	t.mn = std::max<int64_t>(1, t.mn);
	if (t.mx >= 0)
		t.mx = std::max(t.mx, t.mn);
	c.describe(cat("values ", vstr(mag), " ", t.str()));
	size_t mx = t.mx < 0 ? size_t(-1) : size_t(t.mx);
	double eps = p.dt == torch::kFloat ? 2e-5 : 1e-6, tie = p.dt == torch::kFloat ? 1e-5 : 1e-9;
	auto look = [&](const btensor &e, const btensor &U, Trunc tr, const char *what) {
		std::string w = what;
		std::vector<bool> kp;
		auto x = values_of(c, e, &kp);
		for (auto &y : x)
			y = std::abs(y);
		std::sort(x.rbegin(), x.rend());
		c.check(x.size() <= mag.size(), (w + ": more values than there are").c_str());
		for (size_t i = 0; i < x.size(); ++i)
			c.check(std::abs(x[i] - mag[i]) < p.lo() * (1 + mag[0]), (w + ": the kept eigenvalues are not the largest").c_str(), [&] { return cat(vstr(x), " of ", vstr(mag)); });
		auto why = kept_defect(mag, tr, x.size(), eps, tie);
		c.check(why == "", (w + ": number of kept eigenvalues").c_str(), [&] { return why + cat("; kept ", x.size()); });
		double disc = 0;
		for (size_t i = x.size(); i < mag.size(); ++i)
			disc += mag[i] * mag[i];
		eig_factors(c, p, e, U, kp, disc, what);
		c.check(snap.diff(p.A) == "", (w + " modified its input").c_str());
	};
	c.op("truncated eigh");
	{
		auto [te, tU] = quantit::eigh(p.A, size_t(p.split), t.tol, t.mn, mx, t.pow);
		look(te, tU, t, "truncated eigh");
	}
	{
		auto [te, tU] = quantit::eigh(p.A, size_t(p.split), t.tol, t.pow);
		look(te, tU, Trunc{t.tol, t.pow, 1, -1}, "truncated eigh (tolerance)");
	}
	c.op("truncate");
	{
		auto e2 = e, U2 = U;
		auto [te, tU] = quantit::truncate(std::move(e2), std::move(U2), mx, t.mn, t.tol, t.pow);
		look(te, tU, t, "truncate");
	}
}
// batched: Hermitian in the last two dimensions
void batch_eigh(Case &c)
{
	Rng &r = c.rng;
	auto p = hermitian_problem(c, r.chance(0.5));
	if (p.split != 1)
		return;
	auto &g = *p.s.g;
	// the same matrix layout, with additional leading dimensions, the sections of each have the same charge
	Spec s = p.s;
	Dim bd;
	int nb = r.chance(0.65) ? 1 : r.in(2, 3);
	int64_t B = 1, n = p.M.size(0), first = 1;
	for (int b = 0; b < nb; ++b)
	{
		bd.clear();
		auto q = g.random(r, 2);
		for (int i = r.in(1, nb == 1 ? 3 : 2); i > 0; --i)
			bd.push_back({r.in(1, 2), q});
		s.lay.insert(s.lay.begin(), bd);
		s.sel = g.mul(s.sel, q);
		first = bd[0].size * B; // elements of the first section of the first dimension
		B *= dim_size(bd);
	}
	auto D = torch::zeros({B, n, n}, p.dt);
	for (int64_t i = 0; i < B; ++i)
		D[i].copy_(p.M * (1 + 0.37 * i));
	if (bd.size() > 1 && r.chance(0.5))
		D.slice(0, 0, first).zero_();
	auto A = store(r, s, D.reshape(s.sizes()), 0.3);
	c.describe(cat(s.str(), " ", torch::toString(p.dt)));
	c.seen(cat(s.str(), keys(A).size()));
	Snap snap(A);
	c.op("batched eigh");
	for (bool upper : {false, true})
	{
		auto [e, U] = quantit::eigh(A, quantit::BOOL(upper));
		c.check(snap.diff(A) == "", "eigh modified its input");
		validate(c, e, "e");
		validate(c, U, "U");
		c.check(e.dim() == nb + 1 && U.dim() == nb + 2, "ranks");
		auto k = e.sizes().back();
		auto ee = dense_of(e).reshape({B, k}), u = dense_of(U).reshape({B, n, k});
		c.check(!ee.is_complex(), "the eigenvalues must be real");
		auto R = torch::matmul(u * ee.unsqueeze(1).to(p.dt), u.conj().transpose(-1, -2));
		auto err = frob(R - D);
		c.check(err < p.lo() * 10 * (1 + frob(D)), "reconstruction", [&] { return cat("error ", err); });
		for (int64_t i = 0; i < B; ++i)
		{
			auto G = torch::matmul(u[i].conj().t(), u[i]);
			auto x = k ? (torch::matmul(G, G) - G).abs().max().item<double>() : 0.;
			c.check(x < p.lo(), "U is no isometry", [&] { return cat("deviation ", x); });
		}
		if (keys(A).empty() || k == 0)
			continue; // bmm refuses contracted dimensions of size 0
		auto B2 = U.mul(e.reshape_as(quantit::shape_from(e, btensor({{{1, sel_of(e).neutral()}}}, sel_of(e).neutral()))).transpose_(-1, -2)).bmm(U.transpose(-1, -2).conj());
		validate(c, B2, "reconstructed tensor");
		err = frob(dense_of(B2).reshape({B, n, n}) - D);
		c.check(err < p.lo() * 10 * (1 + frob(D)), "reconstruction with the library", [&] { return cat("error ", err); });
	}
	// only the named triangle is read
	c.op("triangle");
	if (n > 0)
	{
		bool upper = r.chance(0.5);
		auto T = D.clone();
		auto noise = random_values(r, {B, n, n}, p.dt) * mask(s).reshape({B, n, n}).to(p.dt) * (r.chance(0.5) ? 1. : 0.);
		T = upper ? T.triu() + noise.tril(-1) : T.tril() + noise.triu(1);
		auto A2 = store(r, s, T.reshape(s.sizes()), 0.3);
		auto [e, U] = quantit::eigh(A2, quantit::BOOL(upper));
		auto k = e.sizes().back();
		auto ee = dense_of(e).reshape({B, k}), u = dense_of(U).reshape({B, n, k});
		auto err = frob(torch::matmul(u * ee.unsqueeze(1).to(p.dt), u.conj().transpose(-1, -2)) - D);
		c.check(err < p.lo() * 10 * (1 + frob(D)), upper ? "reconstruction from the upper triangle" : "reconstruction from the lower triangle",
		        [&] { return cat("error ", err); });
	}
}
} // namespace

PROPERTY(L01)
{
	ctx.family("svd", ctx.n(40000, 600000), svd_case);
	ctx.family("batch", ctx.n(25000, 300000), batch_svd);
}
PROPERTY(L02) { ctx.family("truncate", ctx.n(40000, 600000), truncated); }
PROPERTY(L03)
{
	ctx.family("eigh", ctx.n(30000, 500000), eigh_case);
	ctx.family("batch", ctx.n(20000, 200000), batch_eigh);
}
