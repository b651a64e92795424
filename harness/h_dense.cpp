// T01: dense generalized contraction and index tools.  T02: dense svd / eigh and truncation.  O01: local operators.
#include "bt.h"
#include "dense.h"
#include "LinearAlgebra.h"
#include "dimension_manip.h"
#include "operators.h"
#include "tensorgdot.h"
#include <cmath>
#include <numeric>
using namespace bt;
using namespace dense;
using torch::Scalar;
namespace
{
torch::ScalarType dense_dtype(Rng &r)
{
	static const torch::ScalarType d[] = {torch::kDouble, torch::kDouble, torch::kDouble, torch::kComplexDouble, torch::kComplexDouble, torch::kFloat, torch::kLong};
	return d[r.next() % 7];
}
Tensor rnd_tensor(Rng &r, const IL &shape, torch::ScalarType dt)
{
	if (dt == torch::kLong)
	{
		auto t = torch::empty(shape, torch::kLong);
		for (int64_t i = 0; i < t.numel(); ++i)
			t.data_ptr<int64_t>()[i] = r.in(-5, 5);
		return t;
	}
	return random_values(r, shape, dt);
}
// the same values behind another memory layout
Tensor relayout(Rng &r, const Tensor &t)
{
	if (t.dim() == 0)
		return t;
	switch (r.next() % 5)
	{
	case 0: // stored in another order of dimensions
	{
		IL p(t.dim()), ip(t.dim());
		std::iota(p.begin(), p.end(), 0);
		r.shuffle(p);
		for (size_t i = 0; i < p.size(); ++i)
			ip[p[i]] = i;
		return t.permute(p).contiguous().permute(ip);
	}
	case 1: // part of a larger tensor
	{
		IL big;
		for (auto s : t.sizes())
			big.push_back(s + 2);
		auto b = torch::zeros(big, t.options());
		auto v = b;
		for (int64_t d = 0; d < t.dim(); ++d)
			v = v.slice(d, 1, 1 + t.size(d));
		v.copy_(t);
		return v;
	}
	case 2: // every second element
	{
		IL big(t.sizes().begin(), t.sizes().end());
		big.back() *= 2;
		auto b = torch::zeros(big, t.options());
		auto v = b.slice(t.dim() - 1, 0, big.back(), 2);
		v.copy_(t);
		return v;
	}
	default: return t;
	}
}
std::vector<std::complex<double>> flat(const Tensor &t)
{
	auto x = t.detach().to(torch::kComplexDouble).contiguous().clone();
	auto *p = reinterpret_cast<std::complex<double> *>(x.data_ptr());
	return {p, p + x.numel()};
}
Tensor unflat(const std::vector<std::complex<double>> &v, const IL &sizes)
{
	auto o = torch::empty(sizes, torch::kComplexDouble);
	std::copy(v.begin(), v.end(), reinterpret_cast<std::complex<double> *>(o.data_ptr()));
	return o;
}
// sum over the contracted indices, by hand
Tensor contract_ref(const Tensor &a, const Tensor &b, const IL &da, const IL &db)
{
	auto norm = [](int64_t d, int64_t n) { return d < 0 ? d + n : d; };
	std::vector<int> ca(a.dim(), -1), cb(b.dim(), -1);
	for (size_t k = 0; k < da.size(); ++k)
	{
		ca[norm(da[k], a.dim())] = k;
		cb[norm(db[k], b.dim())] = k;
	}
	IL as(a.sizes().begin(), a.sizes().end()), bs(b.sizes().begin(), b.sizes().end()), cs(da.size(), 0), out, fa, fb;
	for (int64_t i = 0; i < a.dim(); ++i)
		if (ca[i] < 0)
			out.push_back(as[i]), fa.push_back(i);
	for (int64_t i = 0; i < b.dim(); ++i)
		if (cb[i] < 0)
			out.push_back(bs[i]), fb.push_back(i);
	for (size_t k = 0; k < da.size(); ++k)
		{
		auto x = as[norm(da[k], a.dim())], y = bs[norm(db[k], b.dim())];
		cs[k] = x == 1 ? y : x;
	}
	auto A = flat(a), B = flat(b);
	int64_t no = 1, nc = 1;
	for (auto x : out)
		no *= x;
	for (auto x : cs)
		nc *= x;
	std::vector<std::complex<double>> R(no, 0);
	IL ia(a.dim()), ib(b.dim());
	for (int64_t o = 0; o < no; ++o)
	{
		int64_t q = o;
		for (size_t k = fb.size(); k-- > 0;)
			ib[fb[k]] = q % bs[fb[k]], q /= bs[fb[k]];
		for (size_t k = fa.size(); k-- > 0;)
			ia[fa[k]] = q % as[fa[k]], q /= as[fa[k]];
		for (int64_t z = 0; z < nc; ++z)
		{
			int64_t w = z;
			for (size_t k = cs.size(); k-- > 0;)
			{
				auto i = w % cs[k];
				w /= cs[k];
				auto xa = norm(da[k], a.dim()), xb = norm(db[k], b.dim());
				ia[xa] = as[xa] == 1 ? 0 : i; // size one dimensions are broadcasted
				ib[xb] = bs[xb] == 1 ? 0 : i;
			}
			int64_t pa = 0, pb = 0;
			for (int64_t d = 0; d < a.dim(); ++d)
				pa = pa * as[d] + ia[d];
			for (int64_t d = 0; d < b.dim(); ++d)
				pb = pb * bs[d] + ib[d];
			R[o] += A[pa] * B[pb];
		}
	}
	return unflat(R, out);
}
struct Contraction
{
	IL as, bs, da, db, out;
};
Contraction random_contraction(Rng &r, bool may_broadcast, bool may_empty = true)
{
	Contraction c;
	int na = r.in(0, 4), nb = r.in(0, 4), k = r.in(0, std::min(na, nb));
	auto size = [&]() { return may_empty && r.chance(0.04) ? 0 : r.in(1, 3); };
	for (int i = 0; i < na; ++i)
		c.as.push_back(size());
	for (int i = 0; i < nb; ++i)
		c.bs.push_back(size());
	if (na > 0 && r.chance(0.03)) // now and then, a dimension much larger than the others
		c.as[r.in(0, na - 1)] = r.in(17, 64);
	if (nb > 0 && r.chance(0.03))
		c.bs[r.in(0, nb - 1)] = r.in(17, 64);
	IL pa(na), pb(nb);
	std::iota(pa.begin(), pa.end(), 0);
	std::iota(pb.begin(), pb.end(), 0);
	r.shuffle(pa);
	r.shuffle(pb);
	std::vector<bool> ua(na), ub(nb);
	for (int i = 0; i < k; ++i)
	{
		c.bs[pb[i]] = c.as[pa[i]];
		if (may_broadcast && r.chance(0.15))
			(r.chance(0.5) ? c.bs[pb[i]] : c.as[pa[i]]) = 1;
		ua[pa[i]] = ub[pb[i]] = true;
		c.da.push_back(pa[i]);
		c.db.push_back(pb[i]);
	}
	for (int i = 0; i < na; ++i)
		if (!ua[i])
			c.out.push_back(c.as[i]);
	for (int i = 0; i < nb; ++i)
		if (!ub[i])
			c.out.push_back(c.bs[i]);
	return c;
}
Scalar rnd_scalar(Rng &r, torch::ScalarType dt)
{
	switch (r.next() % 5)
	{
	case 0: return 1;
	case 1: return 0;
	case 2: return r.in(-3, 3);
	default:
		if (dt == torch::kLong)
			return r.in(-4, 4);
		if (dt == torch::kComplexDouble && r.chance(0.5))
			return c10::complex<double>(r.sym(), r.sym());
		return r.sym() * 2;
	}
}
double tolerance(torch::ScalarType dt) { return dt == torch::kFloat ? 2e-4 : 1e-11; }
void near(Case &c, const Tensor &got, const Tensor &want, torch::ScalarType dt, const char *what)
{
	c.check(got.sizes() == want.sizes(), (std::string(what) + ": shape").c_str(), [&] { return cat(got.sizes(), " instead of ", want.sizes()); });
	if (got.numel() == 0)
		return;
	auto g = got.to(torch::kComplexDouble), w = want.to(torch::kComplexDouble);
	auto scale = std::max(1.0, w.abs().max().item<double>());
	auto err = (g - w).abs().max().item<double>() / scale;
	c.check(err <= tolerance(dt), (std::string(what) + ": values").c_str(), [&] { return cat("error ", err, " got ", got, " expected ", want); });
}
struct DSnap
{
	Tensor t, copy;
	IL strides;
	explicit DSnap(const Tensor &x) : t(x), copy(x.clone()), strides(x.strides().begin(), x.strides().end()) {}
	bool same() const { return IL(t.strides().begin(), t.strides().end()) == strides && same_bits(t, copy); }
};

void tgd(Case &c)
{
	Rng &r = c.rng;
	auto dt = dense_dtype(r);
	auto k = random_contraction(r, dt != torch::kLong || r.chance(0.3), dt != torch::kLong);
	auto a = relayout(r, rnd_tensor(r, k.as, dt)), b = relayout(r, rnd_tensor(r, k.bs, dt));
	auto add = relayout(r, rnd_tensor(r, k.out, dt));
	IL da = k.da, db = k.db;
	if (r.chance(0.25))
	{
		for (auto &d : da)
			if (r.chance(0.5))
				d -= int64_t(k.as.size());
		for (auto &d : db)
			if (r.chance(0.5))
				d -= int64_t(k.bs.size());
	}
	Scalar beta = rnd_scalar(r, dt), alpha = rnd_scalar(r, dt);
	bool dflt = r.chance(0.2);
	if (dflt)
		beta = alpha = 1;
	c.describe(cat("A", vstr(k.as), " B", vstr(k.bs), " over ", vstr(da), vstr(db), " ", torch::toString(dt), " beta ", beta.toComplexDouble().real(),
	               " alpha ", alpha.toComplexDouble().real(), " strides ", add.strides()));
	c.seen(cat(k.as.size(), k.bs.size(), vstr(da), vstr(db), int(dt), add.is_contiguous(), a.is_contiguous(), b.is_contiguous()));
	auto want = contract_ref(a, b, da, db) * alpha.toComplexDouble() + add.to(torch::kComplexDouble) * beta.toComplexDouble();
	DSnap sa(a), sb(b), sadd(add);
	auto intact = [&](const char *what) { c.check(sa.same() && sb.same(), (std::string(what) + " modified its operands").c_str()); };
	c.op("tensorgdot");
	auto D = dflt ? quantit::tensorgdot(add, a, b, da, db) : quantit::tensorgdot(add, a, b, da, db, beta, alpha);
	near(c, D, want, dt, "tensorgdot");
	c.check(D.scalar_type() == dt, "scalar type");
	intact("tensorgdot");
	c.check(sadd.same(), "tensorgdot modified the added tensor");
	c.check(D.numel() == 0 || !D.is_alias_of(add), "the result shares memory with the added tensor");
	c.op("tensorgdot_");
	{
		auto out = relayout(r, add.clone());
		auto st = IL(out.strides().begin(), out.strides().end());
		auto *p = &(dflt ? quantit::tensorgdot_(out, a, b, da, db) : quantit::tensorgdot_(out, a, b, da, db, beta, alpha));
		c.check(p == &out, "tensorgdot_ returned another tensor");
		c.check(IL(out.strides().begin(), out.strides().end()) == st, "tensorgdot_ changed the memory layout of its output");
		near(c, out, want, dt, "tensorgdot_");
		intact("tensorgdot_");
	}
	c.op("tensorgdot_out");
	{
		auto out = relayout(r, rnd_tensor(r, k.out, dt));
		auto *p = &(dflt ? quantit::tensorgdot_out(out, add, a, b, da, db) : quantit::tensorgdot_out(out, add, a, b, da, db, beta, alpha));
		c.check(p == &out, "tensorgdot_out returned another tensor");
		near(c, out, want, dt, "tensorgdot_out");
		intact("tensorgdot_out");
		c.check(sadd.same(), "tensorgdot_out modified the added tensor");
		auto o2 = relayout(r, add.clone());
		quantit::tensorgdot_out(o2, o2, a, b, da, db, beta, alpha);
		near(c, o2, want, dt, "tensorgdot_out on its own output");
	}
	// accumulate several times in the same output
	c.op("accumulate");
	if (dt != torch::kFloat)
	{
		auto out = relayout(r, add.clone());
		for (int i = 0; i < 3; ++i)
			quantit::tensorgdot_(out, a, b, da, db);
		near(c, out, contract_ref(a, b, da, db) * 3 + add, dt, "accumulated contractions");
	}
}
void tgd_nopermute(Case &c)
{
	Rng &r = c.rng;
	auto dt = dense_dtype(r);
	int na = r.in(0, 4), nb = r.in(0, 4), k = r.in(0, std::min(na, nb));
	IL as, bs, da, db, out;
	for (int i = 0; i < na; ++i)
		as.push_back(r.chance(0.01) ? r.in(17, 64) : r.in(1, 3));
	for (int i = 0; i < nb; ++i)
		bs.push_back(i < k ? as[na - k + i] : r.chance(0.01) ? r.in(17, 64) : r.in(1, 3));
	for (int i = 0; i < k; ++i)
		da.push_back(na - k + i), db.push_back(i);
	out.assign(as.begin(), as.end() - k);
	out.insert(out.end(), bs.begin() + k, bs.end());
	auto a = relayout(r, rnd_tensor(r, as, dt)), b = relayout(r, rnd_tensor(r, bs, dt)), add = relayout(r, rnd_tensor(r, out, dt));
	Scalar beta = rnd_scalar(r, dt), alpha = rnd_scalar(r, dt);
	c.describe(cat("A", vstr(as), " B", vstr(bs), " over the ", k, " joined dimensions, ", torch::toString(dt)));
	c.seen(cat(na, nb, k, int(dt), add.is_contiguous()));
	auto want = contract_ref(a, b, da, db) * alpha.toComplexDouble() + add.to(torch::kComplexDouble) * beta.toComplexDouble();
	DSnap sa(a), sb(b);
	c.op("tensorgdot_ (joined)");
	auto o = relayout(r, add.clone());
	c.check(&quantit::tensorgdot_(o, a, b, k, beta, alpha) == &o, "tensorgdot_ returned another tensor");
	near(c, o, want, dt, "tensorgdot_");
	c.check(sa.same() && sb.same(), "tensorgdot_ modified its operands");
	c.op("refusals");
	auto o2 = add.clone();
	DSnap so(o2);
	c.must_throw([&] { quantit::tensorgdot_(o2, a, b, std::min(na, nb) + int(r.in(1, 3))); }, "more contracted dimensions than there are");
	c.must_throw([&] { quantit::tensorgdot_(o2, a, b, -int(r.in(1, 2))); }, "a negative number of contracted dimensions");
	if (k > 0)
	{
		auto ws = bs;
		ws[r.in(0, k - 1)] += 1;
		auto w = rnd_tensor(r, ws, dt);
		c.must_throw([&] { quantit::tensorgdot_(o2, a, w, k, beta, alpha); }, "mismatched contracted dimensions");
	}
	if (!out.empty())
	{
		auto os = out;
		os[r.in(0, int64_t(os.size()) - 1)] += 1;
		auto w = rnd_tensor(r, os, dt);
		c.must_throw([&] { quantit::tensorgdot_(w, a, b, k, beta, alpha); }, "output of another shape");
	}
	c.check(so.same(), "a refused contraction modified its output");
}
void tgd_refuse(Case &c)
{
	Rng &r = c.rng;
	auto dt = dense_dtype(r);
	Contraction k;
	do
		k = random_contraction(r, false);
	while (k.as.empty() || k.bs.empty());
	auto da = k.da, db = k.db;
	auto as = k.as, bs = k.bs, out = k.out;
	static const char *names[] = {"sizes", "count", "duplicate", "out of range", "output shape", "output rank"};
	int w = r.in(0, 5);
	switch (w)
	{
	case 0:
		if (da.empty())
			return;
		{
			auto i = r.in(0, int64_t(da.size()) - 1);
			as[da[i]] = 2, bs[db[i]] = 3;
		}
		break;
	case 1: (r.chance(0.5) ? da : db).push_back(0); break;
	case 2:
		if (da.empty())
			return;
		da.push_back(da[r.in(0, int64_t(da.size()) - 1)]);
		db.push_back(db[r.in(0, int64_t(db.size()) - 1)]);
		break;
	case 3:
		da.push_back(as.size() + r.in(0, 2));
		db.push_back(0);
		if (r.chance(0.5))
			da.back() = -int64_t(as.size()) - r.in(1, 2);
		break;
	case 4:
		if (out.empty())
			return;
		out[r.in(0, int64_t(out.size()) - 1)] += 1;
		break;
	default: out.push_back(1);
	}
	auto a = rnd_tensor(r, as, dt), b = rnd_tensor(r, bs, dt), add = rnd_tensor(r, out, dt);
	c.op(names[w]);
	c.describe(cat("A", vstr(as), " B", vstr(bs), " over ", vstr(da), vstr(db), " added to ", vstr(out)));
	c.seen(cat(w, as.size(), bs.size(), da.size()));
	DSnap sa(a), sb(b), so(add);
	c.must_throw([&] { quantit::tensorgdot(add, a, b, da, db); }, "tensorgdot");
	c.must_throw([&] { quantit::tensorgdot_(add, a, b, da, db); }, "tensorgdot_");
	auto o = add.clone();
	c.must_throw([&] { quantit::tensorgdot_out(o, add, a, b, da, db); }, "tensorgdot_out");
	c.check(sa.same() && sb.same() && so.same(), "a refused contraction modified a tensor");
}
void dims(Case &c)
{
	Rng &r = c.rng;
	auto lst = [&]() {
		IL v(r.in(0, 6));
		for (auto &x : v)
			x = r.in(-3, 6);
		return v;
	};
	auto x = lst(), y = lst(), z = lst();
	c.seen(cat(x.size(), y.size(), z.size()));
	c.describe(cat(vstr(x), vstr(y), vstr(z)));
	auto cat3 = x;
	cat3.insert(cat3.end(), y.begin(), y.end());
	c.op("concat");
	c.check(quantit::concat(torch::IntArrayRef(x), torch::IntArrayRef(y)) == cat3, "concat of two");
	c.check(quantit::concat({x, y}) == cat3, "concat of a list of two");
	cat3.insert(cat3.end(), z.begin(), z.end());
	c.check(quantit::concat(x, y, z) == cat3, "concat of three");
	c.check(quantit::concat({x, y, z}) == cat3, "concat of a list of three");
	c.check(quantit::concat(torch::IntArrayRef(x)) == x, "concat of one");
	c.op("prod");
	int64_t p = 1;
	for (auto v : x)
		p *= v;
	c.check(quantit::prod(x) == p, "prod");
	c.op("slices");
	size_t n = x.size();
	for (size_t s = 0; s <= n; ++s)
		for (size_t l = 0; l + s <= n; ++l)
		{
			IL want(x.begin() + s, x.begin() + s + l);
			int64_t q = 1;
			for (auto v : want)
				q *= v;
			c.check(quantit::prod(x, s, l) == q, "prod of a slice", [&] { return cat(s, " ", l, ": ", quantit::prod(x, s, l), " instead of ", q); });
			c.check(quantit::slice(x, s, l).vec() == want, "slice of a vector");
			c.check(quantit::slice(torch::IntArrayRef(x), s, l).vec() == want, "slice of an array reference");
		}
	c.must_throw([&] { quantit::slice(x, n + 1, 0); }, "slice starting past the end");
	c.must_throw([&] { quantit::slice(x, r.in(0, n), n + 1); }, "slice ending past the end");
	c.must_throw([&] { quantit::prod(x, r.in(0, n), n + 1); }, "product past the end");
	c.op("reverse");
	c.check(quantit::reverse(x) == IL(x.rbegin(), x.rend()), "reverse");
}

// ---------------------------------------------------------------- T02
void svd_case(Case &c)
{
	Rng &r = c.rng;
	int rank = r.in(0, 5), split = r.in(0, rank);
	IL sh;
	int64_t l = 1, rr = 1;
	for (int i = 0; i < rank; ++i)
	{
		sh.push_back(rank < 4 && r.chance(0.02) ? r.in(17, 48) : r.in(1, rank > 3 ? 2 : 4));
		(i < split ? l : rr) *= sh.back();
	}
	auto dt = pick_dtype(r);
	double tol = dt == torch::kFloat ? 2e-5 : 1e-12, lo = dt == torch::kFloat ? 2e-4 : 1e-10;
	auto k = std::min(l, rr);
	auto s = spectrum(r, k);
	auto A = torch::matmul(isometry(r, l, k, dt) * from(s).to(dt), isometry(r, rr, k, dt).conj().t());
	A = relayout(r, A.reshape(sh).clone());
	c.describe(cat("shape ", vstr(sh), " split ", split, " ", torch::toString(dt), " values ", vstr(s)));
	c.seen(cat(rank, split, l, rr, int(dt), A.is_contiguous()));
	DSnap snap(A);
	auto parts = [&](const Tensor &u, const Tensor &d, const Tensor &v, const char *what) {
		std::string w = what;
		auto n = d.numel();
		IL us(sh.begin(), sh.begin() + split), vs(sh.begin() + split, sh.end());
		us.push_back(n);
		vs.push_back(n);
		c.check(d.dim() == 1 && u.sizes() == torch::IntArrayRef(us) && v.sizes() == torch::IntArrayRef(vs), (w + ": shapes of the factors").c_str(),
		        [&] { return cat(u.sizes(), d.sizes(), v.sizes()); });
		c.check(u.scalar_type() == dt && v.scalar_type() == dt && d.scalar_type() == (dt == torch::kComplexDouble ? torch::kDouble : dt), (w + ": scalar types").c_str());
		isometric(c, matrix(u, l), lo, (w + ": U is no isometry").c_str());
		isometric(c, matrix(v, rr), lo, (w + ": V is no isometry").c_str());
		auto x = tovec(d);
		for (size_t i = 0; i < x.size(); ++i)
		{
			c.check(x[i] >= 0 && (i == 0 || x[i] <= x[i - 1]), (w + ": singular values must be decreasing and non negative").c_str());
			c.check(std::abs(x[i] - s[i]) < lo * (1 + s[0]), (w + ": singular values").c_str(), [&] { return cat(vstr(x), " ", vstr(s)); });
		}
		auto R = torch::matmul(matrix(u, l) * d.to(dt), matrix(v, rr).conj().t());
		double disc = 0;
		for (size_t i = x.size(); i < s.size(); ++i)
			disc += s[i] * s[i];
		auto err = torch::norm((R - matrix(A, l)).abs()).item<double>();
		c.check(std::abs(err - std::sqrt(disc)) < lo * 10 * (1 + s[0]), (w + ": reconstruction").c_str(), [&] { return cat("error ", err, " instead of ", std::sqrt(disc)); });
		c.check(snap.same(), (w + " modified its input").c_str());
	};
	c.op("svd");
	{
		auto [u, d, v] = quantit::svd(A, size_t(split));
		c.check(d.numel() == k, "number of singular values");
		parts(u, d, v, "svd");
		auto [u2, d2, v2] = quantit::svd(A, int(split));
		c.check(same_bits(u, u2) && same_bits(d, d2) && same_bits(v, v2), "svd with an int split");
		// explicit truncation of a full decomposition
		c.op("truncate");
		auto t = random_trunc(r, s, 2);
		c.describe(t.str());
		size_t mx = t.mx < 0 ? size_t(-1) : size_t(t.mx);
		DSnap su(u), sd(d), sv(v);
		auto [tu, td, tv] = quantit::truncate(u, d, v, t.tol, t.mn, mx, t.pow);
		auto why = trunc_defect(s, t, td.numel(), dt == torch::kFloat ? 2e-5 : 1e-6);
		c.check(why == "", "truncation", [&] { return why + cat(", kept ", td.numel()); });
		parts(tu, td, tv, "truncate");
		auto n = td.numel();
		c.check(same_bits(tu, u.slice(-1, 0, n)) && same_bits(td, d.slice(-1, 0, n)) && same_bits(tv, v.slice(-1, 0, n)), "truncation must keep the leading values");
		auto [au, ad, av] = quantit::truncate(std::make_tuple(u, d, v), t.tol, t.mn, mx, t.pow);
		c.check(same_bits(au, tu) && same_bits(ad, td) && same_bits(av, tv), "truncation of a tuple");
		c.check(su.same() && sd.same() && sv.same(), "truncation modified its operands");
		c.op("truncated svd");
		auto [bu, bd, bv] = quantit::svd(A, split, t.tol, t.mn, mx, t.pow);
		why = trunc_defect(s, t, bd.numel(), dt == torch::kFloat ? 2e-5 : 1e-6);
		c.check(why == "", "truncation", [&] { return why + cat(", kept ", bd.numel()); });
		parts(bu, bd, bv, "truncated svd");
		Trunc t2{t.tol, t.pow, 1, -1};
		auto [cu, cd, cv] = quantit::svd(A, split, t.tol, t.pow);
		why = trunc_defect(s, t2, cd.numel(), dt == torch::kFloat ? 2e-5 : 1e-6);
		c.check(why == "", "truncation with a tolerance only", [&] { return why + cat(", kept ", cd.numel()); });
		parts(cu, cd, cv, "truncated svd");
		Trunc t3{t.tol, 2, t.mn, t.mx};
		auto [du, dd, dv] = quantit::svd(A, split, t.tol, t.mn, mx);
		why = trunc_defect(s, t3, dd.numel(), dt == torch::kFloat ? 2e-5 : 1e-6);
		c.check(why == "", "truncation with the default power", [&] { return why + cat(", kept ", dd.numel()); });
	}
	c.op("refusals");
	c.must_throw([&] { quantit::svd(A, size_t(rank + r.in(1, 3))); }, "split past the last dimension");
}
void eigh_case(Case &c)
{
	Rng &r = c.rng;
	int half = r.in(0, 3);
	IL left, sh;
	int64_t n = 1;
	for (int i = 0; i < half; ++i)
	{
		left.push_back(half < 2 && r.chance(0.05) ? r.in(4, 24) : r.in(1, half > 2 ? 2 : 3));
		n *= left.back();
	}
	IL right = left;
	if (r.chance(0.3) && half > 1)
		right = {n}; // the right group of indices needn't be cut like the left one
	sh = left;
	sh.insert(sh.end(), right.begin(), right.end());
	auto dt = pick_dtype(r);
	double lo = dt == torch::kFloat ? 3e-4 : 1e-10;
	auto mag = spectrum(r, n);
	auto e = mag;
	int sign = r.in(0, 2);
	for (auto &x : e)
		x *= sign == 0 ? 1 : sign == 1 ? -1 : r.chance(0.5) ? 1 : -1;
	auto U = isometry(r, n, n, dt);
	auto M = torch::matmul(U * from(e).to(dt), U.conj().t());
	M = (M + M.conj().t()) / 2;
	auto A = relayout(r, M.reshape(sh).clone());
	std::sort(e.begin(), e.end());
	c.describe(cat("shape ", vstr(sh), " split ", half, " ", torch::toString(dt), " values ", vstr(e)));
	c.seen(cat(half, n, int(dt), sign, A.is_contiguous()));
	DSnap snap(A);
	auto top = mag.empty() ? 0. : mag[0];
	auto parts = [&](const Tensor &d, const Tensor &u, const char *what) {
		std::string w = what;
		IL us = left;
		us.push_back(d.numel());
		c.check(d.dim() == 1 && u.sizes() == torch::IntArrayRef(us), (w + ": shapes").c_str(), [&] { return cat(d.sizes(), u.sizes()); });
		c.check(u.scalar_type() == dt && d.scalar_type() == (dt == torch::kComplexDouble ? torch::kDouble : dt), (w + ": scalar types").c_str());
		isometric(c, matrix(u, n), lo, (w + ": U is no isometry").c_str());
		auto x = tovec(d);
		for (size_t i = 1; i < x.size(); ++i)
			c.check(x[i] >= x[i - 1], (w + ": eigenvalues must be increasing").c_str());
		auto m = matrix(u, n);
		auto res = (torch::matmul(M, m) - m * d.to(dt)).abs();
		c.check(res.numel() == 0 || res.max().item<double>() < lo * (1 + top), (w + ": not eigenvectors").c_str());
		// kept values are those of largest magnitude
		std::vector<double> am;
		for (auto v : x)
			am.push_back(std::abs(v));
		std::sort(am.rbegin(), am.rend());
		double disc = 0;
		for (size_t i = 0; i < am.size(); ++i)
			c.check(std::abs(am[i] - mag[i]) < lo * (1 + top), (w + ": kept eigenvalues are not the largest").c_str(), [&] { return cat(vstr(x), " of ", vstr(e)); });
		for (size_t i = am.size(); i < mag.size(); ++i)
			disc += mag[i] * mag[i];
		auto R = torch::matmul(m * d.to(dt), m.conj().t());
		auto err = torch::norm((R - M).abs()).item<double>();
		c.check(std::abs(err - std::sqrt(disc)) < lo * 10 * (1 + top), (w + ": reconstruction").c_str(), [&] { return cat("error ", err, " instead of ", std::sqrt(disc)); });
		c.check(snap.same(), (w + " modified its input").c_str());
	};
	c.op("eigh");
	auto [d, u] = quantit::eigh(A, size_t(half));
	c.check(d.numel() == n, "number of eigenvalues");
	parts(d, u, "eigh");
	auto x = tovec(d);
	for (int64_t i = 0; i < n; ++i)
		c.check(std::abs(x[i] - e[i]) < lo * (1 + top), "eigenvalues", [&] { return cat(vstr(x), " ", vstr(e)); });
	auto [d2, u2] = quantit::eigh(A, int(half));
	c.check(same_bits(d, d2) && same_bits(u, u2), "eigh with an int split");
	c.op("truncated eigh");
	auto t = random_trunc(r, mag, 1);
	c.describe(t.str());
	size_t mx = t.mx < 0 ? size_t(-1) : size_t(t.mx);
	double eps = dt == torch::kFloat ? 2e-5 : 1e-6;
	{
		auto [td, tu] = quantit::eigh(A, half, t.tol, t.mn, mx, t.pow);
		auto why = trunc_defect(mag, t, td.numel(), eps);
		c.check(why == "", "truncation", [&] { return why + cat(", kept ", td.numel()); });
		parts(td, tu, "truncated eigh");
	}
	{
		auto [td, tu] = quantit::eigh(A, half, t.tol, t.pow);
		auto why = trunc_defect(mag, Trunc{t.tol, t.pow, 1, -1}, td.numel(), eps);
		c.check(why == "", "truncation with a tolerance only", [&] { return why + cat(", kept ", td.numel()); });
		parts(td, tu, "truncated eigh");
	}
	c.op("refusals");
	if (n > 1)
	{
		c.must_throw_as<std::invalid_argument>([&] { quantit::eigh(A.reshape({n, n}), size_t(2)); }, "eigh of a rectangular matrix");
		c.must_throw_as<std::invalid_argument>([&] { quantit::eigh(A.reshape({n, n}), 0, t.tol, t.mn, mx, t.pow); }, "eigh of a rectangular matrix");
	}
}
// exact arithmetic: the limits themselves
void exact_truncation(Case &c)
{
	Rng &r = c.rng;
	int64_t n = r.in(1, 7);
	std::vector<double> mag(n);
	for (auto &m : mag)
		m = r.in(0, 6);
	std::sort(mag.rbegin(), mag.rend());
	int pow = r.in(1, 2);
	std::vector<double> tail(n + 1, 0);
	for (int64_t i = n; i-- > 0;)
		tail[i] = tail[i + 1] + std::pow(mag[i], pow);
	double tol = r.in(0, 12);
	if (pow == 1 && r.chance(0.7))
		tol = tail[r.in(0, n)];
	int64_t mn = r.in(0, n + 1), mx = r.chance(0.4) ? -1 : std::max(mn, r.in(0, n + 1));
	size_t umx = mx < 0 ? size_t(-1) : size_t(mx);
	// largest number of values that can be discarded
	int64_t keep = n;
	while (keep > mn && (tail[keep - 1] <= std::pow(tol, pow) || (mx >= 0 && keep > mx)))
		--keep;
	c.describe(cat(vstr(mag), " tol ", tol, " pow ", pow, " min ", mn, " max ", mx, " -> ", keep));
	c.seen(cat(n, mn, mx, pow, keep));
	auto signs = torch::ones({n}, torch::kDouble);
	if (r.chance(0.5))
		for (int64_t i = 0; i < n; ++i)
			signs.data_ptr<double>()[i] = r.chance(0.5) ? -1 : 1;
	auto dt = r.chance(0.3) ? torch::kFloat : torch::kDouble;
	auto d = (from(mag) * signs).to(dt);
	DSnap sd(d);
	c.op("compute_last_index");
	auto li = quantit::compute_last_index(d, tol, pow, mn, umx);
	c.check(li + 1 == keep, "number of values kept", [&] { return cat("keeps ", li + 1, " instead of ", keep); });
	c.op("compute_first_index_ascending");
	auto fi = quantit::compute_first_index_ascending(d.flip({0}), tol, pow, mn, umx);
	c.check(fi == n - keep, "number of values discarded", [&] { return cat("discards ", fi, " instead of ", n - keep); });
	c.op("truncate");
	auto u = random_values(r, {2, 3, n}, dt), v = random_values(r, {4, n}, dt);
	auto [tu, td, tv] = quantit::truncate(u, d, v, tol, mn, umx, pow);
	c.check(same_bits(tu, u.slice(-1, 0, keep)) && same_bits(td, d.slice(-1, 0, keep)) && same_bits(tv, v.slice(-1, 0, keep)), "truncate(u,d,v)");
	auto [eu, ee] = quantit::truncate(u, d, tol, mn, umx, pow);
	c.check(same_bits(eu, u.slice(-1, 0, keep)) && same_bits(ee, d.slice(-1, 0, keep)), "truncate(u,e)");
	auto [fu, fe] = quantit::truncate(std::make_tuple(u, d), tol, mn, umx, pow);
	c.check(same_bits(fu, eu) && same_bits(fe, ee), "truncate((u,e))");
	c.check(sd.same(), "truncation modified the values");
	// default arguments: nothing but exact zeros may be discarded, at least one value is kept
	int64_t kd = n;
	while (kd > 1 && mag[kd - 1] == 0)
		--kd;
	c.check(std::get<1>(quantit::truncate(u, d, v)).numel() == kd, "truncate(u,d,v) without tolerance");
	c.check(std::get<1>(quantit::truncate(u, d)).numel() == kd, "truncate(u,e) without tolerance");
	// batches: a value is discarded only if every member of the batch allows it
	c.op("batch");
	if (r.chance(0.5))
	{
		int64_t nb = r.in(2, 3);
		std::vector<Tensor> rows;
		int64_t kb = 0;
		for (int64_t b = 0; b < nb; ++b)
		{
			std::vector<double> m(n);
			for (auto &x : m)
				x = r.in(0, 6);
			std::sort(m.rbegin(), m.rend());
			rows.push_back(from(m));
			int64_t k = n;
			double w = 0;
			while (k > mn && ((w += std::pow(m[k - 1], pow)) <= std::pow(tol, pow) || (mx >= 0 && k > mx)))
				--k;
			kb = std::max(kb, k);
		}
		auto D = torch::stack(rows);
		auto bu = random_values(r, {nb, 3, n}, dt);
		auto [x, y, z] = quantit::truncate(bu, D, bu, tol, mn, umx, pow);
		c.check(y.size(-1) == kb && x.size(-1) == kb && z.size(-1) == kb, "batched truncation", [&] { return cat("kept ", y.size(-1), " instead of ", kb); });
		c.check(same_bits(y, D.slice(-1, 0, kb)), "batched truncation keeps other values");
	}
}

// ---------------------------------------------------------------- O01
Tensor xmm(const Tensor &a, const Tensor &b) { return torch::matmul(a.to(torch::kDouble), b.to(torch::kDouble)); }
Tensor dag(const Tensor &a) { return a.conj().t(); }
Tensor xkron(const std::vector<Tensor> &v)
{
	auto o = torch::ones({1, 1}, torch::kDouble);
	for (auto &x : v)
		o = torch::einsum("ab,cd->acbd", {o, x.to(torch::kDouble)}).reshape({o.size(0) * x.size(0), o.size(1) * x.size(1)});
	return o;
}
// what a caller does with the returned operators stays with that caller
template <class Gen>
void independent(Case &c, Gen gen)
{
	auto keep = [](auto &...t) { return std::vector<Tensor>{t.clone()...}; };
	auto first = gen();
	auto before = std::apply(keep, first);
	int n = 0;
	auto spoil = [&](auto &...t) { (t.fill_(7 + n++), ...); };
	std::apply(spoil, first);
	n = 0;
	auto spoiled = [&](auto &...t) { (c.check((t == 7 + n++).all().template item<bool>(), "the returned operators share storage"), ...); };
	std::apply(spoiled, first);
	auto second = gen();
	auto after = std::apply(keep, second);
	for (size_t i = 0; i < before.size(); ++i)
		c.check(torch::equal(before[i], after[i]), "writing into a returned operator changed those of the next call");
}
void dense_fermions(Case &c)
{
	c.op("fermions");
	auto [up, dn, F, id] = quantit::fermions();
	auto I = torch::eye(4, torch::kDouble), Z = torch::zeros({4, 4}, torch::kDouble);
	for (auto &t : {up, dn, F, id})
		c.check(t.sizes() == torch::IntArrayRef({4, 4}), "shape");
	auto is = [&](const Tensor &a, const Tensor &b, const char *what) { c.check(torch::equal(a.to(torch::kDouble), b.to(torch::kDouble)), what, [&] { return cat(a, b); }); };
	is(id, I, "identity");
	is(xmm(F, F), I, "F squared");
	std::vector<Tensor> cs = {up, dn};
	for (int a = 0; a < 2; ++a)
	{
		is(xmm(F, cs[a]) + xmm(cs[a], F), Z, "F anticommutes with the annihilation operators");
		for (int b = 0; b < 2; ++b)
		{
			is(xmm(cs[a], cs[b]) + xmm(cs[b], cs[a]), Z, "annihilation operators anticommute");
			is(xmm(cs[a], dag(cs[b])) + xmm(dag(cs[b]), cs[a]), a == b ? I : Z, "canonical anticommutator");
		}
	}
	auto nu = xmm(dag(up), up), nd = xmm(dag(dn), dn);
	is(nu, nu.diag().diag(), "up number operator is diagonal");
	is(nd, nd.diag().diag(), "down number operator is diagonal");
	// documented order of the states: empty, up, down, both
	is(nu.diag(), torch::tensor({0., 1., 0., 1.}, torch::kDouble), "spectrum of the up number operator");
	is(nd.diag(), torch::tensor({0., 0., 1., 1.}, torch::kDouble), "spectrum of the down number operator");
	is(F.to(torch::kDouble).diag(), 1 - 2 * (nu.diag() + nd.diag() - 2 * nu.diag() * nd.diag()), "F is the parity");
	c.op("chains of fermions");
	for (int L = 2; L <= 3; ++L)
	{
		std::vector<Tensor> op;
		for (int s = 0; s < L; ++s)
			for (auto &x : cs)
			{
				std::vector<Tensor> f;
				for (int k = 0; k < L; ++k)
					f.push_back(k < s ? F : k == s ? x : id);
				op.push_back(xkron(f));
			}
		auto E = torch::eye(op[0].size(0), torch::kDouble);
		for (size_t a = 0; a < op.size(); ++a)
			for (size_t b = 0; b < op.size(); ++b)
			{
				is(xmm(op[a], op[b]) + xmm(op[b], op[a]), E * 0, "dressed annihilation operators anticommute");
				is(xmm(op[a], dag(op[b])) + xmm(dag(op[b]), op[a]), a == b ? E : E * 0, "dressed canonical anticommutator");
			}
	}
	c.op("write into the returned operators");
	independent(c, [] { return quantit::fermions(); });
	c.seen("fermions");
}
void dense_pauli(Case &c)
{
	c.op("pauli");
	auto [x, iy, z, lo, id] = quantit::pauli();
	auto I = torch::eye(2, torch::kDouble);
	auto is = [&](const Tensor &a, const Tensor &b, const char *what) { c.check(torch::equal(a.to(torch::kDouble), b.to(torch::kDouble)), what, [&] { return cat(a, b); }); };
	auto com = [&](const Tensor &a, const Tensor &b) { return xmm(a, b) - xmm(b, a); };
	is(id, I, "identity");
	is(xmm(x, x), I, "Sx squared");
	is(xmm(iy, iy), -I, "iSy squared");
	is(xmm(z, z), I, "Sz squared");
	is(com(x, iy), -2 * z, "[Sx,iSy]");
	is(com(iy, z), -2 * x, "[iSy,Sz]");
	is(com(z, x), 2 * iy, "[Sz,Sx]");
	is(dag(x), x, "Sx is hermitian");
	is(dag(iy), -iy, "iSy is antihermitian");
	is(dag(z), z, "Sz is hermitian");
	is(z.to(torch::kDouble), z.to(torch::kDouble).diag().diag(), "Sz is diagonal");
	is(com(z, lo), -2 * lo, "lo lowers Sz");
	is(lo + dag(lo), x, "Sx from lo");
	is(xmm(lo, lo), 0 * I, "lo squared");
	is(com(dag(lo), lo), z, "[hi,lo]");
	c.op("write into the returned operators");
	independent(c, [] { return quantit::pauli(); });
	c.seen("pauli");
}
// charges of the basis states, cut in sections
Dim cut(Rng &r, const std::vector<Val> &q)
{
	Dim d;
	for (auto &v : q)
		if (!d.empty() && d.back().q == v && r.chance(0.6))
			d.back().size += 1;
		else
			d.push_back({1, v});
	return d;
}
struct OpShape
{
	Spec s;
	std::vector<Val> bra, ket; // charge of every row and column
};
Tensor block_of(Case &c, const btensor &t, const Spec &s, const Tensor &dense, const std::vector<Val> &bra, const std::vector<Val> &ket, const char *what)
{
	validate(c, t, what);
	Spec e = s;
	// the selection rule is the charge of the non zero elements
	bool any = false;
	auto D = dense.to(torch::kDouble).contiguous();
	for (int64_t i = 0; i < D.size(0); ++i)
		for (int64_t j = 0; j < D.size(1); ++j)
			if (D.data_ptr<double>()[i * D.size(1) + j] != 0)
			{
				e.sel = s.g->mul(bra[i], ket[j]);
				any = true;
			}
	(void)any;
	expect_spec(c, t, e, what);
	auto got = dense_of(t).to(torch::kDouble);
	c.check(torch::equal(got, D), (std::string(what) + ": dense matrix").c_str(), [&] { return cat(got, D); });
	return got;
}
void block_operators(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	bool fermion = r.chance(0.5);
	std::vector<Val> p;
	auto q = [&]() { return g.random(r, 2); };
	if (fermion)
	{
		auto p0 = q(), a = q(), b = r.chance(0.3) ? a : q();
		p = {p0, g.mul(p0, a), g.mul(p0, b), g.mul(p0, g.mul(a, b))};
	}
	else
		p = {q(), q()};
	std::vector<Val> bra = p, ket;
	for (auto &v : p)
		ket.push_back(g.inv(v));
	if (r.chance(0.3))
	{ // a global shift of either side is still admissible
		auto z = q();
		for (auto &v : r.chance(0.5) ? bra : ket)
			v = g.mul(v, z);
	}
	Spec s;
	s.g = &g;
	s.lay = {cut(r, bra), cut(r, ket)};
	s.sel = r.chance(0.5) ? g.neutral() : q();
	auto dt = pick_dtype(r);
	btensor shape(s.vecs(), s.selq(), torch::TensorOptions().dtype(dt));
	Snap snap(shape);
	c.describe(cat(fermion ? "fermions on " : "pauli on ", s.str()));
	c.seen(cat(fermion, s.str()));
	if (fermion)
	{
		c.op("fermions(shape)");
		auto [up, dn, F, id] = quantit::fermions(shape);
		auto [dup, ddn, dF, did] = quantit::fermions();
		block_of(c, up, s, dup, bra, ket, "c_up");
		block_of(c, dn, s, ddn, bra, ket, "c_dn");
		block_of(c, F, s, dF, bra, ket, "F");
		block_of(c, id, s, did, bra, ket, "id");
		if (r.chance(0.2))
		{
			c.op("write into the returned operators");
			int n = 7;
			for (auto t : {&up, &dn, &F, &id})
				t->mul_(n++);
			auto [up2, dn2, F2, id2] = quantit::fermions(shape);
			block_of(c, up2, s, dup, bra, ket, "second c_up");
			block_of(c, dn2, s, ddn, bra, ket, "second c_dn");
			block_of(c, F2, s, dF, bra, ket, "second F");
			block_of(c, id2, s, did, bra, ket, "second id");
		}
	}
	else
	{
		c.op("pauli(shape)");
		auto [z, lo, id] = quantit::pauli(shape);
		auto [dx, diy, dz, dlo, did] = quantit::pauli();
		block_of(c, z, s, dz, bra, ket, "Sz");
		block_of(c, lo, s, dlo, bra, ket, "lo");
		block_of(c, id, s, did, bra, ket, "id");
		if (r.chance(0.2))
		{
			c.op("write into the returned operators");
			int n = 7;
			for (auto t : {&z, &lo, &id})
				t->mul_(n++);
			auto [z2, lo2, id2] = quantit::pauli(shape);
			block_of(c, z2, s, dz, bra, ket, "second Sz");
			block_of(c, lo2, s, dlo, bra, ket, "second lo");
			block_of(c, id2, s, did, bra, ket, "second id");
		}
	}
	c.check(snap.diff(shape) == "", "the shape was modified");
}
void block_refuse(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	bool fermion = r.chance(0.5);
	int64_t n = fermion ? 4 : 2;
	int kind = r.in(0, 2);
	Spec s;
	s.g = &g;
	s.sel = g.neutral();
	static const char *names[] = {"wrong size", "wrong rank", "no definite charge"};
	c.op(names[kind]);
	auto any = [&](int64_t m) {
		std::vector<Val> v;
		for (int64_t i = 0; i < m; ++i)
			v.push_back(g.random(r, 2));
		return v;
	};
	if (kind == 0)
	{
		int64_t a = n, b = n;
		while (a == n && b == n)
			a = r.in(std::max<int64_t>(1, n - 1), n + 1), b = r.in(std::max<int64_t>(1, n - 1), n + 1);
		s.lay = {cut(r, any(a)), cut(r, any(b))};
	}
	else if (kind == 1)
	{
		int rank = r.chance(0.5) ? 1 : 3;
		for (int i = 0; i < rank; ++i)
			s.lay.push_back(cut(r, any(n)));
	}
	else
	{ // a row/column labelling for which some operator mixes charges
		auto bra = any(n), ket = any(n);
		auto [dup, ddn, dF, did4] = quantit::fermions();
		auto [dx, diy, dz, dlo, did2] = quantit::pauli();
		std::vector<Tensor> ops = fermion ? std::vector<Tensor>{dup, ddn, dF, did4} : std::vector<Tensor>{dz, dlo, did2};
		bool bad = false;
		for (auto &o : ops)
		{
			std::set<Val> charges;
			for (int64_t i = 0; i < n; ++i)
				for (int64_t j = 0; j < n; ++j)
					if (o.index({i, j}).item<double>() != 0)
						charges.insert(g.mul(bra[i], ket[j]));
			bad |= charges.size() > 1;
		}
		if (!bad)
			return;
		s.lay = {cut(r, bra), cut(r, ket)};
	}
	c.describe(cat(fermion ? "fermions on " : "pauli on ", s.str()));
	c.seen(cat(kind, fermion, s.lay.size()));
	btensor shape(s.vecs(), s.selq());
	Snap snap(shape);
	if (fermion)
		c.must_throw([&] { quantit::fermions(shape); }, "fermions");
	else
		c.must_throw([&] { quantit::pauli(shape); }, "pauli");
	c.check(snap.diff(shape) == "", "the shape was modified");
}
} // namespace

PROPERTY(T01)
{
	ctx.family("tensorgdot", ctx.n(30000, 400000), tgd);
	ctx.family("tensorgdot-joined", ctx.n(15000, 200000), tgd_nopermute);
	ctx.family("tensorgdot-refuse", ctx.n(10000, 100000), tgd_refuse);
	ctx.family("dims", ctx.n(10000, 100000), dims);
}
PROPERTY(T02)
{
	ctx.family("svd", ctx.n(12000, 200000), svd_case);
	ctx.family("eigh", ctx.n(12000, 200000), eigh_case);
	ctx.family("limits", ctx.n(20000, 300000), exact_truncation);
}
PROPERTY(O01)
{
	ctx.fixed("fermions", dense_fermions);
	ctx.fixed("pauli", dense_pauli);
	ctx.family("block", ctx.n(8000, 100000), block_operators);
	ctx.family("refuse", ctx.n(6000, 60000), block_refuse);
}
