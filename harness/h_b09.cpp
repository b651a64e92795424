// B09: charge transformations.  B10: shape algebra.
#include "zoo.h"
#include <numeric>
using namespace bt;
using namespace quantit;
using torch::TensorOptions;
namespace
{
Val mulv(const Grp &g, const Val &a, const Val &b) { return g.mul(a, b); }
Spec inverted(const Spec &s)
{
	Spec o = s;
	for (auto &d : o.lay)
		d = bt::inv(*s.g, d);
	o.sel = s.g->inv(s.sel);
	return o;
}
btensor own(const btensor &a)
{
	btensor t = a;
	for (auto &b : t)
		std::get<1>(b) = std::get<1>(b).clone();
	return t;
}
void exactly(Case &c, const btensor &got, const Spec &s, const Tensor &want, const std::vector<IL> &k, torch::ScalarType dt, const char *what)
{
	validate(c, got, what);
	expect_spec(c, got, s, what);
	c.check(dtype_of(got) == dt, what, [] { return std::string("scalar type"); });
	c.check(keys(got) == k, what, [&] { return "stored blocks: " + show(got); });
	auto d = dense_of(got);
	c.check(d.sizes() == want.sizes() && torch::equal(d, want.resolve_conj()), what, [&] { return "elements: " + show(got); });
}
MakeOpt rnd(Rng &r)
{
	MakeOpt mo;
	mo.density = r.chance(0.4) ? r.unit() : 0.8;
	return mo;
}
void conjugation(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto dt = r.chance(0.5) ? torch::kComplexDouble : pick_dtype(r);
	auto a = make(r, s, dt, rnd(r));
	auto D = dense_of(a), C = D.conj().resolve_conj().clone();
	auto k = keys(a);
	auto is = inverted(s);
	Snap snap(a);
	c.describe(s.str());
	c.seen(cat("conj", s.str(), vstr(k), int(dt)));
	auto intact = [&](const char *what) {
		auto d = snap.diff(a);
		c.check(d == "", what, [&] { return "operand modified: " + d; });
	};
	c.op("conj");
	exactly(c, a.conj(), is, C, k, dt, "conj");
	exactly(c, a.conj().conj(), s, D, k, dt, "conj twice");
	intact("conj");
	c.op("conj_only");
	exactly(c, a.conj_only(), s, C, k, dt, "conj_only");
	exactly(c, a.conj_only().conj_only(), s, D, k, dt, "conj_only twice");
	intact("conj_only");
	c.op("inverse_cvals");
	exactly(c, a.inverse_cvals(), is, D, k, dt, "inverse_cvals");
	exactly(c, quantit::inverse_cvals(a), is, D, k, dt, "inverse_cvals (free)");
	exactly(c, quantit::inverse_cvals(own(a)), is, D, k, dt, "inverse_cvals (free, rvalue)");
	exactly(c, a.inverse_cvals().inverse_cvals(), s, D, k, dt, "inverse_cvals twice");
	exactly(c, a.conj_only().inverse_cvals(), is, C, k, dt, "conj is conj_only and inverse_cvals");
	intact("inverse_cvals");
	c.op("inverse_cvals_");
	{
		auto t = own(a);
		c.check(&t.inverse_cvals_() == &t, "inverse_cvals_ returns another tensor");
		exactly(c, t, is, D, k, dt, "inverse_cvals_");
		c.check(&quantit::inverse_cvals_(t) == &t, "inverse_cvals_ returns another tensor");
		exactly(c, t, s, D, k, dt, "inverse_cvals_ twice");
	}
	{
		btensor t = a; // shares blocks but not the charges
		t.inverse_cvals_();
		intact("inverse_cvals_ on a copy");
	}
	c.op("norm");
	{
		IL all(s.rank());
		std::iota(all.begin(), all.end(), 0);
		auto n2 = a.tensordot(a.conj(), all, all);
		validate(c, n2, "squared norm");
		c.check(n2.dim() == 0 && sel_of(n2) == g.make(g.neutral()), "the squared norm is no neutral scalar", [&] { return show(n2); });
		auto want = (D * C).sum();
		auto got = dense_of(n2);
		c.check(rel_err(got, want) < (dt == torch::kFloat ? 1e-4 : 1e-10), "contraction with the conjugate is not the squared norm",
		        [&] { return cat(got, " ", want); });
		if (!keys(n2).empty())
		{
			auto it = n2.item();
			auto w = want.item();
			c.check(std::abs(it.toComplexDouble().real() - w.toComplexDouble().real()) < 1e-3 * (1 + std::abs(w.toComplexDouble().real())), "item");
		}
	}
	c.op("permute and conj");
	if (s.rank() >= 2)
	{
		IL p(s.rank());
		std::iota(p.begin(), p.end(), 0);
		r.shuffle(p);
		auto d = Snap(a.permute(p).conj()).diff(a.conj().permute(p));
		c.check(d == "", "conjugation doesn't commute with permutation", [&] { return d; });
	}
}
void shifting(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4));
	auto dt = pick_dtype(r);
	auto a = make(r, s, dt, rnd(r));
	auto D = dense_of(a);
	auto k = keys(a);
	Snap snap(a);
	int64_t d = r.in(0, s.rank() - 1);
	auto q = g.random(r, 3);
	auto shifted = s;
	shifted.lay[d] = shift(g, s.lay[d], q);
	shifted.sel = mulv(g, s.sel, q);
	c.describe(cat(s.str(), " dim ", d, " by ", vstr(q)));
	c.seen(cat("shift", s.str(), d, vstr(q), vstr(k)));
	auto Q = g.make(q);
	c.op("cval_shift");
	exactly(c, a.cval_shift(Q, d), shifted, D, k, dt, "cval_shift");
	exactly(c, a.cval_shift(Q, d).cval_shift(Q.inverse(), d), s, D, k, dt, "cval_shift by q and its inverse");
	{
		auto e = r.in(0, s.rank() - 1);
		auto p = g.random(r, 3);
		auto x = a.cval_shift(Q, d).cval_shift(g.make(p), e), y = a.cval_shift(g.make(p), e).cval_shift(Q, d);
		auto df = Snap(x).diff(y);
		c.check(df == "", "shifts do not commute", [&] { return df; });
		auto z = Snap(a.cval_shift(g.make(mulv(g, p, q)), d)).diff(a.cval_shift(Q, d).cval_shift(g.make(p), d));
		c.check(z == "", "shifts do not compose", [&] { return z; });
	}
	c.op("cval_shift_");
	{
		auto t = own(a);
		c.check(&t.cval_shift_(Q, d) == &t, "cval_shift_ returns another tensor");
		exactly(c, t, shifted, D, k, dt, "cval_shift_");
		quantit::cval_shift_(t, Q.inverse(), d);
		exactly(c, t, s, D, k, dt, "cval_shift_ back");
	}
	c.op("cval_shift_ by its own charge");
	{ // the shift may be a reference to a charge of the tensor being shifted, or to its selection rule
		auto t = own(a);
		size_t sec = r.next() % s.lay[d].size();
		auto w = s;
		auto own_q = s.lay[d][sec].q;
		w.lay[d] = shift(g, s.lay[d], own_q);
		w.sel = mulv(g, s.sel, own_q);
		const btensor &ct = t;
		t.cval_shift_(ct.section_conserved_qtt(d, sec), d);
		exactly(c, t, w, D, k, dt, "cval_shift_ by the charge of one of its own sections");
		auto u = own(a);
		auto w2 = s;
		w2.lay[d] = shift(g, s.lay[d], s.sel);
		w2.sel = mulv(g, s.sel, s.sel);
		u.cval_shift_(u.selection_rule, d);
		exactly(c, u, w2, D, k, dt, "cval_shift_ by its own selection rule");
	}
	c.op("contraction of shifted tensors");
	{ // shifting a bond on one side and back on the other leaves the contraction alone
		Spec b;
		b.g = &g;
		b.lay = {bt::inv(g, s.lay[d]), random_dim(r, g, 3)};
		b.sel = random_sel(r, g, b.lay);
		auto y = make(r, b, dt, rnd(r));
		auto ref = a.tensordot(y, {d}, {0});
		auto got = a.cval_shift(Q, d).tensordot(y.cval_shift(Q.inverse(), 0), {d}, {0});
		validate(c, got, "contraction of shifted tensors");
		auto df = Snap(ref).diff(got);
		c.check(df == "", "contraction of shifted tensors", [&] { return df; });
	}
	auto df = snap.diff(a);
	c.check(df == "", "operand modified", [&] { return df; });
}
void empty_tensors(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto dt = pick_dtype(r);
	auto a = sparse_zeros(s.vecs(), s.selq(), TensorOptions().dtype(dt));
	auto q = g.random(r, 3);
	auto Q = g.make(q);
	c.describe(s.str());
	c.seen(cat("empty", s.str(), vstr(q)));
	Snap snap(a);
	auto is = [&](const btensor &t, const Spec &w, const char *what) {
		validate(c, t, what);
		expect_spec(c, t, w, what);
		c.check(keys(t).empty(), "blocks appeared");
		c.check(dtype_of(t) == dt, "scalar type");
	};
	c.op("selection rule");
	auto w = s;
	w.sel = q;
	{
		btensor t = a;
		c.check(&t.set_selection_rule_(Q) == &t, "set_selection_rule_ returns another tensor");
		is(t, w, "set_selection_rule_");
		btensor u = a;
		quantit::set_selection_rule_(u, Q);
		is(u, w, "set_selection_rule_ (free)");
	}
	w.sel = mulv(g, s.sel, q);
	{
		btensor t = a;
		c.check(&t.shift_selection_rule_(Q) == &t, "shift_selection_rule_ returns another tensor");
		is(t, w, "shift_selection_rule_");
		btensor u = a;
		quantit::shift_selection_rule_(u, Q);
		is(u, w, "shift_selection_rule_ (free)");
		u.shift_selection_rule_(Q.inverse());
		is(u, s, "shift_selection_rule_ back");
		btensor v = a;
		v.shift_selection_rule_(v.selection_rule);
		w.sel = mulv(g, s.sel, s.sel);
		is(v, w, "shift_selection_rule_ by itself");
	}
	w = s;
	w.sel = g.neutral();
	is(a.neutral_selection_rule(), w, "neutral_selection_rule");
	{
		btensor t = a;
		t.neutral_selection_rule_();
		is(t, w, "neutral_selection_rule_");
	}
	c.op("neutral_shape");
	for (auto &d : w.lay)
		for (auto &x : d)
			x.q = g.neutral();
	is(a.neutral_shape(), w, "neutral_shape");
	{
		btensor t = a;
		c.check(&t.neutral_shape_() == &t, "neutral_shape_ returns another tensor");
		is(t, w, "neutral_shape_");
	}
	c.op("non_conserving_cval_shift_");
	if (s.rank())
	{
		int64_t d = r.in(0, s.rank() - 1);
		w = s;
		w.lay[d] = shift(g, s.lay[d], q);
		btensor t = a;
		c.check(&t.non_conserving_cval_shift_(Q, d) == &t, "non_conserving_cval_shift_ returns another tensor");
		is(t, w, "non_conserving_cval_shift_");
		btensor u = a;
		quantit::non_conserving_cval_shift_(u, Q, d);
		is(u, w, "non_conserving_cval_shift_ (free)");
		size_t sec = r.next() % s.lay[d].size();
		w.lay[d] = shift(g, s.lay[d], s.lay[d][sec].q);
		btensor v = a;
		const btensor &cv = v;
		v.non_conserving_cval_shift_(cv.section_conserved_qtt(d, sec), d);
		is(v, w, "non_conserving_cval_shift_ by its own charge");
		c.op("cval_shift_");
		w = s;
		w.lay[d] = shift(g, s.lay[d], q);
		w.sel = mulv(g, s.sel, q);
		btensor x = a;
		x.cval_shift_(Q, d);
		is(x, w, "cval_shift_ of an empty tensor");
	}
	c.op("inverse_cvals");
	is(a.inverse_cvals(), inverted(s), "inverse_cvals of an empty tensor");
	is(a.conj(), inverted(s), "conj of an empty tensor");
	auto df = snap.diff(a);
	c.check(df == "", "operand modified", [&] { return df; });
}
} // namespace
PROPERTY(B09)
{
	ctx.family("conjugation", ctx.n(12000, 120000), conjugation);
	ctx.family("shift", ctx.n(15000, 150000), shifting);
	ctx.family("empty", ctx.n(12000, 120000), empty_tensors);
}

namespace
{
void no_blocks(Case &c, const btensor &t, const Spec &s, torch::ScalarType dt, const char *what)
{
	validate(c, t, what);
	expect_spec(c, t, s, what);
	c.check(keys(t).empty(), what, [] { return std::string("a shape holds blocks"); });
	c.check(dtype_of(t) == dt, what, [&] { return std::string("scalar type ") + torch::toString(dtype_of(t)); });
}
IL random_slots(Rng &r, const Spec &s, double keep)
{
	IL sl;
	for (auto k : s.sizes())
		sl.push_back(r.chance(keep) ? -1 : r.in(0, k - 1));
	return sl;
}
Spec sliced(const Spec &s, const IL &sl)
{
	Spec o;
	o.g = s.g;
	o.sel = s.sel;
	for (int64_t i = 0; i < s.rank(); ++i)
	{
		if (sl[i] < 0)
		{
			o.lay.push_back(s.lay[i]);
			continue;
		}
		int64_t e = sl[i], k = 0;
		while (e >= s.lay[i][k].size)
			e -= s.lay[i][k++].size;
		o.sel = s.g->mul(o.sel, s.g->inv(s.lay[i][k].q));
	}
	return o;
}
Spec product(const Spec &a, const Spec &b)
{
	Spec o = a;
	o.lay.insert(o.lay.end(), b.lay.begin(), b.lay.end());
	o.sel = a.g->mul(a.sel, b.sel);
	return o;
}
void extraction(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto dt = pick_dtype(r);
	auto a = make(r, s, dt, rnd(r));
	Snap snap(a);
	auto sl = random_slots(r, s, r.unit());
	c.describe(cat(s.str(), vstr(sl)));
	c.seen(cat("extract", s.str(), vstr(sl)));
	c.op("shape_from");
	auto w = sliced(s, sl);
	no_blocks(c, a.shape_from(sl), w, dt, "shape_from with fixed dimensions");
	no_blocks(c, quantit::shape_from(a, sl), w, dt, "shape_from with fixed dimensions (free)");
	IL keep(s.rank(), -1);
	no_blocks(c, a.shape_from(keep), s, dt, "shape_from of everything");
	no_blocks(c, quantit::shape_from(std::vector<btensor>{a}), s, dt, "shape_from of one tensor");
	no_blocks(c, disambiguated_shape_from({a}), s, dt, "disambiguated_shape_from of one tensor");
	no_blocks(c, sparse_zeros_like(a), s, dt, "sparse_zeros_like");
	// fixing dimensions in two steps or at once gives the same shape
	{
		IL first(s.rank(), -1), second;
		for (int64_t i = 0; i < s.rank(); ++i)
		{
			if (sl[i] >= 0 && r.chance(0.5))
				first[i] = sl[i];
			else
				second.push_back(sl[i]);
		}
		no_blocks(c, a.shape_from(first).shape_from(second), w, dt, "shape_from in two steps");
	}
	c.op("neutral_shape");
	auto n = w;
	n.sel = g.neutral();
	for (auto &d : n.lay)
		for (auto &x : d)
			x.q = g.neutral();
	no_blocks(c, a.shape_from(sl).neutral_shape(), n, dt, "neutral shape");
	// the shape of a view is that of the fixed dimensions
	c.op("view");
	{
		btensor t = a;
		auto v = t.basic_create_view(sl);
		validate(c, v, "view");
		expect_spec(c, v, w, "view");
		auto z = rand_like(a.shape_from(sl));
		c.check(btensor::test_same_shape(z, v), "a tensor allocated on the shape of a view doesn't have the shape of the view");
		(void)v.add(z);
	}
	c.op("get_section_cval");
	for (int64_t d = 0; d < s.rank(); ++d)
		for (size_t k = 0; k < s.lay[d].size(); ++k)
			c.check(any_quantity(get_section_cval(a, d, k)) == g.make(s.lay[d][k].q), "get_section_cval");
	auto df = snap.diff(a);
	c.check(df == "", "operand modified", [&] { return df; });
	// an allocation on a shape gives the allowed blocks of that shape
	c.op("allocation");
	auto al = ones_like(a.shape_from(sl));
	c.check(keys(al) == allowed_blocks(w), "blocks allocated on a shape");
}
void composition(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	int n = r.in(1, 4);
	std::vector<Spec> sp;
	std::vector<btensor> ts;
	std::vector<Snap> sn;
	auto dt = pick_dtype(r);
	for (int i = 0; i < n; ++i)
	{
		sp.push_back(random_spec(r, g, r.in(0, n <= 2 ? 3 : 2), 3));
		ts.push_back(make(r, sp.back(), dt, rnd(r)));
		if (r.chance(0.3))
			ts.back() = sparse_zeros_like(ts.back());
		sn.emplace_back(ts.back());
		c.describe(sp.back().str());
	}
	auto w = sp[0];
	for (int i = 1; i < n; ++i)
		w = product(w, sp[i]);
	c.seen(cat("compose", w.str(), n));
	c.op("shape_from");
	no_blocks(c, quantit::shape_from(ts), w, dt, "shape_from of a list");
	no_blocks(c, disambiguated_shape_from(ts), w, dt, "disambiguated_shape_from of a list");
	if (n == 2)
	{
		no_blocks(c, quantit::shape_from(ts[0], ts[1]), w, dt, "shape_from of two tensors");
		c.op("tensor_product_shape");
		no_blocks(c, ts[0].tensor_product_shape(ts[1]), w, dt, "tensor_product_shape");
		c.op("tensor product");
		auto p = tensordot(ts[0], ts[1], torch::IntArrayRef{}, torch::IntArrayRef{});
		auto z = rand_like(quantit::shape_from(ts[0], ts[1]));
		c.check(btensor::test_same_shape(p, z), "the tensor product doesn't have the shape announced for it");
		(void)p.add(z);
		expect_spec(c, p, w, "tensor product");
	}
	if (n == 3)
	{
		no_blocks(c, quantit::shape_from(ts[0], ts[1], ts[2]), w, dt, "shape_from of three tensors");
		no_blocks(c, quantit::shape_from(quantit::shape_from(ts[0], ts[1]), ts[2]), w, dt, "nested shape_from");
		no_blocks(c, quantit::shape_from(ts[0], quantit::shape_from(ts[1], ts[2])), w, dt, "nested shape_from");
	}
	if (n == 4)
		no_blocks(c, quantit::shape_from(ts[0], ts[1], ts[2], ts[3]), w, dt, "shape_from of four tensors");
	for (int i = 0; i < n; ++i)
	{
		auto df = sn[i].diff(ts[i]);
		c.check(df == "", "operand modified", [&] { return df; });
	}
	c.op("promotion");
	if (n == 2)
	{
		auto d2 = pick_dtype(r);
		auto y = make(r, sp[1], d2);
		no_blocks(c, ts[0].tensor_product_shape(y), w, torch::promote_types(dt, d2), "tensor_product_shape of two scalar types");
	}
}
// allocate on the shape promised for an expression, and use the result with the expression
void expressions(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec a, b;
	IL da, db;
	zoo::contraction_specs(r, g, a, b, da, db, 3);
	auto x = make(r, a, torch::kDouble, rnd(r)), y = make(r, b, torch::kDouble, rnd(r));
	c.describe(cat(a.str(), vstr(da), b.str(), vstr(db)));
	c.seen(cat("expr", a.str(), b.str(), vstr(da), vstr(db)));
	c.op("tensordot");
	{
		auto p = x.tensordot(y, da, db);
		// shape: free dimensions in order, charges contracted away
		Spec w;
		w.g = &g;
		std::set<int64_t> sa(da.begin(), da.end()), sb(db.begin(), db.end());
		for (int64_t i = 0; i < a.rank(); ++i)
			if (!sa.count(i))
				w.lay.push_back(a.lay[i]);
		for (int64_t i = 0; i < b.rank(); ++i)
			if (!sb.count(i))
				w.lay.push_back(b.lay[i]);
		w.sel = g.mul(a.sel, b.sel);
		// the same shape through the shape algebra: fix the contracted dimensions of both to matching elements
		IL fa(a.rank(), -1), fb(b.rank(), -1);
		for (size_t k = 0; k < da.size(); ++k)
		{
			int64_t e = r.in(0, dim_size(a.lay[da[k]]) - 1);
			fa[da[k]] = e;
			fb[db[k]] = e; // the contracted dimensions have the same sections, with opposite charges
		}
		auto sh = quantit::shape_from(x.shape_from(fa), y.shape_from(fb));
		no_blocks(c, sh, w, torch::kDouble, "shape of a contraction");
		auto z = rand_like(sh);
		c.check(btensor::test_same_shape(p, z), "the contraction doesn't have the shape announced for it");
		auto sum = p + z;
		validate(c, sum, "sum on the shape of a contraction");
	}
	c.op("outer square");
	{ // as in the documentation: X = rand_like(shape_from(A, A.permute))
		IL p(a.rank());
		std::iota(p.begin(), p.end(), 0);
		r.shuffle(p);
		auto q = x.permute(p);
		auto X = rand_like(quantit::shape_from(x, q));
		auto T = tensordot(x, q, torch::IntArrayRef{}, torch::IntArrayRef{});
		c.check(btensor::test_same_shape(X, T), "outer product");
		auto s = X + T;
		validate(c, s, "outer product");
	}
	c.op("reshape_as");
	if (a.rank() >= 2)
	{
		int64_t k = r.in(1, a.rank() - 1);
		auto m = x.reshape(torch::IntArrayRef(IL{k}));
		IL l(a.rank(), 0), rr(a.rank(), 0);
		// dimensions of each group, the others fixed
		for (int64_t i = 0; i < a.rank(); ++i)
			(i < k ? l : rr)[i] = -1;
		auto left = x.shape_from(l), right = x.shape_from(rr);
		auto whole = quantit::shape_from(left, right);
		whole.set_selection_rule_(sel_of(x));
		no_blocks(c, whole, a, torch::kDouble, "shape rebuilt from its two halves");
		auto back = m.reshape_as(whole);
		auto df = Snap(x).diff(back);
		c.check(df == "", "reshape on a composed shape does not restore the tensor", [&] { return df; });
	}
}
void torch_shapes(Case &c)
{
	Rng &r = c.rng;
	auto rsz = [&](int maxr) {
		IL s;
		int n = r.in(0, maxr);
		for (int i = 0; i < n; ++i)
			s.push_back(r.in(1, 4));
		return s;
	};
	auto dt = r.chance(0.5) ? torch::kDouble : r.chance(0.5) ? torch::kFloat : torch::kLong;
	auto s1 = rsz(4), s2 = rsz(3), s3 = rsz(2);
	auto opt = TensorOptions().dtype(dt);
	auto A = torch::zeros(s1, opt), B = torch::zeros(s2, opt), C = torch::zeros(s3, opt);
	c.describe(cat(vstr(s1), vstr(s2), vstr(s3)));
	c.seen(cat("torch", vstr(s1), vstr(s2), vstr(s3), int(dt)));
	auto is = [&](const torch_shape &s, const IL &w, const char *what) {
		c.check(IL(s.sizes().begin(), s.sizes().end()) == w && s.dim() == int64_t(w.size()), what, [&] { return vstr(s._sizes); });
		torch::Tensor t = s;
		c.check(t.sizes() == torch::IntArrayRef(w) && t.scalar_type() == dt, what, [] { return std::string("allocation"); });
	};
	auto join = [](std::initializer_list<IL> l) {
		IL o;
		for (auto &x : l)
			o.insert(o.end(), x.begin(), x.end());
		return o;
	};
	c.op("shape_from");
	is(torch_shape(A), s1, "torch_shape");
	is(torch_shape(s1, opt), s1, "torch_shape");
	is(quantit::shape_from(A), s1, "shape_from of one");
	is(quantit::shape_from(A, B), join({s1, s2}), "shape_from of two");
	is(quantit::shape_from(A, B, C), join({s1, s2, s3}), "shape_from of three");
	is(quantit::shape_from(torch_shape(A), torch_shape(C)), join({s1, s3}), "shape_from of two shapes");
	IL sl, w;
	for (auto k : s1)
	{
		sl.push_back(r.chance(0.5) ? -1 : r.in(0, k - 1));
		if (sl.back() == -1)
			w.push_back(k);
	}
	is(quantit::shape_from(torch_shape(A), sl), w, "shape_from with fixed dimensions");
	is(quantit::shape_from(A, sl), w, "shape_from with fixed dimensions");
	is(quantit::shape_from(quantit::shape_from(A, sl), B), join({w, s2}), "composition");
	c.op("factories");
	torch_shape S(A);
	auto like = [&](const Tensor &t, const char *what) {
		c.check(t.sizes() == torch::IntArrayRef(s1) && t.scalar_type() == dt, what);
	};
	auto z = quantit::zeros_like(S), o = quantit::ones_like(S), f = quantit::full_like(S, 3);
	like(z, "zeros_like");
	like(o, "ones_like");
	like(f, "full_like");
	c.check(torch::equal(z, torch::zeros(s1, opt)) && torch::equal(o, torch::ones(s1, opt)) && torch::equal(f, torch::full(s1, 3, opt)), "values of the factories");
	like(quantit::empty_like(S), "empty_like");
	auto ri = quantit::randint_like(2, 7, S);
	like(ri, "randint_like");
	c.check(((ri >= 2) & (ri < 7)).all().item<bool>(), "randint_like range");
	auto ri2 = quantit::randint_like(5, S);
	like(ri2, "randint_like");
	c.check(((ri2 >= 0) & (ri2 < 5)).all().item<bool>(), "randint_like range");
	if (dt != torch::kLong)
	{
		auto u = quantit::rand_like(S);
		like(u, "rand_like");
		c.check(((u >= 0) & (u < 1)).all().item<bool>(), "rand_like range");
		like(quantit::randn_like(S), "randn_like");
	}
	c.check(quantit::zeros_like(S, TensorOptions().dtype(torch::kFloat)).scalar_type() == torch::kFloat, "options of a factory");
	if (s1.size() == 2)
		c.check(torch::equal(quantit::eye_like(S), torch::eye(s1[0], s1[1], opt)), "eye_like");
	else
		c.must_throw([&] { (void)quantit::eye_like(S); }, "eye_like of another rank");
}
} // namespace
PROPERTY(B10)
{
	ctx.family("extraction", ctx.n(12000, 120000), extraction);
	ctx.family("composition", ctx.n(12000, 120000), composition);
	ctx.family("expression", ctx.n(10000, 100000), expressions);
	ctx.family("torch_shape", ctx.n(4000, 40000), torch_shapes);
}
