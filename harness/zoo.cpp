#include "zoo.h"
#include <numeric>
using namespace quantit;
using torch::Scalar;
namespace zoo
{
using V = std::vector<btensor>;
void broadcast_specs(Rng &r, const Grp &g, Spec &a, Spec &b, bool second_smaller)
{
	a = random_spec(r, g, r.in(0, 3));
	b.g = &g;
	int nb = r.in(0, a.rank());
	b.lay.assign(a.lay.end() - nb, a.lay.end());
	for (int i = 0; i < nb; ++i)
	{
		auto &db = b.lay[i];
		auto &da = a.lay[a.rank() - nb + i];
		if (r.chance(0.3))
			db = {{1, g.random(r)}};
		else
		{ // same sections, any charges
			for (auto &s : db)
				if (r.chance(0.5))
					s.q = g.random(r);
			if (r.chance(0.25))
				da = {{1, g.random(r)}};
		}
	}
	a.sel = random_sel(r, g, a.lay);
	b.sel = random_sel(r, g, b.lay);
	if (!second_smaller && r.chance(0.5))
		std::swap(a, b);
}
void contraction_specs(Rng &r, const Grp &g, Spec &a, Spec &b, IL &da, IL &db, int max_rank, bool large)
{
	int k = r.in(0, 2);
	int fa = r.in(0, max_rank - k), fb = r.in(0, max_rank - k);
	if (fa + fb > 4)
		fb = std::max(0, 4 - fa);
	a = Spec{&g, {}, {}};
	b = Spec{&g, {}, {}};
	std::vector<int> pa(fa + k), pb(fb + k);
	std::iota(pa.begin(), pa.end(), 0);
	std::iota(pb.begin(), pb.end(), 0);
	r.shuffle(pa);
	r.shuffle(pb);
	a.lay.resize(fa + k);
	b.lay.resize(fb + k);
	da.clear();
	db.clear();
	int ms = max_rank > 3 ? 3 : 4;
	for (int i = 0; i < k; ++i)
	{
		auto d = random_dim(r, g, ms);
		if (large && fa + fb + k < 5 && r.chance(0.02))
			enlarge(r, g, d);
		a.lay[pa[i]] = d;
		b.lay[pb[i]] = inv(g, d);
		da.push_back(pa[i]);
		db.push_back(pb[i]);
	}
	for (int i = k; i < fa + k; ++i)
		a.lay[pa[i]] = random_dim(r, g, ms);
	if (large && fa && fa + fb + k < 5 && r.chance(0.02))
		enlarge(r, g, a.lay[pa[k]]);
	for (int i = k; i < fb + k; ++i)
		b.lay[pb[i]] = random_dim(r, g, ms);
	a.sel = random_sel(r, g, a.lay);
	b.sel = random_sel(r, g, b.lay);
}
void bmm_specs(Rng &r, const Grp &g, Spec &a, Spec &b)
{
	int nb = r.in(0, 2);
	a = Spec{&g, {}, {}};
	for (int i = 0; i < nb + 2; ++i)
		a.lay.push_back(random_dim(r, g, 3));
	b = a;
	for (int i = 0; i < nb; ++i)
		for (auto &s : b.lay[i])
			if (r.chance(0.5))
				s.q = g.random(r);
	b.lay[nb] = inv(g, a.lay[nb + 1]);
	b.lay[nb + 1] = random_dim(r, g, 3);
	a.sel = random_sel(r, g, a.lay);
	b.sel = random_sel(r, g, b.lay);
}
Spec spec_of(const btensor &t, const Grp &g)
{ // only for charges with small components: inverted by search
	(void)t;
	(void)g;
	return {};
}
static IL random_perm(Rng &r, int64_t n)
{
	IL p(n);
	std::iota(p.begin(), p.end(), 0);
	r.shuffle(p);
	if (r.chance(0.3))
		for (auto &x : p)
			if (r.chance(0.5))
				x -= n;
	return p;
}
static IL random_groups(Rng &r, int64_t rank)
{
	IL g;
	for (int64_t i = 1; i < rank; ++i)
		if (r.chance(0.5))
			g.push_back(i);
	return g;
}
// -1, or an element position
static IL random_slots(Rng &r, const btensor &t, double keep = 0.6)
{
	IL s;
	auto sz = t.sizes();
	for (int64_t i = 0; i < t.dim(); ++i)
		s.push_back(r.chance(keep) ? -1 : r.in(0, sz[i] - 1));
	return s;
}
template <class F>
static std::function<V(const V &)> one(F f)
{
	return [f](const V &v) { return V{f(v)}; };
}
static Scalar nice_scalar(Rng &r)
{
	switch (r.next() % 3)
	{
	case 0: return Scalar(int64_t(r.in(1, 3)));
	case 1: return Scalar(r.sym() + 2.5);
	default: return Scalar(-1.5);
	}
}
Op unary_on(Rng &r, const btensor &t)
{
	Op o;
	o.in = {t};
	bool cplx = dtype_of(t) == torch::kComplexDouble;
	bool isbool = dtype_of(t) == torch::kBool;
	int64_t n = t.dim();
	auto set = [&](const char *name, bool fresh, std::function<V(const V &)> f) {
		o.name = name;
		o.fresh = fresh;
		o.f = std::move(f);
	};
	for (;;)
		switch (r.next() % 34)
		{
		case 0:
			if (isbool)
				break;
			{
				auto s = nice_scalar(r);
				set("mul scalar", true, one([s](const V &v) { return v[0].mul(s); }));
			}
			return o;
		case 1:
			if (isbool)
				break;
			{
				auto s = nice_scalar(r);
				set("operator* scalar", true, one([s](const V &v) { return s * v[0]; }));
			}
			return o;
		case 2:
			if (isbool)
				break;
			{
				auto s = nice_scalar(r);
				set("div scalar", true, one([s](const V &v) { return v[0] / s; }));
			}
			return o;
		case 3:
			if (isbool)
				break;
			{
				double s = r.sym() + 2;
				set("add scalar", true, one([s](const V &v) { return v[0].add(s, 0.5); }));
			}
			return o;
		case 4:
			if (isbool)
				break;
			{
				double s = r.sym() + 2;
				set("sub scalar", true, one([s](const V &v) { return v[0].sub(s); }));
			}
			return o;
		case 5:
			if (isbool)
				break;
			set("negate", true, one([](const V &v) { return -v[0]; }));
			return o;
		case 6:
			if (isbool)
				break;
			{
				int64_t e = r.in(1, 3);
				set("pow scalar", true, one([e](const V &v) { return v[0].pow(e); }));
			}
			return o;
		case 7:
			if (isbool)
				break;
			set("abs", true, one([](const V &v) { return v[0].abs(); }));
			return o;
		case 8:
			if (isbool || cplx)
				break;
			set("sqrt", true, one([](const V &v) { return v[0].mul(v[0]).sqrt(); }));
			return o;
		case 9:
			if (isbool)
				break;
			set("sum", true, one([](const V &v) { return v[0].sum(); }));
			return o;
		case 10:
		case 11:
		{
			auto p = random_perm(r, n);
			o.info = vstr(p);
			set("permute", false, one([p](const V &v) { return v[0].permute(p); }));
			return o;
		}
		case 12:
			if (n < 1)
				break;
			{
				int64_t a = r.in(-n, n - 1), b = r.in(-n, n - 1);
				set("transpose", false, one([a, b](const V &v) { return v[0].transpose(a, b); }));
			}
			return o;
		case 13:
			if (n < 2)
				break;
			set("t", false, one([](const V &v) { return v[0].t(); }));
			return o;
		case 14:
		case 15:
		{
			if (n < 1)
				break;
			auto g = random_groups(r, n);
			o.info = vstr(g);
			set("reshape", false, one([g](const V &v) {
				    const btensor &x = v[0];
				    return x.reshape(torch::IntArrayRef(g));
			    }));
			return o;
		}
		case 16:
		{
			if (n < 1)
				break;
			auto g = random_groups(r, n);
			o.info = vstr(g);
			set("reshape_as", false, one([g](const V &v) {
				    const btensor &x = v[0];
				    return x.reshape(torch::IntArrayRef(g)).reshape_as(x);
			    }));
			return o;
		}
		case 17: set("squeeze", false, one([](const V &v) { return v[0].squeeze(); })); return o;
		case 18:
			if (n < 1)
				break;
			{
				int64_t d = r.in(0, n - 1);
				set("squeeze dim", false, one([d](const V &v) { return v[0].squeeze(d); }));
			}
			return o;
		case 19:
			if (isbool)
				break;
			set("conj", false, one([](const V &v) { return v[0].conj(); }));
			return o;
		case 20:
			if (isbool)
				break;
			set("conj_only", false, one([](const V &v) { return v[0].conj_only(); }));
			return o;
		case 21: set("inverse_cvals", false, one([](const V &v) { return v[0].inverse_cvals(); })); return o;
		case 22:
			if (n < 1)
				break;
			{
				int64_t d = r.in(0, n - 1);
				auto [b, e] = t.section_cqtts(r.in(0, n - 1));
				if (b == e)
					break;
				any_quantity q(*b);
				set("cval_shift", false, one([d, q](const V &v) { return v[0].cval_shift(q, d); }));
			}
			return o;
		case 23:
		{
			auto s = random_slots(r, t);
			o.info = vstr(s);
			set("shape_from slots", true, one([s](const V &v) { return v[0].shape_from(s); }));
			return o;
		}
		case 24:
		{
			auto s = random_slots(r, t);
			bool keep = r.chance(0.4);
			o.info = vstr(s) + (keep ? " keep" : "");
			set(keep ? "basic_create_view keeping rank" : "basic_create_view", false, one([s, keep](const V &v) {
				    btensor c = v[0];
				    return c.basic_create_view(s, keep);
			    }));
			return o;
		}
		case 25: set("shape_from whole", true, one([](const V &v) { return shape_from(v[0]); })); return o;
		case 26: set("neutral_shape", true, one([](const V &v) { return sparse_zeros_like(v[0]).neutral_shape(); })); return o;
		case 27:
			set("like factories", true, [](const V &v) {
				return V{zeros_like(v[0]), ones_like(v[0]), full_like(v[0], 3), empty_like(v[0]).mul_(0), sparse_zeros_like(v[0])};
			});
			return o;
		case 28:
			if (isbool)
				break;
			set("rand like factories", true, [cplx](const V &v) {
				V o{randn_like(v[0]), rand_like(v[0])};
				if (!cplx)
					o.push_back(randint_like(0, 5, v[0]));
				return o;
			});
			return o;
		case 29: set("isnan", true, one([](const V &v) { return v[0].isnan(); })); return o;
		case 30:
			if (cplx)
				break;
			set("comparison scalar", true, [](const V &v) {
				return V{v[0].ge(0.3), v[0].le(0.3), v[0].less(0.3), v[0].greater(0.3), v[0].eq(0.3), v[0].not_equal(0.3)};
			});
			return o;
		case 31:
		{
			auto dt = cplx ? torch::kComplexDouble : r.chance(0.5) ? torch::kDouble : torch::kFloat;
			int how = r.in(0, 2);
			set("to", false, one([dt, how](const V &v) {
				    return how == 0 ? v[0].to(dt) : how == 1 ? v[0].to(torch::TensorOptions().dtype(dt)) : v[0].to(torch::kCPU, dt);
			    }));
			return o;
		}
		case 32:
			set("from_basic_tensor_like", true, one([](const V &v) { return from_basic_tensor_like(v[0], dense_of(v[0]), 1e-16, v[0].options()); }));
			return o;
		case 33:
			if (isbool || n > 3)
				break;
			set("contraction with conjugate", true, [n](const V &v) {
				IL all(n), some;
				std::iota(all.begin(), all.end(), 0);
				for (int64_t i = 0; i < n; i += 2)
					some.push_back(i);
				return V{tensordot(v[0], v[0].conj(), all, all), tensordot(v[0].conj(), v[0], some, some)};
			});
			return o;
		}
}
Op random_op(Rng &r)
{
	auto &g = pick_group(r);
	auto dt = pick_dtype(r);
	MakeOpt mo;
	mo.density = r.chance(0.3) ? r.unit() : 0.8;
	if (r.chance(0.55))
	{
		auto s = random_spec(r, g, r.in(0, 4), 3);
		auto t = make(r, s, dt, mo);
		auto o = unary_on(r, t);
		o.info += " " + s.str();
		return o;
	}
	Op o;
	Spec a, b;
	IL da, db;
	int which = r.next() % 9;
	// the second operand of an elementwise operation may have a type of its own
	auto dt2 = which <= 3 && r.chance(0.3) ? pick_dtype(r) : dt;
	bool cplx = dt == torch::kComplexDouble || dt2 == torch::kComplexDouble;
	if (which <= 1)
	{
		a = random_spec(r, g, r.in(0, 4), 3);
		o.in = {make(r, a, dt, mo), make(r, a, dt2, mo)};
		if (r.chance(0.1))
			o.in[1] = o.in[0];
		o.fresh = true;
		double alpha = r.sym() * 2;
		switch (r.next() % 5)
		{
		case 0: o.name = "add"; o.f = one([alpha](const V &v) { return v[0].add(v[1], alpha); }); break;
		case 1: o.name = "operator+"; o.f = one([](const V &v) { return v[0] + v[1]; }); break;
		case 2: o.name = "operator-"; o.f = one([](const V &v) { return v[0] - v[1]; }); break;
		case 3: o.name = "subtract"; o.f = one([alpha](const V &v) { return v[0].subtract(v[1], alpha); }); break;
		case 4:
			o.name = "add temporary";
			o.f = one([alpha](const V &v) { return v[0].add(v[1].mul(2), alpha); });
			break;
		}
	}
	else if (which <= 3)
	{
		broadcast_specs(r, g, a, b, false);
		o.in = {make(r, a, dt, mo), make(r, b, dt2, mo)};
		o.fresh = true;
		switch (r.next() % (cplx ? 3 : 9))
		{
		case 0: o.name = "mul"; o.f = one([](const V &v) { return v[0].mul(v[1]); }); break;
		case 1: o.name = "operator*"; o.f = one([](const V &v) { return v[0] * v[1]; }); break;
		case 2: o.name = "operator/"; o.f = one([](const V &v) { return v[0] / v[1]; }); break;
		case 3: o.name = "pow tensor"; o.f = one([](const V &v) { return v[0].abs().pow(v[1].abs()); }); break;
		case 4: o.name = "ge"; o.f = one([](const V &v) { return v[0] >= v[1]; }); break;
		case 5: o.name = "less"; o.f = one([](const V &v) { return v[0] < v[1]; }); break;
		case 6: o.name = "eq"; o.f = one([](const V &v) { return eq(v[0], v[1]); }); break;
		case 7: o.name = "greater operator"; o.f = one([](const V &v) { return v[0] > v[1]; }); break;
		case 8: o.name = "le greater not_equal"; o.f = [](const V &v) { return V{le(v[0], v[1]), greater(v[0], v[1]), not_equal(v[0], v[1])}; }; break;
		}
	}
	else if (which <= 6)
	{
		contraction_specs(r, g, a, b, da, db);
		o.name = "tensordot";
		o.fresh = true;
		o.in = {make(r, a, dt, mo), make(r, b, dt, mo)};
		o.f = one([da, db](const V &v) { return tensordot(v[0], v[1], da, db); });
	}
	else if (which == 7)
	{
		bmm_specs(r, g, a, b);
		o.name = "bmm";
		o.fresh = true;
		o.in = {make(r, a, dt, mo), make(r, b, dt, mo)};
		o.f = one([](const V &v) { return v[0].bmm(v[1]); });
	}
	else
	{
		a = random_spec(r, g, r.in(0, 2), 3);
		b = random_spec(r, g, r.in(0, 2), 3);
		o.name = "shape_from product";
		o.fresh = true;
		o.in = {make(r, a, dt, mo), make(r, b, dt, mo)};
		o.f = one([](const V &v) { return shape_from(v[0], v[1]); });
		if (r.chance(0.5))
		{
			o.name = "tensor_product_shape";
			o.f = one([](const V &v) { return v[0].tensor_product_shape(v[1]); });
		}
	}
	o.info = a.str() + (b.g ? " ; " + b.str() : "") + " " + vstr(da) + vstr(db);
	return o;
}
InOp random_inop(Rng &r)
{
	auto &g = pick_group(r);
	auto dt = pick_dtype(r);
	bool cplx = dt == torch::kComplexDouble;
	// an operand of another type that the target's type can hold
	auto dt2 = dt != torch::kFloat && r.chance(0.25) ? (r.chance(0.5) ? torch::kFloat : torch::kDouble) : dt;
	MakeOpt mo;
	mo.density = r.chance(0.3) ? r.unit() : 0.8;
	InOp o;
	Spec a, b;
	auto mk = [&](int lo, int hi) {
		a = random_spec(r, g, r.in(lo, hi), 3);
		o.target = make(r, a, dt, mo);
		o.info = a.str();
	};
	for (;;)
		switch (r.next() % 19)
		{
		case 0:
		case 1:
		{
			mk(0, 4);
			o.in = {make(r, a, dt2, mo)};
			double al = r.sym() * 2;
			switch (r.next() % 5)
			{
			case 0:
				o.name = "add_";
				o.f = [al](btensor &t, const V &v) { t.add_(v[0], al); };
				o.ref = [al](const btensor &t, const V &v) { return t.add(v[0], al); };
				break;
			case 1:
				o.name = "sub_";
				o.f = [al](btensor &t, const V &v) { t.sub_(v[0], al); };
				o.ref = [al](const btensor &t, const V &v) { return t.sub(v[0], al); };
				break;
			case 2:
				o.name = "operator+=";
				o.f = [](btensor &t, const V &v) { t += v[0]; };
				o.ref = [](const btensor &t, const V &v) { return t + v[0]; };
				break;
			case 3:
				o.name = "operator-=";
				o.f = [](btensor &t, const V &v) { t -= v[0]; };
				o.ref = [](const btensor &t, const V &v) { return t - v[0]; };
				break;
			case 4:
				o.name = "add_ temporary";
				o.f = [al](btensor &t, const V &v) { t.add_(v[0].mul(3), al); };
				o.ref = [al](const btensor &t, const V &v) { return t.add(v[0].mul(3), al); };
				break;
			}
			return o;
		}
		case 2:
		{
			mk(0, 3);
			auto s = nice_scalar(r);
			bool d = r.chance(0.5);
			o.name = d ? "div_ scalar" : "mul_ scalar";
			o.f = [s, d](btensor &t, const V &) { d ? t.div_(s) : t.mul_(s); };
			o.ref = [s, d](const btensor &t, const V &) { return d ? t.div(s) : t.mul(s); };
			return o;
		}
		case 3:
		{
			mk(0, 3);
			auto s = r.sym();
			bool d = r.chance(0.5);
			o.name = d ? "add_ scalar" : "operator-= scalar";
			o.f = [s, d](btensor &t, const V &) { d ? t.add_(s, 2) : t -= s; };
			o.ref = [s, d](const btensor &t, const V &) { return d ? t.add(s, 2) : t.sub(s); };
			return o;
		}
		case 4:
		case 5:
		case 6:
		{
			broadcast_specs(r, g, a, b, true);
			o.target = make(r, a, dt, mo);
			o.in = {make(r, b, dt2, mo)};
			o.info = a.str() + " ; " + b.str();
			switch (r.next() % (cplx ? 3 : 4))
			{
			case 0:
				o.name = "mul_";
				o.f = [](btensor &t, const V &v) { t.mul_(v[0]); };
				o.ref = [](const btensor &t, const V &v) { return t.mul(v[0]); };
				break;
			case 1:
				o.name = "operator*=";
				o.f = [](btensor &t, const V &v) { t *= v[0]; };
				o.ref = [](const btensor &t, const V &v) { return t.mul(v[0]); };
				break;
			case 2:
				o.name = "div_";
				o.f = [](btensor &t, const V &v) { t /= v[0]; };
				o.ref = [](const btensor &t, const V &v) { return t.div(v[0]); };
				break;
			case 3:
				o.name = "pow_ tensor";
				o.target.abs_();
				o.f = [](btensor &t, const V &v) { t.pow_(v[0]); };
				o.ref = [](const btensor &t, const V &v) { return t.pow(v[0]); };
				break;
			}
			return o;
		}
		case 7:
		{
			mk(0, 3);
			int64_t e = r.in(1, 3);
			o.name = "pow_ scalar";
			o.f = [e](btensor &t, const V &) { t.pow_(e); };
			o.ref = [e](const btensor &t, const V &) { return t.pow(e); };
			return o;
		}
		case 8:
			if (cplx)
				break;
			mk(0, 3);
			o.name = "abs_";
			o.f = [](btensor &t, const V &) { t.abs_(); };
			o.ref = [](const btensor &t, const V &) { return t.abs(); };
			return o;
		case 9:
			if (cplx)
				break;
			mk(0, 3);
			o.target.abs_();
			o.name = "sqrt_";
			o.f = [](btensor &t, const V &) { t.sqrt_(); };
			o.ref = [](const btensor &t, const V &) { return t.sqrt(); };
			return o;
		case 10:
		{
			mk(0, 4);
			auto p = random_perm(r, a.rank());
			o.name = "permute_";
			o.f = [p](btensor &t, const V &) { t.permute_(p); };
			o.ref = [p](const btensor &t, const V &) { return t.permute(p); };
			return o;
		}
		case 11:
		{
			mk(1, 4);
			int64_t x = r.in(-a.rank(), a.rank() - 1), y = r.in(0, a.rank() - 1);
			o.name = "transpose_";
			o.f = [x, y](btensor &t, const V &) { t.transpose_(x, y); };
			o.ref = [x, y](const btensor &t, const V &) { return t.transpose(x, y); };
			return o;
		}
		case 12:
			mk(2, 4);
			o.name = "t_";
			o.f = [](btensor &t, const V &) { t.t_(); };
			o.ref = [](const btensor &t, const V &) { return t.t(); };
			return o;
		case 13:
			mk(0, 4);
			o.name = "squeeze_";
			o.f = [](btensor &t, const V &) { t.squeeze_(); };
			o.ref = [](const btensor &t, const V &) { return t.squeeze(); };
			return o;
		case 14:
		{
			mk(1, 4);
			int64_t d = r.in(0, a.rank() - 1);
			o.name = "squeeze_ dim";
			o.f = [d](btensor &t, const V &) { t.squeeze_(d); };
			o.ref = [d](const btensor &t, const V &) { return t.squeeze(d); };
			return o;
		}
		case 15:
			mk(0, 4);
			o.name = "inverse_cvals_";
			o.f = [](btensor &t, const V &) { t.inverse_cvals_(); };
			o.ref = [](const btensor &t, const V &) { return t.inverse_cvals(); };
			return o;
		case 16:
		{
			mk(1, 4);
			int64_t d = r.in(0, a.rank() - 1);
			auto q = g.make(g.random(r, 3));
			o.name = "cval_shift_";
			o.f = [d, q](btensor &t, const V &) { t.cval_shift_(q, d); };
			o.ref = [d, q](const btensor &t, const V &) { return t.cval_shift(q, d); };
			return o;
		}
		case 17:
		case 18:
		{
			mk(1, 4);
			auto s = random_slots(r, o.target);
			auto shape = o.target.shape_from(s);
			auto v = randn_like(shape);
			bool dense = r.chance(0.3);
			o.name = dense ? "basic_index_put_ dense" : "basic_index_put_";
			o.in = {v};
			o.info += " slots " + vstr(s);
			o.f = [s, dense](btensor &t, const V &v) {
				if (dense)
					t.basic_index_put_(s, dense_of(v[0]));
				else
					t.basic_index_put_(s, v[0]);
			};
			o.ref = nullptr;
			return o;
		}
		}
}
} // namespace zoo
