// B02: element-wise arithmetic against dense arithmetic.  B03: contraction against dense contraction.
#include "zoo.h"
#include <cmath>
#include <numeric>
using namespace bt;
using namespace quantit;
using torch::Scalar;
namespace
{
torch::ScalarType any_dtype(Rng &r)
{
	static const torch::ScalarType d[] = {torch::kDouble, torch::kDouble, torch::kDouble, torch::kComplexDouble, torch::kComplexDouble, torch::kFloat, torch::kLong};
	return d[r.next() % 7];
}
btensor make_any(Rng &r, const Spec &s, torch::ScalarType dt, MakeOpt mo)
{
	if (dt != torch::kLong)
		return make(r, s, dt, mo);
	auto t = make(r, s, torch::kDouble, mo);
	btensor o(s.vecs(), s.selq(), torch::TensorOptions().dtype(dt));
	for (auto &b : t)
	{
		auto &x = std::get<1>(b);
		auto y = torch::empty(x.sizes(), torch::kLong);
		for (int64_t i = 0; i < y.numel(); ++i)
			y.data_ptr<int64_t>()[i] = r.in(-6, 6);
		o.block(std::get<0>(b)) = y;
	}
	return o;
}
MakeOpt rnd(Rng &r)
{
	MakeOpt mo;
	mo.density = r.chance(0.4) ? r.unit() : 0.8;
	return mo;
}
// a copy that owns its memory
btensor own(const btensor &a)
{
	btensor t = a;
	for (auto &b : t)
		std::get<1>(b) = std::get<1>(b).clone();
	return t;
}
// the same tensor, seen through a structure operation that leaves its blocks as views
btensor through_view(Rng &r, const btensor &a)
{
	switch (r.next() % 4)
	{
	case 0: return a;
	case 1:
		if (a.dim() >= 2)
			return a.t().t();
		return a.conj().conj();
	case 2: return a.conj().conj();
	default:
		if (a.dim() >= 1)
		{
			IL p(a.dim()), ip(a.dim());
			std::iota(p.begin(), p.end(), 0);
			r.shuffle(p);
			for (size_t i = 0; i < p.size(); ++i)
				ip[p[i]] = i;
			return a.permute(p).permute(ip);
		}
		return a;
	}
}
Tensor presence(const btensor &t)
{
	btensor p(t);
	for (auto &b : p)
		std::get<1>(b) = torch::ones(std::get<1>(b).sizes(), t.options());
	return dense_of(p).to(torch::kDouble).gt(0.5);
}
Scalar any_scalar(Rng &r, bool cplx)
{
	switch (r.next() % (cplx ? 5 : 4))
	{
	case 0: return Scalar(int64_t(r.in(1, 4)) * (r.chance(0.5) ? 1 : -1));
	case 1: return Scalar(r.sym() * 3 + 0.001);
	case 2: return Scalar(int64_t(2));
	case 3: return Scalar(-0.5);
	default: return Scalar(c10::complex<double>(r.sym(), r.sym() + 0.3));
	}
}
bool single = false; // single precision operands are involved in the case
void expect_same(Case &c, const btensor &got, const Spec &s, const Tensor &want, const char *what, bool type = true)
{
	validate(c, got, what);
	expect_spec(c, got, s, what);
	expect_dense(c, dense_of(got), want, what, single ? 5e-5 : 1e-12);
	if (type)
		c.check(dtype_of(got) == want.scalar_type(), "scalar type differs from the dense one",
		        [&] { return cat(what, ": ", torch::toString(dtype_of(got)), " for ", torch::toString(want.scalar_type())); });
}
void additive(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto ta = any_dtype(r), tb = r.chance(0.7) ? ta : any_dtype(r);
	auto a = through_view(r, make_any(r, s, ta, rnd(r)));
	auto b = r.chance(0.1) ? a : through_view(r, make_any(r, s, tb, rnd(r)));
	tb = dtype_of(b);
	single = ta == torch::kFloat || tb == torch::kFloat;
	auto da = dense_of(a), db = dense_of(b);
	bool ints = ta == torch::kLong || tb == torch::kLong;
	auto pt = torch::promote_types(ta, tb);
	Scalar al = ints ? Scalar(int64_t(r.in(-3, 3))) : pt == torch::kComplexDouble && tb == pt ? any_scalar(r, true) : any_scalar(r, false);
	auto scaled = db.mul(al);
	c.describe(cat(s.str(), " ", torch::toString(ta), " ", torch::toString(tb)));
	c.seen(cat(s.str(), vstr(keys(a)), vstr(keys(b)), ta, tb));
	c.op("add");
	auto want = torch::add(da, db, al).to(pt);
	expect_same(c, a.add(b, al), s, want, "add");
	expect_same(c, a.add(b), s, (da + db), "add alpha 1");
	expect_same(c, a + b, s, (da + db), "operator+");
	expect_same(c, a.add(own(b), al), s, want, "add of a temporary");
	{
		btensor share = b; // an expiring object whose blocks are also owned by b
		expect_same(c, a.add(std::move(share), al), s, want, "add of an expiring copy");
		expect_dense(c, dense_of(b), db, "add of an expiring copy modified the original", 0);
	}
	c.op("sub");
	if (pt != torch::kBool)
	{
		expect_same(c, a - b, s, (da - db), "operator-");
		auto ws = torch::sub(da, db, al).to(pt);
		expect_same(c, a.sub(b, al), s, ws, "sub");
		expect_same(c, a.subtract(b, al), s, ws, "subtract");
		expect_same(c, a.sub(own(b), al), s, ws, "sub of a temporary");
	}
	if (torch::can_cast(tb, ta) && ta == pt)
	{
		c.op("in place");
		struct F
		{
			const char *n;
			std::function<void(btensor &)> f;
			double sign;
			bool alpha;
		};
		std::vector<F> fs = {{"add_", [&](btensor &t) { t.add_(b, al); }, 1, true},
		                     {"add_ of a temporary", [&](btensor &t) { t.add_(own(b), al); }, 1, true},
		                     {"add_ of an expiring copy", [&](btensor &t) { btensor x = b; t.add_(std::move(x), al); }, 1, true},
		                     {"sub_", [&](btensor &t) { t.sub_(b, al); }, -1, true},
		                     {"subtract_", [&](btensor &t) { t.subtract_(b, al); }, -1, true},
		                     {"sub_ of a temporary", [&](btensor &t) { t.sub_(own(b), al); }, -1, true},
		                     {"operator+=", [&](btensor &t) { t += b; }, 1, false},
		                     {"operator-=", [&](btensor &t) { t -= b; }, -1, false},
		                     {"operator+= temporary", [&](btensor &t) { t += own(b); }, 1, false},
		                     {"operator-= temporary", [&](btensor &t) { t -= own(b); }, -1, false}};
		for (auto &f : fs)
		{
			auto t = own(a);
			f.f(t);
			auto x = f.alpha ? scaled : db;
			expect_same(c, t, s, f.sign > 0 ? (da + x).to(ta) : (da - x).to(ta), f.n);
			expect_dense(c, dense_of(b), db, "in place operation modified its argument", 0);
		}
		// the tensor with itself
		auto t = own(a);
		t.add_(t, al);
		expect_same(c, t, s, (da + da.mul(al)).to(ta), "add_ of itself");
	}
	c.op("algebra");
	expect_dense(c, dense_of(a + b), dense_of(b + a), "a+b != b+a", single ? 1e-4 : 1e-13);
	expect_dense(c, dense_of((a + b) - b), da.to(pt), "(a+b)-b != a", single ? 1e-4 : 1e-11);
	expect_dense(c, dense_of(a - a), torch::zeros_like(da), "a-a != 0", 0);
}
void scalars(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto dt = any_dtype(r);
	single = dt == torch::kFloat;
	auto a = through_view(r, make_any(r, s, dt, rnd(r)));
	auto da = dense_of(a);
	auto pa = presence(a);
	auto m = mask(s);
	auto v = any_scalar(r, dt == torch::kComplexDouble);
	if (dt == torch::kLong && r.chance(0.5))
		v = Scalar(int64_t(r.in(1, 4)));
	auto w = r.chance(0.5) ? Scalar(1) : any_scalar(r, dt == torch::kComplexDouble);
	c.describe(cat(s.str(), " ", torch::toString(dt)));
	c.seen(cat(s.str(), vstr(keys(a)), dt));
	bool ints = dt == torch::kLong, vi = v.isIntegral(false);
	c.op("mul scalar");
	expect_same(c, a.mul(v), s, da.mul(v), "mul");
	expect_same(c, a.multiply(v), s, da.mul(v), "multiply");
	expect_same(c, a * v, s, da.mul(v), "operator*");
	expect_same(c, v * a, s, da.mul(v), "scalar operator*");
	expect_same(c, -a, s, -da, "negation");
	{
		const btensor ca = a;
		expect_same(c, -ca, s, -da, "negation of a const tensor");
	}
	c.op("div scalar");
	expect_same(c, a.div(v), s, da.div(v), "div");
	expect_same(c, a / v, s, da.div(v), "operator/");
	bool fits = torch::can_cast(da.mul(v).scalar_type(), dt) && da.mul(v).scalar_type() == dt;
	if (fits)
	{
		for (int k = 0; k < 3; ++k)
		{
			auto t = own(a);
			k == 0 ? t.mul_(v) : k == 1 ? t *= v : t.multiply_(v);
			expect_same(c, t, s, da.mul(v), k == 0 ? "mul_" : k == 1 ? "operator*=" : "multiply_");
		}
		if (!ints)
			for (int k = 0; k < 2; ++k)
			{
				auto t = own(a);
				k == 0 ? t.div_(v) : t /= v;
				expect_same(c, t, s, da.div(v).to(dt), k == 0 ? "div_" : "operator/=");
			}
	}
	c.op("scalar over tensor");
	if (!ints) // torch refuses it for integers
	{
		auto q = v / a;
		validate(c, q, "scalar over tensor");
		c.check(keys(q) == keys(a), "scalar over tensor stores other blocks");
		auto want = v / da;
		want = torch::where(pa, want, torch::zeros_like(want));
		expect_dense(c, dense_of(q), want, "scalar over tensor", 1e-12);
	}
	// addition of a scalar fills exactly the allowed elements
	c.op("add scalar");
	if (!(ints && !(vi && w.isIntegral(false))) && (dt == torch::kComplexDouble || !(v.isComplex() || w.isComplex())))
	{
		auto mv = m.to(dt).mul(v).to(dt), mvw = mv.mul(w).to(dt);
		expect_same(c, a.add(v, w), s, da + mvw, "add scalar");
		expect_same(c, a.sub(v, w), s, da - mvw, "sub scalar");
		expect_same(c, a.subtract(v), s, da - mv, "subtract scalar");
		auto t = own(a);
		t.add_(v, w);
		expect_same(c, t, s, da + mvw, "add_ scalar");
		t = own(a);
		t.sub_(v, w);
		expect_same(c, t, s, da - mvw, "sub_ scalar");
		t = own(a);
		t += v;
		expect_same(c, t, s, da + mv, "operator+= scalar");
		t = own(a);
		t -= v;
		expect_same(c, t, s, da - mv, "operator-= scalar");
	}
	expect_dense(c, dense_of(a), da, "operand modified", 0);
}
void unary(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto dt = any_dtype(r);
	single = dt == torch::kFloat;
	auto a = through_view(r, make_any(r, s, dt, rnd(r)));
	bool real = dt == torch::kDouble || dt == torch::kFloat;
	auto da = dense_of(a);
	c.describe(cat(s.str(), " ", torch::toString(dt)));
	c.seen(cat(s.str(), vstr(keys(a)), dt));
	c.op("abs");
	expect_same(c, a.abs(), s, da.abs(), "abs");
	c.op("pow");
	for (int64_t e : {1, 2, 3})
	{
		expect_same(c, a.pow(e), s, da.pow(e), "integer pow");
		expect_same(c, quantit::pow(a, Scalar(e)), s, da.pow(e), "pow function");
		auto t = own(a);
		t.pow_(e);
		expect_same(c, t, s, da.pow(e), "pow_");
	}
	if (real)
	{
		auto p = a.abs();
		double e = 0.3 + r.unit() * 2;
		expect_same(c, p.pow(e), s, da.abs().pow(e), "real pow");
		c.op("sqrt");
		expect_same(c, p.sqrt(), s, da.abs().sqrt(), "sqrt");
		expect_same(c, quantit::sqrt(p), s, da.abs().sqrt(), "sqrt function");
		auto t = own(p);
		t.sqrt_();
		expect_same(c, t, s, da.abs().sqrt(), "sqrt_");
		t = own(a);
		t.abs_();
		expect_same(c, t, s, da.abs(), "abs_");
		t = own(p);
		t.pow_(e);
		expect_same(c, t, s, da.abs().pow(e), "real pow_");
	}
	else if (dt == torch::kComplexDouble)
	{
		c.op("sqrt");
		expect_same(c, a.sqrt(), s, da.sqrt(), "complex sqrt");
	}
	c.op("conj");
	{
		auto k = a.conj_only();
		expect_same(c, k, s, da.conj(), "conj_only");
		auto k2 = a.conj();
		Spec cs = s;
		for (auto &d : cs.lay)
			d = inv(g, d);
		cs.sel = g.inv(s.sel);
		expect_same(c, k2, cs, da.conj(), "conj");
	}
	c.op("sum");
	{
		auto t = a.sum();
		validate(c, t, "sum");
		c.check(t.dim() == 0, "rank of the sum");
		expect_dense(c, dense_of(t), da.sum(), "sum", 1e-11);
		expect_dense(c, dense_of(quantit::sum(a)), da.sum(), "sum function", 1e-11);
		auto it = t.item();
		auto w = da.sum().item();
		c.check(std::abs(it.toComplexDouble() - w.toComplexDouble()) <= 1e-4 * (1 + std::abs(w.toComplexDouble())), "item of the sum");
	}
	c.op("any");
	{
		auto n = a;
		bool an = r.chance(0.4) && a.begin() != a.end() && dt != torch::kLong;
		if (an)
		{
			n = own(a);
			size_t k = r.next() % n.blocks().size(), i = 0;
			for (auto &b : n)
				if (i++ == k)
				{
					std::get<1>(b) = std::get<1>(b).contiguous();
					auto f = std::get<1>(b).view(-1);
					if (f.numel() == 0)
						an = false; // an empty block
					else
						f[r.in(0, f.numel() - 1)] = NAN;
				}
		}
		c.check(n.anynan() == an, "anynan");
		auto in = n.isnan();
		validate(c, in, "isnan");
		c.check(torch::equal(dense_of(in), dense_of(n).isnan()), "isnan");
		c.check(in.any().item().toBool() == an, "any of isnan");
		c.check(a.any().item().toBool() == da.any().item().toBool(), "any"); // (libtorch disregards imaginary parts)
	}
}
} // namespace
namespace
{
// the layout broadcasting promises
Spec broadcast_result(const Spec &a, const Spec &b)
{
	Spec o;
	o.g = a.g;
	auto &l = a.rank() >= b.rank() ? a : b;
	auto &s = a.rank() >= b.rank() ? b : a;
	o.lay = l.lay;
	auto off = l.rank() - s.rank();
	for (int64_t i = 0; i < s.rank(); ++i)
	{
		auto &x = o.lay[off + i];
		auto &y = s.lay[i];
		bool ones_x = x.size() == 1 && x[0].size == 1, ones_y = y.size() == 1 && y[0].size == 1;
		if (ones_y)
			x = shift(*a.g, x, y[0].q);
		else if (ones_x)
			x = shift(*a.g, y, x[0].q);
		else
			for (size_t k = 0; k < x.size(); ++k)
				x[k].q = a.g->mul(x[k].q, y[k].q);
	}
	o.sel = a.g->mul(a.sel, b.sel);
	return o;
}
void broadcast(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec sa, sb;
	zoo::broadcast_specs(r, g, sa, sb, r.chance(0.4));
	auto ta = any_dtype(r), tb = r.chance(0.7) ? ta : any_dtype(r);
	auto a = through_view(r, make_any(r, sa, ta, rnd(r)));
	auto b = through_view(r, make_any(r, sb, tb, rnd(r)));
	if (r.chance(0.08) && sa.rank() == sb.rank())
	{ // the same object twice
		b = a;
		sb = sa;
		tb = ta;
	}
	single = ta == torch::kFloat || tb == torch::kFloat;
	auto so = broadcast_result(sa, sb);
	auto da = dense_of(a), db = dense_of(b);
	auto both = torch::logical_and(presence(a), presence(b));
	c.describe(cat(sa.str(), " ; ", sb.str(), " ", torch::toString(ta), " ", torch::toString(tb)));
	c.seen(cat(sa.str(), sb.str(), vstr(keys(a)), vstr(keys(b)), ta, tb));
	auto masked = [&](Tensor x) { return torch::where(both, x, torch::zeros_like(x)); };
	c.op("mul");
	expect_same(c, a.mul(b), so, da * db, "mul");
	expect_same(c, a * b, so, da * db, "operator*");
	expect_dense(c, dense_of(a * b), dense_of(b * a), "a*b != b*a", single ? 1e-4 : 1e-13);
	bool bad = ta == torch::kLong || tb == torch::kLong;
	if (!bad)
	{
		c.op("div");
		// the quotient by an absent block is left out; zero stored blocks follow the dense arithmetic
		expect_same(c, a.div(b), so, masked(da / db), "div");
		expect_same(c, a / b, so, masked(da / db), "operator/");
	}
	if (ta != torch::kComplexDouble && tb != torch::kComplexDouble && !bad)
	{
		c.op("pow tensor");
		expect_same(c, a.abs().pow(b), so, masked(da.abs().pow(db)), "pow");
		expect_same(c, quantit::pow(a.abs(), b), so, masked(da.abs().pow(db)), "pow function");
	}
	if (ta != torch::kComplexDouble && tb != torch::kComplexDouble)
	{
		c.op("comparison");
		struct F
		{
			const char *n;
			std::function<btensor()> f;
			std::function<Tensor()> d;
		};
		std::vector<F> fs = {
		    {"ge", [&] { return a.ge(b); }, [&] { return da.ge(db); }},
		    {"le", [&] { return le(a, b); }, [&] { return da.le(db); }},
		    {"less", [&] { return a.less(b); }, [&] { return da.less(db); }},
		    {"greater", [&] { return greater(a, b); }, [&] { return da.greater(db); }},
		    {"eq", [&] { return a.eq(b); }, [&] { return da.eq(db); }},
		    {"not_equal", [&] { return not_equal(a, b); }, [&] { return da.not_equal(db); }},
		    {"operator>=", [&] { return a >= b; }, [&] { return da.ge(db); }},
		    {"operator<=", [&] { return a <= b; }, [&] { return da.le(db); }},
		    {"operator<", [&] { return a < b; }, [&] { return da.less(db); }},
		    {"operator>", [&] { return a > b; }, [&] { return da.greater(db); }},
		    {"operator==", [&] { return a == b; }, [&] { return da.eq(db); }},
		    {"operator!=", [&] { return a != b; }, [&] { return da.not_equal(db); }},
		};
		auto &f = r.pick(fs);
		auto got = f.f();
		validate(c, got, f.n);
		c.check(torch::equal(dense_of(got), torch::logical_and(both, f.d())), f.n);
		Scalar v = Scalar(r.sym());
		std::vector<F> fs2 = {
		    {"ge scalar", [&] { return a.ge(v); }, [&] { return da.ge(v); }},
		    {"le scalar", [&] { return le(a, v); }, [&] { return da.le(v); }},
		    {"less scalar", [&] { return a < v; }, [&] { return da.less(v); }},
		    {"greater scalar", [&] { return a > v; }, [&] { return da.greater(v); }},
		    {"eq scalar", [&] { return a == v; }, [&] { return da.eq(v); }},
		    {"not_equal scalar", [&] { return a != v; }, [&] { return da.not_equal(v); }},
		    {"scalar ge", [&] { return v >= a; }, [&] { return da.le(v); }},
		    {"scalar le", [&] { return v <= a; }, [&] { return da.ge(v); }},
		    {"scalar less", [&] { return v < a; }, [&] { return da.greater(v); }},
		    {"scalar greater", [&] { return v > a; }, [&] { return da.less(v); }},
		};
		auto &f2 = r.pick(fs2);
		auto got2 = f2.f();
		validate(c, got2, f2.n);
		c.check(torch::equal(dense_of(got2), torch::logical_and(presence(a), f2.d())), f2.n);
	}
	if (sa.rank() >= sb.rank() && torch::can_cast(tb, ta) && torch::promote_types(ta, tb) == ta)
	{
		c.op("in place");
		auto t = own(a);
		t.mul_(b);
		expect_same(c, t, so, (da * db).to(ta), "mul_");
		t = own(a);
		t *= b;
		expect_same(c, t, so, (da * db).to(ta), "operator*=");
		if (!bad)
		{
			t = own(a);
			t.div_(b);
			expect_same(c, t, so, masked(da / db).to(ta), "div_");
			t = own(a);
			t /= b;
			expect_same(c, t, so, masked(da / db).to(ta), "operator/=");
		}
		if (ta != torch::kComplexDouble && !bad)
		{
			t = own(a.abs());
			t.pow_(b);
			expect_same(c, t, so, masked(da.abs().pow(db)).to(ta), "pow_ tensor");
		}
	}
	expect_dense(c, dense_of(a), da, "first operand modified", 0);
	expect_dense(c, dense_of(b), db, "second operand modified", 0);
}
// a chain of element-wise operations in parallel with the same chain on dense tensors
void expression(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto dt = r.chance(0.3) ? torch::kComplexDouble : torch::kDouble;
	single = false;
	auto m = mask(s).to(dt);
	std::vector<btensor> x;
	std::vector<Tensor> d;
	for (int i = 0; i < 3; ++i)
	{
		x.push_back(make(r, s, dt, rnd(r)));
		d.push_back(dense_of(x.back()));
	}
	std::string trace;
	int steps = r.in(3, 12);
	for (int i = 0; i < steps; ++i)
	{
		size_t p = r.next() % x.size(), q = r.next() % x.size();
		double al = r.sym();
		int o = r.in(0, 9);
		trace += cat(o, ":", p, ",", q, " ");
		switch (o)
		{
		case 0: x.push_back(x[p] + x[q]); d.push_back(d[p] + d[q]); break;
		case 1: x.push_back(x[p].sub(x[q], al)); d.push_back(d[p] - al * d[q]); break;
		case 2: x.push_back(al * x[p]); d.push_back(al * d[p]); break;
		case 3: x.push_back(x[p].add(x[q].mul(al))); d.push_back(d[p] + al * d[q]); break;
		case 4: x.push_back(x[p].add(al)); d.push_back(d[p] + al * m); break;
		case 5: x[p] = own(x[p]); x[p].add_(x[q], al); d[p] = d[p] + al * d[q]; break;
		case 6: x[p] = own(x[p]); x[p] -= x[q]; d[p] = d[p] - d[q]; break;
		case 7: x[p] = own(x[p]); x[p] *= al; d[p] = d[p] * al; break;
		case 8: x.push_back(x[p] / (al + 2)); d.push_back(d[p] / (al + 2)); break;
		case 9: x.push_back(-x[p]); d.push_back(-d[p]); break;
		}
	}
	c.describe(s.str() + " " + trace);
	c.seen(s.str() + trace);
	c.op("chain");
	for (size_t i = 0; i < x.size(); ++i)
	{
		validate(c, x[i], "element of the chain");
		expect_spec(c, x[i], s, "element of the chain");
		expect_dense(c, dense_of(x[i]), d[i], "element of the chain", 1e-10);
		expect_dense(c, x[i].to_dense(), d[i], "to_dense of the chain", 1e-10);
	}
}
void closeness(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto a = make(r, s, torch::kDouble, rnd(r)), b = own(a);
	c.describe(s.str());
	c.seen(cat(s.str(), vstr(keys(a))));
	c.op("allclose");
	c.check(allclose(a, b), "allclose of a copy");
	// explicit zeros and absent blocks are the same tensor
	for (auto &k : allowed_blocks(s))
		if (!b.blocks().contains(k))
		{
			if (r.chance(0.5))
				b.block(k) = torch::zeros(block_shape(s.lay, k), torch::kDouble);
		}
	c.check(allclose(a, b) && allclose(b, a), "allclose distinguishes stored zeros");
	auto al = filled_blocks(s);
	if (!al.empty())
	{
		auto k = r.pick(al);
		bool had = b.blocks().contains(k);
		auto t = had ? b.block_at(k).clone(torch::MemoryFormat::Contiguous) : torch::zeros(block_shape(s.lay, k), torch::kDouble);
		t.view(-1)[r.in(0, t.numel() - 1)] += 0.01;
		b.block(k) = t;
		c.check(!allclose(a, b) && !allclose(b, a), "allclose misses a difference", [&] { return cat("block ", vstr(k), " of ", show(b)); });
		c.check(allclose(a, b, 0, 0.02) && allclose(b, a, 0, 0.02), "allclose ignores its tolerance");
	}
	auto s2 = s;
	s2.sel = g.mul(s.sel, g.random(r, 3));
	if (s2.sel != s.sel)
		c.check(!allclose(a, make(r, s2, torch::kDouble)), "allclose of tensors with different selection rules");
}
} // namespace
PROPERTY(B02)
{
	ctx.family("additive", ctx.n(2500, 60000), additive);
	ctx.family("scalar", ctx.n(2500, 60000), scalars);
	ctx.family("unary", ctx.n(2500, 60000), unary);
	ctx.family("broadcast", ctx.n(6000, 150000), broadcast);
	ctx.family("expression", ctx.n(1500, 40000), expression);
	ctx.family("allclose", ctx.n(1500, 30000), closeness);
}
namespace
{
Spec dot_spec(const Spec &a, const Spec &b, const IL &da, const IL &db)
{
	Spec o;
	o.g = a.g;
	std::set<int64_t> sa, sb;
	for (auto x : da)
		sa.insert((x + a.rank()) % a.rank());
	for (auto x : db)
		sb.insert((x + b.rank()) % b.rank());
	for (int64_t i = 0; i < a.rank(); ++i)
		if (!sa.count(i))
			o.lay.push_back(a.lay[i]);
	for (int64_t i = 0; i < b.rank(); ++i)
		if (!sb.count(i))
			o.lay.push_back(b.lay[i]);
	o.sel = a.g->mul(a.sel, b.sel);
	return o;
}
void contraction(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec sa, sb;
	IL da, db;
	zoo::contraction_specs(r, g, sa, sb, da, db, r.chance(0.3) ? 5 : 4, true);
	auto dt = pick_dtype(r);
	single = dt == torch::kFloat;
	auto a = through_view(r, make(r, sa, dt, rnd(r))), b = through_view(r, make(r, sb, dt, rnd(r)));
	auto Da = dense_of(a), Db = dense_of(b);
	auto want = torch::tensordot(Da, Db, da, db);
	auto so = dot_spec(sa, sb, da, db);
	IL na = da, nb = db;
	for (auto &x : na)
		if (r.chance(0.3))
			x -= sa.rank();
	for (auto &x : nb)
		if (r.chance(0.3))
			x -= sb.rank();
	c.describe(cat(sa.str(), " ; ", sb.str(), " ", vstr(na), vstr(nb), " ", torch::toString(dt)));
	c.seen(cat(sa.str(), sb.str(), vstr(na), vstr(nb), vstr(keys(a)), vstr(keys(b))));
	c.count(cat("contracting ", da.size(), " dims of ranks ", sa.rank(), ",", sb.rank()));
	c.op("tensordot");
	auto got = a.tensordot(b, na, nb);
	expect_same(c, got, so, want, "tensordot");
	auto f = tensordot(a, b, da, db);
	expect_same(c, f, so, want, "tensordot function");
	// the other order gives the same tensor up to a permutation
	c.op("swapped");
	auto sw = tensordot(b, a, db, da);
	IL p;
	int64_t fa = sa.rank() - da.size(), fb = sb.rank() - db.size();
	for (int64_t i = 0; i < fa; ++i)
		p.push_back(fb + i);
	for (int64_t i = 0; i < fb; ++i)
		p.push_back(i);
	expect_same(c, sw.permute(p), so, want, "swapped operands");
	// a permutation of the operands' dimensions beforehand changes nothing
	c.op("permuted operand");
	IL pa(sa.rank()), inv_pa(sa.rank());
	std::iota(pa.begin(), pa.end(), 0);
	// keep the relative order of the free dimensions: move contracted ones around
	std::stable_sort(pa.begin(), pa.end(), [&](int64_t x, int64_t y) { return std::count(da.begin(), da.end(), x) > std::count(da.begin(), da.end(), y); });
	for (size_t i = 0; i < pa.size(); ++i)
		inv_pa[pa[i]] = i;
	IL da2;
	for (auto x : da)
		da2.push_back(inv_pa[x]);
	expect_same(c, tensordot(a.permute(pa), b, da2, db), so, want, "permuted first operand");
	// linearity
	c.op("linearity");
	auto a2 = make(r, sa, dt, rnd(r));
	expect_dense(c, dense_of(tensordot(a + a2, b, da, db)), dense_of(got + tensordot(a2, b, da, db)), "not linear", single ? 1e-3 : 1e-10);
	expect_dense(c, dense_of(a), Da, "first operand modified", 0);
	expect_dense(c, dense_of(b), Db, "second operand modified", 0);
}
// matrix-like contraction between many sections, including repeated charges and empty products
void chains(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	int n = r.in(2, 4);
	std::vector<Spec> s(n);
	Dim d = random_dim(r, g, 5, 2);
	auto dt = r.chance(0.3) ? torch::kComplexDouble : torch::kDouble;
	std::vector<btensor> t;
	std::vector<Tensor> D;
	for (int i = 0; i < n; ++i)
	{
		s[i].g = &g;
		s[i].lay.push_back(inv(g, d));
		if (r.chance(0.6))
			s[i].lay.push_back(random_dim(r, g, 2, 2));
		d = random_dim(r, g, 5, 2);
		s[i].lay.push_back(d);
		s[i].sel = random_sel(r, g, s[i].lay, 0.95);
		t.push_back(make(r, s[i], dt, rnd(r)));
		D.push_back(dense_of(t.back()));
		c.describe(s[i].str());
		c.sig += s[i].str() + vstr(keys(t.back()));
	}
	c.seen("");
	c.op("chain");
	auto L = t[0];
	auto DL = D[0];
	for (int i = 1; i < n; ++i)
	{
		L = tensordot(L, t[i], {L.dim() - 1}, {0});
		DL = torch::tensordot(DL, D[i], {DL.dim() - 1}, {0});
	}
	auto R = t[n - 1];
	for (int i = n - 2; i >= 0; --i)
		R = tensordot(t[i], R, {t[i].dim() - 1}, {0});
	validate(c, L, "left to right");
	validate(c, R, "right to left");
	expect_dense(c, dense_of(L), DL, "left to right", 1e-10);
	expect_dense(c, dense_of(R), DL, "right to left", 1e-10);
	Val q = g.neutral();
	for (auto &x : s)
		q = g.mul(q, x.sel);
	c.check(sel_of(L) == g.make(q) && sel_of(R) == g.make(q), "selection rule of the chain");
	c.check(layout_of(L) == layout_of(R), "layouts of the two orders of contraction differ");
}
void batched(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec sa, sb;
	zoo::bmm_specs(r, g, sa, sb);
	auto dt = pick_dtype(r);
	single = dt == torch::kFloat;
	auto a = through_view(r, make(r, sa, dt, rnd(r))), b = through_view(r, make(r, sb, dt, rnd(r)));
	auto Da = dense_of(a), Db = dense_of(b);
	c.describe(cat(sa.str(), " ; ", sb.str()));
	c.seen(cat(sa.str(), sb.str(), vstr(keys(a)), vstr(keys(b))));
	c.op("bmm");
	Spec so = sa;
	auto nb = sa.rank() - 2;
	for (int64_t i = 0; i < nb; ++i)
		for (size_t k = 0; k < so.lay[i].size(); ++k)
			so.lay[i][k].q = g.mul(sa.lay[i][k].q, sb.lay[i][k].q);
	so.lay[nb + 1] = sb.lay[nb + 1];
	so.sel = g.mul(sa.sel, sb.sel);
	expect_same(c, a.bmm(b), so, torch::matmul(Da, Db), "bmm");
	expect_dense(c, dense_of(a), Da, "first operand modified", 0);
	expect_dense(c, dense_of(b), Db, "second operand modified", 0);
}
} // namespace
PROPERTY(B03)
{
	ctx.family("tensordot", ctx.n(5000, 150000), contraction);
	ctx.family("chain", ctx.n(3000, 80000), chains);
	ctx.family("bmm", ctx.n(4000, 80000), batched);
}
