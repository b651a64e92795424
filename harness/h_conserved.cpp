// Q01, Q02, Q03: conserved quantities, type-erased quantities, and their container, against integer models.
#include "common.h"
#include "Conserved/Composite/quantity_vector.h"
#include <cmath>
#include <limits>
#include <memory>
using namespace quantit;
using conserved::C;
using conserved::Z;
using mon::Case;
using mon::Rng;

namespace
{
int64_t red(int64_t v, int64_t mod) { return mod == 0 ? v : ((v % mod) + mod) % mod; }
template <class G>
struct GI;
template <>
struct GI<Z>
{
	static constexpr int64_t mod = 0;
};
template <uint16_t N>
struct GI<C<N>>
{
	static constexpr int64_t mod = N;
};

using Val = std::vector<int64_t>; // canonical component values
struct Kind
{
	std::string name;
	std::vector<int64_t> mods;
	std::function<any_quantity(const Val &)> make;
	std::function<any_quantity_vector(const std::vector<Val> &, int)> make_vec;
	std::function<void(Case &, const std::vector<Val> &, const std::vector<Val> &)> typed_vec;
	std::function<void(Case &, const Val &, const Val &, const Val &)> typed_op;
	Val reduce(Val v) const
	{
		for (size_t i = 0; i < mods.size(); ++i)
			v[i] = red(v[i], mods[i]);
		return v;
	}
	Val neutral() const { return Val(mods.size(), 0); }
	Val mul(const Val &a, const Val &b) const
	{
		Val r = a;
		for (size_t i = 0; i < r.size(); ++i)
			r[i] = red(r[i] + b[i], mods[i]);
		return r;
	}
	Val inv(const Val &a) const
	{
		Val r = a;
		for (size_t i = 0; i < r.size(); ++i)
			r[i] = red(-r[i], mods[i]);
		return r;
	}
	Val random(Rng &r, int64_t zr = 50) const
	{
		Val v(mods.size());
		for (size_t i = 0; i < v.size(); ++i)
			v[i] = mods[i] == 0 ? r.in(-zr, zr) : r.in(0, mods[i] - 1);
		return v;
	}
};
template <class... G, size_t... I>
any_quantity make_q(const Val &v, std::index_sequence<I...>)
{
	return any_quantity(G(int16_t(v[I]))...);
}
template <class... G, size_t... I>
quantity<G...> make_cq(const Val &v, std::index_sequence<I...>)
{
	return quantity<G...>(G(int16_t(v[I]))...);
}
template <class... G>
Kind kind(const std::string &name)
{
	Kind k;
	k.name = name;
	k.mods = {GI<G>::mod...};
	k.make = [](const Val &v) { return make_q<G...>(v, std::index_sequence_for<G...>()); };
	k.make_vec = [](const std::vector<Val> &vs, int how) {
		quantity_vector<quantity<G...>> q;
		for (auto &v : vs)
			q.push_back(make_cq<G...>(v, std::index_sequence_for<G...>()));
		if (how == 0)
			return any_quantity_vector(static_cast<const vquantity_vector &>(q));
		if (how == 1)
			return any_quantity_vector(std::move(q));
		if (how == 3)
			return any_quantity_vector(q);
		if (how == 4 or how == 5)
		{
			std::vector<quantity<G...>> plain(q.begin(), q.end());
			if (how == 4)
				return any_quantity_vector(quantity_vector<quantity<G...>>(plain));
			return any_quantity_vector(quantity_vector<quantity<G...>>(std::move(plain)));
		}
		return any_quantity_vector(std::make_unique<quantity_vector<quantity<G...>>>(q));
	};
	k.typed_op = [](Case &c, const Val &va, const Val &vb, const Val &vprod) {
		using Q = quantity<G...>;
		auto idx = std::index_sequence_for<G...>();
		const Q a = make_cq<G...>(va, idx), b = make_cq<G...>(vb, idx), ab = make_cq<G...>(vprod, idx);
		Q t(a);
		c.check(t * b == ab and t == a, "typed *");
		c.check(t * Q(b) == ab and t == a, "typed * with a temporary");
		c.check(t + b == ab and t == a, "typed +");
		c.check(t + Q(b) == ab and t == a, "typed + with a temporary");
		t *= b;
		c.check(t == ab, "typed *=");
		t = a;
		t += b;
		c.check(t == ab, "typed +=");
		t = a;
		t.op(b, false);
		c.check(t == a, "typed conditional op");
		t.op(b);
		c.check(t == ab, "typed op");
		t = b;
		a.op_to(t);
		c.check(t == ab, "typed op_to");
		Q ia(a), ib(b), iab(ab);
		ia.inverse_();
		ib.inverse_();
		iab.inverse_();
		c.check(iab == ia * ib and iab * ab == Q(), "typed inverse");
		c.check(a.neutral() == Q() and (a == b) == (va == vb) and (a != b) == (va != vb), "typed comparison");
		c.check(int(a < b) + int(a > b) + int(a == b) == 1 and (a < b) == (b > a), "typed order");
		any_quantity_cref A(a), B(b);
		c.check((a < b) == (A < B) and a.distance2(b) == distance2(A, B) and a.distance(b) == distance(A, B), "typed and erased order and distance");
	};
	k.typed_vec = [](Case &c, const std::vector<Val> &va, const std::vector<Val> &vb) {
		auto idx = std::index_sequence_for<G...>();
		quantity_vector<quantity<G...>> a, b;
		for (auto &v : va)
			a.push_back(make_cq<G...>(v, idx));
		for (auto &v : vb)
			b.emplace_back(make_cq<G...>(v, idx));
		const auto &ca = a;
		const vquantity_vector &ga = a, &gb = b;
		bool same = va == vb;
		c.check((a == b) == same and (b == a) == same and (ga == gb) == same, "typed ==");
		c.check((a != b) != same and (b != a) != same and (ga != gb) != same, "typed !=");
		c.check(ca.size() == va.size() and ca.empty() == va.empty() and ga.size() == va.size(), "typed size");
		for (size_t i = 0; i < va.size(); ++i)
		{
			auto e = make_cq<G...>(va[i], idx);
			c.check(ca[i] == e and ca.at(i) == e and ca.data()[i] == e and *(ca.cbegin() + i) == e and
			            *(ca.rbegin() + (va.size() - 1 - i)) == e,
			        "typed element");
		}
		c.must_throw_as<std::out_of_range>([&] { (void)ca.at(va.size()); }, "typed at(size())");
		auto a2 = a, b2 = b;
		static_cast<vquantity_vector &>(a2).swap(b2);
		c.check(a2 == b and b2 == a, "swap");
		a2 = b;
		c.check(a2 == b, "typed assignment");
		a2 = std::move(b2);
		c.check(a2 == a, "typed move assignment");
		a2 = b;
		any_quantity_vector f(a), g(a2);
		c.check((f == g) == same and (f != g) != same, "typed and erased comparisons agree");
		a.clear();
		c.check(f.size() == va.size(), "the erased vector depends on the vector it was made from");
	};
	return k;
}
const std::vector<Kind> &kinds()
{
	static std::vector<Kind> k = {kind<Z>("Z"),
	                              kind<C<2>>("C2"),
	                              kind<C<5>>("C5"),
	                              kind<Z, Z>("ZZ"),
	                              kind<C<2>, Z>("C2Z"),
	                              kind<Z, C<2>>("ZC2"),
	                              kind<C<3>, C<4>, Z>("C3C4Z"),
	                              kind<Z, Z, C<7>>("ZZC7"),
	                              kind<C<1>>("C1"),
	                              kind<C<2>, C<2>>("C2C2")};
	return k;
}
std::string vs(const Kind &k, const Val &v) { return k.name + mon::vstr(v); }

// x is the element v of group k, by every observation the interface offers
void is_elem(Case &c, any_quantity_cref x, const Kind &k, const Val &v, const char *what)
{
	any_quantity e = k.make(v);
	auto det = [&] { return "expected " + vs(k, v) + " got " + fmt::format("{}", any_quantity(x)); };
	c.check(x.same_type(e), what, det);
	c.check(x == e and e == x and not(x != e) and not(e != x), what, det);
	c.check(distance2(x, e) == 0 and not(x < e) and not(x > e), what, det);
}

// ---------------------------------------------------------------------------------------- simple groups
template <uint16_t N>
void cyclic(mon::Ctx &ctx)
{
	ctx.fixed("cyclic<" + std::to_string(N) + ">", [](Case &c) {
		using G = C<N>;
		c.describe("every int16 constructor value of C<" + std::to_string(N) + ">, operations on pairs");
		c.op("construct");
		for (int v = -32768; v <= 32767; ++v)
		{
			G g = G(int16_t(v));
			c.check(g.get_val() == red(v, N), "value not reduced modulo N",
			        [&] { return mon::cat("C<", N, ">(", v, ") holds ", g.get_val()); });
		}
		c.check(G() == G(int16_t(0)) and G().get_val() == 0, "default not neutral");
		std::vector<int> vals;
		int lim = std::min<int>(N - 1, 32767);
		if (lim < 40)
			for (int i = 0; i <= lim; ++i)
				vals.push_back(i);
		else
		{
			for (int i = 0; i < 24; ++i)
				vals.push_back(c.rng.in(0, lim));
			for (int i : {0, 1, 2, lim - 1, lim, lim / 2, lim / 2 + 1})
				vals.push_back(i);
		}
		for (int a : vals)
		{
			G A = G(int16_t(a));
			c.op("inverse");
			c.check(A.inverse().get_val() == red(-a, N), "inverse value");
			G t = A;
			c.check(&t.inverse_() == &t and t.get_val() == red(-a, N), "inverse_ value");
			c.check((A * A.inverse()) == G() and (A + A.inverse()).get_val() == 0, "a*a^-1 not neutral");
			c.check(A.inverse().inverse() == A, "inverse not involutive");
			c.check((A * G()) == A and (G() * A) == A, "neutral");
			for (int b : vals)
			{
				// the whole range [0,N) of operands, even for N > 2^15 where the constructor cannot reach it directly
				for (int big = 0; big < (N > 32768 ? 2 : 1); ++big)
				{
					G B = G(int16_t(b));
					G A2 = A;
					int64_t aa = a;
					if (big)
					{
						A2 = A.inverse();
						B = B.inverse();
						aa = red(-a, N);
					}
					int64_t bb = big ? red(-b, N) : b;
					c.op("product");
					auto det = [&] { return mon::cat("N=", N, " a=", aa, " b=", bb, " got ", (A2 * B).get_val()); };
					c.check((A2 * B).get_val() == red(aa + bb, N), "product value", det);
					c.check((A2 + B).get_val() == red(aa + bb, N), "sum value", det);
					G t1 = A2, t2 = A2, t3 = A2, t4 = A2, t5 = A2;
					t1 *= B;
					t2 += B;
					t3.op(B);
					t4.op(B, true);
					t5.op(B, false);
					c.check(t1.get_val() == red(aa + bb, N) and t2 == t1 and t3 == t1 and t4 == t1, "in-place forms", det);
					c.check(t5 == A2, "conditional op applied with false condition", det);
					c.check((A2 * B) == (B * A2), "commutative", det);
					c.op("compare");
					c.check((A2 == B) == (aa == bb) and (A2 != B) == (aa != bb), "equality", det);
					c.check((A2 < B) == (B > A2) and int(A2 < B) + int(A2 > B) + int(A2 == B) == 1, "trichotomy", det);
					c.op("distance");
					int64_t d2 = (aa - bb) * (aa - bb);
					c.check(A2.distance2(B) == d2 and conserved::distance2(A2, B) == d2, "distance2", det);
					c.check(std::abs(A2.distance(B) - std::sqrt(double(d2))) < 1e-6 and std::abs(conserved::distance(A2, B) - std::sqrt(double(d2))) < 1e-6, "distance", det);
				}
			}
		}
		c.seen("N" + std::to_string(N));
	});
}
void check_Z(Case &c, int64_t a, int64_t b)
{
	auto det = [&] { return mon::cat("Z a=", a, " b=", b); };
	Z A = Z(int16_t(a)), B = Z(int16_t(b));
	c.op("inverse");
	c.check(A.inverse().get_val() == -a and A.inverse().inverse() == A, "inverse", det);
	Z t = A;
	t.inverse_();
	c.check(t.get_val() == -a, "inverse_", det);
	c.check((A * A.inverse()) == Z() and Z() == Z(int16_t(0)), "a*a^-1 not neutral", det);
	c.check((A * Z()) == A and (Z() * A) == A, "neutral", det);
	if (std::abs(a + b) <= 32767)
	{
		c.op("product");
		c.check((A * B).get_val() == a + b and (A + B).get_val() == a + b and (B * A) == (A * B), "product", det);
		Z t1 = A, t2 = A, t3 = A, t4 = A;
		t1 *= B;
		t2 += B;
		t3.op(B);
		t4.op(B, true);
		c.check(t1.get_val() == a + b and t2 == t1 and t3 == t1 and t4 == t1, "in-place forms", det);
	}
	Z t5 = A;
	t5.op(B, false);
	c.check(t5 == A, "conditional op applied with false condition", det);
	c.op("compare");
	c.check((A == B) == (a == b) and (A != B) == (a != b), "equality", det);
	c.check((A < B) == (B > A) and int(A < B) + int(A > B) + int(A == B) == 1, "trichotomy", det);
	c.op("distance");
	int64_t d2 = (a - b) * (a - b);
	c.check(A.distance2(B) == d2 and conserved::distance2(A, B) == d2, "distance2", det);
	c.check(std::abs(A.distance(B) - std::sqrt(double(d2))) < 1e-6 and std::abs(conserved::distance(A, B) - std::sqrt(double(d2))) < 1e-6, "distance", det);
}

inline any_quantity_cref cr(const any_quantity &a) { return a; }
any_quantity apply_product(int form, const any_quantity &A, const any_quantity &B)
{
	switch (form)
	{
	case 0: return A * B;
	case 1: return A + B;
	case 2: return any_quantity(A) * cr(B);
	case 3: return any_quantity(A) + cr(B);
	case 4: return cr(A) * any_quantity(B);
	case 5: return cr(A) + any_quantity(B);
	case 6: return any_quantity(A) * any_quantity(B);
	case 7: return any_quantity(A) + any_quantity(B);
	case 8: { any_quantity t(A); t *= B; return t; }
	case 9: { any_quantity t(A); t += B; return t; }
	case 10: { any_quantity t(A); t.op(B, true); return t; }
	case 11: { any_quantity t(A); any_quantity_ref r = t; r.op(B); return t; }
	case 12: { any_quantity t(A); any_quantity_ref r = t; r *= B; return t; }
	case 13: { any_quantity t(A); any_quantity_ref r = t; r += B; return t; }
	case 14: { any_quantity t(B); cr(A).op_to(t); return t; }
	case 15: { any_quantity t(A); any_quantity_ref r = t; r.op(B, true); return t; }
	default: return cr(A) * cr(B);
	}
}
constexpr int n_forms = 17;
} // namespace

PROPERTY(Q01)
{
	cyclic<1>(ctx); cyclic<2>(ctx); cyclic<3>(ctx); cyclic<4>(ctx); cyclic<5>(ctx); cyclic<6>(ctx); cyclic<7>(ctx);
	cyclic<8>(ctx); cyclic<9>(ctx); cyclic<11>(ctx); cyclic<16>(ctx); cyclic<25>(ctx); cyclic<36>(ctx); cyclic<100>(ctx);
	cyclic<127>(ctx); cyclic<128>(ctx); cyclic<255>(ctx); cyclic<256>(ctx); cyclic<1000>(ctx); cyclic<32767>(ctx);
	cyclic<32768>(ctx); cyclic<32769>(ctx); cyclic<40000>(ctx); cyclic<65534>(ctx);
	ctx.family("integers", ctx.n(64, 512), [](Case &c) {
		c.describe("random and boundary pairs of Z");
		std::vector<int64_t> b = {0, 1, -1, 2, -2, 32767, -32767, 16383, 16384, -16384, 255, 256, -256};
		for (int i = 0; i < 4000; ++i)
		{
			int64_t x = c.rng.chance(.2) ? c.rng.pick(b) : c.rng.chance(.5) ? c.rng.in(-32767, 32767) : c.rng.in(-20, 20);
			int64_t y = c.rng.chance(.2) ? c.rng.pick(b) : c.rng.chance(.5) ? c.rng.in(-32767, 32767) : c.rng.in(-20, 20);
			check_Z(c, x, y);
		}
		c.seen(std::to_string(c.index));
	});
	ctx.family("composite", ctx.n(8000, 100000), [](Case &c) {
		const Kind &k = kinds()[c.index % kinds().size()];
		int64_t zr = c.rng.chance(.2) ? 10000 : c.rng.chance(.5) ? 3 : 100;
		Val a = k.random(c.rng, zr), b = c.rng.chance(.2) ? a : k.random(c.rng, zr), d = c.rng.chance(.2) ? b : k.random(c.rng, zr);
		c.describe(vs(k, a) + " " + vs(k, b) + " " + vs(k, d));
		// built from any representative, the element is the same
		Val a_rep = a;
		for (size_t i = 0; i < a.size(); ++i)
			if (k.mods[i])
				a_rep[i] += k.mods[i] * c.rng.in(-3, 3);
		any_quantity A = k.make(a_rep), B = k.make(b), D = k.make(d);
		c.op("construct");
		is_elem(c, A, k, a, "representative not reduced");
		c.op("product");
		for (int f = 0; f < n_forms; ++f)
		{
			is_elem(c, apply_product(f, A, B), k, k.mul(a, b), ("product form " + std::to_string(f)).c_str());
			is_elem(c, apply_product(f, apply_product(f, A, B), D), k, k.mul(k.mul(a, b), d), "triple product");
			is_elem(c, apply_product(f, A, apply_product(f, B, D)), k, k.mul(k.mul(a, b), d), "associativity");
			is_elem(c, apply_product(f, B, A), k, k.mul(a, b), "commutativity");
		}
		c.op("typed");
		k.typed_op(c, a, b, k.mul(a, b));
		c.op("conditional");
		{
			any_quantity t(A);
			t.op(B, false);
			is_elem(c, t, k, a, "conditional op applied with false condition");
		}
		c.op("neutral");
		is_elem(c, A.neutral(), k, k.neutral(), "neutral()");
		is_elem(c, any_quantity_cref(A).neutral(), k, k.neutral(), "cref neutral()");
		is_elem(c, A * A.neutral(), k, a, "a*e");
		is_elem(c, A.neutral() * A, k, a, "e*a");
		c.op("inverse");
		is_elem(c, A.inverse(), k, k.inv(a), "inverse()");
		is_elem(c, any_quantity(A).inverse(), k, k.inv(a), "rvalue inverse()");
		is_elem(c, any_quantity_cref(A).inverse(), k, k.inv(a), "cref inverse()");
		is_elem(c, any_quantity_cref(A).inv(), k, k.inv(a), "cref inv()");
		{
			any_quantity t(A), u(A), v(A);
			t.inverse_();
			any_quantity_ref r = u;
			r.inverse_();
			any_quantity_ref rv = v;
			rv.inv_();
			is_elem(c, t, k, k.inv(a), "inverse_()");
			is_elem(c, u, k, k.inv(a), "ref inverse_()");
			is_elem(c, v, k, k.inv(a), "ref inv_()");
			t.inverse_();
			is_elem(c, t, k, a, "inverse twice");
		}
		is_elem(c, A * A.inverse(), k, k.neutral(), "a*a^-1");
		is_elem(c, A.inverse() * A, k, k.neutral(), "a^-1*a");
		is_elem(c, A, k, a, "operand changed");
		is_elem(c, B, k, b, "operand changed");
		c.op("order");
		auto tri = [&](const any_quantity &x, const any_quantity &y, bool eq) {
			any_quantity_cref X = x, Y = y;
			c.check((X == Y) == eq and (X != Y) == !eq, "equality");
			c.check((X < Y) == (Y > X) and int(X < Y) + int(X > Y) + int(X == Y) == 1, "trichotomy");
		};
		tri(A, B, a == b);
		tri(B, D, b == d);
		tri(A, D, a == d);
		{
			any_quantity_cref X = A, Y = B, W = D;
			c.check(not(X < Y and Y < W) or X < W, "transitivity");
			c.check(not(W < Y and Y < X) or W < X, "transitivity");
			c.check(not(Y < X and X < W) or Y < W, "transitivity");
		}
		c.op("distance");
		int64_t d2 = 0;
		for (size_t i = 0; i < a.size(); ++i)
			d2 += (a[i] - b[i]) * (a[i] - b[i]);
		c.check(distance2(A, B) == d2 and distance2(B, A) == d2, "distance2",
		        [&] { return mon::cat("expected ", d2, " got ", distance2(A, B)); });
		c.check(std::abs(distance(A, B) - std::sqrt(double(d2))) < 1e-6, "distance");
		c.seen(vs(k, a) + vs(k, b) + vs(k, d));
	});
	ctx.fixed("default element", [](Case &c) {
		any_quantity q, r;
		c.check(q == r and q * r == q and q.inverse() == q and q.neutral() == q, "trivial group");
		quantity<C<5>, Z> dq;
		c.check(dq == quantity<C<5>, Z>(0, 0), "default composite");
		c.seen("default");
	});
}

// ---------------------------------------------------------------------------------------- value semantics
namespace
{
struct Slot
{
	std::unique_ptr<any_quantity> q;
	const Kind *k;
	Val v;
};
} // namespace
PROPERTY(Q02)
{
	ctx.family("history", ctx.n(3000, 40000), [](Case &c) {
		Rng &r = c.rng;
		std::vector<const Kind *> ks;
		int nk = int(r.in(1, 3));
		for (int i = 0; i < nk; ++i)
			ks.push_back(&kinds()[r.in(0, kinds().size() - 1)]);
		std::vector<Slot> s(r.in(2, 5));
		for (auto &x : s)
		{
			x.k = r.pick(ks);
			x.v = x.k->random(r, 9);
			x.q = std::make_unique<any_quantity>(x.k->make(x.v));
		}
		auto verify = [&](const char *what) {
			for (auto &x : s)
				is_elem(c, *x.q, *x.k, x.v, what);
		};
		std::string trace;
		int len = int(r.in(5, 30));
		for (int step = 0; step < len; ++step)
		{
			size_t i = r.in(0, s.size() - 1), j = r.in(0, s.size() - 1);
			Slot &a = s[i], &b = s[j];
			bool same = a.k->mods == b.k->mods;
			int o = int(r.in(0, 21));
			trace += mon::cat(o, "(", i, ",", j, ")");
			auto mismatch = [&](auto &&f, const char *what) { c.must_throw_as<std::bad_cast>(f, what); };
			switch (o)
			{
			case 0:
				c.op("copy-construct");
				a.q = i == j ? std::make_unique<any_quantity>(any_quantity(*b.q)) : std::make_unique<any_quantity>(*b.q);
				a.k = b.k;
				a.v = Val(b.v);
				break;
			case 1:
				c.op("copy-assign");
				*a.q = *static_cast<const any_quantity *>(b.q.get());
				a.k = b.k;
				a.v = Val(b.v);
				break;
			case 2:
				c.op("assign-cref");
				*a.q = any_quantity_cref(*b.q);
				a.k = b.k;
				a.v = Val(b.v);
				break;
			case 3:
				c.op("assign-ref");
				*a.q = any_quantity_ref(*b.q);
				a.k = b.k;
				a.v = Val(b.v);
				break;
			case 4:
				c.op("assign through reference");
				{
					any_quantity_ref ra = *a.q;
					if (same)
					{
						ra = any_quantity_cref(*b.q);
						a.v = Val(b.v);
					}
					else
						mismatch([&] { ra = any_quantity_cref(*b.q); }, "assignment through a reference of another group");
				}
				break;
			case 5:
				if (i == j)
					break;
				c.op("move-construct");
				{
					std::unique_ptr<any_quantity> n = std::make_unique<any_quantity>(std::move(*b.q));
					is_elem(c, *n, *b.k, b.v, "moved value");
					// the moved-from object is assigned a new value
					if (r.chance(.5))
						*b.q = *static_cast<const any_quantity *>(a.q.get());
					else
						*b.q = any_quantity_cref(*a.q);
					auto ok = b.k;
					auto ov = b.v;
					b.k = a.k;
					b.v = a.v;
					a.q = std::move(n);
					a.k = ok;
					a.v = ov;
				}
				break;
			case 6:
				if (i == j)
					break;
				c.op("move-assign");
				{
					any_quantity tmp(*b.q);
					*a.q = std::move(tmp);
					a.k = b.k;
					a.v = b.v;
				}
				break;
			case 7:
				c.op("swap");
				{
					if (r.chance(.5))
						a.q->swap(*b.q);
					else
						swap(*a.q, *b.q);
					std::swap(a.k, b.k);
					std::swap(a.v, b.v);
				}
				break;
			case 8:
				c.op("swap references");
				{
					any_quantity_ref ra = *a.q, rb = *b.q;
					if (same)
					{
						if (r.chance(.5))
							swap(ra, rb);
						else
							a.q->swap(rb);
						std::swap(a.v, b.v);
					}
					else
						mismatch([&] { swap(ra, rb); }, "swap of references of different groups");
				}
				break;
			case 9:
			case 10:
			case 11:
			case 12:
			{
				int f = int(r.in(0, n_forms - 1));
				c.op("product");
				if (same)
				{
					any_quantity p = apply_product(f, *a.q, *b.q);
					Val pv = a.k->mul(a.v, b.v);
					is_elem(c, p, *a.k, pv, "product");
					verify("operand changed by out-of-place product");
					*a.q = std::move(p);
					a.v = pv;
				}
				else
					mismatch([&] { (void)apply_product(f, *a.q, *b.q); }, "product of different groups");
			}
			break;
			case 13:
			case 14:
			case 15:
			case 16:
			{
				c.op("in-place product");
				auto f = [&] {
					any_quantity_ref ra = *a.q;
					switch (o)
					{
					case 13: *a.q *= *b.q; break;
					case 14: *a.q += *b.q; break;
					case 15: ra.op(*b.q); break;
					default: a.q->op(*b.q, true); break;
					}
				};
				if (same)
				{
					f();
					a.v = a.k->mul(a.v, Val(b.v));
				}
				else
					mismatch(f, "in-place product of different groups");
			}
			break;
			case 17:
				c.op("inverse");
				if (r.chance(.5))
				{
					a.q->inverse_();
					a.v = a.k->inv(a.v);
				}
				else
				{
					is_elem(c, a.q->inverse(), *a.k, a.k->inv(a.v), "inverse value");
				}
				break;
			case 18:
				c.op("compare");
				{
					any_quantity_cref ra = *a.q, rb = *b.q;
					if (same)
					{
						c.check((ra == rb) == (a.v == b.v) and (ra != rb) == (a.v != b.v), "equality");
						c.check(ra.same_type(rb), "same_type");
					}
					else
					{
						c.check(not ra.same_type(rb), "same_type");
						mismatch([&] { (void)(ra == rb); }, "==");
						mismatch([&] { (void)(ra != rb); }, "!=");
						mismatch([&] { (void)(ra < rb); }, "<");
						mismatch([&] { (void)(ra > rb); }, ">");
						mismatch([&] { (void)distance2(ra, rb); }, "distance2");
						mismatch([&] { (void)distance(ra, rb); }, "distance");
					}
				}
				break;
			case 19:
				c.op("op_to");
				{
					any_quantity_cref ra = *a.q;
					any_quantity_ref rb = *b.q;
					if (i == j)
						break;
					if (same)
					{
						ra.op_to(rb);
						b.v = a.k->mul(a.v, b.v);
					}
					else
						mismatch([&] { ra.op_to(rb); }, "op_to of different groups");
				}
				break;
			case 20:
				c.op("clone");
				{
					any_quantity n(static_cast<const any_quantity &>(*b.q).get().clone());
					is_elem(c, n, *b.k, b.v, "clone");
					n.inverse_(); // must not touch the original
				}
				break;
			default:
				c.op("container element");
				{
					any_quantity_vector v(3, *b.q);
					any_quantity_ref e = v[1];
					is_elem(c, e, *b.k, b.v, "element value");
					e *= *b.q;
					is_elem(c, v[1], *b.k, b.k->mul(b.v, b.v), "element updated");
					is_elem(c, v[0], *b.k, b.v, "other element");
					is_elem(c, v[2], *b.k, b.v, "other element");
					*a.q = v[1];
					Val nv = b.k->mul(b.v, b.v);
					a.k = b.k;
					a.v = nv;
					e.inverse_();
				}
			}
			c.tag += " history";
			verify("state after operation");
		}
		c.describe("kinds " + std::to_string(nk) + " trace " + trace);
		c.seen(trace);
	});
}

// ---------------------------------------------------------------------------------------- container
namespace
{
struct MV
{
	const Kind *k; // null: default constructed (no type yet)
	std::vector<Val> v;
};
void same(Case &c, const any_quantity_vector &x, const MV &m, const char *what)
{
	auto det = [&] { return mon::cat("model size ", m.v.size(), " actual size ", x.size()); };
	c.check(x.size() == m.v.size(), what, det);
	c.check(x.empty() == m.v.empty(), what, det);
	if (!m.k)
		return;
	size_t i = 0;
	for (any_quantity_cref e : x)
	{
		c.check(i < m.v.size(), what, det);
		c.check(e == any_quantity(m.k->make(m.v[i])), what,
		        [&] { return mon::cat("element ", i, " of ", m.v.size(), " is ", fmt::format("{}", any_quantity(e)), " not ", vs(*m.k, m.v[i])); });
		++i;
	}
	c.check(i == m.v.size(), what, det);
	for (i = 0; i < m.v.size(); ++i)
	{
		c.check(x[i] == any_quantity_cref(m.k->make(m.v[i])), what);
		c.check(x.at(i) == any_quantity_cref(m.k->make(m.v[i])), what);
	}
	i = m.v.size();
	for (auto it = x.rbegin(); it != x.rend(); ++it)
	{
		c.check(i > 0, what);
		--i;
		c.check(*it == any_quantity_cref(m.k->make(m.v[i])), what);
	}
	c.check(i == 0, what);
	if (!m.v.empty())
	{
		c.check(x.front() == any_quantity_cref(m.k->make(m.v.front())), what);
		c.check(x.back() == any_quantity_cref(m.k->make(m.v.back())), what);
	}
	c.check(size_t(x.cend() - x.cbegin()) == m.v.size(), what);
}
} // namespace
PROPERTY(Q03)
{
	ctx.family("history", ctx.n(3000, 40000), [](Case &c) {
		Rng &r = c.rng;
		const Kind *k = &kinds()[r.in(0, kinds().size() - 1)];
		const Kind *k2 = &kinds()[r.in(0, kinds().size() - 1)];
		while (k2->mods == k->mods)
			k2 = &kinds()[r.in(0, kinds().size() - 1)];
		std::string trace = k->name + ":";
		std::vector<any_quantity_vector> x(3);
		std::vector<MV> m(3);
		for (int i = 0; i < 3; ++i)
		{
			int how = int(r.in(0, 8));
			size_t n = r.in(0, 6);
			MV mv{k, {}};
			switch (how)
			{
			case 0:
				c.op("ctor count");
				{
					Val v = k->random(r, 9);
					x[i] = any_quantity_vector(n, k->make(v));
					mv.v.assign(n, v);
				}
				break;
			case 1:
				c.op("ctor list");
				for (int j = 0; j < 3; ++j)
					mv.v.push_back(k->random(r, 9));
				x[i] = any_quantity_vector{k->make(mv.v[0]), k->make(mv.v[1]), k->make(mv.v[2])};
				break;
			case 2:
			case 3:
			case 4:
			case 6:
			case 7:
			case 8:
				if (how > 5)
					--how;
				c.op("ctor typed vector " + std::to_string(how - 2));
				for (size_t j = 0; j < n; ++j)
					mv.v.push_back(k->random(r, 9));
				x[i] = k->make_vec(mv.v, how - 2);
				break;
			default:
				c.op("ctor default");
				mv.k = nullptr;
			}
			m[i] = mv;
			same(c, x[i], m[i], "constructed content");
			trace += mon::cat("c", how, "n", mv.v.size());
		}
		int len = int(r.in(4, 25));
		for (int step = 0; step < len; ++step)
		{
			size_t i = r.in(0, 2), j = r.in(0, 2);
			auto &X = x[i];
			auto &M = m[i];
			int o = int(r.in(0, 27));
			size_t n = M.v.size();
			Val v = k->random(r, 9);
			any_quantity q = k->make(v);
			any_quantity wrong = k2->make(k2->random(r, 9));
			trace += mon::cat(" ", o, "/", n);
			switch (o)
			{
			case 0:
			case 1:
				c.op("push_back");
				if (M.k and n and r.chance(.3))
				{
					size_t p = r.in(0, n - 1);
					v = M.v[p];
					X.push_back(X[p]); // aliasing argument
				}
				else
					X.push_back(q);
				M.k = k;
				M.v.push_back(v);
				break;
			case 2:
				if (!M.k or !n)
					break;
				c.op("pop_back");
				X.pop_back();
				M.v.pop_back();
				break;
			case 3:
			case 4:
				if (!M.k)
					break;
				c.op("insert one");
				{
					size_t p = r.in(0, n);
					any_quantity_vector::iterator it;
					if (n and r.chance(.3))
					{
						size_t s = r.in(0, n - 1);
						v = M.v[s];
						it = X.insert(X.cbegin() + p, X[s]);
					}
					else
						it = X.insert(X.cbegin() + p, q);
					c.check(it - X.begin() == std::ptrdiff_t(p), "returned iterator");
					M.v.insert(M.v.begin() + p, v);
				}
				break;
			case 5:
				if (!M.k)
					break;
				c.op("insert count");
				{
					size_t p = r.in(0, n), cnt = r.in(0, 3);
					auto it = X.insert(X.cbegin() + p, cnt, q);
					c.check(it - X.begin() == std::ptrdiff_t(p), "returned iterator");
					M.v.insert(M.v.begin() + p, cnt, v);
				}
				break;
			case 6:
			case 7:
				if (!M.k or !m[j].k or i == j)
					break;
				c.op(o == 6 ? "insert range" : "insert reversed range");
				{
					size_t p = r.in(0, n), s = m[j].v.size(), b = r.in(0, s), e = r.in(b, s);
					const any_quantity_vector &Y = x[j];
					any_quantity_vector::iterator it;
					std::vector<Val> ins;
					if (o == 6)
					{
						it = X.insert(X.cbegin() + p, Y.cbegin() + b, Y.cbegin() + e);
						ins.assign(m[j].v.begin() + b, m[j].v.begin() + e);
					}
					else
					{
						it = X.insert(X.cbegin() + p, Y.crbegin() + b, Y.crbegin() + e);
						ins.assign(m[j].v.rbegin() + b, m[j].v.rbegin() + e);
					}
					c.check(it - X.begin() == std::ptrdiff_t(p), "returned iterator");
					M.v.insert(M.v.begin() + p, ins.begin(), ins.end());
				}
				break;
			case 8:
			case 9:
				if (!M.k or !n)
					break;
				c.op("erase one");
				{
					size_t p = r.in(0, n - 1);
					auto it = X.erase(X.cbegin() + p);
					c.check(it - X.begin() == std::ptrdiff_t(p), "returned iterator");
					M.v.erase(M.v.begin() + p);
				}
				break;
			case 10:
				if (!M.k)
					break;
				c.op("erase range");
				{
					size_t b = r.in(0, n), e = r.in(b, n);
					auto it = X.erase(X.cbegin() + b, X.cbegin() + e);
					c.check(it - X.begin() == std::ptrdiff_t(b), "returned iterator");
					M.v.erase(M.v.begin() + b, M.v.begin() + e);
				}
				break;
			case 11:
				if (!M.k)
				{
					c.op("resize untyped");
					c.must_throw([&] { X.resize(3); }, "resize without a value on an untyped vector");
					break;
				}
				c.op("resize");
				{
					size_t s = r.in(0, 8);
					X.resize(s);
					M.v.resize(s, k->neutral());
				}
				break;
			case 12:
				c.op("resize value");
				{
					size_t s = r.in(0, 8);
					X.resize(s, q);
					M.k = k;
					M.v.resize(s, v);
				}
				break;
			case 13:
				c.op("clear");
				X.clear();
				M.v.clear();
				break;
			case 14:
				if (!M.k)
					break;
				c.op("reserve");
				X.reserve(n + r.in(0, 20));
				c.check(X.capacity() >= n, "capacity");
				if (r.chance(.5))
					X.shrink_to_fit();
				break;
			case 15:
				c.op("copy");
				{
					any_quantity_vector cp(x[j]);
					same(c, cp, m[j], "copy content");
					if (m[j].k and cp.size())
					{
						cp[0].inverse_();
						cp.push_back(q);
						same(c, x[j], m[j], "original changed through its copy");
					}
					if (i != j)
					{
						X = x[j];
						M = m[j];
					}
				}
				break;
			case 16:
				c.op("self copy");
				X = any_quantity_vector(X);
				X = static_cast<const any_quantity_vector &>(X);
				break;
			case 17:
				if (i == j)
					break;
				c.op("move");
				X = std::move(x[j]);
				M = m[j];
				x[j] = any_quantity_vector(2, q);
				m[j] = MV{k, {v, v}};
				break;
			case 18:
				c.op("swap");
				if (r.chance(.5))
					X.swap(x[j]);
				else
					swap(X, x[j]);
				std::swap(M, m[j]);
				break;
			case 19:
				c.op("compare");
				if (M.k and m[j].k)
				{
					c.check((X == x[j]) == (M.v == m[j].v), "==");
					c.check((X != x[j]) == (M.v != m[j].v), "!=");
					any_quantity_vector cp(X);
					c.check(cp == X and not(cp != X), "copy compares equal");
				}
				break;
			case 20:
				if (!M.k or !n)
					break;
				c.op("assign element");
				{
					size_t p = r.in(0, n - 1);
					switch (r.in(0, 4))
					{
					case 0: X[p] = any_quantity_cref(q); break;
					case 1: X.at(p) = any_quantity_cref(q); break;
					case 2: *(X.begin() + p) = any_quantity_cref(q); break;
					case 3: *(X.rbegin() + (n - 1 - p)) = any_quantity_cref(q); break;
					default:
						X[p] *= q;
						v = k->mul(M.v[p], v);
					}
					M.v[p] = v;
				}
				break;
			case 21:
				if (!M.k)
					break;
				c.op("out of range at");
				c.must_throw([&] { (void)X.at(n); }, "at(size())");
				c.must_throw([&] { (void)X.at(n + r.in(1, 100)); }, "at(>size())");
				break;
			case 22:
			case 23:
				if (!M.k)
					break;
				c.op("wrong type");
				switch (r.in(0, 5))
				{
				case 0: c.must_throw_as<std::bad_cast>([&] { X.push_back(wrong); }, "push_back of another group"); break;
				case 1: c.must_throw_as<std::bad_cast>([&] { X.insert(X.cbegin() + r.in(0, n), wrong); }, "insert of another group"); break;
				case 2: c.must_throw_as<std::bad_cast>([&] { X.insert(X.cbegin() + r.in(0, n), 2, wrong); }, "insert of another group"); break;
				case 3: c.must_throw_as<std::bad_cast>([&] { X.resize(n + 2, wrong); }, "resize with another group"); break;
				case 4:
					if (n)
						c.must_throw_as<std::bad_cast>([&] { X[r.in(0, n - 1)] = any_quantity_cref(wrong); }, "element assignment of another group");
					break;
				default:
				{
					any_quantity_vector w(2, wrong);
					c.must_throw_as<std::bad_cast>([&] { X.insert(X.cbegin() + r.in(0, n), w.cbegin(), w.cend()); }, "insert range of another group");
				}
				}
				break;
			case 24:
			case 25:
			case 26:
				if (!M.k)
					break;
				c.op("permute");
				{
					// split the content into consecutive groups and permute the groups
					std::vector<int64_t> rep, perm;
					size_t left = n;
					while (left)
					{
						int64_t g = r.in(0, left);
						rep.push_back(g);
						left -= g;
					}
					for (size_t p = 0; p < rep.size(); ++p)
						perm.push_back(p);
					r.shuffle(perm);
					std::vector<Val> e;
					for (auto p : perm)
					{
						size_t st = 0;
						for (int64_t l = 0; l < p; ++l)
							st += rep[l];
						for (int64_t l = 0; l < rep[p]; ++l)
							e.push_back(M.v[st + l]);
					}
					auto y = X.permute(perm.data(), perm.data() + perm.size(), rep);
					same(c, y, MV{k, e}, "permuted content");
					if (r.chance(.5))
					{
						X = y;
						M.v = e;
					}
				}
				break;
			default:
				if (!M.k or !n)
					break;
				c.op("mutable iteration");
				{
					for (any_quantity_ref e : X)
						e *= q;
					for (auto &e : M.v)
						e = k->mul(e, v);
					auto it = X.begin();
					it += n - 1;
					c.check(*it == X.back(), "iterator arithmetic");
				}
			}
			c.tag += " (history)";
			for (int l = 0; l < 3; ++l)
				same(c, x[l], m[l], "state after operation");
		}
		c.describe(trace);
		c.seen(trace);
	});
	ctx.family("typed vector", ctx.n(2000, 20000), [](Case &c) {
		Rng &r = c.rng;
		const Kind &k = kinds()[r.in(0, kinds().size() - 1)];
		std::vector<Val> a, b;
		for (int64_t n = r.in(0, 6); n; --n)
			a.push_back(k.random(r, 3));
		b = a;
		int change = int(r.in(0, 3));
		if (change == 1 and !b.empty())
			b[r.in(0, b.size() - 1)] = k.random(r, 3);
		if (change == 2)
			b.push_back(k.random(r, 3));
		if (change == 3)
			r.shuffle(b);
		c.op("typed vector");
		c.describe(mon::cat(k.name, " n=", a.size(), " change ", change));
		k.typed_vec(c, a, b);
		c.seen(mon::cat(k.name, a.size(), change, a == b));
	});
	ctx.fixed("empty list", [](Case &c) {
		c.op("empty list");
		std::initializer_list<any_quantity> l;
		any_quantity_vector e(l), d;
		c.check(e.size() == 0 and e.empty() and e == d, "vector made of an empty list");
		e.push_back(any_quantity(Z(4)));
		c.check(e.size() == 1, "push_back in a vector made of an empty list");
		c.seen("empty list");
	});
	ctx.fixed("default constructed", [](Case &c) {
		any_quantity_vector e;
		c.op("size");
		c.check(e.size() == 0 and e.empty(), "size of default constructed");
		c.op("copy");
		any_quantity_vector f(e);
		c.check(f.size() == 0, "copy of default constructed");
		c.op("compare");
		c.check(e == f and not(e != f), "default constructed vectors are equal");
		any_quantity_vector g(2, any_quantity(Z(1)));
		c.check(not(e == g) and not(g == e) and e != g and g != e, "default constructed differs from non-empty");
		c.op("iterate");
		for (auto it = e.begin(); it != e.end(); ++it)
			c.fail("iterates");
		const auto &ce = e;
		for (any_quantity_cref q : ce)
		{
			(void)q;
			c.fail("iterates");
		}
		c.op("access");
		c.must_throw([&] { (void)ce.at(0); }, "at on default constructed");
		e.clear();
		e.shrink_to_fit();
		e.push_back(any_quantity(Z(4)));
		c.check(e.size() == 1 and e[0] == any_quantity_cref(any_quantity(Z(4))), "push_back on default constructed");
		c.seen("default");
	});
}
