// M01: the Heisenberg networks.  M02: the Hubbard networks.
// Both are expanded and compared with matrices assembled from Kronecker products (Heisenberg) and from fermionic
// operators acting on occupation numbers (Hubbard), which share nothing with the library.
#include "net.h"
#include "models.h"
#include <array>
using namespace net;
namespace
{
Tensor kron2(const Tensor &a, const Tensor &b)
{
	return (a.unsqueeze(1).unsqueeze(3) * b.unsqueeze(0).unsqueeze(2)).reshape({a.size(0) * b.size(0), a.size(1) * b.size(1)});
}
Tensor matrix_of(Case &c, const TV &t)
{
	auto e = expand_mpo(t);
	c.check(e.size(0) == 1 && e.size(3) == 1, "edges of the operator have size one", [&] { return vstr(e.sizes()); });
	return e[0].select(2, 0).to(torch::kComplexDouble);
}
// sum_i S_i.S_{i+1}, assembled from the action on basis states: (P_{i,i+1} - 1/2) / 2 with P the exchange of two spins
Tensor spin_chain(int L)
{
	int64_t n = int64_t(1) << L;
	auto h = torch::zeros({n, n}, torch::kDouble);
	auto a = h.accessor<double, 2>();
	for (int64_t s = 0; s < n; ++s)
		for (int i = 0; i + 1 < L; ++i)
		{
			int64_t x = (s >> i) & 1, y = (s >> (i + 1)) & 1;
			int64_t s2 = s ^ (x == y ? 0 : (int64_t(3) << i));
			a[s2][s] += 0.5;
			a[s][s] -= 0.25;
		}
	return h;
}
struct Shape
{
	const Grp *g;
	Dim dim;
	bool admissible = true;
	std::string str() const
	{
		std::string h = g->name + " {";
		for (auto &x : dim)
			h += cat(x.size, ":", vstr(x.q), " ");
		return h + "}";
	}
};
// sections out of charges per element; neighbours with the same charge may share a section
Dim sections(Rng &r, const std::vector<Val> &q)
{
	Dim d;
	for (size_t i = 0; i < q.size(); ++i)
		if (!d.empty() && d.back().q == q[i] && r.chance(0.7))
			++d.back().size;
		else
			d.push_back({1, q[i]});
	return d;
}
btensor spec_tensor(const Shape &s, torch::TensorOptions opt)
{
	Spec p;
	p.g = s.g;
	p.lay = {s.dim};
	p.sel = s.g->neutral();
	return btensor(p.vecs(), p.selq(), opt);
}
void block_operator(Case &c, const bMPO &H, const Shape &s, int L, torch::ScalarType dt)
{
	c.check(H.size() == size_t(L), "length of the operator");
	c.check(H.check_ranks(), "the block operator isn't a valid network");
	Spec p;
	p.g = s.g;
	p.lay = {s.dim};
	p.sel = s.g->neutral();
	auto want = layout_of(btensor(p.vecs(), p.selq()));
	p.lay = {inv(*s.g, s.dim)};
	auto winv = layout_of(btensor(p.vecs(), p.selq()));
	auto neutral = s.g->make(s.g->neutral());
	for (int i = 0; i < L; ++i)
	{
		validate(c, H[i], "tensor of the operator");
		auto l = layout_of(H[i]);
		c.check(l.size() == 4 && l[1] == want[0] && l[3] == winv[0], "physical dimensions of the operator", [&] { return show(H[i]); });
		c.check(sel_of(H[i]) == neutral, "an operator tensor is not neutral", [&] { return show(H[i]); });
		c.check(dtype_of(H[i]) == dt, "scalar type of the operator", [&] { return cat(torch::toString(dtype_of(H[i])), " instead of ", torch::toString(dt)); });
	}
	auto first = layout_of(H[0])[0], last = layout_of(H[L - 1])[2];
	c.check(first.size() == 1 && first[0].first == 1 && first[0].second == neutral, "left edge of the operator", [&] { return show(H[0]); });
	c.check(last.size() == 1 && last[0].first == 1 && last[0].second == neutral, "right edge of the operator", [&] { return show(H[L - 1]); });
}
void conserves(Case &c, const Tensor &m, const Shape &s, int L)
{ // no matrix element between configurations of different charges
	std::vector<Val> q{s.g->neutral()};
	for (int i = 0; i < L; ++i)
	{
		std::vector<Val> n;
		for (auto &x : q)
			for (auto &d : s.dim)
				for (int64_t k = 0; k < d.size; ++k)
					n.push_back(s.g->mul(x, d.q));
		q = n;
	}
	auto a = m.abs().contiguous();
	auto acc = a.accessor<double, 2>();
	for (size_t i = 0; i < q.size(); ++i)
		for (size_t j = 0; j < q.size(); ++j)
			if (acc[i][j] != 0)
				c.check(q[i] == q[j], "the operator doesn't conserve the charges", [&] { return cat("element ", i, ",", j); });
}
double num(Rng &r)
{
	switch (r.in(0, 5))
	{
	case 0: return 0;
	case 1: return 1;
	case 2: return -1;
	case 3: return r.in(-9, 9);
	default: return 10 * r.sym();
	}
}
void hermitian(Case &c, const Tensor &m, double tol)
{
	c.check(frob(m - m.conj().t()) <= tol, "the operator is not Hermitian");
}
void compare(Case &c, const Tensor &got, const Tensor &want, double tol, const char *what)
{
	c.check(got.sizes() == want.sizes(), what, [&] { return cat("shape ", vstr(got.sizes())); });
	auto e = frob(got - want.to(got.scalar_type()));
	c.check(e <= tol, what, [&] { return cat("difference ", e, " tolerance ", tol); });
}
void heisenberg(Case &c)
{
	Rng &r = c.rng;
	auto def = torch::get_default_dtype_as_scalartype();
	int L = r.in(1, 7);
	double J = num(r);
	auto ref = spin_chain(L) * -J;
	double tol = (def == torch::kFloat ? 3e-6 : 1e-12) * (1 + std::abs(J)) * (int64_t(1) << L) * L;
	bool scalar = r.chance(0.4), integral = J == std::floor(J) && r.chance(0.5);
	auto tJ = integral ? torch::full({}, int64_t(J), torch::kLong) : torch::full({}, J, r.chance(0.5) ? torch::kDouble : torch::kFloat);
	if (!integral && tJ.scalar_type() == torch::kFloat && def == torch::kDouble)
		tol += 1e-6 * (1 + std::abs(J)) * (int64_t(1) << L) * L;
	torch::Scalar sJ = integral ? torch::Scalar(int64_t(J)) : torch::Scalar(J);
	Tensor keep = tJ.clone();
	Shape s;
	s.g = &pick_group(r);
	auto q0 = s.g->random(r, 2), q1 = r.chance(0.2) ? q0 : s.g->random(r, 2);
	s.dim = sections(r, {q0, q1});
	auto sopt = torch::TensorOptions(r.chance(0.5) ? torch::kDouble : torch::kFloat);
	auto shape = spec_tensor(s, sopt);
	c.describe(cat("L ", L, " J ", J, scalar ? " scalar" : " tensor", integral ? " integer " : " ", s.str(), torch::toString(def)));
	c.seen(cat(L, J, s.str()));
	c.op("dense");
	auto H = scalar ? quantit::Heisenberg(sJ, L) : quantit::Heisenberg(tJ, L);
	c.check(H.size() == size_t(L) && H.check_ranks(), "length of the operator");
	for (auto &t : H)
		c.check(t.scalar_type() == def, "scalar type of the operator");
	auto m = matrix_of(c, tensors(H));
	compare(c, m, ref, tol, "the dense network is another operator");
	hermitian(c, m, tol);
	c.op("block");
	auto B = scalar ? quantit::Heisenberg(sJ, L, shape) : quantit::Heisenberg(tJ, L, shape);
	block_operator(c, B, s, L, def);
	auto mb = matrix_of(c, tensors(B));
	compare(c, mb, ref, tol, "the block network is another operator");
	compare(c, mb, m, tol, "block and dense networks differ");
	hermitian(c, mb, tol);
	conserves(c, mb, s, L);
	c.check(torch::equal(tJ, keep), "the coupling was modified");
	c.op("unscaled");
	// details: J sum sigma.sigma, in integers for an integral coupling
	if (integral)
	{
		auto I = quantit::details::Heisenberg_impl(tJ, L);
		for (auto &t : I)
			c.check(!t.is_floating_point(), "integral coupling");
		TV t;
		for (auto &x : I)
			t.push_back(x.to(torch::kDouble));
		compare(c, matrix_of(c, t), spin_chain(L) * (4 * J), 1e-9, "the integral network is another operator");
	}
	else
	{
		auto I = quantit::details::Heisenberg_impl(tJ, L);
		compare(c, matrix_of(c, tensors(I)), spin_chain(L) * (4 * J), 4 * tol, "the unscaled network is another operator");
	}
	c.op("refused");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Heisenberg(torch::ones({2}), L); }, "coupling of rank 1");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Heisenberg(torch::ones({1}), L, shape); }, "coupling of rank 1");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Heisenberg(tJ, 0); }, "empty chain");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Heisenberg(tJ, 0, shape); }, "empty chain");
	Shape bad = s;
	if (r.chance(0.5))
		bad.dim = {{1, q0}};
	else
		bad.dim.push_back({r.in(1, 2), q1});
	auto bshape = spec_tensor(bad, sopt);
	c.must_throw([&] { quantit::Heisenberg(tJ, L, bshape); }, "physical dimension that isn't a spin 1/2");
}
// occupation number states: bit 2i: up on site i, bit 2i+1: down on site i
int anticommute(int64_t state, int mode)
{
	int n = 0;
	for (int k = 0; k < mode; ++k)
		n += (state >> k) & 1;
	return n % 2 ? -1 : 1;
}
// index of the occupation number state in the basis of the networks, site 0 the most significant
int64_t basis_index(int64_t state, int L)
{
	int64_t idx = 0;
	for (int i = 0; i < L; ++i)
		idx = idx * 4 + ((state >> (2 * i)) & 3); // 0 empty, 1 up, 2 down, 3 both
	return idx;
}
// -t sum (c+_i c_j + h.c.) + U n n - mu N; the phase of the doubly occupied state is a convention
Tensor hubbard_matrix(int L, double t, double U, double mu, bool flip)
{
	int64_t n = int64_t(1) << (2 * L);
	auto h = torch::zeros({n, n}, torch::kDouble);
	auto a = h.accessor<double, 2>();
	auto phase = [&](int64_t s) {
		int p = 1;
		for (int i = 0; flip && i < L; ++i)
			if (((s >> (2 * i)) & 3) == 3)
				p = -p;
		return p;
	};
	for (int64_t s = 0; s < n; ++s)
	{
		auto si = basis_index(s, L);
		for (int i = 0; i < L; ++i)
		{
			int up = (s >> (2 * i)) & 1, dn = (s >> (2 * i + 1)) & 1;
			a[si][si] += U * up * dn - mu * (up + dn);
		}
		for (int i = 0; i + 1 < L; ++i)
			for (int spin = 0; spin < 2; ++spin)
				for (int dir = 0; dir < 2; ++dir)
				{
					int from = 2 * (i + dir) + spin, to = 2 * (i + 1 - dir) + spin;
					if (!((s >> from) & 1) || ((s >> to) & 1))
						continue;
					auto mid = s ^ (int64_t(1) << from);
					auto end = mid ^ (int64_t(1) << to);
					int sign = anticommute(s, from) * anticommute(mid, to);
					a[basis_index(end, L)][si] += -t * sign * phase(s) * phase(end);
				}
	}
	return h;
}
void hubbard(Case &c)
{
	Rng &r = c.rng;
	auto def = torch::get_default_dtype_as_scalartype();
	int L = r.chance(0.15) ? 4 : r.in(1, 3);
	double U = num(r), mu = num(r);
	double tol = (def == torch::kFloat ? 3e-6 : 1e-12) * (2 + std::abs(U) + std::abs(mu)) * (int64_t(1) << (2 * L)) * L;
	bool scalar = r.chance(0.4);
	auto as_tensor = [&](double x) {
		return x == std::floor(x) && r.chance(0.3) ? torch::full({}, int64_t(x), torch::kLong) : torch::full({}, x, torch::kDouble);
	};
	auto tU = as_tensor(U), tmu = as_tensor(mu);
	Tensor kU = tU.clone(), kmu = tmu.clone();
	Shape s;
	s.g = &pick_group(r);
	auto q0 = r.chance(0.5) ? s.g->neutral() : s.g->random(r, 2), q1 = s.g->random(r, 2), q2 = r.chance(0.3) ? q1 : s.g->random(r, 2);
	auto q3 = s.g->mul(s.g->mul(q1, q2), s.g->inv(q0));
	if (r.chance(0.2))
	{
		auto x = s.g->random(r, 3);
		s.admissible = x == q3;
		q3 = x;
	}
	s.dim = sections(r, {q0, q1, q2, q3});
	auto shape = spec_tensor(s, torch::TensorOptions(r.chance(0.5) ? torch::kDouble : torch::kFloat));
	c.describe(cat("L ", L, " U ", U, " mu ", mu, " ", s.str(), s.admissible ? " " : " inadmissible ", torch::toString(def)));
	c.seen(cat(L, U, mu, s.str()));
	std::array<Tensor, 4> refs;
	for (int k = 0; k < 4; ++k)
		refs[k] = hubbard_matrix(L, k & 1 ? -1 : 1, U, mu, k & 2);
	c.op("dense");
	auto H = scalar ? quantit::Hubbard(torch::Scalar(U), torch::Scalar(mu), L) : quantit::Hubbard(tU, tmu, L);
	c.check(H.size() == size_t(L) && H.check_ranks(), "length of the operator");
	for (auto &t : H)
		c.check(t.scalar_type() == def, "scalar type of the operator");
	auto m = matrix_of(c, tensors(H));
	// the sign of the hopping and the phase of the doubly occupied state are conventions that leave the physics unchanged
	int conv = -1;
	double best = 1e300;
	for (int k = 0; k < 4; ++k)
	{
		auto e = m.sizes() == refs[k].sizes() ? frob(m - refs[k].to(torch::kComplexDouble)) : 1e300;
		if (e < best)
			best = e, conv = k;
	}
	c.check(best <= tol, "the dense network is another operator", [&] { return cat("difference ", best, " tolerance ", tol); });
	if (L > 1)
		c.count(cat("convention ", conv & 1 ? "+t" : "-t", conv & 2 ? " flipped pair" : ""));
	hermitian(c, m, tol);
	{ // particle number and spin
		Shape ns;
		ns.g = &group("ZxZ");
		ns.dim = {{1, {0, 0}}, {1, {1, 1}}, {1, {1, -1}}, {1, {2, 0}}};
		conserves(c, m, ns, L);
	}
	auto block = [&] { return scalar ? quantit::Hubbard(torch::Scalar(U), torch::Scalar(mu), L, shape) : quantit::Hubbard(tU, tmu, L, shape); };
	if (s.admissible)
	{
		c.op("block");
		auto B = block();
		block_operator(c, B, s, L, def);
		auto mb = matrix_of(c, tensors(B));
		compare(c, mb, m, tol, "block and dense networks differ");
		compare(c, mb, refs[conv], tol, "the block network is another operator");
		hermitian(c, mb, tol);
		conserves(c, mb, s, L);
	}
	else if (L > 1)
	{
		c.op("inadmissible");
		c.must_throw_as<std::invalid_argument>(block, "charges that the hopping doesn't conserve");
	}
	c.check(torch::equal(tU, kU) && torch::equal(tmu, kmu), "the parameters were modified");
	c.op("refused");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Hubbard(torch::ones({2}), tmu, L); }, "U of rank 1");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Hubbard(tU, torch::ones({1}), L, shape); }, "mu of rank 1");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Hubbard(tU, tmu, 0); }, "empty chain");
	c.must_throw_as<std::invalid_argument>([&] { quantit::Hubbard(tU, tmu, 0, shape); }, "empty chain");
	Shape bad = s;
	if (r.chance(0.5))
		bad.dim = sections(r, {q0, q1, q2});
	else
		bad.dim.push_back({1, q3});
	auto bshape = spec_tensor(bad, {});
	c.must_throw([&] { quantit::Hubbard(tU, tmu, L, bshape); }, "physical dimension that isn't an electron site");
}
} // namespace
PROPERTY(M01)
{
	ctx.family("heisenberg", ctx.n(3000, 40000), heisenberg);
}
PROPERTY(M02)
{
	ctx.family("hubbard", ctx.n(1500, 20000), hubbard);
}
