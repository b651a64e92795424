// Random matrix product networks and their dense expansions.
#pragma once
#include "bt.h"
#include "dense.h"
#include "MPT.h"
namespace net
{
using namespace bt;
using quantit::bMPO;
using quantit::bMPS;
using quantit::bMPT;
using quantit::MPO;
using quantit::MPS;
using quantit::MPT;
using TV = std::vector<Tensor>;

inline TV tensors(const MPS &m) { return {m.begin(), m.end()}; }
inline TV tensors(const MPO &m) { return {m.begin(), m.end()}; }
inline TV tensors(const MPT &m) { return {m.begin(), m.end()}; }
template <class B>
TV tensors_b(const B &m)
{
	TV o;
	for (auto &t : m)
		o.push_back(dense_of(t));
	return o;
}
inline TV tensors(const bMPS &m) { return tensors_b(m); }
inline TV tensors(const bMPO &m) { return tensors_b(m); }
inline TV tensors(const bMPT &m) { return tensors_b(m); }
// {left edge, amplitudes, right edge}; sites in row major order
inline Tensor expand_mps(const TV &t)
{
	Tensor acc = torch::eye(t[0].size(0), t[0].options()); // l, r
	acc = acc.reshape({t[0].size(0), 1, t[0].size(0)});
	for (auto &x : t)
	{
		auto l = x.size(0), p = x.size(1), r = x.size(2);
		auto L = acc.size(0), n = acc.size(1);
		acc = torch::matmul(acc.reshape({L * n, l}), x.reshape({l, p * r})).reshape({L, n * p, r});
	}
	return acc;
}
// {left, right, out..., in...} flattened as {left, out, in, right}
inline Tensor expand_mpo(const TV &t)
{
	auto l0 = t[0].size(0);
	Tensor acc = torch::eye(l0, t[0].options()).reshape({l0, 1, 1, l0});
	for (auto &x : t)
	{
		auto l = x.size(0), o = x.size(1), r = x.size(2), i = x.size(3);
		auto L = acc.size(0), N = acc.size(1), M = acc.size(2);
		auto y = x.permute({0, 1, 3, 2}).reshape({l, o * i * r});
		acc = torch::matmul(acc.reshape({L * N * M, l}), y).reshape({L, N, M, o, i, r});
		acc = acc.permute({0, 1, 3, 2, 4, 5}).reshape({L, N * o, M * i, r});
	}
	return acc;
}
inline double frob(const Tensor &t) { return t.numel() ? torch::norm(t.abs().to(torch::kDouble)).item<double>() : 0.; }
inline torch::ScalarType dt_of(const Tensor &t) { return t.scalar_type(); }
inline double eps_of(torch::ScalarType dt) { return dt == torch::kFloat ? 2e-4 : 1e-9; }

// ---- dense networks
inline MPS random_mps(Rng &r, int L, torch::ScalarType dt, bool open_edges, int maxp = 3, int maxb = 4)
{
	TV t;
	int64_t b = open_edges ? r.in(1, 3) : 1;
	for (int i = 0; i < L; ++i)
	{
		int64_t n = i + 1 < L ? r.in(1, maxb) : (open_edges ? r.in(1, 3) : 1);
		t.push_back(random_values(r, {b, r.in(1, maxp), n}, dt));
		b = n;
	}
	return MPS(t);
}
inline MPS mps_like(Rng &r, const MPS &a, torch::ScalarType dt, bool open_edges, int maxb = 4)
{
	TV t;
	int L = a.size();
	int64_t b = open_edges ? r.in(1, 3) : 1;
	for (int i = 0; i < L; ++i)
	{
		int64_t n = i + 1 < L ? r.in(1, maxb) : (open_edges ? r.in(1, 3) : 1);
		t.push_back(random_values(r, {b, a[i].size(1), n}, dt));
		b = n;
	}
	return MPS(t);
}
// ---- block networks
struct BNet
{
	const Grp *g = nullptr;
	std::vector<Dim> phys;  // the physical dimension of every site
	std::vector<Dim> bonds; // bonds[i]: left dimension of site i; bonds[L]: inverse of the right dimension of the last site
	std::vector<Val> sel;   // of every site
	int size() const { return phys.size(); }
	std::string str() const
	{
		std::string s = g->name;
		auto dim = [](const Dim &d) {
			std::string o = "{";
			for (auto &x : d)
				o += cat(x.size, ":", vstr(x.q), " ");
			return o + "}";
		};
		for (size_t i = 0; i < phys.size(); ++i)
			s += cat(" ", dim(bonds[i]), "-", dim(phys[i]), "sel", vstr(sel[i]));
		return s + "-" + dim(bonds.back());
	}
};
// charges that the right bond can have: sel / (left * phys)
inline std::vector<Val> reachable(const Grp &g, const Dim &left, const Dim &phys, const Val &sel)
{
	std::set<Val> s;
	for (auto &l : left)
		for (auto &p : phys)
			s.insert(g.mul(sel, g.inv(g.mul(l.q, p.q))));
	return {s.begin(), s.end()};
}
inline Dim pick_bond(Rng &r, const Grp &g, const std::vector<Val> &can, int maxsec, int maxsize, bool single)
{
	Dim d;
	int n = single ? 1 : r.in(1, maxsec);
	auto c = can;
	if (c.empty())
		throw std::runtime_error("no reachable charge");
	r.shuffle(c);
	for (int i = 0; i < n; ++i)
		d.push_back({single ? 1 : r.in(1, maxsize), r.chance(0.93) ? c[i % c.size()] : g.random(r, 2)});
	return d;
}
inline Spec site_spec(const BNet &n, int i)
{
	Spec s;
	s.g = n.g;
	s.lay = {n.bonds[i], n.phys[i], inv(*n.g, n.bonds[i + 1])};
	s.sel = n.sel[i];
	return s;
}
// bond structure of a state with the given physical dimensions. The selection rules are on arbitrary sites.
inline BNet random_bnet(Rng &r, const Grp &g, const std::vector<Dim> &phys, const Val *total = nullptr, bool neutral_edge = false, int maxsec = 3, int maxsize = 2)
{
	BNet n;
	n.g = &g;
	n.phys = phys;
	int L = phys.size();
	n.sel.assign(L, g.neutral());
	if (!neutral_edge && r.chance(0.25))
		for (auto &s : n.sel)
			if (r.chance(0.4))
				s = g.random(r, 1);
	n.bonds.push_back({{1, neutral_edge || r.chance(0.7) ? g.neutral() : g.random(r, 1)}});
	for (int i = 0; i < L; ++i)
	{ // the selection rule of site i; right dimension r: l*p*r = sel; next left = inverse of r
		auto can = reachable(g, n.bonds[i], phys[i], n.sel[i]);
		auto d = pick_bond(r, g, can, maxsec, maxsize, i + 1 == L);
		n.bonds.push_back(inv(g, d));
	}
	if (total)
	{ // last bond neutral: total charge in the first site
	}
	return n;
}
inline bMPS make_bmps(Rng &r, const BNet &n, torch::ScalarType dt, double density = 0.85)
{
	std::vector<btensor> t;
	for (int i = 0; i < n.size(); ++i)
	{
		MakeOpt mo;
		mo.density = density;
		t.push_back(make(r, site_spec(n, i), dt, mo));
	}
	return bMPS(t);
}
inline std::vector<Dim> random_phys(Rng &r, const Grp &g, int L, int maxsec = 3, int maxsize = 2)
{
	std::vector<Dim> p;
	for (int i = 0; i < L; ++i)
	{
		p.push_back(i > 0 && r.chance(0.6) ? p.back() : random_dim(r, g, maxsec, maxsize, 1));
		for (auto &s : p.back()) // sites have no empty sections
			s.size = std::max<int64_t>(s.size, 1);
	}
	return p;
}
// operator network on the physical dimensions: {bond, phys, bond', inverse phys}
inline Spec op_spec(const Grp &g, const Dim &left, const Dim &phys, const Dim &right, const Val &sel)
{
	Spec s;
	s.g = &g;
	s.lay = {left, phys, inv(g, right), inv(g, phys)};
	s.sel = sel;
	return s;
}
inline bMPO make_bmpo(Rng &r, const Grp &g, const std::vector<Dim> &phys, torch::ScalarType dt, bool wide_edges, std::pair<Dim, Dim> *edges = nullptr, double density = 0.85)
{
	int L = phys.size();
	std::vector<btensor> t;
	auto bond = [&](bool edge) {
		Dim d;
		int n = edge && !wide_edges ? 1 : r.in(1, 3);
		for (int i = 0; i < n; ++i)
			d.push_back({edge && !wide_edges ? 1 : r.in(1, 2), edge || r.chance(0.4) ? g.neutral() : g.random(r, 1)});
		return d;
	};
	Dim left = bond(true);
	if (edges)
		edges->first = left;
	for (int i = 0; i < L; ++i)
	{
		Dim right = bond(i + 1 == L);
		MakeOpt mo;
		mo.density = density;
		t.push_back(make(r, op_spec(g, left, phys[i], right, g.neutral()), dt, mo));
		left = right;
	}
	if (edges)
		edges->second = left;
	return bMPO(t);
}
} // namespace net
