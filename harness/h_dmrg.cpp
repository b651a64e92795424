// D01: energies.  D02: the states DMRG leaves.  D03: limits and logging.
// Hamiltonians are built as networks and, independently, as matrices; their sector ground energies come from a dense
// eigenvalue solver. A recording logger observes every iteration.
#include "net.h"
#include "dmrg.h"
#include "dmrg_logger.h"
#include "models.h"
#include <climits>
using namespace net;
using quantit::dmrg_options;
namespace
{
Tensor kr(const Tensor &a, const Tensor &b)
{
	return (a.unsqueeze(1).unsqueeze(3) * b.unsqueeze(0).unsqueeze(2)).reshape({a.size(0) * b.size(0), a.size(1) * b.size(1)});
}
std::vector<Val> elements(const Dim &d)
{
	std::vector<Val> o;
	for (auto &s : d)
		for (int64_t k = 0; k < s.size; ++k)
			o.push_back(s.q);
	return o;
}
struct Problem
{
	const Grp *g = nullptr;
	int L = 0;
	torch::ScalarType dt = torch::kDouble;
	std::vector<Dim> phys;
	MPO H;
	bMPO B;
	Tensor M; // complex double
	double norm = 0;
	std::string desc;
	bool symmetric = false; // a symmetry that makes equal values on the bonds
	std::vector<Val> configs; // total charge of every basis state
	void finish()
	{
		std::vector<Val> q{g->neutral()};
		for (auto &p : phys)
		{
			std::vector<Val> n;
			for (auto &x : q)
				for (auto &e : elements(p))
					n.push_back(g->mul(x, e));
			q = n;
		}
		configs = q;
		norm = frob(M) / std::sqrt(double(M.size(0)));
		auto w = torch::linalg_eigvalsh(M);
		norm = std::max(std::abs(w[0].item<double>()), std::abs(w[-1].item<double>()));
	}
	// lowest energy among the states of this total charge
	std::vector<double> spectrum(const Val *q) const
	{
		std::vector<int64_t> idx;
		for (size_t i = 0; i < configs.size(); ++i)
			if (!q || configs[i] == *q)
				idx.push_back(i);
		if (idx.empty())
			return {};
		auto t = torch::tensor(idx);
		auto w = torch::linalg_eigvalsh(M.index_select(0, t).index_select(1, t)).contiguous();
		return {w.data_ptr<double>(), w.data_ptr<double>() + w.numel()};
	}
};
// operators {out, in} that add the charge q
Tensor charged_op(Rng &r, const Grp &g, const Dim &p, const Val &q, torch::ScalarType dt)
{
	auto e = elements(p);
	int64_t n = e.size();
	auto t = random_values(r, {n, n}, dt).clone();
	for (int64_t o = 0; o < n; ++o)
		for (int64_t i = 0; i < n; ++i)
			if (g.mul(q, e[i]) != e[o])
				t.index_put_({o, i}, 0);
	return t;
}
Tensor embed(const std::vector<int64_t> &dims, int site, const Tensor &a, const Tensor *b)
{
	Tensor m = torch::ones({1, 1}, torch::kComplexDouble);
	for (int i = 0; i < int(dims.size()); ++i)
	{
		if (i == site)
			m = kr(m, a.to(torch::kComplexDouble));
		else if (b && i == site + 1)
			m = kr(m, b->to(torch::kComplexDouble));
		else
			m = kr(m, torch::eye(dims[i], torch::kComplexDouble));
	}
	return m;
}
Problem random_problem(Rng &r, int64_t maxdim)
{
	Problem p;
	p.g = &pick_group(r);
	auto &g = *p.g;
	p.dt = r.chance(0.7) ? torch::kDouble : r.chance(0.5) ? torch::kComplexDouble : torch::kFloat;
	p.L = r.in(2, 6);
	p.phys = random_phys(r, g, p.L, 3, 2);
	auto total = [&] {
		int64_t n = 1;
		for (auto &d : p.phys)
			n *= dim_size(d);
		return n;
	};
	while (total() > maxdim && p.L > 2)
		p.phys.pop_back(), --p.L;
	std::vector<int64_t> dims;
	for (auto &d : p.phys)
		dims.push_back(dim_size(d));
	int64_t n = total();
	p.M = torch::zeros({n, n}, torch::kComplexDouble);
	struct Term
	{
		Tensor a, b;
		Val q;
	};
	std::vector<std::vector<Term>> terms(p.L);
	std::vector<Tensor> onsite(p.L);
	double coupling = r.chance(0.1) ? 0 : 1; // decoupled sites
	for (int i = 0; i < p.L; ++i)
	{
		auto o = charged_op(r, g, p.phys[i], g.neutral(), p.dt);
		o = (o + o.t().conj()) * (r.chance(0.2) ? 0.1 : 0.5);
		if (r.chance(0.2)) // a constant: energies of any sign
			o = o + (r.chance(0.5) ? 3 : -3) * torch::eye(dims[i], o.options());
		onsite[i] = o;
		p.M += embed(dims, i, o, nullptr);
		if (i + 1 == p.L)
			continue;
		int K = r.in(1, 2);
		for (int k = 0; k < K; ++k)
		{
			auto e = elements(p.phys[i]);
			Val q = g.neutral();
			if (r.chance(0.8))
				q = g.mul(r.pick(e), g.inv(r.pick(e)));
			auto a = charged_op(r, g, p.phys[i], q, p.dt) * coupling;
			auto b = charged_op(r, g, p.phys[i + 1], g.inv(q), p.dt);
			auto ad = a.t().conj().contiguous(), bd = b.t().conj().contiguous();
			terms[i].push_back({a, b, q});
			terms[i].push_back({ad, bd, g.inv(q)});
			p.M += embed(dims, i, a, &b) + embed(dims, i, ad, &bd);
		}
	}
	// state machine: 0 start, 1.. terms, last: done; the positions on a bond are shuffled
	std::vector<std::vector<int>> pos(p.L + 1);
	std::vector<Dim> bond(p.L + 1);
	for (int i = 0; i <= p.L; ++i)
	{
		int m = i == 0 || i == p.L ? 1 : int(terms[i - 1].size()) + 2;
		std::vector<int> perm(m);
		for (int k = 0; k < m; ++k)
			perm[k] = k;
		r.shuffle(perm);
		pos[i] = perm;
		bond[i].resize(m);
		for (int k = 0; k < m; ++k)
			bond[i][perm[k]] = {1, m == 1 || k == 0 || k == m - 1 ? g.neutral() : terms[i - 1][k - 1].q};
	}
	TV W;
	std::vector<btensor> BW;
	for (int i = 0; i < p.L; ++i)
	{
		auto d = dims[i];
		auto &pl = pos[i], &pr = pos[i + 1];
		auto w = torch::zeros({int64_t(pl.size()), d, int64_t(pr.size()), d}, p.dt);
		auto put = [&](int l, int rr, const Tensor &o) { w.select(0, l).select(1, rr).copy_(o); };
		auto id = torch::eye(d, w.options());
		int ldone = pl.back(), rdone = pr.back(), lstart = pl[0], rstart = pr[0];
		if (i > 0)
		{
			put(ldone, rdone, id);
			for (size_t k = 0; k < terms[i - 1].size(); ++k)
				put(pl[k + 1], rdone, terms[i - 1][k].b);
		}
		put(lstart, rdone, onsite[i]);
		if (i + 1 < p.L)
		{
			put(lstart, rstart, id);
			for (size_t k = 0; k < terms[i].size(); ++k)
				put(lstart, pr[k + 1], terms[i][k].a);
		}
		W.push_back(w);
		auto sp = op_spec(g, bond[i], p.phys[i], bond[i + 1], g.neutral());
		BW.push_back(make_like_values(sp, w, r));
	}
	p.H = MPO(W);
	p.B = bMPO(BW);
	p.desc = cat("random L ", p.L, " d ", vstr(dims), " ", g.name, coupling == 0 ? " decoupled" : "");
	p.finish();
	return p;
}
Problem model_problem(Rng &r, int64_t maxdim)
{
	Problem p;
	p.g = &pick_group(r);
	auto &g = *p.g;
	p.dt = torch::get_default_dtype_as_scalartype();
	p.symmetric = true;
	bool spins = r.chance(0.6);
	Spec sp;
	sp.g = &g;
	sp.sel = g.neutral();
	if (spins)
	{
		p.L = r.in(2, 7);
		while ((int64_t(1) << p.L) > maxdim)
			--p.L;
		sp.lay = {{{1, g.random(r, 2)}, {1, g.random(r, 2)}}};
		double J = r.chance(0.7) ? (r.chance(0.5) ? 1 : -1) : 3 * r.sym();
		p.H = quantit::Heisenberg(torch::Scalar(J), p.L);
		p.B = quantit::Heisenberg(torch::Scalar(J), p.L, btensor(sp.vecs(), sp.selq()));
		p.desc = cat("Heisenberg L ", p.L, " J ", J, " ", g.name);
	}
	else
	{
		p.L = r.in(2, 4);
		while ((int64_t(1) << (2 * p.L)) > maxdim)
			--p.L;
		auto q0 = g.neutral(), q1 = g.random(r, 1), q2 = g.random(r, 1);
		sp.lay = {{{1, q0}, {1, q1}, {1, q2}, {1, g.mul(q1, q2)}}};
		double U = r.chance(0.5) ? r.in(-4, 8) : 5 * r.sym(), mu = r.chance(0.5) ? U / 2 : 2 * r.sym();
		p.H = quantit::Hubbard(torch::Scalar(U), torch::Scalar(mu), p.L);
		p.B = quantit::Hubbard(torch::Scalar(U), torch::Scalar(mu), p.L, btensor(sp.vecs(), sp.selq()));
		p.desc = cat("Hubbard L ", p.L, " U ", U, " mu ", mu, " ", g.name);
	}
	p.phys.assign(p.L, sp.lay[0]);
	auto e = expand_mpo(tensors(p.H));
	p.M = e[0].select(2, 0).to(torch::kComplexDouble);
	p.finish();
	return p;
}
Problem problem(Rng &r, int64_t maxdim) { return r.chance(0.5) ? random_problem(r, maxdim) : model_problem(r, maxdim); }

double real_of(const Tensor &t) { return torch::real(t.to(torch::kComplexDouble)).reshape({}).item<double>(); }
double real_of(const btensor &t) { return real_of(dense_of(t)); }
Tensor amplitudes(const TV &t) { return expand_mps(t)[0].select(1, 0).to(torch::kComplexDouble); }
double expectation(const Tensor &M, const Tensor &psi)
{
	auto n = torch::real(torch::vdot(psi, psi)).item<double>();
	return torch::real(torch::vdot(psi, torch::mv(M, psi))).item<double>() / n;
}
struct Event
{
	char kind; // s start, i iteration, e end
	size_t step = 0;
	double E = 0;
	TV state;
	size_t centre = 0;
	dmrg_options opt;
};
class Recorder final : public quantit::dmrg_logger
{
  public:
	std::vector<Event> ev;
	std::string parts;
	void log_step(size_t) override { parts += "s"; }
	void log_energy(const Tensor &) override { parts += "e"; }
	void log_energy(const btensor &) override { parts += "e"; }
	void log_bond_dims(const MPS &) override { parts += "b"; }
	void log_bond_dims(const bMPS &) override { parts += "b"; }
	void init(const dmrg_options &o) override
	{
		ev.push_back({'s'});
		ev.back().opt = o;
	}
	template <class T, class S>
	void rec(char k, size_t step, const T &E, const S &s)
	{
		Event e{k, step, real_of(E)};
		for (auto &t : tensors(s))
			e.state.push_back(t.clone());
		e.centre = s.orthogonality_center;
		ev.push_back(e);
	}
	void it_log_all(size_t n, const Tensor &E, const MPS &s) override { rec('i', n, E, s); }
	void it_log_all(size_t n, const btensor &E, const bMPS &s) override { rec('i', n, E, s); }
	void end_log_all(size_t n, const Tensor &E, const MPS &s) override { rec('e', n, E, s); }
	void end_log_all(size_t n, const btensor &E, const bMPS &s) override { rec('e', n, E, s); }
};
// overrides the elementary notifications only
class Parts final : public quantit::dmrg_logger
{
  public:
	std::string parts;
	std::vector<size_t> steps;
	std::vector<double> energies;
	std::vector<std::vector<int64_t>> bonds;
	int inits = 0;
	void init(const dmrg_options &) override { ++inits; }
	void log_step(size_t s) override { parts += "s", steps.push_back(s); }
	void log_energy(const Tensor &E) override { parts += "e", energies.push_back(real_of(E)); }
	void log_energy(const btensor &E) override { parts += "e", energies.push_back(real_of(E)); }
	template <class S>
	void b(const S &s)
	{
		parts += "b";
		std::vector<int64_t> o;
		for (auto &t : s)
			o.push_back(t.sizes()[2]);
		bonds.push_back(o);
	}
	void log_bond_dims(const MPS &s) override { b(s); }
	void log_bond_dims(const bMPS &s) override { b(s); }
};
dmrg_options random_options(Rng &r, bool free_bond)
{
	dmrg_options o;
	static const std::vector<double> cut{0., 1e-12, 1e-6, 1e-3}, crit{0., 1e-12, 1e-8, 1e-5, 1e-2};
	static const std::vector<size_t> its{1, 1, 2, 3, 5, 10, 30};
	static const std::vector<size_t> minb{1, 1, 2, 4, 100};
	Rng &q = r;
	o.cutoff = cut[q.in(0, 3)];
	o.convergence_criterion = crit[q.in(0, 4)];
	o.maximum_iterations = its[q.in(0, 6)];
	o.minimum_bond = minb[q.in(0, 4)];
	o.maximum_bond = free_bond || q.chance(0.5) ? dmrg_options::def_max_bond : q.in(1, 5);
	if (o.maximum_bond < o.minimum_bond)
		o.minimum_bond = q.in(1, o.maximum_bond);
	return o;
}
std::string ostr(const dmrg_options &o)
{
	return cat("cutoff ", o.cutoff, " crit ", o.convergence_criterion, " bond ", o.minimum_bond, "..", o.maximum_bond == dmrg_options::def_max_bond ? std::string("inf") : cat(o.maximum_bond), " it ", o.maximum_iterations);
}
double scale(double x) { return 1 + std::abs(x); }
double eps(torch::ScalarType dt) { return dt == torch::kFloat ? 3e-4 : 1e-9; }

// ---- initial states
bMPS canonical(const bMPS &m, int k)
{
	bMPS o(std::vector<btensor>(m.begin(), m.end()), 0);
	o.move_oc(int(m.size()) - 1);
	o.move_oc(0);
	o.move_oc(k);
	auto n = std::sqrt(real_of(contract(o, o)));
	o[k] = o[k] / torch::Scalar(n);
	return o;
}
MPS canonical(const MPS &m, int k)
{
	MPS o(TV(m.begin(), m.end()), 0);
	o.move_oc(int(m.size()) - 1);
	o.move_oc(0);
	o.move_oc(k);
	auto n = std::sqrt(real_of(contract(o, o)));
	o[k] = o[k] / n;
	return o;
}
MPS dense_state(const bMPS &m) { return MPS(tensors(m), size_t(m.orthogonality_center)); }
MPS copy(const MPS &m)
{
	TV t;
	for (auto &x : m)
		t.push_back(x.clone());
	return MPS(t, size_t(m.orthogonality_center));
}
bMPS copy(const bMPS &m)
{
	std::vector<btensor> t;
	for (auto &x : m)
		t.push_back(x);
	return bMPS(t, size_t(m.orthogonality_center));
}
MPO copy(const MPO &m)
{
	TV t;
	for (auto &x : m)
		t.push_back(x.clone());
	return MPO(t);
}
struct Start
{
	bMPS state;
	Val charge;
	std::string desc;
};
Val value_of(const Grp &g, const any_quantity &q, const std::vector<Val> &among)
{ // the charge values of a quantity, by comparison
	for (auto &v : among)
		if (g.make(v) == q)
			return v;
	return {};
}
bool random_start(Rng &r, const Problem &p, Start &s)
{
	for (int tries = 0; tries < 8; ++tries)
	{
		auto n = random_bnet(r, *p.g, p.phys, nullptr, r.chance(0.5), 3, r.chance(0.3) ? 3 : 2);
		bMPS m = make_bmps(r, n, p.dt, r.chance(0.5) ? 1 : 0.85);
		auto psi = amplitudes(tensors(m));
		if (frob(psi) < 1e-6)
			continue;
		auto &g = *p.g;
		Val q = g.neutral();
		for (auto &x : n.sel)
			q = g.mul(q, x);
		// left edge * configuration * right edge (inverse of bonds.back()) = q
		q = g.mul(q, g.inv(n.bonds[0][0].q));
		q = g.mul(q, n.bonds.back()[0].q);
		s.state = m;
		s.charge = q;
		s.desc = n.str();
		return true;
	}
	return false;
}
// largest number of values on a bond; zero columns don't count
std::vector<std::vector<double>> schmidt(const TV &t, const std::vector<int64_t> &dims)
{
	auto psi = amplitudes(t);
	std::vector<std::vector<double>> o;
	int64_t left = 1;
	for (size_t i = 0; i + 1 < dims.size(); ++i)
	{
		left *= dims[i];
		auto s = torch::linalg_svdvals(psi.reshape({left, -1})).contiguous();
		o.emplace_back(s.data_ptr<double>(), s.data_ptr<double>() + s.numel());
	}
	return o;
}
// columns that are not entirely zero are orthonormal
bool isometric(const Tensor &t, bool left, double tol, std::string &why)
{
	auto a = t.to(torch::kComplexDouble);
	a = left ? a.reshape({t.size(0) * t.size(1), t.size(2)}) : a.reshape({t.size(0), t.size(1) * t.size(2)}).t();
	auto g = torch::matmul(a.conj().t(), a);
	auto d = torch::real(torch::diag(g));
	auto want = torch::diag(torch::where(d == 0, torch::zeros_like(d), torch::ones_like(d))).to(torch::kComplexDouble);
	auto e = frob(g - want);
	why = cat("distance to an isometry ", e);
	return e <= tol;
}
template <class S>
void canonical_check(Case &c, const S &s, double tol, const char *when)
{
	auto t = tensors(s);
	size_t k = s.orthogonality_center;
	c.check(k < t.size(), "reported centre outside of the chain");
	for (size_t i = 0; i < t.size(); ++i)
	{
		std::string why;
		if (i < k)
			c.check(isometric(t[i], true, tol, why), "a site left of the reported centre isn't a left isometry", [&] { return cat(when, ": centre ", k, " site ", i, " ", why); });
		if (i > k)
			c.check(isometric(t[i], false, tol, why), "a site right of the reported centre isn't a right isometry", [&] { return cat(when, ": centre ", k, " site ", i, " ", why); });
	}
}
any_quantity total(const bMPS &m)
{
	auto q = sel_of(m[0]);
	for (size_t i = 1; i < m.size(); ++i)
		q *= sel_of(m[i]);
	return q;
}
struct Run
{
	double E;
	Recorder rec;
};
template <class Op, class S>
void run(Op &H, S &s, const dmrg_options &o, Run &out)
{
	out.E = real_of(quantit::dmrg(H, s, o, out.rec));
}
std::vector<double> energies(const Recorder &r)
{
	std::vector<double> e;
	for (auto &x : r.ev)
		if (x.kind == 'i')
			e.push_back(x.E);
	return e;
}

// ---- D01
void energies_check(Case &c, const Problem &p, const TV &before, const TV &after, const Run &u, const std::vector<double> &spec, const dmrg_options &o, bool good_start)
{
	double tol = eps(p.dt) * scale(p.norm) * p.L;
	auto es = energies(u.rec);
	c.count("iterations", es.size());
	c.check(!es.empty(), "no iteration was made");
	for (size_t i = 0; i < es.size(); ++i)
		c.check(es[i] >= spec[0] - tol, "an energy below the ground energy of the sector", [&] { return cat("iteration ", i, " energy ", es[i], " exact ", spec[0]); });
	c.check(u.E == es.back(), "the returned energy is not that of the last iteration", [&] { return cat(u.E, " ", es.back()); });
	auto psi = amplitudes(after);
	double h = expectation(p.M, psi);
	bool limited = o.maximum_bond != dmrg_options::def_max_bond;
	double spread = 2 * p.norm + 1e-12;
	double cut = 4 * (o.cutoff + eps(p.dt)) * spread;
	if (!limited)
		c.check(std::abs(h - u.E) <= tol + cut, "the returned energy is not the expectation value in the returned state", [&] { return cat("returned ", u.E, " expectation ", h); });
	if (good_start && !limited)
	{
		double first = expectation(p.M, amplitudes(before));
		double slack = tol + cut * 2 * p.L;
		c.check(es[0] <= first + slack, "the energy rose above the initial energy", [&] { return cat("initial ", first, " then ", es[0]); });
		for (size_t i = 1; i < es.size(); ++i)
			c.check(es[i] <= es[i - 1] + slack, "the energy rose from an iteration to the next", [&] { return cat("iteration ", i, ": ", es[i - 1], " to ", es[i]); });
	}
}
void d01(Case &c)
{
	Rng &r = c.rng;
	auto p = problem(r, r.chance(0.2) ? 256 : 64);
	Start st;
	if (!random_start(r, p, st))
		return c.op("no start");
	int k = r.in(0, p.L - 1);
	bool good = true;
	double factor = r.chance(0.7) ? 1 : std::pow(10., 4 * r.sym());
	auto o = random_options(r, r.chance(0.8));
	if (r.chance(0.3))
	{ // vectors of no weight are never kept: dense and block trajectories are the same
		o.cutoff = 1e-11;
		o.minimum_bond = 1;
		o.maximum_bond = dmrg_options::def_max_bond;
	}
	c.describe(cat(p.desc, " ", torch::toString(p.dt), " centre ", k, " norm ", factor, " ", ostr(o), " ", st.desc));
	c.seen(p.desc + ostr(o) + st.desc);
	bMPS init = canonical(st.state, k);
	if (factor != 1)
		init[k] = init[k] * torch::Scalar(factor);
	auto spec = p.spectrum(&st.charge), all = p.spectrum(nullptr);
	c.check(!spec.empty(), "monitor: the sector is empty");
	auto before = tensors(init);
	for (auto &t : before)
		t = t.clone();
	MPS dinit = dense_state(init);
	c.op("block");
	bMPS bs = copy(init);
	Run ub;
	auto B = p.B;
	run(B, bs, o, ub);
	energies_check(c, p, before, tensors(bs), ub, spec, o, good);
	{ // stays in the sector
		auto psi = amplitudes(tensors(bs));
		for (size_t i = 0; i < p.configs.size(); ++i)
			if (p.configs[i] != st.charge)
				c.check(torch::abs(psi[int64_t(i)]).item<double>() == 0, "amplitude outside of the sector of the initial state");
	}
	c.op("dense");
	MPS ds = copy(dinit);
	Run ud;
	auto H = p.H;
	run(H, ds, o, ud);
	energies_check(c, p, before, tensors(ds), ud, all, o, good);
	c.op("agreement");
	auto eb = energies(ub.rec), ed = energies(ud.rec);
	if (good && o.maximum_bond == dmrg_options::def_max_bond && o.cutoff == 1e-11 && p.dt != torch::kFloat)
	{ // same trajectory
		double tol = 1e-6 * scale(p.norm);
		size_t n = std::min<size_t>({eb.size(), ed.size(), 3});
		auto leaks = [&](const TV &t) { // rounding errors can take the dense state out of the sector, to lower energies
			auto psi = amplitudes(t);
			double out = 0;
			for (size_t i = 0; i < p.configs.size(); ++i)
				if (p.configs[i] != st.charge)
					out += std::norm(std::complex<double>(psi[int64_t(i)].item<c10::complex<double>>()));
			return out > 1e-16;
		};
		for (size_t i = 0; i < n && !leaks(ud.rec.ev[i + 1].state); ++i)
			c.check(std::abs(eb[i] - ed[i]) <= tol, "dense and block energies differ", [&] { return cat("iteration ", i, " block ", eb[i], " dense ", ed[i]); });
	}
}
// The lowest energy that an optimisation of two neighbouring sites can reach from the state, with the sum of charges
// of the sector `in` (true for its configurations): a sweep which ends there cannot leave the state by itself, whatever
// its energy (sites with a single state, for instance, keep the bonds around them from growing).
double best_local_update(const Tensor &M, const TV &t, const Tensor &in)
{
	double best = INFINITY;
	auto span = [](const Tensor &m) { // orthonormal basis of the columns
		auto [U, S, V] = torch::linalg_svd(m, false);
		auto n = (S > 1e-7 * std::max(S[0].item<double>(), 1e-300)).sum().item<int64_t>();
		return U.narrow(1, 0, n);
	};
	auto kron = [](const Tensor &a, const Tensor &b) {
		return (a.unsqueeze(1).unsqueeze(3) * b.unsqueeze(0).unsqueeze(2)).reshape({a.size(0) * b.size(0), a.size(1) * b.size(1)});
	};
	for (size_t i = 0; i + 1 < t.size(); ++i)
	{
		auto L = torch::eye(1, torch::kComplexDouble), R = L;
		for (size_t k = 0; k < i; ++k)
		{
			auto x = t[k].to(torch::kComplexDouble);
			L = torch::tensordot(L, x, {1}, {0}).reshape({-1, x.size(2)});
		}
		for (size_t k = t.size() - 1; k > i + 1; --k)
		{
			auto x = t[k].to(torch::kComplexDouble);
			R = torch::tensordot(x, R, {2}, {0}).reshape({x.size(0), -1});
		}
		L = span(L);
		R = span(R.t());
		auto d = t[i].size(1) * t[i + 1].size(1);
		auto P = kron(kron(L, torch::eye(d, torch::kComplexDouble)), R) * in.to(torch::kComplexDouble).unsqueeze(1);
		P = span(P);
		auto w = torch::linalg_eigvalsh(torch::matmul(P.conj().t(), torch::matmul(M.to(torch::kComplexDouble), P)), "L");
		best = std::min(best, w[0].item<double>());
	}
	return best;
}
// converges to the exact energy from a generic start
void ground(Case &c)
{
	Rng &r = c.rng;
	auto p = problem(r, 40);
	dmrg_options o;
	o.cutoff = 1e-12;
	o.convergence_criterion = 1e-11;
	o.maximum_iterations = 600;
	o.minimum_bond = r.in(1, 8);
	bool block = r.chance(0.5);
	Start st;
	if (!random_start(r, p, st))
		return c.op("no start");
	c.describe(cat(p.desc, " ", torch::toString(p.dt), " ", ostr(o), block ? " block" : " dense"));
	c.seen(p.desc);
	auto all = p.spectrum(nullptr), spec = p.spectrum(&st.charge);
	double E, exact;
	bool generic = true;
	TV last;
	std::vector<int64_t> idx;
	for (size_t i = 0; i < p.configs.size(); ++i)
		if (!block || p.configs[i] == st.charge)
			idx.push_back(i);
	auto sel = torch::tensor(idx);
	auto [w, v] = torch::linalg_eigh(p.M.index_select(0, sel).index_select(1, sel), "L");
	exact = w[0].item<double>();
	auto lowest = torch::nonzero(w < exact + 1e-6).numel();
	auto overlap = [&](const TV &t) { // weight in the space of the ground states
		auto psi = amplitudes(t).index_select(0, sel);
		return frob(torch::mv(v.narrow(1, 0, lowest).conj().t(), psi)) / frob(psi);
	};
	Recorder rec;
	if (block && r.chance(0.3))
	{
		c.op("block random");
		bMPS s;
		btensor e;
		try
		{
			std::tie(e, s) = quantit::dmrg(p.B, p.g->make(st.charge), o, rec);
		}
		catch (std::invalid_argument &x)
		{ // no sequence of charges was found
			if (std::string(x.what()).find("sum rule") == std::string::npos)
				throw;
			return;
		}
		E = real_of(e);
		generic = false;
	}
	else if (block)
	{
		c.op("block");
		auto s = canonical(st.state, r.in(0, p.L - 1));
		generic = overlap(tensors(s)) > 0.01;
		E = real_of(quantit::dmrg(p.B, s, o, rec));
		last = tensors(s);
	}
	else if (r.chance(0.3))
	{
		c.op("dense random");
		auto [e, s] = quantit::dmrg(p.H, o, rec);
		E = real_of(e);
		last = tensors(s);
	}
	else
	{
		c.op("dense");
		TV t;
		int64_t left = 1;
		for (int i = 0; i < p.L; ++i)
		{
			auto right = i + 1 < p.L ? r.in(1, 4) : 1;
			t.push_back(random_values(r, {left, dim_size(p.phys[i]), right}, p.dt));
			left = right;
		}
		auto s = canonical(MPS(t), r.in(0, p.L - 1));
		generic = overlap(tensors(s)) > 0.01;
		E = real_of(quantit::dmrg(p.H, s, o, rec));
		last = tensors(s);
	}
	c.check(E >= exact - 1e-6 * scale(p.norm), "below the ground energy", [&] { return cat(E, " exact ", exact); });
	if (!generic)
		return;
	c.count("ground energies searched");
	c.count("iterations", rec.ev.size());
	double local = exact;
	if (E > exact + 1e-3 * scale(p.norm))
	{ // only acceptable where no optimisation of two sites improves on it
		auto in = torch::zeros({int64_t(p.configs.size())}, torch::kBool);
		in.index_fill_(0, sel, true);
		local = best_local_update(p.M, last, in);
		if (E <= local + 1e-4 * scale(p.norm))
		{
			c.count("stuck in a local minimum");
			return;
		}
		// or where the state has become an eigenstate, with nothing left of the lower ones: the Hamiltonian may have
		// symmetries of its own, and the weight of a symmetry sector that looks unfavourable at first is truncated away
		auto psi = amplitudes(last);
		psi = psi / frob(psi);
		auto M = p.M.to(torch::kComplexDouble);
		if (frob(torch::mv(M, psi) - E * psi) < 1e-3 * scale(p.norm) && overlap(last) < 1e-5)
		{
			c.count("stuck in an excited eigenstate");
			return;
		}
	}
	c.check(E <= exact + 1e-3 * scale(p.norm), "not the ground energy", [&] { return cat(E, " exact ", exact, " best update ", local, " spectrum ", vstr(spec), " iterations ", rec.ev.size()); });
}

// ---- D02
template <class Net>
std::vector<Tensor> bits_of(const Net &n)
{
	TV o;
	for (auto &t : tensors(n))
		o.push_back(t.clone());
	return o;
}
template <class S>
void state_check(Case &c, const Problem &p, const S &s, const dmrg_options &o, const TV &before, const char *when)
{
	auto t = tensors(s);
	c.check(t.size() == size_t(p.L), "length of the state", [&] { return cat(t.size()); });
	c.check(s.check_ranks(), "not a valid network");
	std::vector<int64_t> dims;
	for (int i = 0; i < p.L; ++i)
	{
		dims.push_back(dim_size(p.phys[i]));
		c.check(t[i].dim() == 3 && t[i].size(1) == dims[i], "physical dimension of the state", [&] { return cat(when, " site ", i, " ", vstr(t[i].sizes())); });
		c.check(t[i].scalar_type() == p.dt, "scalar type of the state", [&] { return cat(when, " site ", i, " ", torch::toString(t[i].scalar_type())); });
		c.check(i == 0 || t[i].size(0) == t[i - 1].size(2), "bonds that don't fit");
		c.check(std::isfinite(frob(t[i])), "not finite");
	}
	c.check(t[0].size(0) == 1 && t.back().size(2) == 1, "edges of the state");
	double tol = eps(p.dt);
	if (o.maximum_iterations > 0)
	{
		auto n = frob(amplitudes(t));
		c.check(std::abs(n - 1) <= tol * p.L, "the state isn't normalized", [&] { return cat(when, " norm ", n); });
		auto sv = schmidt(t, dims);
		for (size_t b = 0; b < sv.size(); ++b)
		{
			auto &v = sv[b];
			size_t used = 0;
			double drop = 10 * tol;
			while (used < v.size() && v[used] > drop)
				++used;
			// values equal to the last one that is kept are kept too
			size_t allowed = o.maximum_bond;
			if (used > allowed)
			{
				double last = v[allowed - 1];
				size_t equal = allowed;
				while (equal < v.size() && v[equal] > last * (1 - 1e-3) - drop)
					++equal;
				allowed = equal;
			}
			if (p.symmetric) // they need not be equal anymore once the other bonds were truncated
				allowed = std::max(allowed, o.maximum_bond == dmrg_options::def_max_bond ? o.maximum_bond : o.maximum_bond + 4);
			c.check(used <= allowed, "a bond larger than the limit", [&] { return cat(when, " bond ", b, " values ", vstr(v), " limit ", o.maximum_bond); });
			c.count("bonds checked");
			if (o.maximum_bond != dmrg_options::def_max_bond && used == o.maximum_bond)
				c.count("bonds at the limit");
			int64_t l = 1, rr = 1;
			for (size_t i = 0; i < dims.size(); ++i)
				(i <= b ? l : rr) *= dims[i];
			if (std::is_same<S, MPS>::value)
				c.check(t[b].size(2) <= std::max<int64_t>(std::min(l, rr), 1), "a bond larger than the space on its sides", [&] { return cat(when, " bond ", b, ": ", t[b].size(2)); });
		}
	}
	canonical_check(c, s, 100 * tol, when);
}
struct OpSnap
{
	TV bits, tens;
	std::vector<Snap> snaps;
	std::vector<bool> grad;
};
void unchanged(Case &c, const MPO &H, const TV &bits, const std::vector<bool> &grad)
{
	c.check(H.size() == bits.size(), "the length of the Hamiltonian changed");
	for (size_t i = 0; i < bits.size(); ++i)
	{
		c.check(same_bits(H[i], bits[i]) && H[i].scalar_type() == bits[i].scalar_type(), "the Hamiltonian was modified", [&] { return cat("site ", i); });
		c.check(H[i].requires_grad() == grad[i], "gradient tracking of the Hamiltonian changed");
	}
}
void d02(Case &c)
{
	Rng &r = c.rng;
	auto p = problem(r, r.chance(0.2) ? 256 : 64);
	Start st;
	if (!random_start(r, p, st))
		return c.op("no start");
	int k = r.in(0, p.L - 1);
	auto o = random_options(r, false);
	if (r.chance(0.1))
		o.maximum_iterations = 0;
	double factor = r.chance(0.7) ? 1 : std::pow(10., 4 * r.sym());
	c.describe(cat(p.desc, " ", torch::toString(p.dt), " centre ", k, " norm ", factor, " ", ostr(o), " ", st.desc));
	c.seen(p.desc + ostr(o) + st.desc);
	bMPS init = canonical(st.state, k);
	if (factor != 1)
		init[k] = init[k] * torch::Scalar(factor);
	MPS dinit = dense_state(init);
	auto before = bits_of(init);
	int sub = r.in(0, 9);
	if (sub < 5)
	{
		c.op("block");
		auto B = p.B;
		std::vector<Snap> hs, ss;
		for (auto &t : B)
			hs.emplace_back(t);
		std::vector<btensor> keep(init.begin(), init.end());
		for (auto &t : keep)
			ss.emplace_back(t);
		bMPS s = copy(init);
		quantit::dmrg(B, s, o);
		for (int i = 0; i < p.L; ++i)
		{
			c.check(hs[i].diff(B[i]) == "", "the Hamiltonian was modified", [&] { return cat("site ", i, " ", hs[i].diff(B[i])); });
			c.check(ss[i].diff(keep[i]) == "", "the tensors of the initial state were modified", [&] { return cat("site ", i, " ", ss[i].diff(keep[i])); });
			validate(c, s[i], "tensor of the state");
			c.check(layout_of(s[i])[1] == layout_of(init[i])[1], "physical dimension of the state", [&] { return show(s[i]); });
		}
		c.check(layout_of(s[0])[0] == layout_of(init[0])[0] && layout_of(s[p.L - 1])[2] == layout_of(init[p.L - 1])[2], "edges of the state changed");
		c.check(total(s) == total(init), "the charge of the state changed");
		state_check(c, p, s, o, before, "block");
		if (o.maximum_iterations == 0)
		{
			auto e = frob(amplitudes(tensors(s)) - amplitudes(before));
			c.check(e <= eps(p.dt) * scale(factor), "a run without iterations changed the state");
		}
		auto psi = amplitudes(tensors(s));
		for (size_t i = 0; i < p.configs.size(); ++i)
			if (p.configs[i] != st.charge)
				c.check(torch::abs(psi[int64_t(i)]).item<double>() == 0, "amplitude outside of the sector of the initial state");
	}
	else if (sub < 8)
	{
		c.op("dense");
		auto H = p.H;
		auto hb = bits_of(H);
		std::vector<bool> grad(p.L, false);
		bool track = r.chance(0.15) && p.dt != torch::kComplexDouble;
		if (track)
			for (int i = 0; i < p.L; ++i)
			{
				H[i] = H[i].clone().requires_grad_(true);
				grad[i] = true;
			}
		MPS s = copy(dinit);
		TV keep(s.begin(), s.end()), kb = bits_of(s);
		auto energy = quantit::dmrg(H, s, o);
		unchanged(c, H, hb, grad);
		if (track)
		{
			c.count("gradient-tracking Hamiltonian");
			c.check(!energy.requires_grad(), "the energy tracks gradients although the options don't ask for it");
			for (int i = 0; i < p.L; ++i)
				c.check(!s[i].requires_grad() || (o.maximum_iterations == 0 && keep[i].requires_grad()), "the state tracks gradients although the options don't ask for it");
		}
		for (int i = 0; i < p.L; ++i)
			c.check(same_bits(keep[i], kb[i]), "the tensors of the initial state were modified");
		state_check(c, p, s, o, before, "dense");
		if (o.maximum_iterations == 0)
		{
			auto e = frob(amplitudes(tensors(s)) - amplitudes(before));
			c.check(e <= eps(p.dt) * scale(factor), "a run without iterations changed the state");
		}
	}
	else if (sub == 8)
	{
		c.op("random dense");
		auto H = p.H;
		auto hb = bits_of(H);
		auto [e, s] = quantit::dmrg(H, o);
		unchanged(c, H, hb, std::vector<bool>(p.L, false));
		state_check(c, p, s, o, before, "random dense");
		for (int i = 0; i + 1 < p.L && o.maximum_iterations == 0; ++i)
			c.check(s[i].size(2) <= int64_t(o.minimum_bond), "bond dimension of the random state");
	}
	else
	{
		c.op("random block");
		auto B = p.B;
		std::vector<Snap> hs;
		for (auto &t : B)
			hs.emplace_back(t);
		bMPS s;
		btensor e;
		auto q = p.g->make(st.charge);
		try
		{
			std::tie(e, s) = quantit::dmrg(B, q, o);
		}
		catch (std::invalid_argument &x)
		{ // no sequence of charges was found
			if (std::string(x.what()).find("sum rule") == std::string::npos)
				throw;
			return;
		}
		for (int i = 0; i < p.L; ++i)
		{
			c.check(hs[i].diff(B[i]) == "", "the Hamiltonian was modified", [&] { return cat("site ", i, " ", hs[i].diff(B[i])); });
			validate(c, s[i], "tensor of the state");
		}
		auto psi = amplitudes(tensors(s));
		for (size_t i = 0; i < p.configs.size(); ++i)
			if (p.configs[i] != st.charge)
				c.check(torch::abs(psi[int64_t(i)]).item<double>() == 0, "amplitude outside of the requested sector");
		state_check(c, p, s, o, before, "random block");
	}
}
// impossible requests
void refused(Case &c)
{
	Rng &r = c.rng;
	auto p = problem(r, 32);
	Start st;
	if (!random_start(r, p, st))
		return c.op("no start");
	c.describe(p.desc);
	c.seen(p.desc);
	auto o = random_options(r, false);
	o.maximum_iterations = 2;
	bMPS init = canonical(st.state, 0);
	MPS dinit = dense_state(init);
	std::vector<btensor> bt_(init.begin(), init.end()), bh(p.B.begin(), p.B.end());
	TV dt_ = tensors(dinit), dh = tensors(p.H);
	auto cut = [](auto v, size_t n) {
		v.resize(n);
		return v;
	};
	c.op("one site");
	{
		MPO H(cut(dh, 1));
		MPS s(cut(dt_, 1));
		bMPO B(cut(bh, 1));
		bMPS b(cut(bt_, 1));
		c.must_throw([&] { quantit::dmrg(H, s, o); }, "one site");
		c.must_throw([&] { quantit::dmrg(B, b, o); }, "one site");
		c.must_throw([&] { quantit::dmrg(H, o); }, "one site");
		c.must_throw([&] { quantit::dmrg(B, p.g->make(st.charge), o); }, "one site");
	}
	c.op("no site");
	{
		MPO H;
		MPS s;
		bMPO B;
		bMPS b;
		c.must_throw([&] { quantit::dmrg(H, s, o); }, "no site");
		c.must_throw([&] { quantit::dmrg(B, b, o); }, "no site");
		c.must_throw([&] { quantit::dmrg(H, o); }, "no site");
		c.must_throw([&] { quantit::dmrg(B, p.g->make(st.charge), o); }, "no site");
	}
	c.op("other length");
	{
		auto n = size_t(r.in(0, p.L - 1));
		MPS s(cut(dt_, n));
		bMPS b(cut(bt_, n));
		auto H = p.H;
		auto B = p.B;
		c.must_throw([&] { quantit::dmrg(H, s, o); }, "a shorter state");
		c.must_throw([&] { quantit::dmrg(B, b, o); }, "a shorter state");
		c.check(s.size() == n && b.size() == n, "a refused call changed the state");
		if (p.L > 2)
		{
			MPO H2(cut(dh, p.L - 1));
			bMPO B2(cut(bh, p.L - 1));
			MPS s2(dt_);
			bMPS b2(bt_);
			c.must_throw([&] { quantit::dmrg(H2, s2, o); }, "a longer state");
			c.must_throw([&] { quantit::dmrg(B2, b2, o); }, "a longer state");
		}
	}
	c.op("zero");
	{
		auto s = copy(dinit);
		auto b = copy(init);
		int i = r.in(0, p.L - 1);
		s[i] = torch::zeros_like(s[i]);
		b[i] = b[i] * torch::Scalar(0.);
		auto H = p.H;
		auto B = p.B;
		c.must_throw([&] { quantit::dmrg(H, s, o); }, "a state with zero norm");
		c.must_throw([&] { quantit::dmrg(B, b, o); }, "a state with zero norm");
	}
	c.op("physical dimension");
	{
		auto t = dt_;
		int i = r.in(0, p.L - 1);
		t[i] = torch::ones({t[i].size(0), t[i].size(1) + 1, t[i].size(2)}, t[i].options());
		MPS s(t);
		auto H = p.H;
		c.must_throw([&] { quantit::dmrg(H, s, o); }, "another physical dimension");
	}
}

// ---- D03
struct Outcome
{
	double E;
	TV state;
};
template <class Op, class S, class Log>
Outcome go(Op H, S s, const dmrg_options &o, Log &log)
{
	auto E = quantit::dmrg(H, s, o, log);
	return {real_of(E), bits_of(s)};
}
template <class Op, class S>
Outcome go(Op H, S s, const dmrg_options &o)
{
	auto E = quantit::dmrg(H, s, o);
	return {real_of(E), bits_of(s)};
}
bool identical(const Outcome &a, const Outcome &b)
{
	if (!(a.E == b.E) || a.state.size() != b.state.size())
		return false;
	for (size_t i = 0; i < a.state.size(); ++i)
		if (!same_bits(a.state[i], b.state[i]))
			return false;
	return true;
}
size_t middle(const TV &t)
{
	auto &m = t[t.size() / 2];
	return std::max(m.size(0), m.size(2));
}
template <class Op, class S>
void logging(Case &c, const Problem &p, const Op &H, const S &init, const dmrg_options &o, bool relative)
{
	Recorder rec;
	auto u = go(H, copy(init), o, rec);
	auto &ev = rec.ev;
	auto story = [&] {
		std::string s;
		for (auto &e : ev)
			s += cat(e.kind, e.step, ":", e.E, " ");
		return s;
	};
	c.check(ev.size() >= 2 && ev[0].kind == 's' && ev.back().kind == 'e', "not a start first and an end last", story);
	size_t n = ev.size() - 2;
	c.count("iterations", n);
	for (size_t i = 0; i < n; ++i)
		c.check(ev[i + 1].kind == 'i' && ev[i + 1].step == i, "iterations are not notified in order", story);
	auto &so = ev[0].opt;
	c.check(so.cutoff == o.cutoff && so.convergence_criterion == o.convergence_criterion && so.maximum_bond == o.maximum_bond && so.minimum_bond == o.minimum_bond && so.maximum_iterations == o.maximum_iterations && so.state_gradient == o.state_gradient && so.hamil_gradient == o.hamil_gradient, "the start notification has other options");
	c.check(n <= o.maximum_iterations, "more iterations than allowed", story);
	if (o.maximum_iterations > 0)
	{
		c.check(n > 0, "no iteration was made", story);
		c.check(ev.back().step == n - 1, "the end has another number than the last iteration", story);
		c.check(ev.back().E == ev[n].E, "the end has another energy than the last iteration", story);
	}
	c.check(ev.back().E == u.E, "the returned energy is not the one that was logged", [&] { return cat(u.E, " ", story()); });
	auto crit = [&](size_t i) { // change of the energy in iteration i >= 1
		double d = std::abs(ev[i + 1].E - ev[i].E);
		return relative ? d / std::abs(ev[i + 1].E) : d;
	};
	double fuzz = p.dt == torch::kFloat ? 1e-6 * scale(p.norm) : 1e-14 * scale(p.norm);
	for (size_t i = 1; i < n; ++i)
	{
		double d = crit(i), slack = relative ? fuzz / std::abs(ev[i + 1].E) : fuzz;
		if (i + 1 < n)
			c.check(!(d < o.convergence_criterion - slack), "went on after the convergence criterion was met", [&] { return cat("iteration ", i, " change ", d, " ", story()); });
		else if (n < o.maximum_iterations)
			c.check(!(d > o.convergence_criterion + slack), "stopped before the convergence criterion was met", [&] { return cat("iteration ", i, " change ", d, " ", story()); });
	}
	if (n == 1 && o.maximum_iterations > 1)
		c.check(relative && ev[1].E == 0, "stopped after a single iteration", story); // 0/0
	c.count(n == o.maximum_iterations ? "stopped at the limit" : "converged");
	// states
	double tol = eps(p.dt) * 10;
	for (size_t i = 0; i < n; ++i)
	{
		auto psi = amplitudes(ev[i + 1].state);
		c.check(std::abs(frob(psi) - 1) <= tol, "the state given to the logger isn't normalized");
		if (o.maximum_bond == dmrg_options::def_max_bond)
		{
			double h = expectation(p.M, psi), cut = 8 * (o.cutoff + eps(p.dt)) * (p.norm + 1e-12);
			c.check(std::abs(h - ev[i + 1].E) <= tol * scale(p.norm) * p.L + cut, "the energy given to the logger isn't that of the state", [&] { return cat("iteration ", i, " expectation ", h, " ", story()); });
		}
	}
	auto last = amplitudes(ev.back().state);
	if (n > 0)
		c.check(frob(last - amplitudes(ev[n].state)) <= tol, "the end has another state than the last iteration");
	c.check(ev.back().state.size() == u.state.size(), "length of the logged state");
	for (size_t i = 0; i < u.state.size(); ++i)
		c.check(same_bits(ev.back().state[i], u.state[i]), "the returned state is not the one that was logged last");
	// logging doesn't change anything
	auto quiet = go(H, copy(init), o);
	c.check(identical(u, quiet), "logging changed the result", [&] { return cat(u.E, " ", quiet.E); });
	// the default of the other notifications
	Parts parts;
	auto v = go(H, copy(init), o, parts);
	c.check(identical(v, quiet), "logging changed the result", [&] { return cat(v.E, " ", quiet.E); });
	std::string want;
	for (size_t i = 0; i < n + 1; ++i)
		want += "seb";
	c.check(parts.inits == 1 && parts.parts == want, "step, energy and bond notifications", [&] { return parts.parts; });
	for (size_t i = 0; i < n + 1; ++i)
	{
		auto &e = ev[i + 1];
		c.check(parts.steps[i] == e.step && parts.energies[i] == e.E, "step, energy and bond notifications", [&] { return cat("event ", i); });
		std::vector<int64_t> b;
		for (auto &t : e.state)
			b.push_back(t.size(2));
		c.check(parts.bonds[i] == b, "bonds given to the logger");
	}
	// the loggers of the library
	quantit::dmrg_log_simple simple;
	simple.it_num = simple.middle_bond_dim = 12345;
	v = go(H, copy(init), o, simple);
	c.check(identical(v, quiet), "logging changed the result");
	c.check(simple.it_num == ev.back().step, "dmrg_log_simple: iteration", [&] { return cat(simple.it_num, " ", story()); });
	c.check(simple.middle_bond_dim == middle(ev.back().state), "dmrg_log_simple: bond", [&] { return cat(simple.middle_bond_dim); });
	quantit::dmrg_log_sweeptime times;
	times.it_num = times.middle_bond_dim = 12345;
	v = go(H, copy(init), o, times);
	c.check(identical(v, quiet), "logging changed the result");
	c.check(times.time_list.size() == o.maximum_iterations && times.bond_list.size() == o.maximum_iterations, "dmrg_log_sweeptime: number of entries");
	c.check(times.it_num == ev.back().step && times.middle_bond_dim == middle(ev.back().state), "dmrg_log_sweeptime: end");
	for (size_t i = 0; i < n; ++i)
		c.check(times.bond_list[i] == middle(ev[i + 1].state) && times.time_list[i] >= 0 && times.time_list[i] < 1000, "dmrg_log_sweeptime: entries", [&] { return cat("iteration ", i, " bond ", times.bond_list[i], " time ", times.time_list[i]); });
	for (size_t i = n; i < o.maximum_iterations; ++i)
		c.check(times.bond_list[i] == 0 && times.time_list[i] == 0, "dmrg_log_sweeptime: entries of iterations that weren't made");
}
void d03(Case &c)
{
	Rng &r = c.rng;
	auto p = problem(r, 40);
	Start st;
	if (!random_start(r, p, st))
		return c.op("no start");
	int k = r.in(0, p.L - 1);
	auto o = random_options(r, r.chance(0.6));
	static const std::vector<size_t> its{0, 1, 1, 2, 3, 4, 10, 30, 100};
	o.maximum_iterations = its[r.in(0, 8)];
	c.describe(cat(p.desc, " ", torch::toString(p.dt), " centre ", k, " ", ostr(o), " ", st.desc));
	c.seen(p.desc + ostr(o) + st.desc);
	bMPS init = canonical(st.state, k);
	if (r.chance(0.5))
	{
		c.op("block");
		logging(c, p, p.B, init, o, true);
	}
	else
	{
		c.op("dense");
		logging(c, p, p.H, dense_state(init), o, false);
	}
}
void options_ctor(Case &c)
{
	Rng &r = c.rng;
	auto cut = r.unit(), crit = r.unit();
	size_t mx = r.in(0, 1000), mn = r.in(0, 1000), it = r.in(0, 1000);
	bool g1 = r.chance(0.5), g2 = r.chance(0.5);
	auto same = [&](const dmrg_options &o, double a, double b, size_t m, size_t n, size_t i, bool s, bool h) {
		c.check(o.cutoff == a && o.convergence_criterion == b && o.maximum_bond == m && o.minimum_bond == n && o.maximum_iterations == i && o.state_gradient == s && o.hamil_gradient == h, "options");
	};
	using D = dmrg_options;
	same(D(), 1e-6, 1e-5, SIZE_MAX, 4, 1000, false, false);
	same(D(cut, crit), cut, crit, SIZE_MAX, 4, 1000, false, false);
	same(D(mx, mn, it), 1e-6, 1e-5, mx, mn, it, false, false);
	same(D(cut, crit, mx, mn, it), cut, crit, mx, mn, it, false, false);
	same(D(cut, crit, mx, mn, it, g1), cut, crit, mx, mn, it, g1, false);
	same(D(cut, crit, mx, mn, it, g1, g2), cut, crit, mx, mn, it, g1, g2);
	D a(cut, crit, mx, mn, it, g1, g2), b;
	b = a;
	same(b, cut, crit, mx, mn, it, g1, g2);
	D d(a);
	same(d, cut, crit, mx, mn, it, g1, g2);
	c.seen(cat(cut));
}
} // namespace
PROPERTY(D01)
{
	ctx.family("ground", ctx.n(400, 4000), ground);
	ctx.family("energies", ctx.n(1500, 20000), d01);
}
PROPERTY(D02)
{
	ctx.family("state", ctx.n(2500, 30000), d02);
	ctx.family("refused", ctx.n(200, 2000), refused);
}
PROPERTY(D03)
{
	ctx.family("logging", ctx.n(600, 8000), d03);
	ctx.family("options", ctx.n(20, 200), options_ctor);
}
