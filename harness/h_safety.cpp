// S01: the workloads of every other monitor and boundary inputs, under instrumentation. What is decided here is whether
// the instrumentation (AddressSanitizer, UndefinedBehaviorSanitizer, checked containers, memcheck) reports anything.
#include "net.h"
#include "zoo.h"
#include "blockTensor/LinearAlgebra.h"
#include "dmrg.h"
#include "models.h"
using namespace net;
namespace
{
// f may refuse
template <class F>
void attempt(Case &c, const char *what, F &&f)
{
	c.op(what);
	++c.checks;
	try
	{
		f();
	}
	catch (const std::exception &)
	{
		c.count("refused");
	}
}
Spec boundary_spec(Rng &r)
{
	Spec s;
	s.g = &pick_group(r);
	int rank = r.in(0, 4);
	for (int i = 0; i < rank; ++i)
	{
		Dim d;
		switch (r.in(0, 5))
		{
		case 0: break; // no section
		case 1: d = {{0, s.g->random(r)}}; break;
		case 2: d = {{1, s.g->neutral()}}; break;
		case 3: d = {{0, s.g->random(r)}, {1, s.g->random(r)}, {0, s.g->random(r)}}; break;
		default: d = random_dim(r, *s.g, 3, 2, 1);
		}
		s.lay.push_back(d);
	}
	s.sel = r.chance(0.6) ? s.g->neutral() : s.g->random(r);
	return s;
}
void boundary(Case &c)
{
	Rng &r = c.rng;
	auto s = boundary_spec(r);
	c.describe(s.str());
	c.seen(s.str());
	auto dt = pick_dtype(r);
	MakeOpt mo;
	mo.density = r.chance(0.3) ? 0 : 1;
	btensor t({}, any_quantity(s.g->make(s.sel)));
	attempt(c, "make", [&] { t = make(r, s, dt, mo); });
	for (int k = 0; k < 6; ++k)
		attempt(c, "unary", [&] {
			auto op = zoo::unary_on(r, t);
			c.op("unary " + op.name);
			auto o = op.f(op.in);
			if (!o.empty() && r.chance(0.5))
				t = o[0];
		});
	int64_t n = s.rank();
	attempt(c, "dense", [&] { auto d = t.to_dense(); quantit::from_basic_tensor_like(t, d); });
	attempt(c, "item", [&] { t.item(); });
	attempt(c, "sum", [&] { t.sum(); });
	attempt(c, "norms", [&] { allclose(t, t); t.any(); t.isnan(); });
	for (int64_t sp : {int64_t(-1), int64_t(0), int64_t(1), n, n + 1, r.in(-3, 6)})
	{
		attempt(c, "svd", [&] { quantit::svd(t, size_t(sp)); });
		attempt(c, "eigh", [&] { quantit::eigh(t, size_t(sp)); });
		attempt(c, "truncated svd", [&] { quantit::svd(t, size_t(sp), r.unit(), size_t(r.in(0, 3)), size_t(r.in(0, 3))); });
	}
	IL some;
	for (int k = r.in(0, 4); k > 0; --k)
		some.push_back(r.in(-5, 5));
	IL vals;
	for (int k = r.in(0, 5); k > 0; --k)
		vals.push_back(r.in(-2, 3));
	attempt(c, "block", [&] { t.block(some); });
	attempt(c, "block_at", [&] { t.block_at(some); });
	attempt(c, "reshape", [&] { t.reshape(some); });
	attempt(c, "permute", [&] { t.permute(some); });
	attempt(c, "permute_", [&] { auto u = t; u.permute_(some); });
	attempt(c, "transpose", [&] { t.transpose(r.in(-6, 6), r.in(-6, 6)); });
	attempt(c, "squeeze", [&] { t.squeeze(r.in(-6, 6)); });
	attempt(c, "view", [&] { t.basic_create_view(vals, r.chance(0.5)); });
	attempt(c, "shape_from", [&] { shape_from(t, vals); });
	attempt(c, "put", [&] { auto u = t; u.basic_index_put_(vals, torch::ones({1})); });
	attempt(c, "tensordot", [&] { quantit::tensordot(t, t.conj(), some, some); });
	attempt(c, "tensordot", [&] { quantit::tensordot(t, t.inverse_cvals(), {0}, {0}); });
	attempt(c, "bmm", [&] { t.bmm(t); });
	attempt(c, "add", [&] { t + t; t - t.conj(); t.mul(t); t / t; });
	attempt(c, "accessors", [&] {
		t.section_number(r.in(-3, 6));
		t.section_size(r.in(-3, 6), r.in(-3, 6));
	});
	attempt(c, "formatting", [&] { std::string x = fmt::format("{}", t); });
}
void networks(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	int L = r.in(0, 3);
	auto dt = pick_dtype(r);
	c.seen(cat(g.name, L, int(dt), r.in(0, 1000)));
	std::vector<Dim> phys;
	for (int i = 0; i < L; ++i)
		phys.push_back(r.chance(0.2) ? Dim{} : r.chance(0.2) ? Dim{{0, g.neutral()}} : random_dim(r, g, 2, 2, 1));
	bMPS s;
	bMPO O;
	MPS ds;
	MPO dO;
	attempt(c, "make", [&] {
		if (L == 0)
			return;
		auto n = random_bnet(r, g, phys, nullptr, r.chance(0.5), 2, 2);
		s = make_bmps(r, n, dt, r.chance(0.2) ? 0 : 1);
		ds = MPS(tensors(s));
		O = make_bmpo(r, g, phys, dt, false);
		dO = MPO(tensors(O));
	});
	attempt(c, "contract", [&] { contract(s, s); });
	attempt(c, "contract", [&] { contract(ds, ds); });
	attempt(c, "contract", [&] { contract(s, s, O); });
	attempt(c, "contract", [&] { contract(ds, ds, dO); });
	if (ds.size() > 0 && s.size() > 0)
	attempt(c, "lengths", [&] {
		auto u = ds;
		u.pop_back();
		c.op("contract(s,shorter)");
		attempt(c, "", [&] { contract(ds, u); });
		attempt(c, "", [&] { contract(u, ds); });
		attempt(c, "", [&] { contract(u, u, dO); });
		auto bu = s;
		bu.pop_back();
		attempt(c, "", [&] { contract(s, bu); });
		attempt(c, "", [&] { contract(bu, s); });
		attempt(c, "", [&] { contract(bu, bu, O); });
	});
	for (int k = -1; k <= L; ++k)
	{
		attempt(c, "move", [&] { s.move_oc(k); });
		attempt(c, "move", [&] { ds.move_oc(k); });
	}
	attempt(c, "coalesce", [&] { auto P = O; P.coalesce(r.chance(0.5) ? 0. : 1e-3); });
	quantit::dmrg_options o;
	o.maximum_iterations = 2;
	o.minimum_bond = r.in(0, 3);
	o.maximum_bond = r.in(0, 3);
	attempt(c, "dmrg", [&] { quantit::dmrg(O, s, o); });
	attempt(c, "dmrg", [&] { quantit::dmrg(dO, ds, o); });
	attempt(c, "dmrg", [&] { quantit::dmrg(O, g.make(g.neutral()), o); });
	attempt(c, "dmrg", [&] { quantit::dmrg(dO, o); });
	attempt(c, "random", [&] { quantit::random_bMPS(r.in(0, 3), O, g.make(g.random(r))); });
	attempt(c, "random", [&] { quantit::random_MPS(r.in(0, 3), dO); });
	attempt(c, "edit", [&] {
		if (L > 0 && s.size() > 0 && ds.size() > 0)
		{
			s.pop_back();
			ds.pop_back();
			s.check_ranks();
			ds.check_ranks();
			contract(ds, ds);
		}
	});
}
} // namespace
PROPERTY(S01)
{
	ctx.swallow = true;
	ctx.family("boundary", ctx.n(3000, 60000), boundary);
	ctx.family("networks", ctx.n(600, 10000), networks);
	ctx.run_others("S01 S02");
}
