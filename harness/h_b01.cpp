// B01: structural validity of every result.  B08: purity of out-of-place operations, locality of in-place ones.
#include "zoo.h"
#include <numeric>
using namespace bt;
using namespace quantit;
namespace
{
void layout_queries(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	const btensor t = make(r, s, pick_dtype(r));
	c.describe(s.str());
	c.seen(s.str());
	validate(c, t, "constructed tensor");
	expect_spec(c, t, s, "constructed layout");
	c.op("queries");
	c.check(t.dim() == s.rank(), "dim");
	c.check(t.sizes() == s.sizes(), "sizes", [&] { return vstr(t.sizes()); });
	c.check(t.to_dense().sizes() == torch::IntArrayRef(s.sizes()), "sizes of to_dense");
	for (int64_t d = 0; d < s.rank(); ++d)
	{
		auto &D = s.lay[d];
		c.check(t.section_number(d) == D.size(), "section_number");
		c.check(t.section_numbers()[d] == int64_t(D.size()), "section_numbers");
		auto [sb, se] = t.section_sizes(d);
		auto [qb, qe] = t.section_cqtts(d);
		auto [sb2, se2, qb2, qe2] = t.section_sizes_cqtts(d);
		auto [qb3, qe3] = t.section_conserved_qtt_range(d);
		c.check(se - sb == int64_t(D.size()) && se2 - sb2 == int64_t(D.size()) && qe - qb == int64_t(D.size()) &&
		            qe2 - qb2 == int64_t(D.size()) && qe3 - qb3 == int64_t(D.size()),
		        "length of the section ranges");
		int64_t el = 0;
		for (size_t i = 0; i < D.size(); ++i, ++sb, ++qb, ++sb2, ++qb2, ++qb3)
		{
			auto q = g.make(D[i].q);
			c.check(*sb == D[i].size && *sb2 == D[i].size && t.section_size(d, i) == size_t(D[i].size), "section size");
			c.check(*qb == q && *qb2 == q && *qb3 == q && t.section_conserved_qtt(d, i) == q, "section charge");
			auto [sz, qq] = t.section_size_cqtt(d, i);
			c.check(sz == size_t(D[i].size) && qq == q, "section_size_cqtt");
			for (int64_t k = 0; k < D[i].size; ++k)
				c.check(t.element_conserved_qtt(d, el++) == q, "element_conserved_qtt");
		}
		c.must_throw([&] { (void)t.element_conserved_qtt(d, el); }, "element position beyond the dimension");
	}
	c.check(t.get_cvals().size() == std::accumulate(s.lay.begin(), s.lay.end(), size_t(0), [](size_t n, const Dim &d) { return n + d.size(); }), "number of charges");
	c.op("blocks");
	auto all = all_blocks(s.lay);
	std::set<IL> allowed, visited;
	for (auto &b : allowed_blocks(s))
		allowed.insert(b);
	IL ind(s.rank(), 0);
	for (size_t n = 0; n < all.size(); ++n)
	{
		c.check(visited.insert(ind).second, "block_increment repeats an index");
		c.check(t.block_conservation_rule_test(ind) == bool(allowed.count(ind)), "block_conservation_rule_test", [&] { return vstr(ind); });
		auto bq = t.block_quantities(ind);
		auto bs = t.block_sizes(ind);
		size_t d = 0;
		for (auto it = bq.begin(); it != bq.end(); ++it, ++d)
			c.check(d < size_t(s.rank()) && any_quantity(*it) == g.make(s.lay[d][ind[d]].q), "block_quantities");
		c.check(d == size_t(s.rank()), "length of block_quantities");
		d = 0;
		for (auto it = bs.begin(); it != bs.end(); ++it, ++d)
			c.check(d < size_t(s.rank()) && *it == s.lay[d][ind[d]].size, "block_sizes");
		c.check(d == size_t(s.rank()), "length of block_sizes");
		t.block_increment(ind);
	}
	c.check(ind == IL(s.rank(), 0), "block_increment does not come back to the origin");
	c.check(s.rank() == 0 ? btensor::btensor_compute_max_size(t) <= 1 : btensor::btensor_compute_max_size(t) == allowed.size(), "btensor_compute_max_size",
	        [&] { return cat(btensor::btensor_compute_max_size(t), " instead of ", allowed.size()); });
}
void corrupted(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 3));
	auto dt = torch::kDouble;
	auto al = allowed_blocks(s);
	IL sbd, ss;
	any_quantity_vector cv(0, g.make(g.neutral()));
	for (auto &d : s.lay)
	{
		sbd.push_back(d.size());
		for (auto &x : d)
		{
			ss.push_back(x.size);
			cv.push_back(g.make(x.q));
		}
	}
	btensor::block_list_t good;
	for (auto &b : al)
		good.insert({b, torch::ones(block_shape(s.lay, b), dt)});
	c.seen(s.str());
	c.describe(s.str());
	auto opt = torch::TensorOptions(dt);
	auto build = [&](btensor::block_list_t bl) { return btensor(s.rank(), bl, sbd, ss, cv, s.selq(), opt); };
	c.op("well formed");
	validate(c, build(good), "constructor from blocks");
	c.op("corrupted");
	// a block at an index conservation forbids
	for (auto &b : all_blocks(s.lay))
		if (charge(s, b) != s.sel)
		{
			auto bl = good;
			bl.insert({b, torch::ones(block_shape(s.lay, b), dt)});
			c.must_throw([&] { build(bl); }, "block of forbidden charge");
			break;
		}
	if (!al.empty())
	{
		auto k = r.pick(al);
		{
			auto sh = block_shape(s.lay, k);
			sh[r.next() % sh.size()] += 1;
			auto bl = good;
			bl.at(k) = torch::ones(sh, dt);
			c.must_throw([&] { build(bl); }, "block of the wrong shape");
			auto t = build(good);
			t.block(k) = torch::ones(sh, dt);
			c.check(btensor::check_tensor(t) != "", "check_tensor accepts a block of the wrong shape");
			c.must_throw([&] { btensor::throw_bad_tensor(t); }, "throw_bad_tensor on a block of the wrong shape");
		}
		{
			auto sh = block_shape(s.lay, k);
			sh.push_back(1);
			auto t = build(good);
			t.block(k) = torch::ones(sh, dt);
			c.check(btensor::check_tensor(t) != "", "check_tensor accepts a block of the wrong rank");
		}
		{
			auto bl = good;
			auto kk = k;
			kk.push_back(0);
			bl.insert({kk, torch::ones(block_shape(s.lay, k), dt)});
			c.must_throw([&] { build(bl); }, "block index of the wrong length");
		}
		{
			auto bl = good;
			auto kk = k;
			auto d = r.next() % kk.size();
			kk[d] = s.lay[d].size() + r.in(0, 2);
			bl.insert({kk, torch::ones(block_shape(s.lay, k), dt)});
			c.must_throw([&] { build(bl); }, "block index out of range");
		}
		{
			auto bl = good;
			auto kk = k;
			kk[r.next() % kk.size()] = -1;
			bl.insert({kk, torch::ones(block_shape(s.lay, k), dt)});
			c.must_throw([&] { build(bl); }, "negative block index");
		}
	}
	{
		auto sbd2 = sbd;
		sbd2[r.next() % sbd2.size()] += 1;
		c.must_throw([&] { btensor(sbd2, cv, ss, s.selq(), opt); }, "more sections than section sizes");
	}
	{
		auto cv2 = cv;
		cv2.push_back(g.make(g.neutral()));
		c.must_throw([&] { btensor(sbd, cv2, ss, s.selq(), opt); }, "more charges than sections");
	}
	{
		auto ss2 = ss;
		ss2.push_back(1);
		c.must_throw([&] { btensor(sbd, cv, ss2, s.selq(), opt); }, "more section sizes than sections");
	}
	c.must_throw([&] { btensor(s.rank() + 1, good, sbd, ss, cv, s.selq(), opt); }, "rank different from the number of dimensions");
}
void one_op(Case &c)
{
	auto o = zoo::random_op(c.rng);
	c.op(o.name);
	c.describe(o.name + " " + o.info);
	for (auto &t : o.in)
		c.check(defects(t) == "", "operand (monitor)", [&] { return defects(t); });
	auto res = o.f(o.in);
	size_t nb = 0;
	for (auto &t : res)
	{
		validate(c, t, "result");
		nb += t.blocks().size();
	}
	c.seen(cat(o.name, o.info));
	c.count("blocks observed", nb);
}
void one_inop(Case &c)
{
	auto o = zoo::random_inop(c.rng);
	c.op(o.name);
	c.describe(o.name + " " + o.info);
	// a private copy of the storage: block tensors share their blocks when copied
	btensor t = o.target;
	for (auto &b : t)
		std::get<1>(b) = std::get<1>(b).clone();
	o.f(t, o.in);
	validate(c, t, "target");
	c.seen(cat(o.name, o.info));
}
void history(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 3), 3);
	auto t = make(r, s, pick_dtype(r));
	c.describe(s.str());
	std::string trace;
	for (int step = 0; step < 10; ++step)
	{
		double total = 1;
		for (auto n : t.section_numbers())
			total *= n;
		if (t.dim() > 4 || total > 400)
			t = t.sum();
		zoo::Op o;
		if (r.chance(0.25) && t.dim() <= 2 && dtype_of(t) != torch::kBool)
		{ // product with a new tensor of the same group
			auto s2 = random_spec(r, g, r.in(0, 2), 2);
			auto u = make(r, s2, dtype_of(t));
			o.name = "outer product";
			o.in = {t, u};
			o.f = [](const std::vector<btensor> &v) { return std::vector<btensor>{tensordot(v[0], v[1], {}, {})}; };
		}
		else
			o = zoo::unary_on(r, t);
		c.op(o.name);
		trace += o.name + ",";
		c.describe(o.name + " " + o.info);
		auto res = o.f(o.in);
		for (auto &x : res)
			validate(c, x, "result");
		t = r.pick(res);
		if (t.blocks().size() == 0 && r.chance(0.7) && dtype_of(t) != torch::kBool)
			t = randn_like(t);
		if (dtype_of(t) == torch::kBool)
			t = randn_like(t, torch::kDouble);
		validate(c, t, "continued");
	}
	c.seen(s.str() + trace);
}
} // namespace
PROPERTY(B01)
{
	ctx.family("layout", ctx.n(400, 6000), layout_queries);
	ctx.family("corrupted", ctx.n(250, 4000), corrupted);
	ctx.family("op", ctx.n(5000, 120000), one_op);
	ctx.family("inplace", ctx.n(2000, 50000), one_inop);
	ctx.family("history", ctx.n(400, 12000), history);
}
namespace
{
void purity(Case &c)
{
	Rng &r = c.rng;
	auto o = zoo::random_op(r);
	c.op(o.name);
	c.describe(o.name + " " + o.info);
	if (o.in.size() == 2 && r.chance(0.15) && (o.name == "mul" || o.name == "add" || o.name == "operator-" || o.name == "operator/"))
		o.in[1] = o.in[0]; // the same tensor as both operands
	std::vector<Snap> before;
	for (auto &t : o.in)
		before.emplace_back(t);
	auto bystander = o.in; // copies share their blocks with the operands
	auto res = o.f(o.in);
	auto again = [&](const char *what) {
		for (size_t i = 0; i < o.in.size(); ++i)
		{
			auto d = before[i].diff(o.in[i]);
			c.check(d == "", what, [&] { return cat("operand ", i, ": ", d); });
			d = before[i].diff(bystander[i]);
			c.check(d == "", what, [&] { return cat("copy of operand ", i, ": ", d); });
		}
	};
	again("operand modified");
	// the same call gives the same answer
	bool random = o.name == "rand like factories" || o.name == "like factories";
	if (!random)
	{
		std::vector<Snap> rs;
		for (auto &t : res)
			rs.emplace_back(t);
		auto res2 = o.f(o.in);
		for (size_t i = 0; i < res.size(); ++i)
		{
			auto d = rs[i].diff(res2[i]);
			c.check(d == "", "second call differs", [&] { return d; });
		}
		again("operand modified by the second call");
	}
	if (o.fresh)
	{ // clobbering the result must not reach the operands
		for (auto &t : res)
			for (auto &b : t)
				std::get<1>(b).fill_(1);
		again("result shares memory with an operand");
		c.count("results clobbered", res.size());
	}
	else
	{ // structural in-place changes of the result stay local
		for (auto &t : res)
		{
			t.inverse_cvals_();
			if (t.dim() > 0)
				t.cval_shift_(any_quantity(t.section_conserved_qtt(0, 0)), 0);
			if (t.dim() > 1)
				t.transpose_(0, 1);
		}
		again("structure shared with an operand");
	}
	c.seen(cat(o.name, o.info));
}
void inplace(Case &c)
{
	Rng &r = c.rng;
	auto o = zoo::random_inop(r);
	c.op(o.name);
	c.describe(o.name + " " + o.info);
	std::vector<Snap> before;
	for (auto &t : o.in)
		before.emplace_back(t);
	btensor ref({}, any_quantity(quantit::conserved::Z(0)));
	Snap target0(o.target);
	if (o.ref)
	{
		ref = o.ref(o.target, o.in);
		auto d = target0.diff(o.target);
		c.check(d == "", "out of place form modified its operand", [&] { return d; });
	}
	btensor t = o.target;
	for (auto &b : t)
		std::get<1>(b) = std::get<1>(b).clone();
	o.f(t, o.in);
	for (size_t i = 0; i < o.in.size(); ++i)
	{
		auto d = before[i].diff(o.in[i]);
		c.check(d == "", "argument modified", [&] { return cat("argument ", i, ": ", d); });
	}
	auto d = target0.diff(o.target);
	c.check(d == "", "unrelated tensor modified", [&] { return d; });
	if (o.ref)
	{
		c.check(layout_of(t) == layout_of(ref) && sel_of(t) == sel_of(ref), "in-place form gives another structure");
		expect_dense(c, dense_of(t), dense_of(ref), "in-place form gives other values", 1e-12);
	}
	// later in-place changes of the target do not reach the argument
	for (auto &b : t)
		std::get<1>(b).fill_(0.5);
	for (size_t i = 0; i < o.in.size(); ++i)
	{
		auto d = before[i].diff(o.in[i]);
		c.check(d == "", "target shares memory with the argument", [&] { return cat("argument ", i, ": ", d); });
	}
	c.seen(cat(o.name, o.info));
}
} // namespace
PROPERTY(B08)
{
	ctx.family("out-of-place", ctx.n(5000, 120000), purity);
	ctx.family("in-place", ctx.n(3000, 80000), inplace);
}
