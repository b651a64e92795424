// B06: factories, dense conversions, scalar types.  B07: incompatible requests are refused and change nothing.
#include "zoo.h"
#include <numeric>
using namespace bt;
using namespace quantit;
using torch::Scalar;
using torch::TensorOptions;
namespace
{
torch::ScalarType any_dtype(Rng &r)
{
	static const torch::ScalarType l[] = {torch::kDouble, torch::kDouble, torch::kFloat, torch::kComplexDouble,
	                                      torch::kComplexFloat, torch::kLong, torch::kInt};
	return l[r.next() % 7];
}
bool is_complex(torch::ScalarType t) { return t == torch::kComplexDouble || t == torch::kComplexFloat; }
bool is_int(torch::ScalarType t) { return t == torch::kLong || t == torch::kInt; }
Tensor values(Rng &r, const IL &sh, torch::ScalarType dt)
{
	if (is_int(dt))
	{
		auto t = torch::empty(sh, torch::kLong);
		auto f = t.flatten();
		for (int64_t i = 0; i < f.numel(); ++i)
			f.data_ptr<int64_t>()[i] = r.chance(0.5) ? r.in(1, 9) : -r.in(1, 9);
		return t.to(dt);
	}
	return random_values(r, sh, is_complex(dt) ? torch::kComplexDouble : torch::kDouble).to(dt);
}
std::string tname(torch::ScalarType t) { return torch::toString(t); }

// dense -> block -> dense
void round_trip(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto dt = any_dtype(r);
	auto m = mask(s);
	auto full = values(r, s.sizes(), dt);
	auto conserving = full * m.to(dt);
	// whole blocks of zeros
	std::set<IL> zero;
	for (auto &b : allowed_blocks(s))
		if (is_empty(s, b) || r.chance(0.25))
		{
			zero.insert(b);
			auto w = conserving;
			auto f = full;
			auto o = block_offset(s.lay, b), sh = block_shape(s.lay, b);
			for (size_t i = 0; i < o.size(); ++i)
			{
				w = w.narrow(i, o[i], sh[i]);
				f = f.narrow(i, o[i], sh[i]);
			}
			w.zero_();
			f.zero_();
		}
	bool forbidden = r.chance(0.4); // also carry elements that conservation forbids
	auto in = forbidden ? full : conserving;
	if (in.dim() >= 2 && r.chance(0.3))
		in = in.transpose(0, 1).contiguous().transpose(0, 1);
	auto odt = r.chance(0.25) ? (is_complex(dt) ? torch::kComplexDouble : any_dtype(r)) : dt;
	if (is_int(odt) && !is_int(dt))
		odt = dt;
	auto opt = odt == dt && r.chance(0.7) ? TensorOptions() : TensorOptions().dtype(odt);
	bool like = r.chance(0.4);
	c.describe(cat(s.str(), " ", tname(dt), "->", tname(odt), forbidden ? " with forbidden elements" : "", like ? " like" : ""));
	c.seen(cat(s.str(), tname(dt), tname(odt), forbidden, like, zero.size()));
	c.op(like ? "from_basic_tensor_like" : "from_basic_tensor");
	auto in_copy = in.clone();
	btensor t = [&] {
		if (!like)
			return from_basic_tensor(s.vecs(), s.selq(), in, 1e-16, opt);
		auto shape = make(r, s, torch::kDouble); // its blocks and scalar type must not matter
		Snap snap(shape);
		auto o = from_basic_tensor_like(shape, in, 1e-16, opt);
		auto d = snap.diff(shape);
		c.check(d == "", "the tensor giving the shape was modified", [&] { return d; });
		return o;
	}();
	c.check(torch::equal(in, in_copy), "the dense tensor was modified");
	validate(c, t, "conversion from dense");
	expect_spec(c, t, s, "conversion from dense");
	c.check(dtype_of(t) == odt, "scalar type", [&] { return tname(dtype_of(t)) + " instead of " + tname(odt); });
	std::vector<IL> want;
	for (auto &b : allowed_blocks(s))
		if (!zero.count(b))
			want.push_back(b);
	c.check(keys(t) == want, "stored blocks", [&] { return show(t); });
	auto ref = conserving.to(odt);
	auto D = t.to_dense();
	c.check(D.scalar_type() == odt && torch::equal(D, ref), "to_dense does not give the elements back",
	        [&] { return cat("error ", rel_err(D, ref), " ", show(t)); });
	c.check(torch::equal(dense_of(t), ref), "elements");
	// and back again
	auto u = from_basic_tensor_like(t, D);
	auto df = Snap(t).diff(u);
	c.check(df == "", "block -> dense -> block is not the identity", [&] { return df; });
	// a dense tensor is independent of the block tensor it comes from
	D.add_(1);
	c.check(torch::equal(dense_of(t), ref), "to_dense shares memory with the block tensor");
	// cutoff: a block is kept when its norm exceeds the cutoff
	if (!is_int(dt))
	{
		c.op("cutoff");
		double cut = 0.3 + 2.5 * r.unit();
		auto v = from_basic_tensor(s.vecs(), s.selq(), in, cut);
		validate(c, v, "cutoff");
		size_t kept = 0;
		for (auto &b : allowed_blocks(s))
		{
			auto w = in;
			auto o = block_offset(s.lay, b), sh = block_shape(s.lay, b);
			for (size_t i = 0; i < o.size(); ++i)
				w = w.narrow(i, o[i], sh[i]);
			double n = 0;
			auto f = w.to(torch::kComplexDouble).abs().flatten().contiguous();
			for (int64_t i = 0; i < f.numel(); ++i)
				n += std::pow(f.data_ptr<double>()[i], 2);
			n = std::sqrt(n);
			if (std::abs(n - cut) < 1e-5)
				continue;
			bool has = v.blocks().find(b) != v.blocks().end();
			c.check(has == (n > cut), "block kept or dropped against the cutoff", [&] { return cat(vstr(b), " norm ", n, " cutoff ", cut); });
			kept += has;
			if (has)
				c.check(torch::equal(v.block_at(b), w), "elements of a kept block");
		}
		c.count("cutoff kept", kept);
	}
	// to_dense of tensors that store only some blocks, strided, in any order
	auto a = make(r, s, pick_dtype(r));
	Snap sa(a);
	auto da = a.to_dense();
	c.check(da.scalar_type() == dtype_of(a) && torch::equal(da, dense_of(a)), "to_dense");
	auto d2 = sa.diff(a);
	c.check(d2 == "", "to_dense modified its operand", [&] { return d2; });
	c.op("refusal");
	if (s.rank() > 0)
	{
		auto sz = s.sizes();
		auto bad = sz;
		bad[r.next() % bad.size()] += r.chance(0.5) ? 1 : -1;
		c.must_throw([&] { (void)from_basic_tensor(s.vecs(), s.selq(), torch::ones(bad)); }, "dense tensor of another size");
		c.must_throw([&] { (void)from_basic_tensor_like(t, torch::ones(bad)); }, "dense tensor of another size");
		if (sz.size() >= 2)
			for (size_t i = 1; i < sz.size(); ++i)
				if (sz[i] != sz[i - 1])
				{
					auto sw = sz;
					std::swap(sw[i], sw[i - 1]);
					c.must_throw([&] { (void)from_basic_tensor(s.vecs(), s.selq(), torch::ones(sw)); }, "dense tensor of swapped sizes");
				}
	}
	auto more = s.sizes();
	more.push_back(1);
	c.must_throw([&] { (void)from_basic_tensor(s.vecs(), s.selq(), torch::ones(more)); }, "dense tensor of higher rank");
}

void factories(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto allowed = allowed_blocks(s);
	auto m = mask(s);
	auto dt = any_dtype(r);
	auto opt = TensorOptions().dtype(dt);
	auto src = make(r, s, pick_dtype(r));
	Snap snap(src);
	bool inherit = r.chance(0.4); // _like without options takes those of its model
	c.describe(cat(s.str(), " ", tname(dt), inherit ? " inherit" : ""));
	c.seen(cat(s.str(), tname(dt), inherit));
	auto vecs = s.vecs();
	auto q = s.selq();
	auto verify = [&](const btensor &t, torch::ScalarType wdt, const char *what) {
		validate(c, t, what);
		expect_spec(c, t, s, what);
		c.check(dtype_of(t) == wdt, what, [&] { return "scalar type " + tname(dtype_of(t)); });
		c.check(keys(t) == allowed, what, [&] { return "exactly the allowed blocks: " + show(t); });
	};
	auto constant = [&](const btensor &t, torch::ScalarType wdt, Scalar v, const char *what) {
		verify(t, wdt, what);
		auto want = m.to(wdt) * torch::full({}, v, TensorOptions().dtype(wdt));
		c.check(torch::equal(dense_of(t), want), what, [] { return std::string("values"); });
	};
	auto ldt = inherit ? dtype_of(src) : dt;
	auto lopt = inherit ? TensorOptions() : opt;
	auto ddt = torch::typeMetaToScalarType(torch::get_default_dtype());
	c.op("zeros");
	constant(zeros(vecs, q, opt), dt, 0, "zeros");
	constant(zeros_like(src, lopt), ldt, 0, "zeros_like");
	constant(zeros(vecs, q), ddt, 0, "zeros, default options");
	c.op("ones");
	constant(ones(vecs, q, opt), dt, 1, "ones");
	constant(ones_like(src, lopt), ldt, 1, "ones_like");
	c.op("full");
	Scalar v = is_int(dt) || (inherit == false && is_int(ldt)) ? Scalar(int64_t(r.in(-5, 5))) : Scalar(r.sym() * 3);
	if (is_complex(dt) && r.chance(0.5))
		v = Scalar(c10::complex<double>(r.sym(), r.sym()));
	constant(full(vecs, q, v, opt), dt, v, "full");
	Scalar v2 = is_int(ldt) ? Scalar(int64_t(r.in(-5, 5))) : Scalar(r.sym() * 3);
	constant(full_like(src, v2, lopt), ldt, v2, "full_like");
	c.op("empty");
	verify(empty(vecs, q, opt), dt, "empty");
	verify(empty_like(src, lopt), ldt, "empty_like");
	c.op("sparse_zeros");
	for (auto &t : {sparse_zeros(vecs, q, opt), sparse_zeros_like(src, lopt)})
	{
		validate(c, t, "sparse_zeros");
		expect_spec(c, t, s, "sparse_zeros");
		c.check(keys(t).empty(), "sparse_zeros stores blocks");
	}
	c.check(dtype_of(sparse_zeros(vecs, q, opt)) == dt && dtype_of(sparse_zeros_like(src, lopt)) == ldt, "sparse_zeros scalar type");
	auto in_range = [&](const btensor &t, double lo, double hi, bool hi_excl, bool integral, const char *what) {
		int64_t n = 0;
		for (auto &b : t)
		{
			auto x = std::get<1>(b).contiguous();
			auto f = (is_complex(x.scalar_type()) ? at::view_as_real(x) : x).to(torch::kDouble).flatten().contiguous();
			for (int64_t i = 0; i < f.numel(); ++i, ++n)
			{
				double y = f.data_ptr<double>()[i];
				c.check(y >= lo && (hi_excl ? y < hi : y <= hi), what, [&] { return cat("value ", y, " out of range"); });
				if (integral)
					c.check(y == std::floor(y), what, [&] { return cat("value ", y, " is no integer"); });
			}
		}
		c.count("random values in range", n);
	};
	// blocks are drawn independently: two blocks of more than 2 elements are not equal, neither are the elements of one
	auto independent = [&](const btensor &t, const char *what) {
		Tensor prev;
		for (auto &b : t)
		{
			auto x = std::get<1>(b).to(torch::kComplexDouble).flatten();
			if (x.numel() < 3)
				continue;
			c.check(!torch::equal(x, x[0].expand_as(x)), what, [] { return std::string("all elements of a block are equal"); });
			if (prev.defined() && prev.numel() == x.numel())
				c.check(!torch::equal(prev, x), what, [] { return std::string("two blocks are equal"); });
			prev = x;
		}
	};
	auto fdt = is_int(dt) ? torch::kDouble : dt;
	auto fopt = TensorOptions().dtype(fdt);
	auto flopt = inherit ? TensorOptions() : fopt;
	auto fldt = inherit ? dtype_of(src) : fdt;
	c.op("rand");
	{
		auto t = rand(vecs, q, fopt);
		verify(t, fdt, "rand");
		in_range(t, 0, 1, true, false, "rand");
		independent(t, "rand");
		auto u = rand_like(src, flopt);
		verify(u, fldt, "rand_like");
		in_range(u, 0, 1, true, false, "rand_like");
		independent(u, "rand_like");
	}
	c.op("randn");
	{
		auto t = randn(vecs, q, fopt);
		verify(t, fdt, "randn");
		in_range(t, -12, 12, true, false, "randn");
		independent(t, "randn");
		auto u = randn_like(src, flopt);
		verify(u, fldt, "randn_like");
		in_range(u, -12, 12, true, false, "randn_like");
		independent(u, "randn_like");
	}
	c.op("randint");
	if (!is_complex(dt))
	{
		int64_t lo = r.in(-6, 4), hi = lo + r.in(1, 8);
		auto t = r.chance(0.5) ? randint(lo, hi, vecs, q, opt) : randint(vecs, q, lo, hi, opt);
		verify(t, dt, "randint");
		in_range(t, lo, hi, true, true, "randint");
		int64_t top = r.in(1, 9);
		auto t2 = r.chance(0.5) ? randint(top, vecs, q, opt) : randint(vecs, q, top, opt);
		verify(t2, dt, "randint");
		in_range(t2, 0, top, true, true, "randint without lower bound");
		auto l = r.chance(0.5) ? randint_like(lo, hi, src, opt) : randint_like(src, lo, hi, opt);
		verify(l, dt, "randint_like");
		in_range(l, lo, hi, true, true, "randint_like");
		auto l2 = r.chance(0.5) ? randint_like(top, src, opt) : randint_like(src, top, opt);
		verify(l2, dt, "randint_like");
		in_range(l2, 0, top, true, true, "randint_like without lower bound");
	}
	auto d = snap.diff(src);
	c.check(d == "", "the tensor giving the shape was modified", [&] { return d; });
}
// the moments of the random factories, on large blocks
void moments(Case &c)
{
	auto &g = group("Z");
	Spec s{&g, {{{40, {0}}, {50, {1}}}, {{60, {0}}, {45, {-1}}}}, {0}};
	auto opt = TensorOptions().dtype(torch::kDouble);
	auto all = [&](const btensor &t) {
		std::vector<Tensor> v;
		for (auto &b : t)
			v.push_back(std::get<1>(b).flatten().to(torch::kDouble));
		return torch::cat(v);
	};
	auto stat = [&](const btensor &t, double mean, double var, const char *what) {
		auto x = all(t);
		double n = x.numel(), mm = x.mean().item<double>(), vv = x.var().item<double>();
		c.check(std::abs(mm - mean) < 8 * std::sqrt(var / n), what, [&] { return cat("mean ", mm, " instead of ", mean); });
		c.check(std::abs(vv - var) < 0.15 * var, what, [&] { return cat("variance ", vv, " instead of ", var); });
	};
	auto like = sparse_zeros(s.vecs(), s.selq(), opt);
	c.seen("moments");
	c.op("rand");
	stat(rand(s.vecs(), s.selq(), opt), 0.5, 1. / 12, "rand");
	stat(rand_like(like), 0.5, 1. / 12, "rand_like");
	c.op("randn");
	stat(randn(s.vecs(), s.selq(), opt), 0, 1, "randn");
	stat(randn_like(like), 0, 1, "randn_like");
	c.op("randint");
	stat(randint(-3, 6, s.vecs(), s.selq(), opt), 1, 80. / 12, "randint");
	stat(randint_like(-3, 6, like), 1, 80. / 12, "randint_like");
	stat(randint(8, s.vecs(), s.selq(), opt), 3.5, 63. / 12, "randint");
	stat(randint_like(8, like), 3.5, 63. / 12, "randint_like");
}

Tensor eye_ref(const Spec &s, torch::ScalarType dt)
{
	auto o = torch::zeros(s.sizes(), dt);
	for (auto &b : allowed_blocks(s))
		if (b[0] == b[1])
		{
			auto off = block_offset(s.lay, b), sh = block_shape(s.lay, b);
			o.narrow(0, off[0], sh[0]).narrow(1, off[1], sh[1]).copy_(torch::eye(sh[0], sh[1], TensorOptions().dtype(dt)));
		}
	return o;
}
void eyes(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto dt = any_dtype(r);
	auto opt = TensorOptions().dtype(dt);
	auto d = random_dim(r, g);
	c.op("eye");
	{
		Spec s{&g, {d, inv(g, d)}, g.neutral()};
		c.describe(s.str());
		c.seen(cat("eye", s.str(), tname(dt)));
		auto t = eye({s.vecs()[0]}, opt);
		validate(c, t, "eye");
		expect_spec(c, t, s, "eye of a row");
		c.check(dtype_of(t) == dt, "scalar type");
		int64_t n = dim_size(d);
		c.check(torch::equal(dense_of(t), torch::eye(n, TensorOptions().dtype(dt))), "eye is not the identity");
		auto t2 = eye(s.vecs(), opt);
		auto df = Snap(t).diff(t2);
		c.check(df == "", "eye of a row and of a matrix differ", [&] { return df; });
	}
	c.op("eye_like");
	{
		Spec s;
		if (r.chance(0.5))
		{
			s = random_spec(r, g, 2);
			if (r.chance(0.6))
				s.lay[1] = shift(g, inv(g, s.lay[0]), g.random(r)), s.sel = random_sel(r, g, s.lay);
		}
		else
			s = Spec{&g, {d, shift(g, inv(g, d), g.random(r))}, g.neutral()};
		if (s.lay.size() == 2 && r.chance(0.3))
			for (auto &x : s.lay[1])
				x.size = r.in(1, 3);
		c.describe(s.str());
		c.seen(cat("eye_like", s.str(), tname(dt)));
		auto src = make(r, s, pick_dtype(r));
		bool inh = r.chance(0.3);
		auto t = inh ? eye_like(src) : eye_like(src, opt);
		auto w = inh ? dtype_of(src) : dt;
		validate(c, t, "eye_like");
		expect_spec(c, t, s, "eye_like");
		c.check(dtype_of(t) == w, "scalar type");
		c.check(torch::equal(dense_of(t), eye_ref(s, w)), "identity on the allowed diagonal blocks");
		Spec n = s;
		n.sel = g.neutral();
		auto e = eye(s.vecs(), opt);
		validate(c, e, "eye");
		expect_spec(c, e, n, "eye of a matrix");
		c.check(torch::equal(dense_of(e), eye_ref(n, dt)), "identity on the allowed diagonal blocks");
	}
	auto s3 = random_spec(r, g, r.chance(0.5) ? 3 : 1);
	auto t3 = make(r, s3, torch::kDouble);
	c.must_throw([&] { (void)eye_like(t3); }, "eye_like of another rank");
	auto s4 = random_spec(r, g, r.in(3, 4));
	c.must_throw([&] { (void)eye(s4.vecs()); }, "eye of rank above 2");
}

void conversions(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto from = any_dtype(r), to = any_dtype(r);
	if (is_complex(from) && !is_complex(to))
		to = torch::kComplexFloat;
	MakeOpt mo;
	mo.density = r.chance(0.15) ? 0 : r.unit();
	auto dense = values(r, s.sizes(), from);
	btensor a = make(r, s, torch::kDouble, mo);
	{ // the same blocks with values of the wanted type
		btensor b(s.vecs(), s.selq(), TensorOptions().dtype(from));
		for (auto &k : keys(a))
			b.block(k) = values(r, block_shape(s.lay, k), from);
		a = b;
	}
	Snap snap(a);
	auto D = dense_of(a);
	c.describe(cat(s.str(), " ", tname(from), "->", tname(to)));
	c.seen(cat(s.str(), tname(from), tname(to), keys(a).size()));
	auto other = make(r, random_spec(r, pick_group(r), 2), torch::kDouble).to(to);
	int how = r.in(0, 5);
	static const char *nm[] = {"to(options)", "to(btensor)", "to(device,dtype)", "to(dtype)", "to(TypeMeta)", "to(Tensor)"};
	c.op(nm[how]);
	bool copy = r.chance(0.5);
	btensor t = [&] {
		switch (how)
		{
		case 0: return a.to(TensorOptions().dtype(to), false, copy);
		case 1: return a.to(other, false, copy);
		case 2: return a.to(torch::Device(torch::kCPU), to, false, copy);
		case 3: return a.to(to, false, copy);
		case 4: return a.to(torch::scalarTypeToTypeMeta(to), false, copy);
		default: return a.to(torch::ones({1}, TensorOptions().dtype(to)), false, copy);
		}
	}();
	validate(c, t, "conversion");
	expect_spec(c, t, s, "conversion");
	c.check(dtype_of(t) == to, "scalar type", [&] { return tname(dtype_of(t)); });
	c.check(keys(t) == keys(a), "stored blocks");
	c.check(torch::equal(dense_of(t), D.to(to)), "values");
	if (copy)
	{
		for (auto &b : t)
			std::get<1>(b).add_(1);
	}
	auto d = snap.diff(a);
	c.check(d == "", "operand modified", [&] { return d; });
}

void selection_rules(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, 2);
	auto dt = r.chance(0.7) ? torch::kDouble : r.chance(0.5) ? torch::kFloat : torch::kComplexDouble;
	auto dense = random_values(r, s.sizes(), dt) * mask(s).to(dt);
	auto shape = make(r, Spec{&g, s.lay, r.chance(0.5) ? s.sel : g.random(r, 3)}, torch::kDouble);
	c.describe(s.str());
	double cut = r.chance(0.5) ? 1e-15 : 0.01; // elements are 0 or at least 0.125
	if (r.chance(0.3))
		dense = dense + 1e-17 * torch::ones_like(dense);
	c.op("find_selection_rule");
	Snap snap(shape);
	auto dc = dense.clone();
	bool none = filled_blocks(s).empty();
	auto q = find_selection_rule(dense, shape, cut);
	c.seen(cat(s.str(), none));
	c.check(q == (none ? g.make(g.neutral()) : s.selq()), "deduced selection rule", [&] { return cat(fmt::format("{}", q), " for ", s.str()); });
	c.check(torch::equal(dense, dc) && snap.diff(shape) == "", "operands modified");
	// an element of another charge makes the rule ill-defined
	auto v = s;
	std::vector<IL> other;
	for (auto &b : all_blocks(s.lay))
		if (charge(s, b) != s.sel && !is_empty(s, b))
			other.push_back(b);
	if (!none && !other.empty())
	{
		auto b = r.pick(other);
		auto off = block_offset(s.lay, b), sh = block_shape(s.lay, b);
		auto bad = dense.clone();
		bad.index_put_({off[0] + r.in(0, sh[0] - 1), off[1] + r.in(0, sh[1] - 1)},
		               dt == torch::kComplexDouble && r.chance(0.5) ? at::Scalar(c10::complex<double>(0, 0.5)) : at::Scalar(0.5));
		c.must_throw_as<std::logic_error>([&] { (void)find_selection_rule(bad, shape, cut); }, "tensor without selection rule");
	}
	auto sz = s.sizes();
	sz[r.next() % 2] += 1;
	c.must_throw([&] { (void)find_selection_rule(torch::ones(sz), shape, cut); }, "sizes of another tensor");
	c.must_throw([&] { (void)find_selection_rule(torch::ones({2, 2, 2}), shape, cut); }, "rank 3");
}
} // namespace
PROPERTY(B06)
{
	ctx.fixed("moments", moments);
	ctx.family("round_trip", ctx.n(12000, 150000), round_trip);
	ctx.family("factories", ctx.n(5000, 60000), factories);
	ctx.family("eye", ctx.n(5000, 60000), eyes);
	ctx.family("to", ctx.n(8000, 100000), conversions);
	ctx.family("selection_rule", ctx.n(5000, 60000), selection_rules);
}

namespace
{
// Requests that must be refused.  Whatever happens, the operands stay as they were.
struct Guard
{
	Case &c;
	std::vector<const btensor *> t;
	std::vector<Snap> s;
	template <class... T>
	Guard(Case &c, const T &...x) : c(c), t{&x...}
	{
		for (auto p : t)
			s.emplace_back(*p);
	}
	template <class F>
	void refuse(F &&f, const char *what)
	{
		c.must_throw(f, what);
		for (size_t i = 0; i < t.size(); ++i)
		{
			auto d = s[i].diff(*t[i]);
			c.check(d == "", "a refused request changed its operand", [&] { return cat(what, ": operand ", i, ": ", d); });
			auto v = defects(*t[i]);
			c.check(v == "", "a refused request left an invalid operand", [&] { return cat(what, ": ", v); });
		}
	}
};
Val other_than(Rng &r, const Grp &g, const Val &v)
{
	for (;;)
	{
		auto x = g.random(r, 3);
		if (x != v)
			return x;
	}
}
bool trivial(const Grp &g) { return std::all_of(g.mods.begin(), g.mods.end(), [](auto m) { return m == 1; }); }
// what is changed to make the layouts incompatible
enum Break
{
	charge_of_section,
	size_of_section,
	extra_section,
	swapped_sections,
	nbreak
};
// changes dimension d so that it neither matches nor broadcasts with the original; false when impossible
bool break_dim(Rng &r, const Grp &g, Dim &d, int how)
{
	auto o = d;
	switch (how)
	{
	case charge_of_section:
	{
		if (trivial(g))
			return false;
		auto &x = r.pick(d);
		x.q = other_than(r, g, x.q);
		return true;
	}
	case size_of_section:
		r.pick(d).size += r.in(1, 2);
		return dim_size(o) > 1;
	case extra_section:
		d.push_back({r.in(1, 2), g.random(r)});
		return dim_size(o) > 1;
	default:
	{
		if (d.size() < 2)
			return false;
		size_t i = r.next() % d.size(), j = r.next() % d.size();
		std::swap(d[i], d[j]);
		return !(d == o);
	}
	}
}
const char *break_name(int h)
{
	static const char *n[] = {"charge of a section", "size of a section", "one more section", "swapped sections"};
	return n[h];
}
void additions(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4));
	Spec b = s;
	int how = r.in(0, nbreak + 1);
	if (how < nbreak)
	{
		size_t d = r.next() % s.lay.size();
		if (!break_dim(r, g, b.lay[d], how))
			return;
		if (r.chance(0.5))
			b.sel = random_sel(r, g, b.lay);
		else if (b.sel != s.sel)
			return;
		// when the selection rule differs it is also incompatible; both are refused
		c.tag = break_name(how);
	}
	else if (how == nbreak)
	{
		if (trivial(g))
			return;
		b.sel = other_than(r, g, s.sel);
		c.tag = "selection rule";
	}
	else
	{ // a different number of dimensions that can't be broadcast
		b.lay.erase(b.lay.begin());
		b.lay.push_back({{dim_size(s.lay.back()) + 1, g.neutral()}, {2, g.neutral()}});
		b.lay.push_back({{dim_size(s.lay.back()) + 1, g.neutral()}, {2, g.neutral()}});
		c.tag = "dimensions";
	}
	auto dt = pick_dtype(r);
	auto x = make(r, s, dt), y = make(r, b, dt);
	if (r.chance(0.5))
		std::swap(x, y);
	c.describe(cat(c.tag, " ", s.str(), " ", b.str()));
	c.seen(cat("add", c.tag, s.str(), b.str()));
	c.count("add: " + c.tag);
	Guard G(c, x, y);
	c.op("add");
	G.refuse([&] { (void)x.add(y); }, "add");
	G.refuse([&] { (void)(x + y); }, "operator+");
	G.refuse([&] { (void)(x - y); }, "operator-");
	G.refuse([&] { (void)x.sub(y, 2); }, "sub");
	G.refuse([&] { auto z = y; (void)x.add(std::move(z)); }, "add of an rvalue");
	c.op("add_");
	G.refuse([&] { x.add_(y); }, "add_");
	G.refuse([&] { x.sub_(y); }, "sub_");
	G.refuse([&] { x += y; }, "operator+=");
	G.refuse([&] { x -= y; }, "operator-=");
	G.refuse([&] { auto z = y; x.add_(std::move(z)); }, "add_ of an rvalue");
}
void products(Case &c)
{ // element-wise products only need the same section sizes
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4));
	Spec b = s;
	size_t d = r.next() % s.lay.size();
	int how = r.in(0, 2);
	if (how == 2)
	{ // sections exchanged: sizes differ although the dimensions have the same total
		auto &l = b.lay[d];
		if (l.size() < 2)
			return;
		size_t i = r.next() % (l.size() - 1);
		if (l[i].size == l[i + 1].size)
			return;
		std::swap(l[i], l[i + 1]);
	}
	else if (!break_dim(r, g, b.lay[d], how == 0 ? size_of_section : extra_section))
		return;
	b.sel = random_sel(r, g, b.lay);
	auto dt = pick_dtype(r);
	auto x = make(r, s, dt), y = make(r, b, dt);
	if (r.chance(0.5))
		std::swap(x, y);
	c.describe(cat(s.str(), " ", b.str()));
	c.seen(cat("mul", how, s.str(), b.str()));
	Guard G(c, x, y);
	c.op("mul");
	G.refuse([&] { (void)x.mul(y); }, "mul");
	G.refuse([&] { (void)(x * y); }, "operator*");
	G.refuse([&] { (void)x.div(y); }, "div");
	G.refuse([&] { (void)x.pow(y); }, "pow");
	c.op("mul_");
	G.refuse([&] { x.mul_(y); }, "mul_");
	G.refuse([&] { x.div_(y); }, "div_");
	G.refuse([&] { x *= y; }, "operator*=");
	G.refuse([&] { x /= y; }, "operator/=");
}
void contractions(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec a, b;
	IL da, db;
	zoo::contraction_specs(r, g, a, b, da, db);
	int how = r.in(0, nbreak + 3);
	if (how < nbreak)
	{
		if (da.empty())
			return;
		size_t k = r.next() % da.size();
		auto o = b.lay[db[k]];
		if (!break_dim(r, g, b.lay[db[k]], how) && b.lay[db[k]] == o)
			return;
		c.tag = break_name(how);
	}
	else if (how == nbreak)
	{ // contracting more dimensions on one side
		if (a.rank() == int64_t(da.size()))
			return;
		std::set<int64_t> used(da.begin(), da.end());
		for (int64_t i = 0; i < a.rank(); ++i)
			if (!used.count(i))
			{
				da.push_back(i);
				break;
			}
		c.tag = "dimension lists of different lengths";
	}
	else if (how == nbreak + 1)
	{
		if (da.empty())
			return;
		auto &l = r.chance(0.5) ? da : db;
		auto rank = &l == &da ? a.rank() : b.rank();
		r.pick(l) = r.chance(0.5) ? rank + r.in(0, 2) : -rank - 1 - r.in(0, 2);
		c.tag = "dimension out of range";
	}
	else if (how == nbreak + 2)
	{
		if (da.empty())
			return;
		da.push_back(da[0]);
		db.push_back(db[0]);
		c.tag = "repeated dimension";
	}
	else
	{ // not conjugated
		if (da.empty())
			return;
		size_t k = r.next() % da.size();
		if (b.lay[db[k]] == a.lay[da[k]])
			return;
		b.lay[db[k]] = a.lay[da[k]];
		c.tag = "charges not inverted";
	}
	auto dt = pick_dtype(r);
	auto x = make(r, a, dt), y = make(r, b, dt);
	c.describe(cat(c.tag, " ", a.str(), vstr(da), " ", b.str(), vstr(db)));
	c.seen(cat("dot", c.tag, a.str(), b.str(), vstr(da), vstr(db)));
	c.count("tensordot: " + c.tag);
	Guard G(c, x, y);
	auto t = c.tag;
	G.refuse([&] { (void)x.tensordot(y, da, db); }, "tensordot");
	G.refuse([&] { (void)quantit::tensordot(y, x, db, da); }, "tensordot");
}
void batched(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec a, b;
	zoo::bmm_specs(r, g, a, b);
	int64_t n = a.rank();
	int how = r.in(0, nbreak);
	size_t d = how < nbreak ? n - 2 : 0;
	if (how == nbreak)
	{
		if (n < 3)
			return;
		d = r.in(0, n - 3);
		auto o = b.lay[d];
		if (!break_dim(r, g, b.lay[d], r.chance(0.5) ? size_of_section : extra_section) && b.lay[d] == o)
			return;
		c.tag = "batch sections";
	}
	else
	{
		auto o = b.lay[d];
		if (!break_dim(r, g, b.lay[d], how) && b.lay[d] == o)
			return;
		c.tag = break_name(how);
	}
	auto dt = pick_dtype(r);
	auto x = make(r, a, dt), y = make(r, b, dt);
	c.describe(cat(c.tag, " ", a.str(), " ", b.str()));
	c.seen(cat("bmm", c.tag, a.str(), b.str()));
	c.count("bmm: " + c.tag);
	Guard G(c, x, y);
	G.refuse([&] { (void)x.bmm(y); }, "bmm");
}
void products_of_ranks(Case &c)
{ // operands of different ranks: the trailing dimensions must match or broadcast
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(2, 4));
	Spec b = s;
	b.lay.erase(b.lay.begin(), b.lay.begin() + r.in(1, s.rank() - 1));
	size_t d = r.next() % b.lay.size();
	if (!break_dim(r, g, b.lay[d], r.chance(0.5) ? size_of_section : extra_section))
		return;
	b.sel = random_sel(r, g, b.lay);
	auto dt = pick_dtype(r);
	auto x = make(r, s, dt), y = make(r, b, dt);
	if (r.chance(0.5))
		std::swap(x, y);
	c.describe(cat(s.str(), " ", b.str()));
	c.seen(cat("mul of ranks", s.str(), b.str()));
	Guard G(c, x, y);
	c.op("mul of other ranks");
	G.refuse([&] { (void)x.mul(y); }, "mul");
	G.refuse([&] { (void)x.div(y); }, "div");
	G.refuse([&] { (void)x.pow(y); }, "pow");
	G.refuse([&] { x.mul_(y); }, "mul_");
	G.refuse([&] { x.div_(y); }, "div_");
}
void other_groups(Case &c)
{ // charges of different groups never combine
	Rng &r = c.rng;
	auto &g = pick_group(r);
	const Grp *h = &pick_group(r);
	while (h->mods == g.mods)
		h = &pick_group(r);
	int kind = int(r.in(0, 2));
	Spec a, b;
	IL da, db;
	if (kind == 0)
		zoo::contraction_specs(r, g, a, b, da, db);
	else if (kind == 1)
		zoo::bmm_specs(r, g, a, b);
	else
		a = b = random_spec(r, g, r.in(0, 4));
	b.g = h;
	for (auto &d : b.lay)
		for (auto &x : d)
			x.q = r.chance(0.5) ? h->neutral() : h->random(r);
	if (r.chance(0.3))
		b.sel = h->neutral();
	else if (all_blocks(b.lay).empty())
		b.sel = h->random(r);
	else
		b.sel = random_sel(r, *h, b.lay);
	auto dt = pick_dtype(r);
	auto x = make(r, a, dt), y = make(r, b, dt);
	if (kind != 1 && r.chance(0.5))
	{
		std::swap(x, y);
		std::swap(da, db);
	}
	static const char *nm[] = {"tensordot", "bmm", "element-wise"};
	c.tag = nm[kind];
	c.op(cat(nm[kind], " of other groups"));
	c.describe(cat(c.tag, " ", a.str(), " ", b.str()));
	c.seen(cat(c.tag, a.str(), b.str(), vstr(da), keys(x).size(), keys(y).size()));
	c.count("other groups: " + c.tag);
	Guard G(c, x, y);
	if (kind == 0)
	{
		G.refuse([&] { (void)x.tensordot(y, da, db); }, "tensordot");
		G.refuse([&] { (void)quantit::tensordot(y, x, db, da); }, "tensordot");
	}
	else if (kind == 1)
		G.refuse([&] { (void)x.bmm(y); }, "bmm");
	else
	{
		G.refuse([&] { (void)x.add(y); }, "add");
		G.refuse([&] { (void)x.sub(y); }, "sub");
		G.refuse([&] { x.add_(y); }, "add_");
		G.refuse([&] { x.sub_(y); }, "sub_");
		G.refuse([&] { (void)x.mul(y); }, "mul");
		G.refuse([&] { x.mul_(y); }, "mul_");
		G.refuse([&] { (void)x.div(y); }, "div");
		G.refuse([&] { x.div_(y); }, "div_");
	}
}
void batched_of_ranks(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec a, b;
	zoo::bmm_specs(r, g, a, b);
	if (r.chance(0.5))
		{
		auto &x = r.chance(0.5) ? a : b;
		x.lay.insert(x.lay.begin(), Dim{Sec{1, g.neutral()}});
	}
	else
	{
		auto &x = r.chance(0.5) ? a : b;
		x.lay.erase(x.lay.begin());
	}
	if (a.rank() == b.rank())
		return;
	auto dt = pick_dtype(r);
	auto x = make(r, a, dt), y = make(r, b, dt);
	c.op("bmm of other ranks");
	c.describe(cat(a.str(), " ", b.str()));
	c.seen(cat("bmm ranks", a.str(), b.str()));
	Guard G(c, x, y);
	G.refuse([&] { (void)x.bmm(y); }, "bmm of tensors of different ranks");
}
void shapes(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4));
	auto x = make(r, s, pick_dtype(r));
	const btensor &cx = x;
	int64_t n = s.rank();
	c.describe(s.str());
	c.seen(cat("shape", s.str(), keys(x).size()));
	Guard G(c, x);
	IL id(n);
	std::iota(id.begin(), id.end(), 0);
	int64_t out = r.chance(0.5) ? n + r.in(0, 3) : -n - 1 - r.in(0, 3);
	c.op("permute");
	{
		auto p = id;
		r.shuffle(p);
		p.push_back(r.in(0, n));
		G.refuse([&] { (void)cx.permute(p); }, "permutation too long");
		G.refuse([&] { x.permute_(p); }, "permutation too long, in place");
		if (n >= 1)
		{
			p = id;
			r.shuffle(p);
			p.pop_back();
			G.refuse([&] { (void)cx.permute(p); }, "permutation too short");
			G.refuse([&] { x.permute_(p); }, "permutation too short, in place");
			p = id;
			r.shuffle(p);
			r.pick(p) = out;
			G.refuse([&] { (void)cx.permute(p); }, "permutation out of range");
			G.refuse([&] { x.permute_(p); }, "permutation out of range, in place");
		}
		if (n >= 2)
		{
			p = id;
			r.shuffle(p);
			p[0] = r.chance(0.5) ? p[1] : p[1] - n;
			G.refuse([&] { (void)cx.permute(p); }, "permutation with a repeated dimension");
			G.refuse([&] { x.permute_(p); }, "permutation with a repeated dimension, in place");
		}
	}
	c.op("transpose");
	if (n >= 1)
	{
		int64_t k = r.in(0, n - 1);
		G.refuse([&] { (void)cx.transpose(out, k); }, "transpose");
		G.refuse([&] { (void)cx.transpose(k, out); }, "transpose");
		G.refuse([&] { x.transpose_(out, k); }, "transpose_");
		G.refuse([&] { x.transpose_(k, out); }, "transpose_");
	}
	c.op("squeeze");
	G.refuse([&] { (void)cx.squeeze(out); }, "squeeze");
	G.refuse([&] { x.squeeze_(out); }, "squeeze_");
	c.op("cval_shift");
	auto q = g.make(g.random(r, 3));
	G.refuse([&] { (void)cx.cval_shift(q, n + r.in(0, 2)); }, "cval_shift");
	G.refuse([&] { x.cval_shift_(q, n + r.in(0, 2)); }, "cval_shift_");
	G.refuse([&] { x.cval_shift_(q, -1 - n); }, "cval_shift_");
	c.op("foreign charge");
	{
		auto &h = [&]() -> const Grp & {
			for (;;)
			{
				auto &h = pick_group(r);
				if (h.name != g.name)
					return h;
			}
		}();
		auto f = h.make(h.random(r));
		if (n > 0)
		{
			G.refuse([&] { x.cval_shift_(f, r.in(0, n - 1)); }, "cval_shift_ by a charge of another group");
			G.refuse([&] { (void)cx.cval_shift(f, r.in(0, n - 1)); }, "cval_shift by a charge of another group");
			// the charges of all the dimensions and the selection rule come from one group
			G.refuse([&] { (void)btensor(s.vecs(), f); }, "selection rule of another group");
			auto hs = random_spec(r, h, n);
			auto y = make(r, hs, dtype_of(x));
			Guard H(c, x, y);
			H.refuse([&] { (void)x.add(y); }, "add tensors of different groups");
			H.refuse([&] { x.add_(y); }, "add_ tensors of different groups");
			H.refuse([&] { (void)x.tensordot(y, {0}, {0}); }, "contract tensors of different groups");
			if (n >= 2)
			{
				auto v = s.vecs();
				v[n - 1] = hs.vecs()[n - 1];
				H.refuse([&] { (void)btensor(v, s.selq()); }, "dimensions of different groups");
			}
		}
		auto e = sparse_zeros_like(x);
		Guard E(c, e);
		E.refuse([&] { e.shift_selection_rule_(f); }, "shift_selection_rule_ of another group");
		E.refuse([&] { e.set_selection_rule_(f); }, "set_selection_rule_ of another group");
		if (n > 0)
			E.refuse([&] { e.non_conserving_cval_shift_(f, 0); }, "non_conserving_cval_shift_ of another group");
	}
	c.op("reshape");
	if (n >= 1)
	{
		G.refuse([&] { (void)cx.reshape(torch::IntArrayRef(IL{n + r.in(1, 3)})); }, "reshape out of range");
		G.refuse([&] { (void)cx.reshape(torch::IntArrayRef(IL{-1 - r.in(0, 3)})); }, "reshape negative");
	}
	if (n >= 3)
		G.refuse([&] { (void)cx.reshape(torch::IntArrayRef(IL{2, 1})); }, "reshape decreasing");
	c.op("accessors");
	{
		size_t d = n + r.in(0, 2);
		G.refuse([&] { (void)cx.section_number(d); }, "section_number");
		G.refuse([&] { (void)cx.section_sizes(d); }, "section_sizes");
		G.refuse([&] { (void)cx.section_cqtts(d); }, "section_cqtts");
		G.refuse([&] { (void)cx.section_sizes_cqtts(d); }, "section_sizes_cqtts");
		G.refuse([&] { (void)cx.section_size(d, 0); }, "section_size");
		G.refuse([&] { (void)cx.section_conserved_qtt(d, 0); }, "section_conserved_qtt");
		G.refuse([&] { (void)cx.section_size_cqtt(d, 0); }, "section_size_cqtt");
		G.refuse([&] { (void)cx.element_conserved_qtt(d, 0); }, "element_conserved_qtt");
		if (n > 0)
		{
			size_t k = r.in(0, n - 1), m = s.lay[k].size() + r.in(0, 2);
			G.refuse([&] { (void)cx.section_size(k, m); }, "section_size, section out of range");
			G.refuse([&] { (void)cx.section_conserved_qtt(k, m); }, "section_conserved_qtt, section out of range");
			G.refuse([&] { (void)cx.section_size_cqtt(k, m); }, "section_size_cqtt, section out of range");
			G.refuse([&] { (void)cx.element_conserved_qtt(k, dim_size(s.lay[k]) + r.in(0, 2)); }, "element_conserved_qtt, element out of range");
			IL b(n, 0);
			b[k] = s.lay[k].size() + r.in(0, 2);
			G.refuse([&] { (void)cx.block_quantities(b); }, "block_quantities");
			G.refuse([&] { (void)cx.block_sizes(b); }, "block_sizes");
			G.refuse([&] { (void)x.block(b); }, "block");
			G.refuse([&] { (void)x.block_at(b); }, "block_at");
			b[k] = -1 - r.in(0, 2);
			G.refuse([&] { (void)cx.block_quantities(b); }, "block_quantities, negative");
			G.refuse([&] { (void)x.block(b); }, "block, negative");
			G.refuse([&] { (void)x.block_at(b); }, "block_at, negative");
			b.assign(n + 1, 0);
			G.refuse([&] { (void)cx.block_quantities(b); }, "block_quantities, too long");
			G.refuse([&] { (void)x.block(b); }, "block, too long");
			G.refuse([&] { (void)x.block_at(b); }, "block_at, too long");
			b.assign(n - 1, 0);
			G.refuse([&] { (void)cx.block_quantities(b); }, "block_quantities, too short");
			G.refuse([&] { (void)x.block(b); }, "block, too short");
			G.refuse([&] { (void)x.block_at(b); }, "block_at, too short");
		}
	}
	c.op("forbidden block");
	for (auto &b : all_blocks(s.lay))
	{
		if (charge(s, b) == s.sel)
			continue;
		G.refuse([&] { (void)x.block(b); }, "block of forbidden charge");
		G.refuse([&] { (void)x.block_at(b); }, "block_at of forbidden charge");
		break;
	}
	c.op("non empty");
	if (!keys(x).empty())
	{
		G.refuse([&] { x.set_selection_rule_(q); }, "set_selection_rule_ on stored blocks");
		G.refuse([&] { x.shift_selection_rule_(q); }, "shift_selection_rule_ on stored blocks");
		G.refuse([&] { x.neutral_selection_rule_(); }, "neutral_selection_rule_ on stored blocks");
		if (n > 0)
			G.refuse([&] { x.non_conserving_cval_shift_(q, 0); }, "non_conserving_cval_shift_ on stored blocks");
		G.refuse([&] { x.neutral_shape_(); }, "neutral_shape_ on stored blocks");
	}
	int64_t elems = 0;
	for (auto &b : cx)
		elems += std::get<1>(b).numel();
	if (elems > 1)
		G.refuse([&] { (void)cx.item(); }, "item of many elements");
}
void slots(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4));
	auto x = make(r, s, torch::kDouble);
	IL sl;
	auto sz = s.sizes();
	for (auto k : sz)
		sl.push_back(r.chance(0.5) ? -1 : r.in(0, k - 1));
	auto shape = x.shape_from(sl);
	c.describe(cat(s.str(), vstr(sl)));
	Spec vs;
	vs.g = &g;
	Val fixed = g.neutral();
	for (int64_t i = 0; i < s.rank(); ++i)
	{
		if (sl[i] < 0)
		{
			vs.lay.push_back(s.lay[i]);
			continue;
		}
		int64_t e = sl[i], k = 0;
		while (e >= s.lay[i][k].size)
			e -= s.lay[i][k++].size;
		fixed = g.mul(fixed, s.lay[i][k].q);
	}
	vs.sel = g.mul(s.sel, g.inv(fixed));
	Spec bad = vs;
	int how = r.in(0, nbreak);
	if (how == nbreak || bad.lay.empty())
	{
		if (trivial(g))
			return;
		bad.sel = other_than(r, g, vs.sel);
		c.tag = "selection rule";
		// the value must carry elements to be refused
	}
	else
	{
		auto &d = r.pick(bad.lay);
		auto o = d;
		if (!break_dim(r, g, d, how) && d == o)
			return;
		c.tag = break_name(how);
	}
	c.seen(cat("slot", c.tag, s.str(), vstr(sl)));
	auto v = make(r, bad, torch::kDouble, MakeOpt{1, 0, 0.3, true});
	if (keys(v).empty())
		return;
	Guard G(c, x, v);
	c.count("basic_index_put_: " + c.tag);
	G.refuse([&] { x.basic_index_put_(sl, v); }, "assignment of an incompatible tensor");
}
} // namespace
PROPERTY(B07)
{
	ctx.family("add", ctx.n(15000, 150000), additions);
	ctx.family("mul", ctx.n(12000, 120000), products);
	ctx.family("tensordot", ctx.n(15000, 150000), contractions);
	ctx.family("bmm", ctx.n(8000, 80000), batched);
	ctx.family("bmm of ranks", ctx.n(3000, 30000), batched_of_ranks);
	ctx.family("mul of ranks", ctx.n(4000, 40000), products_of_ranks);
	ctx.family("other groups", ctx.n(5000, 50000), other_groups);
	ctx.family("shape", ctx.n(8000, 80000), shapes);
	ctx.family("slot", ctx.n(8000, 80000), slots);
}
