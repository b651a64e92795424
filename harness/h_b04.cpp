// B04: permutations, reshapes, squeezes.  B05: block access, element positions, views, slot assignment.
#include "zoo.h"
#include <numeric>
using namespace bt;
using namespace quantit;
namespace
{
MakeOpt rnd(Rng &r)
{
	MakeOpt mo;
	mo.density = r.chance(0.4) ? r.unit() : 0.8;
	return mo;
}
btensor own(const btensor &a)
{
	btensor t = a;
	for (auto &b : t)
		std::get<1>(b) = std::get<1>(b).clone();
	return t;
}
void exactly(Case &c, const btensor &got, const Spec &s, const Tensor &want, const char *what)
{
	validate(c, got, what);
	expect_spec(c, got, s, what);
	auto d = dense_of(got);
	c.check(d.sizes() == want.sizes() && torch::equal(d, want.resolve_conj()), what, [&] { return cat("elements differ, ", show(got)); });
	c.check(dtype_of(got) == want.scalar_type(), "scalar type changed");
}
void identical(Case &c, const btensor &got, const btensor &ref, const char *what)
{
	auto d = Snap(ref).diff(got);
	c.check(d == "", what, [&] { return d; });
}
Spec permuted(const Spec &s, const IL &p)
{
	Spec o = s;
	for (size_t i = 0; i < p.size(); ++i)
		o.lay[i] = s.lay[(p[i] + s.rank()) % s.rank()];
	return o;
}
IL perm(Rng &r, int64_t n)
{
	IL p(n);
	std::iota(p.begin(), p.end(), 0);
	r.shuffle(p);
	return p;
}
IL wrap(Rng &r, IL p)
{
	int64_t n = p.size();
	for (auto &x : p)
		if (r.chance(0.3))
			x -= n;
	return p;
}
void permuting(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 5), 3);
	auto a = make(r, s, pick_dtype(r), rnd(r));
	auto D = dense_of(a);
	int64_t n = s.rank();
	auto p = perm(r, n), q = perm(r, n);
	c.describe(s.str() + " " + vstr(p));
	c.seen(cat(s.str(), vstr(p), vstr(keys(a))));
	Snap before(a);
	c.op("permute");
	exactly(c, a.permute(wrap(r, p)), permuted(s, p), D.permute(p), "permute");
	{
		auto t = own(a);
		auto &ref = t.permute_(wrap(r, p));
		c.check(&ref == &t, "permute_ returns another tensor");
		exactly(c, t, permuted(s, p), D.permute(p), "permute_");
	}
	IL ip(n), pq(n);
	for (int64_t i = 0; i < n; ++i)
	{
		ip[p[i]] = i;
		pq[i] = p[q[i]];
	}
	identical(c, a.permute(p).permute(ip), a, "the inverse permutation doesn't restore the tensor");
	identical(c, a.permute(p).permute(q), a.permute(pq), "permutations don't compose");
	if (n >= 1)
	{
		c.op("transpose");
		int64_t x = r.in(0, n - 1), y = r.in(0, n - 1);
		IL tp(n);
		std::iota(tp.begin(), tp.end(), 0);
		std::swap(tp[x], tp[y]);
		auto w = [&](int64_t k) { return r.chance(0.3) ? k - n : k; };
		exactly(c, a.transpose(w(x), w(y)), permuted(s, tp), D.transpose(x, y), "transpose");
		auto t = own(a);
		t.transpose_(w(x), w(y));
		exactly(c, t, permuted(s, tp), D.transpose(x, y), "transpose_");
		identical(c, a.transpose(x, y).transpose(x, y), a, "transposing twice");
	}
	if (n >= 2)
	{
		c.op("t");
		IL tp(n);
		std::iota(tp.begin(), tp.end(), 0);
		std::swap(tp[n - 1], tp[n - 2]);
		exactly(c, a.t(), permuted(s, tp), D.transpose(n - 1, n - 2), "t");
		auto t = own(a);
		t.t_();
		exactly(c, t, permuted(s, tp), D.transpose(n - 1, n - 2), "t_");
	}
	auto d = before.diff(a);
	c.check(d == "", "operand modified", [&] { return d; });
}
// positions, in the flattened group of dimensions, in the order of the grouped dimension: sections in lexicographic
// order, elements of a section in row major order
std::vector<int64_t> group_order(const Layout &l)
{
	IL sz;
	for (auto &d : l)
		sz.push_back(dim_size(d));
	std::vector<int64_t> o;
	for (auto &b : all_blocks(l))
	{
		auto off = block_offset(l, b), sh = block_shape(l, b);
		IL e(l.size(), 0);
		int64_t n = 1;
		for (auto x : sh)
			n *= x;
		for (int64_t k = 0; k < n; ++k)
		{
			int64_t flat = 0;
			for (size_t i = 0; i < l.size(); ++i)
				flat = flat * sz[i] + off[i] + e[i];
			o.push_back(flat);
			for (int64_t i = int64_t(l.size()) - 1; i >= 0; --i)
			{
				if (++e[i] < sh[i])
					break;
				e[i] = 0;
			}
		}
	}
	return o;
}
void grouped(const Spec &s, const IL &groups, Spec &os)
{
	IL m{0};
	m.insert(m.end(), groups.begin(), groups.end());
	m.push_back(s.rank());
	os = Spec{s.g, {}, s.sel};
	for (size_t k = 0; k + 1 < m.size(); ++k)
	{
		Layout l(s.lay.begin() + m[k], s.lay.begin() + m[k + 1]);
		Dim d;
		for (auto &b : all_blocks(l))
		{
			Sec x{1, s.g->neutral()};
			for (size_t i = 0; i < b.size(); ++i)
			{
				x.size *= l[i][b[i]].size;
				x.q = s.g->mul(x.q, l[i][b[i]].q);
			}
			d.push_back(x);
		}
		os.lay.push_back(d);
	}
}
void grouped(const Spec &s, const IL &groups, const Tensor &D, Spec &os, Tensor &od)
{
	grouped(s, groups, os);
	IL m{0};
	m.insert(m.end(), groups.begin(), groups.end());
	m.push_back(s.rank());
	IL sz;
	std::vector<std::vector<int64_t>> ord;
	for (size_t k = 0; k + 1 < m.size(); ++k)
	{
		ord.push_back(group_order(Layout(s.lay.begin() + m[k], s.lay.begin() + m[k + 1])));
		sz.push_back(ord.back().size());
	}
	od = D.resolve_conj().contiguous().reshape(sz);
	for (size_t k = 0; k < ord.size(); ++k)
		od = od.index_select(k, torch::tensor(ord[k], torch::kLong));
}
IL random_groups(Rng &r, int64_t n, bool empties)
{
	IL g;
	for (int64_t i = 0; i <= n; ++i)
		while (r.chance((i == 0 || i == n) ? (empties ? 0.15 : 0) : 0.45))
		{
			g.push_back(i);
			if (!empties)
				break;
			if (g.size() > 4)
				break;
		}
	return g;
}
void reshaping(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 5), 3, 2);
	auto a = make(r, s, pick_dtype(r), rnd(r));
	if (r.chance(0.3) && s.rank() >= 2)
	{ // blocks that are views
		auto p = perm(r, s.rank());
		a = a.permute(p);
		s = permuted(s, p);
	}
	auto D = dense_of(a);
	auto G = random_groups(r, s.rank(), r.chance(0.15));
	c.describe(s.str() + " " + vstr(G));
	c.seen(cat(s.str(), vstr(G), vstr(keys(a))));
	Snap before(a);
	Spec os;
	Tensor od;
	grouped(s, G, D, os, od);
	c.op("reshape");
	const btensor ca = a;
	auto t = ca.reshape(torch::IntArrayRef(G));
	exactly(c, t, os, od, "reshape");
	c.check(t.blocks().size() == a.blocks().size(), "reshape changed the number of stored blocks");
	c.op("reshape_as");
	auto back = t.reshape_as(a);
	identical(c, back, a, "reshape_as doesn't restore the tensor");
	identical(c, t.reshape_as(shape_from(a)), a, "reshape_as of the empty shape doesn't restore the tensor");
	identical(c, a.reshape_as(t), t, "reshape_as the grouped shape");
	auto G2 = random_groups(r, s.rank(), false);
	auto t2 = ca.reshape(torch::IntArrayRef(G2));
	identical(c, t.reshape_as(t2), t2, "reshape_as another grouping");
	// a permutation of the grouped tensor, undone, then ungrouped
	{
		auto p = perm(r, t.dim());
		IL ip(p.size());
		for (size_t i = 0; i < p.size(); ++i)
			ip[p[i]] = i;
		identical(c, t.permute(p).permute(ip).reshape_as(a), a, "grouping, permuting and undoing both");
	}
	c.op("reshape_as overwriting the charges");
	{
		Spec ns = s;
		for (auto &d : ns.lay)
		{
			auto q = g.random(r);
			d = shift(g, d, q);
			ns.sel = g.mul(ns.sel, q);
		}
		btensor shape(ns.vecs(), ns.selq());
		exactly(c, t.reshape_as<reshape_mode::overwrite_c_vals>(shape), ns, D, "overwriting with shifted charges");
		if (s.rank() > 0)
		{
			Spec bad = ns;
			bad.sel = g.mul(bad.sel, g.random(r));
			if (bad.sel != ns.sel && t.blocks().size() > 0)
			{
				btensor bshape(bad.vecs(), bad.selq());
				c.must_throw([&] { (void)t.reshape_as<reshape_mode::overwrite_c_vals>(bshape); }, "blocks the new selection rule forbids");
			}
		}
	}
	auto d = before.diff(a);
	c.check(d == "", "operand modified", [&] { return d; });
	c.check(before.diff(ca) == "", "operand modified");
}
// reshape_as between arbitrary shapes: accepted exactly when the two shapes have, in order, the same possible blocks (same
// number of elements each, and same charge unless the charges are overwritten)
std::vector<std::pair<int64_t, Val>> possible(const Spec &s)
{
	std::vector<std::pair<int64_t, Val>> v;
	for (auto &b : all_blocks(s.lay))
	{
		int64_t n = 1;
		for (auto x : block_shape(s.lay, b))
			n *= x;
		v.emplace_back(n, charge(s, b));
	}
	return v;
}
void reshape_as_other(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4), 3, 2);
	auto a = make(r, s, pick_dtype(r), rnd(r));
	auto D = dense_of(a);
	auto G = random_groups(r, s.rank(), false);
	Spec os;
	Tensor od;
	grouped(s, G, D, os, od);
	if (r.chance(0.4))
		os = s;
	std::string how;
	for (int k = r.chance(0.1) ? 0 : int(r.in(1, 2)); k; --k)
	{
		size_t d = r.in(0, os.rank() - 1);
		auto &dim = os.lay[d];
		switch (r.in(0, 6))
		{
		case 0:
			how += " size";
			if (!dim.empty())
			{
				auto &sec = dim[r.in(0, dim.size() - 1)];
				sec.size = std::max<int64_t>(0, sec.size + (r.chance(.5) ? 1 : -1));
			}
			break;
		case 1:
			how += " charge";
			if (!dim.empty())
				dim[r.in(0, dim.size() - 1)].q = g.random(r);
			break;
		case 2:
			how += " more";
			dim.insert(dim.begin() + r.in(0, dim.size()), Sec{r.in(1, 2), g.random(r)});
			break;
		case 3:
			how += " less";
			if (!dim.empty())
				dim.erase(dim.begin() + r.in(0, dim.size() - 1));
			break;
		case 4:
			how += " shift";
			{
				auto q = g.random(r);
				size_t e = r.in(0, os.rank() - 1);
				os.lay[d] = shift(g, os.lay[d], q);
				os.lay[e] = shift(g, os.lay[e], g.inv(q));
			}
			break;
		case 5:
			how += " trivial";
			os.lay.insert(os.lay.begin() + r.in(0, os.rank()), Dim{Sec{1, g.neutral()}});
			break;
		default:
			how += " swap";
			if (dim.size() > 1)
				std::swap(dim[r.in(0, dim.size() - 1)], dim[0]);
		}
	}
	os.sel = r.chance(0.8) ? s.sel : all_blocks(os.lay).empty() ? g.random(r) : random_sel(r, g, os.lay);
	c.describe(s.str() + " as " + os.str() + how);
	c.seen(cat(s.str(), os.str(), vstr(keys(a))));
	auto pa = possible(s), pb = possible(os);
	bool sizes = pa.size() == pb.size(), charges = sizes;
	for (size_t i = 0; sizes && i < pa.size(); ++i)
	{
		if (pa[i].first != pb[i].first)
			sizes = false;
		if (pa[i].second != pb[i].second)
			charges = false;
	}
	btensor shape(os.vecs(), os.selq());
	Snap before(a), sbefore(shape);
	auto ba = all_blocks(s.lay), bb = all_blocks(os.lay);
	auto verify = [&](const btensor &t, const Val &sel, const char *what) {
		Spec es = os;
		es.sel = sel;
		validate(c, t, what);
		expect_spec(c, t, es, what);
		c.check(t.blocks().size() == a.blocks().size(), what);
		for (size_t i = 0; i < ba.size(); ++i)
		{
			auto x = a.blocks().find(ba[i]);
			auto y = t.blocks().find(bb[i]);
			c.check((x == a.end()) == (y == t.end()), what);
			if (x != a.end())
				c.check(same_bits(x->second.reshape(block_shape(os.lay, bb[i])), y->second), what);
		}
	};
	c.op("reshape_as of another shape");
	if (sizes && charges)
	{
		c.tag += ": compatible";
		verify(a.reshape_as(shape), s.sel, "reshape_as a compatible shape");
		c.count("compatible");
	}
	else
	{
		c.must_throw([&] { (void)a.reshape_as(shape); }, "shape with other possible blocks");
		c.count("incompatible");
	}
	c.op("reshape_as overwriting the charges, another shape");
	bool allowed = sizes;
	for (size_t i = 0; allowed && i < ba.size(); ++i)
		if (a.blocks().contains(ba[i]) && pb[i].second != os.sel)
			allowed = false;
	if (allowed)
	{
		c.tag += ": compatible";
		verify(a.reshape_as<reshape_mode::overwrite_c_vals>(shape), os.sel, "overwriting the charges of a compatible shape");
		c.count("compatible, overwriting");
	}
	else
	{
		c.must_throw([&] { (void)a.reshape_as<reshape_mode::overwrite_c_vals>(shape); }, "shape with other blocks, or which forbids a block");
		c.count("incompatible, overwriting");
	}
	c.check(before.diff(a) == "" && sbefore.diff(shape) == "", "operand modified");
}
// dimensions with more elements than a 32 bits integer can count; without blocks, such shapes cost nothing
void large_sections(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 3), 3, 3);
	auto scale = [&](Spec &x) {
		for (auto &d : x.lay)
			for (auto &sec : d)
				sec.size *= int64_t(1) << r.in(0, 45 / int(std::max<size_t>(1, x.lay.size())));
	};
	if (r.chance(0.3))
	{
		for (auto &d : s.lay)
			for (auto &sec : d)
				if (r.chance(.3))
					sec.size = (int64_t(1) << 16) + (r.chance(.3) ? 1 : 0);
	}
	else
		scale(s);
	btensor a(s.vecs(), s.selq());
	int64_t most = 0;
	for (auto &d : s.lay)
		most = std::max(most, dim_size(d));
	c.describe(s.str());
	c.seen(s.str());
	c.count(most > 0x7fffffffll ? "over 31 bits" : "under 31 bits");
	c.op("sizes of large dimensions");
	auto sz = a.sizes();
	c.check(sz.size() == s.lay.size(), "number of sizes");
	for (size_t i = 0; i < sz.size(); ++i)
		c.check(sz[i] == dim_size(s.lay[i]), "size of a dimension", [&] { return mon::cat("expected ", dim_size(s.lay[i]), " got ", sz[i]); });
	c.op("element of a large dimension");
	std::vector<int64_t> pos(s.lay.size(), -1);
	Spec left{s.g, {}, s.sel};
	for (size_t i = 0; i < s.lay.size(); ++i)
	{
		auto n = dim_size(s.lay[i]);
		if (n == 0)
		{
			left.lay.push_back(s.lay[i]);
			continue;
		}
		auto p = r.chance(.3) ? n - 1 : r.in(0, n - 1);
		auto e = p;
		size_t k = 0;
		while (e >= s.lay[i][k].size)
			e -= s.lay[i][k++].size;
		c.check(a.element_conserved_qtt(i, p) == g.make(s.lay[i][k].q), "conserved quantity of an element");
		c.must_throw([&] { (void)a.element_conserved_qtt(i, n); }, "element past the end");
		if (r.chance(.5))
		{
			pos[i] = p;
			left.sel = g.mul(left.sel, g.inv(s.lay[i][k].q));
		}
		else
			left.lay.push_back(s.lay[i]);
	}
	c.op("shape_from at a large position");
	expect_spec(c, a.shape_from(pos), left, "shape_from at a large position");
	if (!s.lay.empty() && dim_size(s.lay[0]) > 0)
	{
		auto q = pos;
		q[0] = dim_size(s.lay[0]);
		c.must_throw([&] { (void)a.shape_from(q); }, "position past the end");
	}
	c.op("reshape of large sections");
	auto G = random_groups(r, s.rank(), false);
	Spec os;
	grouped(s, G, os);
	expect_spec(c, a.reshape(torch::IntArrayRef(G)), os, "reshape of large sections");
	c.op("reshape_as of large sections");
	for (int k = r.chance(0.4) ? 0 : 1; k; --k)
	{
		size_t d = r.in(0, os.rank() - 1);
		if (!os.lay[d].empty())
		{
			auto &sec = os.lay[d][r.in(0, os.lay[d].size() - 1)];
			switch (r.in(0, 3))
			{
			case 0: sec.size += s.rank() < 3 ? int64_t(1) << 32 : 2; break;
			case 1: sec.size = 0; break;
			case 2: sec.size = sec.size & 0xffffffffll; break;
			default: sec.size += 1;
			}
		}
	}
	auto pa = possible(s), pb = possible(os);
	bool same = pa == pb;
	btensor shape(os.vecs(), os.selq());
	if (same)
	{
		expect_spec(c, a.reshape_as(shape), os, "reshape_as of large sections");
		expect_spec(c, a.reshape_as<reshape_mode::overwrite_c_vals>(shape), os, "reshape_as of large sections");
		c.count("compatible");
	}
	else
	{
		c.must_throw([&] { (void)a.reshape_as(shape); }, "shape with blocks of other sizes");
		c.must_throw([&] { (void)a.reshape_as<reshape_mode::overwrite_c_vals>(shape); }, "shape with blocks of other sizes");
		c.count("incompatible");
	}
}
Spec squeezed(const Spec &s, const std::set<int64_t> &dims)
{
	Spec o{s.g, {}, s.sel};
	for (int64_t i = 0; i < s.rank(); ++i)
		if (dims.count(i) && s.lay[i].size() == 1 && s.lay[i][0].size == 1)
			o.sel = s.g->mul(o.sel, s.g->inv(s.lay[i][0].q));
		else
			o.lay.push_back(s.lay[i]);
	return o;
}
void squeezing(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 5), 3, 2);
	for (auto &d : s.lay)
		if (r.chance(0.45))
			d = {{1, g.random(r)}};
		else if (r.chance(0.2)) // one section of several elements, or sections of one element
			d = r.chance(0.5) ? Dim{{2, g.random(r)}} : Dim{{1, g.random(r)}, {1, g.random(r)}};
	s.sel = random_sel(r, g, s.lay);
	auto a = make(r, s, pick_dtype(r), rnd(r));
	auto D = dense_of(a);
	c.describe(s.str());
	c.seen(cat(s.str(), vstr(keys(a))));
	Snap before(a);
	std::set<int64_t> all;
	for (int64_t i = 0; i < s.rank(); ++i)
		all.insert(i);
	c.op("squeeze");
	auto os = squeezed(s, all);
	auto od = D.resolve_conj().contiguous().reshape(os.sizes());
	exactly(c, a.squeeze(), os, od, "squeeze");
	exactly(c, quantit::squeeze(a), os, od, "squeeze function");
	auto t = own(a);
	t.squeeze_();
	exactly(c, t, os, od, "squeeze_");
	t = own(a);
	quantit::squeeze_(t);
	exactly(c, t, os, od, "squeeze_ function");
	for (int64_t d = 0; d < s.rank(); ++d)
	{
		auto ds = squeezed(s, {d});
		auto dd = D.resolve_conj().contiguous().reshape(ds.sizes());
		exactly(c, a.squeeze(d), ds, dd, "squeeze dim");
		t = own(a);
		t.squeeze_(d);
		exactly(c, t, ds, dd, "squeeze_ dim");
	}
	auto d = before.diff(a);
	c.check(d == "", "operand modified", [&] { return d; });
}
void norms(Case &c)
{ // invariants over a random history of structure operations
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(1, 4), 3, 2);
	auto a = make(r, s, r.chance(0.3) ? torch::kComplexDouble : torch::kDouble, rnd(r));
	auto elements = [](const btensor &t) {
		std::vector<double> v;
		for (auto &b : t)
		{
			auto x = at::view_as_real(std::get<1>(b).resolve_conj().to(torch::kComplexDouble)).reshape({-1, 2}).contiguous();
			for (int64_t i = 0; i < x.size(0); ++i)
				v.push_back(x.data_ptr<double>()[2 * i] * 1e3 + x.data_ptr<double>()[2 * i + 1]);
		}
		std::sort(v.begin(), v.end());
		return v;
	};
	auto e0 = elements(a);
	auto t = a;
	std::string trace;
	struct Undo
	{
		std::function<btensor(const btensor &)> f;
	};
	std::vector<Undo> undo;
	for (int k = 0; k < 8; ++k)
	{
		switch (r.next() % 3)
		{
		case 0:
		{
			auto p = perm(r, t.dim());
			IL ip(p.size());
			for (size_t i = 0; i < p.size(); ++i)
				ip[p[i]] = i;
			undo.push_back({[ip](const btensor &x) { return x.permute(ip); }});
			t = t.permute(p);
			trace += "permute" + vstr(p);
			break;
		}
		case 1:
		{
			auto G = random_groups(r, t.dim(), false);
			btensor shape = shape_from(t);
			undo.push_back({[shape](const btensor &x) { return x.reshape_as(shape); }});
			const btensor ct = t;
			t = ct.reshape(torch::IntArrayRef(G));
			trace += "reshape" + vstr(G);
			break;
		}
		case 2:
		{
			btensor shape = shape_from(t);
			undo.push_back({[shape](const btensor &x) { return x.reshape_as<reshape_mode::overwrite_c_vals>(shape); }});
			t = t.squeeze();
			trace += "squeeze";
			break;
		}
		}
		validate(c, t, "after a step");
		c.check(elements(t) == e0, "elements lost or changed", [&] { return trace; });
	}
	c.describe(s.str() + " " + trace);
	c.seen(s.str() + trace);
	while (!undo.empty())
	{
		t = undo.back().f(t);
		undo.pop_back();
	}
	identical(c, t, a, "undoing the history doesn't restore the tensor");
}
} // namespace
PROPERTY(B04)
{
	ctx.family("permute", ctx.n(5000, 120000), permuting);
	ctx.family("large sections", ctx.n(2000, 40000), large_sections);
	ctx.family("reshape_as another shape", ctx.n(6000, 80000), reshape_as_other);
	ctx.family("reshape", ctx.n(5000, 120000), reshaping);
	ctx.family("squeeze", ctx.n(4000, 80000), squeezing);
	ctx.family("history", ctx.n(1500, 40000), norms);
}
namespace
{
int64_t section_of(const Dim &d, int64_t e, int64_t *rest = nullptr)
{
	for (size_t s = 0; s < d.size(); ++s)
	{
		if (e < d[s].size)
		{
			if (rest)
				*rest = e;
			return s;
		}
		e -= d[s].size;
	}
	return -1;
}
void access(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3);
	auto dt = pick_dtype(r);
	auto a = make(r, s, dt, rnd(r));
	auto D = dense_of(a);
	c.describe(s.str());
	c.seen(cat(s.str(), vstr(keys(a))));
	c.op("element positions");
	auto sz = s.sizes();
	IL e(s.rank(), 0);
	int64_t n = 1;
	for (auto x : sz)
		n *= x;
	int64_t step = 1 + n / 200;
	for (int64_t k = 0; k < n; k += step)
	{
		int64_t rest = k;
		for (int64_t i = s.rank() - 1; i >= 0; --i)
		{
			e[i] = rest % sz[i];
			rest /= sz[i];
		}
		auto [b, o] = a.element_index_decompose(e);
		IL wb, wo;
		for (int64_t i = 0; i < s.rank(); ++i)
		{
			int64_t off = 0;
			wb.push_back(section_of(s.lay[i], e[i], &off));
			wo.push_back(off);
		}
		c.check(b == wb && o == wo, "element_index_decompose", [&] { return cat(vstr(e), " -> ", vstr(b), vstr(o), " instead of ", vstr(wb), vstr(wo)); });
		if (a.blocks().contains(b))
		{
			Tensor x = a.block_at(b), y = D;
			for (int64_t i = 0; i < s.rank(); ++i)
			{
				x = x[o[i]];
				y = y[e[i]];
			}
			c.check(torch::equal(x.resolve_conj(), y), "element of a block", [&] { return vstr(e); });
		}
	}
	if (s.rank() > 0)
	{
		IL bad(s.rank(), 0);
		auto d = r.next() % bad.size();
		bad[d] = sz[d] + r.in(0, 2);
		c.must_throw([&] { (void)a.element_index_decompose(bad); }, "element position out of range");
		bad[d] = -1;
		c.must_throw([&] { (void)a.element_index_decompose(bad); }, "negative element position");
		bad.push_back(0);
		c.must_throw([&] { (void)a.element_index_decompose(bad); }, "element position of wrong length");
	}
	c.op("blocks");
	auto ks = keys(a);
	std::set<IL> stored(ks.begin(), ks.end());
	for (auto &b : all_blocks(s.lay))
	{
		bool al = charge(s, b) == s.sel;
		if (stored.count(b))
		{
			auto off = block_offset(s.lay, b), sh = block_shape(s.lay, b);
			Tensor w = D;
			for (size_t i = 0; i < off.size(); ++i)
				w = w.narrow(i, off[i], sh[i]);
			c.check(torch::equal(a.block_at(b).resolve_conj(), w), "block_at", [&] { return vstr(b); });
			c.check(a.block(b).is_same(a.block_at(b)), "block and block_at differ");
			c.check(a.blocks().at(b).is_same(a.block_at(b)), "blocks() and block_at differ");
			auto fs = btensor::full_slice(a, b);
			Tensor v = fs.empty() ? D : D.index(fs);
			c.check(torch::equal(v, w), "full_slice");
		}
		else
		{
			c.must_throw_as<std::out_of_range>([&] { (void)a.block_at(b); }, "block_at of an absent block");
			if (!al)
				c.must_throw_as<std::invalid_argument>([&] { (void)a.block(b); }, "block forbidden by conservation");
		}
	}
	c.check(keys(a) == ks, "block access changed the stored blocks");
	c.op("iteration");
	std::vector<IL> fwd, bwd, cf, cb;
	for (auto it = a.begin(); it != a.end(); ++it)
		fwd.push_back(std::get<0>(*it));
	for (auto it = a.rbegin(); it != a.rend(); ++it)
		bwd.push_back(std::get<0>(*it));
	const btensor &ca = a;
	for (auto it = ca.begin(); it != ca.end(); ++it)
		cf.push_back(std::get<0>(*it));
	for (auto it = ca.crbegin(); it != ca.crend(); ++it)
		cb.push_back(std::get<0>(*it));
	c.check(fwd == cf && bwd == cb && fwd == ks, "const and mutable iterations differ");
	std::reverse(bwd.begin(), bwd.end());
	c.check(fwd == bwd, "reverse iteration");
	for (size_t i = 1; i < fwd.size(); ++i)
		c.check(fwd[i - 1] < fwd[i], "blocks not in increasing order");
	c.op("adding a block");
	for (auto &b : allowed_blocks(s))
		if (!stored.count(b))
		{
			auto v = random_values(r, block_shape(s.lay, b), dt);
			a.block(b) = v;
			validate(c, a, "tensor with a new block");
			Tensor W = D.clone(), w = W;
			auto off = block_offset(s.lay, b), sh = block_shape(s.lay, b);
			for (size_t i = 0; i < off.size(); ++i)
				w = w.narrow(i, off[i], sh[i]);
			w.copy_(v);
			c.check(torch::equal(dense_of(a), W), "adding a block changed something else");
			break;
		}
	if (s.rank() > 0)
	{
		c.op("bad block index");
		IL b(s.rank(), 0);
		auto d = r.next() % b.size();
		b[d] = s.lay[d].size() + r.in(0, 1);
		auto before = Snap(a);
		c.must_throw([&] { (void)a.block(b); }, "block index out of range");
		c.must_throw([&] { (void)a.block_at(b); }, "block_at out of range");
		b[d] = -1;
		c.must_throw([&] { (void)a.block(b); }, "negative block index");
		b[d] = 0;
		b.push_back(0);
		c.must_throw([&] { (void)a.block(b); }, "block index of wrong length");
		c.check(before.diff(a) == "", "refused access modified the tensor", [&] { return before.diff(a); });
	}
}
struct Slot
{
	IL slots;
	Spec shape, kept; // the spec of the slice, dropping or keeping the fixed dimensions
};
Slot random_slot(Rng &r, const Spec &s, double keep = 0.55)
{
	Slot o;
	o.shape = Spec{s.g, {}, s.sel};
	o.kept = Spec{s.g, {}, s.sel};
	for (int64_t i = 0; i < s.rank(); ++i)
		if (r.chance(keep))
		{
			o.slots.push_back(-1);
			o.shape.lay.push_back(s.lay[i]);
			o.kept.lay.push_back(s.lay[i]);
		}
		else
		{
			auto e = r.in(0, dim_size(s.lay[i]) - 1);
			o.slots.push_back(e);
			auto q = s.lay[i][section_of(s.lay[i], e)].q;
			o.kept.lay.push_back({{1, q}});
			o.shape.sel = s.g->mul(o.shape.sel, s.g->inv(q));
		}
	return o;
}
Tensor slice(Tensor D, const IL &slots, bool keep)
{
	int64_t d = 0;
	for (auto x : slots)
	{
		if (x < 0)
			++d;
		else if (keep)
		{
			D = D.narrow(d, x, 1);
			++d;
		}
		else
			D = D.select(d, x);
	}
	return D;
}
void views(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 5), 3, 3);
	auto dt = pick_dtype(r);
	MakeOpt mo = rnd(r);
	mo.strided = 0;
	auto a = make(r, s, dt, mo);
	auto D = dense_of(a).clone();
	auto sl = random_slot(r, s);
	bool keep = r.chance(0.4);
	c.describe(cat(s.str(), " ", vstr(sl.slots), keep ? " keep" : ""));
	c.seen(cat(s.str(), vstr(sl.slots), keep, vstr(keys(a))));
	Snap before(a);
	c.op(keep ? "view keeping the rank" : "view");
	auto v = a.basic_create_view(sl.slots, keep);
	exactly(c, v, keep ? sl.kept : sl.shape, slice(D, sl.slots, keep), "view");
	c.check(before.diff(a) == "", "creating a view modified the tensor", [&] { return before.diff(a); });
	size_t in_slot = 0;
	for (auto &k : keys(a))
	{
		bool in = true;
		for (size_t i = 0; i < k.size(); ++i)
			in &= sl.slots[i] == -1 || section_of(s.lay[i], sl.slots[i]) == k[i];
		in_slot += in;
	}
	c.check(v.blocks().size() == in_slot, "number of blocks of the view");
	c.op("shape of a view");
	auto sh = a.shape_from(sl.slots);
	validate(c, sh, "shape of a view");
	expect_spec(c, sh, sl.shape, "shape of a view");
	c.check(sh.blocks().size() == 0, "a shape has blocks");
	// the view shares its memory with the tensor
	c.op("writing through a view");
	Tensor W = D.clone();
	Tensor m = torch::zeros_like(D, torch::kBool);
	for (auto &k : keys(a))
	{
		auto off = block_offset(s.lay, k), shp = block_shape(s.lay, k);
		Tensor w = m;
		for (size_t i = 0; i < off.size(); ++i)
			w = w.narrow(i, off[i], shp[i]);
		w.fill_(true);
	}
	double x = r.sym() + 2;
	slice(W, sl.slots, true).add_(slice(m, sl.slots, true).to(dt), x);
	for (auto &b : v)
		std::get<1>(b).add_(x);
	expect_dense(c, dense_of(a), W, "a change through the view isn't seen in the tensor", dt == torch::kFloat ? 1e-5 : 1e-13);
	if (s.rank() > 0)
	{
		c.op("refused view");
		auto bad = sl.slots;
		auto d = r.next() % bad.size();
		bad[d] = s.sizes()[d] + r.in(0, 2);
		c.must_throw([&] { (void)a.basic_create_view(bad); }, "view of an element out of range");
		c.must_throw([&] { (void)a.shape_from(bad); }, "shape of an element out of range");
		bad[d] = -2;
		c.must_throw([&] { (void)a.basic_create_view(bad); }, "view of a negative element");
		bad = sl.slots;
		bad.push_back(-1);
		c.must_throw([&] { (void)a.basic_create_view(bad); }, "view with too many dimensions");
		bad = sl.slots;
		bad.pop_back();
		c.must_throw([&] { (void)a.basic_create_view(bad); }, "view with too few dimensions");
	}
	// fixing everything one dimension at a time is fixing everything at once
	c.op("successive views");
	auto t = a;
	Tensor T = dense_of(a);
	while (t.dim() > 0)
	{
		IL one(t.dim(), -1);
		auto d = r.next() % one.size();
		one[d] = r.in(0, T.size(d) - 1);
		t = t.basic_create_view(one);
		T = T.select(d, one[d]);
		validate(c, t, "successive views");
		c.check(torch::equal(dense_of(t), T), "successive views");
	}
}
void index_put(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 4), 3, 3);
	auto dt = pick_dtype(r);
	auto a = make(r, s, dt, rnd(r));
	auto D = dense_of(a).clone();
	auto sl = random_slot(r, s);
	c.describe(cat(s.str(), " ", vstr(sl.slots)));
	c.seen(cat(s.str(), vstr(sl.slots), vstr(keys(a))));
	auto v = make(r, sl.shape, dt, rnd(r));
	Snap vs(v), as(a);
	auto DV = dense_of(v);
	auto W = D.clone();
	slice(W, sl.slots, false).copy_(DV);
	auto result = [&](const btensor &t, const Tensor &want, const char *what) {
		validate(c, t, what);
		expect_spec(c, t, s, what);
		c.check(torch::equal(dense_of(t), want), what, [&] { return show(t); });
	};
	c.op("block value");
	auto t = own(a);
	auto &ref = t.basic_index_put_(sl.slots, v);
	c.check(&ref == &t, "basic_index_put_ returns another tensor");
	result(t, W, "block value");
	c.check(vs.diff(v) == "", "the value was modified");
	c.check(as.diff(a) == "", "an unrelated tensor was modified");
	identical(c, t.basic_create_view(sl.slots).add(sparse_zeros_like(v)), [&] {
		// every block of the value is found in the view, other blocks of the view are zero
		auto w = t.basic_create_view(sl.slots);
		for (auto &b : w)
			c.check(v.blocks().contains(std::get<0>(b)) || !std::get<1>(b).any().item().toBool(), "block absent from the value isn't cleared");
		return w;
	}(), "view of the slot");
	for (auto &b : t)
		std::get<1>(b).mul_(2);
	c.check(vs.diff(v) == "", "the tensor shares memory with the assigned value");
	c.op("dense value");
	{
		auto full = random_values(r, sl.shape.sizes(), dt);
		t = own(a);
		t.basic_index_put_(sl.slots, full);
		auto W2 = D.clone();
		auto m = mask(sl.shape);
		slice(W2, sl.slots, false).copy_(torch::where(m, full, torch::zeros_like(full)));
		result(t, W2, "dense value");
		auto f2 = full.clone();
		for (auto &b : t)
			std::get<1>(b).mul_(2);
		c.check(torch::equal(full, f2), "the tensor shares memory with the assigned dense value");
	}
	c.op("several slots");
	if (s.rank() > 0)
	{ // filling every slot along one dimension writes the whole tensor
		auto d = r.next() % s.rank();
		btensor whole = make(r, s, dt, rnd(r));
		t = own(a);
		IL order(s.sizes()[d]);
		std::iota(order.begin(), order.end(), 0);
		r.shuffle(order);
		for (auto e : order)
		{
			IL one(s.rank(), -1);
			one[d] = e;
			t.basic_index_put_(one, whole.basic_create_view(one));
		}
		result(t, dense_of(whole), "assigning slot by slot");
	}
	c.op("refused value");
	auto refuse = [&](const IL &slots, const btensor &val, const char *what) {
		t = own(a);
		c.must_throw([&] { t.basic_index_put_(slots, val); }, what);
		auto d = as.diff(t);
		c.check(d == "", "a refused assignment modified the tensor", [&] { return cat(what, ": ", d); });
	};
	auto sv = sl.shape;
	{
		auto bad = sv;
		bad.sel = g.mul(bad.sel, g.random(r));
		if (bad.sel != sv.sel)
			refuse(sl.slots, make(r, bad, dt), "value of another selection rule");
	}
	if (sv.rank() > 0)
	{
		auto bad = sv;
		auto &x = r.pick(bad.lay);
		x[r.next() % x.size()].size += 1;
		refuse(sl.slots, make(r, bad, dt), "value with another section size");
		bad = sv;
		auto &y = r.pick(bad.lay);
		y[r.next() % y.size()].q = g.mul(y[0].q, g.random(r));
		if (bad.lay != sv.lay)
			refuse(sl.slots, make(r, bad, dt), "value with other charges");
		bad = sv;
		r.pick(bad.lay).push_back({1, g.random(r)});
		refuse(sl.slots, make(r, bad, dt), "value with more sections");
		bad = sv;
		bad.lay.pop_back();
		refuse(sl.slots, make(r, bad, dt), "value of lower rank");
		t = own(a);
		auto sz = sv.sizes();
		sz[r.next() % sz.size()] += 1;
		c.must_throw([&] { t.basic_index_put_(sl.slots, torch::ones(sz, dt)); }, "dense value of another shape");
		c.check(as.diff(t) == "", "a refused dense assignment modified the tensor");
	}
	if (s.rank() > 0)
	{
		auto bad = sl.slots;
		bad.push_back(-1);
		refuse(bad, v, "too many slots");
		bad = sl.slots;
		for (size_t i = 0; i < bad.size(); ++i)
			if (bad[i] >= 0)
			{
				bad[i] = s.sizes()[i];
				refuse(bad, v, "slot out of range");
				break;
			}
	}
}
} // namespace
PROPERTY(B05)
{
	ctx.family("access", ctx.n(3000, 60000), access);
	ctx.family("view", ctx.n(5000, 120000), views);
	ctx.family("assignment", ctx.n(4000, 100000), index_put);
}
