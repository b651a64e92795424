#include "bt.h"
#include <cstring>
using namespace quantit;
using conserved::C;
using conserved::Z;
namespace bt
{
static int64_t red(int64_t v, int64_t m) { return m == 0 ? v : ((v % m) + m) % m; }
Val Grp::mul(const Val &a, const Val &b) const
{
	Val r = a;
	for (size_t i = 0; i < r.size(); ++i)
		r[i] = red(r[i] + b[i], mods[i]);
	return r;
}
Val Grp::inv(const Val &a) const
{
	Val r = a;
	for (size_t i = 0; i < r.size(); ++i)
		r[i] = red(-r[i], mods[i]);
	return r;
}
Val Grp::random(Rng &r, int64_t range) const
{
	Val v(mods.size());
	for (size_t i = 0; i < v.size(); ++i)
		v[i] = mods[i] == 0 ? r.in(-range, range) : r.in(0, mods[i] - 1);
	return v;
}
const std::vector<Grp> &groups()
{
	static const std::vector<Grp> g = {
	    {"Z", {0}, [](const Val &v) { return any_quantity(Z(v[0])); }},
	    {"C2", {2}, [](const Val &v) { return any_quantity(C<2>(v[0])); }},
	    {"C5", {5}, [](const Val &v) { return any_quantity(C<5>(v[0])); }},
	    {"ZxC2", {0, 2}, [](const Val &v) { return any_quantity(Z(v[0]), C<2>(v[1])); }},
	    {"ZxZ", {0, 0}, [](const Val &v) { return any_quantity(Z(v[0]), Z(v[1])); }},
	    {"C1", {1}, [](const Val &v) { return any_quantity(C<1>(0)); }},
	};
	return g;
}
const Grp &group(const std::string &n)
{
	for (auto &g : groups())
		if (g.name == n)
			return g;
	throw std::logic_error("group");
}
const Grp &pick_group(Rng &r)
{
	static const int w[] = {0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5};
	return groups()[w[r.next() % (sizeof w / sizeof *w)]];
}
btensor::vec_list_t Spec::vecs() const
{
	btensor::vec_list_t o;
	for (auto &d : lay)
	{
		std::vector<std::tuple<size_t, any_quantity>> v;
		for (auto &s : d)
			v.emplace_back(size_t(s.size), g->make(s.q));
		o.push_back(v);
	}
	return o;
}
IL Spec::sizes() const
{
	IL o;
	for (auto &d : lay)
		o.push_back(dim_size(d));
	return o;
}
std::string Spec::str() const
{
	std::ostringstream o;
	o << g->name << " sel" << vstr(sel);
	for (auto &d : lay)
	{
		o << " {";
		for (auto &s : d)
			o << s.size << ":" << vstr(s.q) << " ";
		o << "}";
	}
	return o.str();
}
int64_t dim_size(const Dim &d)
{
	int64_t n = 0;
	for (auto &s : d)
		n += s.size;
	return n;
}
Dim inv(const Grp &g, const Dim &d)
{
	Dim o = d;
	for (auto &s : o)
		s.q = g.inv(s.q);
	return o;
}
Dim shift(const Grp &g, const Dim &d, const Val &q)
{
	Dim o = d;
	for (auto &s : o)
		s.q = g.mul(s.q, q);
	return o;
}
Dim random_dim(Rng &r, const Grp &g, int maxsec, int maxsize, int range)
{
	Dim d;
	int n = r.in(1, maxsec);
	if (r.chance(0.12))
		return {{1, g.random(r, range)}}; // size-one dimension
	for (int i = 0; i < n; ++i)
		d.push_back({r.in(1, maxsize), g.random(r, range)}); // repeated charges are allowed
	if (n > 1 && r.chance(0.05))
		d[r.next() % n].size = 0; // an empty section
	return d;
}
Val random_sel(Rng &r, const Grp &g, const Layout &l, double p_hit)
{
	if (!r.chance(p_hit))
		return g.random(r, 3);
	Val v = g.neutral();
	for (auto &d : l)
		v = g.mul(v, d[r.next() % d.size()].q);
	return v;
}
void enlarge(Rng &r, const Grp &g, Dim &d)
{
	if (r.chance(0.5))
		d[r.in(0, d.size() - 1)].size = r.in(17, 60);
	else
	{
		d.clear();
		for (int i = r.in(10, 24); i; --i)
			d.push_back({r.in(1, 2), g.random(r, 2)});
	}
}
Spec random_spec(Rng &r, const Grp &g, int rank, int maxsec, int maxsize)
{
	Spec s;
	s.g = &g;
	for (int i = 0; i < rank; ++i)
		s.lay.push_back(random_dim(r, g, maxsec, maxsize, g.name == "ZxZ" ? 1 : 2));
	if (rank > 0 && rank < 4 && r.chance(0.02)) // now and then, one dimension much larger than the others
		enlarge(r, g, s.lay[r.in(0, rank - 1)]);
	s.sel = random_sel(r, g, s.lay);
	if (rank == 0 && r.chance(0.7))
		s.sel = g.neutral();
	return s;
}
Val charge(const Spec &s, const IL &b)
{
	Val v = s.g->neutral();
	for (size_t i = 0; i < b.size(); ++i)
		v = s.g->mul(v, s.lay[i][b[i]].q);
	return v;
}
std::vector<IL> all_blocks(const Layout &l)
{
	std::vector<IL> o{IL{}};
	for (auto &d : l)
	{
		std::vector<IL> n;
		for (auto &p : o)
			for (size_t i = 0; i < d.size(); ++i)
			{
				n.push_back(p);
				n.back().push_back(i);
			}
		o.swap(n);
	}
	return o;
}
std::vector<IL> allowed_blocks(const Spec &s)
{
	std::vector<IL> o;
	for (auto &b : all_blocks(s.lay))
		if (charge(s, b) == s.sel)
			o.push_back(b);
	return o;
}
bool is_empty(const Spec &s, const IL &b)
{
	for (size_t i = 0; i < b.size(); ++i)
		if (s.lay[i][b[i]].size == 0)
			return true;
	return false;
}
std::vector<IL> filled_blocks(const Spec &s)
{
	std::vector<IL> o;
	for (auto &b : allowed_blocks(s))
		if (!is_empty(s, b))
			o.push_back(b);
	return o;
}
IL block_shape(const Layout &l, const IL &b)
{
	IL o;
	for (size_t i = 0; i < b.size(); ++i)
		o.push_back(l[i][b[i]].size);
	return o;
}
IL block_offset(const Layout &l, const IL &b)
{
	IL o;
	for (size_t i = 0; i < b.size(); ++i)
	{
		int64_t n = 0;
		for (int64_t j = 0; j < b[i]; ++j)
			n += l[i][j].size;
		o.push_back(n);
	}
	return o;
}
static Tensor window(Tensor t, const IL &off, const IL &shape)
{
	for (size_t i = 0; i < off.size(); ++i)
		t = t.narrow(i, off[i], shape[i]);
	return t;
}
Tensor mask(const Spec &s)
{
	auto m = torch::zeros(s.sizes(), torch::kBool);
	for (auto &b : allowed_blocks(s))
		window(m, block_offset(s.lay, b), block_shape(s.lay, b)).fill_(true);
	return m;
}
torch::ScalarType pick_dtype(Rng &r)
{
	auto x = r.next() % 20;
	return x < 14 ? torch::kDouble : x < 18 ? torch::kComplexDouble : torch::kFloat;
}
Tensor random_values(Rng &r, const IL &shape, torch::ScalarType dt)
{
	int64_t n = 1;
	for (auto x : shape)
		n *= x;
	auto val = [&]() { return (r.chance(0.5) ? -1 : 1) * (0.125 + r.unit() * 1.5); };
	if (dt == torch::kComplexDouble)
	{
		auto re = torch::empty({n}, torch::kDouble), im = torch::empty({n}, torch::kDouble);
		for (int64_t i = 0; i < n; ++i)
		{
			re.data_ptr<double>()[i] = val();
			im.data_ptr<double>()[i] = val();
		}
		auto kind = r.next() % 8; // also purely real and purely imaginary elements
		if (kind == 0)
			re.zero_();
		else if (kind == 1)
			im.zero_();
		else if (kind == 2)
			for (int64_t i = 0; i < n; ++i)
				(r.chance(0.5) ? re : im).data_ptr<double>()[i] = 0;
		return torch::complex(re, im).reshape(shape);
	}
	auto t = torch::empty({n}, torch::kDouble);
	for (int64_t i = 0; i < n; ++i)
		t.data_ptr<double>()[i] = val();
	return t.to(dt).reshape(shape).clone();
}
static Tensor strided_copy(Rng &r, const Tensor &x)
{
	if (x.dim() >= 2 && r.chance(0.6))
	{ // stored in another dimension order
		std::vector<int64_t> p(x.dim()), ip(x.dim());
		for (size_t i = 0; i < p.size(); ++i)
			p[i] = i;
		r.shuffle(p);
		for (size_t i = 0; i < p.size(); ++i)
			ip[p[i]] = i;
		return x.permute(p).contiguous().permute(ip);
	}
	if (x.dim() >= 1)
	{ // a window of a larger allocation
		std::vector<int64_t> big(x.sizes().begin(), x.sizes().end());
		int64_t d = r.next() % big.size();
		auto b = torch::full(
		    [&] {
			    auto s = big;
			    s[d] = 2 * s[d] + 1;
			    return s;
		    }(),
		    77, x.options());
		auto w = b.slice(d, 1, 1 + 2 * big[d], 2);
		w.copy_(x);
		return w;
	}
	return x;
}
btensor make(Rng &r, const Spec &s, torch::ScalarType dt, MakeOpt o)
{
	std::vector<std::pair<IL, Tensor>> blocks;
	for (auto &b : allowed_blocks(s))
		if (r.chance(o.density))
		{
			auto sh = block_shape(s.lay, b);
			Tensor v = r.chance(o.zero) ? torch::zeros(sh, dt) : random_values(r, sh, dt);
			if (r.chance(o.strided))
				v = strided_copy(r, v);
			blocks.emplace_back(b, v);
		}
	auto order = blocks;
	if (r.chance(0.4))
		r.shuffle(order);
	int how = o.all_ctor ? r.in(0, 4) : 0;
	auto opt = torch::TensorOptions().dtype(dt);
	if (how <= 2 || s.rank() == 0)
	{
		btensor t = how == 1 ? btensor(s.vecs(), s.selq(), blocks.size(), opt) : btensor(s.vecs(), s.selq(), opt);
		for (auto &b : order)
			t.block(b.first) = b.second;
		return t;
	}
	IL sbd, ss;
	any_quantity_vector cv(0, s.selq().neutral());
	for (auto &d : s.lay)
	{
		sbd.push_back(d.size());
		for (auto &x : d)
		{
			ss.push_back(x.size);
			cv.push_back(s.g->make(x.q));
		}
	}
	if (how == 3)
	{
		btensor t(sbd, cv, ss, s.selq(), opt);
		for (auto &b : order)
			t.block(b.first) = b.second;
		return t;
	}
	btensor::block_list_t::content_t content(order.begin(), order.end());
	return btensor(s.rank(), btensor::block_list_t(std::move(content)), sbd, ss, cv, s.selq(), opt);
}
btensor make_like_values(const Spec &s, const Tensor &dense, Rng &r)
{
	btensor t(s.vecs(), s.selq(), torch::TensorOptions().dtype(dense.scalar_type()));
	for (auto &b : allowed_blocks(s))
		t.block(b) = window(dense, block_offset(s.lay, b), block_shape(s.lay, b)).clone();
	return t;
}
std::vector<IL> keys(const btensor &t)
{
	std::vector<IL> o;
	for (auto &b : t)
		o.push_back(std::get<0>(b));
	return o;
}
torch::ScalarType dtype_of(const btensor &t) { return torch::typeMetaToScalarType(t.options().dtype()); }
std::vector<std::vector<std::pair<int64_t, any_quantity>>> layout_of(const btensor &t)
{
	std::vector<std::vector<std::pair<int64_t, any_quantity>>> o;
	for (int64_t d = 0; d < t.dim(); ++d)
	{
		o.emplace_back();
		for (size_t s = 0; s < t.section_number(d); ++s)
			o.back().emplace_back(t.section_size(d, s), any_quantity(t.section_conserved_qtt(d, s)));
	}
	return o;
}
Tensor dense_of(const btensor &t)
{
	IL sz;
	std::vector<std::vector<int64_t>> off;
	for (int64_t d = 0; d < t.dim(); ++d)
	{
		off.emplace_back();
		int64_t n = 0;
		for (size_t s = 0; s < t.section_number(d); ++s)
		{
			off.back().push_back(n);
			n += t.section_size(d, s);
		}
		sz.push_back(n);
	}
	auto out = torch::zeros(sz, torch::TensorOptions().dtype(dtype_of(t)));
	for (auto &b : t)
	{
		IL o, sh;
		auto &ind = std::get<0>(b);
		for (size_t d = 0; d < ind.size(); ++d)
		{
			o.push_back(off.at(d).at(ind[d]));
			sh.push_back(t.section_size(d, ind[d]));
		}
		window(out, o, sh).copy_(std::get<1>(b));
	}
	return out;
}
std::string dims_str(const std::vector<int64_t> &v) { return vstr(v); }
std::string show(const btensor &t)
{
	std::ostringstream o;
	o << "rank " << t.dim() << " sizes " << vstr(t.sizes()) << " sections " << vstr(t.section_numbers()) << " blocks";
	for (auto &k : keys(t))
		o << " " << vstr(k);
	return o.str().substr(0, 500);
}
std::string defects(const btensor &t, bool lib)
{
	if (t.dim() < 0 || t.dim() > 64)
		return cat("absurd rank ", t.dim());
	if (int64_t(t.section_numbers().size()) != t.dim())
		return cat("section_numbers has ", t.section_numbers().size(), " entries for rank ", t.dim());
	size_t total = 0;
	for (auto n : t.section_numbers())
	{
		if (n < 0)
			return "negative number of sections";
		total += n;
	}
	if (t.get_cvals().size() != total)
		return cat("there are ", t.get_cvals().size(), " charges for ", total, " sections");
	std::vector<int64_t> allsizes;
	std::vector<any_quantity> allq;
	for (int64_t d = 0; d < t.dim(); ++d)
	{
		auto [b, e] = t.section_sizes(d);
		if (e - b != t.section_numbers()[d])
			return "section_sizes range";
		for (auto i = b; i != e; ++i)
		{
			if (*i < 0)
				return "negative section size";
			allsizes.push_back(*i);
		}
		for (size_t s = 0; s < t.section_number(d); ++s)
			allq.emplace_back(t.section_conserved_qtt(d, s));
	}
	if (allsizes.size() != total)
		return "number of section sizes";
	any_quantity sel = sel_of(t);
	const any_quantity *prevq = nullptr;
	const IL *prev = nullptr;
	for (auto &b : t)
	{
		auto &ind = std::get<0>(b);
		auto &x = std::get<1>(b);
		if (int64_t(ind.size()) != t.dim())
			return cat("block index ", vstr(ind), " has the wrong length");
		if (prev && !(*prev < ind))
			return cat("block indices out of order: ", vstr(*prev), " then ", vstr(ind));
		prev = &ind;
		if (!x.defined())
			return cat("block ", vstr(ind), " is undefined");
		size_t base = 0;
		any_quantity q = sel.neutral();
		IL want;
		for (size_t d = 0; d < ind.size(); ++d)
		{
			if (ind[d] < 0 || ind[d] >= t.section_numbers()[d])
				return cat("block index ", vstr(ind), " out of range");
			want.push_back(allsizes[base + ind[d]]);
			q *= allq[base + ind[d]];
			base += t.section_numbers()[d];
		}
		if (x.sizes() != torch::IntArrayRef(want))
			return cat("block ", vstr(ind), " has shape ", vstr(x.sizes()), " for sections of sizes ", vstr(want));
		if (x.scalar_type() != dtype_of(t))
			return cat("block ", vstr(ind), " has scalar type ", torch::toString(x.scalar_type()), " in a tensor of ",
			           torch::toString(dtype_of(t)));
		if (q != sel)
			return cat("block ", vstr(ind), " breaks the selection rule");
	}
	if (lib)
	{
		auto s = btensor::check_tensor(t);
		if (s != "")
			return "check_tensor: " + s;
	}
	return "";
}
void validate(Case &c, const btensor &t, const char *what)
{
	auto d = defects(t);
	c.check(d == "", what, [&] { return d + " | " + show(t); });
}
void expect_spec(Case &c, const btensor &t, const Spec &s, const char *what)
{
	c.check(t.dim() == s.rank(), what, [&] { return cat("rank ", t.dim(), " instead of ", s.rank(), " ", show(t)); });
	auto l = layout_of(t);
	for (int64_t d = 0; d < s.rank(); ++d)
	{
		c.check(l[d].size() == s.lay[d].size(), what, [&] { return cat("sections of dim ", d, " ", show(t), " expected ", s.str()); });
		for (size_t i = 0; i < l[d].size(); ++i)
		{
			c.check(l[d][i].first == s.lay[d][i].size, what, [&] { return cat("size of section ", i, " of dim ", d, ": ", l[d][i].first, " expected ", s.str()); });
			c.check(l[d][i].second == s.g->make(s.lay[d][i].q), what,
			        [&] { return cat("charge of section ", i, " of dim ", d, ": ", fmt::format("{}", l[d][i].second), " expected ", s.str()); });
		}
	}
	c.check(sel_of(t) == s.selq(), what,
	        [&] { return cat("selection rule ", fmt::format("{}", sel_of(t)), " expected ", s.str()); });
}
double tol_of(torch::ScalarType dt) { return dt == torch::kFloat || dt == torch::kComplexFloat ? 2e-5 : 1e-11; }
double rel_err(const Tensor &a, const Tensor &b)
{
	if (a.sizes() != b.sizes())
		return INFINITY;
	if (a.numel() == 0)
		return 0;
	auto x = a.resolve_conj().to(torch::kComplexDouble), y = b.resolve_conj().to(torch::kComplexDouble);
	if (!at::isfinite(at::view_as_real(y)).all().item<bool>() || !at::isfinite(at::view_as_real(x)).all().item<bool>())
	{ // compare exactly where not finite
		double tl = a.scalar_type() == torch::kFloat || b.scalar_type() == torch::kFloat ? 1e-4 : 1e-9;
		return torch::allclose(at::view_as_real(x), at::view_as_real(y), tl, tl, true) ? 0 : INFINITY;
	}
	double n = std::max(1e-300, std::max(1.0, y.abs().max().item<double>()));
	return (x - y).abs().max().item<double>() / n;
}
void expect_dense(Case &c, const Tensor &got, const Tensor &want, const char *what, double tol)
{
	double t = tol;
	auto dt = got.scalar_type();
	if (dt == torch::kFloat || dt == torch::kComplexFloat || want.scalar_type() == torch::kFloat)
		t = std::max(tol, 5e-5);
	auto e = rel_err(got, want);
	c.check(e <= t, what, [&] {
		std::ostringstream o;
		o << "error " << e << " shapes " << got.sizes() << " and " << want.sizes();
		if (want.numel() <= 24)
			o << "\ngot " << got << "\nwant " << want;
		return o.str();
	});
}
bool same_bits(const Tensor &a, const Tensor &b)
{
	if (a.defined() != b.defined())
		return false;
	if (!a.defined())
		return true;
	if (a.scalar_type() != b.scalar_type() || a.sizes() != b.sizes())
		return false;
	auto x = a.resolve_conj().contiguous(), y = b.resolve_conj().contiguous();
	return std::memcmp(x.data_ptr(), y.data_ptr(), x.nbytes()) == 0;
}
Snap::Snap(const btensor &t) : lay(layout_of(t)), sel(sel_of(t)), dt(dtype_of(t))
{
	for (auto &b : t)
		blocks.emplace_back(std::get<0>(b), std::get<1>(b).defined() ? std::get<1>(b).resolve_conj().clone(torch::MemoryFormat::Contiguous) : Tensor());
}
std::string Snap::diff(const btensor &t) const
{
	if (t.dim() != int64_t(lay.size()))
		return cat("rank changed to ", t.dim());
	auto l = layout_of(t);
	for (size_t d = 0; d < l.size(); ++d)
	{
		if (l[d].size() != lay[d].size())
			return cat("number of sections of dim ", d, " changed");
		for (size_t s = 0; s < l[d].size(); ++s)
			if (l[d][s].first != lay[d][s].first || l[d][s].second != lay[d][s].second)
				return cat("section ", s, " of dim ", d, " changed");
	}
	if (sel_of(t) != sel)
		return "selection rule changed";
	if (dtype_of(t) != dt)
		return "scalar type changed";
	size_t i = 0;
	for (auto &b : t)
	{
		if (i >= blocks.size() || std::get<0>(b) != blocks[i].first)
			return cat("set of stored blocks changed near ", vstr(std::get<0>(b)));
		auto x = std::get<1>(b);
		if (!same_bits(x.defined() ? x.resolve_conj() : x, blocks[i].second))
			return cat("content of block ", vstr(std::get<0>(b)), " changed");
		++i;
	}
	if (i != blocks.size())
		return "blocks disappeared";
	return "";
}
} // namespace bt
static mon::SeedHook torch_seed([](uint64_t s) {
	static bool once = (torch::set_num_threads(1), true);
	(void)once;
	torch::manual_seed(s & 0xffffffff);
	// nothing may depend on the default scalar type unless it is documented to
	torch::set_default_dtype(torch::scalarTypeToTypeMeta((s >> 40) % 3 == 0 ? torch::kDouble : torch::kFloat));
});
