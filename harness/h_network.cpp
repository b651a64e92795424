// N01: containers.  N02: orthogonality centre.  N03: contraction.  N04: random states, conversions.
#include "net.h"
#include <climits>
using namespace net;
namespace
{
// ------------------------------------------------------------------------------------------------ N01
bool same(const Tensor &a, const Tensor &b) { return a.is_same(b) || (a.defined() == b.defined() && a.sizes() == b.sizes() && a.dtype() == b.dtype() && a.data_ptr() == b.data_ptr()); }
bool same(const btensor &a, const btensor &b)
{
	if (layout_of(a) != layout_of(b) || sel_of(a) != sel_of(b) || keys(a) != keys(b))
		return false;
	auto ib = b.begin();
	for (auto &x : a)
	{
		if (!same(std::get<1>(x), std::get<1>(*ib)))
			return false;
		++ib;
	}
	return true;
}
template <class N, class T>
void equals(Case &c, const N &n, const std::vector<T> &m, const char *what)
{
	c.check(n.size() == m.size() && n.empty() == m.empty(), what, [&] { return cat("size ", n.size(), " instead of ", m.size()); });
	size_t i = 0;
	for (auto &x : n)
	{
		c.check(i < m.size() && same(x, m[i]), what, [&] { return cat("element ", i); });
		++i;
	}
	c.check(i == m.size(), what, [] { return std::string("iteration"); });
	for (i = 0; i < m.size(); ++i)
	{
		c.check(same(n[i], m[i]) && same(n.at(i), m[i]) && same(n.data()[i], m[i]), what, [&] { return cat("index ", i); });
		c.check(same(*(n.rbegin() + i), m[m.size() - 1 - i]) && same(*(n.crbegin() + i), m[m.size() - 1 - i]), what, [&] { return cat("reverse ", i); });
	}
	if (!m.empty())
		c.check(same(n.front(), m.front()) && same(n.back(), m.back()), what, [] { return std::string("ends"); });
	c.check(n.cend() - n.cbegin() == std::ptrdiff_t(m.size()) && n.rend() - n.rbegin() == std::ptrdiff_t(m.size()), what);
	c.check(n.capacity() >= m.size(), what);
	c.must_throw([&] { n.at(m.size()); }, "at() past the end");
}
template <class N, class T>
void history(Case &c, std::function<T()> gen, const char *name)
{
	Rng &r = c.rng;
	N n;
	std::vector<T> m;
	std::string h = name;
	int steps = r.in(5, 30);
	for (int s = 0; s < steps; ++s)
	{
		int op = r.in(0, 17);
		auto pos = r.in(0, m.size());
		c.op(cat(name, " op ", op));
		h += cat(" ", op);
		switch (op)
		{
		case 0:
		case 1: {
			auto t = gen();
			n.push_back(t);
			m.push_back(t);
			break;
		}
		case 2: {
			auto t = gen(), t2 = t;
			n.push_back(std::move(t2));
			m.push_back(t);
			break;
		}
		case 3: {
			auto t = gen();
			n.emplace_back(t);
			m.push_back(t);
			break;
		}
		case 4: {
			auto t = gen();
			auto it = n.insert(n.begin() + pos, t);
			m.insert(m.begin() + pos, t);
			c.check(it - n.begin() == pos, "insert: returned position");
			break;
		}
		case 5: {
			std::vector<T> v;
			for (int i = r.in(0, 3); i > 0; --i)
				v.push_back(gen());
			auto it = n.insert(n.begin() + pos, v.begin(), v.end());
			m.insert(m.begin() + pos, v.begin(), v.end());
			c.check(it - n.begin() == pos, "insert range: returned position");
			break;
		}
		case 6: {
			auto a = gen(), b = gen();
			n.insert(n.begin() + pos, {a, b});
			m.insert(m.begin() + pos, {a, b});
			break;
		}
		case 7: {
			auto t = gen();
			n.emplace(n.begin() + pos, t);
			m.insert(m.begin() + pos, t);
			break;
		}
		case 8:
			if (!m.empty())
			{
				auto p = r.in(0, m.size() - 1);
				auto it = n.erase(n.begin() + p);
				m.erase(m.begin() + p);
				c.check(it - n.begin() == p, "erase: returned position");
			}
			break;
		case 9: {
			auto a = r.in(0, m.size()), b = r.in(a, m.size());
			n.erase(n.begin() + a, n.begin() + b);
			m.erase(m.begin() + a, m.begin() + b);
			break;
		}
		case 10:
			if (!m.empty())
			{
				n.pop_back();
				m.pop_back();
			}
			break;
		case 11: {
			auto k = r.in(0, 6);
			auto t = gen();
			n.resize(k, t);
			m.resize(k, t);
			break;
		}
		case 12:
			if (r.chance(0.3))
			{
				n.clear();
				m.clear();
			}
			break;
		case 13: {
			n.reserve(r.in(0, 10));
			n.shrink_to_fit();
			break;
		}
		case 14: {
			N o(n);
			equals(c, o, m, "copy");
			if (!m.empty())
			{
				auto t = gen();
				o[0] = t;
				equals(c, n, m, "the copied network after replacing a tensor of the copy");
			}
			N p;
			p = n;
			equals(c, p, m, "assignment");
			break;
		}
		case 15: {
			N o(std::move(n));
			equals(c, o, m, "move");
			n = std::move(o);
			break;
		}
		case 16: {
			N o;
			std::vector<T> om;
			for (int i = r.in(0, 3); i > 0; --i)
			{
				om.push_back(gen());
				o.push_back(om.back());
			}
			if (r.chance(0.5))
				n.swap(o);
			else
				swap(n, o);
			std::swap(m, om);
			equals(c, o, om, "swap (other)");
			break;
		}
		case 17:
			if (!m.empty())
			{
				auto p = r.in(0, m.size() - 1);
				auto t = gen();
				switch (r.in(0, 3))
				{
				case 0: n[p] = t; break;
				case 1: n.at(p) = t; break;
				case 2: *(n.begin() + p) = t; break;
				default: n.data()[p] = t;
				}
				m[p] = t;
			}
			break;
		}
		equals(c, n, m, "network after the operation");
	}
	c.describe(h);
	c.seen(h);
}
void container(Case &c)
{
	Rng &r = c.rng;
	std::function<Tensor()> dense = [&] { return random_values(r, {1, r.in(1, 2), 1}, torch::kDouble); };
	std::function<Tensor()> dense4 = [&] { return random_values(r, {1, r.in(1, 2), 1, 1}, torch::kDouble); };
	auto &g = pick_group(r);
	std::function<btensor()> block = [&] { return make(r, random_spec(r, g, 3, 2, 2), torch::kDouble); };
	switch (r.in(0, 5))
	{
	case 0: history<MPT, Tensor>(c, dense, "MPT"); break;
	case 1: history<MPS, Tensor>(c, dense, "MPS"); break;
	case 2: history<MPO, Tensor>(c, dense4, "MPO"); break;
	case 3: history<bMPT, btensor>(c, block, "bMPT"); break;
	case 4: history<bMPS, btensor>(c, block, "bMPS"); break;
	default: history<bMPO, btensor>(c, block, "bMPO");
	}
}
// all the ways to build a network out of a list
template <class N, class P, class T>
void build_all(Case &c, const std::vector<T> &v, bool ok)
{
	auto one = [&](const char *how, auto &&f) {
		c.op(cat(ok ? "accepts " : "refuses ", how));
		if (ok)
		{
			N n = f();
			equals(c, n, v, "network");
			c.check(n.check_ranks(), "check_ranks of a valid network");
		}
		else
			c.must_throw_as<std::invalid_argument>([&] { f(); }, "ill-formed network");
	};
	one("vector", [&] { return N(v); });
	one("range", [&] {
		P p;
		for (auto &t : v)
			p.push_back(t);
		return N(p.cbegin(), p.cend());
	});
	one("MPT", [&] {
		P p;
		for (auto &t : v)
			p.push_back(t);
		N n(p);
		equals(c, p, v, "source network");
		return n;
	});
	one("MPT&&", [&] {
		P p;
		for (auto &t : v)
			p.push_back(t);
		return N(std::move(p));
	});
	if (v.size() == 2)
		one("list", [&] { return N({v[0], v[1]}); });
	if (v.size() == 3)
		one("list", [&] { return N({v[0], v[1], v[2]}); });
	if (ok)
	{
		c.op("conversion to MPT");
		N n(v);
		P p(n);
		equals(c, p, v, "converted to MPT");
		N back(p);
		equals(c, back, v, "converted back");
	}
}
template <class N, class T>
void centres(Case &c, const std::vector<T> &v)
{
	Rng &r = c.rng;
	int L = v.size();
	for (int oc = 0; oc < L; ++oc)
	{
		c.op("centre");
		N n(v, oc);
		c.check(size_t(n.orthogonality_center) == size_t(oc), "orthogonality centre");
		N copy(n), assigned;
		assigned = n;
		c.check(size_t(copy.orthogonality_center) == size_t(oc) && size_t(assigned.orthogonality_center) == size_t(oc), "orthogonality centre of a copy");
		equals(c, copy, v, "copy");
		N moved(std::move(copy));
		c.check(size_t(moved.orthogonality_center) == size_t(oc), "orthogonality centre after a move");
		N other(v, L - 1);
		swap(other, moved);
		c.check(size_t(moved.orthogonality_center) == size_t(L - 1) && size_t(other.orthogonality_center) == size_t(oc), "orthogonality centres after swap");
		moved.swap(other);
		c.check(size_t(moved.orthogonality_center) == size_t(oc) && size_t(other.orthogonality_center) == size_t(L - 1), "orthogonality centres after swap");
		assigned = std::move(other);
		c.check(size_t(assigned.orthogonality_center) == size_t(L - 1), "orthogonality centre after a move assignment");
		c.op("other scalar type");
		auto f = n.to(torch::kFloat);
		c.check(size_t(f.orthogonality_center) == size_t(oc) && f.size() == v.size(), "centre of the network with another scalar type");
		equals(c, n, v, "the network itself");
	}
	c.op("bad centre");
	for (size_t oc : {size_t(L), size_t(L + r.in(1, 5)), size_t(-1)})
	{
		c.must_throw_as<std::invalid_argument>([&] { N n(v, oc); }, "centre outside of the chain (vector)");
		c.must_throw_as<std::invalid_argument>([&] { N n(size_t(L), oc); }, "centre outside of the chain (size)");
	}
	using P = std::conditional_t<std::is_same_v<T, btensor>, bMPT, MPT>;
	P p;
	for (auto &t : v)
		p.push_back(t);
	for (size_t oc : {size_t(r.in(0, L)), size_t(L), size_t(L + r.in(1, 5)), size_t(-1)})
	{
		bool ok = oc < size_t(L) || oc == 0;
		auto one = [&](const char *how, auto &&f, size_t n) {
			c.op(cat(ok ? "centre, " : "bad centre, ", how));
			if (ok)
			{
				N x = f();
				c.check(size_t(x.orthogonality_center) == oc && x.size() == n, "orthogonality centre");
			}
			else
				c.must_throw_as<std::invalid_argument>([&] { f(); }, "centre outside of the chain");
		};
		one("MPT", [&] { return N(p, oc); }, L);
		one("MPT&&", [&] { return N(P(p), oc); }, L);
		if (L == 2)
			one("list", [&] { return N({v[0], v[1]}, oc); }, L);
		if (L == 3)
			one("list", [&] { return N({v[0], v[1], v[2]}, oc); }, L);
		if (L == 1 && N::check_one(v[0]))
			one("repeated tensor", [&] { return N(size_t(1), v[0], oc); }, 1);
	}
}
void build_dense(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	int L = r.in(0, 5);
	bool op = r.chance(0.4);
	TV v;
	int64_t b = r.in(1, 3);
	for (int i = 0; i < L; ++i)
	{
		int64_t n = r.in(1, 3);
		v.push_back(op ? random_values(r, {b, r.in(1, 3), n, r.in(1, 3)}, dt) : random_values(r, {b, r.in(1, 3), n}, dt));
		b = n;
	}
	std::string w = "valid";
	bool ok = true;
	if (L > 0 && r.chance(0.65))
	{
		int i = r.in(0, L - 1);
		auto s = v[i].sizes().vec();
		switch (r.in(0, 4))
		{
		case 0: // rank
		{
			int rk = r.in(0, 6);
			if (rk == (op ? 4 : 3))
				rk = op ? 3 : 4;
			s.resize(rk, 1);
			w = cat("rank ", rk, " at ", i);
			ok = false;
			break;
		}
		case 1:
			s[0] += 1;
			ok = i == 0;
			w = cat("left bond of ", i);
			break;
		case 2:
			s[2] += 1;
			ok = i == L - 1;
			w = cat("right bond of ", i);
			break;
		case 3:
			s[1] += 1;
			w = "physical";
			break;
		default:
			s = {};
			ok = false;
			w = cat("rank 0 at ", i);
		}
		v[i] = random_values(r, s, dt);
	}
	c.describe(cat(op ? "MPO " : "MPS ", L, " ", w));
	c.seen(cat(op, L, w));
	if (op)
		build_all<MPO, MPT>(c, v, ok);
	else
		build_all<MPS, MPT>(c, v, ok);
	if (ok && L > 0 && !op)
		centres<MPS>(c, v);
	// n copies of a tensor
	c.op("copies");
	if (L > 0)
	{
		auto &t = v[r.in(0, L - 1)];
		bool fits = t.dim() == (op ? 4 : 3) && t.size(0) == t.size(2);
		if (r.chance(0.5) && !fits && t.dim() == (op ? 4 : 3))
		{
			auto s = t.sizes().vec();
			s[0] = s[2];
			t = random_values(r, s, dt);
			fits = true;
		}
		size_t n = r.in(1, 4);
		auto go = [&] {
			if (op)
			{
				MPO m(n, t);
				equals(c, m, TV(n, t), "copies of a tensor");
			}
			else
			{
				MPS m(n, t, n - 1);
				equals(c, m, TV(n, t), "copies of a tensor");
				c.must_throw_as<std::invalid_argument>([&] { MPS(n, t, n); }, "centre outside of the chain");
			}
		};
		if (fits)
			go();
		else
			c.must_throw_as<std::invalid_argument>(go, "copies of a tensor that doesn't fit with itself");
	}
}
void build_block(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	int L = r.in(0, 4);
	bool op = r.chance(0.4);
	auto &g = pick_group(r);
	std::vector<Spec> sp;
	auto phys = random_phys(r, g, L, 2, 2);
	if (op)
	{
		Dim left = random_dim(r, g, 3, 2, 1);
		for (int i = 0; i < L; ++i)
		{
			Dim right = random_dim(r, g, 3, 2, 1);
			sp.push_back(op_spec(g, left, phys[i], right, g.neutral()));
			left = right;
		}
	}
	else
	{
		auto n = random_bnet(r, g, phys, nullptr, false, 3, 2);
		for (int i = 0; i < L; ++i)
			sp.push_back(site_spec(n, i));
	}
	bool ok = true;
	std::string w = "valid";
	const Grp *og = nullptr;
	int bad = -1;
	if (L > 0 && r.chance(0.7))
	{
		int i = bad = r.in(0, L - 1);
		auto &l = sp[i].lay;
		int side = r.chance(0.5) ? 0 : 2; // which bond is spoiled
		bool inner = side == 0 ? i > 0 : i < L - 1;
		auto &d = l[side];
		switch (r.in(0, 5))
		{
		case 0:
			if (r.chance(0.5))
				l.pop_back();
			else
				l.push_back({{1, g.neutral()}});
			ok = false;
			w = "rank";
			break;
		case 1:
			d[r.in(0, d.size() - 1)].size += 1;
			ok = !inner;
			w = "size";
			break;
		case 2: {
			auto &q = d[r.in(0, d.size() - 1)].q;
			auto old = q;
			q = g.mul(q, g.random(r, 1));
			ok = !inner || q == old;
			w = "charge";
			break;
		}
		case 3: // same elements, other sections
		{
			size_t k = r.in(0, d.size() - 1);
			if (d[k].size > 1)
			{
				auto s = d[k];
				s.size = d[k].size - 1;
				d[k].size = 1;
				d.insert(d.begin() + k, s);
				ok = !inner;
			}
			w = "split";
			break;
		}
		case 4: {
			std::reverse(d.begin(), d.end());
			auto e = d;
			std::reverse(e.begin(), e.end());
			ok = !inner || e == d;
			w = "order";
			break;
		}
		default:
			if (L > 1)
			{ // another group
				do
					og = &pick_group(r);
				while (og->name == g.name);
				ok = false;
				w = "group";
			}
		}
		w += cat(" at ", i, " side ", side, " ok ", ok);
	}
	std::vector<btensor> v;
	for (int i = 0; i < L; ++i)
	{
		auto s = sp[i];
		if (og && i == bad)
		{
			s.g = og;
			for (auto &d : s.lay)
				for (auto &x : d)
					x.q = og->neutral();
			s.sel = og->neutral();
		}
		v.push_back(make(r, s, dt));
	}
	c.describe(cat(op ? "bMPO " : "bMPS ", L, " ", g.name, " ", w, og ? og->name : ""));
	c.seen(cat(op, L, g.name, w));
	for (auto &s : sp)
		c.describe(s.str());
	if (op)
		build_all<bMPO, bMPT>(c, v, ok);
	else
		build_all<bMPS, bMPT>(c, v, ok);
	if (ok && L > 0 && !op)
		centres<bMPS>(c, v);
	c.op("copies");
	if (L > 0 && !og)
	{
		int k = r.in(0, L - 1);
		auto s = sp[k];
		bool right = s.rank() == (op ? 4 : 3);
		if (right && r.chance(0.6))
			s.lay[2] = inv(g, s.lay[0]);
		bool fits = right && s.lay[2].size() == s.lay[0].size();
		for (size_t i = 0; fits && i < s.lay[0].size(); ++i)
			fits = s.lay[0][i].size == s.lay[2][i].size && s.lay[0][i].q == g.inv(s.lay[2][i].q);
		auto t = make(r, s, dt);
		size_t n = r.in(1, 4);
		auto go = [&] {
			if (op)
			{
				bMPO m(n, t);
				equals(c, m, std::vector<btensor>(n, t), "copies of a tensor");
			}
			else
			{
				bMPS m(n, t, n - 1);
				equals(c, m, std::vector<btensor>(n, t), "copies of a tensor");
				c.must_throw_as<std::invalid_argument>([&] { bMPS(n, t, n); }, "centre outside of the chain");
			}
		};
		if (fits)
			go();
		else
			c.must_throw_as<std::invalid_argument>(go, "copies of a tensor that doesn't fit with itself");
	}
}
// ------------------------------------------------------------------------------------------------ N02
// what the sweeps made of every site: 0 unknown, 1 left isometry, 2 right isometry
struct Canon
{
	std::vector<int> k;
	void move(int from, int to)
	{
		for (; from < to; ++from)
			k[from] = 1, k[from + 1] = 0;
		for (; from > to; --from)
			k[from] = 2, k[from - 1] = 0;
	}
};
void left_iso(Case &c, const Tensor &t, double tol, int i)
{
	auto m = t.reshape({t.size(0) * t.size(1), t.size(2)});
	if (t.size(2) == 0)
		return;
	auto e = (torch::matmul(m.conj().t(), m) - torch::eye(t.size(2), m.options())).abs().max().item<double>();
	c.check(e < tol, "a tensor left of the centre is no left isometry", [&] { return cat("site ", i, " deviation ", e); });
}
void right_iso(Case &c, const Tensor &t, double tol, int i)
{
	auto m = t.reshape({t.size(0), t.size(1) * t.size(2)});
	if (t.size(0) == 0)
		return;
	auto e = (torch::matmul(m, m.conj().t()) - torch::eye(t.size(0), m.options())).abs().max().item<double>();
	c.check(e < tol, "a tensor right of the centre is no right isometry", [&] { return cat("site ", i, " deviation ", e); });
}
template <class N>
void follow(Case &c, N &n, const Tensor &state, const Canon &k, double tol, int oc)
{
	c.check(size_t(n.orthogonality_center) == size_t(oc), "reported centre", [&] { return cat(size_t(n.orthogonality_center), " instead of ", oc); });
	c.check(n.check_ranks(), "the network is not valid any more");
	auto t = tensors(n);
	auto e = expand_mps(t);
	c.check(e.sizes() == state.sizes(), "shape of the state", [&] { return cat(vstr(e.sizes()), " instead of ", vstr(state.sizes())); });
	auto d = frob(e - state);
	c.check(d < tol * (1 + frob(state)), "the state changed", [&] { return cat("difference ", d, " of ", frob(state)); });
	for (size_t i = 0; i < t.size(); ++i)
	{
		if (k.k[i] == 1)
			left_iso(c, t[i], tol, i);
		if (k.k[i] == 2)
			right_iso(c, t[i], tol, i);
	}
}
void moves_dense(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	int L = r.in(1, 6);
	auto n = random_mps(r, L, dt, r.chance(0.4), 3, r.chance(0.3) ? 8 : 4);
	if (r.chance(0.2)) // rank deficient
		n[r.in(0, L - 1)].select(1, 0).zero_();
	if (r.chance(0.15))
	{
		auto &t = n[r.in(0, L - 1)];
		t = t.select(0, 0).unsqueeze(0).expand_as(t).contiguous();
	}
	if (r.chance(0.2)) // non contiguous tensors
		for (auto &t : n)
			t = t.permute({2, 0, 1}).contiguous().permute({1, 2, 0});
	int oc = r.in(0, L - 1);
	TV orig = tensors(n), bits;
	for (auto &t : orig)
		bits.push_back(t.clone());
	MPS m(orig, oc);
	auto state = expand_mps(orig);
	Canon k{std::vector<int>(L, 0)};
	std::string h = cat("L ", L, " oc ", oc, " ", torch::toString(dt));
	for (auto &t : orig)
		h += " " + vstr(t.sizes());
	double tol = eps_of(dt);
	for (int s = r.in(1, 6); s > 0; --s)
	{
		int to = r.in(0, L - 1);
		h += cat(" ->", to);
		c.op("move");
		auto before = tensors(m);
		m.move_oc(to);
		c.count("sites swept", std::abs(to - oc));
		k.move(oc, to);
		for (int i = std::min(oc, to); i < std::max(oc, to); ++i)
		{ // the bond between i and i+1 was recomputed
			auto bd = m[i].size(2);
			auto most = to > oc ? m[i].size(0) * m[i].size(1) : m[i + 1].size(1) * m[i + 1].size(2);
			c.check(bd <= most && bd <= before[i].size(2), "a bond grew", [&] { return cat("bond ", i, ": ", bd, " from ", before[i].size(2), " limit ", most); });
		}
		for (int i = 0; i < L; ++i)
			if (i < std::min(oc, to) || i > std::max(oc, to))
				c.check(same(before[i], m[i]), "a tensor outside of the swept region changed");
		oc = to;
		follow(c, m, state, k, tol, oc);
		if (r.chance(0.25))
		{
			c.op("bad centre");
			auto b4 = tensors(m);
			for (int bad : {-1, L, L + int(r.in(1, 100)), INT_MIN, INT_MAX})
				c.must_throw_as<std::invalid_argument>([&] { m.move_oc(bad); }, "centre outside of the chain");
			for (int i = 0; i < L; ++i)
				c.check(same(b4[i], m[i]), "a refused move modified the state");
			c.check(size_t(m.orthogonality_center) == size_t(oc), "a refused move changed the centre");
		}
		if (r.chance(0.2))
		{
			MPS o(m);
			m = o; // continue with a copy
		}
	}
	for (int i = 0; i < L; ++i)
		c.check(same_bits(orig[i], bits[i]), "moving the centre modified the tensors the state was built from");
	c.describe(h);
	c.seen(h);
}
any_quantity total(const bMPS &m)
{
	auto q = sel_of(m[0]);
	for (size_t i = 1; i < m.size(); ++i)
		q *= sel_of(m[i]);
	return q;
}
void moves_block(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	auto &g = pick_group(r);
	int L = r.in(1, 5);
	auto b = random_bnet(r, g, random_phys(r, g, L), nullptr, false, 3, 2);
	auto m = make_bmps(r, b, dt, r.chance(0.4) ? 1 : r.unit());
	int oc = r.in(0, L - 1);
	m = bMPS(std::vector<btensor>(m.begin(), m.end()), oc);
	std::vector<btensor> orig(m.begin(), m.end());
	std::vector<Snap> snaps;
	for (auto &t : orig)
		snaps.emplace_back(t);
	auto state = expand_mps(tensors(m));
	auto q = total(m);
	Canon k{std::vector<int>(L, 0)};
	std::string h = cat(b.str(), " oc ", oc, " ", torch::toString(dt));
	double tol = eps_of(dt);
	auto lay0 = layout_of(m[0])[0];
	auto layN = layout_of(m[L - 1])[2];
	for (int s = r.in(1, 5); s > 0; --s)
	{
		int to = r.in(0, L - 1);
		h += cat(" ->", to);
		c.describe(h);
		c.op("move");
		auto before = m;
		m.move_oc(to);
		c.count("sites swept", std::abs(to - oc));
		k.move(oc, to);
		for (int i = std::min(oc, to); i < std::max(oc, to); ++i)
		{
			auto bd = m[i].sizes()[2];
			auto most = to > oc ? m[i].sizes()[0] * m[i].sizes()[1] : m[i + 1].sizes()[1] * m[i + 1].sizes()[2];
			c.check(bd <= most && bd <= before[i].sizes()[2], "a bond grew", [&] { return cat("bond ", i, ": ", bd, " from ", before[i].sizes()[2], " limit ", most); });
		}
		oc = to;
		for (int i = 0; i < L; ++i)
		{
			validate(c, m[i], "tensor of the state");
			auto l = layout_of(m[i]);
			c.check(l[1] == layout_of(orig[i])[1], "physical dimension changed", [&] { return cat("site ", i, " ", show(m[i])); });
			c.check(dtype_of(m[i]) == dt, "scalar type changed");
		}
		c.check(layout_of(m[0])[0] == lay0 && layout_of(m[L - 1])[2] == layN, "edges changed");
		c.check(total(m) == q, "total charge changed");
		follow(c, m, state, k, tol, oc);
		if (r.chance(0.25))
		{
			c.op("bad centre");
			std::vector<Snap> b4;
			for (auto &t : m)
				b4.emplace_back(t);
			for (int bad : {-1, L, L + int(r.in(1, 100)), INT_MIN, INT_MAX})
				c.must_throw_as<std::invalid_argument>([&] { m.move_oc(bad); }, "centre outside of the chain");
			for (int i = 0; i < L; ++i)
				c.check(b4[i].diff(m[i]) == "", "a refused move modified the state");
			c.check(size_t(m.orthogonality_center) == size_t(oc), "a refused move changed the centre");
		}
	}
	for (int i = 0; i < L; ++i)
		c.check(snaps[i].diff(orig[i]) == "", "moving the centre modified the tensors the state was built from");
	c.seen(h);
}
// ------------------------------------------------------------------------------------------------ N03
double scale_of(const TV &t)
{
	double s = 1;
	for (auto &x : t)
		s *= 1 + frob(x);
	return s;
}
void close(Case &c, const Tensor &got, const Tensor &want, double tol, const char *what)
{
	c.check(got.dim() == 0, what, [&] { return cat("rank ", got.dim()); });
	c.check(got.is_complex() == want.is_complex(), what, [] { return std::string("complex or real"); });
	auto e = (got.to(torch::kComplexDouble) - want.to(torch::kComplexDouble)).abs().item<double>();
	c.check(e <= tol, what, [&] { return cat(mon::str(got), " instead of ", mon::str(want), " tolerance ", tol); });
}
Tensor full_overlap(const TV &a, const TV &b, const Tensor &le, const Tensor &re)
{ // sum le[x,y] a[x,s,u] conj(b)[y,s,v] re[u,v]
	auto A = expand_mps(a), B = expand_mps(b).conj();
	auto x = torch::tensordot(le, A, {0}, {0}); // y s u
	auto y = torch::tensordot(B, re, {2}, {1}); // y s u
	return (x * y).sum();
}
Tensor full_expect(const TV &a, const TV &b, const TV &o, const Tensor &le, const Tensor &re)
{ // sum le[x,w,y] a[x,i,u] O[w,k,i,z] conj(b)[y,k,v] re[u,z,v]
	auto A = expand_mps(a), B = expand_mps(b).conj(), O = expand_mpo(o);
	auto OA = torch::tensordot(O, A, {2}, {1});            // w k z x u
	auto l = torch::tensordot(le, OA, {0, 1}, {3, 0});     // y k z u
	auto rr = torch::tensordot(B, re, {2}, {2});           // y k u z
	return (l * rr.permute({0, 1, 3, 2})).sum();
}
MPO random_mpo(Rng &r, const MPS &a, const MPS &b, torch::ScalarType dt, bool wide)
{
	TV t;
	int L = a.size();
	int64_t x = wide ? r.in(1, 3) : 1;
	for (int i = 0; i < L; ++i)
	{
		int64_t n = i + 1 < L ? r.in(1, 4) : (wide ? r.in(1, 3) : 1);
		t.push_back(random_values(r, {x, b[i].size(1), n, a[i].size(1)}, dt));
		x = n;
	}
	return MPO(t);
}
struct Unchanged
{
	TV t, bits;
	void add(const TV &v)
	{
		for (auto &x : v)
			t.push_back(x), bits.push_back(x.clone());
	}
	void look(Case &c)
	{
		for (size_t i = 0; i < t.size(); ++i)
			c.check(same_bits(t[i], bits[i]), "a contraction modified the networks");
	}
};
void contract_dense(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	int L = r.in(1, 5);
	bool open = r.chance(0.4);
	auto a = random_mps(r, L, dt, open), b = mps_like(r, a, dt, open);
	if (r.chance(0.15))
		b = a;
	auto o = random_mpo(r, a, b, dt, r.chance(0.4));
	auto ta = tensors(a), tb = tensors(b), to = tensors(o);
	std::string h = cat("L ", L, " ", torch::toString(dt), " ");
	for (int i = 0; i < L; ++i)
		h += vstr(ta[i].sizes()) + vstr(tb[i].sizes()) + vstr(to[i].sizes());
	c.describe(h);
	c.seen(h);
	Unchanged u;
	u.add(ta);
	u.add(tb);
	u.add(to);
	double tol = (dt == torch::kFloat ? 1e-4 : 1e-10) * scale_of(ta) * scale_of(tb);
	double tolo = tol * scale_of(to);
	auto opt = ta[0].options();
	auto la = ta[0].size(0), lb = tb[0].size(0), ra = ta[L - 1].size(2), rb = tb[L - 1].size(2), lo = to[0].size(0), ro = to[L - 1].size(2);
	c.op("overlap");
	if (la == lb && ra == rb)
		close(c, contract(a, b), full_overlap(ta, tb, torch::eye(la, opt), torch::eye(ra, opt)), tol, "overlap of two states");
	close(c, contract(a, a), full_overlap(ta, ta, torch::eye(la, opt), torch::eye(ra, opt)), tol * scale_of(ta), "norm of a state");
	c.op("overlap with edges");
	auto le = random_values(r, {la, lb}, dt), re = random_values(r, {ra, rb}, dt);
	u.add({le, re});
	close(c, contract(a, b, le, re), full_overlap(ta, tb, le, re), tol * (1 + frob(le)) * (1 + frob(re)), "overlap with edges");
	c.op("operator");
	if (la == lb && ra == rb)
	{
		auto el = torch::eye(la, opt).unsqueeze(1).expand({la, lo, lb}), er = torch::eye(ra, opt).unsqueeze(1).expand({ra, ro, rb});
		close(c, contract(a, b, o), full_expect(ta, tb, to, el, er), tolo, "matrix element");
	}
	c.op("operator with edges");
	auto le3 = random_values(r, {la, lo, lb}, dt), re3 = random_values(r, {ra, ro, rb}, dt);
	u.add({le3, re3});
	close(c, contract(a, b, o, le3, re3), full_expect(ta, tb, to, le3, re3), tolo * (1 + frob(le3)) * (1 + frob(re3)), "matrix element with edges");
	u.look(c);
}
Tensor scalar_of(Case &c, const btensor &t)
{
	validate(c, t, "result of the contraction");
	c.check(t.dim() == 0, "a contraction must give a scalar", [&] { return show(t); });
	return dense_of(t);
}
void contract_block(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	auto &g = pick_group(r);
	int L = r.in(1, 4);
	auto phys = random_phys(r, g, L, 3, 2);
	auto na = random_bnet(r, g, phys, nullptr, r.chance(0.5)), nb = random_bnet(r, g, phys, nullptr, r.chance(0.5));
	if (r.chance(0.7))
	{ // same edges; the total charges may differ
		nb.bonds.front() = na.bonds.front();
		nb.bonds.back() = na.bonds.back();
	}
	if (r.chance(0.2))
		nb = na;
	auto a = make_bmps(r, na, dt), b = make_bmps(r, nb, dt);
	std::pair<Dim, Dim> oedge;
	auto o = make_bmpo(r, g, phys, dt, r.chance(0.3), &oedge);
	auto ta = tensors(a), tb = tensors(b), to = tensors(o);
	c.describe(cat(torch::toString(dt), " a ", na.str(), " b ", nb.str()));
	for (auto &x : o)
		c.describe(show(x));
	c.seen(cat(na.str(), nb.str()));
	std::vector<std::pair<const btensor *, Snap>> snaps;
	for (auto *n : {&a, &b})
		for (auto &t : *n)
			snaps.emplace_back(&t, Snap(t));
	for (auto &t : o)
		snaps.emplace_back(&t, Snap(t));
	double tol = (dt == torch::kFloat ? 1e-4 : 1e-10) * scale_of(ta) * scale_of(tb), tolo = tol * scale_of(to);
	auto opt = ta[0].options();
	auto el = torch::eye(1, opt);
	bool same_edges = na.bonds.front() == nb.bonds.front() && na.bonds.back() == nb.bonds.back();
	c.op("norm");
	close(c, scalar_of(c, contract(a, a)), full_overlap(ta, ta, el, el), tol * scale_of(ta), "norm of a state");
	c.op("overlap");
	if (same_edges)
		close(c, scalar_of(c, contract(a, b)), full_overlap(ta, tb, el, el), tol, "overlap of two states");
	c.op("overlap with edges");
	{
		Spec ls, rs;
		ls.g = rs.g = &g;
		auto la = na.bonds.front(), lb = nb.bonds.front();
		ls.lay = {inv(g, la), lb};
		ls.sel = g.mul(ls.lay[0][0].q, ls.lay[1][0].q);
		rs.lay = {na.bonds.back(), inv(g, nb.bonds.back())};
		rs.sel = g.mul(rs.lay[0][0].q, rs.lay[1][0].q);
		auto le = make(r, ls, dt), re = make(r, rs, dt);
		snaps.emplace_back(&le, Snap(le));
		auto dl = dense_of(le), dr = dense_of(re);
		close(c, scalar_of(c, contract(a, b, le, re)), full_overlap(ta, tb, dl, dr), tol * (1 + frob(dl)) * (1 + frob(dr)), "overlap with edges");
		c.check(snaps.back().second.diff(le) == "", "a contraction modified its edges");
		snaps.pop_back();
		// the same with the dense networks
		c.op("dense version");
		MPS da(ta), db(tb);
		close(c, scalar_of(c, contract(a, b, le, re)), contract(da, db, dl, dr), tol * (1 + frob(dl)) * (1 + frob(dr)), "block and dense overlaps differ");
	}
	c.op("operator");
	auto lo = to[0].size(0), ro = to[L - 1].size(2);
	if (same_edges)
	{
		auto e1 = torch::ones({1, lo, 1}, opt), e2 = torch::ones({1, ro, 1}, opt);
		close(c, scalar_of(c, contract(a, b, o)), full_expect(ta, tb, to, e1, e2), tolo, "matrix element");
		MPS da(ta), db(tb);
		MPO dO(to);
		close(c, scalar_of(c, contract(a, b, o)), contract(da, db, dO), tolo, "block and dense matrix elements differ");
	}
	c.op("operator with edges");
	{
		Spec ls, rs;
		ls.g = rs.g = &g;
		auto lol = oedge.first, lor = oedge.second;
		ls.lay = {inv(g, na.bonds.front()), inv(g, lol), nb.bonds.front()};
		rs.lay = {na.bonds.back(), lor, inv(g, nb.bonds.back())};
		ls.sel = g.mul(g.mul(ls.lay[0][0].q, ls.lay[1][0].q), ls.lay[2][0].q);
		rs.sel = g.mul(g.mul(rs.lay[0][0].q, rs.lay[1][0].q), rs.lay[2][0].q);
		auto le = make(r, ls, dt), re = make(r, rs, dt);
		auto dl = dense_of(le), dr = dense_of(re);
		close(c, scalar_of(c, contract(a, b, o, le, re)), full_expect(ta, tb, to, dl, dr), tolo * (1 + frob(dl)) * (1 + frob(dr)), "matrix element with edges");
	}
	for (auto &s : snaps)
		c.check(s.second.diff(*s.first) == "", "a contraction modified the networks");
}
// ------------------------------------------------------------------------------------------------ N04
bool reachable_sector(const Grp &g, const std::vector<Dim> &phys, const Val &target)
{
	std::set<Val> s{g.neutral()};
	for (auto &p : phys)
	{
		std::set<Val> n;
		for (auto &x : s)
			for (auto &y : p)
				n.insert(g.mul(x, y.q));
		s = n;
	}
	return s.count(target);
}
// charge of every physical configuration, row major
std::vector<Val> config_charges(const Grp &g, const std::vector<Dim> &phys)
{
	std::vector<Val> c{g.neutral()};
	for (auto &p : phys)
	{
		std::vector<Val> n;
		for (auto &x : c)
			for (auto &s : p)
				for (int64_t k = 0; k < s.size; ++k)
					n.push_back(g.mul(x, s.q));
		c = n;
	}
	return c;
}
btensor dim_tensor(const Grp &g, const Dim &d, const Val &sel, torch::TensorOptions opt = {})
{
	Spec s;
	s.g = &g;
	s.lay = {d};
	s.sel = sel;
	return btensor(s.vecs(), s.selq(), opt);
}
void random_block(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	int L = r.in(1, 6), D = r.in(1, 7);
	auto phys = random_phys(r, g, L, 3, 2);
	bool uniform = r.chance(0.5);
	bool easy = false;
	if (uniform)
		phys.assign(L, phys[0]);
	if (uniform && g.mods == std::vector<int64_t>{0} && r.chance(0.8))
	{ // consecutive integers: always attainable
		easy = true;
		Dim d;
		int lo = r.in(-2, 1), n = r.in(1, 4);
		for (int i = 0; i < n; ++i)
			d.push_back({r.in(1, 2), {lo + i}});
		r.shuffle(d);
		phys.assign(L, d);
	}
	Val target = g.neutral();
	if (r.chance(0.8))
		for (auto &p : phys)
			target = g.mul(target, r.pick(p).q);
	else
		target = g.random(r, 4);
	bool can = reachable_sector(g, phys, target);
	auto dt = pick_dtype(r);
	bool dopt = r.chance(0.3); // the default scalar type
	torch::TensorOptions opt = dopt ? torch::TensorOptions() : torch::TensorOptions(dt);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(r.chance(0.5) ? torch::kFloat : torch::kDouble));
	auto def = torch::get_default_dtype_as_scalartype();
	unsigned seed = r.next();
	int how = r.in(0, 5);
	if (!uniform && how < 2)
		how += 2;
	std::vector<btensor> specs;
	for (auto &p : phys)
		specs.push_back(dim_tensor(g, p, g.neutral()));
	auto q = g.make(target);
	std::function<bMPS()> gen;
	bMPO op;
	switch (how)
	{
	case 0: gen = [&] { return quantit::random_bMPS(L, D, specs[0], q, opt, seed); }; break;
	case 1: gen = [&] { return quantit::random_MPS(L, D, specs[0], q, opt, seed); }; break;
	case 2: gen = [&] { return quantit::random_bMPS(D, specs, q, opt, seed); }; break;
	case 3: gen = [&] { return quantit::random_MPS(D, specs, q, opt, seed); }; break;
	default:
		op = make_bmpo(r, g, phys, dt, r.chance(0.3));
		if (how == 4)
			gen = [&] { return quantit::random_bMPS(D, op, q, opt, seed); };
		else
			gen = [&] { return quantit::random_MPS(D, op, q, opt, seed); };
	}
	std::string h = cat(g.name, " how ", how, " L ", L, " D ", D, " target ", vstr(target), " seed ", seed, can ? "" : " unreachable");
	for (auto &p : phys)
	{
		h += " {";
		for (auto &x : p)
			h += cat(x.size, ":", vstr(x.q), " ");
		h += "}";
	}
	c.describe(h);
	c.seen(h);
	c.op(can ? "reachable" : "unreachable");
	int64_t tseed = r.in(0, 1000000);
	torch::manual_seed(tseed);
	bMPS m;
	try
	{
		m = gen();
	}
	catch (const std::invalid_argument &)
	{
		c.count("refused");
		c.check(!easy || !can, "a state that exists was refused");
			return;
	}
	c.count("made");
	c.check(m.size() == size_t(L), "length");
	c.check(m.check_ranks(), "check_ranks");
	auto last = r.in(0, L - 1);
	(void)last;
	for (int i = 0; i < L; ++i)
	{
		validate(c, m[i], "tensor of a random state");
		auto l = layout_of(m[i]);
		c.check(l.size() == 3 && l[1] == layout_of(specs[i])[0], "physical dimension", [&] { return cat("site ", i, " ", show(m[i])); });
		c.check(m[i].sizes()[2] <= D && m[i].sizes()[0] <= D, "bond dimension", [&] { return cat("site ", i, " ", show(m[i])); });
		// a bond without edges to the outside has exactly the requested dimension
		c.check(i + 1 == L || m[i].sizes()[2] == D, "bond dimension", [&] { return cat("site ", i, " ", show(m[i])); });
		auto want = !dopt ? dt : (how == 0 || how == 1 || how == 2 || how == 3) ? def : dt;
		c.check(dtype_of(m[i]) == want, "scalar type", [&] { return cat(torch::toString(dtype_of(m[i])), " instead of ", torch::toString(want)); });
	}
	c.check(m[0].sizes()[0] == 1 && m[L - 1].sizes()[2] == 1, "edges");
	auto e = expand_mps(tensors(m)).reshape({-1}).abs().to(torch::kDouble);
	auto ch = config_charges(g, phys);
	c.check(size_t(e.numel()) == ch.size(), "shape of the state");
	auto acc = e.accessor<double, 1>();
	double in = 0;
	for (size_t i = 0; i < ch.size(); ++i)
	{
		c.check(std::isfinite(acc[i]), "amplitude that is no number");
		if (ch[i] == target)
			in += acc[i] * acc[i];
		else
			c.check(acc[i] == 0, "amplitude outside of the requested sector", [&] { return cat("configuration ", i, " with charge ", vstr(ch[i])); });
	}
	c.check(in > 0 || !can, "the random state is zero");
	c.check(total(m) == q, "total charge");
	c.check(quantit::any_quantity_cref(sel_of(m[0])) == q, "charge of the first tensor");
	c.op("same seed");
	torch::manual_seed(tseed);
	auto m2 = gen();
	for (int i = 0; i < L; ++i)
		c.check(Snap(m[i]).diff(m2[i]) == "", "the same seeds gave another state");
}
void random_dense(Case &c)
{
	Rng &r = c.rng;
	int L = r.in(1, 8), D = r.in(1, 9);
	auto dt = pick_dtype(r);
	bool dopt = r.chance(0.3);
	torch::TensorOptions opt = dopt ? torch::TensorOptions() : torch::TensorOptions(dt);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(r.chance(0.5) ? torch::kFloat : torch::kDouble));
	auto want = dopt ? torch::get_default_dtype_as_scalartype() : dt;
	std::vector<int64_t> p;
	int how = r.in(0, 2);
	for (int i = 0; i < L; ++i)
		p.push_back(how == 0 && i > 0 ? p[0] : r.in(1, 5));
	MPO op;
	if (how == 2)
	{
		TV t;
		int64_t b = 1;
		for (int i = 0; i < L; ++i)
		{
			int64_t n = r.in(1, 3);
			t.push_back(torch::ones({b, r.in(1, 5), n, p[i]}));
			b = n;
		}
		op = MPO(t);
	}
	c.describe(cat("L ", L, " D ", D, " phys ", vstr(p), " how ", how));
	c.seen(cat(L, D, vstr(p), how));
	c.op("dense");
	auto m = how == 0 ? quantit::random_MPS(L, D, p[0], opt) : how == 1 ? quantit::random_MPS(D, p, opt) : quantit::random_MPS(D, op, opt);
	c.check(m.size() == size_t(L) && m.check_ranks(), "length");
	for (int i = 0; i < L; ++i)
	{
		c.check(m[i].sizes().vec() == IL{i == 0 ? 1 : D, p[i], i + 1 == L ? 1 : D}, "shape", [&] { return cat("site ", i, " ", vstr(m[i].sizes())); });
		c.check(m[i].scalar_type() == want, "scalar type");
		c.check(torch::isfinite(torch::view_as_real(m[i].to(torch::kComplexDouble))).all().item<bool>(), "value that is no number");
		c.check(m[i].abs().max().item<double>() > 0, "the random state is zero");
	}
	if (L > 1 && m[0].numel() > 3 && m[0].sizes() == m[1].sizes())
		c.check(!torch::equal(m[0], m[1]), "all the tensors are the same");
	c.op("refused");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_MPS(0, D, 2, opt); }, "no sites");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_MPS(L, 0, 2, opt); }, "no bond");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_MPS(D, std::vector<int64_t>{}, opt); }, "no sites");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_MPS(D, MPO(), opt); }, "no sites");
	auto &g = pick_group(r);
	auto spec = dim_tensor(g, random_dim(r, g, 3, 2, 1), g.neutral());
	auto n = g.make(g.neutral());
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_bMPS(0, D, spec, n); }, "no sites");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_bMPS(L, 0, spec, n); }, "no bond");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_bMPS(D, std::vector<btensor>{}, n); }, "no sites");
	c.must_throw_as<std::invalid_argument>([&] { quantit::random_bMPS(D, bMPO(), n); }, "no sites");
	auto &g2 = pick_group(r);
	if (g2.name != g.name)
		c.must_throw([&] { quantit::random_bMPS(L, D, spec, g2.make(g2.neutral())); }, "charge of another group");
}
void regroup(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	auto &g = pick_group(r);
	int L = r.in(0, 4);
	auto phys = random_phys(r, g, L, 3, 2);
	bMPO op;
	if (L > 0)
		op = make_bmpo(r, g, phys, dt, r.chance(0.4), nullptr, r.chance(0.5) ? 1 : r.unit());
	std::vector<btensor> orig(op.begin(), op.end());
	std::vector<Snap> snaps;
	for (auto &t : orig)
	{
		snaps.emplace_back(t);
		c.describe(show(t));
	}
	auto to = tensors(op);
	auto want = L ? expand_mpo(to) : Tensor();
	c.seen(c.desc);
	double cutoff = r.chance(0.7) ? 0 : dt == torch::kFloat ? 1e-7 : 1e-13;
	c.describe(cat(torch::toString(dt), " cutoff ", cutoff));
	c.op("coalesce");
	bMPO m(op);
	auto &ret = cutoff == 0 ? m.coalesce() : m.coalesce(cutoff);
	c.check(&ret == &m, "returned network");
	c.check(m.size() == size_t(L) && m.check_ranks(), "validity");
	if (L == 0)
		return;
	auto got = expand_mpo(tensors(m));
	c.check(got.sizes() == want.sizes(), "shape of the operator");
	double tol = (dt == torch::kFloat ? 2e-5 : 1e-11) * scale_of(to);
	c.check(frob(got - want) < tol, "the operator changed", [&] { return cat("difference ", frob(got - want), " tolerance ", tol); });
	for (int i = 0; i < L; ++i)
	{
		validate(c, m[i], "tensor of the operator");
		auto a = layout_of(m[i]), b = layout_of(orig[i]);
		c.check(a[1] == b[1] && a[3] == b[3], "physical dimensions");
		c.check(i > 0 || a[0] == b[0], "left edge");
		c.check(i + 1 < L || a[2] == b[2], "right edge");
		c.check(m[i].sizes()[2] <= orig[i].sizes()[2], "a bond grew");
		c.check(dtype_of(m[i]) == dt, "scalar type", [&] { return cat("site ", i, " ", torch::toString(dtype_of(m[i])), show(m[i])); });
		c.check(snaps[i].diff(orig[i]) == "", "the tensors that the network was made of changed");
		if (i + 1 < L)
			for (size_t k = 0; k < a[2].size(); ++k)
				for (size_t l = 0; l < k; ++l)
					c.check(a[2][k].second != a[2][l].second, "two sections of a regrouped bond have the same charge", [&] { return show(m[i]); });
	}
}
// conversion of a network to other scalar types
template <class N, class T>
void convert(Case &c, const N &n, torch::ScalarType dt, std::function<bool(const T &, const T &)> unchanged, std::function<Tensor(const T &)> dense)
{
	Rng &r = c.rng;
	auto to = pick_dtype(r);
	if (torch::isComplexType(dt) && !torch::isComplexType(to))
		to = dt == torch::kComplexFloat ? torch::kComplexDouble : torch::kComplexFloat;
	std::vector<Tensor> before;
	for (auto &t : n)
		before.push_back(dense(t).clone());
	std::vector<N> out;
	out.push_back(n.to(to));
	out.push_back(n.to(torch::TensorOptions(to)));
	out.push_back(n.to(torch::Device(torch::kCPU), to));
	out.push_back(n.to(torch::scalarTypeToTypeMeta(to)));
	{
		N m(n);
		auto &ret = m.to_(to);
		c.check(&ret == &m, "to_ returns the network itself");
		out.push_back(m);
	}
	if (n.size() > 0)
		out.push_back(n.to(out[0][0]));
	for (auto &o : out)
	{
		c.check(o.size() == n.size(), "length");
		for (size_t i = 0; i < n.size(); ++i)
		{
			auto d = dense(o[i]), s = before[i].to(to);
			c.check(d.scalar_type() == to, "scalar type", [&] { return cat(torch::toString(d.scalar_type()), " instead of ", torch::toString(to)); });
			c.check(torch::equal(d, s), "converted values");
			c.check(unchanged(n[i], n[i]) && same_bits(dense(n[i]), before[i]), "the source of the conversion changed");
		}
	}
	c.describe(cat(torch::toString(dt), " to ", torch::toString(to), " L ", n.size()));
	c.seen(cat(typeid(N).name(), torch::toString(dt), torch::toString(to), n.size()));
}
void conversions(Case &c)
{
	Rng &r = c.rng;
	auto dt = pick_dtype(r);
	int L = r.in(0, 4);
	std::function<bool(const Tensor &, const Tensor &)> yes = [](const Tensor &, const Tensor &) { return true; };
	std::function<Tensor(const Tensor &)> id = [](const Tensor &t) { return t; };
	std::function<Tensor(const btensor &)> bd = [](const btensor &t) { return dense_of(t); };
	auto &g = pick_group(r);
	auto phys = random_phys(r, g, L, 2, 2);
	int kind = r.in(0, 5);
	c.op(cat("conversion ", kind));
	MPS dm = L ? random_mps(r, L, dt, true) : MPS();
	MPO dO = L ? random_mpo(r, dm, dm, dt, true) : MPO();
	bMPS bm;
	bMPO bo;
	if (L)
	{
		bm = make_bmps(r, random_bnet(r, g, phys), dt);
		bo = make_bmpo(r, g, phys, dt, true);
	}
	std::vector<Snap> snaps;
	for (auto &t : bm)
		snaps.emplace_back(t);
	for (auto &t : bo)
		snaps.emplace_back(t);
	std::function<bool(const btensor &, const btensor &)> look = [](const btensor &, const btensor &) { return true; };
	switch (kind)
	{
	case 0: convert<MPS, Tensor>(c, dm, dt, yes, id); break;
	case 1: convert<MPO, Tensor>(c, dO, dt, yes, id); break;
	case 2: convert<MPT, Tensor>(c, MPT(dm), dt, yes, id); break;
	case 3: convert<bMPS, btensor>(c, bm, dt, look, bd); break;
	case 4: convert<bMPO, btensor>(c, bo, dt, look, bd); break;
	default: convert<bMPT, btensor>(c, bMPT(bm), dt, look, bd);
	}
	size_t k = 0;
	for (auto &t : bm)
		c.check(snaps[k++].diff(t) == "", "the source of the conversion changed");
	for (auto &t : bo)
		c.check(snaps[k++].diff(t) == "", "the source of the conversion changed");
}
} // namespace
PROPERTY(N01)
{
	ctx.family("dense", ctx.n(8000, 150000), build_dense);
	ctx.family("block", ctx.n(6000, 100000), build_block);
	ctx.family("history", ctx.n(3000, 60000), container);
}
PROPERTY(N02)
{
	ctx.family("dense", ctx.n(6000, 100000), moves_dense);
	ctx.family("block", ctx.n(5000, 80000), moves_block);
}
PROPERTY(N03)
{
	ctx.family("dense", ctx.n(8000, 120000), contract_dense);
	ctx.family("block", ctx.n(5000, 80000), contract_block);
}

PROPERTY(N04)
{
	ctx.family("random_block", ctx.n(6000, 100000), random_block);
	ctx.family("random_dense", ctx.n(3000, 40000), random_dense);
	ctx.family("regroup", ctx.n(5000, 80000), regroup);
	ctx.family("conversions", ctx.n(3000, 40000), conversions);
}
