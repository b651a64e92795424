// F01, F02: flat_map against std::map.
#include "common.h"
#include "blockTensor/flat_map.h"
#include <algorithm>
#include <list>
#include <memory>
using namespace quantit;
using mon::Case;
using mon::Rng;

namespace
{
// a value that detects use after move and double handling
struct Tok
{
	std::shared_ptr<int> p;
	int64_t v = 0;
	std::vector<int> log; // callbacks applied to this element
	Tok() = default;
	explicit Tok(int64_t x) : p(std::make_shared<int>(int(x))), v(x) {}
	bool operator==(const Tok &o) const { return v == o.v and bool(p) == bool(o.p); }
	bool operator!=(const Tok &o) const { return !(*this == o); }
};
using K1 = int;
using K2 = std::vector<int>;
template <class K>
K mk(int64_t k);
template <>
K1 mk<K1>(int64_t k)
{
	return int(k);
}
template <>
K2 mk<K2>(int64_t k)
{
	return {int(k / 5), int(k % 5)};
}
template <class K>
std::string ks(const K &k)
{
	if constexpr (std::is_same_v<K, int>)
		return std::to_string(k);
	else
		return mon::vstr(k);
}
template <class K>
using FM = flat_map<K, Tok>;
template <class K>
using MM = std::map<K, int64_t>;

template <class K>
void same(Case &c, const FM<K> &x, const MM<K> &m, const char *what)
{
	auto det = [&] {
		std::string s = "map {";
		for (auto it = x.begin(); it != x.end(); ++it)
			s += ks(it->first) + ":" + std::to_string(it->second.v) + (it->second.p ? "" : "(empty)") + " ";
		s += "} expected {";
		for (auto &e : m)
			s += ks(e.first) + ":" + std::to_string(e.second) + " ";
		return s + "}";
	};
	c.check(x.size() == m.size() and x.empty() == m.empty(), what, det);
	auto it = x.begin();
	for (auto &e : m)
	{
		c.check(it != x.end(), what, det);
		c.check(it->first == e.first and it->second.v == e.second and bool(it->second.p), what, det);
		++it;
	}
	c.check(it == x.end(), what, det);
	auto rit = x.rbegin();
	for (auto e = m.rbegin(); e != m.rend(); ++e, ++rit)
		c.check(rit->first == e->first, what, det);
	c.check(rit == x.rend(), what, det);
}
template <class K>
std::vector<std::pair<K, Tok>> content(Rng &r, int n, int range, MM<K> *first_wins, int64_t base = 0)
{
	std::vector<std::pair<K, Tok>> v;
	for (int i = 0; i < n; ++i)
	{
		K k = mk<K>(r.in(0, range));
		int64_t val = base + 1000 * i + r.in(1, 99);
		v.emplace_back(k, Tok(val));
		if (first_wins)
			first_wins->emplace(k, val);
	}
	return v;
}
template <class K>
FM<K> sorted_map(Rng &r, int n, int range, MM<K> &m, int64_t base)
{
	FM<K> x;
	for (int i = 0; i < n; ++i)
	{
		K k = mk<K>(r.in(0, range));
		int64_t v = base + r.in(1, 900);
		if (m.emplace(k, v).second)
			x[k] = Tok(v);
	}
	return x;
}

template <class K>
void history(Case &c)
{
	Rng &r = c.rng;
	int range = int(r.chance(.3) ? 4 : r.chance(.5) ? 12 : 60);
	FM<K> x, y;
	MM<K> m, n;
	std::string trace;
	int len = int(r.in(5, 30));
	int64_t tick = 1;
	for (int s = 0; s < len; ++s)
	{
		int o = int(r.in(0, 40));
		trace += mon::cat(" ", o, "/", m.size());
		K k = mk<K>(r.in(0, range));
		if (!m.empty() and r.chance(.3))
			k = std::next(m.begin(), r.in(0, m.size() - 1))->first;
		int64_t v = 100000 * (++tick);
		bool absent = m.count(k) == 0;
		auto pos_of = [&](const K &key) { return std::distance(m.begin(), m.find(key)); };
		switch (o)
		{
		case 0:
		case 1:
		{
			c.op("insert");
			std::pair<K, Tok> e(k, Tok(v));
			auto res = r.chance(.5) ? x.insert(e) : x.insert(std::move(e));
			m.emplace(k, v);
			c.check(res.second == absent, "inserted flag");
			c.check(res.first - x.begin() == pos_of(k) and res.first->first == k, "returned iterator");
		}
		break;
		case 2:
		case 3:
		case 4:
		{
			c.op("insert hint");
			size_t h = r.in(0, m.size());
			std::pair<K, Tok> e(k, Tok(v));
			typename FM<K>::iterator it;
			if (r.chance(.5))
				it = x.insert(x.cbegin() + h, static_cast<const std::pair<K, Tok> &>(e));
			else
				it = x.insert(typename FM<K>::const_iterator(x.begin() + h), std::move(e));
			m.emplace(k, v);
			c.check(it - x.begin() == pos_of(k) and it->first == k, "returned iterator");
		}
		break;
		case 5:
		case 6:
		case 7:
		{
			c.op("emplace hint");
			size_t h = r.chance(.4) ? m.size() : r.in(0, m.size());
			auto res = r.chance(.5) ? x.emplace(x.cbegin() + h, k, Tok(v)) : x.emplace(x.begin() + h, k, Tok(v));
			m.emplace(k, v);
			c.check(res.second == absent, "inserted flag");
			same(c, x, m, "content after emplace");
			c.check(res.first - x.begin() == pos_of(k), "returned iterator");
			c.check(res.first->first == k, "returned iterator");
		}
		break;
		case 8:
		case 9:
		{
			c.op("operator[]");
			if (r.chance(.5))
			{
				x[k] = Tok(v);
				m[k] = v;
			}
			else if (!absent)
				c.check(x[k].v == m[k], "existing value");
		}
		break;
		case 10:
			c.op("at");
			if (absent)
			{
				const auto &cx = x;
				c.must_throw_as<std::out_of_range>([&] { (void)x.at(k); }, "at of an absent key");
				c.must_throw_as<std::out_of_range>([&] { (void)cx.at(k); }, "at of an absent key");
			}
			else
			{
				const auto &cx = x;
				c.check(x.at(k).v == m[k] and cx.at(k).v == m[k], "at value");
				x.at(k) = Tok(v);
				m[k] = v;
			}
			break;
		case 11:
		case 12:
		{
			c.op("find");
			const auto &cx = x;
			auto i1 = x.find(k);
			auto i2 = cx.find(k);
			if (absent)
				c.check(i1 == x.end() and i2 == cx.end(), "find of an absent key");
			else
				c.check(i1 - x.begin() == pos_of(k) and i2 - cx.begin() == pos_of(k), "find position");
			c.check(x.count(k) == size_t(!absent) and x.contains(k) == !absent and cx.contains(k) == !absent, "count/contains");
			auto er = x.equal_range(k);
			auto cer = cx.equal_range(k);
			c.check(er.second - er.first == int(!absent) and cer.second - cer.first == int(!absent), "equal_range length");
			if (!absent)
				c.check(er.first->first == k and cer.first->first == k, "equal_range");
			auto lb = std::distance(m.begin(), m.lower_bound(k));
			c.check(er.first - x.begin() == lb and cer.first - cx.begin() == lb, "equal_range position");
		}
		break;
		case 13:
		case 14:
		{
			c.op("bounds");
			const auto &cx = x;
			auto lb = std::distance(m.begin(), m.lower_bound(k)), ub = std::distance(m.begin(), m.upper_bound(k));
			c.check(x.lower_bound(k) - x.begin() == lb and cx.lower_bound(k) - cx.begin() == lb, "lower_bound");
			c.check(x.upper_bound(k) - x.begin() == ub and cx.upper_bound(k) - cx.begin() == ub, "upper_bound");
		}
		break;
		case 15:
		case 16:
			c.op("erase key");
			{
				auto e1 = x.erase(k), e2 = m.erase(k);
				c.check(e1 == e2, "erase count");
			}
			break;
		case 17:
			if (m.empty())
				break;
			c.op("erase iterator");
			{
				size_t h = r.in(0, m.size() - 1);
				auto it = r.chance(.5) ? x.erase(x.begin() + h) : x.erase(x.cbegin() + h);
				m.erase(std::next(m.begin(), h));
				c.check(it - x.begin() == std::ptrdiff_t(h), "returned iterator");
			}
			break;
		case 18:
			c.op("erase range");
			{
				size_t b = r.in(0, m.size()), e = r.in(b, m.size());
				auto it = x.erase(x.cbegin() + b, x.cbegin() + e);
				m.erase(std::next(m.begin(), b), std::next(m.begin(), e));
				c.check(it - x.begin() == std::ptrdiff_t(b), "returned iterator");
			}
			break;
		case 19:
			if (r.chance(.8))
				break;
			c.op("clear");
			x.clear();
			m.clear();
			break;
		case 20:
			c.op("copy");
			{
				FM<K> z(x);
				same(c, z, m, "copy content");
				c.check(z == x, "copy equal");
				z[k] = Tok(v);
				same(c, x, m, "original after changing its copy");
				c.check((z == x) == (!absent and m[k] == v), "operator==");
				y = x;
				n = m;
			}
			break;
		case 21:
			c.op("move");
			{
				FM<K> z(std::move(x));
				same(c, z, m, "moved content");
				x = FM<K>();
				x = std::move(z);
			}
			break;
		case 22:
			c.op("swap");
			x.swap(y);
			m.swap(n);
			break;
		case 23:
		case 24:
			c.op("bulk construct");
			{
				MM<K> e;
				int cnt = int(r.in(0, r.chance(.2) ? 60 : 12));
				auto v2 = content<K>(r, cnt, range, &e, v);
				FM<K> z(v2.begin(), v2.end());
				same(c, z, e, "iterator range");
				c.op("bulk construct from content");
				FM<K> z2(static_cast<const decltype(v2) &>(v2));
				same(c, z2, e, "content copy");
				FM<K> z3(std::move(v2));
				same(c, z3, e, "content move");
				if (r.chance(.3))
				{
					x = z;
					m = e;
				}
			}
			break;
		case 25:
			c.op("initializer list");
			{
				K a = mk<K>(r.in(0, range)), b = mk<K>(r.in(0, range)), d = mk<K>(r.in(0, range));
				FM<K> z{{a, Tok(v)}, {b, Tok(v + 1)}, {d, Tok(v + 2)}};
				MM<K> e;
				e.emplace(a, v);
				e.emplace(b, v + 1);
				e.emplace(d, v + 2);
				same(c, z, e, "initializer list");
			}
			break;
		case 26:
		case 27:
			c.op("insert sorted range");
			{
				size_t b = r.in(0, n.size()), e = r.in(b, n.size());
				if (r.chance(.5))
					x.insert(y.cbegin() + b, y.cbegin() + e);
				else
					x.insert(y.begin() + b, y.begin() + e);
				m.insert(std::next(n.begin(), b), std::next(n.begin(), e));
				same(c, y, n, "source of a range insertion");
			}
			break;
		case 28:
			c.op("insert unsorted range");
			{
				MM<K> e;
				auto v2 = content<K>(r, int(r.in(0, r.chance(.2) ? 40 : 8)), range, nullptr, v);
				int coll = 0, ecoll = 0;
				for (auto &p : v2)
					ecoll += !m.emplace(p.first, p.second.v).second;
				x.insert(v2.begin(), v2.end(), [&coll](auto &, auto &) { ++coll; });
				c.check(coll == ecoll, "number of collisions", [&] { return mon::cat(coll, " for ", ecoll); });
			}
			break;
		case 29:
		case 30:
		{
			c.op("insert_or_assign");
			bool hinted = r.chance(.5);
			size_t h = r.in(0, m.size());
			K kk = k;
			std::ptrdiff_t pos;
			bool flag = absent;
			if (hinted)
			{
				auto it = r.chance(.5) ? x.insert_or_assign(x.cbegin() + h, k, Tok(v))
				                       : x.insert_or_assign(x.cbegin() + h, std::move(kk), Tok(v));
				pos = it - x.begin();
			}
			else
			{
				Tok t(v);
				auto res = r.chance(.5) ? x.insert_or_assign(k, t) : x.insert_or_assign(std::move(kk), Tok(v));
				pos = res.first - x.begin();
				flag = res.second;
			}
			m[k] = v;
			c.check(flag == absent, "inserted flag");
			c.check(pos == pos_of(k), "returned iterator");
		}
		break;
		case 31:
		case 32:
		{
			c.op("try_emplace");
			size_t h = r.in(0, m.size());
			K kk = k;
			Tok t(v);
			std::pair<typename FM<K>::iterator, bool> res;
			switch (r.in(0, 3))
			{
			case 0:
				res = x.try_emplace(k, v);
				break;
			case 1:
				res = x.try_emplace(std::move(kk), std::move(t));
				c.check(bool(t.p) == !absent, "value consumed by a try_emplace that inserts nothing");
				break;
			case 2:
				res = x.try_emplace(x.cbegin() + h, k, t);
				break;
			default:
				res = x.try_emplace(x.cbegin() + h, std::move(kk), std::move(t));
				c.check(bool(t.p) == !absent, "value consumed by a try_emplace that inserts nothing");
			}
			m.emplace(k, v);
			c.check(res.second == absent, "inserted flag");
			c.check(res.first - x.begin() == pos_of(k), "returned iterator");
		}
		break;
		case 33:
			c.op("assign a list");
			{
				K a = mk<K>(r.in(0, range)), b = mk<K>(r.in(0, range)), d = mk<K>(r.in(0, range));
				m.clear();
				m.emplace(a, v);
				m.emplace(b, v + 1);
				m.emplace(d, v + 2);
				x = {{a, Tok(v)}, {b, Tok(v + 1)}, {d, Tok(v + 2)}};
			}
			break;
		case 34:
			c.op("insert range of another container");
			{
				auto v2 = content<K>(r, int(r.in(0, r.chance(.2) ? 40 : 8)), range, nullptr, v);
				std::list<std::pair<K, Tok>> l2(v2.begin(), v2.end());
				std::map<K, Tok> m2(v2.begin(), v2.end());
				int coll = 0, ecoll = 0;
				int form = int(r.in(0, 3));
				c.tag += mon::cat(" form ", form);
				if (form == 3)
				{
					for (auto &p : m2)
						ecoll += !m.emplace(p.first, p.second.v).second;
					x.insert(m2.begin(), m2.end());
				}
				else
				{
					for (auto &p : v2)
						ecoll += !m.emplace(p.first, p.second.v).second;
					if (form == 0)
						x.insert(v2.begin(), v2.end());
					else if (form == 1)
						x.insert(l2.begin(), l2.end());
					else
					{
						x.insert(l2.begin(), l2.end(), [&coll](auto &, auto &) { ++coll; });
						c.check(coll == ecoll, "number of collisions", [&] { return mon::cat(coll, " for ", ecoll); });
					}
				}
			}
			break;
		case 35:
		case 36:
			c.op("merge moved map");
			{
				FM<K> z(y);
				bool room = r.chance(.6);
				if (room)
					z.reserve(n.size() + m.size() + r.in(0, 3));
				x.merge(std::move(z));
				m.insert(n.begin(), n.end());
				z = y;
				same(c, z, n, "reassigned source of a merge");
			}
			break;
		case 37:
			c.op("insert convertible pair");
			{
				std::pair<const K, Tok> e(k, Tok(v));
				auto res = x.insert(e);
				m.emplace(k, v);
				c.check(res.second == absent and res.first - x.begin() == pos_of(k), "returned iterator");
				std::pair<const K, Tok> e2(mk<K>(r.in(0, range)), Tok(v + 1));
				auto it = x.insert(x.cbegin() + r.in(0, m.size()), e2);
				m.emplace(e2.first, v + 1);
				c.check(it - x.begin() == pos_of(e2.first), "returned iterator");
			}
			break;
		case 38:
			c.op("constructors");
			{
				using A = typename FM<K>::allocator_type;
				MM<K> e;
				auto v2 = content<K>(r, int(r.in(0, r.chance(.2) ? 60 : 12)), range, &e, v);
				std::list<std::pair<K, Tok>> l2(v2.begin(), v2.end());
				same(c, FM<K>(l2.begin(), l2.end()), e, "range of a list");
				same(c, FM<K>(l2.begin(), l2.end(), A()), e, "range with allocator");
				same(c, FM<K>(v2.begin(), v2.end(), typename FM<K>::key_compare(), A()), e, "range with comparator and allocator");
				same(c, FM<K>(x, A()), m, "copy with allocator");
				FM<K> z(x);
				FM<K> z2(std::move(z), A());
				same(c, z2, m, "move with allocator");
				size_t cap = size_t(r.in(0, 40));
				FM<K> z3(cap);
				c.check(z3.empty() and z3.begin() == z3.end() and z3.capacity() >= cap, "map with a capacity");
				z3.merge(FM<K>());
				c.check(z3.empty(), "merge of nothing");
				same(c, FM<K>(typename FM<K>::key_compare()), {}, "map with a comparator");
				same(c, FM<K>(A()), {}, "map with an allocator");
				K a = mk<K>(r.in(0, range)), b = mk<K>(r.in(0, range));
				MM<K> e2;
				e2.emplace(a, v);
				e2.emplace(b, v + 1);
				same(c, FM<K>({{a, Tok(v)}, {b, Tok(v + 1)}}, A()), e2, "list with allocator");
				same(c, FM<K>({{a, Tok(v)}, {b, Tok(v + 1)}}, x.value_comp(), A()), e2, "list with comparator");
				c.check(x.key_comp()(a, b) == (a < b) and x.value_comp()({a, Tok(1)}, {b, Tok(0)}) == (a < b), "comparators");
				c.check(x.max_size() >= m.size(), "max_size");
			}
			break;
		case 39:
			c.op("plain emplace");
			{
				auto res = x.emplace(k, Tok(v));
				m.emplace(k, v);
				c.check(res.second == absent, "inserted flag");
				c.check(res.first - x.begin() == pos_of(k), "returned iterator");
			}
			break;
		default:
			c.op("merge");
			{
				x.merge(y);
				m.insert(n.begin(), n.end());
				same(c, y, n, "source of merge");
			}
		}
		c.tag += " (history)";
		if (r.chance(.1))
			x.reserve(m.size() + r.in(0, 30));
		if (r.chance(.1))
			x.shrink_to_fit();
		same(c, x, m, "state after operation");
		same(c, y, n, "other map after operation");
	}
	c.describe(trace);
	c.seen(trace + ks(mk<K>(7)));
}

// all ways to interleave a and b keys: for each of n positions: only a, only b, both
template <class K>
void merge_pattern(Case &c, const std::vector<int> &pat, int how)
{
	FM<K> a, b;
	MM<K> ma, mb;
	std::string d;
	for (size_t i = 0; i < pat.size(); ++i)
	{
		K k = mk<K>(int64_t(i));
		if (pat[i] & 1)
		{
			a[k] = Tok(1000 + i);
			ma[k] = 1000 + i;
		}
		if (pat[i] & 2)
		{
			b[k] = Tok(2000 + i);
			mb[k] = 2000 + i;
		}
		d += "-ab*"[pat[i]];
	}
	c.describe("merge pattern " + d + " form " + std::to_string(how));
	if (how & 1)
		a.reserve(64);
	std::map<int64_t, int> ncoll, nnocoll; // by destination value
	bool bad_args = false;
	std::string log;
	auto collision = [&](Tok &x, const Tok &y) {
		if (!(x.p and y.p and x.v >= 1000 and x.v < 2000 and y.v == x.v + 1000))
			bad_args = true;
		log += mon::cat("C(", x.v, ",", y.v, ")");
		ncoll[x.v]++;
		x.v = x.v * 10000 + y.v; // records that the callback ran, and on which pair
	};
	auto nocollision = [&](Tok &x) {
		log += mon::cat("N(", x.v, ")");
		nnocoll[x.v]++;
		x.v = -x.v;
	};
	bool nc = true, rval = false;
	switch (how / 2)
	{
	case 0: c.op("insert(collision,nocollision)"); a.insert(b.cbegin(), b.cend(), collision, nocollision); break;
	case 1: c.op("merge(collision,nocollision)"); a.merge(b, collision, nocollision); break;
	case 2: c.op("insert(collision)"); a.insert(b.cbegin(), b.cend(), collision); nc = false; break;
	case 3: c.op("merge(collision)"); a.merge(b, collision); nc = false; break;
	case 4:
		c.op("merge rvalue(collision)");
		nc = false;
		rval = true;
		if (how & 1)
			b.reserve(128);
		a.merge(std::move(b), [&](Tok &x, const Tok &y) { collision(x, y); });
		break;
	case 5:
		c.op("merge rvalue(collision,nocollision)");
		rval = true;
		if (how & 1)
			b.reserve(128);
		a.merge(std::move(b), [&](Tok &x, const Tok &y) { collision(x, y); }, nocollision);
		break;
	default:
	{
		c.op("insert subrange");
		a.insert(b.begin(), b.end(), [&](Tok &x, const Tok &y) { collision(x, y); }, nocollision);
	}
	}
	MM<K> e;
	std::string exp;
	for (auto &p : ma)
		e[p.first] = mb.count(p.first) ? p.second * 10000 + mb[p.first] : p.second;
	for (auto &p : mb)
		if (!ma.count(p.first))
			e[p.first] = nc ? -p.second : p.second;
	same(c, a, e, "merged content");
	auto det = [&] { return "calls: " + log; };
	c.check(!bad_args, "collision arguments", det);
	for (auto &p : ma)
		if (mb.count(p.first))
			c.check(ncoll[p.second] == 1, "collision exactly once", det);
	size_t nboth = 0;
	for (auto &p : mb)
	{
		if (ma.count(p.first))
			++nboth;
		else if (nc)
			c.check(nnocoll[p.second] == 1, "nocollision exactly once", det);
	}
	c.check(ncoll.size() == nboth, "collision only on common keys", det);
	if (nc)
		c.check(nnocoll.size() == mb.size() - nboth, "nocollision only on new keys", det);
	if (!rval)
		same(c, b, mb, "source of merge unchanged");
	c.count("collisions", nboth);
	c.count("new elements", mb.size() - nboth);
	c.seen(d + std::to_string(how) + ks(mk<K>(3)));
}
} // namespace

PROPERTY(F01)
{
	ctx.family("history int keys", ctx.n(12000, 200000), [](Case &c) { history<int>(c); });
	ctx.family("history index-tuple keys", ctx.n(8000, 150000), [](Case &c) { history<std::vector<int>>(c); });
}
PROPERTY(F02)
{
	// every interleaving of up to 6 (quick) / 8 (thorough) key positions, every form
	int maxn = ctx.thorough() ? 10 : 8;
	for (int n = 0; n <= maxn; ++n)
	{
		int64_t cnt = 1;
		for (int i = 0; i < n; ++i)
			cnt *= 3;
		ctx.family("all interleavings of " + std::to_string(n), cnt, [n](Case &c) {
			std::vector<int> pat(n);
			int64_t x = c.index;
			for (auto &p : pat)
			{
				p = int(x % 3) + 1;
				x /= 3;
			}
			for (int how = 0; how < 14; ++how)
			{
				merge_pattern<int>(c, pat, how);
				merge_pattern<std::vector<int>>(c, pat, how);
			}
		});
	}
	ctx.family("random large", ctx.n(4000, 60000), [](Case &c) {
		std::vector<int> pat(c.rng.in(7, 40));
		double pa = c.rng.unit(), pb = c.rng.unit();
		// blocks of one kind make long moves likely
		int cur = 0;
		for (auto &p : pat)
		{
			if (c.rng.chance(.4))
				cur = (c.rng.chance(pa) ? 1 : 0) | (c.rng.chance(pb) ? 2 : 0);
			p = cur;
		}
		merge_pattern<int>(c, pat, int(c.rng.in(0, 13)));
		merge_pattern<std::vector<int>>(c, pat, int(c.rng.in(0, 13)));
	});
	ctx.family("repeated", ctx.n(2000, 30000), [](Case &c) {
		// accumulate several maps: the total of each key is conserved, each contribution counted once
		Rng &r = c.rng;
		flat_map<int, double> acc;
		std::map<int, double> m;
		int rounds = int(r.in(2, 7)), range = int(r.in(3, 30));
		std::string d;
		for (int i = 0; i < rounds; ++i)
		{
			flat_map<int, double> b;
			int n = int(r.in(0, 10)), off = int(r.in(-10, 10));
			double scale = double(r.in(1, 5));
			for (int j = 0; j < n; ++j)
				b[int(r.in(0, range)) + off] = double(r.in(1, 50));
			for (auto it = b.begin(); it != b.end(); ++it)
				m[it->first] += scale * it->second;
			acc.merge(b, [scale](double &x, const double &y) { x += scale * y; }, [scale](double &x) { x *= scale; });
			d += mon::cat(" +", b.size());
			c.check(acc.size() == m.size(), "accumulated size");
			auto it = acc.begin();
			for (auto &e : m)
			{
				c.check(it->first == e.first and it->second == e.second, "accumulated value",
				        [&] { return mon::cat("key ", e.first, " expected ", e.second, " got key ", it->first, " ", it->second); });
				++it;
			}
		}
		c.describe("accumulation" + d);
		c.seen(d);
	});
}
