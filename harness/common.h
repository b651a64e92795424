// Monitor framework: deterministic case generation, assertions, and the record of what was observed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace mon
{
struct Rng
{
	uint64_t s[4];
	static uint64_t sm(uint64_t &x)
	{
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1)
	{
		for (auto &v : s)
			v = sm(seed);
	}
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next()
	{
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = rotl(s[3], 45);
		return r;
	}
	// uniform integer in [lo,hi]
	int64_t in(int64_t lo, int64_t hi) 
	{
		if (hi < lo)
			throw std::runtime_error("empty range");
		return lo + int64_t(next() % uint64_t(hi - lo + 1));
	}
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double sym() { return 2 * unit() - 1; }
	template <class V>
	auto &pick(V &v)
	{
		if (v.empty())
			throw std::runtime_error("nothing to pick from");
		return v[next() % v.size()];
	}
	template <class V>
	void shuffle(V &v)
	{
		for (size_t i = v.size(); i > 1; --i)
			std::swap(v[i - 1], v[next() % i]);
	}
};
inline uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ull;
	return h;
}

// An assertion of the monitor failed: the observed behaviour breaks the property.
struct Failure
{
	std::string key, msg;
};

struct Ctx;
struct Case
{
	Ctx &ctx;
	Rng rng;
	std::string family;
	int64_t index;
	std::string tag;        // sub-key of the operation being observed, becomes part of the violation key
	std::string desc;       // description of the case, for evidence and replays
	std::string sig;        // signature of the situation; distinct signatures are counted
	bool nontrivial = false;
	uint64_t checks = 0;
	Case(Ctx &c, uint64_t seed, std::string fam, int64_t i) : ctx(c), rng(seed), family(std::move(fam)), index(i) {}
	void op(const std::string &t) { tag = t; count(t); }
	void count(const std::string &what, int64_t n = 1);
	void describe(const std::string &d)
	{
		if (desc.size() < 1500)
			desc += (desc.empty() ? "" : "; ") + d;
	}
	void seen(const std::string &s)
	{
		sig += "|" + s;
		nontrivial = true;
	}
	[[noreturn]] void fail(const std::string &what, const std::string &detail = "")
	{
		throw Failure{family + "/" + (tag.empty() ? "" : tag + "/") + what, detail};
	}
	void check(bool ok, const char *what)
	{
		++checks;
		if (!ok)
			fail(what);
	}
	template <class F>
	void check(bool ok, const char *what, F &&detail)
	{
		++checks;
		if (!ok)
			fail(what, detail());
	}
	// f must throw (a std::exception or derived); returns after checking that it did
	template <class F>
	void must_throw(F &&f, const char *what)
	{
		++checks;
		try
		{
			f();
		}
		catch (const Failure &)
		{
			throw;
		}
		catch (const std::exception &)
		{
			count("rejected");
			return;
		}
		fail(std::string("not rejected: ") + what);
	}
	template <class E, class F>
	void must_throw_as(F &&f, const char *what)
	{
		++checks;
		try
		{
			f();
		}
		catch (const E &)
		{
			count("rejected");
			return;
		}
		catch (const std::exception &e)
		{
			fail(std::string("wrong exception: ") + what, typeid(e).name());
		}
		fail(std::string("not rejected: ") + what);
	}
};

struct Ctx
{
	std::string prop, tier = "quick";
	uint64_t seed = 1;
	int shard = 0, nshards = 1;
	std::string only_case, resume_after, out, cur;
	bool resumed = true;
	FILE *outf = nullptr;
	int curfd = -1;
	double t0 = 0, budget = 400, scale = 1;
	std::map<std::string, int64_t> counters;
	uint64_t violations = 0;
	std::map<std::string, int> viol_keys;
	std::function<void(uint64_t)> seed_hook;
	std::string prefix;   // put before the names of the families
	bool swallow = false; // what the monitors assert isn't decided here (only crashes and reports of the instrumentation)
	// run the families of all the other properties, with their names before those of the families
	void run_others(const std::string &except);
	bool thorough() const { return tier == "thorough"; }
	int64_t n(int64_t quick, int64_t thor) const { return int64_t((thorough() ? thor : quick) * scale); }
	// run cases 0..count-1 of a family (sharded)
	void family(const std::string &name, int64_t count, const std::function<void(Case &)> &f);
	// a fixed case (always run, shard chosen by name)
	void fixed(const std::string &name, const std::function<void(Case &)> &f) { family(name, 1, f); }
	void finish();
};

using PropFn = void (*)(Ctx &);
struct Registrar
{
	Registrar(const char *prop, PropFn f);
};
#define PROPERTY(ID)                                                                                                   \
	static void run_##ID(mon::Ctx &);                                                                                  \
	static mon::Registrar reg_##ID(#ID, run_##ID);                                                                     \
	static void run_##ID([[maybe_unused]] mon::Ctx &ctx)

struct SeedHook
{
	SeedHook(std::function<void(uint64_t)> f);
};

template <class T>
std::string str(const T &v)
{
	std::ostringstream o;
	o << v;
	return o.str();
}
template <class T>
std::string vstr(const T &v)
{
	std::ostringstream o;
	o << "[";
	bool first = true;
	for (auto &x : v)
	{
		o << (first ? "" : ",") << x;
		first = false;
	}
	o << "]";
	return o.str();
}
template <class... A>
std::string cat(const A &...a)
{
	std::ostringstream o;
	(o << ... << a);
	return o.str();
}
} // namespace mon
