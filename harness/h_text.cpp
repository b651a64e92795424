// P01: the text of quantities, tensors and block tensors.
#include "bt.h"
#include "torch_formatter.h"
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <sstream>
using namespace bt;
using mon::Ctx;
namespace
{
using quantit::conserved::C;
using quantit::conserved::Z;

// the integers of a text, in order; the moduli of cyclic groups aren't values.
std::vector<int64_t> numbers(const std::string &text)
{
	std::vector<int64_t> o;
	for (size_t i = 0; i < text.size(); ++i)
	{
		if (text.compare(i, 2, "C<") == 0)
		{
			while (i < text.size() && text[i] != '>')
				++i;
			continue;
		}
		bool neg = text[i] == '-';
		size_t j = i + neg;
		if (j < text.size() && isdigit(text[j]))
		{
			int64_t v = 0;
			for (; j < text.size() && isdigit(text[j]); ++j)
				v = 10 * v + (text[j] - '0');
			o.push_back(neg ? -v : v);
			i = j - 1;
		}
	}
	return o;
}
template <class T>
std::string str(const T &t)
{
	return fmt::format("{}", t);
}
void quantity_text(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto a = g.random(r, 40), b = r.chance(0.3) ? a : g.random(r, 40);
	auto qa = g.make(a), qb = g.make(b);
	c.describe(cat(g.name, vstr(a), vstr(b)));
	c.seen(cat(g.name, vstr(a), vstr(b)));
	c.op("text of a quantity");
	auto ta = str(qa), tb = str(qb);
	c.check(numbers(ta) == a, "the components of the quantity aren't those of its text", [&] { return ta; });
	c.check((ta == tb) == (a == b), "texts of quantities agree otherwise than the quantities", [&] { return ta + " " + tb; });
	c.check(str(quantit::any_quantity_cref(qa)) == ta, "text through a reference to const");
	c.check(::to_string(qa) == ta, "to_string");
	{
		std::ostringstream s;
		quantit::any_quantity_ref ref(qa);
		c.check(str(ref) == ta, "text through a reference");
	}
	c.op("text of a container");
	any_quantity_vector v(0, qa);
	std::vector<int64_t> all;
	for (int n = r.in(0, 5); n > 0; --n)
	{
		auto e = g.random(r, 9);
		v.push_back(g.make(e));
		all.insert(all.end(), e.begin(), e.end());
		c.check(str(v[v.size() - 1]) == str(g.make(e)), "text of an element");
	}
	c.check(numbers(fmt::format("{}", v)) == all, "the text of the container doesn't hold the elements in order", [&] { return fmt::format("{}", v); });
	c.op("text of a simple group");
	int16_t k = int16_t(r.in(-32768, 32767));
	auto simple = [&](auto x, int64_t value) {
		c.check(numbers(str(x)) == std::vector<int64_t>{value}, "value of a simple quantity", [&] { return str(x); });
		std::ostringstream s;
		s << x;
		c.check(numbers(s.str()) == std::vector<int64_t>{value}, "value of a simple quantity in a stream", [&] { return s.str(); });
		quantit::quantity<decltype(x)> q(x);
		c.check(numbers(str(q)) == std::vector<int64_t>{value}, "value of a typed quantity", [&] { return str(q); });
	};
	auto mod = [&](int64_t n) { return ((k % n) + n) % n; };
	simple(Z(k), k);
	simple(C<2>(k), mod(2));
	simple(C<7>(k), mod(7));
	simple(C<1000>(k), mod(1000));
	c.op("refused format");
	static const char *bad[] = {"{:d}", "{:5}", "{:x}", "{: }", "{:>8}"};
	auto f = bad[r.in(0, 4)];
	auto refused = [&](const auto &x, const char *what) {
		try
		{
			fmt::format(fmt::runtime(f), x);
		}
		catch (const fmt::format_error &)
		{
			c.count("refused formats");
			return;
		}
		c.fail("an unsupported format was accepted", cat(what, " ", f));
	};
	refused(qa, "any_quantity");
	refused(quantit::any_quantity_cref(qa), "any_quantity_cref");
	refused(Z(3), "Z");
	refused(C<5>(3), "C<5>");
	refused(quantit::quantity<Z, C<2>>(Z(3), C<2>(1)), "quantity");
	refused(btensor({}, qa), "btensor");
	c.check(qa == g.make(a) && qb == g.make(b), "formatting changed a quantity");
}
std::string printed(const Tensor &t, int64_t width)
{
	std::ostringstream s;
	at::print(s, t, width);
	auto o = s.str();
	for (auto &x : o) // the braces of the slice headers would be format fields
		x = x == '{' ? '(' : x == '}' ? ')' : x;
	return o;
}
void tensor_text(Case &c)
{
	Rng &r = c.rng;
	IL shape;
	for (int k = r.in(0, 3); k > 0; --k)
		shape.push_back(r.chance(0.05) ? 0 : r.chance(0.2) ? r.in(8, 40) : r.in(1, 5));
	auto dt = std::array<torch::ScalarType, 5>{torch::kDouble, torch::kFloat, torch::kLong, torch::kInt8, torch::kBool}[size_t(r.in(0, 4))];
	Tensor t = r.chance(0.02) ? Tensor() : at::isFloatingType(dt) ? torch::randn(shape, torch::TensorOptions().dtype(dt)) * std::pow(10., r.in(-6, 6)) : torch::randint(0, 100, shape, torch::TensorOptions().dtype(torch::kLong)).to(dt);
	if (t.defined() && t.dim() > 1 && r.chance(0.3))
		t = t.transpose(0, -1);
	auto keep = t.defined() ? t.clone() : t;
	c.describe(cat("tensor ", vstr(shape), " ", dt));
	c.seen(cat(vstr(shape), int(dt)));
	c.op("text of a tensor");
	auto is = [&](const std::string &got, int64_t w) {
		auto want = printed(t, w);
		c.check(got == want, "the text isn't the tensor printed with that line length", [&] { return cat("width ", w, "\n", got, "\n", want); });
	};
	is(str(t), 80);
	int64_t w = r.chance(0.7) ? r.in(40, 250) : r.in(1000, 4000);
	c.op("text of a tensor with a line length");
	is(fmt::format(fmt::runtime("{:" + std::to_string(w) + "}"), t), w);
	if (r.chance(0.3))
	{
		c.op("text of a tensor on short lines"); // there's always room for one element
		auto text = fmt::format(fmt::runtime("{:" + std::to_string(r.in(1, 39)) + "}"), t);
		c.check(!text.empty(), "no text");
	}
	c.op("refused format");
	static const char *bad[] = {"{:d}", "{:a5}", "{:8x}", "{:-}", "{:50.3}", "{:99999999999999}"};
	auto f = bad[r.in(0, 5)];
	bool thrown = false;
	try
	{
		fmt::format(fmt::runtime(f), t);
	}
	catch (const fmt::format_error &)
	{
		thrown = true;
		c.count("refused formats");
	}
	c.check(thrown, "an unsupported format was accepted", [&] { return std::string(f); });
	c.check(!t.defined() || same_bits(t, keep), "formatting changed the tensor");
}
void block_text(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	auto s = random_spec(r, g, r.in(0, 3));
	auto dt = r.chance(0.7) ? torch::kDouble : torch::kFloat;
	auto t = make(r, s, dt);
	Snap snap(t);
	c.describe(s.str());
	c.seen(s.str());
	c.op("text of a block tensor");
	auto text = str(t);
	c.check(quantit::to_string(t) == text, "to_string");
	// the layout comes first, in order
	std::vector<int64_t> want = {s.rank()};
	want.insert(want.end(), s.sel.begin(), s.sel.end());
	for (auto &d : s.lay)
		want.push_back(int64_t(d.size()));
	for (auto &d : s.lay)
		for (auto &x : d)
			want.push_back(x.size);
	for (auto &d : s.lay)
		for (auto &x : d)
			want.insert(want.end(), x.q.begin(), x.q.end());
	auto ks = keys(t);
	auto pos = ks.empty() ? text.size() : text.find("block at");
	c.check(pos != std::string::npos, "the blocks aren't in the text", [&] { return text; });
	auto got = numbers(text.substr(0, pos));
	c.check(got == want, "layout in the text", [&] { return cat(vstr(got), " for ", vstr(want), "\n", text); });
	// then every block, once, in order, with its index
	for (auto &k : ks)
	{
		auto body = printed(t.block_at(k), 80);
		auto at = text.find(body, pos);
		c.check(at != std::string::npos, "a block isn't in the text", [&] { return cat(dims_str(k), "\n", text); });
		auto index = numbers(text.substr(pos, at - pos));
		c.check(index == k, "index of a block in the text", [&] { return cat(vstr(index), " for ", vstr(k), "\n", text); });
		pos = at + body.size();
	}
	c.check(numbers(text.substr(std::min(pos, text.size()))).empty(), "more in the text than in the tensor", [&] { return text; });
	c.count("blocks read in texts", int64_t(ks.size()));
	c.check(snap.diff(t) == "", "formatting changed the tensor");
}
} // namespace
PROPERTY(P01)
{
	ctx.family("quantity", ctx.n(20000, 300000), quantity_text);
	ctx.family("tensor", ctx.n(6000, 60000), tensor_text);
	ctx.family("block", ctx.n(8000, 80000), block_text);
}
