// S02: threads that share operands for reading, or work on objects of their own. The same tasks are run concurrently
// and alone; what each task produced is compared bit for bit, and ThreadSanitizer watches the memory accesses.
#include "net.h"
#include "zoo.h"
#include "blockTensor/LinearAlgebra.h"
#include "blockTensor/flat_map.h"
#include "LinearAlgebra.h"
#include "dmrg.h"
#include "models.h"
#include "operators.h"
#include "tensorgdot.h"
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace net;
using quantit::dmrg_options;
namespace
{
// record of everything observable in a result
struct Dig
{
	uint64_t h = 1469598103934665603ull;
	void bytes(const void *p, size_t n)
	{
		auto c = static_cast<const unsigned char *>(p);
		for (size_t i = 0; i < n; ++i)
			h = (h ^ c[i]) * 1099511628211ull;
	}
	Dig &operator<<(const std::string &s)
	{
		bytes(s.data(), s.size());
		return *this;
	}
	Dig &operator<<(int64_t v)
	{
		bytes(&v, sizeof v);
		return *this;
	}
	Dig &operator<<(const any_quantity &q) { return *this << fmt::format("{}", q); }
	Dig &operator<<(const Tensor &t)
	{
		*this << int64_t(t.scalar_type());
		for (auto s : t.sizes())
			*this << s;
		auto c = t.detach().resolve_conj().resolve_neg().contiguous();
		if (c.numel())
			bytes(c.data_ptr(), c.nbytes());
		return *this;
	}
	void shape(const btensor &t)
	{
		*this << int64_t(t.dim()) << sel_of(t);
		for (int64_t d = 0; d < t.dim(); ++d)
		{
			auto [s, se, q, qe] = t.section_sizes_cqtts(d);
			for (; s != se; ++s, ++q)
				*this << int64_t(*s) << any_quantity(*q);
		}
	}
	Dig &operator<<(const btensor &t)
	{
		shape(t);
		for (const auto &[k, b] : t)
		{
			for (auto i : k)
				*this << i;
			*this << b;
		}
		return *this;
	}
	template <class S>
	void network(const S &s)
	{
		*this << int64_t(s.size());
		for (size_t i = 0; i < s.size(); ++i)
			*this << s[i];
	}
};
struct Task
{
	std::string name;
	std::function<void(Dig &)> f;
};
uint64_t run(const Task &t)
{
	Dig d;
	try
	{
		t.f(d);
	}
	catch (const std::exception &e)
	{
		d << "refused" << std::string(typeid(e).name());
	}
	return d.h;
}
struct Span
{
	int task = 0;
	uint64_t begin = 0, end = 0, digest = 0;
};
void together(Case &c, const std::vector<Task> &tasks, int threads, int rounds)
{
	Rng &r = c.rng;
	std::vector<uint64_t> alone(tasks.size());
	auto reference = [&] {
		for (size_t i = 0; i < tasks.size(); ++i)
			alone[i] = run(tasks[i]);
	};
	bool before = r.chance(0.5);
	if (before)
		reference();
	std::vector<std::vector<Span>> log(threads);
	std::vector<std::vector<int>> delay(threads);
	for (int t = 0; t < threads; ++t)
		for (int k = 0; k < rounds; ++k)
		{
			Span s;
			s.task = r.chance(0.3) ? k % int(tasks.size()) : r.in(0, int64_t(tasks.size()) - 1); // sometimes all the same one
			log[t].push_back(s);
			delay[t].push_back(r.in(0, 5));
		}
	std::atomic<int> arrived{0};
	std::atomic<uint64_t> clock{0};
	// relaxed: the monitor must not order the accesses it watches
	auto body = [&](int me) {
		arrived.fetch_add(1, std::memory_order_relaxed);
		while (arrived.load(std::memory_order_relaxed) < threads)
			std::this_thread::yield();
		for (size_t k = 0; k < log[me].size(); ++k)
		{
			switch (delay[me][k])
			{
			case 0: std::this_thread::yield(); break;
			case 1: usleep(unsigned(50 + 37 * me)); break;
			case 2:
				for (volatile int i = 0; i < 3000 * (me + 1); ++i)
					;
				break;
			default: break;
			}
			auto &s = log[me][k];
			s.begin = clock.fetch_add(1, std::memory_order_relaxed);
			s.digest = run(tasks[s.task]);
			s.end = clock.fetch_add(1, std::memory_order_relaxed);
		}
	};
	std::vector<std::thread> pool;
	for (int t = 0; t < threads; ++t)
		pool.emplace_back(body, t);
	for (auto &t : pool)
		t.join();
	if (!before)
		reference();
	std::vector<std::pair<uint64_t, int>> order;
	int64_t overlaps = 0;
	for (int t = 0; t < threads; ++t)
		for (auto &s : log[t])
		{
			order.push_back({s.begin, t});
			order.push_back({s.end, t + threads});
			for (int u = t + 1; u < threads; ++u)
				for (auto &o : log[u])
					overlaps += s.begin < o.end && o.begin < s.end;
			c.check(s.digest == alone[s.task], "a concurrent run gave another result than a run alone",
			        [&] { return cat(tasks[s.task].name, " on thread ", t); });
			c.count(tasks[s.task].name);
		}
	std::sort(order.begin(), order.end());
	std::string sig;
	for (auto &o : order)
		sig += char('a' + o.second);
	c.seen(sig);
	c.count("tasks run concurrently", threads * rounds);
	c.count("overlapping pairs of tasks", overlaps);
	c.count(before ? "reference before" : "reference after");
}
void describe_tasks(Case &c, const std::vector<Task> &t)
{
	std::string s;
	for (auto &x : t)
		s += x.name + ",";
	c.describe(s);
}
Task of(const zoo::Op &op)
{
	// random values, or values which nobody wrote
	bool values = op.name.find("rand") == std::string::npos && op.name != "like factories";
	return {op.name, [op, values](Dig &d) {
		        for (auto &t : op.f(op.in))
			        if (values)
				        d << t;
			        else
				        d.shape(t);
	        }};
}
std::vector<Task> reading(Rng &r, const btensor &t)
{
	std::vector<Task> o;
	auto add = [&](const char *n, std::function<void(Dig &)> f) { o.push_back({n, std::move(f)}); };
	int64_t n = t.dim();
	int split = int(r.in(0, n));
	double tol = r.unit() * 0.3;
	for (int k = 0; k < 4; ++k)
		o.push_back(of(zoo::unary_on(r, t)));
	add("to_dense", [&t](Dig &d) { d << t.to_dense(); });
	add("accessors", [&t, n](Dig &d) {
		for (auto s : t.sizes())
			d << s;
		d << t ;
		btensor::check_tensor(t);
		for (int64_t i = 0; i < n; ++i)
			d << int64_t(t.section_number(i));
	});
	add("blocks", [&t](Dig &d) {
		for (auto &k : keys(t))
		{
			d << t.blocks().at(k);
			for (auto &&q : t.block_quantities(k))
				d << any_quantity(q);
			for (auto q : t.block_sizes(k))
				d << int64_t(q);
		}
	});
	add("format", [&t](Dig &d) { d << fmt::format("{}", t); });
	add("norm", [&t](Dig &d) { d << t.sum() << t.any() << int64_t(allclose(t, t)); });
	add("copy and modify", [&t](Dig &d) {
		auto u = t.mul(2.5);
		u.mul_(0.5).add_(t, 0.25);
		d << u;
	});
	if (n > 0)
	{
		add("svd", [&t, split](Dig &d) {
			auto [U, D, V] = quantit::svd(t, size_t(split));
			d << U << D << V;
		});
		add("svd truncated", [&t, split, tol](Dig &d) {
			auto [U, D, V] = quantit::svd(t, size_t(split), tol, size_t(1), size_t(4));
			d << U << D << V;
		});
		if (2 * n <= 6)
			add("eigh", [&t, n](Dig &d) {
				auto c = t.conj();
				auto h = tensordot(t, c, {n - 1}, {n - 1});
				auto [D, U] = quantit::eigh(h, size_t(n - 1));
				d << D << U;
			});
	}
	return o;
}
std::vector<Task> some(Rng &r, std::vector<Task> t, size_t n)
{
	r.shuffle(t);
	if (t.size() > n)
		t.resize(n);
	return t;
}
void shared(Case &c)
{
	Rng &r = c.rng;
	std::vector<Task> tasks;
	auto &g = pick_group(r);
	auto dt = r.chance(0.7) ? torch::kDouble : pick_dtype(r);
	MakeOpt mo;
	mo.density = r.chance(0.3) ? r.unit() : 0.8;
	auto s = random_spec(r, g, r.in(0, 4), 3);
	btensor t = make(r, s, dt, mo);
	std::vector<zoo::Op> ops;
	for (int k = 0; k < 4; ++k)
		ops.push_back(zoo::random_op(r));
	std::vector<std::vector<Snap>> snaps;
	for (auto &o : ops)
	{
		std::vector<Snap> v;
		for (auto &x : o.in)
			v.emplace_back(x);
		snaps.push_back(v);
		tasks.push_back(of(o));
	}
	for (auto &x : some(r, reading(r, t), 6))
		tasks.push_back(x);
	Snap st(t);
	describe_tasks(c, tasks);
	together(c, tasks, 4, 8);
	c.check(st.diff(t).empty(), "a shared tensor was modified", [&] { return st.diff(t); });
	for (size_t i = 0; i < ops.size(); ++i)
		for (size_t j = 0; j < ops[i].in.size(); ++j)
			c.check(snaps[i][j].diff(ops[i].in[j]).empty(), "a shared operand was modified", [&] { return ops[i].name + ": " + snaps[i][j].diff(ops[i].in[j]); });
}
// the threads create, modify and destroy objects of their own
void distinct(Case &c)
{
	Rng &r = c.rng;
	std::vector<Task> tasks;
	for (int k = 0; k < 8; ++k)
	{
		auto sd = r.next();
		Rng p(sd);
		if (r.chance(0.5))
			tasks.push_back({"own " + zoo::random_op(p).name, [sd](Dig &d) {
				                 Rng q(sd);
				                 auto op = zoo::random_op(q);
				                 of(op).f(d);
			                 }});
		else
			tasks.push_back({"own " + zoo::random_inop(p).name, [sd](Dig &d) {
				                 Rng q(sd);
				                 auto op = zoo::random_inop(q);
				                 op.f(op.target, op.in);
				                 if (op.name.find("put_") == std::string::npos) // its operand is random
					                 d << op.target;
				                 else
					                 d.shape(op.target);
			                 }});
	}
	describe_tasks(c, tasks);
	together(c, tasks, 4, 6);
}
void networks(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	int L = int(r.in(1, 4));
	auto dt = r.chance(0.8) ? torch::kDouble : torch::kComplexDouble;
	auto phys = random_phys(r, g, L, 2, 2);
	auto net = random_bnet(r, g, phys, nullptr, r.chance(0.5), 2, 2);
	const bMPS s = make_bmps(r, net, dt);
	const bMPO O = make_bmpo(r, g, phys, dt, false);
	const MPS ds(tensors(s));
	const MPO dO(tensors(O));
	std::vector<Snap> before;
	for (auto &x : s)
		before.emplace_back(x);
	for (auto &x : O)
		before.emplace_back(x);
	int target = int(r.in(0, L - 1));
	double cut = r.chance(0.5) ? 1e-10 : 0.1;
	std::vector<Task> tasks{
	    {"block overlap", [&](Dig &d) { d << contract(s, s); }},
	    {"overlap", [&](Dig &d) { d << contract(ds, ds); }},
	    {"block expectation", [&](Dig &d) { d << contract(s, s, O); }},
	    {"expectation", [&](Dig &d) { d << contract(ds, ds, dO); }},
	    {"block canonical", [&](Dig &d) {
		     auto u = s;
		     u.move_oc(target);
		     d.network(u);
	     }},
	    {"canonical", [&](Dig &d) {
		     auto u = ds;
		     u.move_oc(target);
		     d.network(u);
	     }},
	    {"block coalesce", [&](Dig &d) {
		     auto u = O;
		     u.coalesce(cut);
		     d.network(u);
	     }},
	    {"checks", [&](Dig &d) { d << int64_t(s.check_ranks()) << int64_t(O.check_ranks()) << int64_t(ds.check_ranks()); }},
	    {"two sites", [&](Dig &d) {
		     auto t = quantit::details::compute_2sitesHamil(O);
		     d.network(t);
	     }},
	    {"random states", [&](Dig &d) {
		     auto m = quantit::random_MPS(2, dO);
		     d << int64_t(m.size());
		     try
		     { // a random search, may find nothing
			     quantit::random_bMPS(2, O, sel_of(O[0]));
		     }
		     catch (const std::exception &)
		     {
		     }
	     }},
	};
	tasks = some(r, tasks, 6);
	describe_tasks(c, tasks);
	together(c, tasks, 4, 5);
	size_t k = 0;
	for (auto &x : s)
		c.check(before[k].diff(x).empty(), "a shared state was modified", [&] { return before[k].diff(x); }), ++k;
	for (auto &x : O)
		c.check(before[k].diff(x).empty(), "a shared operator was modified", [&] { return before[k].diff(x); }), ++k;
}
void dmrg(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec sp;
	sp.g = &g;
	sp.sel = g.neutral();
	int L = int(r.in(2, 5));
	MPO H;
	bMPO B;
	if (r.chance(0.6))
	{
		sp.lay = {{{1, g.random(r, 2)}, {1, g.random(r, 2)}}};
		double J = r.sym() * 2;
		H = quantit::Heisenberg(torch::Scalar(J), L);
		B = quantit::Heisenberg(torch::Scalar(J), L, btensor(sp.vecs(), sp.selq()));
	}
	else
	{
		L = std::min(L, 3);
		auto q1 = g.random(r, 1), q2 = g.random(r, 1);
		sp.lay = {{{1, g.neutral()}, {1, q1}, {1, q2}, {1, g.mul(q1, q2)}}};
		H = quantit::Hubbard(torch::Scalar(4.), torch::Scalar(2.), L);
		B = quantit::Hubbard(torch::Scalar(4.), torch::Scalar(2.), L, btensor(sp.vecs(), sp.selq()));
	}
	std::vector<Dim> phys(L, sp.lay[0]);
	auto dt = H[0].scalar_type();
	bMPS bs = make_bmps(r, random_bnet(r, g, phys, nullptr, true, 2, 2), dt);
	MPS ds = random_mps(r, L, dt, false, 1, 1);
	{
		TV t;
		for (int i = 0; i < L; ++i)
			t.push_back(random_values(r, {i ? 2 : 1, dim_size(phys[i]), i + 1 < L ? 2 : 1}, dt));
		ds = MPS(t);
	}
	bs.move_oc(L - 1);
	bs.move_oc(0);
	ds.move_oc(L - 1);
	ds.move_oc(0);
	dmrg_options o;
	o.maximum_iterations = size_t(r.in(1, 4));
	o.maximum_bond = size_t(r.in(1, 6));
	o.minimum_bond = 1;
	std::vector<Snap> before;
	for (auto &x : bs)
		before.emplace_back(x);
	for (auto &x : B)
		before.emplace_back(x);
	const MPO &cH = H;
	const bMPO &cB = B;
	const MPS &cs = ds;
	const bMPS &cbs = bs;
	std::vector<Task> tasks{{"dmrg", [&](Dig &d) {
		                         auto h = cH;
		                         auto s = cs;
		                         auto e = quantit::dmrg(h, s, o);
		                         d << e;
		                         d.network(s);
	                         }},
	                        {"block dmrg", [&](Dig &d) {
		                         auto h = cB;
		                         auto s = cbs;
		                         auto e = quantit::dmrg(h, s, o);
		                         d << e;
		                         d.network(s);
	                         }},
	                        {"expectation", [&](Dig &d) { d << contract(cbs, cbs, cB) << contract(cs, cs, cH); }},
	                        {"random start", [&](Dig &d) {
		                         auto h = cH;
		                         auto [e, s] = quantit::dmrg(h, o);
		                         d << int64_t(s.size());
	                         }}};
	c.describe(cat("L ", L, " ", g.name));
	together(c, tasks, 4, 2);
	size_t k = 0;
	for (auto &x : bs)
		c.check(before[k].diff(x).empty(), "a shared state was modified", [&] { return before[k].diff(x); }), ++k;
	for (auto &x : B)
		c.check(before[k].diff(x).empty(), "the shared Hamiltonian was modified", [&] { return before[k].diff(x); }), ++k;
}
void building(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	Spec two, four;
	two.g = four.g = &g;
	two.sel = four.sel = g.neutral();
	two.lay = {{{1, g.random(r, 2)}, {1, g.random(r, 2)}}};
	auto q1 = g.random(r, 1), q2 = g.random(r, 1);
	four.lay = {{{1, g.neutral()}, {1, q1}, {1, q2}, {1, g.mul(q1, q2)}}};
	const btensor s2(two.vecs(), two.selq()), s4(four.vecs(), four.selq());
	int64_t L = r.in(1, 4);
	auto each = [](Dig &d, auto &&tuple) { std::apply([&](auto &...x) { ((d << x), ...); }, tuple); };
	const Tensor A = random_values(r, {r.in(1, 5), r.in(1, 5)}, torch::kDouble);
	const btensor shape = make(r, random_spec(r, g, 2, 3), torch::kDouble);
	const Tensor dense = shape.to_dense();
	std::vector<Task> tasks{
	    {"pauli", [&](Dig &d) { each(d, quantit::pauli()); }},
	    {"fermions", [&](Dig &d) { each(d, quantit::fermions()); }},
	    {"block pauli", [&](Dig &d) { each(d, quantit::pauli(s2)); }},
	    {"block fermions", [&](Dig &d) { each(d, quantit::fermions(s4)); }},
	    {"Heisenberg", [&](Dig &d) { d.network(quantit::Heisenberg(torch::Scalar(1.5), L)); }},
	    {"block Heisenberg", [&](Dig &d) { d.network(quantit::Heisenberg(torch::Scalar(1.5), L, s2)); }},
	    {"Hubbard", [&](Dig &d) { d.network(quantit::Hubbard(torch::Scalar(1.5), torch::Scalar(0.2), L)); }},
	    {"block Hubbard", [&](Dig &d) { d.network(quantit::Hubbard(torch::Scalar(1.5), torch::Scalar(0.2), L, s4)); }},
	    {"dense svd", [&](Dig &d) {
		     auto [U, D, V] = quantit::svd(A, size_t(1), torch::Scalar(0.1), size_t(1), size_t(3));
		     d << U << D << V;
	     }},
	    {"tensorgdot", [&](Dig &d) { d << quantit::tensorgdot(torch::zeros({A.size(0), A.size(0)}, A.options()), A, A, {1}, {1}); }},
	    {"from dense", [&](Dig &d) { d << from_basic_tensor_like(shape, dense); }},
	};
	tasks = some(r, tasks, 7);
	describe_tasks(c, tasks);
	together(c, tasks, 4, 6);
}
void quantities(Case &c)
{
	Rng &r = c.rng;
	auto &g = pick_group(r);
	std::vector<any_quantity> qs;
	for (int i = 0; i < 6; ++i)
		qs.push_back(g.make(g.random(r, 3)));
	quantit::any_quantity_vector v(qs.size(), qs[0].neutral());
	for (size_t i = 0; i < qs.size(); ++i)
		v[i] = qs[i];
	const auto &cv = v;
	quantit::flat_map<int, any_quantity> map;
	for (int i = 0; i < 6; ++i)
		map.emplace(map.end(), int(r.in(0, 20)), qs[i]);
	const auto &cm = map;
	const auto &cq = qs;
	std::vector<Task> tasks{
	    {"products", [&](Dig &d) {
		     any_quantity p(cq[0].neutral());
		     for (auto &q : cq)
			     d << (p *= q) << q.inverse() << int64_t(q == cq[0]) << int64_t(q < cq[1]) << (q * cq[2]);
	     }},
	    {"vector", [&](Dig &d) {
		     for (auto it = cv.begin(); it != cv.end(); ++it)
			     d << any_quantity(*it) << ((*it) * cv[0]);
		     auto w = cv;
		     for (auto &&q : w)
			     q *= cq[3];
		     std::sort(w.begin(), w.end());
		     for (auto it = w.cbegin(); it != w.cend(); ++it)
			     d << any_quantity(*it);
	     }},
	    {"map", [&](Dig &d) {
		     for (auto &[k, q] : cm)
			     d << int64_t(k) << q;
		     auto m = cm;
		     m.erase(m.begin());
		     d << int64_t(m.size()) << int64_t(cm.find(3) == cm.end()) << int64_t(cm.lower_bound(5) - cm.begin());
	     }},
	};
	c.describe(g.name);
	together(c, tasks, 4, 6);
}
} // namespace
PROPERTY(S02)
{
	ctx.family("quantities", ctx.n(600, 8000), quantities);
	ctx.family("shared", ctx.n(4000, 60000), shared);
	ctx.family("distinct", ctx.n(2000, 30000), distinct);
	ctx.family("networks", ctx.n(1200, 15000), networks);
	ctx.family("building", ctx.n(600, 8000), building);
	ctx.family("dmrg", ctx.n(240, 3000), dmrg);
}
