#include "common.h"
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>
namespace mon
{
static std::map<std::string, PropFn> &registry()
{
	static std::map<std::string, PropFn> r;
	return r;
}
static std::function<void(uint64_t)> &hook()
{
	static std::function<void(uint64_t)> h;
	return h;
}
Registrar::Registrar(const char *prop, PropFn f) { registry()[prop] = f; }
SeedHook::SeedHook(std::function<void(uint64_t)> f) { hook() = std::move(f); }
static double now()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
static double cpu()
{
	timespec ts;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
	return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
static std::string esc(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
			(o += '\\') += c;
		else if (c < 0x20 || c >= 0x7f)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += c;
	}
	return o + "\"";
}
void Case::count(const std::string &what, int64_t n) { ctx.counters[what] += n; }

void Ctx::family(const std::string &name_, int64_t count, const std::function<void(Case &)> &f)
{
	const std::string name = prefix + name_;
	std::set<uint64_t> hashes;
	uint64_t evals = 0, checks = 0;
	std::vector<std::string> samples;
	bool truncated = false;
	uint64_t famh = hash_str(prop + "/" + name);
	for (int64_t i = 0; i < count; ++i)
	{
		std::string id = name + ":" + std::to_string(i);
		if (!only_case.empty())
		{
			if (only_case != id)
				continue;
		}
		else if (int((uint64_t(i) + famh % nshards) % nshards) != shard)
			continue;
		if (!resumed)
		{
			if (id == resume_after)
				resumed = true;
			continue;
		}
		if (now() - t0 > budget)
		{
			truncated = true;
			break;
		}
		uint64_t sd = seed * 0x9e3779b97f4a7c15ull ^ famh ^ (uint64_t(i) * 0xd1342543de82ef95ull);
		Case c(*this, sd, name, i);
		if (hook())
			hook()(sd);
		{
			char b[256];
			int l = snprintf(b, sizeof b, "%s\t%.3f\t                   \n", id.c_str(), cpu());
			if (curfd >= 0)
				(void)!pwrite(curfd, b, l, 0);
		}
		std::string key, msg;
		try
		{
			f(c);
		}
		catch (const Failure &e)
		{
			key = e.key;
			msg = e.msg;
		}
		catch (const std::exception &e)
		{
			int st;
			char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
			key = name + "/" + (c.tag.empty() ? "" : c.tag + "/") + "unexpected exception";
			msg = std::string(d ? d : typeid(e).name()) + ": " + std::string(e.what()).substr(0, 400);
			free(d);
		}
		catch (...)
		{
			key = name + "/" + c.tag + "/unexpected exception";
			msg = "unknown exception type";
		}
		++evals;
		checks += c.checks;
		if (c.nontrivial && hashes.size() < 200000)
			hashes.insert(hash_str(name + c.sig));
		if (c.nontrivial && samples.size() < 1 && !c.desc.empty())
			samples.push_back("{\"case\":" + esc(id) + ",\"what\":" + esc(c.desc) + "}");
		if (!key.empty() && swallow)
			++counters["cases ended by an assertion of another monitor"];
		else if (!key.empty())
		{
			++violations;
			if (viol_keys[key]++ < 2 || !only_case.empty())
			{
				fprintf(outf, "{\"t\":\"viol\",\"case\":%s,\"key\":%s,\"msg\":%s}\n", esc(id).c_str(), esc(key).c_str(),
				        esc(msg + (c.desc.empty() ? "" : "  || case: " + c.desc)).c_str());
				fflush(outf);
			}
		}
	}
	if (curfd >= 0)
	{
		(void)!ftruncate(curfd, 0);
		(void)!pwrite(curfd, "-\t0\t\n", 5, 0);
	}
	std::string hs;
	for (auto h : hashes)
		hs += (hs.empty() ? "" : ",") + std::to_string(h);
	std::string sm;
	for (auto &s : samples)
		sm += (sm.empty() ? "" : ",") + s;
	fprintf(outf, "{\"t\":\"fam\",\"name\":%s,\"evals\":%lu,\"checks\":%lu,\"truncated\":%s,\"hashes\":[%s],\"samples\":[%s]}\n",
	        esc(name).c_str(), (unsigned long)evals, (unsigned long)checks, truncated ? "true" : "false", hs.c_str(),
	        sm.c_str());
	fflush(outf);
}
void Ctx::run_others(const std::string &except)
{
	for (auto &[p, f] : registry())
		if (except.find(p) == std::string::npos)
		{
			prefix = p + ".";
			f(*this);
		}
	prefix.clear();
}
void Ctx::finish()
{
	fprintf(outf, "{\"t\":\"counters\",\"c\":{");
	bool first = true;
	for (auto &c : counters)
	{
		fprintf(outf, "%s%s:%ld", first ? "" : ",", esc(c.first).c_str(), (long)c.second);
		first = false;
	}
	fprintf(outf, "}}\n{\"t\":\"done\"}\n");
	fclose(outf);
}
} // namespace mon

int main(int argc, char **argv)
{
	using namespace mon;
	Ctx ctx;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--prop")
			ctx.prop = v;
		else if (a == "--seed")
			ctx.seed = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--tier")
			ctx.tier = v;
		else if (a == "--scale")
			ctx.scale = atof(v.c_str());
		else if (a == "--shard")
			sscanf(v.c_str(), "%d/%d", &ctx.shard, &ctx.nshards);
		else if (a == "--case")
			ctx.only_case = v;
		else if (a == "--resume-after")
		{
			ctx.resume_after = v;
			ctx.resumed = false;
		}
		else if (a == "--out")
			ctx.out = v;
		else if (a == "--cur")
			ctx.cur = v;
	}
	ctx.outf = ctx.out.empty() ? stdout : fopen(ctx.out.c_str(), "w");
	if (!ctx.cur.empty())
		ctx.curfd = open(ctx.cur.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
	ctx.t0 = now();
	ctx.budget = ctx.thorough() ? 3000 : 420;
	if (!registry().count(ctx.prop))
	{
		fprintf(stderr, "no monitor for %s\n", ctx.prop.c_str());
		return 3;
	}
	registry()[ctx.prop](ctx);
	ctx.finish();
	fflush(stdout);
	return 0;
}
