// Random valid uses of the block tensor interface, shared by several monitors.
#pragma once
#include "bt.h"
namespace zoo
{
using namespace bt;
struct Op
{
	std::string name;
	std::vector<btensor> in;                                                      // operands
	std::function<std::vector<btensor>(const std::vector<btensor> &)> f;          // must not modify them
	bool fresh = false; // the result owns its memory (arithmetic, contraction)
	std::string info;
};
struct InOp
{
	std::string name;
	btensor target;
	std::vector<btensor> in;
	std::function<void(btensor &, const std::vector<btensor> &)> f;
	std::function<btensor(const btensor &, const std::vector<btensor> &)> ref; // out-of-place equivalent (may be empty)
	std::string info;
	InOp() : target({}, any_quantity(quantit::conserved::Z(0))) {}
};
// two layouts such that the second broadcasts with the first (dimensions of size one, missing leading dimensions)
void broadcast_specs(Rng &r, const Grp &g, Spec &a, Spec &b, bool second_smaller);
// specs contracting over the given dims of a and b
void contraction_specs(Rng &r, const Grp &g, Spec &a, Spec &b, IL &da, IL &db, int max_rank = 4, bool large = false);
void bmm_specs(Rng &r, const Grp &g, Spec &a, Spec &b);
Op random_op(Rng &r);
Op unary_on(Rng &r, const btensor &t); // any unary operation applicable to t
InOp random_inop(Rng &r);
Spec spec_of(const btensor &t, const Grp &g);
} // namespace zoo
