// Generators of charge-labelled layouts and block tensors, an independent validity test, and dense references.
#pragma once
#include "common.h"
#include "blockTensor/btensor.h"
#include <torch/torch.h>

namespace bt
{
using quantit::any_quantity;
using quantit::any_quantity_cref;
using quantit::any_quantity_vector;
using quantit::btensor;
using torch::Tensor;
using mon::Case;
using mon::Rng;
using mon::cat;
using mon::vstr;
using IL = std::vector<int64_t>;
using Val = std::vector<int64_t>; // canonical component values of a charge

struct Grp
{
	std::string name;
	std::vector<int64_t> mods; // 0: the integers
	std::function<any_quantity(const Val &)> make;
	Val neutral() const { return Val(mods.size(), 0); }
	Val mul(const Val &a, const Val &b) const;
	Val inv(const Val &a) const;
	Val random(Rng &r, int64_t range = 2) const;
};
const std::vector<Grp> &groups();
const Grp &group(const std::string &name);
const Grp &pick_group(Rng &r);

struct Sec
{
	int64_t size;
	Val q;
	bool operator==(const Sec &o) const { return size == o.size && q == o.q; }
};
using Dim = std::vector<Sec>;
using Layout = std::vector<Dim>;
struct Spec
{
	const Grp *g = nullptr;
	Layout lay;
	Val sel;
	int64_t rank() const { return int64_t(lay.size()); }
	btensor::vec_list_t vecs() const;
	any_quantity selq() const { return g->make(sel); }
	IL sizes() const;
	std::string str() const;
};
int64_t dim_size(const Dim &d);
Dim inv(const Grp &g, const Dim &d);
Dim shift(const Grp &g, const Dim &d, const Val &q);
void enlarge(Rng &r, const Grp &g, Dim &d); // many sections, or a large one
Dim random_dim(Rng &r, const Grp &g, int maxsec = 4, int maxsize = 3, int range = 2);
// selection rule reached by some block of the layout (with probability p_hit), or random
Val random_sel(Rng &r, const Grp &g, const Layout &l, double p_hit = 0.9);
Spec random_spec(Rng &r, const Grp &g, int rank, int maxsec = 4, int maxsize = 3);
Val charge(const Spec &s, const IL &block);
std::vector<IL> all_blocks(const Layout &l);
std::vector<IL> allowed_blocks(const Spec &s);
bool is_empty(const Spec &s, const IL &b); // has no element
std::vector<IL> filled_blocks(const Spec &s); // the allowed blocks which have elements
IL block_shape(const Layout &l, const IL &block);
IL block_offset(const Layout &l, const IL &block);
Tensor mask(const Spec &s); // boolean dense tensor of the elements allowed by conservation

torch::ScalarType pick_dtype(Rng &r);
// values driven by the case's own generator; never exactly zero
Tensor random_values(Rng &r, const IL &shape, torch::ScalarType dt);
struct MakeOpt
{
	double density = 0.75;   // probability of an allowed block to be stored
	double zero = 0.08;      // probability of a stored block to be all zeros
	double strided = 0.3;    // probability of a block to be non contiguous
	bool all_ctor = true;    // use any constructor
};
btensor make(Rng &r, const Spec &s, torch::ScalarType dt, MakeOpt o = {});
btensor make_like_values(const Spec &s, const Tensor &dense, Rng &r); // every allowed block filled from dense

std::vector<IL> keys(const btensor &t);
Tensor dense_of(const btensor &t); // assembled from the public accessors, not from to_dense
std::vector<std::vector<std::pair<int64_t, any_quantity>>> layout_of(const btensor &t);
std::string show(const btensor &t);

// structural validity (B01); returns an explanation or ""
std::string defects(const btensor &t, bool check_library_test = true);
void validate(Case &c, const btensor &t, const char *what);
void expect_spec(Case &c, const btensor &t, const Spec &s, const char *what);
void expect_dense(Case &c, const Tensor &got, const Tensor &want, const char *what, double tol = 1e-10);
double rel_err(const Tensor &got, const Tensor &want);
double tol_of(torch::ScalarType dt);

// bit-exact record of a tensor
struct Snap
{
	std::vector<std::vector<std::pair<int64_t, any_quantity>>> lay;
	any_quantity sel;
	std::vector<std::pair<IL, Tensor>> blocks;
	torch::ScalarType dt;
	explicit Snap(const btensor &t);
	Snap() = default;
	std::string diff(const btensor &t) const; // "" when t is still the same
};
bool same_bits(const Tensor &a, const Tensor &b);
torch::ScalarType dtype_of(const btensor &t);
inline any_quantity sel_of(const btensor &t) { return *t.selection_rule.operator->(); }
std::string dims_str(const std::vector<int64_t> &v);
} // namespace bt
