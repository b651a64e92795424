From cd7624cf35a096959c29f517bdd73f9d573b6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 001/108] fix: reduce negative multiples of N to the neutral
 element in C<N>'s constructor

---
 include/Conserved/quantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..cecb905 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val((_val % N < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
-- 
2.43.0


From 76334d71f81664cac39752c1253d93ce04f78fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 002/108] fix: C<N> product overflowed its 16 bits storage for
 N > 2^15

---
 include/Conserved/quantity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index cecb905..532704d 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,8 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		uint32_t sum = uint32_t(val) + cond * other.val; // can exceed the range of uint16_t when N > 2^15
+		val = sum - (sum >= N) * N;
 		return *this;
 	}
 
-- 
2.43.0


From f227584cacb5cb84ca6574e9bda42f76bf38333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 003/108] fix: copy assignment of any_quantity can change the
 underlying type, as documented

---
 include/Conserved/Composite/cquantity.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..2698cac 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,13 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	if (impl and other.impl and impl->same_type(*other.impl))
+		*impl = *other.impl;
+	else // different underlying types, or one of the objects was moved from.
+	{
+		any_quantity tmp(other);
+		swap(tmp);
+	}
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From 406f4ef4459b50195a51e2b98a4e7f4a009841b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 004/108] fix: any_quantity_vector built from a quantity_vector
 rvalue lost its content

---
 include/Conserved/Composite/quantity_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..cefd6cd 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -63,7 +63,7 @@ public:
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
+	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other)))
 	{
 		*ptr = std::move(other);
 	}
-- 
2.43.0


From c96e9ea84fa6e68e5c04be6d36ee99c2b6573022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 005/108] fix: copying, comparing and sizing default
 constructed any_quantity_vector dereferenced null

---
 include/Conserved/Composite/quantity_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index cefd6cd..329c183 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,7 +42,7 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
@@ -76,7 +76,9 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (not ptr or not other.ptr)
+			return empty() and other.empty();
+		return *ptr == *(other.ptr);
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -137,11 +139,11 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-- 
2.43.0


From b616563a0e2a77b79e010caa56c96277eb78c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 006/108] fix: mutable iterators of a default constructed
 any_quantity_vector could not be compared

---
 include/Conserved/Composite/quantity_vector_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..9df03e2 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,7 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs) { return ar ? ar->ptr_diff(it, rhs.it) : 0; }
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From 02ea701fbcdca7bd8f8c276b7888edcce3f4f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 007/108] fix: merging flat_map applied the no-collision
 callback to elements already present

Adding or subtracting block tensors scaled blocks of the destination that the
source doesn't have.
---
 include/blockTensor/flat_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..7851af1 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -421,7 +421,9 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		// only what was just copied is new.
+		std::for_each(move_to_end - lastmfirst, move_to_end,
+		              [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From 663373da43313f15558407432f43432ca4034f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 008/108] fix: flat_map::erase of an absent key removed another
 element or dereferenced end

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 7851af1..786774a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -587,7 +587,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-- 
2.43.0


From d0fffc875516c3932a22e06f330ac33a0d2544e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 009/108] fix: flat_map lower_bound and upper_bound
 dereferenced end and missed bounds of absent keys

---
 include/blockTensor/flat_map.h | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 786774a..a86568a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -694,31 +694,19 @@ class flat_map
 	}
 	iterator lower_bound(const key_type &k)
 	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(begin(), end(), k, comp);
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(cbegin(), cend(), k, comp);
 	}
 	iterator upper_bound(const key_type &k)
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 
 	key_compare key_comp() const { return comp.comp; }
-- 
2.43.0


From bc0ce64ed304b65f62f73a29c4780adb3b5511d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 010/108] fix: flat_map insertion with a hint lower than the
 key put the element out of order

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index a86568a..aeed0ff 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -747,7 +747,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From ae80d38ddbc7acd5ef43a4530a73f7057c618bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 011/108] fix: flat_map::emplace with a hint returned a
 singular iterator when the key is already present

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index aeed0ff..7b74b0b 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -522,6 +522,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = begin() + (hint - cbegin());
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
-- 
2.43.0


From 4f5ca9251c028fec2e795b5fa02dfdd7fd80cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 012/108] fix: filtering the duplicates of an empty flat_map
 dereferenced end

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 7b74b0b..d229b15 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -770,6 +770,8 @@ class flat_map
 	                                           Collision &&collision)
 	{ // no collision get applied to all elements, instead of just the new element inserted.
 		using std::swap;
+		if (first == last)
+			return last;
 		auto l = first;
 		auto second = std::upper_bound(first, last, *l, comp);
 		while (first != last)
-- 
2.43.0


From 76cfbac246603821a6b8255fbdcecd1d3571a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 013/108] fix: flat_map built from its container type kept
 duplicated keys

---
 include/blockTensor/flat_map.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index d229b15..a51e3c7 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,18 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
+	flat_map(const content_t &in) : comp(), content((in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From 4c162122738f31a9be9cf06f80568c95f9e29f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 014/108] fix: which element of a set of duplicated keys
 survives in flat_map was unspecified

---
 include/blockTensor/flat_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index a51e3c7..815ce77 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -737,15 +737,15 @@ class flat_map
 	 * @param last iterator to the element after the range to sort
 	 *
 	 */
-	void sort(iterator first, iterator last) { std::sort(first, last, comp); }
-	void sort() { std::sort(begin(), end(), comp); }
+	void sort(iterator first, iterator last) { std::stable_sort(first, last, comp); }
+	void sort() { std::stable_sort(begin(), end(), comp); }
 
   protected:
 	value_compare comp;
 
   private:
 	content_t content;
-	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::stable_sort(first, last, comp); }
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
-- 
2.43.0


From 485eda3671e86e216b649193b5a201bc51d864b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 015/108] fix: merging a flat_map rvalue with large capacity
 applied the no-collision callback to the destination

---
 include/blockTensor/flat_map.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 815ce77..3578eb1 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -627,12 +627,6 @@ class flat_map
 
 	template <class C2, class Collision>
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision)
-	{
-		merge(std::move(source), std::forward<Collision>(collision), [](auto &&) {});
-	}
-	template <class C2, class Collision, class NoCollision>
-	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
-	           NoCollision &&nocollision)
 	{
 		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
 		{
@@ -646,15 +640,22 @@ class flat_map
 				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
 				    std::swap(a, c);
 				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
+			    });
 		}
 		else
 		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), std::forward<Collision>(collision));
 		}
 	}
+	// The source's resources cannot be reused here: the no-collision callback must be applied to the elements of the
+	// source, not to those of the destination.
+	template <class C2, class Collision, class NoCollision>
+	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
+	           NoCollision &&nocollision)
+	{
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
+	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
 	{
-- 
2.43.0


From a791b3e3e9d3f1bda5defc06b8d6ad2dbc33b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 016/108] fix: converting a rank 0 block tensor to or from a
 dense tensor always threw

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..eec8da8 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2496,6 +2496,11 @@ torch::Tensor btensor::to_dense() const
 	{
 		auto &index = std::get<0>(index_block);
 		auto &tens = std::get<1>(index_block);
+		if (rank == 0) // torch rejects empty lists of indices
+		{
+			out.copy_(tens);
+			continue;
+		}
 		auto Slices = full_slice(*this, index);
 		out.index_put_(Slices, tens);
 	}
@@ -2515,7 +2520,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		{
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
-			auto block = values.index(torch::ArrayRef(S));
+			auto block = S.empty() ? values : values.index(torch::ArrayRef(S)); // torch rejects empty lists of indices
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
-- 
2.43.0


From ccf75b7b434c795d9f8f49cb42d5c9325eff35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 017/108] fix: check_tensor read out of bounds on invalid block
 indices and ignored missing charges

---
 sources/btensor.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eec8da8..16ca8f1 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -418,21 +418,39 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (total_sections != T.c_vals.size())
+		M += fmt::format(
+		    "number of section accross all dimension ({}) incoherent with number of specified conserved quantities ({})\n",
+		    total_sections, T.c_vals.size());
+	if (M != "")
+		return M; // the blocks can't be compared with an incoherent layout.
 
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
-			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+		{
+			M += fmt::format("block index {} invalid: number of index differ from rank\n", std::get<0>(a));
+			continue;
+		}
+		bool in_range = true;
+		for (auto i = 0U; i < ind.size(); ++i)
+		{
+			if (ind[i] < 0 or ind[i] >= T.sections_by_dim[i])
+			{
+				in_range = false;
+				M += fmt::format("block index {} {}th element is not smaller than the number of section along that "
+				                 "dimension ({})\n",
+				                 ind, i, T.sections_by_dim[i]);
+			}
+		}
+		if (not in_range)
+			continue;
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
-					M += fmt::format(
-					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
-					    ind, i, T.sections_by_dim[i]);
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
-- 
2.43.0


From f273cbf7e15ae605c0c983f56055fa232bcf5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 018/108] fix: out of range sections were not refused, and
 valid ones compared with an unrelated section size

---
 sources/btensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 16ca8f1..4af939d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -61,14 +61,14 @@ void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t sec
 	if (index >= rank)
 		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
 	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
 		                                  section_size, index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,7 +78,7 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
@@ -125,7 +125,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
-- 
2.43.0


From a0c8793369a7f4908b0a2fbc2b8b6c3b78faa0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 019/108] fix: btensor::block accepted block indices of wrong
 length or out of range

---
 sources/btensor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4af939d..c9c3932 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -386,7 +386,14 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("block index {} is out of range for the number of sections {}",
+			                                        block_index, sections_by_dim));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From a96d8299a2afcad7a59a916528c938e4f3e3bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 020/108] fix: cval_shift shifted the selection rule the wrong
 way, the result violated conservation

---
 include/blockTensor/btensor.h | 4 ++--
 sources/btensor.cpp           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..11da8ee 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,7 +676,7 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the compensating shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
@@ -684,7 +684,7 @@ class btensor
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the compensating shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c9c3932..eeb64fb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2204,8 +2204,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
-	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	const any_quantity the_shift(shift); // shift can be a reference to one of the quantities we're about to modify.
+	shift_impl(the_shift, dim);
+	selection_rule.value *= the_shift; // the blocks present must still satisfy the selection rule.
 	return *this;
 }
 
@@ -2213,7 +2214,7 @@ btensor &btensor::non_conserving_cval_shift_(any_quantity_cref shift, int64_t di
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	shift_impl(shift, dim);
+	shift_impl(any_quantity(shift), dim); // shift can be a reference to one of the quantities we're about to modify.
 	return *this;
 }
 
-- 
2.43.0


From 2fe14c1cbf82dd74ff4b8c3adc031167f7936b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 021/108] fix: views ignored the fixed dimensions located after
 the last kept one, rejected rank 0 and accepted negative positions

---
 sources/btensor.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eeb64fb..ccc60e2 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -532,7 +532,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= *it_dims < *it_size and *it_dims >= -1;
 			++it_dims;
 			++it_size;
 		}
@@ -700,13 +700,12 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+				*out_it++ = *index_it;
 		}
 		return std::make_tuple(keep, out_index);
 	};
@@ -716,8 +715,10 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		auto [keep, out_index] = filter(std::get<0>(index_block), blocks);
 		if (keep)
 		{
-			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),
-			                              {out_index, std::get<1>(index_block).index(element)});
+			const auto &block = std::get<1>(index_block);
+			out_tensor.blocks_list.insert(
+			    out_tensor.blocks_list.end(),
+			    {out_index, element.empty() ? block : block.index(element)}); // torch rejects empty lists of indices
 		}
 	}
 	if (preserve_rank)
-- 
2.43.0


From c9145daf61b9888763bec8ee0e3665994bd3d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 022/108] fix: basic_index_put_ read past the end of block
 indices and kept the previous content where the value has no block

---
 sources/btensor.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ccc60e2..f545407 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -744,12 +744,33 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+				*ito = *itv++;
 		}
 		return out;
 	};
+	auto put = [&element = element](torch::Tensor &block, const torch::Tensor &value)
+	{
+		if (element.empty()) // torch rejects empty lists of indices
+			block.copy_(value);
+		else
+			block.index_put_(element, value);
+	};
+	// the blocks absent from value are zeros.
+	for (auto &index_block : this->blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		bool in_slot = true;
+		btensor::index_list value_index;
+		for (size_t i = 0; i < index.size(); ++i)
+		{
+			in_slot &= blocks[i] == -1 or blocks[i] == index[i];
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+		}
+		if (in_slot and !value.blocks_list.contains(value_index))
+			put(std::get<1>(index_block), torch::zeros({}, options()));
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
@@ -762,7 +783,7 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 			                          size_view.end()); // because torch factories don't accept iterator pairs.
 			this->blocks_list.insert({out_ind, torch::zeros(size, options())});
 		}
-		this->blocks_list.at(out_ind).index_put_(element, block);
+		put(this->blocks_list.at(out_ind), block);
 	}
 	return *this;
 }
-- 
2.43.0


From cbb0e99fbe33ae98828c2159e922f1bcfa7b5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 023/108] fix: broadcasting a dimension of size one with one of
 a single section gave the wrong shape, mismatched sections were accepted

---
 sources/btensor.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f545407..858d7c0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1044,11 +1044,18 @@ struct mul_helpers
 				*it = (((*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1)) +
 				       2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));
 				if (*it)
-					new_sections_by_dim[larger_rank - n] = std::max(*smaller_sec, *larger_sec);
+					new_sections_by_dim[larger_rank - n] = (*it & 1) ? *larger_sec : *smaller_sec;
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				bool compatible = *it or *smaller_sec == *larger_sec;
+				if (compatible and not *it)
+				{
+					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
+					compatible = std::equal(small_begin, small_end, large_begin, large_end);
+				}
+				if (not compatible)
 				{
 					if (this_is_large)
 					{
@@ -1084,14 +1091,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (not *it or (*it & 1)) // the smaller tensor has size one, or no broadcast along this dimension
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // the larger tensor has size one
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From a31c819628b4897956555a9faa5603c4c41ce377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 024/108] fix: the sum of a tensor with a non neutral selection
 rule violated conservation

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 858d7c0..a8b6578 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1552,7 +1552,7 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From a8473ef2fb9fded78ab67b3712f2f9e0e33e2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 025/108] fix: squeeze rejected size one dimensions with a non
 neutral conserved quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a8b6578..5d475db 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2193,7 +2193,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From a9a656f956cdf83b0f0bb335acecb6f0c1707e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 026/108] fix: tensors whose sections are split differently
 between dimensions were deemed compatible

---
 sources/btensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5d475db..89940c1 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2277,13 +2277,16 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_by_dim == b.sections_by_dim) or !(a.c_vals == b.c_vals) or
+	    !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
 		return false;
 	return true;
 }
 
 void btensor::add_tensor_check(const btensor &a, const btensor &b)
 {
+	if (!(a.sections_by_dim == b.sections_by_dim))
+		throw non_matching_sizes("The tensors must have the same number of sections along each dimension");
 	if (!(a.c_vals == b.c_vals))
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
-- 
2.43.0


From f097e2cb39b1d544a1a0d6c3e8a2c88d8895edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 027/108] fix: adding an rvalue modified the blocks of the left
 operand and of tensors sharing storage with the right one

---
 sources/btensor.cpp | 42 ++++--------------------------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 89940c1..a5810f0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2750,27 +2750,8 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
  */
 btensor btensor::add(btensor &&other, Scalar alpha) const
 {
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	auto out = *this;
-	out.blocks_list.merge(
-	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
-	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
-	                       // change the cost of the operations. collision
-	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    // no collision
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	out._options = std::get<1>(*out.begin()).options();
-	return out;
+	// The blocks of this can't be modified, and those of other can be views sharing their storage with another tensor.
+	return add(static_cast<const btensor &>(other), alpha);
 }
 /*!
  * In place addition. Any btensor that is a shallow copy of this (or vice versa) will not be fully updated by the
@@ -2795,23 +2776,8 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
  */
 btensor &btensor::add_(btensor &&other, Scalar alpha)
 {
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	auto b_blocks = std::move(other.blocks_list);
-	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
-	this->blocks_list.merge(
-	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	return *this;
+	// The blocks of other can be views sharing their storage with another tensor: we can't use them as our own.
+	return add_(static_cast<const btensor &>(other), alpha);
 }
 /**
  * @brief Helper functions for btensor::reshape.
-- 
2.43.0


From 6b608df3c2e0d506233ff254717c411119310e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 028/108] fix: pow_ used the in place power exactly where it
 can't be used

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a5810f0..c50121c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1798,8 +1798,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 15735dc1b1d23e7129e879a5c97628b8d2a394fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 029/108] fix: dividing a scalar by a tensor wrote its result
 out of bounds and lost it

---
 sources/btensor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c50121c..341abcc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3187,10 +3187,12 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out = quantit::sparse_zeros_like(B);
+	auto out = quantit::sparse_zeros_like(B, (A / torch::ones({}, B.options())).options());
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(in.first) = A / in.second;
+	}
 	return out;
 }
 /**
-- 
2.43.0


From cd76d757e0d8e84c6cef6d27bcc488148c28f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 030/108] fix: the scalar type of the results of element-wise
 operations didn't match the type of their blocks

---
 sources/btensor.cpp | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 341abcc..2be14ce 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -949,11 +949,10 @@ btensor btensor::mul(Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
-	               out_dtype);
+	               torch::ones({}, options()).mul(other).options());
 }
 btensor btensor::le(btensor::Scalar other) const
 {
@@ -1015,11 +1014,10 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
-	               out_dtype);
+	               torch::ones({}, options()).div(other).options());
 }
 struct mul_helpers
 {
@@ -1329,7 +1327,7 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 					                   f_(this_tensor, other_tensor));
 				else
 					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
-					                   f(this_tensor, other_tensor));
+					                   f(this_tensor, other_tensor).to(this_tensor.scalar_type()));
 			}
 		}
 	}
@@ -1565,12 +1563,7 @@ btensor btensor::sum() const
 btensor btensor::sqrt() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::sqrt);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
-	return btensor(*this, std::move(out_list), opt);
+	return btensor(*this, std::move(out_list), torch::sqrt(torch::ones({}, options())).options());
 }
 
 btensor &btensor::sqrt_()
@@ -1595,24 +1588,14 @@ btensor &btensor::abs_()
 btensor btensor::abs() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
-	return btensor(*this, std::move(out_list), opt);
+	return btensor(*this, std::move(out_list), torch::abs(torch::ones({}, options())).options());
 }
 
 btensor btensor::pow(btensor::Scalar exponent) const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(
 	    [](const torch::Tensor &x, btensor::Scalar exponent) { return x.pow(exponent); }, exponent);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
-	return btensor(*this, std::move(out_list), opt);
+	return btensor(*this, std::move(out_list), torch::ones({}, options()).pow(exponent).options());
 }
 /*
  * Will require updates if torch::Scalar changes
@@ -1736,7 +1719,10 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	auto dtype = torch::typeMetaToScalarType(options().dtype());
 	if constexpr (promote)
 	{
-		dtype = promote_types(options().dtype(), other.options().dtype());
+		// the result's type of the operation depends on the types and ranks of its operands.
+		dtype = f(torch::ones(std::vector<int64_t>(rank, 1), options()),
+		          torch::ones(std::vector<int64_t>(other.rank, 1), other.options()))
+		            .scalar_type();
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
-- 
2.43.0


From e84304262ab4a9b44baf3f46d54371e0ce018074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 031/108] fix: adding tensors of different scalar types gave
 blocks of different types

---
 sources/btensor.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2be14ce..b29edd2 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2716,18 +2716,18 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	const auto dtype = promote_types(options().dtype(), other.options().dtype());
 	for (auto &a : out)
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(dtype, /*non_blocking=*/false, /*copy=*/true);
 	}
 	out.blocks_list.merge(
 	    other.blocks_list,
 	    // collision : do an addition in place
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	    [&alpha, dtype](torch::Tensor &x) { x = x.mul(alpha).to(dtype); });
+	out._options = out._options.dtype(dtype);
 	return out;
 }
 /*!
@@ -2754,7 +2754,8 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	    [&alpha, dtype = torch::typeMetaToScalarType(_options.dtype())](torch::Tensor &x)
+	    { x = x.mul(alpha).to(dtype); });
 	return *this;
 }
 /**
-- 
2.43.0


From a89d2b10460d599f4c7eb5c9a253b4dbb91e5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 032/108] fix: reshape accepted invalid index groups and had
 undefined behavior on rank 0 tensors

---
 sources/btensor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b29edd2..2253b35 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2881,7 +2881,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it)) // more than once when there are empty groups.
 		{
 			++out_it;
 			++index_it;
@@ -3002,6 +3002,10 @@ bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 btensor btensor::reshape(torch::IntArrayRef index_groups) const
 {
 	using namespace reshape_helpers;
+	if (not std::is_sorted(index_groups.begin(), index_groups.end()) or
+	    (index_groups.size() and (index_groups.front() < 0 or index_groups.back() > rank)))
+		throw std::invalid_argument(
+		    fmt::format("the index groups {} are not increasing positions in a tensor of rank {}", index_groups, rank));
 	size_t out_rank = index_groups.size() + 1;
 	// make the information about the grouping explicit. The begining of the first group and the end of the last is
 	// not explicitly present in the input supplied (it's always 0 and the rank respectivily)
@@ -3014,7 +3018,8 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (rank > 0)
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From e7656d92e83856bab86ab91d5861c6d90eb95351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 033/108] fix: permute and transpose accepted invalid
 permutations and wrote out of bounds

---
 sources/btensor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2253b35..188e189 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1797,11 +1797,18 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	if (in_permutation.size() != rank)
+		throw std::invalid_argument(
+		    fmt::format("the permutation {} is incompatible with a tensor of rank {}", in_permutation, rank));
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
 	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
+	for (int64_t i = 0; i < rank; ++i)
+	{
+		if (std::find(permutation.begin(), permutation.end(), i) == permutation.end())
+			throw std::invalid_argument(fmt::format("{} is not a permutation of {} dimensions", in_permutation, rank));
+	}
 	// permute the tensors and their position in the block matrix
 	for (size_t i = 0; i < rank; ++i)
 	{
@@ -1821,7 +1828,7 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 		out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),
 		                            std::get<1>(block).permute(permutation));
 	}
-	any_quantity_vector out_c_vals = c_vals.permute(&*permutation.begin(), &*permutation.end(), sections_by_dim);
+	any_quantity_vector out_c_vals = c_vals.permute(permutation.data(), permutation.data() + rank, sections_by_dim);
 	index_list out_section_sizes(sections_sizes.size());
 	{
 		size_t p = 0;
@@ -1990,6 +1997,8 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(fmt::format("can't transpose dimensions out of range for a tensor of rank {}", rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -2001,6 +2010,8 @@ btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(fmt::format("can't transpose dimensions out of range for a tensor of rank {}", rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
-- 
2.43.0


From 2cd378dd5b1fb5efa799b854ae5d131764e3b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 034/108] fix: contracting dimensions with different section
 sizes was not refused

---
 sources/btensor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 188e189..0cd89ee 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -839,11 +839,18 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		auto q1 = in1.section_conserved_qtt_range(dims1[i]);
 		auto q2 = in2.section_conserved_qtt_range(dims2[i]);
 		constexpr auto mismatch = "contracted dimensions need to match, but first "
-		                          "has {} sections along dim {}  and second has {} sections along dim {}";
+		                          "has {} sections along dim {}  and second has {} sections along dim {}, "
+		                          "or the sizes of the sections differ";
 		constexpr auto mismatch_cons_rule =
 		    "contracted conserved numbers need to sum to zero, but there "
 		    "is a violation when contracting dim {} of the left tensor with dim {} of the right tensor";
 		ok_CR = s1 == s2;
+		if (ok_CR)
+		{
+			auto [size1, size1_end] = in1.section_sizes(dims1[i]);
+			auto [size2, size2_end] = in2.section_sizes(dims2[i]);
+			ok_CR = std::equal(size1, size1_end, size2, size2_end);
+		}
 		if constexpr (Throws)
 		{
 			TORCH_CHECK(ok_CR, fmt::format(mismatch, s1, dims1[i], s2, dims2[i]));
-- 
2.43.0


From 26150bc122f5d10cbcc06b07e7b21e6effec2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 035/108] fix: contraction of negative or out of range
 dimensions read out of bounds

---
 sources/btensor.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0cd89ee..598865f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -893,11 +893,21 @@ template bool btensor::check_product_compat<true>(const btensor &in1, const bten
  * @return std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>>
  */
 std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> compute_tdot_shape(
-    const btensor &input1, const btensor &input2, torch::IntArrayRef dims1, torch::IntArrayRef dims2)
+    const btensor &input1, const btensor &input2, torch::IntArrayRef in_dims1, torch::IntArrayRef in_dims2)
 {
-	TORCH_CHECK(dims1.size() == dims2.size(), "both dimension lists should have the same length.")
+	TORCH_CHECK(in_dims1.size() == in_dims2.size(), "both dimension lists should have the same length.")
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
+	auto wrapped = [](torch::IntArrayRef dims, int64_t rank)
+	{
+		TORCH_CHECK(rank != 0 or dims.size() == 0, "a tensor of rank 0 has no dimension to contract.");
+		std::vector<int64_t> out(dims.size());
+		std::transform(dims.begin(), dims.end(), out.begin(),
+		               [rank](auto dim) { return at::maybe_wrap_dim(dim, rank); });
+		return out;
+	};
+	const auto dims1 = wrapped(in_dims1, input1.dim());
+	const auto dims2 = wrapped(in_dims2, input2.dim());
 
 	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
 	auto cdims1 = at::dim_list_to_bitset(dims1, input1.dim());
-- 
2.43.0


From a20be9834d3b28168fd1e36cbb0bda0a4c676848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 036/108] fix: contraction with a rank 0 tensor never ended

---
 sources/btensor.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 598865f..7395b57 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2100,6 +2100,12 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		}
 		return std::make_tuple(a_beg, b_beg);
 	};
+	auto next_column = [&next_index](const auto &iterator, const btensor::block_list_t &list, const auto &less)
+	{
+		// a rank 0 tensor has a single block, there's no greater index for it.
+		return std::get<0>(*iterator).empty() ? list.end()
+		                                      : std::lower_bound(iterator, list.end(), next_index(iterator), less);
+	};
 	std::vector<int64_t> out_block_index(out_btens.rank);
 	std::vector<int64_t> size_vector(out_btens.rank);
 	auto cpt_output_block = [dim_l, &out_block_index](auto this_current_block_iter, auto other_current_block_iter)
@@ -2114,7 +2120,7 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 	// fmt::print("input section sizes {}\n", other.sections_sizes);
 
 	{ // launch the contractions.
-		auto this_col_start = t1.begin();
+		auto this_col_start = t1.cbegin();
 		auto less = t1.value_comp();
 		btensor::block_list_t::content_t out_list(std::max(
 		    std::reduce(out_btens.sections_by_dim.begin(), out_btens.sections_by_dim.end(), 1ul, std::multiplies()),
@@ -2126,13 +2132,12 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		// loop over all the columns of this, parallel tasks must synchronize at the end of this loop.
 		{
 			// assert(out_list_it != out_list.end());
-			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			auto other_curr_block = t2.cbegin();
+			auto this_col_end = next_column(this_col_start, std::as_const(t1), less); // also the next column start if it's not the end.
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end = next_column(other_curr_block, std::as_const(t2), less);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From 5b51c49bce58d711fd006491f7bedab2712672df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 037/108] fix: btensor::any returned an undefined tensor when
 there are no blocks

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7395b57..4f7960f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3157,7 +3157,7 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, torch::kBool);
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
-- 
2.43.0


From 3ed445129efa2104b1e17e9413f2c51aff14c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 038/108] fix: out of range element indices were not refused

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4f7960f..94af3b2 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3189,12 +3189,17 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
     const index_list &element_index) const
 {
 	auto full_size = sizes();
+	if (element_index.size() != rank)
+		throw std::invalid_argument(
+		    fmt::format("element index {} is incompatible with a tensor of rank {}", element_index, rank));
 	index_list blockind(rank);
 	index_list subelind(rank);
 	auto section_size_it = sections_sizes.begin();
 	for (int dim = 0; dim < rank; ++dim)
 	{
-		assert(element_index[dim] < full_size[dim]);
+		if (element_index[dim] < 0 or element_index[dim] >= full_size[dim])
+			throw std::invalid_argument(
+			    fmt::format("element index {} is out of range for sizes {}", element_index, full_size));
 		auto section_end = section_size_it + sections_by_dim[dim];
 		int64_t ind = element_index[dim];
 		int64_t block_ind = 0;
-- 
2.43.0


From 8cc1b0b1ff20faefd3af4f6308ab947521d72169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 039/108] fix: shape_from(torch_shape,inds) wrote past the end
 when the last dimension is fixed

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 94af3b2..8f42a20 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2374,8 +2374,8 @@ torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds
 	{
 		for (auto &ind : inds)
 		{
-			*it = *shape_it;
-			it += ind == -1;
+			if (ind == -1)
+				*it++ = *shape_it;
 			++shape_it;
 		}
 	}
-- 
2.43.0


From bf3d313f63ff4652952dc7d09ad921303843cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 040/108] fix: from_basic_tensor ignored its options, read out
 of bounds values, and its scalar type differed from its blocks'

---
 sources/btensor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8f42a20..b97d42c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2588,6 +2588,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (values.sizes() != torch::IntArrayRef(out.sizes()))
+		throw std::invalid_argument("input arguments have incompatible sizes!");
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
@@ -2603,7 +2605,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.to(out.options());
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
@@ -2612,14 +2614,14 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));
 	from_basic_impl(shape, values, cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
+	auto out = quantit::sparse_zeros_like(shape, values.options().merge_in(opt));
 	from_basic_impl(out, values, cutoff);
 	return out;
 }
-- 
2.43.0


From c47b7b7f236c21e60a729d5c7ba7fdf766771802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 041/108] fix: btensor::any only looked at the first block

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b97d42c..a1f3cac 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3164,7 +3164,7 @@ torch::Tensor btensor::any() const
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From 79ce78f746b614a65662ef283b01cc6e460aa02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 042/108] fix: out of range dimensions read out of bounds in
 the section accessors

---
 include/blockTensor/btensor.h |  2 +-
 sources/btensor.cpp           | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 11da8ee..4a4e8bb 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -280,7 +280,7 @@ class btensor
 	 * @param dim
 	 * @return size_t
 	 */
-	size_t section_number(size_t dim) const { return sections_by_dim[dim]; }
+	size_t section_number(size_t dim) const { return sections_by_dim.at(dim); }
 	/**
 	 * @brief return the number of section for all the dimensions, in order.
 	 *
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a1f3cac..c2cb799 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -85,6 +85,9 @@ any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) con
 }
 any_quantity_cref btensor::element_conserved_qtt(size_t dim, size_t element) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(
+		    fmt::format("the given index {} is greater than the rank of the tensor {}", dim, rank));
 	auto dim_size = sizes()[dim];
 	if (element >= dim_size)
 		throw std::invalid_argument(fmt::format(
@@ -133,12 +136,18 @@ std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, s
 std::tuple<btensor::index_list::const_iterator, btensor::index_list::const_iterator> btensor::section_sizes(
     size_t dim) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(
+		    fmt::format("the given index {} is greater than the rank of the tensor {}", dim, rank));
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + dim, 0);
 	return std::make_tuple(sections_sizes.begin() + ori, sections_sizes.begin() + ori + sections_by_dim[dim]);
 }
 std::tuple<any_quantity_vector::const_iterator, any_quantity_vector::const_iterator> btensor::section_cqtts(
     size_t dim) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(
+		    fmt::format("the given index {} is greater than the rank of the tensor {}", dim, rank));
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + dim, 0);
 	return std::make_tuple(c_vals.begin() + ori, c_vals.begin() + ori + sections_by_dim[dim]);
 }
@@ -146,6 +155,9 @@ std::tuple<btensor::index_list::const_iterator, btensor::index_list::const_itera
            any_quantity_vector::const_iterator, any_quantity_vector::const_iterator>
 btensor::section_sizes_cqtts(size_t dim) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(
+		    fmt::format("the given index {} is greater than the rank of the tensor {}", dim, rank));
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + dim, 0);
 	return std::make_tuple(sections_sizes.begin() + ori, sections_sizes.begin() + ori + sections_by_dim[dim],
 	                       c_vals.begin() + ori, c_vals.begin() + ori + sections_by_dim[dim]);
-- 
2.43.0


From a5892b38d7382426c9710fdc7b565b70a01e1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 043/108] fix: block indices of wrong length or out of range
 read out of bounds

---
 sources/btensor.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c2cb799..a0d49b9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -503,8 +503,24 @@ std::string btensor::check_tensor(const btensor &T)
 	return M;
 }
 
+/**
+ * @brief refuse the block indices that don't address a block of a tensor with those sections
+ */
+void throw_on_bad_block_index(const btensor::index_list &block_index, const btensor::index_list &sections_by_dim)
+{
+	bool ok = block_index.size() == sections_by_dim.size();
+	for (size_t i = 0; ok and i < block_index.size(); ++i)
+	{
+		ok = block_index[i] >= 0 and block_index[i] < sections_by_dim[i];
+	}
+	if (not ok)
+		throw std::invalid_argument(fmt::format(
+		    "block index {} isn't compatible with the number of sections {}", block_index, sections_by_dim));
+}
+
 btensor::const_block_qtt_view btensor::block_quantities(const index_list &block_index) const
 {
+	throw_on_bad_block_index(block_index, sections_by_dim);
 	return const_block_qtt_view(c_vals.cbegin(), c_vals.cend(), sections_by_dim, std::move(block_index));
 }
 // btensor::block_qtt_view btensor::block_quantities(index_list block_index)
@@ -514,6 +530,7 @@ btensor::const_block_qtt_view btensor::block_quantities(const index_list &block_
 btensor::const_block_size_view btensor::block_sizes(const index_list &block_index) const
 {
 	// auto a = sections_sizes.begin();
+	throw_on_bad_block_index(block_index, sections_by_dim);
 	return const_block_size_view(sections_sizes.begin(), sections_sizes.end(), sections_by_dim, std::move(block_index));
 }
 /**
-- 
2.43.0


From ff1c46f9a64aa63877519d02616b5128f9c95289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 044/108] fix: find_selection_rule read charges out of bounds
 when the sizes don't match the shape

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a0d49b9..432f730 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2708,6 +2708,8 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (tens.sizes() != torch::IntArrayRef(shape.sizes()))
+		throw std::invalid_argument("the input tensor and the shape specifying btensor must have the same sizes");
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From 3629936c5807ff9b899a8ba630321aba8bb18131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 045/108] fix: set_selection_rule_ accepted a quantity of
 another group than the sections'

---
 sources/btensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 432f730..8a5a576 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2306,7 +2306,8 @@ btensor &btensor::set_selection_rule_(any_quantity_cref value)
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	selection_rule.value = value;
+	if (selection_rule.value != value) // throws when the groups differ: they must be those of the section's charges.
+		selection_rule.value = value;
 	return *this;
 }
 
-- 
2.43.0


From e22f23702054871c67e514035ef58426b9216782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 046/108] fix: reverse() appended as many zeros as there are
 dimensions

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..d93ff7b 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From 57a08f52d2a18b3f489294647e4b555909a564c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 047/108] fix: slice of an IntArrayRef was declared but not
 defined

---
 sources/dimension_manip.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index d93ff7b..89cab98 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -57,5 +57,9 @@ torch::IntArrayRef slice(const std::vector<int64_t>& in, size_t start, size_t n)
 {
 	return torch::IntArrayRef(in).slice(start,n);
 }
+torch::IntArrayRef slice(torch::IntArrayRef in, size_t start, size_t n)
+{
+	return in.slice(start,n);
+}
 
 }//QuantiT
\ No newline at end of file
-- 
2.43.0


From 8c46a509f3a65a1b5ed35d9c4d575d2d80cc1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 048/108] fix: tensorgdot lost its result when the output
 tensor isn't contiguous

---
 sources/tensorgdot.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..fda6aa6 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -99,6 +99,16 @@ compute_shape(const torch::Tensor& add, torch::Tensor& t1, torch::Tensor& t2, co
 	return make_tuple(p1, p2, rsizes, size1, csize, size2);
 }
 
+/**
+ * @brief reshape makes a copy when the strides of the tensor don't allow a view, in that case the result has yet to be
+ * written to the output.
+ */
+static void copy_back(torch::Tensor& output, const torch::Tensor& rout)
+{
+	if (!rout.is_alias_of(output))
+		output.copy_(rout.reshape(output.sizes()));
+}
+
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_tens, const torch::Tensor& input1, const torch::Tensor& input2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta, torch::Scalar alpha)
@@ -113,6 +123,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
@@ -147,6 +158,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
@@ -189,6 +201,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
-- 
2.43.0


From 2e6b7b508d651724c3f5576045c6aeaf470248ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 049/108] fix: the documentation of tensorgdot exchanged alpha
 and beta

---
 include/tensorgdot.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tensorgdot.h b/include/tensorgdot.h
index 929139d..34ab18c 100644
--- a/include/tensorgdot.h
+++ b/include/tensorgdot.h
@@ -19,7 +19,7 @@
 namespace quantit
 {
 /**
- * @brief generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param add The input tensor C
@@ -27,15 +27,15 @@ namespace quantit
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor The output tensor D
  */
 torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                          torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                          torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * 
@@ -44,8 +44,8 @@ torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, co
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& refrence to the output tensor
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, const torch::Tensor& mul2,
@@ -53,7 +53,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
                            torch::Scalar beta = 1, torch::Scalar alpha = 1);
 
 /**
- * generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output the output tensor D
@@ -62,15 +62,15 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& Reference to the output tensor D
  */
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output output tensor C, result of the contraction is added to it.
-- 
2.43.0


From af25fe3fc00df17791c82ce478257708925182c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 050/108] fix: truncation of every value with a minimum size of
 0 read out of range

---
 sources/LinearAlgebra.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..bffe11f 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -64,11 +64,13 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t last_index = Last_dim_size-1;
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
 		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
 			break;
 		--last_index;
+		if (last_index < 0) // everything is rejected, only possible when min_size is 0
+			break;
 		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
-- 
2.43.0


From db5328ff9f1a177cf100dec25a721dac9aca1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 051/108] fix: compute_first_index_ascending ignored the size
 limits and the power of the tolerance

---
 sources/LinearAlgebra.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index bffe11f..6a7205f 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -30,15 +30,16 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
 	// auto last_index = Last_dim_size-1;
+	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow(pow);
+	while (first_index < Last_dim_size and static_cast<size_t>(Last_dim_size - first_index) > min_size)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		if (  (trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(Last_dim_size - first_index) <= max_size)
 			break;
 		++first_index;
+		if (first_index == Last_dim_size) // everything is rejected, only possible when min_size is 0
+			break;
 		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
 	}
 	return first_index;
-- 
2.43.0


From a9913b68260234e0bab4d5de40c223c466e9b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 052/108] fix: the truncate overloads for tuples were declared
 with another signature than their definition

---
 include/LinearAlgebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
-- 
2.43.0


From cfe5e62f19a645992208197624bb26588c173dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 053/108] fix: the truncated eigh selected values from the
 eigenvectors and kept the wrong end of the spectrum

---
 sources/LinearAlgebra.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6a7205f..1d95077 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -89,8 +89,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -98,7 +98,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -159,7 +159,12 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [e,u] = quantit::eigh(A,split);
+	// truncate wants decreasing magnitudes, eigh sorts the (signed) eigenvalues in increasing order.
+	auto by_magnitude = e.abs().argsort(-1,true);
+	auto n_kept = compute_last_index(e.index_select(-1,by_magnitude),tol,pow,min_size,max_size)+1;
+	auto kept = std::get<0>(by_magnitude.slice(-1,0,n_kept).sort()); // keep the order of the eigenvalues.
+	return std::make_tuple(e.index_select(-1,kept),u.index_select(-1,kept));
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From 4cbad7a214f5a613d20eb67d668f713548341b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 054/108] fix: the lowering operator was raising Sz

---
 sources/operators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/operators.cpp b/sources/operators.cpp
index b4feaeb..203d361 100644
--- a/sources/operators.cpp
+++ b/sources/operators.cpp
@@ -82,7 +82,7 @@ std::tuple<tens,tens,tens,tens,tens> pauli()
 	}
 	{
 		auto Acc = lo.accessor<int8_t,2>();
-		Acc[0][1] = 1;
+		Acc[1][0] = 1; // from Sz = 1, the first state, to Sz = -1
 	}
 	return std::make_tuple(Sx,iSy,Sz,lo,id);
 }
-- 
2.43.0


From 57d6693d7338c805a3a4cc74e35df1f9614b4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 055/108] fix: the bond charges of the Heisenberg bMPO didn't
 match its operators

---
 sources/models.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..f6f95a0 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -93,7 +93,7 @@ bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
 	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	auto left_bond = btensor({{{1,neutral},{1,p(0)*p(1).inverse()},{1,p(1)*p(0).inverse()},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 37bf7e4bcfd92c7eb0a96a5855e936364e417745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 056/108] fix: the Hubbard bMPO required the empty state to
 have a neutral charge

---
 sources/models.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index f6f95a0..2fe637c 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -165,7 +165,10 @@ bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phy
 {
 	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	auto neutral = p(0).neutral();
+	auto up = p(1)*p(0).inverse();
+	auto dn = p(2)*p(0).inverse();
+	auto left_bond = btensor({{{1,neutral},{1,up},{1,dn},{1,up.inverse()},{1,dn.inverse()},{1,neutral}}},neutral,Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 0c631802a9215b489a09e87aaed4e07449338db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 057/108] fix: to_bMPO discarded or refused the blocks of small
 couplings

---
 sources/models.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 2fe637c..1bc79f7 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,7 +71,7 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),0);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
@@ -81,10 +81,10 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
+		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],0);
 		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
 	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
+	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),0);
 	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
-- 
2.43.0


From 4f14d03d3085b2be0f6d439abe391a12ba3459b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 058/108] fix: the bMPO of a single site chain couldn't be
 built

---
 sources/models.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 1bc79f7..8084303 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,13 +71,18 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),0);
+	auto left_shape = local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true);
+	if (length == 1) // a single site is both edges
+		left_shape = left_shape.basic_create_view({-1,-1,0,-1},true);
+	out.front() = from_basic_tensor_like(left_shape,tmp_hamil.front(),0);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
 		fmt::print("out: {}\n\n", out.front());
 		throw std::invalid_argument(fmt::format(message,0));
 	}
+	if (length == 1)
+		return out;
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-- 
2.43.0


From 8d116b09c47b474e5c3ebfea5c1d8f1cce3b5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 059/108] fix: building the hamiltonian of an empty chain wrote
 out of bounds

---
 sources/models.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8084303..30f3d88 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,6 +40,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
+	if (lenght == 0)
+		throw std::invalid_argument("the chain must have at least one site");
 	auto type = torch::get_default_dtype();
 	if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
@@ -127,6 +129,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("the chain must have at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-- 
2.43.0


From a15ac68a928426059dec4870c24a36d2b167157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 060/108] fix: tensorgdot_ read out of bounds when asked to
 contract more dimensions than there are

---
 sources/tensorgdot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index fda6aa6..9d9bdcd 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -167,6 +167,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
                            torch::Scalar beta, torch::Scalar alpha)
 { //tensor dot without permutation. dims are counted from the last dim of the first tensor, and from the first dim of the second tensor
 	using namespace torch;
+	TORCH_CHECK(dims >= 0 and dims <= input1.dim() and dims <= input2.dim(),
+	            fmt::format("cannot contract {} dimensions of tensors of rank {} and {}", dims, input1.dim(), input2.dim()));
 	Tensor t1 = input1;
 	Tensor t2 = input2;
 	auto sizes1 = t1.sizes();
-- 
2.43.0


From 90f65e6ea716a221b453cccbc3e71bea30f52c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 061/108] fix: documented order of the block Pauli operators

---
 include/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operators.h b/include/operators.h
index 5119e9a..0cab732 100644
--- a/include/operators.h
+++ b/include/operators.h
@@ -57,7 +57,7 @@ std::tuple<tens, tens, tens, tens, tens> pauli();
  * Sx and Sy cannot be returned because they do not have a well defined quantum number. To make use of conservation rule
  * with Heisenberg, Ising and other spin models, it must be done in terms of the lower/raising operator and Sz.
  * @param shape A btensor specifying the conserved quantities of the bra an ket sides of the operators.
- * @return std::tuple<btensor,btensor,btensor> lowering operator, Sz, identity
+ * @return std::tuple<btensor,btensor,btensor> Sz, lowering operator, identity
  */
 std::tuple<btensor, btensor, btensor> pauli(const btensor &shape);
 
-- 
2.43.0


From 52686cbf248890ae0cbf64df53bc0f9ef4637678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 062/108] fix: block decompositions lost the scalar type of
 their input

The dense matrix of a sector was allocated with the default type, so that
complex values lost their imaginary part and doubles their precision.
---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..27b0354 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From 3f80820ed41edb34d7dbce7907da8bf2b1f9474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 063/108] fix: decomposition of a block tensor without blocks
 advanced past the end

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 27b0354..e0013de 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -232,7 +232,7 @@ compact_dense(const btensor &tensor)
 	out_type out_tensors(compact_tensor_count(block_list, rank_greater_than_2, rank, equal_index, equal_c_vals));
 	// create the list of <tensorIndex, bloc_position> pairs for all the sections involved.
 	auto it1 = block_list.begin();
-	auto it2 = block_list.begin() + 1;
+	auto it2 = block_list.begin() + (it1 != block_list.end());
 	auto out_it = out_tensors.begin();
 	auto block_list_l = std::distance(it1, block_list.end());
 	auto out_l = std::distance(out_it, out_tensors.end());
-- 
2.43.0


From 3a66a1108345f02954fd261ee6c3d72cb3003b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 064/108] fix: order of the columns in the dense matrix of a
 sector

The columns got their slices in the order they are met while the rows are
ordered: a Hermitian block tensor whose first diagonal block isn't stored
was turned in a non-Hermitian matrix.
---
 sources/btensor_linalg.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index e0013de..d6f90e5 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,6 +131,14 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// the columns are met in an arbitrary order, give them slices in increasing order like those of the rows.
+	col_acc = 0;
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		const auto size = slice.stop() - slice.start();
+		slice = torch::indexing::Slice(col_acc, col_acc + size);
+		col_acc += size;
+	}
 	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
-- 
2.43.0


From 35020276f7bf8ecfb3f09ea6d61d3ab4b1b0984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 065/108] fix: block eigh

The eigenvectors of a tensor that isn't neutral or whose columns don't have
the same charges had a selection rule that forbids their blocks, and the rows
and columns that are empty were not removed consistently.
---
 sources/btensor_linalg.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index d6f90e5..f5ec23f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -299,8 +299,36 @@ using namespace LA_helpers;
 
 std::string qformat(any_quantity_cref qt) { return fmt::format("{}", qt); }
 
-std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
+/**
+ * @brief copy of the tensor where all the diagonal blocks needed by its stored blocks are present.
+ *
+ * The rows and columns of zeros are part of an eigenvalue problem as soon as the transposed column or row isn't empty.
+ */
+static btensor with_diagonal_blocks(const btensor &tensor)
+{
+	btensor out = tensor;
+	for (const auto &[index, block] : tensor)
+	{
+		const auto rank = index.size();
+		for (auto i : {index[rank - 2], index[rank - 1]})
+		{
+			auto diag_index = index;
+			diag_index[rank - 2] = diag_index[rank - 1] = i;
+			if (not out.blocks().contains(diag_index))
+			{
+				auto sizes = block.sizes().vec();
+				sizes[rank - 2] = tensor.section_size(rank - 2, i);
+				sizes[rank - 1] = tensor.section_size(rank - 1, i);
+				out.block(diag_index) = torch::zeros(sizes, block.options());
+			}
+		}
+	}
+	return out;
+}
+
+std::tuple<btensor, btensor> eigh(const btensor &input, BOOL upper)
 {
+	const btensor tensor = with_diagonal_blocks(input);
 	// extract independant btensors
 	std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
 	                       std::vector<std::tuple<int, torch::indexing::Slice>>>>
@@ -333,9 +361,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From 06bd28cb3cb47d6f7ae8950f4dbd97abe75329f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 066/108] fix: the singular values and eigenvalues of complex
 block tensors are real

---
 sources/btensor_linalg.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index f5ec23f..541583f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -297,6 +297,12 @@ void reverse_compact_dense(torch::Tensor &tensor, btensor &out, btensor::index_l
 } // namespace LA_helpers
 using namespace LA_helpers;
 
+/// empty tensor with the given shape for singular values or eigenvalues, real whatever the scalar type of the shape.
+static btensor real_shape(btensor shape)
+{
+	return sparse_zeros_like(shape, torch::dtype(c10::toValueType(torch::typeMetaToScalarType(shape.options().dtype()))));
+}
+
 std::string qformat(any_quantity_cref qt) { return fmt::format("{}", qt); }
 
 /**
@@ -357,7 +363,7 @@ std::tuple<btensor, btensor> eigh(const btensor &input, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = real_shape(shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_());
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -469,7 +475,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = real_shape(shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_());
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From b486653885dabc860a0138d525c80d2c922560dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 067/108] fix: truncate of a block eigendecomposition ignored
 the eigenvectors

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 541583f..65e2faf 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -827,7 +827,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 5d93e2fc5a5dd02ba983da9d81014b5078cb0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 068/108] fix: truncation removed the wrong blocks of the
 unitaries

With several consecutive blocks to remove, some of them stayed and the order
of the others was lost.
---
 sources/btensor_linalg.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 65e2faf..41f20f1 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -728,23 +728,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
-		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
-		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
+		auto kept_end = std::remove_if(unitary.begin(), unitary.end(), [&d_ind](const auto &block)
+		                               { return std::get<0>(block).back() == d_ind.back(); });
+		unitary.blocks_list.resize(std::distance(unitary.begin(), kept_end));
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From b384755a47e31e91d686225132868599c41d5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 069/108] fix: truncation of block eigendecompositions

The eigenvalues are signed and in increasing order in each sector, the kept
ones are those with the largest magnitudes. Also handles the truncation of
nothing, and of everything when no minimum is imposed.
---
 sources/btensor_linalg.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 41f20f1..740cab2 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -710,16 +710,20 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	{
 		auto &tens = std::get<1>(block);
 		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
+		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens.abs().to(vd.options()));
 		n += l;
 	}
 	// quantit::print(vd);
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
+	if (L == 0) // nothing to truncate
+		return std::make_tuple(std::move(d), std::move(unitaries));
+	const auto last = compute_last_index(vd, tol, pow, min, max);
+	// negative when everything is rejected, only possible when min is 0
+	double smallest_value = last < 0 ? std::numeric_limits<double>::infinity() : vd[last].item().toDouble();
+	smallest_value -= 2 * smallest_value *
+	                  epsilon(d.options().dtype()).toDouble(); // Better chance to preserve degenerate multiplets that way.
 	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
 	// for each block trio, we can remove all the values smaller than the one in smallest_value
 	// without inducing an error larger than the tol.
@@ -732,9 +736,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		                               { return std::get<0>(block).back() == d_ind.back(); });
 		unitary.blocks_list.resize(std::distance(unitary.begin(), kept_end));
 	};
-	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
+	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const torch::Tensor &kept)
 	{
-		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = last_index;
+		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = kept.numel();
 		using namespace torch::indexing;
 		auto U_it = U.begin();
 		while (U_it != U.end())
@@ -742,7 +746,7 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 			auto &U_ind = std::get<0>(*U_it);
 			auto &Ub = std::get<1>(*U_it);
 			if (U_ind.back() == d_ind.back())
-				Ub = Ub.index({Ellipsis, Slice(0, last_index)});
+				Ub = Ub.index_select(-1, kept);
 			++U_it;
 		}
 	};
@@ -754,8 +758,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		using namespace torch::indexing;
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
-		if (last_index == 0)
+		auto kept = (db.abs() > smallest_value).nonzero().flatten();
+		if (kept.numel() == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
 			// changing the shape of the blocktensor. This mean the resulting tensor will have extra structure, with no
@@ -769,12 +773,12 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		}
 		else
 		{ // truncate d
-			db = db.index({Slice(0, last_index)});
+			db = db.index_select(-1, kept);
 			// adjust the section sizes
-			d.sections_sizes[d_ind.back()] = last_index;
+			d.sections_sizes[d_ind.back()] = kept.numel();
 			// truncate all the blocks in U on the section matching with the current d block.
-			for_each(unitaries, [&d_ind, &last_index, &trunc_unit_block](btensor &U)
-			         { return trunc_unit_block(U, d_ind, last_index); });
+			for_each(unitaries, [&d_ind, &kept, &trunc_unit_block](btensor &U)
+			         { return trunc_unit_block(U, d_ind, kept); });
 		}
 	}
 	return std::make_tuple(std::move(d), std::move(unitaries));
-- 
2.43.0


From 30aad86165c8c9ffa93c5a5517cc9db61cb4ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 070/108] fix: tensor network eigh of block tensors called
 itself forever

The bool argument selects the overload with a split position.
---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 740cab2..29c8b24 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -411,7 +411,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true));
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From 8218ddf4edecca92f3c0d7b767598f2e79cba3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 071/108] fix: shape_from with a preserved dimension that has
 no sections

The block svd of a tensor without blocks couldn't build its factors.
---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8a5a576..98bdf9f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -593,9 +593,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice) // a preserved dimension can have no section at all.
+			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
-- 
2.43.0


From a2e43bf46d3e705e4d5ba60c8a075b2a20170746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 072/108] fix: reshape_as of tensors with a dimension that has
 no sections

The check of the compatibility looked at a block that can't exist.
---
 sources/btensor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 98bdf9f..269ff6e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3021,10 +3021,18 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 	auto rhs = std::reduce(rhs_sections_by_dim.begin(), rhs_sections_by_dim.end(), 1, std::multiplies());
 	return lhs == rhs;
 }
+// a tensor with a dimension that has no sections can't have any block
+bool no_possible_block(const btensor &tens)
+{
+	const auto sections = tens.section_numbers();
+	return std::find(sections.begin(), sections.end(), 0) != sections.end();
+}
 // each of those possible block have the same associated flux. (product of all the conserved quantity associated
 // with the block)
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs) or no_possible_block(rhs))
+		return no_possible_block(lhs) and no_possible_block(rhs);
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
@@ -3047,6 +3055,8 @@ bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 // each of the possible block have the same total number of elements.
 bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs) or no_possible_block(rhs))
+		return no_possible_block(lhs) and no_possible_block(rhs);
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
-- 
2.43.0


From 25f63cbc530dd0e580a030eea26aa03904dc8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 073/108] fix: bmm over a dimension without sections read a
 charge that doesn't exist

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 269ff6e..33eff00 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1278,7 +1278,7 @@ struct mul_helpers
 			auto [a_start, a_end] = a.section_conserved_qtt_range(a.rank - 1);
 			auto [b_start, b_end] = b.section_conserved_qtt_range(a.rank - 2);
 
-			auto neutral = a_start->neutral();
+			auto neutral = a.selection_rule->neutral();
 			for (size_t i = 0; a_start != a_end; ++a_start, ++b_start, ++i)
 			{
 				if ((*a_start) * (*b_start) != neutral)
-- 
2.43.0


From 8d3e86d726ad012d4a2a58d130721aadd43333f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 074/108] fix: checks of the ranks of empty networks and of
 tensors with too few dimensions

They read sizes that don't exist.
---
 sources/MPT.cpp | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..797402f 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,16 +119,12 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_3 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 3 and bond == el.sizes()[0];
-	                              });
-	return all_rank_3;
+	for (auto prev = begin(), it = begin(); it != end(); prev = it++)
+	{
+		if (it->dim() != 3 or (it != prev and prev->size(2) != it->size(0)))
+			return false;
+	}
+	return true;
 }
 
 bool MPO::check_one(const Tens &tens)
@@ -169,20 +165,17 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_4 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 4 and bond == el.sizes()[0];
-	                              });
-	// assert(all_rank_4);// a MPS must have only rank 3 tensors
-	return all_rank_4;
+	for (auto prev = begin(), it = begin(); it != end(); prev = it++)
+	{
+		if (it->dim() != 4 or (it != prev and prev->size(2) != it->size(0)))
+			return false;
+	}
+	return true;
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +189,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From 74cf5641f5bd2e4a6df03f5b3c41f6540ce043c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 075/108] fix: networks built from a range of tensors were not
 validated

---
 include/MPT.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..503d141 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -365,7 +365,13 @@ class MPS final
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPS() = default;
 
@@ -464,7 +470,13 @@ class MPO final : public vector_lift<MPO> // specialization for rank 4 tensors
 			throw std::invalid_argument("Input MPT is an invalid MPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end) {}
+	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPO() = default;
 
@@ -579,7 +591,13 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPS() = default;
 
@@ -678,7 +696,13 @@ class bMPO final : public vector_lift<bMPO, btensor> // specialization for rank
 			throw std::invalid_argument("Input bMPT is an invalid bMPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPO() = default;
 
-- 
2.43.0


From 9be976dd3d2beba45dce0070159e62f1c1646a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 076/108] fix: states with an orthogonality center outside of
 the chain

---
 include/MPT.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index 503d141..f042aa8 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -315,7 +315,11 @@ class MPS final
 	static bool check_one(const Tens &tens);
 	MPS() : vector_lift<MPS>(), orthogonality_center(0) {}
 	MPS(size_type size) : vector_lift<MPS>(size), orthogonality_center(0) {}
-	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc) {}
+	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc)
+	{
+		if (oc >= size and oc != 0)
+			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
+	}
 	MPS(const MPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	MPS(std::vector<Tens> initl, size_t oc = 0) : vector_lift<MPS>(std::move(initl)), orthogonality_center(oc)
@@ -540,7 +544,11 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 	static bool check_one(const Tens &tens);
 	bMPS() : vector_lift<bMPS, btensor>(), orthogonality_center(0) {}
 	bMPS(size_type size) : vector_lift<bMPS, btensor>(size), orthogonality_center(0) {}
-	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(std::min(oc, size - 1)) {}
+	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(oc)
+	{
+		if (oc >= size and oc != 0)
+			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
+	}
 	bMPS(const bMPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	bMPS(bMPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	bMPS(std::vector<Tens> initl, size_t oc = 0)
-- 
2.43.0


From e9f9b408cf2f93d3fb278930c886f598fdd60e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 077/108] fix: networks of tensors with different types of
 conserved quantities terminated the program instead of being refused

---
 sources/btensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 33eff00..793feb4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -860,6 +860,14 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 {
 	bool ok_CR = dims1.size() == dims2.size();
 	// fmt::print("{}\n\n {}\n\n",in1,in2);
+	if (!in1.selection_rule->get().same_type(in2.selection_rule->get()))
+	{ // the conserved quantities of different groups can't be combined.
+		if constexpr (Throws)
+		{
+			TORCH_CHECK(false, "the two tensors have different type of conserved quantities");
+		}
+		return false;
+	}
 	for (size_t i = 0; i < dims1.size() and ok_CR; ++i)
 	{
 		int s1 = in1.section_number(dims1[i]);
-- 
2.43.0


From 3459dc355756bb3e8aaf0bdd80a0a2ac5afdf2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 078/108] fix: reshape of tensors with a dimension that has no
 sections read out of range

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 793feb4..8920d77 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2892,6 +2892,8 @@ T reshape_block_prop(torch::IntArrayRef index_groups, const T &block_values, con
 		auto j = btensor::index_list(rank, 0);
 		// fmt::print("index bundle [{}, {}[\n", *index_start, *(index_start+1));
 		auto size_j = torch::ArrayRef(in_sections_by_dims.data() + *index_start, rank);
+		if (std::find(size_j.begin(), size_j.end(), 0) != size_j.end())
+			continue; // a group with a dimension that has no sections has no sections either.
 		// fmt::print("sizes {}\n", size_j);
 		do
 		{
-- 
2.43.0


From ad33249f4b4db399aea3ea2dd590d5807ecee249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 079/108] fix: overlaps of block states whose edge tensors
 begin with different sections or charges were zero

---
 sources/MPT.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 797402f..155d2aa 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -214,14 +214,20 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edg
 	}
 	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});
 }
+// identity between the dimension of a and the dimension of b which the view preserves. Conserves the quantities whatever
+// the charges of the other dimensions of a and b are.
+static btensor identity_edge(const btensor &a, const btensor &b, std::initializer_list<int64_t> view)
+{
+	auto shape = shape_from(shape_from(a, view).inverse_cvals_(), shape_from(b, view));
+	shape.neutral_selection_rule_();
+	return eye_like(shape);
+}
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
-	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	auto left_edge = identity_edge(a.front(), b.front(), {-1, 0, 0});
+	auto right_edge = identity_edge(a.back(), b.back(), {0, 0, -1});
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -279,10 +285,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
-	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	auto left_edge = identity_edge(a.front(), b.front(), {-1, 0, 0});
+	auto right_edge = identity_edge(a.back(), b.back(), {0, 0, -1});
 	return contract(a, b, left_edge, right_edge);
 }
 
-- 
2.43.0


From 6324d76526c13914f8dff22a469b44117b5de7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 080/108] fix: decompositions of block tensors with a dimension
 that has no elements were refused

---
 sources/btensor_linalg.cpp | 71 ++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 29c8b24..70a0962 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -332,6 +332,24 @@ static btensor with_diagonal_blocks(const btensor &tensor)
 	return out;
 }
 
+// shape of the dimensions [first, last[ of the tensor, for the neutral selection rule. Unlike a view with the other
+// dimensions fixed, there need not be any element along the dimensions left out.
+static btensor dims_shape(const btensor &tensor, size_t first, size_t last)
+{
+	btensor::index_list sections, sizes;
+	any_quantity_vector c_vals(0, tensor.selection_rule->neutral());
+	for (auto dim = first; dim < last; ++dim)
+	{
+		sections.push_back(tensor.section_number(dim));
+		const auto [size, size_end] = tensor.section_sizes(dim);
+		sizes.insert(sizes.end(), size, size_end);
+		for (int64_t i = 0; i < sections.back(); ++i)
+			c_vals.push_back(any_quantity(tensor.section_conserved_qtt(dim, i)));
+	}
+	return btensor(std::move(sections), std::move(c_vals), std::move(sizes), tensor.selection_rule->neutral(),
+	               tensor.options());
+}
+
 std::tuple<btensor, btensor> eigh(const btensor &input, BOOL upper)
 {
 	const btensor tensor = with_diagonal_blocks(input);
@@ -359,15 +377,12 @@ std::tuple<btensor, btensor> eigh(const btensor &input, BOOL upper)
 		++D_lcval_it;
 		++D_bsize_it;
 	}
-	std::vector<int64_t> d_shape(tensor.dim(), -1);
-	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = real_shape(shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_());
+	auto d = real_shape(shape_from(dims_shape(tensor, 0, tensor.dim() - 2), rightD_shape).neutral_shape_());
 	// fmt::print("d \n {}\n",d);
-	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
-	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U =
+	    shape_from(dims_shape(tensor, 0, tensor.dim() - 1), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
@@ -413,17 +428,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// call batched SVD
 	auto [d, rU] = eigh(rtensor, BOOL(true));
 	// undo reshape
-	std::vector<int64_t> U_shape(tensor.dim(), -1);
-	{
-		for (size_t i = split; i < tensor.dim(); ++i)
-		{
-			U_shape[i] = 0;
-		}
-	}
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
+	auto U = rU.reshape_as(shape_from(dims_shape(tensor, 0, split), dims_shape(rU, 1, 2)));
 	// return tuple
 	return std::make_tuple(d, U);
 }
@@ -466,8 +474,6 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		++D_lcval_it;
 		++D_bsize_it;
 	}
-	std::vector<int64_t> d_shape(tensor.dim(), -1);
-	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
@@ -475,21 +481,17 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = real_shape(shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_());
+	auto d = real_shape(shape_from(dims_shape(tensor, 0, tensor.dim() - 2), rightD_shape).neutral_shape_());
 	// fmt::print("d \n {}\n",d);
-	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
-	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U =
+	    shape_from(dims_shape(tensor, 0, tensor.dim() - 1), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
-	std::vector<int64_t> to_V_others(tensor.dim(), -1);
-	*(to_V_others.end() - 2) = to_V_others.back() = 0;
-	std::vector<int64_t> to_V_left(tensor.dim(), 0);
-	to_V_left.back() = -1;
 	// the broadcast part (first shape) is an element by element mulitplication, the conserved quantity are multiplied
 	// as well in sucha a situation Any decomposition of the conserved quantities of the input tensor on those would do,
 	// we choose the simplest, the input on U
 	//  and all neutral element on d and V.
-	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);
+	btensor V = shape_from(dims_shape(tensor, 0, tensor.dim() - 2).neutral_shape_(),
+	                       dims_shape(tensor, tensor.dim() - 1, tensor.dim()), leftD_shape);
 	V.set_selection_rule_(V.selection_rule->neutral());
 	// fmt::print("V: \n {}\n",V);
 	// preallocate the blocks, with index, so that the SVD calls can be parallelized.
@@ -547,25 +549,12 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, size_t split)
 	// call batched SVD
 	auto [rU, d, rV] = svd(rtensor);
 	// undo reshape
-	std::vector<int64_t> U_shape(tensor.dim(), -1);
-	std::vector<int64_t> V_shape(tensor.dim(), -1);
-	{
-		size_t i = 0;
-		for (; i < split; ++i)
-		{
-			V_shape[i] = 0;
-		}
-		for (; i < tensor.dim(); ++i)
-		{
-			U_shape[i] = 0;
-		}
-	}
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
-	auto V_left_part = tensor.shape_from(V_shape).inverse_cvals();
-	auto V_right_part = rV.shape_from({0, -1});
+	auto U = rU.reshape_as(shape_from(dims_shape(tensor, 0, split), dims_shape(rU, 1, 2)));
+	auto V_left_part = dims_shape(tensor, split, tensor.dim()).inverse_cvals();
+	auto V_right_part = dims_shape(rV, 1, 2);
 	// fmt::print("V_left_part \n{}\n\n", V_left_part);
 	// fmt::print("V_right_part \n{}\n\n", V_right_part);
 	auto V = rV.reshape_as(shape_from(V_left_part, V_right_part));
-- 
2.43.0


From 281d6263d1317d43797679d74dab184ef7ac6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 081/108] fix: random states without sites or with a zero bond
 dimension read out of bounds instead of being refused

---
 sources/MPT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 155d2aa..1302993 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -371,6 +371,8 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
 {
+	if (length == 0 or bond_dim == 0)
+		throw std::invalid_argument("a random MPS needs at least one site and a non-zero bond dimension");
 	MPS out(length);
 	for (auto i = 0u; i < length; ++i)
 	{
@@ -423,6 +425,8 @@ template <class T>
 bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantity_cref constraint, size_t string_N_pass,
                       torch::TensorOptions opt, std::random_device::result_type seed)
 {
+	if (length == 0 or bond_dim == 0)
+		throw std::invalid_argument("a random MPS needs at least one site and a non-zero bond dimension");
 	std::mt19937 gen(seed); // Standard mersenne_twister_engine seeded with rd()
 	std::vector<size_t> phys_inds(bond_dim * length);
 	static_assert(std::is_same_v<decltype(phys_dim(0)), btensor>,
@@ -515,10 +519,10 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
 		    X.begin(), X.end(),
 		    [](auto &X, auto &Y)
 		    { return std::lexicographical_compare(std::get<0>(X), std::get<1>(X), std::get<0>(Y), std::get<1>(Y)); });
-		auto last = X.cend() - 1;
-		size_t count = 1;
 		if (X.cbegin() == X.cend())
 			throw std::invalid_argument("The supplied MPO is empty!");
+		auto last = X.cend() - 1;
+		size_t count = 1;
 		for (auto it = X.cbegin(); it != last; ++it)
 		{
 			auto range_A = *it;
-- 
2.43.0


From 562130ee1e813820dd457b30b7b037475ac349eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 082/108] fix: coalesce of an empty network read past its end

---
 sources/MPT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 1302993..cf14d8e 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -149,6 +149,8 @@ bool bMPO::check_one(const Tens &tens)
 
 bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 {
+	if (empty())
+		return *this;
 	auto it = begin();
 	auto next_it = it + 1;
 	for (; next_it != end(); ++it, ++next_it)
-- 
2.43.0


From 18a5d4a07fb573a937193a6ba8de58814d85d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 083/108] fix: random states with a physical dimension without
 sections read out of bounds

---
 sources/MPT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index cf14d8e..86f7cb5 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -324,6 +324,8 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 	{ // generate a random starting point. does not satisfy the constraint.
 		int x = phys_dim(i).size();
 		const auto &a = phys_dim(i);
+		if (x == 0)
+			throw std::invalid_argument("a physical dimension without sections can't satisfy the sum rule");
 
 		distrib.param(param_type(0, x - 1));
 		auto r = distrib(random_gen);
-- 
2.43.0


From 4340e358825cd053caa17a9567ac4a42b5dd5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 084/108] fix: decompositions of block tensors claimed the
 default scalar type when it differs from their blocks'

---
 sources/btensor_linalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 70a0962..a0a5f13 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -377,8 +377,10 @@ std::tuple<btensor, btensor> eigh(const btensor &input, BOOL upper)
 		++D_lcval_it;
 		++D_bsize_it;
 	}
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	auto d = real_shape(shape_from(dims_shape(tensor, 0, tensor.dim() - 2), rightD_shape).neutral_shape_());
 	// fmt::print("d \n {}\n",d);
 	btensor U =
@@ -474,8 +476,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		++D_lcval_it;
 		++D_bsize_it;
 	}
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
-- 
2.43.0


From 93135d1811f4dbbaf70f71696ed68983499b63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 085/108] fix: bmm claimed the default scalar type when it is
 wider than its operands'

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8920d77..1beb68f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1427,7 +1427,7 @@ btensor btensor::bmm(const btensor &mat) const
 	mat_inds.back() = -1;
 	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] = mul_helpers::shape_compute(
 	    false, rank - 2, rank - 2, this->shape_from(batch_shape_inds), mat.shape_from(batch_shape_inds));
-	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral());
+	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral(), options());
 	auto out = quantit::shape_from(
 	    batch_shape, this->shape_from(this_inds),
 	    mat.shape_from(mat_inds)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
-- 
2.43.0


From 85561a617afdec16470f8a67c5a45d5e7d132c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 086/108] fix: DMRG mixed an eigenstate with a meaningless
 vector (energies below the ground energy, NaN states)

---
 sources/dmrg.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..bd17539 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -594,13 +594,24 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	// fmt::print("a0 {}\n",a0);
 	psi_ip -= state * a0;
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
-	const bool non_singular = [&]()
+	const auto larger = [](const Tensor &x, double threshold)
 	{
-		btensor::Scalar X = ge(b.abs(), 1e-15).item();
+		btensor::Scalar X = ge(x.abs(), threshold).item();
 		return X.to<bool>();
-	}();
+	};
+	bool non_singular = larger(b, 1e-15);
 	if (non_singular)
+	{
 		psi_ip /= b;
+		// when b is of the order of the rounding errors, psi_ip isn't orthogonal to the state yet.
+		psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
+		auto norm = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
+		non_singular = larger(norm, 0.5);
+		if (non_singular)
+			psi_ip /= norm;
+	}
+	if (not non_singular) // the state is an eigenstate, and psi_ip is meaningless.
+		b = zeros_like(b);
 	// fmt::print("\t\tnon singular {}\n",non_singular);
 	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
 	                     {0, 1, 2, 3}, {0, 1, 2, 3}));
@@ -630,6 +641,9 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
 	// {}\n\n",psi_ip.item().toDouble(),a0.item().toDouble(),a1.item().toDouble(),b.item().toDouble());
 	// print("\ta0 {} a1 {} b {}\n", a0.item().toDouble(), a1.item().toDouble(), b.item().toDouble());
+	const bool eigenstate = not (b.abs() > 0).item().toBool();
+	if (eigenstate)
+		return std::make_tuple(a0, state);
 	auto [E, o_coeff, n_coeff] = eig2x2Mat(a0, a1, b);
 	// print("\tE: {} O: {} N: {}\n", E.item().toDouble(), o_coeff.item().toDouble(), n_coeff.item().toDouble());
 	auto psi_update = o_coeff * state + n_coeff * psi_ip;
-- 
2.43.0


From d090aca7bdfee84b2852e46794816cc20563f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 087/108] fix: DMRG of complex states failed when a scalar had
 a rounding error in its imaginary part

---
 sources/dmrg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index bd17539..7e0f6d5 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -278,7 +278,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
 	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
@@ -554,7 +554,7 @@ std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor
 	auto delt = (E0 - a1);
 	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
 	// fmt::print("O {}\n\n",o_coeff);
-	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or std::isnan(o_coeff.item().toDouble());
+	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or o_coeff.isnan().any().item().toBool();
 	auto n_coeff = (b * o_coeff) / (delt); // can't use o^2+n^2 = 1: loose important phase information that way.
 	if (zero_o)
 	{
-- 
2.43.0


From 2dff04ce73b4016cc707a19208c0d809f765808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 088/108] fix: DMRG updates of a state that isn't normalized
 were not variational

---
 sources/dmrg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 7e0f6d5..08ea1dc 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -183,6 +183,7 @@ struct dmrg_2sites_update
 		// MPO_t tmpMPO(hamil.begin() + oc, hamil.begin() + oc + 2);
 		// MPS_t tmpstate(state.begin() + oc, state.begin() + oc + 2);
 		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});
+		local_state = local_state / sqrt(tensordot(local_state, local_state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
 		d /= sqrt(sum(d.pow(2)));
-- 
2.43.0


From 875ec196f9218bc8b233fc49db78ce051f5ebb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 089/108] fix: DMRG reported a wrong orthogonality center

---
 sources/dmrg.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 08ea1dc..b9b66af 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -125,7 +125,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 }
 
 template <class T, class MPS_t>
-auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
+auto sweep(MPS_t &state, T &update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
 	using tensor_t = typename dependant_tensor_network<MPS_t>::base_tensor_type;
 	tensor_t E0;
@@ -153,10 +153,11 @@ struct dmrg_2sites_update
 	size_t &oc;
 	env_t &Env;
 	const dmrg_options &options;
+	size_t center; // where the orthogonality center really is: oc is the left site of the next update.
 
 	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, env_t &_Env,
 	                   const dmrg_options &_options)
-	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options)
+	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options), center(_oc)
 	{
 	}
 	// using print = dummy_print.operator();
@@ -202,6 +203,7 @@ struct dmrg_2sites_update
 		}
 		// fmt::print("full norm: \n{}\n",contract(sta6te,state));
 		// fmt::print("full E: \n{}\n",contract(state,state,hamil));
+		center = oc + forward;
 		oc += step;
 		return E0;
 	}
@@ -230,12 +232,12 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
 	if (oc == in_out_state.size() - 1)
 	{
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -263,6 +265,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
+	oc = update.center;
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
@@ -292,12 +295,12 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
 	if (oc == in_out_state.size() - 1)
 	{
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -322,10 +325,9 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
-	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
-	// such the site 0 and 1 are updated together once by the next rightward sweep.
-	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	// The last update leaves the orthogonality center on one of its two sites, oc is the left site of the update that would
+	// have come next.
+	oc = update.center;
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From cbd242d66f737ddde3d1748173ee8b4709f19d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 090/108] fix: DMRG of less than two sites, or of a state of
 another length, accessed sites that don't exist

---
 sources/dmrg.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index b9b66af..2f624ea 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,8 +89,19 @@ class dmrg_gradient_guard
 	}
 };
 
+template <class MPO_t, class MPS_t>
+void check_dmrg_input(const MPO_t &hamiltonian, const MPS_t &state)
+{
+	if (hamiltonian.size() < 2)
+		throw std::invalid_argument("DMRG updates pairs of sites: the hamiltonian must have at least two sites.");
+	if (hamiltonian.size() != state.size())
+		throw std::invalid_argument(fmt::format("The hamiltonian has {} sites, but the state has {}.",
+		                                        hamiltonian.size(), state.size()));
+}
+
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_dmrg_input(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state,
 	                          options); // set the tracing of hamil and state to whatever is specified in the option,
 	                                    // then set it back to its original value at the end.
@@ -100,6 +111,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 }
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_dmrg_input(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
-- 
2.43.0


From 38b55483d35a412f0859523ac3b093c4535dd28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 091/108] fix: block DMRG of a state with zero norm wasn't
 refused

---
 sources/dmrg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 2f624ea..b448173 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -234,6 +234,9 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
+	if (norm == 0 or norm < 1e-15)
+		throw std::invalid_argument("initial state has zero norm!"); // as for the dense tensors.
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
-- 
2.43.0


From 259d4dd6df1eda75089d5925ebd64304af319d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 092/108] fix: DMRG that stopped at its maximum number of
 iterations logged the end with another iteration number than the last
 iteration

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index b448173..c909621 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -284,6 +284,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
+	if (iteration > 0 and iteration == options.maximum_iterations)
+		--iteration; // the last one that was made
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
@@ -346,6 +348,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
+	if (iteration > 0 and iteration == options.maximum_iterations)
+		--iteration; // the last one that was made
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
-- 
2.43.0


From 3cd589ed9427e77e28d1075144bcf051d474bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 093/108] fix: DMRG from a random state used the default scalar
 type instead of that of the hamiltonian

---
 sources/dmrg.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index c909621..b87ec7d 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,11 +89,16 @@ class dmrg_gradient_guard
 	}
 };
 
-template <class MPO_t, class MPS_t>
-void check_dmrg_input(const MPO_t &hamiltonian, const MPS_t &state)
+template <class MPO_t>
+void check_dmrg_length(const MPO_t &hamiltonian)
 {
 	if (hamiltonian.size() < 2)
 		throw std::invalid_argument("DMRG updates pairs of sites: the hamiltonian must have at least two sites.");
+}
+template <class MPO_t, class MPS_t>
+void check_dmrg_input(const MPO_t &hamiltonian, const MPS_t &state)
+{
+	check_dmrg_length(hamiltonian);
 	if (hamiltonian.size() != state.size())
 		throw std::invalid_argument(fmt::format("The hamiltonian has {} sites, but the state has {}.",
 		                                        hamiltonian.size(), state.size()));
@@ -121,8 +126,8 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
+	check_dmrg_length(hamiltonian);
+	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum, hamiltonian.front().options());
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -130,8 +135,8 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 }
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
+	check_dmrg_length(hamiltonian);
+	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, hamiltonian.front().options());
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 98f950b9c1bceb1870f4cebbed3ee191e67b1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 094/108] fix: DMRG from a random state started with a state
 that isn't canonical (energies below the ground energy, NaN states)

---
 sources/dmrg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index b87ec7d..b4dd491 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -128,6 +128,9 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 {
 	check_dmrg_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum, hamiltonian.front().options());
+	// the environments of the sweeps are meant for a canonical state.
+	out_mps.move_oc(hamiltonian.size() - 1);
+	out_mps.move_oc(0);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -137,6 +140,9 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 {
 	check_dmrg_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, hamiltonian.front().options());
+	// the environments of the sweeps are meant for a canonical state.
+	out_mps.move_oc(hamiltonian.size() - 1);
+	out_mps.move_oc(0);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 4bb9ca79bc9376949693119be695b3dd0ac319d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 095/108] fix: contraction of empty networks or of networks of
 different lengths read out of bounds or aborted

---
 sources/MPT.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 86f7cb5..05e4d25 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -205,9 +205,19 @@ bool bMPS::check_ranks() const
 	return all_rank_3;
 }
 
+// refuses the contraction of networks of different lengths, or of empty networks whose edges aren't given.
+template <class... NETWORK>
+static void check_lengths(bool edges_given, size_t length, const NETWORK &...networks)
+{
+	if (((networks.size() != length) or ...))
+		throw std::invalid_argument("the contracted networks must have the same length");
+	if (length == 0 and not edges_given)
+		throw std::invalid_argument("can't contract empty networks without edges");
+}
+
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_lengths(true, a.size(), b, obs);
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -226,6 +236,7 @@ static btensor identity_edge(const btensor &a, const btensor &b, std::initialize
 }
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
+	check_lengths(false, a.size(), b, obs);
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
 	auto left_edge = identity_edge(a.front(), b.front(), {-1, 0, 0});
@@ -237,7 +248,7 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs, torch::Tensor left_edge,
                        const torch::Tensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_lengths(true, a.size(), b, obs);
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -249,6 +260,7 @@ torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs, torch::Tensor
 
 torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs)
 {
+	check_lengths(false, a.size(), b, obs);
 	auto left_edge =
 	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
 	auto right_edge =
@@ -260,7 +272,7 @@ torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs)
 
 torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, const torch::Tensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_lengths(true, a.size(), b);
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = torch::tensordot(left_edge, a[i], {0}, {0});
@@ -270,6 +282,7 @@ torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, cons
 }
 torch::Tensor contract(const MPS &a, const MPS &b)
 {
+	check_lengths(false, a.size(), b);
 	auto E = eye_like(shape_from(shape_from(a[0], {-1, 0, 0}), shape_from((b[0]), {-1, 0, 0})));
 	auto right_edge = eye_like(shape_from(shape_from(a.back(), {0, 0, -1}), shape_from((b.back()), {0, 0, -1})));
 	return contract(a, b, E, right_edge);
@@ -277,7 +290,7 @@ torch::Tensor contract(const MPS &a, const MPS &b)
 
 btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_lengths(true, a.size(), b);
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -287,6 +300,7 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
+	check_lengths(false, a.size(), b);
 	auto left_edge = identity_edge(a.front(), b.front(), {-1, 0, 0});
 	auto right_edge = identity_edge(a.back(), b.back(), {0, 0, -1});
 	return contract(a, b, left_edge, right_edge);
-- 
2.43.0


From 88a52b4e2603727dc6bdfe182d28508593414123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 096/108] fix: broadcasting over a dimension without sections
 formed an iterator before the beginning of the quantities

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1beb68f..1466aee 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1159,7 +1159,7 @@ struct mul_helpers
 				std::copy_backward(section_start, section_end, new_sections_sizes_it);
 				auto N = std::distance(section_start, section_end);
 				new_sections_sizes_it -= N;
-				--short_cval_end;
+				short_cval_end -= (N > 0);
 				while (N > 0)
 				{
 					--new_cvals_it;
-- 
2.43.0


From b7b53563e66f3fb8bf06da44e4e6d5e4696fb4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 097/108] fix: DMRG tracked gradients (and leaked their graph)
 although the gradient options were off

---
 sources/dmrg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index b4dd491..2da9c16 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -73,11 +73,12 @@ class dmrg_gradient_guard
 	bool guard_state;
 	torch::TensorOptions hamil_opt;
 	torch::TensorOptions state_opt;
+	torch::AutoGradMode grad_mode; // "to" can't stop the tracking of a tensor which requires a gradient.
 
   public:
 	dmrg_gradient_guard(MPO_t &_hamil, MPS_t &_state, const dmrg_options &options)
 	    : hamil(_hamil), state(_state), guard_hamil(options.hamil_gradient), guard_state(options.state_gradient),
-	      hamil_opt(hamil[0].options()), state_opt(state[0].options())
+	      hamil_opt(hamil[0].options()), state_opt(state[0].options()), grad_mode(guard_hamil or guard_state)
 	{
 		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));
 		state.to_(torch::TensorOptions().requires_grad(guard_state));
-- 
2.43.0


From 926ad730fcf8201736dee7540788207a7efc6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 098/108] fix: the line length of a tensor's format lost its
 first and last digits, and a short one never ended

---
 include/torch_formatter.h | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index 0accb4d..4b1cb91 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -17,6 +17,7 @@
 #include <torch/torch.h>
 #include <fmt/ostream.h>
 #include <fmt/format.h>
+#include <algorithm>
 #include <charconv>
 namespace quantit
 {
@@ -30,30 +31,24 @@ template <>
 struct fmt::formatter<torch::Tensor>
 {
 	uint linelenght = 80;
+	// at::print never ends when a line is too short for a single element.
+	constexpr static uint min_linelenght = 20;
 
 	constexpr auto parse(format_parse_context& ctx)
 	{
 		auto it = ctx.begin(), end = ctx.end();
-		if (it and *it != '}')
+		auto first_pos = it;
+		while (it != end && *it != '}')
 		{
 			++it;
-			auto first_pos = it;
-			while (it != end && *it != '}')
-			{
-				++it;
-			}
-			auto last_pos = it - 1;
+		}
+		if (it != first_pos)
+		{
 			uint width = 80;
-			if (last_pos > first_pos)
-			{
-				auto code = std::from_chars(first_pos, last_pos, width);
-				if (code.ptr != last_pos || std::errc::invalid_argument == code.ec)
-					throw format_error("invalid format, only a single integer supported for torch::Tensor");
-				else
-				{
-					linelenght = width;
-				}
-			}
+			auto code = std::from_chars(first_pos, it, width);
+			if (code.ptr != it || code.ec != std::errc())
+				throw format_error("invalid format, only a single integer supported for torch::Tensor");
+			linelenght = std::max(width, min_linelenght);
 		}
 		if (it and *it != '}')
 			throw format_error("invalid format,closing brace missing");
-- 
2.43.0


From ad475644159efe179d63abba753b118d48781933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 099/108] fix: flat_map::insert_or_assign and try_emplace
 didn't compile, and read past the end for a key larger than all those of the
 map

---
 include/blockTensor/flat_map.h | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 3578eb1..ae6ea14 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -441,9 +441,9 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it = iterator(content.emplace(it.base_reference(), k, std::forward<M>(obj)));
 			success = true;
 		}
 		else
@@ -457,9 +457,9 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it = iterator(content.emplace(it.base_reference(), std::move(k), std::forward<M>(obj)));
 			success = true;
 		}
 		else
@@ -473,12 +473,10 @@ class flat_map
 	{
 
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(
-		    first, last, k,
-		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin()); // that's not a big saving if the hint is really good. except if the element is near the ends
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it = iterator(content.emplace(it.base_reference(), k, std::forward<M>(obj)));
 		}
 		else
 		{
@@ -491,12 +489,10 @@ class flat_map
 	iterator insert_or_assign(const_iterator hint, key_type &&k, M &&obj)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(
-		    first, last, k,
-		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin()); // that's not a big saving if the hint is really good. except if the element is near the ends
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it = iterator(content.emplace(it.base_reference(), std::move(k), std::forward<M>(obj)));
 		}
 		else
 		{
@@ -547,9 +543,10 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.base_reference(), std::piecewise_construct, std::forward_as_tuple(k),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -559,9 +556,10 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.base_reference(), std::piecewise_construct, std::forward_as_tuple(std::move(k)),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -570,11 +568,12 @@ class flat_map
 	std::pair<iterator, bool> try_emplace(const_iterator hint, const key_type &k, Args &&... args)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(first, last, k, comp);
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin());
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.base_reference(), std::piecewise_construct, std::forward_as_tuple(k),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -583,11 +582,12 @@ class flat_map
 	std::pair<iterator, bool> try_emplace(const_iterator hint, key_type &&k, Args &&... args)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(first, last, k, comp);
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin());
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.base_reference(), std::piecewise_construct, std::forward_as_tuple(std::move(k)),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
-- 
2.43.0


From 2fe4348a0fc25161b20a3db567724708f9b0d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 100/108] fix: assigning a list to a flat_map didn't compile

---
 include/blockTensor/flat_map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index ae6ea14..dbd2230 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -218,17 +218,17 @@ class flat_map
 		return *this;
 	}
 	/**
-	 * @brief set the content of the flat_map to that of the arguement. Does not sort if input isn't already sorted.
-	 * 
-	 * TODO: add a call to sort?
+	 * @brief set the content of the flat_map to that of the arguement.
 	 * 
 	 * @param ilist 
 	 * @return flat_map& 
 	 */
 	flat_map &operator=(std::initializer_list<value_type> ilist)
 	{
-		content.resize(0);
-		content.insert(ilist.begin(), ilist.end());
+		content.assign(ilist.begin(), ilist.end());
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
 		return *this;
 	}
 
-- 
2.43.0


From 742adc3181bc038ada7e8df1ec3a64def307e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 101/108] fix: inserting a range of another container in a
 flat_map didn't compile

---
 include/blockTensor/flat_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index dbd2230..1b03dfb 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -335,14 +335,17 @@ class flat_map
 	template <class InputIt>
 	void insert(InputIt first, InputIt last)
 	{
-		insert(
-		    first, last, [](auto &, const auto &) {}, [](auto &) {});
+		if constexpr (std::is_convertible_v<InputIt, const_iterator>)
+			insert(
+			    first, last, [](auto &, const auto &) {}, [](auto &) {});
+		else
+			insert(first, last, [](auto &, const auto &) {});
 	}
 	template <class InputIt, class Collision, class = std::enable_if_t<!std::is_convertible_v<InputIt, const_iterator>>>
 	void insert(InputIt first, InputIt last, Collision &&collision)
 	{
 		static_assert(!std::is_convertible_v<InputIt, const_iterator>, "Don't try to bypass the enable if");
-		content.insert(content.end(), const_iterator(first).base_reference(),const_iterator(last).base_reference());
+		content.insert(content.end(), first, last);
 		sort();
 		auto l = filter_unique(
 		    content.begin(), content.end(),
-- 
2.43.0


From c4ce93188945b5bbd8cb1c83ac6be68bca9569bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 102/108] fix: flat_map::equal_range of an absent key was
 always at the end of the map

---
 include/blockTensor/flat_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 1b03dfb..ecec76e 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -700,8 +700,7 @@ class flat_map
 	bool contains(const key_type &k) const { return count(k); }
 	std::pair<iterator, iterator> equal_range(const key_type &k)
 	{
-		auto it = find(k);
-		return std::make_pair(it, it == end() ? end() : it + 1);
+		return std::make_pair(lower_bound(k), upper_bound(k));
 	}
 	std::pair<const_iterator, const_iterator> equal_range(const key_type &k) const
 	{
-- 
2.43.0


From 3efb4eec3ea396a81cc84724cd99ee1ab8df52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 103/108] fix: flat_map::emplace without a hint didn't compile

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index ecec76e..17d34b0 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -511,7 +511,7 @@ class flat_map
 		auto it = std::lower_bound(begin(), end(), val, comp);
 		if (it  == end() or comp(val, *it))
 		{
-			it = content.emplace(it.it, std::move(val));
+			it = iterator(content.emplace(it.base_reference(), std::move(val)));
 			success = true;
 		}
 		return std::make_pair(it, success);
-- 
2.43.0


From 4dccf2addc1f66d51570f0fc890662b8ccdf35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 104/108] fix: merging a temporary flat_map in another without
 callbacks didn't compile

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 17d34b0..ab1a06b 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -670,7 +670,7 @@ class flat_map
 	{
 		if (source.capacity() >= source.size() + size())
 		{
-			swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
+			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
 			insert(source.begin(), source.end(), [](auto &a, const auto &b) {
 				// b is const in the context that call this lambda function.
 				// But in this present context, we know it's actually a reference to a non-const value.
-- 
2.43.0


From c70efe87eb5b865f97d12a5f9afc6810a2f336cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 105/108] fix: making an any_quantity_vector from a
 quantity_vector didn't compile

---
 include/Conserved/Composite/quantity_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 329c183..0441e89 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -61,7 +61,7 @@ public:
 	template <class Conc_cgroup, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(std::initializer_list<Conc_cgroup> list) : ptr(std::make_unique<quantity_vector<Conc_cgroup>>(list)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
+	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : any_quantity_vector(static_cast<const vquantity_vector&>(other)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other)))
 	{
-- 
2.43.0


From fc0ffe9b12bf0c971f8bd3df5f9620013b77da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 106/108] fix: making an any_quantity_vector from an empty list
 dereferenced its end

---
 include/Conserved/Composite/quantity_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 0441e89..ee8dac9 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -49,9 +49,9 @@ public:
 	 * @brief Construct a new any_quantity vector object from an initializer list of any_quantity
 	 * @param list all the any_quantity must have the same concrete type, or an exception will be raised
 	 */
-	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.begin()->get().make_vector(0))
+	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.size() ? list.begin()->get().make_vector(0) : nullptr)
 	{
-		ptr->reserve(list.end() - list.begin());
+		if (ptr) ptr->reserve(list.end() - list.begin());
 		for (const_reference a : list)
 		{
 			push_back(a);
-- 
2.43.0


From 8d477bd4d25b3e879794a6c19b542ac3a979de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 107/108] fix: making a quantity_vector from a std::vector
 treated the vector as a quantity_vector

---
 include/Conserved/Composite/quantity_vector_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 9df03e2..640fe11 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -269,10 +269,10 @@ class quantity_vector final : public vquantity_vector, public std::vector<S, All
 	using std::vector<S, Allocator>::vector; // so we have all of vector's constructors as well as the rest of its
 	                                         // interface.
 	quantity_vector(const std::vector<S, Allocator> &other)
-	    : quantity_vector(static_cast<const quantity_vector &>(other))
+	    : base_vector(other)
 	{
 	}
-	quantity_vector(std::vector<S, Allocator> &&other) : quantity_vector(static_cast<quantity_vector &&>(other)) {}
+	quantity_vector(std::vector<S, Allocator> &&other) : base_vector(std::move(other)) {}
 
 	blocklist identify_blocks(const btensor &) const override
 	{
-- 
2.43.0


From a1f2c2c94299d09471a4fe87596b88f768d212b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:58 +0000
Subject: [PATCH 108/108] fix: count the elements of a dimension and of a block
 with 64 bits integers

---
 sources/btensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1466aee..3741001 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -327,7 +327,7 @@ std::vector<int64_t> btensor::sizes() const
 	for (size_t i = 0; i < dim(); ++i)
 	{
 		auto [sections_beg, sections_end] = section_sizes(i);
-		out[i] = std::reduce(sections_beg, sections_end, 0);
+		out[i] = std::reduce(sections_beg, sections_end, int64_t(0));
 	}
 	return out;
 }
@@ -2595,7 +2595,7 @@ std::vector<torch::indexing::TensorIndex> btensor::full_slice(const btensor &ten
 		if (block[i] >= std::distance(ss_start, ss_end))
 			throw std::invalid_argument(fmt::format("the {}th block index ({}) exceed maximum allowed value ({}).", i,
 			                                        block[i], std::distance(ss_start, ss_end)));
-		auto ori = std::reduce(ss_start, ss_start + block[i], 0);
+		auto ori = std::reduce(ss_start, ss_start + block[i], int64_t(0));
 		auto slice_end = ori + *(ss_start + block[i]);
 		// fmt::print("slice: {} {}\n\n",ori,slice_end);
 		out[i] = torch::indexing::Slice(ori, slice_end);
@@ -3076,8 +3076,8 @@ bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 	{
 		auto lhs_vals = lhs.block_sizes(lhs_index);
 		auto rhs_vals = rhs.block_sizes(rhs_index);
-		auto lhs_f = std::accumulate(lhs_vals.begin(), lhs_vals.end(), 1, std::multiplies());
-		auto rhs_f = std::accumulate(rhs_vals.begin(), rhs_vals.end(), 1, std::multiplies());
+		auto lhs_f = std::accumulate(lhs_vals.begin(), lhs_vals.end(), int64_t(1), std::multiplies());
+		auto rhs_f = std::accumulate(rhs_vals.begin(), rhs_vals.end(), int64_t(1), std::multiplies());
 		out &= lhs_f == rhs_f;
 		increment(lhs_index, lhs.section_numbers(), lhs.dim());
 		increment(rhs_index, rhs.section_numbers(), rhs.dim());
-- 
2.43.0

