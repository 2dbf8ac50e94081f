From 407e4b2fc33f5d0d677d3750c087f05691a39ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 01/17] fix: let traverser ranges be used with static and
 affinity TBB partitioners

The splitting constructor template accepted every tag type, so TBB believed the
range to be splittable in proportion and then hit a static_assert.
---
 include/noarr/structures/interop/tbb.hpp            |  6 +++++-
 include/noarr/structures/interop/traverser_iter.hpp | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..2ac033b 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -17,13 +17,17 @@
 
 namespace noarr {
 
+// declared in traverser_iter.hpp
+template<>
+inline constexpr bool helpers::is_range_split<tbb::split> = true;
+
 // declared in traverser_iter.hpp
 template<auto Dim, class Struct, class Order>
 requires IsDim<decltype(Dim)>
 template<class Split>
+requires helpers::is_range_split<Split>
 constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_range_t &orig, Split /*unused*/) noexcept
 	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
-	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
 	orig.end_idx = begin_idx;
 }
 
diff --git a/include/noarr/structures/interop/traverser_iter.hpp b/include/noarr/structures/interop/traverser_iter.hpp
index a1bd6dc..769fd50 100644
--- a/include/noarr/structures/interop/traverser_iter.hpp
+++ b/include/noarr/structures/interop/traverser_iter.hpp
@@ -16,6 +16,14 @@
 
 namespace noarr {
 
+namespace helpers {
+
+// whether `T` is the tag type of the TBB splitting constructor, specialized in tbb.hpp
+template<class T>
+constexpr bool is_range_split = false;
+
+} // namespace helpers
+
 template<auto Dim, class Struct, class Order>
 requires IsDim<decltype(Dim)>
 struct traverser_iterator_t : strict_contain<Struct, Order> {
@@ -141,7 +149,8 @@ struct traverser_range_t : strict_contain<Struct, Order> {
 
 	// TBB splitting constructor
 	template<class Split>
-	constexpr traverser_range_t(traverser_range_t &, Split) noexcept; // defined in tbb_traverser.hpp
+	requires helpers::is_range_split<Split>
+	constexpr traverser_range_t(traverser_range_t &, Split) noexcept; // defined in tbb.hpp
 
 	[[nodiscard]]
 	constexpr auto get_struct() const noexcept {
-- 
2.43.0


From 57596d47b48888cb5ecb7412aaf0a21550fe713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 02/17] fix: reverse lengths that depend on the reversed index

reverse_t::length passed the outer state on unchanged, so a length that depends
on the index in the reversed dimension (e.g. into_blocks_dynamic presence) was
taken for the wrong index and the traversal left the structure.
---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..fb6120b 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -791,7 +791,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From 6967cb4bc993a0cffcc627d180e58650c7429ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:15 +0000
Subject: [PATCH 03/17] fix: make planner ranges splittable so that
 planner_tbb_execute compiles

---
 include/noarr/structures/interop/planner_iter.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..95d7adb 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,14 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// TBB splitting constructor
+	template<class Split>
+	requires helpers::is_range_split<Split>
+	constexpr planner_range_t(planner_range_t &orig, Split /*unused*/) noexcept
+		: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+		orig.end_idx = begin_idx;
+	}
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
-- 
2.43.0


From 8e0d84f74536436046faea95d750342559432afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:15 +0000
Subject: [PATCH 04/17] fix: take the iterators of a planner with begin()/end()
 in planner_std_execute

---
 include/noarr/structures/interop/std_para.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..af3f15a 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,7 +27,7 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
+	std::for_each(std::execution::par, begin(planner), end(planner),
 	              [](const auto &inner_planner) { inner_planner.execute(); });
 }
 
-- 
2.43.0


From e017e8f94a3d9405564744d812a601f387cf1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:10 +0000
Subject: [PATCH 05/17] fix: let planners traverse dependent (tuple) dimensions

---
 include/noarr/structures/extra/planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..8f58268 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -397,6 +397,11 @@ private:
 		for_each_impl_dep<Dim, Branches...>(state, std::index_sequence<Is...>());
 	}
 
+	// the bottom case
+	template<auto Dim>
+	requires IsDim<decltype(Dim)>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const {}
+
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
 		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-- 
2.43.0


From 29f20e4e48e62aad4a976df2db2ffd9d75608e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 06/17] fix: do not use or leak an unavailable private copy in
 tbb_reduce

---
 include/noarr/structures/interop/tbb.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index 2ac033b..3e0a787 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -1,9 +1,9 @@
 #ifndef NOARR_STRUCTURES_TBB_HPP
 #define NOARR_STRUCTURES_TBB_HPP
 
-#include <cstdlib>
-
+#include <new>
 #include <type_traits>
+#include <utility>
 
 #include <tbb/tbb.h>
 
@@ -65,7 +65,7 @@ inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_ac
 			private_ptr &operator=(const private_ptr &) = delete;
 			private_ptr &operator=(private_ptr &&) = delete;
 
-			~private_ptr() { std::free(raw); } // ok with null
+			~private_ptr() { ::operator delete(raw); } // ok with null
 		};
 
 		tbb::combinable<private_ptr> out_ptrs;
@@ -73,9 +73,10 @@ inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_ac
 			private_ptr &local = out_ptrs.local();
 			void *local_out_ptr = local.raw;
 			if (local_out_ptr == nullptr) {
-				local_out_ptr = std::malloc(out_struct.size(empty_state));
+				private_ptr fresh; // owns the new copy until it is initialized
+				fresh.raw = local_out_ptr = ::operator new(out_struct.size(empty_state));
 				traverser(out_struct).for_each([local_out_ptr, f_neut](auto state) { f_neut(state, local_out_ptr); });
-				local.raw = local_out_ptr;
+				std::swap(local.raw, fresh.raw);
 			}
 			subrange.for_each([f_acc, local_out_ptr](auto state) { f_acc(state, local_out_ptr); });
 		});
-- 
2.43.0


From 21a3802faeb000495aa59a2acef64c2ac5779cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 07/17] fix: let exceptions of the stream pass through
 (de)serialize_data

---
 include/noarr/structures/interop/serialize_data.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/noarr/structures/interop/serialize_data.hpp b/include/noarr/structures/interop/serialize_data.hpp
index 794495f..771534f 100644
--- a/include/noarr/structures/interop/serialize_data.hpp
+++ b/include/noarr/structures/interop/serialize_data.hpp
@@ -7,25 +7,25 @@
 namespace noarr {
 
 template<class Istream, class Struct>
-constexpr decltype(auto) deserialize_data(Istream &&in, Struct s, void *data) noexcept {
-	traverser(s).for_each([&in, s, data]<IsState State>(State state) noexcept { in >> (s | get_at(data, state)); });
+constexpr decltype(auto) deserialize_data(Istream &&in, Struct s, void *data) {
+	traverser(s).for_each([&in, s, data]<IsState State>(State state) { in >> (s | get_at(data, state)); });
 	return std::forward<Istream>(in);
 }
 
 template<class Istream, class Bag>
-constexpr decltype(auto) deserialize_data(Istream &&in, Bag &bag) noexcept {
+constexpr decltype(auto) deserialize_data(Istream &&in, Bag &bag) {
 	return deserialize_data(std::forward<Istream>(in), bag.structure(), bag.data());
 }
 
 template<class Ostream, class Struct>
-constexpr decltype(auto) serialize_data(Ostream &&out, Struct s, const void *data) noexcept {
+constexpr decltype(auto) serialize_data(Ostream &&out, Struct s, const void *data) {
 	traverser(s).for_each(
-		[&out, s, data]<IsState State>(State state) noexcept { out << (s | get_at(data, state)) << '\n'; });
+		[&out, s, data]<IsState State>(State state) { out << (s | get_at(data, state)) << '\n'; });
 	return std::forward<Ostream>(out);
 }
 
 template<class Ostream, class Bag>
-constexpr decltype(auto) serialize_data(Ostream &&out, const Bag &bag) noexcept {
+constexpr decltype(auto) serialize_data(Ostream &&out, const Bag &bag) {
 	return serialize_data(std::forward<Ostream>(out), bag.structure(), bag.data());
 }
 
-- 
2.43.0


From 963b34a68150d9979a70a1f919ae94a6c726ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 08/17] fix: align() of cuda_striped did not compile

---
 include/noarr/structures/interop/cuda_striped.cuh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..bb150ec 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -139,7 +139,7 @@ public:
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
 		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		return std::max<std::size_t>(sub_structure().align(sub_state(state)), BankWidth);
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From 33909c088bc1d81a7feafdcf55408ca30a74c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:59 +0000
Subject: [PATCH 09/17] fix: let operator^ move the data out of an owning bag

---
 include/noarr/structures/interop/bag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..d93377d 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,9 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// `get` only gives const access, but `s` is a non-const rvalue, so its data can be moved from
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p,
+		                                         std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From b364a9f7403e3169f0cad1ff57e0be52694eb1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:45 +0000
Subject: [PATCH 10/17] fix: do not re-enter a private copy of tbb_reduce from
 nested TBB tasks

---
 include/noarr/structures/interop/tbb.hpp | 35 ++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index 3e0a787..9f3db70 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -4,6 +4,7 @@
 #include <new>
 #include <type_traits>
 #include <utility>
+#include <vector>
 
 #include <tbb/tbb.h>
 
@@ -61,29 +62,35 @@ inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_ac
 
 			constexpr private_ptr() noexcept = default;
 			private_ptr(const private_ptr &) = delete;
-			private_ptr(private_ptr &&) = delete;
+			private_ptr(private_ptr &&other) noexcept : raw(std::exchange(other.raw, nullptr)) {}
 			private_ptr &operator=(const private_ptr &) = delete;
 			private_ptr &operator=(private_ptr &&) = delete;
 
 			~private_ptr() { ::operator delete(raw); } // ok with null
 		};
 
-		tbb::combinable<private_ptr> out_ptrs;
+		// The copies that are not being used at the moment. One copy per thread suffices, unless a callback waits for other
+		// tasks: the thread may then start another subrange, which must not touch the copy in use.
+		tbb::combinable<std::vector<private_ptr>> out_ptrs;
 		tbb::parallel_for(t.range(), [&f_neut, &f_acc, &out_struct, &out_ptrs](const range_t &subrange) {
-			private_ptr &local = out_ptrs.local();
-			void *local_out_ptr = local.raw;
-			if (local_out_ptr == nullptr) {
-				private_ptr fresh; // owns the new copy until it is initialized
-				fresh.raw = local_out_ptr = ::operator new(out_struct.size(empty_state));
-				traverser(out_struct).for_each([local_out_ptr, f_neut](auto state) { f_neut(state, local_out_ptr); });
-				std::swap(local.raw, fresh.raw);
+			std::vector<private_ptr> &local = out_ptrs.local();
+			private_ptr used;
+			if (local.empty()) {
+				used.raw = ::operator new(out_struct.size(empty_state));
+				traverser(out_struct).for_each([to = used.raw, f_neut](auto state) { f_neut(state, to); });
+			} else {
+				std::swap(used.raw, local.back().raw);
+				local.pop_back();
 			}
-			subrange.for_each([f_acc, local_out_ptr](auto state) { f_acc(state, local_out_ptr); });
+			subrange.for_each([f_acc, local_out_ptr = used.raw](auto state) { f_acc(state, local_out_ptr); });
+			local.push_back(std::move(used));
 		});
-		out_ptrs.combine_each([out_struct, out_ptr, &f_join](const private_ptr &local_out_ptr) {
-			traverser(out_struct).for_each([to = out_ptr, from = local_out_ptr.raw, f_join](auto state) {
-				f_join(state, to, (const void *)from);
-			});
+		out_ptrs.combine_each([out_struct, out_ptr, &f_join](const std::vector<private_ptr> &local_out_ptrs) {
+			for (const private_ptr &local_out_ptr : local_out_ptrs) {
+				traverser(out_struct).for_each([to = out_ptr, from = local_out_ptr.raw, f_join](auto state) {
+					f_join(state, to, (const void *)from);
+				});
+			}
 		});
 	}
 }
-- 
2.43.0


From 6c0f384503f8a3ea9cf0738e1f71b80c5a68e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:02 +0000
Subject: [PATCH 11/17] fix: share the output of tbb_reduce only if the order
 keeps the parallel dimension

---
 include/noarr/structures/interop/tbb.hpp | 56 +++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index 9f3db70..0eaf06a 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -15,6 +15,10 @@
 #include "../interop/bag.hpp"
 #include "../interop/planner_iter.hpp"
 #include "../interop/traverser_iter.hpp"
+#include "../structs/blocks.hpp"
+#include "../structs/setters.hpp"
+#include "../structs/slice.hpp"
+#include "../structs/views.hpp"
 
 namespace noarr {
 
@@ -45,12 +49,62 @@ inline void tbb_for_sections(const Traverser &t, const F &f) {
 	});
 }
 
+namespace helpers {
+
+// Whether different indices in `Dim` after applying the order always mean different indices in `Dim` before applying it.
+// False for the orders that are not listed (the dimension may have been renamed, or composed of multiple dimensions).
+template<auto Dim, class Order>
+struct order_keeps_dim : std::false_type {};
+
+template<auto Dim>
+struct order_keeps_dim<Dim, neutral_proto> : std::true_type {};
+
+template<auto Dim, class... Inner, class Outer>
+struct order_keeps_dim<Dim, compose_proto<pack<Inner...>, Outer>>
+	: std::bool_constant<(order_keeps_dim<Dim, Outer>::value && ... && order_keeps_dim<Dim, Inner>::value)> {};
+
+template<auto Dim, auto FixDim, class IdxT>
+struct order_keeps_dim<Dim, fix_proto<FixDim, IdxT>> : std::true_type {};
+
+template<auto Dim, auto SetDim, class LenT>
+struct order_keeps_dim<Dim, set_length_proto<SetDim, LenT>> : std::true_type {};
+
+template<auto Dim, auto HoistDim>
+struct order_keeps_dim<Dim, hoist_proto<HoistDim>> : std::true_type {};
+
+template<auto Dim, auto... Dims>
+struct order_keeps_dim<Dim, reorder_proto<Dims...>> : std::true_type {};
+
+template<auto Dim, auto SliceDim, class StartT>
+struct order_keeps_dim<Dim, shift_proto<SliceDim, StartT>> : std::true_type {};
+
+template<auto Dim, auto SliceDim, class StartT, class LenT>
+struct order_keeps_dim<Dim, slice_proto<SliceDim, StartT, LenT>> : std::true_type {};
+
+template<auto Dim, auto SliceDim, class StartT, class EndT>
+struct order_keeps_dim<Dim, span_proto<SliceDim, StartT, EndT>> : std::true_type {};
+
+template<auto Dim, auto SliceDim, class StartT, class StrideT>
+struct order_keeps_dim<Dim, step_proto<SliceDim, StartT, StrideT>> : std::true_type {};
+
+template<auto Dim, auto RevDim>
+struct order_keeps_dim<Dim, reverse_proto<RevDim>> : std::true_type {};
+
+template<auto Dim, auto BlockDim, auto DimMajor, auto DimMinor>
+struct order_keeps_dim<Dim, into_blocks_proto<BlockDim, DimMajor, DimMinor>>
+	: std::bool_constant<dim_sequence<BlockDim>::template contains<Dim> ||
+                         !dim_sequence<DimMajor, DimMinor>::template contains<Dim>> {};
+
+} // namespace helpers
+
 template<IsTraverser Traverser, class FNeut, class FAcc, class FJoin, class OutStruct>
 inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_acc, const FJoin &f_join,
                        const OutStruct &out_struct, void *out_ptr) {
 	constexpr auto top_dim = helpers::traviter_top_dim<decltype(t.get_struct() ^ t.get_order())>;
 	using range_t = decltype(t.range());
-	if constexpr (OutStruct::signature::template all_accept<top_dim>) {
+	using order_t = std::remove_cvref_t<decltype(t.get_order())>;
+	if constexpr (OutStruct::signature::template all_accept<top_dim> &&
+	              helpers::order_keeps_dim<top_dim, order_t>::value) {
 		// parallel writes will go to different offsets => out_ptr may be shared
 		tbb::parallel_for(t.range(), [&f_acc, out_ptr](const range_t &subrange) {
 			subrange.for_each([f_acc, out_ptr](auto state) { f_acc(state, out_ptr); });
-- 
2.43.0


From 8b304a674f3c2f7d12bd0e522b3a55baa2e61a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:23 +0000
Subject: [PATCH 12/17] fix: let for_sections leave out a tuple dimension

---
 include/noarr/structures/base/utility.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/noarr/structures/base/utility.hpp b/include/noarr/structures/base/utility.hpp
index e66fcfb..9eeca9d 100644
--- a/include/noarr/structures/base/utility.hpp
+++ b/include/noarr/structures/base/utility.hpp
@@ -299,9 +299,12 @@ struct dim_tree_reorder_impl<Tree, v, vs...> {
 template<class Tree, class Pred>
 struct dim_tree_filter_impl;
 
-template<auto v, class Branch, class Pred>
-requires (!Pred::template value<v>)
-struct dim_tree_filter_impl<dim_tree<v, Branch>, Pred> {
+// an omitted dimension may have multiple branches only if the same dimensions remain in all of them
+template<auto v, class Branch, class... Branches, class Pred>
+requires (!Pred::template value<v> && ... &&
+          std::is_same_v<typename dim_tree_filter_impl<Branch, Pred>::type,
+                         typename dim_tree_filter_impl<Branches, Pred>::type>)
+struct dim_tree_filter_impl<dim_tree<v, Branch, Branches...>, Pred> {
 	using type = typename dim_tree_filter_impl<Branch, Pred>::type;
 };
 
-- 
2.43.0


From dd787add20ee541a32252aac4f8bf183ccadc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:58 +0000
Subject: [PATCH 13/17] fix: let planners honor the guard dimension of
 into_blocks_dynamic

---
 include/noarr/structures/extra/planner.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 8f58268..9911827 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -30,6 +30,10 @@ using is_activated = is_activated_impl<std::remove_cvref_t<Ending>>;
 template<class Ending>
 constexpr bool is_activated_v = is_activated<Ending>::value;
 
+// whether the ending is run with the dimensions that it does not mention still unresolved
+template<class Ending>
+struct is_sections : std::false_type {};
+
 } // namespace helpers
 
 template<class Sig, class F>
@@ -136,6 +140,8 @@ struct planner_endings : flexible_contain<Endings...> {
 	static constexpr std::size_t activated_count = (0 + ... + (helpers::is_activated_v<Endings> ? 1 : 0));
 	static_assert(activated_count <= 1, "ambiguous activation of planner endings");
 	static constexpr bool activated = activated_count == 1;
+	static constexpr bool sections_activated =
+		(false || ... || (helpers::is_activated_v<Endings> && helpers::is_sections<Endings>::value));
 
 	using base::base;
 
@@ -277,6 +283,9 @@ template<class Sig, class F>
 struct helpers::is_activated_impl<planner_sections_t<Sig, F>>
 	: std::integral_constant<bool, planner_sections_t<Sig, F>::activated> {};
 
+template<class Sig, class F>
+struct helpers::is_sections<planner_sections_t<Sig, F>> : std::true_type {};
+
 template<class Union, class Order_, class Ending_>
 constexpr auto make_planner(Union &&union_struct, Order_ &&order, Ending_ &&ending) noexcept {
 	return planner_t(std::forward<Union>(union_struct), std::forward<Order_>(order), std::forward<Ending_>(ending));
@@ -404,8 +413,8 @@ private:
 
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
-		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-						  fix(state_at<union_struct>(top_struct(), state))))>) {
+		if constexpr (decltype(get_ending().order(
+						  fix(state_at<union_struct>(top_struct(), state))))::sections_activated) {
 			get_ending()(order(fix(state)));
 		} else {
 			using dim_sig = sig_find_dim<Dim, State, typename decltype(top_struct())::signature>;
-- 
2.43.0


From eeef1130f50e422156e12ae1e4182ef2abadde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:17 +0000
Subject: [PATCH 14/17] fix: let planner iterators be assigned when the
 callback is a capturing lambda

---
 .../noarr/structures/interop/planner_iter.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index 95d7adb..42a2415 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -4,6 +4,8 @@
 #include <cstddef>
 
 #include <iterator>
+#include <memory>
+#include <type_traits>
 #include <utility>
 
 #include "../base/contain.hpp"
@@ -63,6 +65,23 @@ struct planner_iterator_t<Dim, union_t<Structs...>, Order, Ending>
 
 	constexpr planner_iterator_t(const base &b, std::size_t idx) : base(b), idx(idx) {}
 
+	constexpr planner_iterator_t(const planner_iterator_t &other) = default;
+
+	constexpr planner_iterator_t &operator=(const planner_iterator_t &other)
+	requires (std::is_copy_assignable_v<base>)
+	= default;
+
+	// iterators must be assignable, but the ending may contain a capturing lambda, which is only copy-constructible
+	constexpr planner_iterator_t &operator=(const planner_iterator_t &other) noexcept
+	requires (!std::is_copy_assignable_v<base>)
+	{
+		if (this != &other) {
+			std::destroy_at(this);
+			std::construct_at(this, other);
+		}
+		return *this;
+	}
+
 	// random_access_iterator must be default constructible, although it does not make sense even for STL iterators.
 	// Additionally, it cannot be implemented generally for any Struct.
 	// This code should satisfy the trait/concept, but fail at compile-time if actually used in potentially-evaluated
-- 
2.43.0


From a5c3cbeb13dc0e0c63600b4b2b75230fff10529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:11 +0000
Subject: [PATCH 15/17] fix: compute the merge_zcurve index mask in std::size_t

With the alignment to the power of the number of dimensions beyond 2^32, the mask
was computed in unsigned int: different indices designated the same element.
---
 include/noarr/structures/structs/zcurve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..fab0014 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -195,7 +195,7 @@ private:
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				const auto index_special = index & ((static_cast<std::size_t>(1U) << SpecialLevel * sizeof...(Dims)) - 1U);
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 68396c99763ba6e120001b0069a976a1ad608b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 16/17] fix: do not shift by the width of std::size_t in
 merge_zcurve of one dimension

The mask was undefined for a single merged dimension: indices were garbage with
optimizing clang.
---
 include/noarr/structures/structs/zcurve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index fab0014..49faee4 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -105,7 +105,7 @@ template<std::size_t NDim, std::size_t... I>
 constexpr std::size_t zc_special_inner(std::size_t tmp, std::index_sequence<I...> /*is*/) noexcept {
 	(..., (tmp &= zc_special_helper<(NDim << I), (static_cast<std::size_t>(1U) << (1U << I)) - 1U>::rep_bits,
 	       tmp |= tmp >> ((NDim - 1U) << I)));
-	return tmp & ((static_cast<std::size_t>(1U) << (1U << sizeof...(I))) - 1U);
+	return tmp & (~static_cast<std::size_t>(0U) >> (8 * sizeof(std::size_t) - (1U << sizeof...(I))));
 }
 
 template<std::size_t NDim, std::size_t Dim>
-- 
2.43.0


From dd07076589c7c2b54e050c4163296a271e97d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 17/17] fix: join gives the joined dimension a length and
 removes both of the original dimensions

join_t answered has_length/length queries only through the structure inside,
so the length of a joined dimension with a name of its own was not available,
and its signature still had the inner one of the two joined dimensions: a
joined structure could not be traversed.
---
 include/noarr/structures/structs/views.hpp | 25 ++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..e2247c2 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -598,9 +598,15 @@ private:
 	static_assert(std::is_same_v<typename dim_a::arg_length, typename dim_b::arg_length>,
 	              "Joined dimensions must have the same length");
 
+	// removes the outer of the two joined dimensions, and then the inner one from what remains
+	template<class Original>
+	struct dim_removal {
+		using type = typename Original::ret_sig::template replace<sig_remove_first, DimA, DimB>;
+	};
+
 public:
-	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	using signature =
+		function_sig<Dim, typename dim_a::arg_length, typename T::signature::template replace<dim_removal, DimA, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
@@ -660,14 +666,25 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			return sub_structure_t::template has_length<DimA, sub_state_t<State>>();
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			// This dimension is consumed by join
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0

