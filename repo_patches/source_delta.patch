From 0e363de213c31227569e3ad35830c156a076c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 01/42] fix: CCH construction with an empty log function threw
 std::bad_function_call

The constructor tests log_message everywhere else before calling it, but not
when reporting that upward arcs are not filtered.
---
 src/customizable_contraction_hierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..95721ce 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -449,9 +449,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	}
 
 	// filter up graph
-	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
-	else
+	if(!filter_always_inf_arcs){
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}else
 	{
 		if(log_message){
 			log_message("Start filtering upward arcs");
-- 
2.43.0


From 2dfe1f2dd78f2ca4d97cf5e4dd1eb4d540af7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 02/42] fix: CCH of a graph without nodes divided by zero

The search space statistics that are only logged divide by the node count.
---
 src/customizable_contraction_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 95721ce..963b7ff 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -416,7 +416,7 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 		log_message("Finished computing elimination tree, needed "+std::to_string(timer)+"musec");
 	}
 
-	if(log_message){
+	if(log_message && node_count != 0){
 		std::vector<unsigned>
 			nodes_in_search_space(node_count, 0),
 			arcs_in_search_space(node_count, 0);
-- 
2.43.0


From 197fbeb68e4f813ccc969a02bbbe03fc8db0e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:53 +0000
Subject: [PATCH 03/42] fix: copies of a CCH referred to the bit vectors of the
 original

The ID mappers hold pointers into the bit vectors of the same object. A copied
CCH used those of the original, also after the original was destroyed.
---
 .../customizable_contraction_hierarchy.h      |  8 +++++++
 src/customizable_contraction_hierarchy.cpp    | 24 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..384bf39 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -17,6 +17,14 @@ class ContractionHierarchy;
 struct CustomizableContractionHierarchy{
 	CustomizableContractionHierarchy(){}
 
+	// The ID mappers point into the bit vectors of the same object and must therefore not be copied memberwise.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy& operator=(const CustomizableContractionHierarchy&o){
+		return *this = CustomizableContractionHierarchy(o);
+	}
+	CustomizableContractionHierarchy& operator=(CustomizableContractionHierarchy&&) = default;
+
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
 	unsigned node_count()const{
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 963b7ff..cbaeb90 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -193,6 +193,30 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&o):
+	order(o.order),
+	rank(o.rank),
+	elimination_tree_parent(o.elimination_tree_parent),
+	up_first_out(o.up_first_out),
+	up_head(o.up_head),
+	up_tail(o.up_tail),
+	down_first_out(o.down_first_out),
+	down_head(o.down_head),
+	down_to_up(o.down_to_up),
+	input_arc_to_cch_arc(o.input_arc_to_cch_arc),
+	is_input_arc_upward(o.is_input_arc_upward),
+	does_cch_arc_have_input_arc(o.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(o.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(o.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(o.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(o.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(o.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(o.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(o.extra_backward_input_arc_of_cch){
+}
+
 CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::vector<unsigned>arg_order,
 	std::vector<unsigned>input_tail,
-- 
2.43.0


From cc6292f835bf7556262c99610c2b9bac658cd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 04/42] fix: apply_permutation_to_possibly_invalid_elements_of
 read out of bounds for invalid ids

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From cf3e570fbe8c9b538209ecb1d0c8090d2c9ad909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 05/42] fix: are_all_set and resize of bit vectors whose size
 is a multiple of 512

---
 src/bit_vector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..8b8f723 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -116,6 +116,8 @@ namespace {
 		v8_uint64_t u = {0};
 
 		uint64_t x = size % 512;
+		if(x == 0)
+			return ~u; // the last block is completely used
 		uint8_t i = 0;
 		while(x >= 64){
 			u[i++] = ~0ull;
@@ -314,7 +316,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
-		if(new_size < size_) {
+		if(new_size <= size_) {
 			resize(new_size, uninitialized);
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
 			if(value == false){
-- 
2.43.0


From 3158efcd2e19b7f8b0df5be434b7b29840dd5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 06/42] fix: resizing a copy of an empty bit vector wrote
 before its buffer

---
 src/bit_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 8b8f723..127235f 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -312,7 +312,7 @@ void BitVector::resize(uint64_t new_size, BitVector::Uninitialized){
 }
 
 void BitVector::resize(uint64_t new_size, bool value){
-	if(data_ == nullptr){
+	if(size_ == 0){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
-- 
2.43.0


From 0d6115921b2cc81060515be2f56a92cccdee7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 07/42] fix: convert_arc_path_to_node_path left an arc id as
 second node

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From 852f49c5a69672bf920491fcf7333e9a2a756ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:16 +0000
Subject: [PATCH 08/42] fix: Dijkstra::reset compared node counts through a
 graph that may have changed or be gone

---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..585f969 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From 151fcaea7dafb7699519bb47a909bcb18a306e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:23 +0000
Subject: [PATCH 09/42] fix: decomposing a graph fragment without nodes read
 and wrote out of bounds

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..9d196a3 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -615,6 +615,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 	unsigned node_count = fragment.node_count();
 	unsigned arc_count = fragment.arc_count();
 
+	if(node_count == 0)
+		return std::vector<GraphFragment>();
+
 	unsigned component_count = 0;
 	std::vector<unsigned>component(node_count, invalid_id);
 	{
-- 
2.43.0


From 8a8b09a8d7c7460a99bde04ae47a46c657f25a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 10/42] fix: pinning more nodes than the graph has wrote past
 the end of the list buffer

---
 src/contraction_hierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..7941d38 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1871,6 +1871,10 @@ namespace{
 	){
 		target_count = external_target_list.size();
 
+		// The list may contain nodes several times and can therefore be longer than the number of nodes
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
+
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
 			t = external_node_to_internal_node[t];
-- 
2.43.0


From b3a3da26a01aa966c6b9368a53e375c31128c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 11/42] fix: the file size expected by
 ContractionHierarchy::read was computed modulo 2^32

---
 src/contraction_hierarchy.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 7941d38..888d877 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1369,23 +1369,26 @@ namespace{
 ContractionHierarchy ContractionHierarchy::read(std::function<void(char*, unsigned long long)>in, unsigned long long file_size){
 	CHFileHeader header = read_value<CHFileHeader>(in);
 	check_header(header);
+	const unsigned long long node_count = header.node_count;
+	const unsigned long long forward_arc_count = header.forward_arc_count;
+	const unsigned long long backward_arc_count = header.backward_arc_count;
 	unsigned long long expected_file_size = (
 		  sizeof(CHFileHeader)
 		+ sizeof(unsigned)*(
-			header.node_count
+			node_count
 			+ (
-				header.node_count+1 +
-				4*header.forward_arc_count
+				node_count+1 +
+				4*forward_arc_count
 
 			)
 			+ (
-				header.node_count+1 +
-				4*header.backward_arc_count
+				node_count+1 +
+				4*backward_arc_count
 
 			)
 		)
-		+ ((header.backward_arc_count+511)/512) * 64
-		+ ((header.forward_arc_count+511)/512) * 64
+		+ ((backward_arc_count+511)/512) * 64
+		+ ((forward_arc_count+511)/512) * 64
 	);
 	if(expected_file_size != file_size)
 		throw std::runtime_error("CH file has a different size than specified in the header. This file is corrupt.");
-- 
2.43.0


From c219af382bc28cf651c11291224078062cd7dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 12/42] fix: varints that do not fit into 64 bit were decoded
 to truncated or undefined values

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 6d310ec58691324f4d0d0116fce9466ae0372579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 13/42] fix: TagMap::clear kept the entries for iteration, size
 and empty

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From 5bc83cada8a68d1f9eead8dc1dc7d3f62ad3bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:18 +0000
Subject: [PATCH 14/42] fix: tag maps with more than 65536 tags wrote out of
 bounds

---
 include/routingkit/tag_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2f1acc3..2f12e03 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -52,8 +52,8 @@ public:
 
 	void clear(){
 		for(auto x:hash_element_list){
-			entry_begin[x>>16] = 0;
-			entry_end[x>>16] = 0;
+			entry_begin[x>>32] = 0;
+			entry_end[x>>32] = 0;
 		}
 		hash_element_list.clear();
 		entry.clear();
@@ -66,15 +66,15 @@ public:
 
 		hash_element_list.resize(key_value_count);
 		for(unsigned i=0; i<key_value_count; ++i)
-			hash_element_list[i] = (compute_hash(get_key(i))<<16) | i;
+			hash_element_list[i] = (static_cast<unsigned long long>(compute_hash(get_key(i)))<<32) | i;
 		
 		std::sort(hash_element_list.begin(), hash_element_list.end());
 
 		entry.resize(key_value_count);
 		unsigned prev_hash = hash_count;
 		for(unsigned i=0; i<key_value_count; ++i){
-			unsigned hash = hash_element_list[i] >> 16;
-			unsigned j = hash_element_list[i] & 0xFFFFu;
+			unsigned hash = hash_element_list[i] >> 32;
+			unsigned j = hash_element_list[i] & 0xFFFFFFFFu;
 			entry[i].key = get_key(j);
 			entry[i].value = get_value(j);
 
@@ -118,7 +118,7 @@ public:
 	}
 
 private:
-	std::vector<unsigned>hash_element_list;
+	std::vector<unsigned long long>hash_element_list;
 	std::vector<Entry>entry;
 	std::vector<unsigned>entry_begin, entry_end;
 };
-- 
2.43.0


From 863b718e5a5191d8224a9b52a66fdf18d0618c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:04 +0000
Subject: [PATCH 15/42] fix: report string vector files that can not be opened
 for writing

---
 src/vector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..2dc320d 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,6 +5,8 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
-- 
2.43.0


From 3b4184191271208c6d8c32574b0e7797ace5d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:41 +0000
Subject: [PATCH 16/42] fix: check bit vector file header without integer
 overflow and reject truncated headers

---
 src/vector_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 2dc320d..217716d 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -55,7 +55,7 @@ BitVector load_bit_vector(const std::string&file_name){
 	
 	uint64_t size;
 	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(!in || size/512 + (size%512 != 0) != (file_size-8)/64 || (file_size-8)%64 != 0)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
-- 
2.43.0


From 9ad3ab92bdbf400cd07ac7f8f0fdbeb7ed36d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:03 +0000
Subject: [PATCH 17/42] fix: hold the lock when the asynchronous reader records
 an exception of its source

---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From 61960d9b668ef498be6b52ab097fc06657ab2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:57 +0000
Subject: [PATCH 18/42] fix: close car ways with an unknown oneway value, as
 the log message says

---
 src/osm_profile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm_profile.cpp b/src/osm_profile.cpp
index 121cb4f..02ee8e4 100644
--- a/src/osm_profile.cpp
+++ b/src/osm_profile.cpp
@@ -281,6 +281,7 @@ OSMWayDirectionCategory get_osm_car_direction_category(uint64_t osm_way_id, cons
 		} else {
 			if(log_message)
 				log_message("Warning: OSM way "+std::to_string(osm_way_id)+" has unknown oneway tag value \""+oneway+"\" for \"oneway\". Way is closed.");
+			return OSMWayDirectionCategory::closed;
 		}
 	} else if(junction != nullptr && str_eq(junction, "roundabout")) {
 		return OSMWayDirectionCategory::only_open_forwards;
-- 
2.43.0


From 65830a63080799a9b3264068b903353c2f8108d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 19/42] fix: geo_dist returned NaN for some pairs of (nearly)
 identical points

---
 include/routingkit/geo_dist.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..d036ed0 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,13 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+
+	// Rounding errors can move the value slightly out of the domain of acos.
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
+
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 11c766026ab59099156663a5a4e0b7d481f211a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 20/42] fix: travel times of arcs longer than 238 km overflowed

---
 src/osm_simple.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..c0613eb 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -1,6 +1,7 @@
 #include <routingkit/osm_graph_builder.h>
 #include <routingkit/osm_profile.h>
 #include <routingkit/osm_simple.h>
+#include <routingkit/constants.h>
 
 #include <vector>
 #include <stdint.h>
@@ -51,9 +52,13 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		uint64_t travel_time = ret.travel_time[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		if(travel_time > inf_weight)
+			travel_time = inf_weight;
+		ret.travel_time[a] = travel_time;
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From 6c629e9b3f22c50b5e9fc2448527cceadd997179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 21/42] fix: the simple OSM loaders ignored that the caller
 knows the file to be ordered

---
 src/osm_simple.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index c0613eb..c833ef5 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -38,7 +38,8 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 		[&](uint64_t osm_relation_id, const std::vector<OSMRelationMember>&member_list, const TagMap&tags, std::function<void(OSMTurnRestriction)>on_new_restriction){
 			return decode_osm_car_turn_restrictions(osm_relation_id, member_list, tags, on_new_restriction, log_message);
 		},
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	mapping = OSMRoutingIDMapping(); // release memory
@@ -91,7 +92,8 @@ SimpleOSMPedestrianRoutingGraph simple_load_osm_pedestrian_routing_graph_from_pb
 			return OSMWayDirectionCategory::open_in_both;
 		},
 		nullptr,
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	mapping = OSMRoutingIDMapping(); // release memory
@@ -135,7 +137,8 @@ SimpleOSMBicycleRoutingGraph simple_load_osm_bicycle_routing_graph_from_pbf(
 			return get_osm_bicycle_direction_category(osm_way_id, way_tags, log_message);
 		},
 		nullptr,
-		log_message
+		log_message,
+		file_is_ordered_even_though_file_header_says_that_it_is_unordered
 	);
 
 	unsigned arc_count = routing_graph.head.size();
-- 
2.43.0


From a8e4e5f86b51830e819f2b15fa231edf28351cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 22/42] fix: a via node was considered ambiguous if the to-way
 continues in both directions

---
 src/osm_graph_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..096ea61 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,7 +523,7 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
+								if(via_node != invalid_id && via_node != tail[arc]){
 									second_via_node = tail[arc];
 								} else {
 									via_node = tail[arc];
-- 
2.43.0


From 81b80f0ea2fdb134d4a6e9dfb51a2869ba639aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 23/42] fix: reject string ids one past the end of the string
 table

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..144159e 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -365,13 +365,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -438,13 +438,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -508,13 +508,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -588,13 +588,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From 8dfc9a84bd863989717463a213fa1968417f94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 24/42] fix: apply the position offsets of a block once and to
 the right coordinate

---
 src/osm_decoder.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 144159e..2cf78e0 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -285,9 +285,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = num; // int64, not zigzag encoded
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = num; // int64, not zigzag encoded
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -315,8 +315,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -333,9 +333,9 @@ namespace {
 						if(key_id == 1)
 							osm_node_id = num;
 						else if(key_id == 19)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 20)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -418,11 +418,11 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				double latitude = primblock_lat_offset, longitude = primblock_lon_offset;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From adabb7374c92ae46653abdb8c9c49d39f38916b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 25/42] fix: decode id and position of nodes that are not
 densely encoded

---
 src/osm_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 2cf78e0..8354fd2 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -331,10 +331,10 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
 							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
+						else if(key_id == 9)
 							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
-- 
2.43.0


From fee6f6f044677cc9b28c4c522e862725b4720ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 26/42] fix: compare the features of the file header completely
 and within bounds

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 8354fd2..b1f5812 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -146,10 +146,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0


From 878d585d32eb24ebdd294d1a6ebb1716dd4c9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 27/42] fix: reject relations with more member roles or types
 than members

---
 src/osm_decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b1f5812..c012c62 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -622,6 +622,10 @@ namespace {
 						throw std::runtime_error("PBF error: Unknown relation type.");
 					member_list.push_back({member_type, member_id, role});
 				}
+				if(member_role_begin != member_role_end)
+					throw std::runtime_error("PBF error: relation member role array has a different length than the member ID array.");
+				if(member_type_begin != member_type_end)
+					throw std::runtime_error("PBF error: relation member type array has a different length than the member ID array.");
 				relation_callback(osm_relation_id, member_list, tag_map);
 			};
 
-- 
2.43.0


From ac2267a7f7f67c579d507c3c9cc48ce7135b971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 28/42] fix: accept an empty tag array of densely encoded nodes

---
 src/osm_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index c012c62..a34a556 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -418,12 +418,13 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
+				const bool has_tags = key_value_pairs_begin != key_value_pairs_end;
 				double latitude = primblock_lat_offset, longitude = primblock_lon_offset;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
 					latitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
 					longitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
-					if(key_value_pairs_begin != nullptr){
+					if(has_tags){
 						key_list.clear();
 						value_list.clear();
 						for(;;){
-- 
2.43.0


From a963f08c17de78ddb9360ab7a8648143b024fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:13 +0000
Subject: [PATCH 29/42] fix: report PBF files that end within a block header
 size or a block of an unknown type

---
 src/osm_decoder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index a34a556..e7e7ee4 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -93,9 +93,11 @@ namespace{
 
 				for(;;){
 					char*p = reader.read(4);
-					if(p == nullptr)
+					if(p == nullptr){
+						if(reader.read(1) != nullptr)
+							throw std::runtime_error("PBF error: file ends within the size of a block header");
 						return 0;
-
+					}
 
 					uint32_t header_size = ntohl(unaligned_load<uint32_t>(p));
 
@@ -159,7 +161,7 @@ namespace{
 						else
 							status = is_header_info_available_bit | was_header_read_bit;
 					} else {
-						reader.read(data_size);
+						reader.read_or_throw(data_size);
 						continue;
 					}
 				}
-- 
2.43.0


From 1bbe3028b5b5537ff4913ce32c08aa51e58330b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:13 +0000
Subject: [PATCH 30/42] fix: ordered_read_osm_pbf waited for ever if the file
 has no blob or is corrupt, and raced with the reading thread

---
 src/osm_decoder.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index e7e7ee4..4ddfbab 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -77,6 +77,12 @@ namespace{
 			reader(data_source, 64<<20){
 		}
 
+		OsmPBFDecompressor&operator=(OsmPBFDecompressor&&o){
+			status = o.get_status();
+			reader = std::move(o.reader);
+			return *this;
+		}
+
 		unsigned long long minimum_read_size() const {
 			return (64 << 20);
 		}
@@ -91,6 +97,15 @@ namespace{
 
 				const char*blob_begin, *blob_end;
 
+				// No matter whether a blob or the end of the file was reached or an error occurred: No header will follow.
+				struct SetHeaderInfoAvailable{
+					std::atomic<uint64_t>&status;
+					~SetHeaderInfoAvailable(){
+						status |= is_header_info_available_bit;
+					}
+				};
+				SetHeaderInfoAvailable set_header_info_available{status};
+
 				for(;;){
 					char*p = reader.read(4);
 					if(p == nullptr){
@@ -240,7 +255,7 @@ namespace{
 			};
 		}
 	private:
-		uint64_t status;
+		std::atomic<uint64_t> status; // written by the reading thread, read by ordered_read_osm_pbf
 		BufferedAsynchronousReader reader;
 	};
 }
-- 
2.43.0


From 2cd4cc51977882ad3848d3ae627c44afe589b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:40 +0000
Subject: [PATCH 31/42] fix: GeoPositionToNode sorted points near the antipode
 of a pivot by distances that were off by kilometers

---
 src/geo_position_to_node.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..8074970 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -47,12 +47,13 @@ namespace{
 
 			// Faster more complex vectorized code
 			{
-				const float pi = 3.14159265359;
-				const float R = 6371000.785; // earth radius in meter
-				const float inv_180 = 1.0 / 180;
+				// Single precision is not enough here: for points near the antipode of the pivot 1-a is tiny and the distance would be off by kilometers.
+				const double pi = 3.14159265359;
+				const double R = 6371000.785; // earth radius in meter
+				const double inv_180 = 1.0 / 180;
 
-				float a_lat = d[mid].position.latitude;
-				float a_lon = d[mid].position.longitude;
+				double a_lat = d[mid].position.latitude;
+				double a_lon = d[mid].position.longitude;
 
 				a_lat *= inv_180;
 				a_lat *= pi;
@@ -62,9 +63,9 @@ namespace{
 				const unsigned vector_width = 16;
 				for(unsigned i=mid; i<end; i+=vector_width){
 
-					float b_lat[vector_width];
-					float b_lon[vector_width];
-					float a_[vector_width];
+					double b_lat[vector_width];
+					double b_lon[vector_width];
+					double a_[vector_width];
 
 					unsigned element_count = vector_width;
 					if(end - i < element_count)
@@ -89,16 +90,17 @@ namespace{
 						b_lon[j] *= inv_180;
 						b_lon[j] *= pi;
 
-						float dlat = b_lat[j] - a_lat;
-						float dlon = b_lon[j] - a_lon;
+						double dlat = b_lat[j] - a_lat;
+						double dlon = b_lon[j] - a_lon;
 
-						a_[j] = sinf(dlat*0.5) * sinf(dlat*0.5) + sinf(dlon*0.5) * sinf(dlon*0.5) * cosf(a_lat) * cosf(b_lat[j]);
+						a_[j] = sin(dlat*0.5) * sin(dlat*0.5) + sin(dlon*0.5) * sin(dlon*0.5) * cos(a_lat) * cos(b_lat[j]);
 					}
 
 					for(unsigned j=0; j<element_count; ++j){
-						// GCC5 does not have vectorized versions of atan2f nor sqrtf
+						// GCC5 does not have vectorized versions of atan2 nor sqrt
 						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
-						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
+						// Rounding errors can move a_ slightly above 1.
+						double c = 2 * atan2(sqrt(a_[j]), sqrt(std::max(0.0, 1-a_[j])));
 						d[i+j].distance_to_pivot = R * c;
 					}
 				}
-- 
2.43.0


From a68ea83d72da150b68841e81b4b1a06d948faad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:46 +0000
Subject: [PATCH 32/42] fix: FileDataSource::size treated a successful fstat as
 failure

---
 src/file_data_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..5b6a351 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -73,7 +73,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf) == -1){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
-- 
2.43.0


From 6a1e070479b86efb62a6377fc3d36af908c98d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 33/42] fix: move assignment of FileDataSource did not close
 the file that it replaces

---
 src/file_data_source.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 5b6a351..cfa2e2b 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From 1ef39619a34dee084afd188cf74df1ddafe2d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:09 +0000
Subject: [PATCH 34/42] fix: graph validity checks read the first element of
 empty vectors

---
 src/verify.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verify.cpp b/src/verify.cpp
index 413b337..39c0367 100644
--- a/src/verify.cpp
+++ b/src/verify.cpp
@@ -6,6 +6,8 @@
 namespace RoutingKit{
 
 void check_if_graph_is_valid(const std::vector<unsigned>&first_out, const std::vector<unsigned>&head){
+	if(first_out.empty())
+		throw std::runtime_error("first_out must not be empty");
 	if(first_out.front() != 0)
 		throw std::runtime_error("first_out[0] must be 0");
 	if(first_out.back() != head.size())
@@ -25,6 +27,8 @@ void check_if_arc_ipp_are_valid(
 	unsigned period,
 	const std::vector<unsigned>&first_ipp_of_arc, const std::vector<unsigned>&ipp_departure_time, const std::vector<unsigned>&ipp_travel_time
 ){
+	if(first_ipp_of_arc.empty())
+		throw std::runtime_error("first_ipp_of_arc must not be empty");
 	if(first_ipp_of_arc.front() != 0)
 		throw std::runtime_error("first_ipp_of_arc[0] must be 0");
 	if(first_ipp_of_arc.back() != ipp_departure_time.size())
-- 
2.43.0


From dc9abbdbe1c3a2f3dcbc9662647012179fb6fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 35/42] fix: DIMACS converters used uninitialized counts if the
 file has no header

---
 src/convert_road_dimacs_coordinates.cpp | 2 ++
 src/convert_road_dimacs_graph.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..d079401 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -88,6 +88,8 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw runtime_error("The dimacs file has no header.");
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..16834a6 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -80,6 +80,8 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The dimacs file has no header.");
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
-- 
2.43.0


From 934af1c07da9088dd367c58cfff4f286dcc976f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 36/42] fix: decode_vector printed 8-bit integers as characters

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..1a2f639 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From 1b9966a31279797f84b20bbb1e41a7e9e23d23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 37/42] fix: encode_vector turned an escaped backslash followed
 by n into a newline

---
 src/encode_vector.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..90114db 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,24 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+string unescape(const string&s){
+	string r;
+	for(size_t i=0; i<s.length(); ++i){
+		if(s[i] == '\\' && i+1 < s.length() && (s[i+1] == '\\' || s[i+1] == 'n')){
+			++i;
+			r.push_back(s[i] == 'n' ? '\n' : '\\');
+		}else{
+			r.push_back(s[i]);
+		}
+	}
+	return r;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From 780eb1eaa9bbd64b51778a55d37aded35621f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:26 +0000
Subject: [PATCH 38/42] fix: query programs divided by zero if there are no
 queries

---
 src/run_contraction_hierarchy_query.cpp | 3 ++-
 src/run_dijkstra.cpp                    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..c010dd1 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -67,7 +67,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..286a9eb 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -106,7 +106,8 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		if(query_count != 0)
+			cout << "avg running time : " << time_sum/query_count << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
-- 
2.43.0


From 9524df36e24c2fae3fef5b23f025d9051a0047c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:26 +0000
Subject: [PATCH 39/42] fix: run_dijkstra crashed on graphs without arcs

---
 src/run_dijkstra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 286a9eb..83ebb88 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -56,7 +56,7 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
+		if(!head.empty() && max_element_of(head) >= node_count)
 			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
-- 
2.43.0


From 1a7c8a51a289e16fae312fe149e4699c72b96abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:26 +0000
Subject: [PATCH 40/42] fix: query programs read out of bounds for queries that
 do not fit the graph

---
 src/run_contraction_hierarchy_query.cpp | 5 +++++
 src/run_dijkstra.cpp                    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index c010dd1..71c4bb5 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,11 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+		if(!source.empty() && (max_element_of(source) >= ch.node_count() || max_element_of(target) >= ch.node_count()))
+			throw runtime_error("The source and target vectors must only contain nodes of the graph.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 83ebb88..b9a1ae2 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -72,6 +72,8 @@ int main(int argc, char*argv[]){
 
 		if(source.size() != target.size())
 			throw runtime_error("The source and target vectors must be of the same length.");
+		if(!source.empty() && (max_element_of(source) >= node_count || max_element_of(target) >= node_count))
+			throw runtime_error("The source and target vectors must only contain nodes of the graph.");
 			
 
 		unsigned query_count = source.size();
-- 
2.43.0


From 1a3374df52d3008617c5279b6277d377031bcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:04 +0000
Subject: [PATCH 41/42] fix: vector filters moved elements onto themselves,
 which empties strings and vectors

---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..4a777aa 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(out != in)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(out != in)
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From b431e6c8fc1f4bf21d4796027042f46dee3abed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:00 +0000
Subject: [PATCH 42/42] fix: check_contraction_hierarchy_for_errors wrote out
 of bounds if the order is not a permutation

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 888d877..781c27a 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1189,6 +1189,8 @@ ContractionHierarchy ContractionHierarchy::build_given_order(
 void check_contraction_hierarchy_for_errors(const ContractionHierarchy&ch){
 	unsigned node_count = ch.rank.size();
 
+	if(!is_permutation(ch.order))
+		throw std::runtime_error("CH is invalid because: ch.order is not a permutation");
 	if(ch.rank != invert_permutation(ch.order))
 		throw std::runtime_error("CH is invalid because: ch.rank != invert_permutation(ch.order)");
 
-- 
2.43.0

