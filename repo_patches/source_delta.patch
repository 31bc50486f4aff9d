From 7c540c43236b051986b27466e07f91239f1ff0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 01/63] fix: keep the reservoir index inside the sample when
 the random function returns 1

---
 src/reservoir_sampling.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..619ec62 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -65,8 +65,12 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				//The random function may return 1, which is not a slot of the sample.
+				if(idx >= static_cast<int>(sample_size))
+					idx = static_cast<int>(sample_size) - 1;
+			}
 		}
 		counter += 1;
 		return idx;
@@ -113,10 +117,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		if(counter >= sample_size || remove_element < filling_ratio){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			//The random function may return 1, which is not a filled slot.
+			if(index >= static_cast<int>(counter))
+				index = static_cast<int>(counter) - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From 304dac583bbc0f6cdf4ae6dc2675992773186267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 02/63] fix: move elements along the chain instead of
 overwriting its nodes when shifting

---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..0312984 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From a3441df175e43b050831bdbd42d10a0881c79916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/63] fix: discard elements with exactly the obsolete
 timestamp, as documented

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 0312984..d6e539f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -170,7 +170,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 4a5fcf50db1e1ebe99600d03fc629509eb2ff453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 04/63] fix: store eight bits per byte in the Bloom filter so
 that its size is in bits

---
 src/bloom_filter.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/bloom_filter.hpp b/src/bloom_filter.hpp
index 081726c..66793f0 100644
--- a/src/bloom_filter.hpp
+++ b/src/bloom_filter.hpp
@@ -1,8 +1,5 @@
 #include <cassert>
 
-//Typedef to simplify the use of the hash function given by the user.
-#define BYTE_SIZE (sizeof(unsigned char))
-
 /**
  * The BloomFilter class implement the Bloom filter algorithm.
  * - element_type: the type of element to take as input.
@@ -11,10 +8,12 @@
  */
 template<class element_type, int bit_size, int hash_count>
 class BloomFilter{
+	//Typedef to simplify the use of the hash function given by the user.
 	typedef unsigned int (*hash_function_t)(element_type*);
-	unsigned char bits[bit_size];
+	static int const byte_size = 8; //Number of bits stored in one byte.
+	static int const real_size = (bit_size + byte_size - 1) / byte_size; //Number of bytes that hold the bits.
+	unsigned char bits[real_size];
 	hash_function_t hashs[hash_count];
-	unsigned int const real_size = ((bit_size - (bit_size%BYTE_SIZE)) / BYTE_SIZE) + ((bit_size%BYTE_SIZE) > 0);
 
 	public:
 	/**
@@ -82,12 +81,14 @@ class BloomFilter{
 
 	/*
 	 * Set the filter with the bit array given in parameter
-	 * @param new_bits the new array of bit.
+	 * @param new_bits the new array of bit: bit_size entries, the lowest bit of an entry being the value of that bit.
 	 */
 	void set(unsigned char* new_bits){
 		assert(new_bits != nullptr);
-		for(int i = 0; i < real_size; ++i)
-			bits[i] = new_bits[i];
+		clear();
+		for(int i = 0; i < bit_size; ++i)
+			if((new_bits[i] & 1) != 0)
+				set_bit_to_one(i);
 	}
 
 	private:
@@ -97,8 +98,8 @@ class BloomFilter{
 	 */
 	void set_bit_to_one(int const index){
 		assert(index >= 0 && index < bit_size);
-		unsigned int const mod = index % BYTE_SIZE;
-		unsigned int const real_index = (index - mod) / BYTE_SIZE;
+		unsigned int const mod = index % byte_size;
+		unsigned int const real_index = (index - mod) / byte_size;
 		bits[real_index] = bits[real_index] | (1 << mod);
 	}
 	/*
@@ -107,8 +108,8 @@ class BloomFilter{
 	 */
 	int get_bit(int const index) const{
 		assert(index >= 0 && index < bit_size);
-		unsigned int const mod = index % BYTE_SIZE;
-		unsigned int const real_index = (index - mod) / BYTE_SIZE;
+		unsigned int const mod = index % byte_size;
+		unsigned int const real_index = (index - mod) / byte_size;
 		return ((bits[real_index] & (1 << mod)) != 0);
 	}
 };
-- 
2.43.0


From 0baf867157062243aa63d60f8c79836b40316b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 05/63] fix: store eight bits per byte in the cuckoo filter

---
 src/cuckoo_filter.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..078de10 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -4,7 +4,6 @@
 
 #include <utility>
 
-#define BYTE_SIZE (sizeof(unsigned char))
 /**
  * CuckooFilter class implements the Cuckoo Filter algorithm.
  * Templates:
@@ -24,8 +23,9 @@ class CuckooFilter{
 	//Typedef to simplify the use of the hash function given by the user.
 	typedef unsigned char fingerprint_t;
 	unsigned int const element_size = sizeof(element_type);
+	static unsigned int const byte_size = 8; //Number of bits stored in one byte.
 	static unsigned int const bit_size = bucket_count*bucket_size*entry_size; //Total number of bit required for the bucket.
-	static unsigned int const total_size = (bit_size + (BYTE_SIZE - (bit_size%BYTE_SIZE))) / BYTE_SIZE;
+	static unsigned int const total_size = (bit_size + byte_size - 1) / byte_size;
 	unsigned char filter[total_size] = {0};
 
 	/* 
@@ -33,8 +33,8 @@ class CuckooFilter{
 	 * @param bit_index the index of the bit to access in the entire filter.
 	 */
 	unsigned char get_bit(unsigned int const bit_index) const{
-		unsigned int const mod = bit_index % BYTE_SIZE;
-		unsigned int const byte_index = (bit_index - mod) / BYTE_SIZE;
+		unsigned int const mod = bit_index % byte_size;
+		unsigned int const byte_index = (bit_index - mod) / byte_size;
 		return ((filter[byte_index] & (1 << mod)) != 0);
 	}
 	/* 
@@ -43,8 +43,8 @@ class CuckooFilter{
 	 * @param value the new value of the bit (0 or 1).
 	 */
 	void set_bit(unsigned int const bit_index, unsigned int const value){
-		unsigned int const mod = bit_index % BYTE_SIZE;
-		unsigned int const byte_index = (bit_index - mod) / BYTE_SIZE;
+		unsigned int const mod = bit_index % byte_size;
+		unsigned int const byte_index = (bit_index - mod) / byte_size;
 		if(value == 0)
 			filter[byte_index] = filter[byte_index] & (~(1 << mod));
 		else
@@ -63,11 +63,11 @@ class CuckooFilter{
 		 * so (bucket_index * bucket_size * entry_size) gives the index of the first bit of bucket bucket_index
 		 */
 		unsigned int const bit_index = bucket_index * bucket_size * entry_size + entry_index * entry_size;
-		unsigned int const mod = bit_index % BYTE_SIZE;
-		unsigned int const byte_index = (bit_index - mod) / BYTE_SIZE;
+		unsigned int const mod = bit_index % byte_size;
+		unsigned int const byte_index = (bit_index - mod) / byte_size;
 		unsigned int const last_bit_index = bit_index + entry_size;
-		unsigned int const last_mod = last_bit_index % BYTE_SIZE;
-		unsigned int const last_byte_index = (last_bit_index - last_mod) / BYTE_SIZE;
+		unsigned int const last_mod = last_bit_index % byte_size;
+		unsigned int const last_byte_index = (last_bit_index - last_mod) / byte_size;
 		assert(bit_index >= 0 && bit_index < bucket_count * bucket_size * entry_size);
 		//last_bit_index is the last bit to set plus one, that is why there is the <= on the next assert
 		assert(last_bit_index >= 0 && last_bit_index <= bucket_count * bucket_size * entry_size);
-- 
2.43.0


From fa76a8019aa79befd5c8ab91374746d70845e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 06/63] fix: fill a new or cleared cuckoo filter with
 empty_value

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 078de10..a212ad5 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -240,7 +241,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(int i = 0; i < bucket_count; ++i)
+			for(int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From d99c99d8e0cbfa2dc0f2ad93b3e62127a15526ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 07/63] fix: start a new LTC segment at the time of the
 previous point

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..78bf827 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -120,7 +120,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp;
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From 82cc5be9b91db58955fb97116f16d4c7d94a3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 08/63] fix: define the LTC points before the first segment is
 closed

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 78bf827..29098a6 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -81,7 +81,7 @@ class LTC{
 	/*
 	 * Default constructor.
 	 */
-	LTC(){
+	LTC() : last_transmit_point(), UL(), LL(), new_ul(), new_ll(), to_transmit(){
 	}
 	/**
 	 * Function to access the last data point to transmit.
-- 
2.43.0


From 02ca4065b2c0cb4c0efb5a0f75dc22ce8149fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 09/63] fix: let LTC compile with floating-point elements

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 29098a6..be3d40c 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -52,9 +52,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<decltype(value + epsilon)>(value + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<decltype(value - epsilon)>(value - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 8534deca1ce23e7aad904fc57144bd981a4126c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 10/63] fix: use the same time unit for the LTC slopes and for
 extending the limits

---
 src/ltc.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index be3d40c..a3bc1e0 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -60,20 +60,20 @@ class LTC{
 	 * Compute the need to transmit the compress data point.
 	 */
 	bool need_transmit(void){
-		double old_up_deriva = (double)(UL.value - last_transmit_point.value) / (UL.timestamp - last_transmit_point.timestamp) / time_unit_difference;
-		double old_low_deriva = (double)(LL.value - last_transmit_point.value) / (LL.timestamp - last_transmit_point.timestamp) / time_unit_difference;
-		double new_up_deriva = (double)(new_ul.value - last_transmit_point.value) / (new_ul.timestamp - last_transmit_point.timestamp) / time_unit_difference;
-		double new_low_deriva = (double)(new_ll.value - last_transmit_point.value) / (new_ll.timestamp - last_transmit_point.timestamp) / time_unit_difference;
+		double old_up_deriva = (double)(UL.value - last_transmit_point.value) / ((double)(UL.timestamp - last_transmit_point.timestamp) / time_unit_difference);
+		double old_low_deriva = (double)(LL.value - last_transmit_point.value) / ((double)(LL.timestamp - last_transmit_point.timestamp) / time_unit_difference);
+		double new_up_deriva = (double)(new_ul.value - last_transmit_point.value) / ((double)(new_ul.timestamp - last_transmit_point.timestamp) / time_unit_difference);
+		double new_low_deriva = (double)(new_ll.value - last_transmit_point.value) / ((double)(new_ll.timestamp - last_transmit_point.timestamp) / time_unit_difference);
 
 		if(old_up_deriva < new_low_deriva || old_low_deriva > new_up_deriva)
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (double)(new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (double)(new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 4c64f4f66bf75f555eb3990d2132bf55f994f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 11/63] fix: keep the kappa penalty inside the confusion matrix
 when there is a single label

---
 src/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics.hpp b/src/metrics.hpp
index 78ba46e..812c5dd 100644
--- a/src/metrics.hpp
+++ b/src/metrics.hpp
@@ -89,7 +89,7 @@ class KappaMetrics{
 		return (((kappa() * -1) + 1) / 2);
 	}
 	void increase_error(int const c=1){
-		confusion[0][1] += c;
+		confusion[0][label_count > 1 ? 1 : 0] += c; //With a single label there is no cell for errors.
 		total += c;
 	}
 	void reset(){
-- 
2.43.0


From 03cdd0014abd7fa5dfc230b7002660adb37dc056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 12/63] fix: let several translation units include metrics.hpp

---
 src/metrics.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/metrics.hpp b/src/metrics.hpp
index 812c5dd..cf7583b 100644
--- a/src/metrics.hpp
+++ b/src/metrics.hpp
@@ -103,7 +103,11 @@ class KappaMetrics{
 	}
 };
 class ReservoirSamplingMetrics{
-	static int total_count;
+	//The number of samples is shared by all the instances; a function holds it so that several translation units can include this header.
+	static int& total_count(void){
+		static int count = 0;
+		return count;
+	}
 	int number;
 	public:
 	ReservoirSamplingMetrics(){
@@ -117,18 +121,17 @@ class ReservoirSamplingMetrics{
 	void update(int const true_label, int const prediction){
 	}
 	double score(bool const invert=false, int const sample_size=1) const{
-		if(total_count == number)
-			return static_cast<double>(number - sample_size) / static_cast<double>(total_count);
-		return 1 / static_cast<double>(total_count);
+		if(total_count() == number)
+			return static_cast<double>(number - sample_size) / static_cast<double>(total_count());
+		return 1 / static_cast<double>(total_count());
 	}
 	void increase_error(int const c=1){
 	}
 	void reset(){
-		total_count += 1;
-		number = total_count;
+		total_count() += 1;
+		number = total_count();
 	}
 	bool ratio(void) const{
 		return false;
 	}
 };
-int ReservoirSamplingMetrics::total_count = 0;
-- 
2.43.0


From 1f248b139e873f185047a1c6ae11e0e6a3cab647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 13/63] fix: naive_bayes.hpp uses the exponential of <cmath>
 without including it

---
 src/naive_bayes.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naive_bayes.hpp b/src/naive_bayes.hpp
index 8cb2041..15f6f4d 100644
--- a/src/naive_bayes.hpp
+++ b/src/naive_bayes.hpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 /**
  * NaiveBayes class implements the Naive Bayes classifier.
  * Templates:
@@ -34,7 +36,7 @@ class NaiveBayes{
 			if(stdev > 0){
 				double const diff = value - mean;
 				double const NORMAL_CONSTANT = 2.50663; //square root of 2*M_PI
-				return (1.0 / (NORMAL_CONSTANT * stdev)) * exp(-(diff * diff / (2.0 * stdev * stdev)));
+				return (1.0 / (NORMAL_CONSTANT * stdev)) * std::exp(-(diff * diff / (2.0 * stdev * stdev)));
 			}
 			return (value == mean) ? 1.0 : 0.0;
 		}
-- 
2.43.0


From d56b8b046a5ce3183ed8d26074b1f409277fd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 14/63] fix: backpropagation reads the size of a layer before
 the first one

---
 src/perceptron.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..124a987 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -151,7 +151,6 @@ class MultiLayerPerceptron{
 		 */
 		double backpropagate(double const* expected){
 			int output_base = get_output_base(layer_count-1);
-			int weight_base = get_weight_base(layer_count-1);
 
 			double sum_error_output = 0;
 			//Set the error of the last layer
@@ -165,7 +164,8 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				//The weights between this layer and the next one.
+				int const weight_base = get_weight_base(layer_idx + 1);
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +174,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,7 +183,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From 6d42508184d583d18bfbff46b7c61133f7998390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 15/63] fix: keep the perceptron within its maximal size

---
 src/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 124a987..506a3c8 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -9,7 +9,7 @@
  */
 template<int layer_count, int max_size, class func>
 class MultiLayerPerceptron{
-	static const int total_weight_count = ((max_size + sizeof(double) - max_size%sizeof(double)) / sizeof(double))/2;
+	static const int total_weight_count = max_size / (2*sizeof(double)); //Half of the memory for the weights, half for the outputs.
 	double learning_rate = 0.1;
 	//Contains the weights of the network.
 	double weights[total_weight_count];
-- 
2.43.0


From d74c2af7be62b77ca62f77887ba30d21c3d40066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 16/63] fix: keep the number of active MC-NN clusters in step
 with the clusters removed or recycled

---
 src/mc_nn.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..4da5b34 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,10 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
-		active[new_idx] = true;
-		count_active_cluster += 1;
+		if(active[new_idx] == false){
+			active[new_idx] = true;
+			count_active_cluster += 1;
+		}
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +283,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From d6657fb4277c4c5a7bc3491c48abf4e960fda076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 17/63] fix: an MC-NN cluster being split must not be recycled
 as its own sibling

---
 src/mc_nn.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 4da5b34..ed994a4 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -126,12 +126,14 @@ class MCNN{
 
 	/**
 	 * Returns the micro-cluster with the lowest participation
+	 * @param excluded the index of a micro-cluster that must not be returned (-1 if there is none).
+	 * @return the index of the micro-cluster, or -1 if there is no active cluster other than the excluded one.
 	 */
-	int get_lowest_participation(void){
+	int get_lowest_participation(int const excluded = -1){
 		int lowest = -1;
 		double lowest_value = 101;
 		for(int i = 0; i < max_cluster; ++i){
-			if(active[i] == true){
+			if(active[i] == true && i != excluded){
 				double const perf = clusters[i].performance(timestamp);
 				if(lowest == -1 || perf < lowest_value){
 					lowest_value = perf;
@@ -156,9 +158,11 @@ class MCNN{
 		if(new_idx < 0){
 			//Remove the least performant cluster.
 			if(cleaning_method == 0 || cleaning_method == 2)
-				new_idx = get_lowest_participation();
+				new_idx = get_lowest_participation(cluster_idx);
 			else //There is no more space and the cleaning method does not allow us to remove a cluster here
 				return;
+			if(new_idx < 0) //The cluster to split is the only one
+				return;
 		}
 
 		//Choose the attribute with the greatest variance, then do the split on it
-- 
2.43.0


From b5350cd201568c5f51f840e146aff26bf3b5054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 18/63] fix: MC-NN finds the nearest cluster however far it is

---
 src/mc_nn.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index ed994a4..3969e9e 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -227,7 +227,7 @@ class MCNN{
 		//Otherwise, we have to found it.
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//Only check the distance with the cluster with the same label.
 			if(!active[cluster_idx] || clusters[cluster_idx].label != label)
@@ -235,7 +235,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -243,7 +243,7 @@ class MCNN{
 		nearest_with_class = nearest_cluster;
 
 		//If the distance to the micro-cluster with the same class is the same as an other cluster which was picked, then replace nearest.
-		if(shortest_distance == distance_nearest)
+		if(nearest_with_class >= 0 && shortest_distance == distance_nearest)
 			nearest = nearest_with_class;
 	}
 	/**
@@ -255,7 +255,7 @@ class MCNN{
 	void find_nearest_clusters(feature_type const* features, int& nearest, double* shortest = nullptr) const{
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1;
 		//Loop over the clusters
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//If the cluster is empty, skip it
@@ -265,7 +265,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From b80ef05973aceae66262477fb9a2ec23ffb65292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 19/63] fix: split an MC-NN cluster around its centroid when
 the features are negative integers

---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 3969e9e..3b74dbf 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -179,7 +179,7 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From b19ba70a7f1bbe378b38eefef358623e3830a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 20/63] fix: return the MC-NN performance threshold without
 truncating it

---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 3b74dbf..4e6f4ba 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -398,7 +398,7 @@ class MCNN{
 	 * Getter that return the performance threshold.
 	 * @return The performance threshold.
 	 */
-	unsigned int get_performance_thr(void) const{
+	double get_performance_thr(void) const{
 		return performance_thr;
 	}
 };
-- 
2.43.0


From 26457ddc0c90d37228067b94c572f66a63f786c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 21/63] fix: rounding made the variance of an MC-NN cluster
 negative and its split NaN

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 4e6f4ba..b7524f0 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -175,7 +175,8 @@ class MCNN{
 				split_index = i;
 			}
 		}
-		highest_variance = sqrt_local(highest_variance);
+		//Rounding may bring the variance of (almost) equal values below zero
+		highest_variance = highest_variance > 0 ? sqrt_local(highest_variance) : 0;
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From 790c1f95ccc1b4cc730ce0ae7c17fb1befe307af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 22/63] fix: give every Hoeffding tree leaf its own counters

---
 src/hoeffding_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..b1f114f 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -49,6 +49,7 @@ class HoeffdingTree{
 			// NOTE: in the new operator, we made sure that there was space for the node and its counters.
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
+			tree->buffer_preset = tmp_preset;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 7d9dbe1a63500ef58c3020f05f7e37d80f481d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 23/63] fix: refuse a Hoeffding tree split without touching the
 leaf when the memory is full

---
 src/hoeffding_tree.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index b1f114f..07b2d2f 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -125,11 +125,13 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
-			Node* child_right = new (*tree) Node(*tree);
-			//NOTE: child_left has been created re-using counters and bounds from current node
-			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
+			//Check the space first because creating child_left resets the counters of the current node
+			//NOTE: child_left re-uses the counters of the current node, so only child_right needs new ones
+			if(tree->buffer_offset + 2 * static_cast<int>(sizeof(Node)) > tree->buffer_preset - compute_total_size_counters()) // No more node available
 				return -1;
+			Node* child_right = new (*tree, compute_total_size_counters()) Node(*tree);
+			//NOTE: child_left has been created re-using counters and bounds from current node
+			Node* child_left = new (*tree, 0) Node(*this); 
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -326,10 +328,11 @@ class HoeffdingTree{
 		 * Otherwise, it returns nullptr.
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
+		 * @param size_counters The size of the counters that the new node needs.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree, int const size_counters) noexcept{
 			int const tmp_offset = tree.buffer_offset + size;
-			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
+			int const tmp_preset = tree.buffer_preset - size_counters;
 			if(tmp_offset > tmp_preset)
 				return nullptr;
 			auto ret = tree.buffer+tree.buffer_offset;
@@ -488,7 +491,7 @@ class HoeffdingTree{
 			sum_feature_size += features_size[i];
 		}
 		//This initialize the first node which is set in *buffer*
-		Node* root = new (*this) Node(*this);
+		Node* root = new (*this, Node::compute_total_size_counters(sum_feature_size)) Node(*this);
 		this->delta = delta;
 	}
 	/**
@@ -503,12 +506,14 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //There is no more space, the node remains a leaf
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
+			return true;
 		}
 		return true;
 	}
-- 
2.43.0


From 6aadd4cd1317c0856b91a47623056fbadb654a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 24/63] fix: find the feature of the chosen limit in the
 Hoeffding tree

---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 07b2d2f..b138b51 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -235,11 +235,11 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				int tmp_c = tree->features_size[0]-1; //There is one limit less than there is bins
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1]-1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 142a206300c6c928fd595a286613d38a7fa05918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/63] fix: the Hoeffding tree read the gain of a second limit
 when there is only one

---
 src/hoeffding_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index b138b51..9059487 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -211,7 +211,10 @@ class HoeffdingTree{
 
 			//Look for the two best split.
 			//*best_split* contains indexes.
-			int best_split[2] = {0, 1};
+			int const limit_count = tree->sum_feature_size-feature_count;
+			if(limit_count < 1) //There is nothing to split on
+				return -1;
+			int best_split[2] = {0, limit_count > 1 ? 1 : 0};
 			//The information gain of best_split[0] is always greater than best_split[1]
 			//So we may need to switch it
 			if(info_gain[best_split[0]] < info_gain[best_split[1]]){
@@ -230,7 +233,8 @@ class HoeffdingTree{
 			}
 			//compute Hoeffding bound
 			double const epsilon = 4 * func::log(1/tree->delta) / (2*d_count);
-			double const diff = (info_gain[best_split[0]] - info_gain[best_split[1]]);
+			//With a single limit, the alternative is not to split, which gains nothing
+			double const diff = (info_gain[best_split[0]] - (limit_count > 1 ? info_gain[best_split[1]] : 0));
 			double const square_diff = diff * diff;
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
-- 
2.43.0


From e58a3884c43bd6ff21a9ee3b4f6138a557ad5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 26/63] fix: start the box of a Hoeffding tree node empty so
 that it bounds the data points seen

---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 9059487..9fcd87e 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -52,10 +52,11 @@ class HoeffdingTree{
 			tree->buffer_preset = tmp_preset;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
 			reset_counters();
+			//No data point has been seen yet, so the box is empty
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From bdd3cdb9b368b502ae74cf25135406f9d8d91cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 27/63] fix: the scores of a Hoeffding tree leaf without data
 were NaN

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 9fcd87e..b4a5336 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -113,7 +113,7 @@ class HoeffdingTree{
 			//Compute the probabilities.
 			//NOTE: *l* starts at 0 because if it starts at 1, the first probability won't be computed and stored in the array
 			for(int l = 0; l < label_count; ++l){
-				probabilities[l] = counts[l] / sum;
+				probabilities[l] = sum > 0 ? counts[l] / sum : 0; //A leaf that has seen no data point yet has no score
 				if(probabilities[l] > probabilities[best])
 					best = l;
 			}
-- 
2.43.0


From eb91d081abd4418455aee7b610a70ded9713c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 28/63] fix: count a value equal to a limit on the side where
 the split puts it

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index b4a5336..047af59 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -189,7 +189,7 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){ //Same side as the split would put it
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From 45cfad97514bc8d0bca0920f7c0459b5d0662bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 29/63] fix: a copied Hoeffding tree trained the memory of the
 original

---
 src/hoeffding_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 047af59..30cd1f7 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -499,6 +499,9 @@ class HoeffdingTree{
 		Node* root = new (*this, Node::compute_total_size_counters(sum_feature_size)) Node(*this);
 		this->delta = delta;
 	}
+	//The nodes refer to their tree, so a copy would share its memory with the original
+	HoeffdingTree(HoeffdingTree const&) = delete;
+	HoeffdingTree& operator=(HoeffdingTree const&) = delete;
 	/**
 	 * Train all trees of the forest with a new data point.
 	 * Return false if a tree has failed to be trained.
-- 
2.43.0


From 3877609b27e5e712f0aa4a71c673745031869fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 30/63] fix: an index without probability could be picked from
 a distribution

---
 src/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..ecc2fc3 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,14 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i])
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//NOTE: rounding may leave the last element of *probabilities* slightly below 1, pick the last index with a chance of being picked
+		int index = size - 1;
+		while(index > 0 && probabilities[index] <= probabilities[index-1])
+			--index;
+		return index;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From 9b08c625ecc4824ed8a2d03879ed4e1dfa452e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 31/63] fix: a new Mondrian node left its box and split value
 undefined

---
 src/mondrian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..211ce95 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -42,6 +42,9 @@ class MondrianForest{
 				counters[i] = 0;
 			child_left = child_right = EMPTY_NODE;
 			split_dimension = EMPTY_NODE;
+			split_value = 0;
+			for(int i = 0; i < feature_count; ++i)
+				bound_lower[i] = bound_upper[i] = 0;
 			tau = EMPTY_NODE;
 			parent = EMPTY_NODE;
 		}
-- 
2.43.0


From e92ba6da09a3b9c3dd28f4a7317d436ce9fcc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 32/63] fix: a copied Mondrian node lost its parent

---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 211ce95..dd0c705 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -56,6 +56,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From 2922a3b32edd908dcb8e2d59e68ccf52d09e7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 33/63] fix: a Mondrian tree without a free node for its root
 wrote before the nodes

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index dd0c705..1bdae5c 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -285,6 +285,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //No more node available
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From 6bc369e7f3f009198c428f1dd6160a239290c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 34/63] fix: a Mondrian node was lost when there was no node
 left for its sibling

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 1bdae5c..bc9085b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -220,6 +220,8 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					nodes[new_parent].tau = EMPTY_NODE; //Give the new parent back
+					nodes[new_parent].split_dimension = EMPTY_NODE;
 					update_box = true;
 				}
 			}
-- 
2.43.0


From 4e414fb1c81cc4e19e667ee9365c6855a6ef766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 35/63] fix: training a Mondrian forest returned an undefined
 value

---
 src/mondrian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index bc9085b..aec377e 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -455,7 +455,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From cda790ce41cccf7f3939808c3cdfebab0a7d607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 36/63] fix: the scores of a Mondrian forest prediction were
 not returned

---
 src/mondrian.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index aec377e..e44c696 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -493,6 +493,10 @@ class MondrianForest{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int i = 0; i < label_count; ++i)
+				scores[i] = sum_posterior_mean[i];
 		return best;
 	}
 };
-- 
2.43.0


From eeea71fe627564855abc34d69538620a52cf2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 37/63] fix: training an unbound Mondrian forest returned an
 undefined value

---
 src/mondrian_unbound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From 38c928727c0107df323a02c5cd8f3f0506552188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 38/63] fix: the scores of an unbound Mondrian forest
 prediction were not returned

---
 src/mondrian_unbound.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..ceb3de0 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -494,6 +494,10 @@ class MondrianForestUnbound{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int i = 0; i < label_count; ++i)
+				scores[i] = sum_posterior_mean[i];
 		return best;
 	}
 	~MondrianForestUnbound(){
-- 
2.43.0


From 0c55b68d1c285ba6a9ade66d7555adb811212403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 39/63] fix: rounding could put the sibling of a Mondrian node
 on the side its data point is not routed to

---
 src/mondrian.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index e44c696..e86d149 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -164,7 +164,9 @@ class MondrianForest{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+				split_value = lower_value;
 			int new_parent, new_sibling;
 			//insert new node above the current one
 			new_parent = available_node();
-- 
2.43.0


From bc9b202a1bf2094c93f744b37c49f4c02f6d7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 40/63] fix: rounding could put the sibling of an unbound
 Mondrian node on the side its data point is not routed to

---
 src/mondrian_unbound.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index ceb3de0..30ab319 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -261,7 +261,9 @@ class MondrianForestUnbound{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+				split_value = lower_value;
 			InternalNode* new_parent = new InternalNode();
 			LeafNode* new_sibling = new LeafNode();
 			count_internal_nodes += 1;
-- 
2.43.0


From d6a62366c57f8ed4dea56957a1faad9b96672ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 41/63] fix: a header included twice in a translation unit
 redefined its classes

---
 src/bloom_filter.hpp       | 1 +
 src/chained_reservoir.hpp  | 1 +
 src/cuckoo_filter.hpp      | 1 +
 src/hoeffding_tree.hpp     | 1 +
 src/ltc.hpp                | 1 +
 src/mc_nn.hpp              | 1 +
 src/mondrian.hpp           | 1 +
 src/mondrian_coarse.hpp    | 1 +
 src/mondrian_unbound.hpp   | 1 +
 src/naive_bayes.hpp        | 1 +
 src/perceptron.hpp         | 1 +
 src/reservoir_sampling.hpp | 1 +
 src/utils.hpp              | 1 +
 13 files changed, 13 insertions(+)

diff --git a/src/bloom_filter.hpp b/src/bloom_filter.hpp
index 66793f0..e7eea6c 100644
--- a/src/bloom_filter.hpp
+++ b/src/bloom_filter.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 
 /**
diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index d6e539f..e9e657b 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * A class that implement the reservoir sampling algorithm.
  *
diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index a212ad5..273da5b 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 #include <type_traits>
 #include <cmath>
diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 30cd1f7..7c3535d 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement the Hoeffding Tree algorithm.
  * - feature_type: the type of the feature (int, double, float, short, ...).
diff --git a/src/ltc.hpp b/src/ltc.hpp
index a3bc1e0..f4127e7 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement the Lightweight Temporal Compression (LTC) algorithm.
  * - element_type: the type of element to store. It must be numbers.
diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index b7524f0..b4c648e 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 #include <cmath>
 #include <iostream>
diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index e86d149..0adac5f 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 
 /**
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..20057d6 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 #include "metrics.hpp"
 #include <typeinfo>
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 30ab319..e135777 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 #include <vector>
 
diff --git a/src/naive_bayes.hpp b/src/naive_bayes.hpp
index 15f6f4d..9ef3d78 100644
--- a/src/naive_bayes.hpp
+++ b/src/naive_bayes.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cmath>
 
 /**
diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 506a3c8..1d83c74 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement a Multi-Layers Perceptron object. The network is divided by layers and each layer of perceptron is fully connected to the previous one.
  * - layer_count: the number of layer.
diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index 619ec62..9b56f3a 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement a Reservoir class which mostly act like an array.
  * - element_type: the type of element to store.
diff --git a/src/utils.hpp b/src/utils.hpp
index ecc2fc3..27b4cf6 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -1,3 +1,4 @@
+#pragma once
 class Utils{
 	public:
 	/**
-- 
2.43.0


From 11e8f300e74e291b3ae423abb3b5567d4e3e752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 42/63] fix: chained_reservoir.hpp uses assert and NULL without
 including them

---
 src/chained_reservoir.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index e9e657b..e870594 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cassert>
+#include <cstddef>
 /**
  * A class that implement the reservoir sampling algorithm.
  *
-- 
2.43.0


From 3e04d629f809390ce04cd5bfc8e0dc0d5d874bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 43/63] fix: hoeffding_tree.hpp uses size_t and
 std::numeric_limits without including them

---
 src/hoeffding_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 7c3535d..2f8ad8a 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cstddef>
+#include <limits>
 /**
  * Implement the Hoeffding Tree algorithm.
  * - feature_type: the type of the feature (int, double, float, short, ...).
-- 
2.43.0


From 39a4f825cb628dbb6ac4e3c34c4c97519abf822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 44/63] fix: mondrian_unbound.hpp relied on another header for
 using namespace std

---
 src/mondrian_unbound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index e135777..2ff140f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -208,7 +208,7 @@ class MondrianForestUnbound{
 		}
 	};
 	//The node_id of the roots of each tree
-	vector<MondrianNode*> roots;
+	std::vector<MondrianNode*> roots;
 	//The lifetime parameter
 	double lifetime;
 	//The base measure parameter
-- 
2.43.0


From d85b11d190f64ef307056e9eb70482b86637e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 45/63] fix: the coarse Mondrian forest did not compile with
 features that are not double

---
 src/mondrian_coarse.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 20057d6..0879f13 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1011,8 +1011,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1128,8 +1128,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
 	//Select the bound to choose the split from
-	double lower_value = Utils::min(barycenter[dimension], features[dimension]);
-	double upper_value = Utils::max(barycenter[dimension], features[dimension]);
+	double lower_value = Utils::min(barycenter[dimension], static_cast<double>(features[dimension]));
+	double upper_value = Utils::max(barycenter[dimension], static_cast<double>(features[dimension]));
 
 	//sample the split between [lower_value, upper_value]
 	double const random_value = func::rand_uniform();
@@ -1149,8 +1149,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1512,8 +1512,8 @@ int pass_data_point_down(int const start_id, feature_type const* features, int c
 		Node& node = nodes()[node_id];
 		//Update box size
 		for(int i = 0; i < feature_count; ++i){
-			double const lower = Utils::min(node.bound_lower[i], features[i]);
-			double const upper = Utils::max(node.bound_upper[i], features[i]);
+			double const lower = Utils::min(node.bound_lower[i], static_cast<double>(features[i]));
+			double const upper = Utils::max(node.bound_upper[i], static_cast<double>(features[i]));
 			node.bound_lower[i] = lower;
 			node.bound_upper[i] = upper;
 		}
-- 
2.43.0


From 4593222bec7f889bf98f1ffd8ebba1991b719741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 46/63] fix: printing one tree of the coarse Mondrian forest
 did not compile

---
 src/mondrian_coarse.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0879f13..40f0cfb 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3146,12 +3146,11 @@ void otter(feature_type const* features, int const label){
 		#endif
 	}
 }
-int tree_printy(int const tree_id) const{
+void tree_printy(int const tree_id) const{
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
 
-	bool ret = tree_printy(tree_id, root_id);
-	return ret;
+	tree_printy(tree_id, root_id);
 }
 void node_csv(int const tree_id, int const node_id, int const depth, int const leaf, Node const& node) const{
 	cout << "Narval:" << total_count << "," << tree_id << "," << node_id << "," << depth << ","
-- 
2.43.0


From db8ccfecbcb5c02e1f7dbcf8352bf763f8c1cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 47/63] fix: all coarse Mondrian forests of a program shared
 where they search a free node

---
 src/mondrian_coarse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 40f0cfb..fb1837a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -246,6 +246,8 @@ int node_usage_on_ltd = 0;
 //The number of nodes
 int node_count = 0;
 int node_available = 0;
+//Where the search of a free node starts
+int last_returned_node = 0;
 //The number of trees
 int tree_count = 0;
 int maximum_tree_count = 0;
@@ -278,10 +280,9 @@ TreeBase const* tree_bases() const{
 /**
  *	Return the index of an empty node.
  */
-int available_node(void) const{
+int available_node(void){
 	if(node_available == 0)
 		return -1;
-	static int last_returned_node = 0;
 	for(int i = 0; i < node_count; ++i){
 		int const node_id = (i + last_returned_node) % node_count;
 		if(nodes()[node_id].available()){
-- 
2.43.0


From d44ee3a521c90c894bffb4c86de3e4aba168d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 48/63] fix: coarse Mondrian forests shared an unused static
 flag in train

---
 src/mondrian_coarse.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index fb1837a..d5f5ca7 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2916,11 +2916,6 @@ bool train(feature_type const* features, int const label){
 		scory(features, label);
 	}
 
-	static bool checked = false;
-	if(has_been_full > 1 && !checked){
-		//cout << "Full memory!" << endl;
-		checked = true;
-	}
 	//Fade the count of the average point
 	for(int i = 0; i < feature_count; ++i)
 		sum_features[i] = sum_features[i]*fading_count + features[i];
-- 
2.43.0


From e5e493bce42f7d7110a292b6be656a28686c4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 49/63] fix: copying a node of the coarse Mondrian forest lost
 its parent and scores

---
 src/mondrian_coarse.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d5f5ca7..06a5e2f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -67,7 +67,10 @@ struct MondrianNode{
 		split_value = src.split_value;
 		child_left = src.child_left;
 		child_right = src.child_right;
+		parent = src.parent;
 		tau = src.tau;
+		forced_extend = src.forced_extend;
+		fading_score = src.fading_score;
 		for(int i = 0; i < label_count; ++i)
 			counters[i] = src.counters[i];
 		for(int i = 0; i < feature_count; ++i){
@@ -83,6 +86,8 @@ struct MondrianNode{
 			child_right = node.child_right;
 			parent = node.parent;
 			tau = node.tau;
+			forced_extend = node.forced_extend;
+			fading_score = node.fading_score;
 			for(int i = 0; i < feature_count; ++i){
 				bound_lower[i] = node.bound_lower[i];
 				bound_upper[i] = node.bound_upper[i];
-- 
2.43.0


From 73cee33b4addd0e956853b1e53b18d2e5e40ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 50/63] fix: the coarse Mondrian forest summed up features into
 uninitialised memory

---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 06a5e2f..0ada667 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -262,7 +262,7 @@ double lifetime;
 double base_measure;
 //The discount factor parameter
 double discount_factor;
-double sum_features[feature_count]; //Sum of all data points
+double sum_features[feature_count] = {}; //Sum of all data points
 double count_points = 0; // count of points for the average point
 double fading_count = 1;//fading factor for the average point
 double nodes_fading_f = 0.995; //Fading factor of node
-- 
2.43.0


From d10f96f86a09b4ca0fe7e22c1c3470b2adb010e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 51/63] fix: a reset tree base of the coarse Mondrian forest
 kept an uninitialised size

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0ada667..d104a33 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -216,6 +216,7 @@ struct TreeBase{
 	}
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
+		size = 0;
 		node_count_limit = node_limit;
 		statistics.reset();
 		sum_contribution = 0;
-- 
2.43.0


From fc3109e07f102f716687ac4e8572a9ce3fe6f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 52/63] fix: rounding could put the sibling of a coarse
 Mondrian node on the side its data point is not routed to

---
 src/mondrian_coarse.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d104a33..e352330 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -355,7 +355,9 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -480,7 +482,9 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -605,7 +609,9 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -734,7 +740,9 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -926,7 +934,9 @@ void extend_node(int const node_id, int const tree_id, feature_type const* featu
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //Rounding may reach *upper_value*, which belongs to the right child
+			split_value = lower_value;
 		//insert new node above the current one
 		new_parent_id = available_node();
 		nodes()[new_parent_id].split_dimension = dimension;
-- 
2.43.0


From 8c7ab0324be18ad50631e75d2695127de4392976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 53/63] fix: the scores of a coarse Mondrian forest prediction
 were not returned

---
 src/mondrian_coarse.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index e352330..12ae11d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3299,6 +3299,11 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
 
+	//If *scores* is not null, then the function will also return the scores it found for each label.
+	if(scores != nullptr)
+		for(int i = 0; i < label_count; ++i)
+			scores[i] = sum_posterior_mean[i];
+
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
-- 
2.43.0


From 384b497d6cc6d20fc4b11e7eefc0177548e1f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 54/63] fix: the coarse Mondrian forest reported success
 without training when it is not to be extended once full

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 12ae11d..562eadd 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2073,10 +2073,10 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 		else if(fe_split_trigger == SPLIT_TRIGGER_SFE)
 			summy = count_fe_down(base.root, features);
 
-		if(extend_type == EXTEND_ORIGINAL)
-			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
+		if(extend_type == EXTEND_NONE && node_available <= 2)
 			ret = false;
+		else if(extend_type == EXTEND_ORIGINAL || extend_type == EXTEND_NONE)
+			extend_block0(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From b4c8f9360be5e09f6f511f9c514254703d0a990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 55/63] fix: updating the label counters of a coarse Mondrian
 branch skipped the first node and read before the nodes for an empty tree

---
 src/mondrian_coarse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 562eadd..08620ed 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2213,9 +2213,10 @@ int get_leaf(int const tree_id, feature_type const* features) const{
  */
 void update_posterior_count(int const tree_id, feature_type const* features, int const label){
 	int node_id = get_leaf(tree_id, features);
-	int const leaf_id = node_id;
+	if(node_id < 0) //The tree is empty
+		return;
 	node_id = nodes()[node_id].parent;
-	while(node_id > 0 && node_id < node_count){
+	while(node_id >= 0 && node_id < node_count){
 		Node& node = nodes()[node_id];
 		int const c_left = Utils::min(1, nodes()[node.child_left].counters[label]);
 		int const c_right = Utils::min(1, nodes()[node.child_right].counters[label]);
-- 
2.43.0


From 62a2fc3a1240212d284a18cc5c62b520e4b2908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 56/63] fix: training a coarse Mondrian forest printed to the
 standard output

---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 08620ed..41253da 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1505,8 +1505,10 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
 				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
 				int const err = node.counters[i] - counter_in - counter_out;
+				#ifdef DEBUG
 				if(err != 0)
 					cout << "Error counters" << endl;
+				#endif
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 4269135bcf17eca67d7d97c7de3ee04a83c041c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 57/63] fix: the coarse Mondrian forest without box updates
 trained a data point in the node it was just separated from

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 41253da..ffa7a4d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -794,6 +794,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The data point is in the new sibling, the current node must not count it
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From 5bc15a2093a794ba7d4c864cc51e978db7ed33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 58/63] fix: the coarse Mondrian forest overran a local array
 when a tree grew deeper than 100 nodes

---
 src/mondrian_coarse.hpp | 52 +++++++++++++----------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index ffa7a4d..f6aa946 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2290,14 +2290,10 @@ int tree_depth(int const tree_id, int* tree_node_count) const{
 }
 template<int max_stack_size=100>
 int node_depth(int const start_id, int* tree_node_count) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
+	//The node visited last tells where we have to go next, however deep the tree is.
 	int node_id = start_id;
-	int depth = 0, max_depth = 0;
+	int previous_id = start_id >= 0 ? nodes()[start_id].parent : -1;
+	int depth = start_id >= 0 ? 0 : -1, max_depth = 0;
 
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
@@ -2305,6 +2301,8 @@ int node_depth(int const start_id, int* tree_node_count) const{
 	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
+		int const from_id = previous_id;
+		previous_id = node_id;
 		if (node.is_leaf()){
 			i += 1;
 			//acknowledge the depth
@@ -2317,27 +2315,19 @@ int node_depth(int const start_id, int* tree_node_count) const{
 			depth -= 1;
 		}
 		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
+			if (from_id == node.parent){ //going right
 				depth += 1;
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
+			else if (from_id == node.child_right){ //Go left
 				depth += 1;
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
+			else{ //Go up
 				i += 1;
-				stack[depth] = -1; //Reset to -1
 				depth -= 1;
 				node_id = node.parent;
 			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
 		}
 	}
 	if(tree_node_count != nullptr)
@@ -3182,14 +3172,10 @@ void node_csv(int const tree_id, int const node_id, int const depth, int const l
 }
 template<int max_stack_size=100>
 void tree_printy(int const tree_id, int const start_id) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
+	//The node visited last tells where we have to go next, however deep the tree is.
 	int node_id = start_id;
-	int depth = 0, max_depth = 0;
+	int previous_id = start_id >= 0 ? nodes()[start_id].parent : -1;
+	int depth = start_id >= 0 ? 0 : -1, max_depth = 0;
 
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
@@ -3197,6 +3183,8 @@ void tree_printy(int const tree_id, int const start_id) const{
 	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
+		int const from_id = previous_id;
+		previous_id = node_id;
 		if (node.is_leaf()){
 			i += 1;
 			//acknowledge the depth
@@ -3210,28 +3198,20 @@ void tree_printy(int const tree_id, int const start_id) const{
 			depth -= 1;
 		}
 		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
+			if (from_id == node.parent){ //going right
 				node_csv(tree_id, node_id, depth, 0, node);
 				depth += 1;
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
+			else if (from_id == node.child_right){ //Go left
 				depth += 1;
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
+			else{ //Go up
 				i += 1;
-				stack[depth] = -1; //Reset to -1
 				depth -= 1;
 				node_id = node.parent;
 			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
 		}
 	}
 }
-- 
2.43.0


From 2219750726b6535459223a86a61a49e30018bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 59/63] fix: a copied unbound Mondrian forest deleted the nodes
 of the original

---
 src/mondrian_unbound.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 2ff140f..4b0cbcd 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -503,6 +503,9 @@ class MondrianForestUnbound{
 				scores[i] = sum_posterior_mean[i];
 		return best;
 	}
+	//A forest owns its nodes, a copy would delete them a second time.
+	MondrianForestUnbound(MondrianForestUnbound const&) = delete;
+	MondrianForestUnbound& operator=(MondrianForestUnbound const&) = delete;
 	~MondrianForestUnbound(){
 		for(MondrianNode* root : roots)
 			if(root != nullptr)
-- 
2.43.0


From c8f6a183682d1c05edf5a4cf5cac092d6b80c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 60/63] fix: a copied chained reservoir shared its chains with
 the original

---
 src/chained_reservoir.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index e870594..a501a6a 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -118,6 +118,9 @@ class ChainedReservoirSampling{
 		for(int i = 0; i < sample_size; ++i)
 			next[i] = 4294967294; //`next` cannot be negative so to avoid 0 to be assign to all sample, it is set to the maximum for an int
 	}
+	//A reservoir owns its chains, a copy would add to and shift the chains of the original.
+	ChainedReservoirSampling(ChainedReservoirSampling const&) = delete;
+	ChainedReservoirSampling& operator=(ChainedReservoirSampling const&) = delete;
 	/**
 	 * Sample one new element into the sample. This new element may not be added.
 	 * @param e The new element to eventualy add to the sample.
-- 
2.43.0


From 1b673bc946c7c48da3bdf746d08f9952ab476be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 61/63] fix: collapsing the first node of a split went on above
 it, with a level of -1

---
 src/mondrian_coarse.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index f6aa946..0a4d498 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1354,11 +1354,13 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 						node.bound_lower[split_dimension] = split_value;
 				}
 				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
-					depth -= 1;
-					node_id = node.parent;
 					node_reset(node.child_right);
 					node_reset(node.child_left);
-					//NOTE the start_id node shouldn't be at zero.
+					node.chop();
+					if(node_id == start_id)
+						break;
+					depth -= 1;
+					node_id = node.parent;
 				}
 				else{ //Go right
 					stack[depth] = 0;
-- 
2.43.0


From 3df72772e0986ee5dd5883a43dc749d0a0dc1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 62/63] fix: sharing forced extensions between leaves without
 data divided zero by zero

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0a4d498..6b5fd9d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1084,7 +1084,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : static_cast<double>(count_left)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1222,7 +1222,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = sum_count == 0 ? 0.5 : static_cast<double>(count_left)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From d9b266ae68d84cbdc9e3930f16003c220dddd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:42 +0000
Subject: [PATCH 63/63] fix: a chain of more than 5000 elements aborted the
 chained reservoir

---
 src/chained_reservoir.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index a501a6a..6a7f64f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -57,9 +57,8 @@ class ChainedReservoirSampling{
 	 */
 	void push_on_chain(node& head, element_type e, unsigned int const timestamp){
 		node* current = &head;
-		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
-		while(i < 5000){ //`i` is just a security
+		while(true){
 			if(current->timestamp == 0){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
@@ -76,10 +75,7 @@ class ChainedReservoirSampling{
 			}
 
 			current = current->next;
-			i += 1;
 		}
-		assert(false);
-		//TODO maybe clear the chain if it is corrupted
 	}
 	/*
 	 * Shift the node from current to head.
-- 
2.43.0

