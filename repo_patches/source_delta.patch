From 801987a0c6921da9fd6f8050d37cd816bf19bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 01/88] fix: GBoundedBufferT::try_pop_* must wake waiting
 producers, not consumers

---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From 50ccd2daf9aa9ee1af60a591c0ce6bb859c2c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 02/88] fix: GFixedSizePriorityQueueT::add(batch) dropped good
 items when the queue was not yet full

---
 include/common/GFixedSizePriorityQueueT.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..fdc6952 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -329,20 +329,20 @@ public:
 		 double worstKnownEvaluation = Gem::Common::getWorstCase<double>(m_sortOrder);
 		 if (replace || m_data_deq.empty()) {
 			 m_data_deq.clear();
-		 } else {
+		 }
+
+		 // Items may only be ruled out up front if the queue already holds its maximum number of entries
+		 bool const queue_full = (0 != m_maxSize && m_data_deq.size() >= m_maxSize);
+		 if (queue_full) {
 			 // Data already exists, we know better than the worst known valid
 			 worstKnownEvaluation = this->evaluation(this->worst());
 		 }
 
-		 // At this point, worstKnownEvaluation will be
-		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
-		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
-			 // - If the queue is unlimited
-			 // - If the queue isn't full yet
+			 // - If the queue is unlimited or wasn't full yet (surplus entries are removed below)
 			 // - If the item is better than the worst one already contained in the queue
-			 if (0 == m_maxSize || m_data_deq.size() < m_maxSize || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
+			 if (not queue_full || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
 				 if (do_clone) {
 					 m_data_deq.push_back(item_ptr->template clone<T>());
 				 } else {
-- 
2.43.0


From c8885d65c0ca3c3c733e839b825c5ce8537cea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 03/88] fix: GFixedSizePriorityQueueT::setMaxSize(0)
 (unlimited) discarded all entries

---
 include/common/GFixedSizePriorityQueueT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index fdc6952..d05e11c 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -452,8 +452,8 @@ public:
 	  * Sets the maximum size of the priority queue
 	  */
 	 void setMaxSize(std::size_t maxSize) {
-		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // Make sure the current size of m_data complies with maxSize (0 means "unlimited")
+		 if (0 != maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 9d4bf19e0c90e2428ee2855cd95d8e6e64f8560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 04/88] fix: GFixedSizePriorityQueueT::setSortOrder left
 existing entries in the old order

---
 include/common/GFixedSizePriorityQueueT.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index d05e11c..fda5192 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -232,6 +232,15 @@ public:
 	  */
 	 void setSortOrder(Gem::Common::sortOrder sortOrder) {
 		 m_sortOrder = sortOrder;
+
+		 // Entries already present need to comply with the new order
+		 std::sort(
+			 m_data_deq.begin()
+			 , m_data_deq.end()
+			 , [this](std::shared_ptr<T> const & x_ptr, std::shared_ptr<T> const & y_ptr) -> bool {
+				 return this->isBetter(this->evaluation(x_ptr), this->evaluation(y_ptr));
+			 }
+		 );
 	 }
 
 	 /***************************************************************************/
-- 
2.43.0


From e4c0829d05c304ff7978f07c9bffda9e9aafc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 05/88] fix: GPtrVectorT::insert_noclone(pos, 0, item) must not
 insert anything (size underflow)

---
 include/common/GPtrVectorT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index c008f84..d807c7b 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -526,6 +526,9 @@ public:
 			);
 		}
 
+		// Nothing to be done?
+		if (0 == amount) { return; }
+
 		std::size_t iterator_pos = pos - m_data_cnt.begin();
 		// Create (amount-1) clones
 		for (std::size_t i = 0; i < amount - 1; i++) {
-- 
2.43.0


From a911e2bb10317360417552dbd4135ca55ed1ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 06/88] fix: GPtrVectorT::resize(0) of an empty container threw
 std::out_of_range

---
 include/common/GPtrVectorT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index d807c7b..35bfa44 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -636,6 +636,9 @@ public:
 			);
 		}
 
+		// Nothing to be done for an empty container (there is no first element to be used as a template)
+		if (this->empty()) { return; }
+
 		this->resize_clone(amount, this->at(0));
 	}
 
-- 
2.43.0


From 71a034cb633dbc6f27de4f2152e1391a01d14023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 07/88] fix: vector-valued options of GParserBuilder: saving
 dereferenced past the end of an empty value list

---
 include/common/GParserBuilder.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index b104fe8..9de6223 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1201,7 +1201,7 @@ public:
 	 )
 		 : GFileParsableI(optionNameVar, commentVar, isEssentialVar)
 		 , m_def_val_cnt(def_val)
-		 , m_par_cnt()
+		 , m_par_cnt(def_val)
 	 { /* nothing */ }
 
 	 /***************************************************************************/
@@ -1225,6 +1225,7 @@ protected:
 	  */
 	 void resetDefault(std::vector<parameter_type> const & def_val) {
 		 m_def_val_cnt = def_val;
+		 m_par_cnt = def_val;
 	 }
 
 	 /***************************************************************************/
@@ -1379,12 +1380,11 @@ private:
 		 }
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
@@ -1539,12 +1539,11 @@ private:
 
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
-- 
2.43.0


From 347cef98d6813bee26c192197e03631fd711d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 08/88] fix: vectors of bool written by GParserBuilder could
 not be read back

---
 include/common/GParserBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 9de6223..67b0ac0 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1338,7 +1338,7 @@ private:
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
 		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
@@ -1496,7 +1496,7 @@ private:
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
 		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
-- 
2.43.0


From 4da395a2866135e33b2b5d246f6d9f0c1eb8fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 09/88] fix: errors flagged with force_set_error() during
 processing were silently overwritten with PROCESSED

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..56db221 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // Do not override an error condition set by the user through force_set_error()
+			 if(not this->error_flagged_by_user()) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From 4870ca5bd756e27dc02681ea9cebc58a3d286312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 10/88] fix: container_to_string returned XML texts without the
 closing tag, which terminated the receiving process

---
 include/courtier/GCommandContainerT.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index d11bc85..770ac76 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -241,11 +241,13 @@ std::string container_to_string(
 
 			case Gem::Common::serializationMode::XML: {
 				std::ostringstream oss;
-				boost::archive::xml_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{ // The archive writes its closing tag upon destruction
+					boost::archive::xml_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				}
 				return oss.str();
 			} break;
 
-- 
2.43.0


From c33698d6e2ddb66a1beac8927399c0cee52b11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 11/88] fix: GConstrainedIntT::transfer overflowed for values
 far away from the range

---
 include/geneva/GConstrainedIntT.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..cd24b75 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -194,43 +194,45 @@ public:
             return val;
         } else {
             // The result
-            int_type mapping = int_type(0);
+            // Differences of two valid values do not necessarily fit into int_type,
+            // so we use a wider type for the calculation.
+            std::int64_t mapping = 0;
 
             // Find out the size of the value range. Note that both boundaries
             // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            const std::int64_t value_range = std::int64_t(upperBoundary) - lowerBoundary + 1;
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                const std::int64_t nBelowLowerBoundary = (lowerBoundary - (std::int64_t(val) + 1)) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
 
                 // Transfer the value into the allowed region
-                mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
+                mapping = val + (value_range * (nBelowLowerBoundary + 1));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
-                    mapping = revert(mapping);
+                    mapping = revert(static_cast<int_type>(mapping));
                 }
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                const std::int64_t nAboveUpperBoundary = (std::int64_t(val) - upperBoundary - 1) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
 
                 // Transfer into the allowed region
-                mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
+                mapping = val - (value_range * (nAboveUpperBoundary + 1));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
-                    mapping = revert(mapping);
+                    mapping = revert(static_cast<int_type>(mapping));
                 }
             }
 
-            return mapping;
+            return static_cast<int_type>(mapping);
         }
     }
 
-- 
2.43.0


From 0c1248b134262b3e2814c899e43c6a8d1ce83468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 12/88] fix: constrained floating point parameters: rounding
 could move the mapped value out of the range, single-value ranges and
 far-away values failed

---
 .../geneva/GConstrainedFPNumCollectionT.hpp   | 43 +++++++++++++------
 include/geneva/GConstrainedFPT.hpp            |  9 ++++
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..59d0507 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -178,32 +178,51 @@ public:
         fp_type lowerBoundary = GConstrainedNumCollectionT<fp_type>::getLowerBoundary();
         fp_type upperBoundary = GConstrainedNumCollectionT<fp_type>::getUpperBoundary();
 
+        // A range holding a single value
+        if (lowerBoundary == upperBoundary) {
+            return lowerBoundary;
+        }
+
         if (val >= lowerBoundary && val < upperBoundary) {
             return val;
         } else {
             // Find out which region the value is in (compare figure transferFunction.pdf
             // that should have been delivered with this software). Note that boost::numeric_cast<>
             // may throw - exceptions must be caught in surrounding functions.
-            std::int32_t region = 0;
+            // The calculation is done with the same (higher) precision as in GConstrainedFPT<>.
+            const long double localVal = val;
+            const long double lower = lowerBoundary;
+            const long double upper = upperBoundary;
+
+            const long double fp_region = Gem::Common::gfloor((localVal - lower) / (upper - lower));
+
+            // Out of the range of a std::int64_t (or not a number)
+            if (not (Gem::Common::gfabs(fp_region) < static_cast<long double>((std::numeric_limits<std::int64_t>::max)()))) {
+                throw gemfony_exception(
+                    g_error_streamer(DO_LOG, time_and_place)
+                        << "In GConstrainedFPNumCollectionT<>::transfer(): Error" << std::endl
+                        << "fp_region = " << fp_region << " is too large and cannot be" << std::endl
+                        << "converted to a std::int64_t, which has a maximum value of "
+                        << (std::numeric_limits<std::int64_t>::max)() << std::endl
+                );
+            }
 
-#ifdef DEBUG
-            region = boost::numeric_cast<std::int32_t>(
-                Gem::Common::gfloor(
-                    (fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
-#else
-            region =	static_cast<std::int32_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
-#endif
+            const auto region = static_cast<std::int64_t>(fp_region);
 
             // Check whether we are in an odd or an even range and calculate the
             // external value accordingly
-            fp_type mapping = fp_type(0.);
+            long double mapping = 0.;
             if (region % 2 == 0) { // can it be divided by 2 ? Region 0,2,... or a negative even range
-                mapping = val - fp_type(region) * (upperBoundary - lowerBoundary);
+                mapping = localVal - static_cast<long double>(region) * (upper - lower);
             } else { // Range 1,3,... or a negative odd range
-                mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
+                mapping = -localVal + (static_cast<long double>(region - 1) * (upper - lower) + 2 * upper);
             }
 
-            return mapping;
+            // Rounding may not move the result out of the allowed value range
+            if (mapping < lower) return lowerBoundary;
+            if (mapping > upper) return upperBoundary;
+
+            return static_cast<fp_type>(mapping);
         }
 
         // Make the compiler happy
diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..f311306 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -319,6 +319,11 @@ public:
 		 long double lowerBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getLowerBoundary());
 		 long double upperBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getUpperBoundary());
 
+		 // A range holding a single value
+		 if(lowerBoundary == upperBoundary) {
+			 return GConstrainedNumT<fp_type>::getLowerBoundary();
+		 }
+
 		 if(localVal >= lowerBoundary && localVal < upperBoundary) {
 			 return val; // no cast needed
 		 } else {
@@ -354,6 +359,10 @@ public:
 				 mapping = -localVal + ((long double)(region-1)*(upperBoundary - lowerBoundary) + 2*upperBoundary);
 			 }
 
+			 // Rounding may not move the result out of the allowed value range
+			 if(mapping < lowerBoundary) mapping = lowerBoundary;
+			 if(mapping > upperBoundary) mapping = upperBoundary;
+
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
 			 return boost::numeric_cast<fp_type>(mapping);
 		 }
-- 
2.43.0


From f37c83dcb8d12639ed0c86f98cc97759140d2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 13/88] fix: value() of a constrained parameter threw for the
 largest value of a range with upper boundary 0

---
 include/geneva/GConstrainedFPT.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index f311306..dd000d5 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -277,6 +277,7 @@ public:
 #ifdef DEBUG
 		 switch(std::fpclassify(val)) {
 			 case FP_NORMAL:
+			 case FP_SUBNORMAL: // e.g. the largest allowed value, if the upper boundary is 0
 			 case FP_ZERO:      {
 				 /* nothing */
 			 } break;
@@ -297,14 +298,6 @@ public:
 				 );
 			 } break;
 
-			 case FP_SUBNORMAL: {
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG, time_and_place)
-						 << "In GConstrainedFPT::transfer(): Error" << std::endl
-						 << "val is subnormal" << std::endl
-				 );
-			 } break;
-
 			 default: {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
-- 
2.43.0


From 6a9a13cdac8e531733b8e7d9fc76fef509d9f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 14/88] fix: GParameterSet::assignValueVector refused vectors
 for active or inactive parameters only

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From 326d4d631e575be2458bd75ab61388229d3bbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 15/88] fix: assignValueVector<int32/bool> ignored the activity
 mode of the parameter

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From e884370feb2b7ff9728baa243957976752bf512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 16/88] fix: GParameterSet::getVarItem<bool> handed out a
 dangling vector<bool> reference instead of a bool

---
 include/geneva/GParameterSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index ee16ed3..3da6335 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -532,7 +532,7 @@ public:
             case 0: {
                 std::vector<par_type> vars;
                 this->streamline<par_type>(vars);
-                result = vars.at(std::get<2>(target));
+                result = par_type(vars.at(std::get<2>(target)));
             }
                 break;
 
@@ -542,10 +542,10 @@ public:
             {
                 std::map<std::string, std::vector<par_type>> varMap;
                 this->streamline<par_type>(varMap);
-                result = (
+                result = par_type(
                     Gem::Common::getMapItem<std::vector<par_type>>(
                         varMap
-                        , std::get<1>(target))).at(std::get<2>(target));
+                        , std::get<1>(target)).at(std::get<2>(target)));
             }
                 break;
 
-- 
2.43.0


From 3e1a79f559b6d38f055e49c39e9e9d17e2b1be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 17/88] fix: GBarrier::wait did not wait (inverted generation
 predicate)

---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From a4047af1f7730979af21f00a4db1bcc205ac5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 18/88] fix: GSingletonT::Instance read and reset a plain
 shared_ptr without synchronization

---
 include/common/GSingletonT.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/common/GSingletonT.hpp b/include/common/GSingletonT.hpp
index 38822da..f6c0407 100644
--- a/include/common/GSingletonT.hpp
+++ b/include/common/GSingletonT.hpp
@@ -112,21 +112,22 @@ public:
 		 static std::mutex creation_mutex;
 
 		 switch (mode) {
-			 case 0:
-				 // Several callers can reach the next line simultaneously. Hence, if
-				 // p is empty, we need to ask again if it is empty after we have acquired the lock
-				 if (not p) {
-					 // Prevent concurrent "first" access
-					 std::unique_lock<std::mutex> lk(creation_mutex);
-					 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
-				 }
-
+			 case 0: {
+				 // Several callers can reach this point simultaneously. As p itself
+				 // is not atomic, all accesses need to happen under the lock
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
 				 return p;
+			 }
+
+			 case 1: {
+				 // Destroy the old object (if we were the last owner) outside of the lock
+				 std::shared_ptr<T> old;
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 old.swap(p);
+				 lk.unlock();
 				 break;
-
-			 case 1:
-				 p.reset();
-				 break;
+			 }
 		 }
 
 		 return std::shared_ptr<T>(); // Make the compiler happy
-- 
2.43.0


From 7811ae8e3e909a1781f28cbb5da6f7ecc29d3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 19/88] fix: registering log targets raced with concurrent log
 calls

---
 include/common/GLogger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common/GLogger.hpp b/include/common/GLogger.hpp
index 4cf9c7c..108fe53 100644
--- a/include/common/GLogger.hpp
+++ b/include/common/GLogger.hpp
@@ -275,6 +275,7 @@ public:
 		 */
 	 void setDefaultLogTarget(std::shared_ptr <GBaseLogTarget> gblt) {
 		 if (gblt) {
+			 std::unique_lock<std::mutex> lk(m_logger_mutex);
 			 m_default_logger = gblt;
 		 } else {
 			 raiseException(
@@ -290,6 +291,7 @@ public:
 		 */
 	 void addLogTarget(std::shared_ptr <GBaseLogTarget> gblt) {
 		 if (gblt) {
+			 std::unique_lock<std::mutex> lk(m_logger_mutex);
 			 m_log_cnt.push_back(gblt);
 		 } else {
 			 raiseException(
@@ -304,6 +306,7 @@ public:
 		 * Checks whether any log targets are present
 		 */
 	 bool hasLogTargets() const {
+		 std::unique_lock<std::mutex> lk(m_logger_mutex);
 		 return not m_log_cnt.empty();
 	 }
 
@@ -312,6 +315,7 @@ public:
 		 * Clears local log-targets
 		 */
 	 void resetLogTargets() {
+		 std::unique_lock<std::mutex> lk(m_logger_mutex);
 		 m_log_cnt.clear();
 	 }
 
-- 
2.43.0


From 504d050c85db4578bc813c0ce7250c62c501a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 20/88] fix: the future of a void task of GThreadPool was never
 fulfilled (broken promise)

---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From 7ca355ddd70b4cb25dce2606bd019d64b0ceef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 21/88] fix: GRandomFactory started producer threads nobody
 joins when used during or after finalize()

---
 src/hap/GRandomFactory.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..902479d 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -104,7 +104,9 @@ void GRandomFactory::init() { /* nothing */ }
  * second time. It can thus be called as often as you wish.
  */
 void GRandomFactory::finalize() {
-	// Only allow one finalization action to be carried out
+	// Only allow one finalization action to be carried out and
+	// make sure that no threads are started in the meantime
+	std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
 	if (m_finalized) return;
 
 	// Flag all threads to stop
@@ -269,7 +271,8 @@ std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() {
 	// Start the producer threads upon first access to this function
 	if (not m_threads_started) {
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
-		if (not m_threads_started) { // double checked locking pattern
+		// No threads may be started anymore once a stop was requested (nobody would join them)
+		if (not m_threads_started && not m_threads_stop_requested) { // double checked locking pattern
 			//---------------------------------------------------------
 			for (std::uint16_t i = 0; i < m_n_producer_threads.load(); i++) {
 				m_producer_threads.create_thread(
-- 
2.43.0


From 8bb46449ed112c53a0af010ae3336919197491d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 22/88] fix: GRandomFactory started producer threads nobody
 joins when used during or after finalize()

---
 src/hap/GRandomFactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 902479d..d952f96 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -193,6 +193,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 		// could go into the "not-running" state, so we do not need
 		// to check again using DCLP .
 		std::unique_lock<std::mutex> lk(m_thread_creation_mutex);
+		// No threads may be started anymore once a stop was requested (nobody would join them)
+		if (m_threads_stop_requested) return;
 		// Make a suggestion for the number of threads, if requested
 		std::uint16_t nProducerThreads_local = DEFAULT01PRODUCERTHREADS;
 		if(0 == nProducerThreads) {
@@ -223,6 +225,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 	} else { // Double-checked locking pattern
 		// Here it appears that no threads were running. We do need to check again, though (DLCP)
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
+		// No threads may be started anymore once a stop was requested (nobody would join them)
+		if (m_threads_stop_requested) return;
 		// Make a suggestion for the number of threads, if requested
 		std::uint16_t nProducerThreads_local = DEFAULT01PRODUCERTHREADS;
 		if(nProducerThreads == 0) {
-- 
2.43.0


From c02687fd7febcaa9775e419b3e8a76f3ac0a5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 23/88] fix: GRandomFactory::setNProducerThreads forgot the new
 number of threads if they were already running

---
 src/hap/GRandomFactory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index d952f96..2662c2c 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -222,6 +222,9 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 
 			return;
 		}
+
+		// Later calls need to know how many threads there are now
+		m_n_producer_threads = nProducerThreads_local;
 	} else { // Double-checked locking pattern
 		// Here it appears that no threads were running. We do need to check again, though (DLCP)
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
-- 
2.43.0


From 2e14969d7887c65cee127c5659e3a16ce74fcec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 24/88] fix: GRandomFactory::getSeed repeated all seeds once
 its collection was used up

---
 src/hap/GRandomFactory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 2662c2c..873f6c2 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -150,7 +150,14 @@ seed_type GRandomFactory::getSeed() {
 
 	// Refill at the start of seeding or when all seeds have been used
 	if(not m_seeding_has_started || m_seed_cit==m_seed_collection.end()) {
-		m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		if(not m_seeding_has_started) {
+			m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		} else { // m_seed_seq would generate the same seeds again
+			std::vector<seed_type> entropy(m_seed_seq.size());
+			for(auto& e: entropy) e = m_nondet_rng();
+			std::seed_seq seed_seq(entropy.begin(), entropy.end());
+			seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		}
 		m_seed_cit=m_seed_collection.begin();
 		m_seeding_has_started.store(true);
 	}
-- 
2.43.0


From 99b6120341358cde37e844b8ab32e38bb73f2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 25/88] fix: local consumers no longer terminate the process
 when a work item's buffer port has been closed

---
 include/courtier/GSerialConsumerT.hpp    | 9 ++++++++-
 include/courtier/GStdThreadConsumerT.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GSerialConsumerT.hpp b/include/courtier/GSerialConsumerT.hpp
index 84eaf19..fe01f48 100644
--- a/include/courtier/GSerialConsumerT.hpp
+++ b/include/courtier/GSerialConsumerT.hpp
@@ -251,7 +251,14 @@ private:
 				 , [this](
 					 std::shared_ptr<processable_type> p
 					 , const std::chrono::milliseconds& timeout
-				 ) -> void { m_broker_ptr->put(p, timeout); }
+				 ) -> void {
+				 	try {
+				 		m_broker_ptr->put(p, timeout);
+				 	} catch(const buffer_not_present&) {
+				 		// The port this item came from has been closed. The item is discarded
+				 		// (the broker has emitted a warning) and we continue with other items.
+				 	}
+				 }
 				 //----------------------
 				 , [this]() -> bool { return this->stopped(); }
 				 //----------------------
diff --git a/include/courtier/GStdThreadConsumerT.hpp b/include/courtier/GStdThreadConsumerT.hpp
index 8cde55a..07eca0b 100644
--- a/include/courtier/GStdThreadConsumerT.hpp
+++ b/include/courtier/GStdThreadConsumerT.hpp
@@ -341,7 +341,14 @@ private:
 					 , [this](
 						 std::shared_ptr<processable_type> p
 						 , const std::chrono::milliseconds& timeout
-					 ) -> void { m_broker_ptr->put(p, timeout); }
+					 ) -> void {
+					 	try {
+					 		m_broker_ptr->put(p, timeout);
+					 	} catch(const buffer_not_present&) {
+					 		// The port this item came from has been closed. The item is discarded
+					 		// (the broker has emitted a warning) and we continue with other items.
+					 	}
+					 }
 					 //----------------------
 					 , [this]() -> bool { return this->stopped(); }
 					 //----------------------
-- 
2.43.0


From 8212e29ee2c3fe7f6788b0c6c7c6e43e31b34c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 26/88] fix: broker executor no longer blocks forever when a
 work vector contains nothing to process

---
 include/courtier/GExecutorT.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..c6693b9 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -646,8 +646,9 @@ protected:
 		 m_n_erroneousItems  = this->countItemsWithStatus(workItems, processingStatus::ERROR_FLAGGED);
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
-		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 // Make it known that the first iteration has ended (if this is the first iteration
+		 // in which items were submitted)
+		 if(m_in_first_iteration && this->checkItemsSubmittedInObject()) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -782,8 +783,8 @@ protected:
 
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
-		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 // yet be determined. There is nothing to wait for if no items were submitted.
+		 if(nSubmittedItems > 0 && this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
@@ -2145,6 +2146,11 @@ protected:
 		 std::vector<std::shared_ptr<processable_type>>& workItems
 		 , std::vector<std::shared_ptr<processable_type>>& oldWorkItems
 	 ) override {
+		 // There is nothing to wait for if no items were submitted
+		 if(0 == this->getExpectedNumber()) {
+			 return this->checkExecutionState(workItems);
+		 }
+
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
 			 (m_capable_of_full_return || m_waitFactor == 0.)?
-- 
2.43.0


From 338ba97c4a21184f070835fa6c24d9d5dac5d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 27/88] fix: broker executor with timeouts lost a first item
 that failed, and late items of earlier iterations broke its time-out
 calculation

---
 include/courtier/GExecutorT.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index c6693b9..b9846b9 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2243,9 +2243,9 @@ private:
 			 // No need to continue if all currently submitted work items have returned
 			 if(status.is_complete) break;
 
-			 // For succesfully processed items, update the internal timeout variables,
-			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 // If items of the current cycle have returned, update the internal timeout
+			 // variables, so we know how much longer this cycle should run
+			 if(m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
@@ -2420,18 +2420,18 @@ private:
 	 /***************************************************************************/
 	 /**
 	  * Retrieves the next work item. Note that this function may block if,
-	  * during the very first retrieval of work items, no (or no processed) item
-	  * returns. A warning will be emitted for each retrieved item which has
-	  * errors or is unprocessed during the first retrieval.
+	  * during the very first retrieval of work items, no item returns. A warning
+	  * will be emitted for each retrieved item which is unprocessed during the
+	  * first retrieval.
 	  */
 	 std::shared_ptr<processable_type> getNextItem() {
 		 std::shared_ptr<processable_type> w_ptr;
 
-		 // Wait indefinitely for a processed item, if this is the very first individual retrieved.
+		 // Wait indefinitely for an item, if this is the very first individual retrieved.
 		 // We have no information on which we might base a timeout.
 		 if(this->firstRetrieval()) {
 			 do {
-				 // Wait indefinitely for the very first, successfully processed individual
+				 // Wait indefinitely for the very first individual
 				 w_ptr = this->retrieve();
 
 				 // It is a severe error if we get an empty pointer here
@@ -2446,15 +2446,15 @@ private:
 					 );
 				 }
 
-				 // We do accept unsuccessfully processed items, but emit
-				 // a warning, as this should be a very rare case
-				 if(w_ptr->is_processed()) {
+				 // We do accept unsuccessfully processed items, but discard
+				 // unprocessed items with a warning, as this should be a very rare case
+				 if(w_ptr->is_processed() || w_ptr->has_errors()) {
 					 break;
-				 } else { // unprocessed or has an error
+				 } else { // unprocessed
 					 glogger
 						 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
-						 << "Received \"first\" individual which is either" << std::endl
-						 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
+						 << "Received \"first\" individual which is" << std::endl
+						 << "unprocessed. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
 						 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
 						 << "The item will be discarded. As this should be a rare occurance," << std::endl
 						 << "we do emit a warning here." << std::endl
-- 
2.43.0


From 4ad4da99e3f1508ca9951d76a5a6f9e14102708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 28/88] fix: resubmission of missing items refused work vectors
 in which another item had failed

---
 include/courtier/GExecutorT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index b9846b9..c5182a1 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -770,7 +770,10 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(
+				 processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps
+				 && 0 == m_nResubmissions // Items may have failed in an earlier cycle of this iteration
+			 ) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From 23ee905c774f06643f3130424067c3274f326586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 29/88] fix: with time-outs, the broker executor returned at
 once from the iteration after one that had a single item

---
 include/courtier/GExecutorT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index c5182a1..32ea66f 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2243,14 +2243,14 @@ private:
 				 , oldWorkItems
 			 );
 
-			 // No need to continue if all currently submitted work items have returned
-			 if(status.is_complete) break;
-
 			 // If items of the current cycle have returned, update the internal timeout
-			 // variables, so we know how much longer this cycle should run
+			 // variables, so we know how much longer this cycle (or the next one) should run
 			 if(m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
+
+			 // No need to continue if all currently submitted work items have returned
+			 if(status.is_complete) break;
 		 } while(not halt());
 
 		 // Check for the processing flags and derive the is_complete and has_errors states
-- 
2.43.0


From 9ee6d0bdb429edf7209f660b706b35c75fb96047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 30/88] fix: a negative wait factor means "no timeout" (as
 documented) instead of an immediate time-out

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 32ea66f..8c40c3a 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2156,7 +2156,7 @@ protected:
 
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From 93f5b5340b295098ad8dd5e4397a197178d9561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 31/88] fix: minPartialReturnPercentage compared a fraction
 with a percentage and never took effect; strict weak ordering for old work
 items

---
 include/courtier/GExecutorT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 8c40c3a..03c400c 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -620,7 +620,7 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return x_ptr->getCollectionPosition() < y_ptr->getCollectionPosition();
 			 }
 		 );
 		 // Remove duplicates
@@ -2400,7 +2400,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From a2dde7095ad2b795bd00e184f402913191bcf7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 32/88] fix: copySmartPointerArrays left an empty array behind
 that its own next call refuses, and dereferenced empty pointers

---
 include/common/GCommonHelperFunctionsT.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index 12c281c..fe8f0a4 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -696,16 +696,15 @@ void copySmartPointerArrays(
 	// From here on we assume that from and to have valid content
 
 	if (size_from != size_to) { // Get rid of all content in "to"
-		for (std::size_t i = 0; i < size_to; i++) {
-			to[i].reset();
+		g_array_delete(to); // Also resets "to"
+		if (size_from > 0) {
+			to = new std::shared_ptr <T>[size_from];
 		}
-		g_array_delete(to);
-		to = new std::shared_ptr <T>[size_from];
 		size_to = size_from;
 	}
 
 	for (std::size_t i = 0; i < size_to; i++) {
-		to[i] = std::shared_ptr<T>(new T(*(from[i])));
+		to[i] = from[i] ? std::shared_ptr<T>(new T(*(from[i]))) : std::shared_ptr<T>();
 	}
 }
 
-- 
2.43.0


From 2df88d11dab2ef4ec1d3428e9fe8c8efe4861a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 33/88] fix: copySmartPointerVector dereferenced empty pointers

---
 include/common/GCommonHelperFunctionsT.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index fe8f0a4..cb0466b 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -428,23 +428,24 @@ void copySmartPointerVector(
 
 	if(size_from==size_to) { // The most likely case
 		for(it_from = from.begin(), it_to = to.begin(); it_to!=to.end(); ++it_from, ++it_to) {
-			**it_to = **it_from; // Uses T::operator=()
+			copySmartPointer(*it_from, *it_to); // Uses T::operator=() where possible
 		}
 	} else if(size_from > size_to) {
 		// First copy the data of the first size_to items
 		for(it_from = from.begin(), it_to = to.begin(); it_to!=to.end(); ++it_from, ++it_to) {
-			**it_to = **it_from;
+			copySmartPointer(*it_from, *it_to);
 		}
 
 		// Then attach copies of the remaining items
 		for(it_from = from.begin() + size_to; it_from!=from.end(); ++it_from) {
-			std::shared_ptr <T> p(new T(**it_from));
+			std::shared_ptr <T> p;
+			copySmartPointer(*it_from, p);
 			to.push_back(p);
 		}
 	} else if(size_from<size_to) {
 		// First copy the initial size_foreight items over
 		for(it_from = from.begin(), it_to = to.begin(); it_from!=from.end(); ++it_from, ++it_to) {
-			**it_to = **it_from;
+			copySmartPointer(*it_from, *it_to);
 		}
 
 		// Then resize the local vector. Surplus items will vanish
-- 
2.43.0


From 2b60cbcf0d4b912e41d1f5d25da5bec009df41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 34/88] fix: copyCloneableSmartPointer(Container) loaded
 objects of one type into objects of another and cloned empty pointers

---
 include/common/GCommonHelperFunctionsT.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index cb0466b..80d8afe 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -472,7 +472,8 @@ void copyCloneableSmartPointer (
 	if(not from) {
 		to.reset();
 	} else {
-		if(not to) {
+		// load() is only defined for objects of the same type
+		if(not to || typeid(*to) != typeid(*from)) {
 			to = from->T::template clone<T>();
 		} else {
 			to->T::load(from);
@@ -512,7 +513,8 @@ void copyCloneableSmartPointerContainer(
 
 		// Then attach copies of the remaining items
 		for(it_from=from.begin()+size_to; it_from!=from.end(); ++it_from) {
-			to.push_back((*it_from)->T::template clone<T>());
+			to.push_back(std::shared_ptr<T>());
+			copyCloneableSmartPointer(*it_from, to.back());
 		}
 	} else if(size_from < size_to) {
 		// First copy the initial size_for items over
-- 
2.43.0


From 8f058a7c82fd8e29b2eac142d553e0afffdd920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 35/88] fix: similarity of floating point numbers: equal
 infinities counted as different, NaN in containers as similar to everything

---
 include/common/GExpectationChecksT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/common/GExpectationChecksT.hpp b/include/common/GExpectationChecksT.hpp
index 0e6f9d8..1c64134 100644
--- a/include/common/GExpectationChecksT.hpp
+++ b/include/common/GExpectationChecksT.hpp
@@ -516,7 +516,7 @@ void compare(
 
     switch (e) {
         case Gem::Common::expectation::FP_SIMILARITY: expectation_str = "FP_SIMILARITY";
-            if (gfabs(x - y) < boost::numeric_cast<fp_type>(limit)) {
+            if (x == y || gfabs(x - y) < boost::numeric_cast<fp_type>(limit)) { // equal infinities are similar
                 expectationMet = true;
             }
             break;
@@ -754,7 +754,7 @@ void compare(
             typename c_type<fp_type, std::allocator<fp_type>>::const_iterator x_it, y_it;
             if (Gem::Common::expectation::FP_SIMILARITY == e) {
                 for (x_it = x.begin(), y_it = y.begin(); x_it != x.end(); ++x_it, ++y_it) {
-                    if (gfabs(*x_it - *y_it) >= boost::numeric_cast<fp_type>(limit)) {
+                    if (not(*x_it == *y_it || gfabs(*x_it - *y_it) < boost::numeric_cast<fp_type>(limit))) { // also detects NaN
                         foundDeviation = true;
                         deviation_pos = boost::numeric_cast<std::size_t>(
                             std::distance(
@@ -860,7 +860,7 @@ void compare(
             typename s_type<fp_type, std::less<fp_type>, std::allocator<fp_type>>::const_iterator x_it, y_it;
             if (Gem::Common::expectation::FP_SIMILARITY == e) {
                 for (x_it = x.begin(), y_it = y.begin(); x_it != x.end(); ++x_it, ++y_it) {
-                    if (gfabs(*x_it - *y_it) >= boost::numeric_cast<fp_type>(limit)) {
+                    if (not(*x_it == *y_it || gfabs(*x_it - *y_it) < boost::numeric_cast<fp_type>(limit))) { // also detects NaN
                         foundDeviation = true;
                         deviation_pos = boost::numeric_cast<std::size_t>(
                             std::distance(
-- 
2.43.0


From 6c29de188194c298de06839b0a6348421a91bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 36/88] fix: an undetermined and a determined tribool were
 neither equal nor unequal

---
 src/common/GExpectationChecksT.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/GExpectationChecksT.cpp b/src/common/GExpectationChecksT.cpp
index c9fd56c..732664e 100644
--- a/src/common/GExpectationChecksT.cpp
+++ b/src/common/GExpectationChecksT.cpp
@@ -303,9 +303,8 @@ void compare(
 
 		case Gem::Common::expectation::INEQUALITY:
 			expectation_str = "INEQUALITY";
-			if (not (x == true && y == true) &&
-				 not (x == false && y == false) &&
-				 not (boost::logic::indeterminate(x) && boost::logic::indeterminate(y))) {
+			// Three-valued comparisons yield "indeterminate" for undetermined operands, so compare the states
+			if (x.value != y.value) {
 				expectationMet = true;
 			}
 			break;
-- 
2.43.0


From 8017f44f412c1c469c01bd2b8ed63f441573a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 37/88] fix: spaces inside numbers and names of parameter
 specifications were dropped silently ("1 0" read as 10)

---
 include/geneva/GParameterPropertyParser.hpp | 1 +
 src/geneva/GParameterPropertyParser.cpp     | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterPropertyParser.hpp b/include/geneva/GParameterPropertyParser.hpp
index c48495e..f11589d 100644
--- a/include/geneva/GParameterPropertyParser.hpp
+++ b/include/geneva/GParameterPropertyParser.hpp
@@ -56,6 +56,7 @@
 #include <boost/spirit/include/qi_lit.hpp>
 #include <boost/spirit/include/qi_raw.hpp>
 #include <boost/spirit/include/qi_hold.hpp>
+#include <boost/spirit/include/qi_lexeme.hpp>
 #include <boost/fusion/include/tuple.hpp>
 #include <boost/fusion/include/boost_tuple.hpp>
 #include <boost/fusion/adapted/boost_tuple.hpp>
diff --git a/src/geneva/GParameterPropertyParser.cpp b/src/geneva/GParameterPropertyParser.cpp
index 510dc6a..6685cd2 100644
--- a/src/geneva/GParameterPropertyParser.cpp
+++ b/src/geneva/GParameterPropertyParser.cpp
@@ -89,10 +89,11 @@ GParameterPropertyParser::GParameterPropertyParser(const std::string &rw)
 	using boost::spirit::qi::alnum;
 	using boost::spirit::qi::hold;
 
-	varSpec = +char_("0-9a-zA-Z_,.+-[]");
+	// Spaces are kept here, so that they continue to separate tokens when the variable description itself is parsed
+	varSpec = lexeme[+char_("0-9a-zA-Z_,.+[] \t\r\n\v\f-")];
 	varString = char_("dfibs") > '(' > varSpec > ')';
 
-	identifier = raw[(alpha | '_') >> *(alnum | '_')];
+	identifier = raw[lexeme[(alpha | '_') >> *(alnum | '_')]];
 
 	varReference = (hold[attr(0) >> attr("empty") >> uint_] | hold[attr(1) >> identifier >> '[' >> uint_ >> ']'] |
 						 (attr(2) >> identifier >> attr(0)));
-- 
2.43.0


From c56fbc9a4e34ef7cd48e6adfd7055cbec9a2da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 38/88] fix: the function individual factory stored the
 settings of sigma2 and delta of bi-gaussian adaptors in sigma1

---
 src/geneva-individuals/GFunctionIndividual.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 56c2ddd..2e7e419 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -1590,8 +1590,8 @@ void GFunctionIndividualFactory::postProcess_(std::shared_ptr < GParameterSet >
 	if (useBiGaussian_.value()) {
 		std::shared_ptr <GDoubleBiGaussAdaptor> gdbga_ptr(new GDoubleBiGaussAdaptor());
 		gdbga_ptr->setAllSigma1(sigma1_.value(), sigmaSigma1_.value(), minSigma1_.value(), maxSigma1_.value());
-		gdbga_ptr->setAllSigma1(sigma2_.value(), sigmaSigma2_.value(), minSigma2_.value(), maxSigma2_.value());
-		gdbga_ptr->setAllSigma1(delta_.value(), sigmaDelta_.value(), minDelta_.value(), maxDelta_.value());
+		gdbga_ptr->setAllSigma2(sigma2_.value(), sigmaSigma2_.value(), minSigma2_.value(), maxSigma2_.value());
+		gdbga_ptr->setAllDelta(delta_.value(), sigmaDelta_.value(), minDelta_.value(), maxDelta_.value());
 		gdbga_ptr->setAdaptionThreshold(adaptionThreshold_.value());
 		gdbga_ptr->setAdaptionProbability(adProb_.value());
 		gat_ptr = gdbga_ptr;
-- 
2.43.0


From 257f3a264d66b04898fff54fd5227464dfdd4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 39/88] fix: constructor of gauss adaptors with sigma settings
 and a probability ignored the sigma settings

---
 include/geneva/GNumGaussAdaptorT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..b13a0a0 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,14 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0


From e0df4d098466530dacf09fe60788ac5fb0f2421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 40/88] fix: refused ranges of sigma and adaption probability
 left an adaptor with a lower boundary above the upper one

---
 include/geneva/GAdaptorT.hpp         | 9 +++++++++
 include/geneva/GNumGaussAdaptorT.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GAdaptorT.hpp b/include/geneva/GAdaptorT.hpp
index a57d192..ff7eba5 100644
--- a/include/geneva/GAdaptorT.hpp
+++ b/include/geneva/GAdaptorT.hpp
@@ -483,6 +483,15 @@ public:
 		 }
 #endif /* DEBUG */
 
+		 // The lower boundary is at least DEFMINADPROB -- see below
+		 if (maxAdProb < DEFMINADPROB) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GAdaptorT<T, fp_type>::setAdProbRange(): Error!" << std::endl
+					 << "maxAdProb " << maxAdProb << " is smaller than the minimum " << DEFMINADPROB << std::endl
+			 );
+		 }
+
 		 // Store the new values
 		 m_minAdProb = minAdProb;
 		 if (m_minAdProb < DEFMINADPROB) {
diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index b13a0a0..1826d27 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -257,7 +257,7 @@ public:
 	 ){
 		 using namespace Gem::Common;
 
-		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.)) {
+		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma < fp_type(DEFAULTMINSIGMA) || maxSigma > fp_type(1.)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GNumGaussAdaptorT::setSigmaRange(const fp_type&, const fp_type&):" << std::endl
-- 
2.43.0


From d232ca3725fadd505dabc0c4d6988a484f702550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 41/88] fix: gauss adaptors did not report that their adaption
 probability was reset on stall

---
 include/geneva/GNumGaussAdaptorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 1826d27..8a3c007 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -404,11 +404,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
-		 // Reset the adaption probability
+		 // Reset sigma
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From bef5de0027281714936bf4345fd3455263ca1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 42/88] fix: property sigma2 of bi-gauss adaptors was answered
 with sigma1

---
 include/geneva/GNumBiGaussAdaptorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GNumBiGaussAdaptorT.hpp b/include/geneva/GNumBiGaussAdaptorT.hpp
index d4c5d28..53739db 100644
--- a/include/geneva/GNumBiGaussAdaptorT.hpp
+++ b/include/geneva/GNumBiGaussAdaptorT.hpp
@@ -789,7 +789,7 @@ protected:
         if (property == "sigma1") {
             data.push_back(boost::any(sigma1_));
         } else if (property == "sigma2") {
-            data.push_back(boost::any(sigma1_));
+            data.push_back(boost::any(sigma2_));
         } else if (property == "delta") {
             data.push_back(boost::any(delta_));
         } else {
-- 
2.43.0


From 2d55feeb6ed65ed30c906fed9ae0a71df1ce7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 43/88] fix: cross-over of individuals with a single parameter
 of a type aborted

---
 src/geneva/GParameterSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..f508215 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -695,7 +695,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 #endif /* DEBUG */
 
 	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	if (this_double_cnt.size() > 1) { // there is no cross-over position inside of a single value
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -706,7 +706,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) { // there is no cross-over position inside of a single value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -715,7 +715,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) { // there is no cross-over position inside of a single value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -724,7 +724,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) { // there is no cross-over position inside of a single value
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From 8b1cfa35bd81b78d03831ebbcf7a8664ec42283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 44/88] fix: individuals adapted in a first try and left alone
 in a later one kept their old fitness

---
 src/geneva/GParameterSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index f508215..b037081 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -831,7 +831,11 @@ std::size_t GParameterSet::adapt() {
 		// otherwise that individuals remain unchanged after a call to adapt()
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
-			if ((nAdaptions = this->customAdaptions()) > 0) {
+			// Note that nAdaptions must not be reset by an unsuccessful attempt, as earlier
+			// (invalid) attempts may already have modified the individual
+			std::size_t nNewAdaptions = this->customAdaptions();
+			if (nNewAdaptions > 0) {
+				nAdaptions = nNewAdaptions;
 				break;
 			}
 
-- 
2.43.0


From dc2f7348d32190b39af519285cf5d15c3509e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 45/88] fix: constraints that answer with NaN or infinity led
 to an undefined fitness of the candidate

---
 include/geneva/GMultiConstraintT.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..cc3547a 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -40,6 +40,7 @@
 #include "common/GGlobalDefines.hpp"
 
 // Standard header files go here
+#include <cmath>
 #include <type_traits>
 
 // Boost header files go here
@@ -121,6 +122,10 @@ public:
     ) const {
         double result = check_(cp);
 
+        if (not std::isfinite(result) && not (allowNegative_ && result < 0.)) { // There is no way to tell how invalid this is
+            return boost::numeric::bounds<double>::highest();
+        }
+
         if (allowNegative_) {
             if (result <= 1.) { // valid
                 return 0.;
-- 
2.43.0


From 69b47bda45b63cb4e80227f617183e2c80cfa5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 46/88] fix: checks inside a GCheckCombinerT were lost by
 load() and serialization, and no constraint could be serialized in XML mode

---
 include/geneva/GMultiConstraintT.hpp            | 7 ++++---
 include/geneva/GParameterSetMultiConstraint.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index cc3547a..6e631b3 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -324,7 +324,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -507,7 +508,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & make_nvp("GValidityCheckContainerT_ind_type", boost::serialization::base_object<GValidityCheckContainerT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
@@ -661,7 +662,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
diff --git a/include/geneva/GParameterSetMultiConstraint.hpp b/include/geneva/GParameterSetMultiConstraint.hpp
index f2114da..f2e9d0d 100644
--- a/include/geneva/GParameterSetMultiConstraint.hpp
+++ b/include/geneva/GParameterSetMultiConstraint.hpp
@@ -72,7 +72,7 @@ class GParameterSetConstraint :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<GParameterSet>);
+        & make_nvp("GPreEvaluationValidityCheckT_GParameterSet", boost::serialization::base_object<GPreEvaluationValidityCheckT<GParameterSet>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 public:
-- 
2.43.0


From 3c41cf7010f487d904ac2e262c2f701b6981190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 47/88] fix: assigning the fitness of an invalid individual
 left it marked as unprocessed

---
 src/geneva/GParameterSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index b037081..5c3bdd5 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1748,6 +1748,13 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 
 			this->setAllFitnessTo(this->getWorstCase(), uniformFitnessValue);
 		}
+
+		// The fitness of this (invalid) individual is known now
+		std::vector<parameterset_processing_result> processing_results;
+		for (std::size_t i = 0; i < this->getNStoredResults(); i++) {
+			processing_results.push_back(this->modifyStoredResult(i));
+		}
+		this->markAsProcessedWith(processing_results);
 	}
 }
 
-- 
2.43.0


From b93ae232e9ce04d3caef951fc1e0c9b1c3e220d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 48/88] fix: the diameter of sphere constraints was not
 serialized, and the gap of sum constraints not compared

---
 include/geneva-individuals/GFunctionIndividual.hpp | 3 ++-
 src/geneva-individuals/GFunctionIndividual.cpp     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/geneva-individuals/GFunctionIndividual.hpp b/include/geneva-individuals/GFunctionIndividual.hpp
index 9beb563..e71bbea 100644
--- a/include/geneva-individuals/GFunctionIndividual.hpp
+++ b/include/geneva-individuals/GFunctionIndividual.hpp
@@ -789,7 +789,8 @@ class GSphereConstraint : public GParameterSetConstraint {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint);
+		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint)
+		 & BOOST_SERIALIZATION_NVP(diameter_);
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 public:
diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 2e7e419..76e62a3 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -174,6 +174,7 @@ void GDoubleSumGapConstraint::compare_(
 
 	// ... and then the local data
 	Gem::Common::compare_t(IDENTITY(C_, p_load->C_), token);
+	Gem::Common::compare_t(IDENTITY(gap_, p_load->gap_), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
-- 
2.43.0


From 44c4305387be3de86fe7ec0c3c76031d5f7c17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 49/88] fix: sum constraints with a constant of 0 or below
 accepted parameter values that violate them

---
 src/geneva-individuals/GFunctionIndividual.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 76e62a3..f6953dd 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -111,10 +111,10 @@ double GDoubleSumConstraint::check_(
 		sum += *it;
 	}
 
-	if (sum < C_) {
+	if (sum <= C_) {
 		return 0.;
-	} else {
-		return sum / C_;
+	} else { // Note that C_ may be negative or 0
+		return 1. + (sum - C_) / (0. == C_ ? 1. : fabs(C_));
 	}
 }
 
@@ -211,7 +211,7 @@ double GDoubleSumGapConstraint::check_(
 	if (sum >= (C_ - gap_) && sum <= (C_ + gap_)) {
 		return 0.;
 	} else {
-		return 1. + fabs(sum - C_) / C_;
+		return 1. + fabs(sum - C_) / (0. == C_ ? 1. : fabs(C_)); // Note that C_ may be negative or 0
 	}
 }
 
-- 
2.43.0


From cf64c4332511dce2935b1c6dd5f26efe8676339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 50/88] fix: the children added by population growth were
 dropped in selection, and reaching the growth limit stopped the run

---
 src/geneva/G_OptimizationAlgorithm_ParChild.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
index a5b2c24..3b0116c 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
@@ -662,6 +662,9 @@ void G_OptimizationAlgorithm_ParChild::performScheduledPopulationGrowth() {
 		// Set a new default population size
 		this->setPopulationSizes(this->getDefaultPopulationSize() + m_growth_rate, this->getNParents());
 
+		// Selection keeps this number of children from now on
+		m_default_n_children = this->getDefaultPopulationSize() - this->getNParents();
+
 		// Add missing items as copies of the last individual in the list
 		this->resize_clone(G_OptimizationAlgorithm_Base::getDefaultPopulationSize(), G_OptimizationAlgorithm_Base::m_data_cnt[0]);
 	}
-- 
2.43.0


From dc4e8246f074d0f8ce5e5e31d0033f3cb7d1b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 51/88] fix: Pareto dominance compared only the first fitness
 criterion

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..6d386c3 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1172,12 +1172,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y, and at least one of them is better
+	bool isBetterInOne = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		double x = minOnly_transformed_fitness(x_ptr, i);
+		double y = minOnly_transformed_fitness(y_ptr, i);
+
+		if(x > y) return false;
+		if(x < y) isBetterInOne = true;
 	}
 
-	return true;
+	return isBetterInOne;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 60c73ce8cc8aca6455ef42e094381257acbb6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 52/88] fix: the comma Pareto mode selected old parents when
 fewer children than parents were non-dominated

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 6d386c3..97d92e7 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1126,10 +1126,14 @@ void GEvolutionaryAlgorithm::sortMuCommaNuParetoMode() {
 		// randomly shuffle pareto-front individuals to avoid a bias
 		std::shuffle(this->begin(), this->begin() + nIndividualsOnParetoFront, this->m_gr);
 	} else if (nIndividualsOnParetoFront < this->getNParents()) {
-		// Sort the non-pareto-front individuals according to their master fitness
+		// Sort the non-pareto-front individuals according to their master fitness.
+		// Former parents may not be selected in this mode, so they come last.
 		std::partial_sort(
 			this->begin() + nIndividualsOnParetoFront, this->begin() + this->m_n_parents, this->end(),
 			[](std::shared_ptr <GParameterSet> x_ptr, std::shared_ptr <GParameterSet> y_ptr) -> bool {
+				bool x_isParent = x_ptr->getPersonalityTraits<GEvolutionaryAlgorithm_PersonalityTraits>()->isParent();
+				bool y_isParent = y_ptr->getPersonalityTraits<GEvolutionaryAlgorithm_PersonalityTraits>()->isParent();
+				if(x_isParent != y_isParent) return y_isParent;
 				return minOnly_transformed_fitness(x_ptr) < minOnly_transformed_fitness(y_ptr);
 			}
 		);
-- 
2.43.0


From 37d4ed3344537548c4060c34b71d3975ee8872eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 53/88] fix: simulated annealing started at the default instead
 of the configured temperature

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..19f8153 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -244,6 +244,8 @@ void GSimulatedAnnealing::setT0(double t0) {
 	}
 
 	m_t0 = t0;
+	// Cooling starts at this temperature
+	m_t = m_t0;
 }
 
 /******************************************************************************/
-- 
2.43.0


From aa282728c4d2908196ad98acd21a5c790d182543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 54/88] fix: simulated annealing with fewer children than
 parents accessed members beyond the end of the population

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 19f8153..44bea89 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -648,16 +648,19 @@ std::shared_ptr<GPersonalityTraits> GSimulatedAnnealing::getPersonalityTraits_()
  * Performs a simulated annealing style sorting and selection
  */
 void GSimulatedAnnealing::sortSAMode() {
+	// There may be fewer children than parents. The last parents then have no competitor
+	std::size_t nCompetitors = std::min(this->m_n_parents, this->size() - this->m_n_parents);
+
 	// Position the nParents best children of the population right behind the parents
 	std::partial_sort(
-		this->begin() + this->m_n_parents, this->begin() + 2 * this->m_n_parents, this->end(),
+		this->begin() + this->m_n_parents, this->begin() + this->m_n_parents + nCompetitors, this->end(),
 		[](std::shared_ptr <GParameterSet> x_ptr, std::shared_ptr <GParameterSet> y_ptr) -> bool {
 			return minOnly_transformed_fitness(x_ptr) < minOnly_transformed_fitness(y_ptr);
 		}
 	);
 
 	// Check for each parent whether it should be replaced by the corresponding child
-	for (std::size_t np = 0; np < this->m_n_parents; np++) {
+	for (std::size_t np = 0; np < nCompetitors; np++) {
 		double pPass = saProb(
 			minOnly_transformed_fitness(this->at(np))
 			, minOnly_transformed_fitness(this->at(this->m_n_parents + np))
-- 
2.43.0


From 978f256ddbbed8dbbaa6c87bb216391ea95be7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 55/88] fix: swarm members replaced their personal best by
 worse positions and kept it when a better one was found

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..99b3204 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -497,8 +497,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
-- 
2.43.0


From 1818a86e449de39fec5852d0b082cfb119bf8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 56/88] fix: setSwarmSizes() did not make room for additional
 neighborhoods, whose counters were then written beyond the end of a vector

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 99b3204..eb2002a 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -331,6 +331,10 @@ void GSwarmAlgorithm::setSwarmSizes(
 	m_n_neighborhoods = (nNeighborhoods >= 1) ? nNeighborhoods : 1;
 	m_default_n_neighborhood_members = (defaultNNeighborhoodMembers >= 2) ? defaultNNeighborhoodMembers : 2;
 
+	// Make room for the new number of neighborhoods
+	m_n_neighborhood_members_cnt.resize(m_n_neighborhoods, 0);
+	m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
+
 	// Update our parent class'es values
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 }
-- 
2.43.0


From d30c8ce62eb44c77fbc121fe165b9ecce4d11a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 57/88] fix: swarms with more start individuals than members
 were refused in debug builds instead of being trimmed after the first
 iteration

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index eb2002a..f778ce3 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -890,8 +890,9 @@ void GSwarmAlgorithm::updatePositions() {
 	auto start = this->begin();
 
 #ifdef DEBUG
-	// Check that all neighborhoods have the default size
-	for(std::size_t n=0; n<m_n_neighborhoods; n++) {
+	// Check that all neighborhoods have the default size. The last neighborhood may have additional
+	// members in the first iteration, if the user has supplied more individuals than needed
+	for(std::size_t n=0; afterFirstIteration() && n<m_n_neighborhoods; n++) {
 		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
@@ -921,7 +922,7 @@ void GSwarmAlgorithm::updatePositions() {
 
 #ifdef DEBUG
 	// Cross-check that we have the nominal amount of individuals
-	if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
+	if(afterFirstIteration() && this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
@@ -953,7 +954,7 @@ void GSwarmAlgorithm::updatePositions() {
 		}
 
 		// Check that the number if individuals in each neighborhoods has the expected value
-		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
+		if(afterFirstIteration() && m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
-- 
2.43.0


From c6c9c602abcbbc2d90c002c58435bd16c0b8646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 58/88] fix: a swarm neighborhood without successful
 evaluations accessed members of other neighborhoods or beyond the end of the
 population

---
 ...rithm_SwarmAlgorithm_PersonalityTraits.hpp |  2 ++
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 21 ++++++++-----------
 ...rithm_SwarmAlgorithm_PersonalityTraits.cpp |  8 +++++++
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
index b480cc8..46fd5fe 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
@@ -102,6 +102,8 @@ public:
     G_API_GENEVA void registerPersonalBest(std::shared_ptr<GParameterSet>);
     /** @brief Allows to retrieve the personal best individual */
     G_API_GENEVA std::shared_ptr<GParameterSet> getPersonalBest() const;
+    /** @brief Checks whether a personal best has been registered */
+    G_API_GENEVA bool hasPersonalBest() const;
     /** @brief Resets the personal best individual */
     G_API_GENEVA void resetPersonalBest();
     /** @brief Retrieve quality of personally best individual */
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index f778ce3..ef6b514 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -102,7 +102,7 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	// Clone cp's best individuals in each neighborhood
 	if (cp.afterFirstIteration()) {
 		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_neighborhood_bests_cnt[i] = cp.m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
+			Gem::Common::copyCloneableSmartPointer(cp.m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 		}
 	}
 
@@ -500,7 +500,7 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 #endif /* DEBUG */
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
-	if(isBetter(
+	if(not ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->hasPersonalBest() || isBetter(
 		ind_ptr->transformed_fitness(0)
 		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
@@ -836,6 +836,7 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 					// Randomly initialize the item and prevent position updates
 					(*(m_data_cnt.begin() + firstNIPos))->randomInit(activityMode::ACTIVEONLY);
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNoPositionUpdate();
+					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->resetPersonalBest(); // it has visited no position yet
 
 					// Set the neighborhood as required
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNeighborhood(n);
@@ -936,14 +937,6 @@ void GSwarmAlgorithm::updatePositions() {
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
 #ifdef DEBUG
 		if(afterFirstIteration()) {
-			if(not m_neighborhood_bests_cnt[n]) {
-				throw gemfony_exception(
-					g_error_streamer(DO_LOG,  time_and_place)
-						<< "In GSwarmAlgorithm::updatePositions():" << std::endl
-						<< "m_neighborhood_bests_cnt[" << n << "] is empty." << std::endl
-				);
-			}
-
 			if(n==0 && not m_global_best_ptr) { // Only check for the first n
 				throw gemfony_exception(
 					g_error_streamer(DO_LOG,  time_and_place)
@@ -1317,6 +1310,9 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 		std::size_t firstCounter = getFirstNIPos(n);
 		std::size_t lastCounter = getLastNIPos(n);
 
+		// All evaluations of a neighborhood may have failed
+		if(firstCounter == lastCounter) continue;
+
 		// Only partially sort the arrays
 		std::sort(
 			this->begin() + firstCounter, this->begin() + lastCounter,
@@ -1327,7 +1323,7 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 
 		// Check whether the best individual of the neighborhood is better than
 		// the best individual found so far in this neighborhood
-		if (inFirstIteration()) {
+		if (inFirstIteration() || not m_neighborhood_bests_cnt.at(n)) {
 			m_neighborhood_bests_cnt.at(n) = (*(this->begin() + firstCounter))->clone<GParameterSet>();
 		}
 		else {
@@ -1343,7 +1339,8 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 
 	// Identify the best individuals among all neighborhood bests
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if(isBetter(
+		if(not m_neighborhood_bests_cnt.at(n)) continue;
+		if(not m_neighborhood_bests_cnt.at(bestLocalId) || isBetter(
 			(m_neighborhood_bests_cnt.at(n))->transformed_fitness(0)
 			, std::get<G_TRANSFORMED_FITNESS>(bestLocalFitness)
 			, m
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
index 56edc9c..00bac45 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
@@ -229,6 +229,14 @@ std::shared_ptr <GParameterSet> GSwarmAlgorithm_PersonalityTraits::getPersonalBe
  * ----------------------------------------------------------------------------------
  */
 
+/******************************************************************************/
+/**
+ * Checks whether a personal best has been registered
+ */
+bool GSwarmAlgorithm_PersonalityTraits::hasPersonalBest() const {
+	return static_cast<bool>(personal_best_);
+}
+
 /******************************************************************************/
 /**
  * Resets the personally best individual by assigning a default-constructed
-- 
2.43.0


From e95a569a044106e7a6be0b19f34fae5e0d62b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 59/88] fix: swarm velocities were stored as constrained
 parameters, which mapped them to the value ranges of the positions

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.hpp |  4 +--
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 36 +++++--------------
 2 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
index 35116fe..44a4422 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
@@ -256,7 +256,7 @@ protected:
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
-		 , std::shared_ptr<GParameterSet>
+		 , std::vector<double>&
 		 , std::tuple<double, double, double, double>
 	 );
 
@@ -275,7 +275,7 @@ protected:
 	 std::shared_ptr<GParameterSet> m_global_best_ptr; ///< The globally best individual
 
 	 std::vector<std::shared_ptr<GParameterSet>> m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); ///< The collection of best individuals from each neighborhood
-	 std::vector<std::shared_ptr<GParameterSet>> m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); ///< Holds velocities, as calculated in the previous iteration
+	 std::vector<std::vector<double>> m_velocities_cnt = std::vector<std::vector<double>>(); ///< Holds velocities, as calculated in the previous iteration
 
 	 double m_c_personal = DEFAULTCPERSONAL; ///< A factor for multiplication of personal best distances
 	 double m_c_neighborhood = DEFAULTCNEIGHBORHOOD; ///< A factor for multiplication of neighborhood best distances
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index ef6b514..d186a90 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -280,7 +280,7 @@ void GSwarmAlgorithm::resetToOptimizationStart_() {
 	m_global_best_ptr.reset(); // The globally best individual
 
 	m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); // The collection of best individuals from each neighborhood
-	m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); // Holds velocities, as calculated in the previous iteration
+	m_velocities_cnt = std::vector<std::vector<double>>(); // Holds velocities, as calculated in the previous iteration
 
 	m_dbl_lower_parameter_boundaries_cnt.clear(); // Holds lower boundaries of double parameters
 	m_dbl_upper_parameter_boundaries_cnt.clear(); // Holds upper boundaries of double parameters
@@ -637,7 +637,8 @@ void GSwarmAlgorithm::init() {
 	// Make sure the m_velocities_cnt vector is really empty
 	m_velocities_cnt.clear();
 
-	// Create copies of our individuals in the m_velocities_cnt vector.
+	// Assign an initial velocity to each individual. Velocities are not stored as parameter objects, as
+	// these would map them to the value ranges of the parameters
 	std::size_t pos = 0;
 	for(const auto& ind_ptr: *this) {
 #ifdef DEBUG
@@ -650,15 +651,9 @@ void GSwarmAlgorithm::init() {
 		}
 #endif /* DEBUG */
 
-		// Create a copy of the current individual. Note that, if you happen
-		// to have assigned anything else than a GParameterSet derivative to
-		// the swarm, then the following line will throw in DEBUG mode or return
-		// undefined results in RELEASE mode
-		std::shared_ptr<GParameterSet> p(ind_ptr->clone<GParameterSet>());
-
 		// Extract the parameter vector
 		std::vector<double> velVec;
-		p->streamline(velVec, activityMode::ACTIVEONLY);
+		ind_ptr->streamline(velVec, activityMode::ACTIVEONLY);
 
 #ifdef DEBUG
 		// Check that the number of parameters equals those in the velocity boundaries
@@ -680,12 +675,8 @@ void GSwarmAlgorithm::init() {
 				G_OptimizationAlgorithm_Base::m_uniform_real_distribution(m_gr, std::uniform_real_distribution<double>::param_type(-range,range));
 		}
 
-		// Load the array into the velocity object
-		p->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
-		p->mark_as_due_for_processing(); // Catch cases where a value is calculated for the velocity individual
-
 		// Add the initialized velocity to the array.
-		m_velocities_cnt.push_back(p);
+		m_velocities_cnt.push_back(velVec);
 
 		pos++;
 	}
@@ -995,7 +986,7 @@ void GSwarmAlgorithm::updateIndividualPositions(
 	, std::shared_ptr <GParameterSet> ind
 	, std::shared_ptr <GParameterSet> neighborhood_best
 	, std::shared_ptr <GParameterSet> global_best
-	, std::shared_ptr <GParameterSet> velocity
+	, std::vector<double>& velocity
 	, std::tuple<double, double, double, double> constants
 ) {
 	// Extract the constants from the tuple
@@ -1044,24 +1035,15 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		);
 	}
 
-	if(not velocity) {
-		throw gemfony_exception(
-			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GSwarmAlgorithm::updateIndividualPositions():" << std::endl
-				<< "Found empty individual \"velocity\"" << std::endl
-		);
-	}
-
 #endif /* DEBUG */
 
 	// Extract the vectors for the individual, the personal, neighborhood and global bests,
 	// as well as the velocity
-	std::vector<double> indVec, personalBestVec, nbhBestVec, glbBestVec, velVec;
+	std::vector<double> indVec, personalBestVec, nbhBestVec, glbBestVec, velVec = velocity;
 	ind->streamline(indVec, activityMode::ACTIVEONLY);
 	personal_best->streamline(personalBestVec, activityMode::ACTIVEONLY);
 	neighborhood_best->streamline(nbhBestVec, activityMode::ACTIVEONLY);
 	global_best->streamline(glbBestVec, activityMode::ACTIVEONLY);
-	velocity->streamline(velVec, activityMode::ACTIVEONLY);
 
 	// Subtract the individual vector from the personal, neighborhood and global bests
 	Gem::Common::subtractVec<double>(personalBestVec, indVec);
@@ -1112,8 +1094,8 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		Gem::Common::addVec<double>(indVec, velVec); // attraction - walk towards best known individuals
 	}
 
-	// Update the velocity individual
-	velocity->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
+	// Update the velocity
+	velocity = velVec;
 
 	// Update the candidate solution
 	ind->assignValueVector<double>(indVec, activityMode::ACTIVEONLY);
-- 
2.43.0


From 96e4415098026634e9c46d883226b817e0cbaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 60/88] fix: the setters of gradient descent checked the old
 instead of the new finite step and step size

---
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..cebbdeb 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -105,11 +105,11 @@ void GGradientDescent::setNStartingPoints(std::size_t nStartingPoints) {
  */
 void GGradientDescent::setFiniteStep(double finiteStep) {
 	// Check that finiteStep_ has an appropriate value
-	if (finiteStep_ <= 0. || finiteStep_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	if (finiteStep <= 0. || finiteStep > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setFiniteStep(double): Error!" << std::endl
-				<< "Invalid values of finiteStep_: " << finiteStep_ << std::endl
+				<< "Invalid value of finiteStep: " << finiteStep << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
@@ -135,11 +135,11 @@ double GGradientDescent::getFiniteStep() const {
  */
 void GGradientDescent::setStepSize(double stepSize) {
 	// Check that stepSize_ has an appropriate value
-	if (stepSize_ <= 0. || stepSize_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	if (stepSize <= 0. || stepSize > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setStepSize(double): Error!" << std::endl
-				<< "Invalid values of stepSize_: " << stepSize_ << std::endl
+				<< "Invalid value of stepSize: " << stepSize << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
-- 
2.43.0


From e5b0e16285866c3ca060967b13e371b1b884e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 61/88] fix: copies of parameter scan dimensions lost their
 grid points and number of steps

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..81a8eea 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From f0c0f5628434bcd250eb4b3e7249f09bc28787d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 62/88] fix: grid scans of integer and boolean parameters used
 a number of steps unrelated to their grid points

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 81a8eea..76b3007 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -203,6 +203,9 @@ public:
                 , m_lower
                 , m_upper
             );
+
+            // The number of grid points of integer and boolean parameters does not depend on the number of steps
+            m_nSteps = this->m_data_cnt.size();
         }
     }
 
-- 
2.43.0


From 005ac08d9498e88b044ddb6f43c06f3dc2f2ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 63/88] fix: random scans of integer parameters produced values
 above their upper boundary

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 76b3007..e4bbe15 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -425,7 +425,7 @@ inline std::int32_t baseScanParT<std::int32_t>::getRandomItem(
         gr
         , std::uniform_int_distribution<std::int32_t>::param_type(
             m_lower
-            , m_upper + 1
+            , m_upper // inclusive
         ));
 }
 
-- 
2.43.0


From b2f8ae7035dd306d3cb5b000bfbd569ad1638dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 64/88] fix: simple parameter scans did not count the last
 individual of each population and kept one individual too many at their end

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..9099e1b 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -738,11 +738,6 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
-
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
 		// been performed
@@ -759,6 +754,11 @@ void GParameterScan::randomShuffle() {
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (++indPos >= this->getDefaultPopulationSize()) break;
 	}
 }
 
-- 
2.43.0


From dd18eaeeef4f677754642daaf7bad2a0ad4302ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 65/88] fix: the number of simple scans was forgotten after a
 run, so that a second run accessed an empty list of parameters

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 9099e1b..bc58533 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -786,8 +786,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From ec76e0c4628c9c2d6ce4aca602e5cbf8d9d87afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 66/88] fix: a parameter scan without any parameters accessed
 the first element of an empty list

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index bc58533..d3b2d2c 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -1190,6 +1190,15 @@ void GParameterScan::init() {
 
 	// Copy all parameter objects to the central vector for easier handling
 	this->fillAllParVec();
+
+	// There needs to be something to scan
+	if (0 == m_simpleScanItems && m_all_par_cnt.empty()) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParameterScan::init(): Error!" << std::endl
+				<< "Neither parameters nor a number of simple scans have been specified" << std::endl
+		);
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From 594b493f39b6488a95b35d82ccb7a7195dc2edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 67/88] fix: the configuration option scanRandomly was
 evaluated after the scan parameters had been set up and hence had no effect

---
 .../G_OptimizationAlgorithm_ParameterScan.cpp     | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index d3b2d2c..c56fbad 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -974,13 +974,7 @@ void GParameterScan::addConfigurationOptions_(
 	)
 		<< "The total size of the population";
 
-	gpb.registerFileParameter<std::string>(
-		"parameterOptions"
-		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
-		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
-	)
-		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
-
+	// Needs to be known when the parameter specifications are evaluated
 	gpb.registerFileParameter<bool>(
 		"scanRandomly" // The name of the variable
 		, true // The default value
@@ -989,6 +983,13 @@ void GParameterScan::addConfigurationOptions_(
 		<< "Indicates whether scans of individual variables should be done randomly" << std::endl
 		<< "(1) or on a grid (0)";
 
+	gpb.registerFileParameter<std::string>(
+		"parameterOptions"
+		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
+		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
+	)
+		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
+
 	// Override the default value of maxStallIteration, as the parent
 	// default does not make sense for us (we do not need stall iterations)
 	gpb.resetFileParameterDefaults(
-- 
2.43.0


From a7692f46456067c6ccc0820c9437259d4d9d797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 68/88] fix: a second optimization run with the same executor
 threw, as the executor's iteration counter was not reset

---
 include/courtier/GExecutorT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 03c400c..a9327ed 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -204,6 +204,10 @@ public:
 	  * General initialization function to be called prior to the first submission
 	  */
 	 void init() {
+		 // Submissions are counted anew, so that this object may be used for repeated
+		 // runs (whose external iteration counters start again with small values)
+		 m_iteration_counter = ITERATION_COUNTER_TYPE(0);
+
 		 this->init_();
 	 }
 
-- 
2.43.0


From 0663a228aea03d4a12c28db00474e0fa3a1e1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 69/88] fix: setMaxIteration and setMinIteration checked the
 previous instead of the new limits, so that valid settings were refused

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..aa2e44a 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From 9ac05f64d29fc1c69034df3b387d2ee92d3fe900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 70/88] fix: simulated annealing lost the start individuals it
 replaced in the first iteration for the list of best individuals, even if
 they were the best ever evaluated

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 44bea89..6d6a436 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -665,13 +665,15 @@ void GSimulatedAnnealing::sortSAMode() {
 			minOnly_transformed_fitness(this->at(np))
 			, minOnly_transformed_fitness(this->at(this->m_n_parents + np))
 		);
+		// Parent and child change places rather than copying the child, so that the individual
+		// replaced (in the first iteration it was evaluated, too) is not lost for the list of best individuals
 		if (pPass >= 1.) {
-			this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+			std::swap(this->at(np), this->at(this->m_n_parents + np));
 		} else {
 			double challenge =
 				this->m_uniform_real_distribution(this->m_gr, std::uniform_real_distribution<double>::param_type(0.,1.));
 			if (challenge < pPass) {
-				this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+				std::swap(this->at(np), this->at(this->m_n_parents + np));
 			}
 		}
 	}
-- 
2.43.0


From 71eaa51ded33c1d2179f81e2e80e86f059ae4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 71/88] fix: evolutionary algorithm and simulated annealing
 refused to start in debug builds when given more individuals than their
 population holds, e.g. by a preceding algorithm

---
 src/geneva/G_OptimizationAlgorithm_ParChild.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
index 3b0116c..0e5cf4a 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
@@ -646,6 +646,11 @@ void G_OptimizationAlgorithm_ParChild::adjustPopulation_() {
 			(*it)->randomInit(activityMode::ACTIVEONLY);
 		}
 	}
+	// Remove surplus individuals (e.g. when a preceding algorithm has handed over more individuals
+	// than fit into this population). Note that children are replaced in the first iteration anyway.
+	else if(this_sz > G_OptimizationAlgorithm_Base::getDefaultPopulationSize()) {
+		G_OptimizationAlgorithm_Base::m_data_cnt.resize(G_OptimizationAlgorithm_Base::getDefaultPopulationSize());
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From d8a827e2260fb28daf4e722d5b6d14568cae7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 72/88] fix: the iteration offset of optimization algorithms
 was not copied by the copy constructor although it is compared, loaded and
 serialized

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index aa2e44a..7335884 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -189,7 +189,7 @@ G_OptimizationAlgorithm_Base::G_OptimizationAlgorithm_Base(const G_OptimizationA
 	: GObject(cp)
 	  , Gem::Common::GPtrVectorT<GParameterSet, Gem::Geneva::GObject>(cp)
 	  , m_iteration(cp.m_iteration)
-	  , m_offset(DEFAULTOFFSET)
+	  , m_offset(cp.m_offset)
 	  , m_minIteration(cp.m_minIteration)
 	  , m_maxIteration(cp.m_maxIteration)
 	  , m_maxStallIteration(cp.m_maxStallIteration)
-- 
2.43.0


From 78dfb5a23fadefd05bcf851d77e8edc3ffbfe0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 73/88] fix: the best individuals of the iteration were not
 serialized, so that an algorithm restored from a file did not equal the saved
 one

---
 include/geneva/G_OptimizationAlgorithm_Base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_Base.hpp b/include/geneva/G_OptimizationAlgorithm_Base.hpp
index e8b4114..9fe954d 100644
--- a/include/geneva/G_OptimizationAlgorithm_Base.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_Base.hpp
@@ -204,6 +204,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
@@ -253,6 +254,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
-- 
2.43.0


From 1e825f750cd53725c5384128a84048d301e9a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 74/88] fix: XML serialization threw for classes with a
 template instance as base class (invalid tag names)

---
 include/common/GCanvas.hpp                             |  6 +++---
 .../GExternalEvaluatorIndividual.hpp                   |  2 +-
 include/geneva/GParameterSetFactory.hpp                |  2 +-
 .../geneva/G_OptimizationAlgorithm_ParameterScan.hpp   | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/common/GCanvas.hpp b/include/common/GCanvas.hpp
index 334d279..cfa7be1 100644
--- a/include/common/GCanvas.hpp
+++ b/include/common/GCanvas.hpp
@@ -999,7 +999,7 @@ class GCanvas8 : public GCanvas<8> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<8>);
+		 ar &boost::serialization::make_nvp("GCanvas_8", boost::serialization::base_object<GCanvas<8>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
@@ -1048,7 +1048,7 @@ class GCanvas16 : public GCanvas<16>
 		using boost::serialization::make_nvp;
 
 		ar
-		& BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<16>);
+		& boost::serialization::make_nvp("GCanvas_16", boost::serialization::base_object<GCanvas<16>>(*this));
 	}
 	///////////////////////////////////////////////////////////////////////
 
@@ -1098,7 +1098,7 @@ class GCanvas24 : public GCanvas<24> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<24>);
+		 ar &boost::serialization::make_nvp("GCanvas_24", boost::serialization::base_object<GCanvas<24>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index f8b3b67..c207b80 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -258,7 +258,7 @@ class GExternalEvaluatorIndividualFactory
 		 using namespace Gem::Common;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_adProb)
 		 & BOOST_SERIALIZATION_NVP(m_adaptAdProb)
 		 & BOOST_SERIALIZATION_NVP(m_minAdProb)
diff --git a/include/geneva/GParameterSetFactory.hpp b/include/geneva/GParameterSetFactory.hpp
index 91839ca..d55c4e0 100644
--- a/include/geneva/GParameterSetFactory.hpp
+++ b/include/geneva/GParameterSetFactory.hpp
@@ -66,7 +66,7 @@ class GParameterSetFactory
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<Gem::Common::GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_preProcessor)
 		 & BOOST_SERIALIZATION_NVP(m_postProcessor);
 	 }
diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index e4bbe15..91f5fef 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -165,7 +165,7 @@ class baseScanParT
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GPODVectorT<T>)
+        & boost::serialization::make_nvp("GPODVectorT_T", boost::serialization::base_object<Gem::Common::GPODVectorT<T>>(*this))
         & BOOST_SERIALIZATION_NVP(m_var)
         & BOOST_SERIALIZATION_NVP(m_step)
         & BOOST_SERIALIZATION_NVP(m_nSteps)
@@ -447,7 +447,7 @@ class bScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<bool>);
+        & boost::serialization::make_nvp("baseScanParT_bool", boost::serialization::base_object<baseScanParT<bool>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -489,7 +489,7 @@ class int32ScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<std::int32_t>);
+        & boost::serialization::make_nvp("baseScanParT_int32_t", boost::serialization::base_object<baseScanParT<std::int32_t>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -531,7 +531,7 @@ class dScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<double>);
+        & boost::serialization::make_nvp("baseScanParT_double", boost::serialization::base_object<baseScanParT<double>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -574,7 +574,7 @@ class fScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<float>);
+        & boost::serialization::make_nvp("baseScanParT_float", boost::serialization::base_object<baseScanParT<float>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ed5b63fb02611132e707c0be404e765ad963b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 75/88] fix: copies of swarm algorithms lacked the best
 individuals after the first iteration; loading one without a globally best
 individual cloned the algorithm itself in place of its best individual

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 71 +++----------------
 1 file changed, 8 insertions(+), 63 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d186a90..2b9592c 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -78,8 +78,6 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	  , m_n_neighborhoods(cp.m_n_neighborhoods)
 	  , m_default_n_neighborhood_members(cp.m_default_n_neighborhood_members)
 	  , m_n_neighborhood_members_cnt(cp.m_n_neighborhood_members_cnt)
-	  , m_global_best_ptr((cp.afterFirstIteration()) ? (cp.m_global_best_ptr)->clone<GParameterSet>() : std::shared_ptr<GParameterSet>())
-	  , m_neighborhood_bests_cnt(m_n_neighborhoods) // We copy the smart pointers over later
 	  , m_c_personal(cp.m_c_personal)
 	  , m_c_neighborhood(cp.m_c_neighborhood)
 	  , m_c_global(cp.m_c_global)
@@ -99,12 +97,9 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	// inside of the "optimize()" call.
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 
-	// Clone cp's best individuals in each neighborhood
-	if (cp.afterFirstIteration()) {
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			Gem::Common::copyCloneableSmartPointer(cp.m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
-		}
-	}
+	// Clone cp's globally best individual and the best individuals in each neighborhood
+	Gem::Common::copyCloneableSmartPointer(cp.m_global_best_ptr, m_global_best_ptr);
+	Gem::Common::copyCloneableSmartPointerContainer(cp.m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
 
 	// Copying / setting of the optimization algorithm id is done by the parent class. The same
 	// applies to the copying of the optimization monitor.
@@ -150,62 +145,12 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 
 	m_velocity_range_percentage = p_load->m_velocity_range_percentage;
 
-	// We start from scratch if the number of neighborhoods or the alleged number of members in them differ
-	if (m_n_neighborhoods != p_load->m_n_neighborhoods ||
-		 not nNeighborhoodMembersEqual(m_n_neighborhood_members_cnt, p_load->m_n_neighborhood_members_cnt)) {
-		m_n_neighborhoods = p_load->m_n_neighborhoods;
-
-		m_n_neighborhood_members_cnt.clear();
-		m_neighborhood_bests_cnt.clear();
-
-		m_n_neighborhood_members_cnt.resize(m_n_neighborhoods);
-		m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
-
-		// Copy the neighborhood bests and number of neighborhood members over
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_n_neighborhood_members_cnt[i] = p_load->m_n_neighborhood_members_cnt[i];
-			// The following only makes sense if this is not the first iteration. Note that
-			// getIteration will return the "foreign" GSwarmAlgorithm object's iteration, as it has
-			// already been copied.
-			if (afterFirstIteration()) {
-				m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-			}
-			// we do not need to reset the m_neighborhood_bests_cnt, as that array has just been created
-		}
-	}
-	else { // We now assume that we can just load neighborhood bests in each position.
-		// Copying only makes sense if the foreign GSwarmAlgorithm object's iteration is larger
-		// than the iteration offset. Note that getIteration() will return the foreign iteration,
-		// as that value has already been copied.
-		if (afterFirstIteration()) {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				// We might be in a situation where the std::shared_ptr which usually
-				// holds the neighborhood bests has not yet been initialized
-				if (m_neighborhood_bests_cnt[i]) {
-					m_neighborhood_bests_cnt[i]->GObject::load(p_load->m_neighborhood_bests_cnt[i]);
-				} else {
-					m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-				}
-			}
-		} else {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				m_neighborhood_bests_cnt[i].reset();
-			}
-		}
-	}
+	m_n_neighborhoods = p_load->m_n_neighborhoods;
+	m_n_neighborhood_members_cnt = p_load->m_n_neighborhood_members_cnt;
 
-	// Copy the global best over
-	if (p_load->afterFirstIteration()) { // cp has a global best, we don't
-		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
-			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
-		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
-		}
-	}
-	else if (p_load->inFirstIteration()) { // cp does not have a global best
-		m_global_best_ptr.reset(); // empty the smart pointer
-	}
-	// else {} // We do not need to do anything if both iterations are 0 as there is no global best at all
+	// Copy the globally best individual and the best individuals in each neighborhood over
+	Gem::Common::copyCloneableSmartPointer(p_load->m_global_best_ptr, m_global_best_ptr);
+	Gem::Common::copyCloneableSmartPointerContainer(p_load->m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 5415ff3b539f5506570f8770ce1259ffee93baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 76/88] fix: gradient descents loaded from another object or a
 file did not equal the original after an optimization run, as some members
 were compared but neither loaded nor serialized

---
 .../geneva/G_OptimizationAlgorithm_GradientDescent.hpp    | 6 +++++-
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp    | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp b/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
index 8679fab..99e2e60 100644
--- a/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
@@ -95,7 +95,11 @@ class GGradientDescent
         & BOOST_SERIALIZATION_NVP(nStartingPoints_)
         & BOOST_SERIALIZATION_NVP(nFPParmsFirst_)
         & BOOST_SERIALIZATION_NVP(finiteStep_)
-        & BOOST_SERIALIZATION_NVP(stepSize_);
+        & BOOST_SERIALIZATION_NVP(stepSize_)
+        & BOOST_SERIALIZATION_NVP(stepRatio_)
+        & BOOST_SERIALIZATION_NVP(dblLowerParameterBoundaries_)
+        & BOOST_SERIALIZATION_NVP(dblUpperParameterBoundaries_)
+        & BOOST_SERIALIZATION_NVP(adjustedFiniteStep_);
     }
 
     ///////////////////////////////////////////////////////////////////////
diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index cebbdeb..0809f15 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -267,10 +267,10 @@ void GGradientDescent::load_(const GObject *cp) {
 	nFPParmsFirst_ = p_load->nFPParmsFirst_;
 	finiteStep_ = p_load->finiteStep_;
 	stepSize_ = p_load->stepSize_;
-	// stepRatio_ = p_load->stepRatio_; // temporary parameter
-	// m_dbl_lower_parameter_boundaries_cnt = p_load->m_dbl_lower_parameter_boundaries_cnt; // temporary parameter
-	// m_dbl_upper_parameter_boundaries_cnt = p_load->m_dbl_upper_parameter_boundaries_cnt; // temporary parameter
-	// adjustedFiniteStep_ = p_load->adjustedFiniteStep_; // temporary parameter
+	stepRatio_ = p_load->stepRatio_;
+	dblLowerParameterBoundaries_ = p_load->dblLowerParameterBoundaries_;
+	dblUpperParameterBoundaries_ = p_load->dblUpperParameterBoundaries_;
+	adjustedFiniteStep_ = p_load->adjustedFiniteStep_;
 }
 
 /******************************************************************************/
-- 
2.43.0


From d7c8c388610444565b7797836bbab7d4e315969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 77/88] fix: the halt flag of parameter scans was compared and
 loaded but not serialized

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 91f5fef..dbf1dac 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -668,6 +668,7 @@ class GParameterScan
         & make_nvp(
             "G_OptimizationAlgorithm_Base"
             , boost::serialization::base_object<G_OptimizationAlgorithm_Base>(*this))
+        & BOOST_SERIALIZATION_NVP(m_cycleLogicHalt)
         & BOOST_SERIALIZATION_NVP(m_scanRandomly)
         & BOOST_SERIALIZATION_NVP(m_nMonitorInds)
         & BOOST_SERIALIZATION_NVP(m_b_cnt)
-- 
2.43.0


From 73f1e4ab5e58a02b32a27ebf018920dc8d16d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 78/88] fix: a checkpoint was deleted right after it had been
 written if the preceding one had the same name

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 7335884..7d6c474 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -265,7 +265,7 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 		saveCheckpoint(output_file);
 
 		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From 2a36d33f7dbcc720d30a64e39206142eae75644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 79/88] fix: comparing objects which hold objects of different
 types threw a conversion error instead of reporting that they differ

---
 include/common/GExpectationChecksT.hpp | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/common/GExpectationChecksT.hpp b/include/common/GExpectationChecksT.hpp
index 1c64134..17fea91 100644
--- a/include/common/GExpectationChecksT.hpp
+++ b/include/common/GExpectationChecksT.hpp
@@ -1052,6 +1052,14 @@ void compare(
 
             // If we reach this line, then both pointers have content
 
+            // Objects of different types cannot be equal (and compare() can only deal with objects of the same type)
+            if (typeid(*x) != typeid(*y)) {
+                error
+                    << "Content of " << x_name << " and " << y_name << " has different types." << std::endl
+                    << "Thus the expectation of " << expectation_str << " was violated" << std::endl;
+                break; // The expectation was clearly not met
+            }
+
             { // Check whether the content differs
                 try {
                     x->compare(
@@ -1087,6 +1095,12 @@ void compare(
                 break; // The expectation was not met
             }
 
+            // Objects of different types cannot be equal
+            if (typeid(*x) != typeid(*y)) {
+                expectationMet = true;
+                break;
+            }
+
             // Check whether the content differs
             try {
                 x->compare(
@@ -1183,6 +1197,16 @@ void compare(
                     continue; // Go on with next iteration in the loop
                 }
 
+                // Objects of different types cannot be equal (and compare() can only deal with objects of the same type)
+                if (typeid(**x_it) != typeid(**y_it)) {
+                    error
+                        << "Content of " << x_name << "[" << index << "] and " << y_name << "[" << index << "] has different types."
+                        << std::endl
+                        << "Thus the expectation of " << expectation_str << " was violated" << std::endl;
+                    foundDeviation = true;
+                    break; // Terminate the loop
+                }
+
                 // At this point we know that both pointers have content. We can now check the content
                 // which is assumed to have the compare() function
                 try {
@@ -1231,6 +1255,12 @@ void compare(
                     continue; // Go on with next iteration in the loop - there is nothing to check here
                 }
 
+                // Objects of different types cannot be equal
+                if (typeid(**x_it) != typeid(**y_it)) {
+                    foundInequality = true;
+                    break; // terminate the loop
+                }
+
                 // At this point we know that both pointers have content. We can now check this content
                 // which is assumed to have the compare() function
                 try {
-- 
2.43.0


From a34ab120378d434341c280b7e74c0b58d93549ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 80/88] fix: copies of individuals lost the random crash
 settings, which are serialized but were neither copied nor loaded

---
 src/geneva/GParameterSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 5c3bdd5..11f8c12 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -231,6 +231,8 @@ GParameterSet::GParameterSet(GParameterSet const &cp)
    , m_max_unsuccessful_adaptions(cp.m_max_unsuccessful_adaptions)
    , m_max_retries_until_valid(cp.m_max_retries_until_valid)
    , m_n_adaptions(cp.m_n_adaptions)
+   , m_useRandomCrash(cp.m_useRandomCrash)
+   , m_randomCrashProb(cp.m_randomCrashProb)
 {
 	// Copy the personality pointer over
 	Gem::Common::copyCloneableSmartPointer(cp.m_pt_ptr, m_pt_ptr);
@@ -1620,6 +1622,8 @@ void GParameterSet::load_(const GObject *cp) {
 	m_max_unsuccessful_adaptions = p_load->m_max_unsuccessful_adaptions;
 	m_max_retries_until_valid = p_load->m_max_retries_until_valid;
 	m_n_adaptions = p_load->m_n_adaptions;
+	m_useRandomCrash = p_load->m_useRandomCrash;
+	m_randomCrashProb = p_load->m_randomCrashProb;
 
 	Gem::Common::copyCloneableSmartPointer(p_load->m_pt_ptr, m_pt_ptr);
 	Gem::Common::copyCloneableSmartPointer(p_load->m_individual_constraint_ptr, m_individual_constraint_ptr);
-- 
2.43.0


From 92da2c8becbf13be014eeac98b0c1ea8bd9cf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 81/88] fix: copies of monitors lost the setting for the use of
 raw evaluations and, for the logging of processing times, the number of bins
 in y

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 3 ++-
 src/geneva/GPluggableOptimizationMonitors.cpp     | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 9daf7fc..476f754 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1515,7 +1515,8 @@ public:
 	  * The copy constructor
 	  */
 	 GAdaptorPropertyLoggerT(const GAdaptorPropertyLoggerT<num_type>& cp)
-	    : m_fileName(cp.m_fileName)
+	    : GBasePluggableOM(cp)
+		, m_fileName(cp.m_fileName)
 		, m_adaptorName(cp.m_adaptorName)
 		, m_property(cp.m_property)
 		, m_canvasDimensions(cp.m_canvasDimensions)
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..4a8d992 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1438,7 +1438,8 @@ GNAdpationsLogger::GNAdpationsLogger(const std::string& fileName)
  * The copy constructor
  */
 GNAdpationsLogger::GNAdpationsLogger(const GNAdpationsLogger& cp)
-	: m_fileName(cp.m_fileName)
+	: GBasePluggableOM(cp)
+	  , m_fileName(cp.m_fileName)
 	  , m_canvasDimensions(cp.m_canvasDimensions)
 	  , m_gpd(cp.m_gpd)
 	  , m_monitorBestOnly(cp.m_monitorBestOnly)
@@ -2260,6 +2261,7 @@ void GProcessingTimesLogger::load_(const GObject* cp) {
 	Gem::Common::copyCloneableSmartPointer(p_load->m_all_processing_times_hist2D, m_all_processing_times_hist2D);
 
 	m_nBinsX = p_load->m_nBinsX;
+	m_nBinsY = p_load->m_nBinsY;
 }
 
 /************************************************************************/
-- 
2.43.0


From 71097040468eb22ac0325077fc843133c1f08b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:24 +0000
Subject: [PATCH 82/88] fix: the plotters registered with plot designers were
 compared and copied but not serialized

---
 include/common/GPlotDesigner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..34c5edf 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -4440,6 +4440,7 @@ class GPlotDesigner
         using boost::serialization::make_nvp;
 
         ar
+        & BOOST_SERIALIZATION_NVP(m_plotters_cnt)
         & BOOST_SERIALIZATION_NVP(m_c_x_div)
         & BOOST_SERIALIZATION_NVP(m_c_y_div)
         & BOOST_SERIALIZATION_NVP(m_c_x_dim)
-- 
2.43.0


From 8d98d1e8409f13fbca748393067586aca12cce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 83/88] fix: copies of monitors for processing times shared
 their histograms with the original, so comparing them threw

---
 .../geneva/GPluggableOptimizationMonitors.hpp |  2 +-
 src/geneva/GPluggableOptimizationMonitors.cpp | 27 +++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 476f754..38e1fd4 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -2018,7 +2018,7 @@ public:
 		 , std::size_t nBinsY
 	 );
 	 /** @brief The copy constructor */
-	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp) = default;
+	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp);
 	 /** @brief  The destructor */
 	 G_API_GENEVA ~GProcessingTimesLogger() override = default;
 
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 4a8d992..316b26f 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1882,6 +1882,33 @@ void GProcessingTimesLogger::compare_(
 	token.evaluate();
 }
 
+/******************************************************************************/
+/**
+ * The copy constructor
+ */
+GProcessingTimesLogger::GProcessingTimesLogger(const GProcessingTimesLogger& cp)
+	: GBasePluggableOM(cp)
+	  , m_fileName_pth(cp.m_fileName_pth)
+	  , m_canvasDimensions_pth(cp.m_canvasDimensions_pth)
+	  , m_gpd_pth(cp.m_gpd_pth)
+	  , m_fileName_pth2(cp.m_fileName_pth2)
+	  , m_canvasDimensions_pth2(cp.m_canvasDimensions_pth2)
+	  , m_gpd_pth2(cp.m_gpd_pth2)
+	  , m_fileName_txt(cp.m_fileName_txt)
+	  , m_nBinsX(cp.m_nBinsX)
+	  , m_nBinsY(cp.m_nBinsY)
+{
+	// The histograms must not be shared with the other object
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist, m_pre_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist, m_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist, m_post_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist, m_all_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist2D, m_pre_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist2D, m_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist2D, m_post_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist2D, m_all_processing_times_hist2D);
+}
+
 /******************************************************************************/
 /**
  * Sets the file name for the processing times histogram
-- 
2.43.0


From 50e88830098a69098d1a391485548f1d7eeca7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 84/88] fix: networked clients terminated, and lost the work
 item, if its processing threw

---
 include/courtier/GAsioConsumerT.hpp      | 13 ++++++++++++-
 include/courtier/GMPIConsumerT.hpp       | 13 ++++++++++++-
 include/courtier/GWebsocketConsumerT.hpp | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 1f8fd2c..ac886ec 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -397,7 +397,18 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item ...
-				 m_command_container.process();
+				 // An error in the user code invalidates the work item, but neither the client nor
+				 // the connection. The item has noted the error and is returned to the server.
+				 try {
+				 	m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+				 	glogger
+				 	<< "GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+				 	<< "The work item has flagged a processing exception with the message" << std::endl
+				 	<< e << std::endl
+				 	<< "The item will be returned." << std::endl
+				 	<< GWARNING;
+				 }
 
 				 // Update the processed counter
 		       this->incrementProcessingCounter();
diff --git a/include/courtier/GMPIConsumerT.hpp b/include/courtier/GMPIConsumerT.hpp
index 1e77e4f..82c0d65 100644
--- a/include/courtier/GMPIConsumerT.hpp
+++ b/include/courtier/GMPIConsumerT.hpp
@@ -372,7 +372,18 @@ namespace Gem::Courtier {
             switch (m_commandContainer.get_command()) {
                 case networked_consumer_payload_command::COMPUTE: {
                     // process item. This will put the result into the container
-                    m_commandContainer.process();
+                    // An error in the user code invalidates the work item, but neither the client nor
+                    // the connection. The item has noted the error and is returned to the server.
+                    try {
+                        m_commandContainer.process();
+                    } catch(const g_processing_exception& e) {
+                        glogger
+                        << "GMPIConsumerWorkerNodeT<processable_type>::processWorkItem():" << std::endl
+                        << "The work item has flagged a processing exception with the message" << std::endl
+                        << e << std::endl
+                        << "The item will be returned." << std::endl
+                        << GWARNING;
+                    }
 
                     // increment the counter for processed items
                     m_incrementProcessingCounter();
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 072a0f5..3eb3b34 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -482,7 +482,18 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item
-				 m_command_container.process();
+				 // An error in the user code invalidates the work item, but neither the client nor
+				 // the connection. The item has noted the error and is returned to the server.
+				 try {
+				 	m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+				 	glogger
+				 	<< "GWebsocketClientT<processable_type>::process_request():" << std::endl
+				 	<< "The work item has flagged a processing exception with the message" << std::endl
+				 	<< e << std::endl
+				 	<< "The item will be returned." << std::endl
+				 	<< GWARNING;
+				 }
 
 				 // Update the processed counter
 				 this->incrementProcessingCounter();
-- 
2.43.0


From 8297206ed201768302a26138552c46a9d191d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 85/88] fix: a client that had dropped its connection before
 the answer was sent terminated the whole asio server

---
 include/courtier/GAsioConsumerT.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index ac886ec..c3c921d 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -315,7 +315,9 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the server side indicating that all data was written.
-		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send);
+		 // The server may already have dropped the connection -- the read-sequence will notice this.
+		 boost::system::error_code shutdown_ec;
+		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message -- no longer needed
 		 m_outgoing_message_str.clear();
@@ -650,7 +652,9 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the client-side indicating that all data was written.
-		 m_socket.shutdown(boost::asio::socket_base::shutdown_send);
+		 // The client may already have dropped the connection, which must not throw in the server's thread.
+		 boost::system::error_code shutdown_ec;
+		 m_socket.shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message string, no longer needed
 		 m_outgoing_message_str.clear();
-- 
2.43.0


From d3f4b5b28cfb672e02a2b20b1f141c8f9d731f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 86/88] fix: two threads of the websocket client used its
 stream and its input buffer at the same time, upon which it hung

---
 include/courtier/GWebsocketConsumerT.hpp | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 3eb3b34..8c61fcf 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -434,11 +434,18 @@ private:
 		 // Deal with the message and send a response back. Processing
 		 // of work items is done inside of process_request().
 		 try {
-			 // Start asynchronous processing of the work item.
-			 auto self = this->shared_from_this();
+			 // Extract the string from the buffer. This needs to happen before the next read-operation
+			 // is started, as that operation uses the same buffer
+			 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+
+			 // Clear the buffer, so we may later fill it with the next message
+			 m_incoming_buffer.consume(m_incoming_buffer.size());
+
+			 // Start asynchronous processing of the work item. The thread pool is a member of
+			 // this class and must not keep it alive (it would then be destroyed by its own thread)
 			 m_gtp.async_schedule(
-				 [self]() {
-					 self->process_request();
+				 [this, message]() {
+					 this->process_request(message);
 				 }
 			 );
 
@@ -458,16 +465,10 @@ private:
 	 /**
 	  * Processing of incoming messages and creation of responses takes place here
 	  */
-	 void process_request(){
+	 void process_request(const std::string& message){
 	 	 // Make it known that we are processing a new work item
 		 m_processing_is_active = true;
 
-		 // Extract the string from the buffer
-		 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
-
-		 // Clear the buffer, so we may later fill it with data to be sent
-		 m_incoming_buffer.consume(m_incoming_buffer.size());
-
 		 // De-serialize the object
 		 Gem::Courtier::container_from_string(
 			 message
@@ -528,7 +529,13 @@ private:
 		 m_processing_is_active = false;
 
 		 // Serialize the object again and return the result
-		 this->async_start_write(Gem::Courtier::container_to_string(m_command_container, m_serialization_mode));
+		 // As the stream isn't thread-safe, this needs to be done by the thread that runs the io_context.
+		 boost::asio::post(
+			 m_io_context
+			 , [this, response = Gem::Courtier::container_to_string(m_command_container, m_serialization_mode)]() {
+				 this->async_start_write(response);
+			 }
+		 );
 	 }
 
 	 //-------------------------------------------------------------------------
-- 
2.43.0


From 62e776c9dd12a7865d46a0a26f60a67cf9d5ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 87/88] fix: websocket clients never ended if told to stop
 between two messages or upon an unreadable message

---
 include/courtier/GWebsocketConsumerT.hpp | 39 ++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 8c61fcf..7708f30 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -229,7 +229,11 @@ private:
 	  */
 	 void async_start_write(const std::string& message) {
 		 // Do nothing if we have been asked to stop
-		 if(this->halt()) return;
+		 if(this->halt()) {
+			 // A read-operation may be pending, which the server will not answer if we do not write
+			 async_start_close(boost::beast::websocket::close_code::normal);
+			 return;
+		 }
 
 		 // We need to persist the message for asynchronous operations.
 		 // It is hence stored in a class variable.
@@ -248,6 +252,22 @@ private:
 		 );
 	 }
 
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Initiates closing of the connection. Pending read-operations will end with an error
+	  *
+	  * @param cc The close code to be transmitted to the server
+	  */
+	 void async_start_close(close_code cc) {
+		 m_close_code = cc;
+
+		 auto self = this->shared_from_this();
+		 m_ws.async_close(
+			 cc
+			 , [self](boost::system::error_code /* nothing */) { /* nothing */ }
+		 );
+	 }
+
 	 //-------------------------------------------------------------------------
 	 /**
 	  * Starts a new read session
@@ -445,7 +465,22 @@ private:
 			 // this class and must not keep it alive (it would then be destroyed by its own thread)
 			 m_gtp.async_schedule(
 				 [this, message]() {
-					 this->process_request(message);
+					 try {
+						 this->process_request(message);
+					 } catch(...) {
+						 glogger
+							 << "In GWebsocketClientT<processable_type>::process_request():" << std::endl
+							 << "Caught exception. This will terminate the client." << std::endl
+							 << GWARNING;
+
+						 // Nobody will answer as no response was sent, so a pending read needs to be terminated
+						 boost::asio::post(
+							 m_io_context
+							 , [this]() {
+								 this->async_start_close(boost::beast::websocket::close_code::internal_error);
+							 }
+						 );
+					 }
 				 }
 			 );
 
-- 
2.43.0


From d0caeb0e51802cecae285e3ed9011dc8da383f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:36 +0000
Subject: [PATCH 88/88] fix: the velocities of a swarm's individuals were mixed
 up whenever their order in a neighbourhood changed

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 2b9592c..ba3a2de 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -1169,7 +1169,7 @@ void GSwarmAlgorithm::runFitnessCalculation_() {
 
 	//--------------------------------------------------------------------------------
 	// Sort according to the individuals' neighborhoods
-	sort(
+	std::stable_sort(
 		m_data_cnt.begin()
 		, m_data_cnt.end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
@@ -1240,14 +1240,30 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 		// All evaluations of a neighborhood may have failed
 		if(firstCounter == lastCounter) continue;
 
-		// Only partially sort the arrays
+		// Only partially sort the arrays. Velocities are stored by position,
+		// so they need to follow the individuals they belong to.
+		std::vector<std::pair<std::shared_ptr<GParameterSet>, std::vector<double>>> members;
+		for(std::size_t i = firstCounter; i < lastCounter; i++) {
+			members.emplace_back(
+				this->at(i)
+				, lastCounter <= m_velocities_cnt.size() ? m_velocities_cnt.at(i) : std::vector<double>()
+			);
+		}
+
 		std::sort(
-			this->begin() + firstCounter, this->begin() + lastCounter,
-			[](std::shared_ptr <GParameterSet> x_ptr, std::shared_ptr <GParameterSet> y_ptr) -> bool {
-				return minOnly_transformed_fitness(x_ptr) < minOnly_transformed_fitness(y_ptr);
+			members.begin(), members.end(),
+			[](const auto& x, const auto& y) -> bool {
+				return minOnly_transformed_fitness(x.first) < minOnly_transformed_fitness(y.first);
 			}
 		);
 
+		for(std::size_t i = firstCounter; i < lastCounter; i++) {
+			this->at(i) = members.at(i - firstCounter).first;
+			if(lastCounter <= m_velocities_cnt.size()) {
+				m_velocities_cnt.at(i) = members.at(i - firstCounter).second;
+			}
+		}
+
 		// Check whether the best individual of the neighborhood is better than
 		// the best individual found so far in this neighborhood
 		if (inFirstIteration() || not m_neighborhood_bests_cnt.at(n)) {
-- 
2.43.0

