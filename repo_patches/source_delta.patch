From c10d16fd7b6a155899cf046493affe4fd5551d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 01/26] fix: return, initialise and join each var-reduction
 quantity as itself

---
 src/kernel/lib/yk_var.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..ef395ba 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
@@ -1437,7 +1437,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From 4efb4785f61155ea0dfb47e13894edd769df66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 02/26] fix: keep a unary minus apart from a printed operand
 that starts with one

---
 src/compiler/lib/Print.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 24ee2d5..c126fc3 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -84,9 +84,11 @@ namespace yask {
     }
 
     // Generic unary operators.
+    // Parens keep the operator apart from an operand that
+    // starts with one, e.g., '-(-(x))' instead of '--x'.
     string PrintVisitorTopDown::visit(UnaryNumExpr* ue) {
         _num_common += _ph.get_num_common(ue);
-        return ue->get_op_str() + ue->_get_rhs()->accept(this);
+        return ue->get_op_str() + "(" + ue->_get_rhs()->accept(this) + ")";
     }
     string PrintVisitorTopDown::visit(UnaryBoolExpr* ue) {
         _num_common += _ph.get_num_common(ue);
@@ -278,7 +280,7 @@ namespace yask {
         // temp2 = -temp1;
         // with 'temp2' returned.
         string rhs = ue->_get_rhs()->accept(this);
-        make_next_temp_var(res, ue, "expr", "") << ue->get_op_str() << rhs << _ph.get_line_suffix();
+        make_next_temp_var(res, ue, "expr", "") << ue->get_op_str() << '(' << rhs << ')' << _ph.get_line_suffix();
         return res;
     }
 
-- 
2.43.0


From 61783a4d3aad237f4c06dfce4835cb292e0b04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 03/26] fix: print a quotient of constants by its value, not as
 an integer division

---
 src/compiler/lib/Print.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index c126fc3..aede90b 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -102,6 +102,15 @@ namespace yask {
     // Generic binary operators.
     string PrintVisitorTopDown::visit(BinaryNumExpr* be) {
         _num_common += _ph.get_num_common(be);
+
+        // Evaluate a quotient of constants here: written in C++, an
+        // expression like '1 / 3' would be an integer division.
+        if (dynamic_cast<DivExpr*>(be) && be->is_const_val()) {
+            double val = be->get_num_val();
+            if (isfinite(val))
+                return _ph.add_const_expr(_os, val);
+        }
+
         return "(" + be->_get_lhs()->accept(this) +
             " " + be->get_op_str() + " " +
             be->_get_rhs()->accept(this) + ")";
@@ -290,7 +299,8 @@ namespace yask {
         // Try top-down on whole expression.
         // Example: 'a/b' creates no immediate output,
         // and 'a/b' is returned.
-        string res = try_simple_print(be, false);
+        // Always done for a constant value.
+        string res = try_simple_print(be, be->is_const_val());
         if (res.length())
             return res;
 
-- 
2.43.0


From a62c6226dd691229228a8d09d13f78afe1849d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 04/26] fix: keep the precision of constants in printed
 conditions

---
 src/compiler/lib/Print.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/compiler/lib/Print.hpp b/src/compiler/lib/Print.hpp
index dd026b7..3df129e 100644
--- a/src/compiler/lib/Print.hpp
+++ b/src/compiler/lib/Print.hpp
@@ -135,15 +135,11 @@ namespace yask {
             if (double(int(v)) == v)
                 return to_string(int(v));
 
-            // Need scientific repr?
-            if (v < 1e-4 || v >= 1e5) {
-                ostringstream oss;
-                oss << scientific << v;
-                return oss.str();
-            }
-
-            // Default fixed-point.
-            return to_string(v);
+            // Keep all the digits of a double because this is also used to
+            // create the code for conditions, e.g., 'x > 1234567.5'.
+            ostringstream oss;
+            oss << setprecision(15) << v;
+            return oss.str();
         }
 
         // Return a var reference.
-- 
2.43.0


From d58b45eea3e8894e6d25071743bc89d0625cd042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 05/26] fix: generate the same modulo operation that is used
 for constants

---
 src/compiler/lib/Print.cpp | 20 ++++++++++++++++----
 src/compiler/lib/Print.hpp |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index aede90b..130f318 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -54,6 +54,18 @@ namespace yask {
         return _os;
     }
 
+    // Make string for a numerical binary operator from its printed operands.
+    string PrintVisitorBase::make_binary_str(BinaryNumExpr* be,
+                                             const string& lhs,
+                                             const string& rhs) {
+
+        // Use the same definition as ModExpr::get_num_val(), which
+        // differs from '%' in C++ when an operand is negative.
+        if (dynamic_cast<ModExpr*>(be))
+            return "imod_flr<idx_t>(" + lhs + ", " + rhs + ")";
+        return lhs + " " + be->get_op_str() + " " + rhs;
+    }
+
     /////// Top-down
 
     // A var read.
@@ -111,9 +123,9 @@ namespace yask {
                 return _ph.add_const_expr(_os, val);
         }
 
-        return "(" + be->_get_lhs()->accept(this) +
-            " " + be->get_op_str() + " " +
-            be->_get_rhs()->accept(this) + ")";
+        string lhs = be->_get_lhs()->accept(this);
+        string rhs = be->_get_rhs()->accept(this);
+        return "(" + make_binary_str(be, lhs, rhs) + ")";
     }
     string PrintVisitorTopDown::visit(BinaryBoolExpr* be) {
         _num_common += _ph.get_num_common(be);
@@ -313,7 +325,7 @@ namespace yask {
         string lhs = be->_get_lhs()->accept(this);
         string rhs = be->_get_rhs()->accept(this);
         make_next_temp_var(res, be, "expr", "") <<
-            lhs << ' ' << be->get_op_str() << ' ' << rhs << _ph.get_line_suffix();
+            make_binary_str(be, lhs, rhs) << _ph.get_line_suffix();
         return res;
     }
 
diff --git a/src/compiler/lib/Print.hpp b/src/compiler/lib/Print.hpp
index 3df129e..cf2152d 100644
--- a/src/compiler/lib/Print.hpp
+++ b/src/compiler/lib/Print.hpp
@@ -183,6 +183,10 @@ namespace yask {
                                             string prefix, string comment,
                                             bool use_auto_type = false);
 
+        // Make string for a numerical binary operator from its printed operands.
+        virtual string make_binary_str(BinaryNumExpr* be,
+                                       const string& lhs, const string& rhs);
+
     public:
         // os is used for printing intermediate results as needed.
         PrintVisitorBase(ostream& os,
-- 
2.43.0


From 167921c9551f2723b392ceb3efb21c2c1abcdad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 06/26] fix: copy the index expressions when cloning a var
 point

---
 src/compiler/lib/VarPoint.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/VarPoint.hpp b/src/compiler/lib/VarPoint.hpp
index 0244090..04aa673 100644
--- a/src/compiler/lib/VarPoint.hpp
+++ b/src/compiler/lib/VarPoint.hpp
@@ -201,10 +201,13 @@ namespace yask {
         // Create a deep copy of this expression,
         // except pointed-to var is not copied.
         virtual num_expr_ptr clone() const {
-            return make_shared<VarPoint>(*this);
+            return clone_var_point();
         }
         virtual var_point_ptr clone_var_point() const {
-            return make_shared<VarPoint>(*this);
+            auto p = make_shared<VarPoint>(*this);
+            for (auto& arg : p->_args)
+                arg = arg->clone();
+            return p;
         }
 
         // APIs.
-- 
2.43.0


From 63085a31691a8c1e33a025413b857ddd0cdaaa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 07/26] fix: do not take a negation and a subtraction for the
 same expression

---
 src/compiler/lib/Expr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index e05828d..0e0cb55 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -31,6 +31,7 @@ IN THE SOFTWARE.
 
 #include "yask_compiler_api.hpp"
 
+#include <typeinfo>
 #include <utility>
 #include <vector>
 #include <set>
@@ -403,7 +404,10 @@ namespace yask {
         // Check for equivalency.
         virtual bool is_same(const Expr* other) const {
             auto p = dynamic_cast<const UnaryExpr*>(other);
-            return p && _op_str == p->_op_str &&
+
+            // Must be the same type of node because binary exprs are also
+            // derived from this type, e.g., '-b' is not the same as 'a-b'.
+            return p && typeid(*p) == typeid(*this) && _op_str == p->_op_str &&
                 _rhs && _rhs->is_same(p->_rhs.get());
         }
     };
-- 
2.43.0


From 8b31234b5077ae1d184824f5abfd705863f73185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 08/26] fix: set_first_misc_index() also updates the
 vector-level offset used by kernels

---
 src/kernel/lib/yk_var_apis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..65aa7b5 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -257,7 +257,8 @@ namespace yask {
 
     // These are the safer ones used in the APIs.
     SET_VAR_API(set_first_misc_index,
-                cp->_local_offsets[posn] = n,
+                cp->_local_offsets[posn] = n;
+                cp->_vec_local_offsets[posn] = idiv_flr(n, cp->_var_vec_lens[posn]),
                 false, false, gb()._is_user_var, false)
     SET_VAR_API(set_alloc_size,
                 cp->_domains[posn] = n,
-- 
2.43.0


From ed422c6bfac0625fbd6d6d698621bb8d5930e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 09/26] fix: honor the requested rank indices

---
 src/kernel/lib/setup.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..7eeaa5e 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -237,10 +237,19 @@ namespace yask {
                                             actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
                                             nr << " rank(s) are active");
 
+        // Use the requested coordinates if provided on any rank.
+        idx_t num_set = 0;
+        DOMAIN_VAR_LOOP(i, j)
+            if (req_opts->_rank_indices[j])
+                num_set++;
+        actl_opts->find_loc = env->sum_over_ranks(num_set) == 0;
+
         // Determine my coordinates if not provided already.
         // TODO: do this more intelligently based on proximity.
         if (actl_opts->find_loc)
             actl_opts->_rank_indices = actl_opts->_num_ranks.unlayout(me);
+        else
+            actl_opts->_rank_indices = req_opts->_rank_indices;
 
         // Check rank indices.
         DOMAIN_VAR_LOOP(i, j) {
-- 
2.43.0


From 32f7178dcbb778d661cb9b7e5edb73ca5aa6a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 10/26] fix: allow setting the number of ranks before the rank
 size is known

---
 src/kernel/lib/setup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 7eeaa5e..f6d17e8 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -773,7 +773,9 @@ namespace yask {
             // Is domain size at least as large as halo + wf_ext in direction
             // when there are multiple ranks?
             auto min_size = max_halos[dname] + shifts;
-            if (actl_opts->_num_ranks[dname] > 1 && rksize < min_size) {
+            // Rank size may not be known until prepare_solution().
+            if (actl_opts->_num_ranks[dname] > 1 &&
+                (force || rksize > 0) && rksize < min_size) {
                 FORMAT_AND_THROW_YASK_EXCEPTION
                     ("local-domain size of " << rksize << " in '" <<
                      dname << "' dim is less than minimum size of " << min_size <<
-- 
2.43.0


From 88051c60ee9322c4e83561c9737879485813c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 11/26] fix: use the block size of the bound dimension for
 default nano-blocks

---
 src/kernel/lib/settings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/settings.cpp b/src/kernel/lib/settings.cpp
index bea0503..26f2518 100644
--- a/src/kernel/lib/settings.cpp
+++ b/src/kernel/lib/settings.cpp
@@ -882,8 +882,8 @@ namespace yask {
             }
 
             // Divide on best dim.
-            auto bsz = _block_sizes[_bind_posn - 1]; // "-1" to adjust stencil to domain dims.
-            auto vbpts = vpts[_bind_posn - 1];
+            auto bsz = _block_sizes[_bind_posn];
+            auto vbpts = vpts[_bind_posn - 1]; // "-1" to adjust stencil to domain dims.
 
             // Use narrow slabs if at least 2D.
             // TODO: consider a better heuristic.
-- 
2.43.0


From c5c6fbe4dbe4a7715d1f15daa1968048633be804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 12/26] fix: do not take an empty tuple for a valid
 factorization

---
 src/common/tuple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/tuple.cpp b/src/common/tuple.cpp
index d7e8540..952db27 100644
--- a/src/common/tuple.cpp
+++ b/src/common/tuple.cpp
@@ -433,7 +433,7 @@ namespace yask {
                      return true; // keep looking.
                  });
 
-            if (best.product() == N)
+            if (best.size() && best.product() == N)
                 break;          // done.
 
         } // keep or not.
-- 
2.43.0


From 63b1f322840484ef3064d8fa90f5a68d3f590fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 13/26] fix: keep the sides of a narrow last temporal block
 from crossing

---
 src/kernel/lib/context.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..3206e92 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -1399,8 +1399,14 @@ namespace yask {
             idx_t blk_stop = block_base_stop[i];
 
             // If more than one blk, adjust for base of phase-0 trapezoid.
-            if (nphases > 1 && !is_one_blk)
-                blk_stop = min(blk_start + tb_widths[j], block_base_stop[i]);
+            // The last block may be too narrow to hold a whole trapezoid;
+            // it is not cut off here because that would let its sides cross;
+            // instead, its range is trimmed to the mega-block below.
+            if (nphases > 1 && !is_one_blk) {
+                blk_stop = blk_start + tb_widths[j];
+                if (!is_last_blk)
+                    blk_stop = min(blk_stop, block_base_stop[i]);
+            }
 
             // Starting point of the *next* block.  This is used to create
             // bridge shapes between blocks.  Initially, the beginning of
-- 
2.43.0


From 1d717eb29ead161b36c8e5849059136396696e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 14/26] fix: set_element() updates the valid steps of the var

---
 src/kernel/lib/yk_var_apis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 65aa7b5..77e6bad 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -413,6 +413,10 @@ namespace yask {
             gb().write_elem(real_t(val), indices, asi, __LINE__);
             nup++;
 
+            // Update the valid step(s), unless step indices wrap around.
+            if (gb()._has_step_dim && !actl_opts->_step_wrap)
+                gb().update_valid_step(indices[+step_posn]);
+
             // Set appropriate dirty flags.
             gb()._coh.mod_host();
             gb().set_dirty_using_alloc_index(YkVarBase::self, true, asi);
-- 
2.43.0


From 7653f9a1dd10a0995adf13fa8f466ee7b161f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 15/26] fix: a slice outside of a var does not touch its
 nearest elements

---
 src/kernel/lib/yk_var.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index ef395ba..d1c5044 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,14 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // If clipping moved an end of the slice outward, none of the
+            // slice is in the var.
+            for (int i = 0; i < get_num_dims(); i++) {
+                if (first_indices[i] < in_first_indices[i] ||
+                    last_indices[i] > in_last_indices[i])
+                    return 0;
+            }
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
-- 
2.43.0


From 1c91895872c78a6294b620ec8d3bd3ae61628f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 16/26] fix: do not move the valid steps of a var to steps that
 a slice did not write

---
 src/kernel/lib/yk_var.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index d1c5044..a5c9496 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1363,7 +1363,16 @@ namespace yask {
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+
+            // Mark only the steps that were written when indices are clipped.
+            if (n > 0) {
+                Indices first_set, last_set;
+                check_indices(first_indices, SetElem::fname(), strict_indices,
+                              true, false, &first_set);
+                check_indices(last_indices, SetElem::fname(), strict_indices,
+                              true, false, &last_set);
+                set_dirty_in_slice(first_set, last_set);
+            }
 
             // Return number of writes.
             return n;
-- 
2.43.0


From e3ad1341f6b3123dfb2aa03946aaebd4cc6dc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 17/26] fix: exchange_halos() API exchanges data changed
 through APIs

---
 src/kernel/lib/context.cpp | 10 +++++++---
 src/kernel/lib/halo.cpp    |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 3206e92..8ff33c0 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -106,11 +106,15 @@ namespace yask {
         // micro-block size.
         update_scratch_var_info(scratch_var_idx, rank_idxs.begin);
 
+        // Exchange all sections in each halo exchange.
+        MpiSection mpisec(this);
+        mpisec.init();
+
         // Initial halo exchange.
         // TODO: get rid of all halo exchanges in this function,
         // and calculate overall problem in all ranks, then
         // compare relevant pieces in each rank.
-        exchange_halos();
+        exchange_halos(mpisec);
 
         // Number of iterations to get from begin_t, stopping before end_t,
         // jumping by stride_t.
@@ -145,7 +149,7 @@ namespace yask {
                 }
 
                 // Exchange all dirty halos.
-                exchange_halos();
+                exchange_halos(mpisec);
 
                 // Find the parts that need to be processed.
                 // This will be the prerequisite scratch-var
@@ -207,7 +211,7 @@ namespace yask {
         steps_done += abs(end_t - begin_t);
 
         // Final halo exchange.
-        exchange_halos();
+        exchange_halos(mpisec);
 
         run_time.stop();
 
diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index cb6fd6d..aa2d3f9 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -67,7 +67,11 @@ namespace yask {
 
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
-        
+
+        // Since any APIs may have been called in other ranks, mark all
+        // neighbor vars as possibly dirty.
+        set_all_neighbor_vars_dirty();
+
         // Do all parts.
         MpiSection mpisec(this);
         mpisec.init();
-- 
2.43.0


From acb6c358f9da746811374713cb4cc0a50a5353e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 18/26] fix: check that the solution is prepared before calling
 hooks and starting timers

---
 src/kernel/lib/context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 8ff33c0..81e8397 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -226,6 +226,8 @@ namespace yask {
     {
         TRACE_MSG("running steps " << first_step_index << " ... " << last_step_index);
         STATE_VARS(this);
+        if (!is_prepared())
+            THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
 
         // User-provided code.
         call_2idx_hooks(_before_run_solution_hooks,
@@ -266,8 +268,6 @@ namespace yask {
                   begin.make_dim_val_str() << " ... " <<
                   end.make_dim_val_str() << ") by " <<
                   stride.make_dim_val_str());
-        if (!is_prepared())
-            THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
         if (ext_bb.bb_size < 1) {
             TRACE_MSG("nothing to do in solution");
         }
-- 
2.43.0


From 6495c343fcc431f0d9ce738e90c8233ada98f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 19/26] fix: clear all statistics

---
 src/kernel/lib/context.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..a88fdd1 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -169,8 +169,9 @@ namespace yask {
         virtual ~Stats() {}
 
         void clear() {
-            npts = nwrites = nfpops = nsteps = 0;
+            npts = nreads = nwrites = nfpops = nsteps = 0;
             run_time = halo_time = 0.;
+            reads_ps = writes_ps = flops = pts_ps = 0.;
         }
 
         // APIs.
-- 
2.43.0


From df071f56055e3184237e73519ac11cca959a953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 20/26] fix: a solution whose data cannot be allocated is not
 prepared

---
 src/kernel/lib/soln_apis.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 7af6e26..1008386 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -232,11 +232,17 @@ namespace yask {
         // will be used.
         YaskTimer alloc_timer;
         alloc_timer.start();
-        free_scratch_data();
-        free_mpi_data();
-        alloc_var_data(); // Does nothing if already done.
-        alloc_scratch_data();
-        alloc_mpi_data();
+        try {
+            free_scratch_data();
+            free_mpi_data();
+            alloc_var_data(); // Does nothing if already done.
+            alloc_scratch_data();
+            alloc_mpi_data();
+        }
+        catch (...) {
+            set_prepared(false); // Cannot run without the data.
+            throw;
+        }
         alloc_timer.stop();
         DEBUG_MSG("Allocation done in " <<
                   make_num_str(alloc_timer.get_elapsed_secs()) << " secs.");
-- 
2.43.0


From 1cb1c6b695e96b9f0f762d3ee617357b1219a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 21/26] fix: the auto-tuner of a new solution is off unless
 requested

---
 src/kernel/lib/auto_tuner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 25d2056..a462930 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -42,7 +42,7 @@ namespace yask {
         assert(settings);
         _prefix = string(" ") + _name + ": ";
 
-        clear(settings->_do_auto_tune);
+        clear(!settings->_do_auto_tune);
     }
 
     // Switch target ptr to next one.
-- 
2.43.0


From 2fb371170a4c0ebbecf4b6582391046e781364ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 22/26] fix: layout dims of a var are set anew by each output

---
 src/compiler/lib/YaskKernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/lib/YaskKernel.cpp b/src/compiler/lib/YaskKernel.cpp
index d779a04..13b41e4 100644
--- a/src/compiler/lib/YaskKernel.cpp
+++ b/src/compiler/lib/YaskKernel.cpp
@@ -301,6 +301,7 @@ namespace yask {
                 if (ndims) {
                     int ndone = 0;
                     auto& ldims = gp->get_layout_dims();
+                    ldims.clear(); // may have been set by an earlier output.
                     os << " // Dimensions in layout order: ";
 
                     // Preferred order.
-- 
2.43.0


From 8f4d98e9f12eb208da525193228ceec78400c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 23/26] fix: generated code does not depend on addresses of
 objects

---
 src/compiler/lib/Eqs.cpp       | 14 ++++++++------
 src/compiler/lib/Eqs.hpp       |  2 +-
 src/compiler/lib/ExprUtils.hpp |  4 ++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index f03ef42..8740db7 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -46,7 +46,7 @@ namespace yask {
     class PointVisitor : public ExprVisitor {
 
         // A type to hold a mapping of equations to a set of vars in each.
-        typedef unordered_set<Var*> VarSet;
+        typedef vector_set<Var*> VarSet; // ordered by insertion.
         typedef unordered_map<EqualsExpr*, Var*> VarMap;
         typedef unordered_map<EqualsExpr*, VarSet> VarSetMap;
 
@@ -54,7 +54,7 @@ namespace yask {
         VarSetMap _rhs_vars; // inputs of eqs.
 
         // A type to hold a mapping of equations to a set of points in each.
-        typedef unordered_set<VarPoint*> PointSet;
+        typedef vector_set<VarPoint*> PointSet; // ordered by insertion.
         typedef unordered_map<EqualsExpr*, VarPoint*> PointMap;
         typedef unordered_map<EqualsExpr*, PointSet> PointSetMap;
 
@@ -1914,6 +1914,7 @@ namespace yask {
         os << "Calculating lifespans of scratch vars...\n";
 
         map<Var*, pair<int, int>> first_last;
+        vector_set<Var*> scratch_vars; // keys of above in order of first access.
         
         // Loop thru stages in execution order,
         // assuming topo sort is done.
@@ -1925,6 +1926,7 @@ namespace yask {
             for (auto& vs : { st->get_output_vars(), st->get_input_vars() }) {
                 for (auto* vp : vs) {
                     if (vp->is_scratch()) {
+                        scratch_vars.insert(vp);
                         if (!first_last.count(vp))
                             first_last[vp] = make_pair(snum, snum);
                         else
@@ -1957,10 +1959,10 @@ namespace yask {
             for (bool do_alloc : { true, false }) {
 
                 // Scratch vars.
-                for (const auto& vi : first_last) {
-                    auto* vp = vi.first;
-                    auto fs = vi.second.first; // first stage.
-                    auto ls = vi.second.second; // last stage.
+                for (auto* vp : scratch_vars) {
+                    auto& vi = first_last.at(vp);
+                    auto fs = vi.first; // first stage.
+                    auto ls = vi.second; // last stage.
                     int msz = vp->get_misc_space_size();
                     auto& free = free_stack_per_sz[msz];
                     auto& nmems = nmems_per_sz[msz];
diff --git a/src/compiler/lib/Eqs.hpp b/src/compiler/lib/Eqs.hpp
index df68896..4a55d15 100644
--- a/src/compiler/lib/Eqs.hpp
+++ b/src/compiler/lib/Eqs.hpp
@@ -41,7 +41,7 @@ namespace yask {
     using EqList = vector_set<Eq>;
 
     template<typename T> using Tp = shared_ptr<T>;
-    template<typename T> using TpSet = unordered_set<Tp<T>>;
+    template<typename T> using TpSet = vector_set<Tp<T>>; // ordered by insertion.
     template<typename T> using TpList = vector_set<Tp<T>>;
     template<typename T> using TpSetMap = unordered_map<Tp<T>, TpSet<T>>;
     
diff --git a/src/compiler/lib/ExprUtils.hpp b/src/compiler/lib/ExprUtils.hpp
index 715fdcb..7a9cb70 100644
--- a/src/compiler/lib/ExprUtils.hpp
+++ b/src/compiler/lib/ExprUtils.hpp
@@ -76,7 +76,7 @@ namespace yask {
     // example: a+b+c * b+d+a => c+(a+b) * d+(a+b) w/expr a+b combined.
     class CseVisitor : public OptVisitor {
     protected:
-        set<num_expr_ptr> _seen;
+        vector_set<num_expr_ptr> _seen;
 
         // If 'ep' has already been seen, just return true.
         // Else if 'ep' has a match, change pointer to that match, return true.
@@ -136,7 +136,7 @@ namespace yask {
     // A visitor that finds pairable functions, e.g., sin(x); cos(x) => sincos(x).
     class PairingVisitor : public OptVisitor {
     protected:
-        set<FuncExpr*> _seen;
+        vector_set<FuncExpr*> _seen;
 
     public:
         PairingVisitor()  :
-- 
2.43.0


From 30e65e438db5ae063cfd922ee425ddfc339988bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 24/26] fix: a var whose host and device copies were both set
 is in sync

set_all_elements_*() force the coherency state to 'not_init' before both
copies are written, and mod_both() then asserted that it was 'in_sync'.
---
 src/kernel/lib/offload.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/offload.hpp b/src/kernel/lib/offload.hpp
index ebb8793..29f61b2 100644
--- a/src/kernel/lib/offload.hpp
+++ b/src/kernel/lib/offload.hpp
@@ -466,7 +466,7 @@ namespace yask {
             if (_state == host_mod)
                 THROW_YASK_EXCEPTION("(internal fault) "
                                      "host and device copies modified, but host copy was newer than device");
-            assert(_state == in_sync);
+            _state = in_sync;
             return _state;
         }
 
-- 
2.43.0


From 9d73054511fbe43a7b13385d3626ab87c4ff76f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 25/26] fix: an invalid regular expression for var names is
 reported as a yask_exception

---
 src/compiler/lib/Eqs.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index 8740db7..147ed70 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1177,7 +1177,14 @@ namespace yask {
         os << "\nBundling " << all_eqs.get_num() << " equation(s) into solution parts...\n";
         
         // Make a regex for the allowed vars.
-        regex varx(settings._var_regex);
+        regex varx;
+        try {
+            varx = settings._var_regex;
+        }
+        catch (regex_error& e) {
+            THROW_YASK_EXCEPTION("'" + settings._var_regex +
+                                 "' is not a valid regular expression for var names: " + e.what());
+        }
 
         // Add non-scratch, then scratch eqs.
         // This is done just to give the non-scratch ones lower indices.
-- 
2.43.0


From 4615184385205eee4248b64ab27f9a05a545d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 26/26] fix: report failure of host allocation when not
 offloading

---
 src/kernel/lib/offload.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/offload.hpp b/src/kernel/lib/offload.hpp
index 29f61b2..d5e8bb5 100644
--- a/src/kernel/lib/offload.hpp
+++ b/src/kernel/lib/offload.hpp
@@ -272,7 +272,10 @@ namespace yask {
     #ifndef USE_OFFLOAD
 
     inline void* offload_alloc_host(size_t nbytes) {
-        return malloc(nbytes);
+        void* p = malloc(nbytes);
+        if (!p)
+            THROW_YASK_EXCEPTION("cannot allocate " + make_byte_str(nbytes) + " on host");
+        return p;
     }
     inline void offload_free_host(void* p) {
         if (p)
-- 
2.43.0

