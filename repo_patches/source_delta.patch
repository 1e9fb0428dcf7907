From d4498d0735754dee2169deea5e2e4f35079f1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 01/42] fix: kernel: initialise and serialise the thread safety
 level

A default constructed kernel had an indeterminate thread safety level and
the level was lost when loading a kernel from an archive.
---
 include/dcgp/kernel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..377f173 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,7 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        ar &m_thread_safety;
     }
 
 private:
@@ -167,7 +168,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From cc5d7856b053b36fd88f11bdbe0718a45d193a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 02/42] fix: expression: mutate(idxs) must not leave a half
 mutated expression

An out of bounds index throws after the preceding genes were changed, leaving
the active nodes and genes not matching the chromosome.
---
 include/dcgp/expression.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..46ecedf 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -677,11 +677,12 @@ public:
      */
     void mutate(std::vector<unsigned> idxs)
     {
+        // All the indexes are checked before touching the chromosome
+        if (std::any_of(idxs.begin(), idxs.end(), [this](unsigned idx) { return idx >= m_x.size(); })) {
+            throw std::invalid_argument("idx of gene to be mutated is out of bounds");
+        }
         bool flag = false;
         for (auto i = 0u; i < idxs.size(); ++i) {
-            if (idxs[i] >= m_x.size()) {
-                throw std::invalid_argument("idx of gene to be mutated is out of bounds");
-            }
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From 615527eccd4792ebf321c7543e9bc2dd7d653eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 03/42] fix: expression: mutate_ogene(0) must not mutate the
 output gene

---
 include/dcgp/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 46ecedf..1c7b16b 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -831,7 +831,7 @@ public:
                 mutate(idx);
             }
 
-        } else {
+        } else if (N > 0u) {
             idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
             mutate(idx);
-- 
2.43.0


From aca4854e2df12ffecfe245e39501f4157ee48708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 04/42] fix: cross entropy loss is NaN when a probability
 underflows

With well separated outputs p_i underflows to zero and log(p_i) * y_i is
NaN for the classes with y_i = 0.
---
 include/dcgp/expression.hpp     | 15 ++++++++-------
 include/dcgp/expression_ann.hpp | 10 ++++++----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 1c7b16b..fdd7fe0 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -307,14 +307,15 @@ public:
             case loss_type::CE: {
                 // We guard from numerical instabilities subtracting the max element
                 auto max = *std::max_element(outputs.begin(), outputs.end());
-                // exp(a_i - max)
-                std::transform(outputs.begin(), outputs.end(), outputs.begin(),
-                               [max](T a) { return audi::exp(a - max); });
-                // sum exp(a_i - max)
-                T cumsum = std::accumulate(outputs.begin(), outputs.end(), T(0.));
-                // log(p_i) * y_i
+                // log(sum exp(a_i - max))
+                T cumsum(0.);
+                for (const auto &a : outputs) {
+                    cumsum += audi::exp(a - max);
+                }
+                T log_cumsum = audi::log(cumsum);
+                // log(p_i) * y_i. The logarithm is not taken on p_i as it may underflow to zero
                 std::transform(outputs.begin(), outputs.end(), prediction.begin(), outputs.begin(),
-                               [cumsum](T a, T y) { return audi::log(a / cumsum) * y; });
+                               [max, log_cumsum](T a, T y) { return (a - max - log_cumsum) * y; });
                 // - sum log(p_i) y_i
                 retval = -std::accumulate(outputs.begin(), outputs.end(), T(0.));
                 break;
diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..6527d3a 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -352,7 +352,7 @@ public:
             }
             // Cross Entropy
             case expression<double>::loss_type::CE: {
-                std::vector<double> ps(this->get_m(), 0.);
+                std::vector<double> ps(this->get_m(), 0.), log_ps(this->get_m(), 0.);
                 // We store output values in ps
                 for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                     auto node_idx = this->get()[this->get().size() - this->get_m() + i];
@@ -360,18 +360,20 @@ public:
                 }
                 // We guard from numerical instabilities subtracting the max
                 auto max = *std::max_element(ps.begin(), ps.end());
+                std::transform(ps.begin(), ps.end(), log_ps.begin(), [max](double a) { return a - max; });
                 std::transform(ps.begin(), ps.end(), ps.begin(), [max](double a) { return std::exp(a - max); });
                 // We compute the sum of exp(o_i - max)
                 double cumsum = std::accumulate(ps.begin(), ps.end(), 0.);
+                double log_cumsum = std::log(cumsum);
                 // We transform to probabilities p_i
                 std::transform(ps.begin(), ps.end(), ps.begin(), [cumsum](double a) { return a / cumsum; });
                 // We add the derivatives of the loss w.r.t. to outputs
                 for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
                     d_node.push_back(ps[i] - prediction[i]);
                 }
-                // We compute the cross-entropy
-                std::transform(ps.begin(), ps.end(), prediction.begin(), ps.begin(),
-                               [](double p, double y) { return std::log(p) * y; });
+                // We compute the cross-entropy. The logarithm is not taken on p_i as it may underflow to zero
+                std::transform(log_ps.begin(), log_ps.end(), prediction.begin(), ps.begin(),
+                               [log_cumsum](double lp, double y) { return (lp - log_cumsum) * y; });
                 // - sum log(p_i) y_i
                 value += -std::accumulate(ps.begin(), ps.end(), 0.);
                 break;
-- 
2.43.0


From ec523b1399f62f93d34b4cc68d995cc3268d2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 05/42] fix: expression_ann: the ISRU derivative is NaN at zero

It was computed as (f(x) / x)^3.
---
 include/dcgp/expression_ann.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 6527d3a..04f6313 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -963,7 +963,8 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        auto tmp = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = tmp * tmp * tmp;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From 4fe238a7a668fd030b49c78e8ce872ce3e64b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 06/42] fix: expression_ann: set_output_f on invalid requests

An unknown name led to the use of an uninitialised iterator, and an output
connected to an input threw after some of the nodes had been changed.
---
 include/dcgp/expression_ann.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 04f6313..c06f36c 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -532,7 +532,8 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        // A name that is not that of an ANN kernel is never found
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -563,6 +564,13 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            // We check all the outputs before touching any node
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument("An output is connected directly to an input node, hence its "
+                                                "nonlinearity cannot be set");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From 5323b5586209450ced4d588db3d361d9f90ff4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 07/42] fix: expression_ann: sgd never ends when the batch size
 is zero

---
 include/dcgp/expression_ann.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index c06f36c..0f352e6 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -473,6 +473,9 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
         if (lr <= 0) {
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
-- 
2.43.0


From ddb09172ef751ced4fe3267b31684a45d86031ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 08/42] fix: gaussian kernel: the argument is parenthesised in
 the symbolic form

A compound argument such as -(x) resulted in exp(--(x)**2), the exponent
having the wrong sign.
---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..1ca3206 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 4c40e54a6637fb80e1ca3036d9a323ce4d3f1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 09/42] fix: pdiv kernel: out of bounds read when called with
 one argument

---
 include/dcgp/wrapped_functions.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 1ca3206..a6cebf7 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -154,9 +154,8 @@ struct my_pdiv_func {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
-        T tmpval(in[1]);
-
-        for (auto i = 2u; i < in.size(); ++i) {
+        T tmpval(1.);
+        for (auto i = 1u; i < in.size(); ++i) {
             tmpval *= in[i];
         }
 
-- 
2.43.0


From fc2068eeaf996ef2f3c8deb3f745c3b8339c6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 10/42] fix: symbolic_regression: do not access the labels
 before checking their size

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..63b558c 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -570,14 +570,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 3dbb8a8ab611261b3d57c8f6bad6aaee095e4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 11/42] fix: symbolic_regression: initialise the loss type in
 the default constructor

---
 include/dcgp/problems/symbolic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 63b558c..733e756 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -51,7 +51,8 @@ public:
      */
     symbolic_regression()
         : m_points(1), m_labels(1), m_r(1), m_c(1), m_l(1), m_arity(2), m_f(kernel_set<double>({"sum"})()), m_n_eph(0),
-          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE")
+          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE"),
+          m_loss_e(dcgp::expression<audi::gdual_v>::loss_type::MSE)
     {
     }
 
-- 
2.43.0


From 5016f8b6d715b681b94af3fdff3d7cf2cdf43955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 12/42] fix: symbolic_regression: wrong derivatives with ten or
 more constants

The derivatives were requested by position while the symbols of the constants
are ordered lexicographically: c1, c10, c11, c2, ...
---
 include/dcgp/problems/symbolic_regression.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 733e756..4cf48f7 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -3,6 +3,8 @@
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -207,8 +209,8 @@ public:
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                // NOTE: derivatives are requested by name as the symbols are ordered lexicographically (c1, c10, c2, ..)
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto dvec = loss.get_derivative(coeff);
                 retval[i] = collapse(dvec);
             }
@@ -285,16 +287,15 @@ public:
         if (!(loss.get_order() == 0u)) {
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                std::unordered_map<std::string, unsigned> coeff{{m_deph_symb[i], 1u}};
                 auto deriv = loss.get_derivative(coeff);
                 m_cache_gradient.second[i] = collapse(deriv);
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
+                std::unordered_map<std::string, unsigned> coeff;
+                coeff[m_deph_symb[hs[0][i].first]] += 1u;
+                coeff[m_deph_symb[hs[0][i].second]] += 1u;
                 auto deriv = loss.get_derivative(coeff);
                 retval[0][i] = collapse(deriv);
             }
-- 
2.43.0


From 14fed3d55ae5328eed4e416c42084dd720927feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 13/42] fix: symbolic_regression: phenotype correction must
 invalidate the cache

The fitness cached by gradient() and hessians() was returned also after the
correction had been changed.
---
 include/dcgp/problems/symbolic_regression.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 4cf48f7..cd88b2a 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -529,6 +529,9 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        // The cached values were computed without this correction
+        m_cache_fitness.first.clear();
+        m_cache_gradient.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -536,6 +539,9 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        // The cached values were computed with the correction
+        m_cache_fitness.first.clear();
+        m_cache_gradient.first.clear();
     }
 
 private:
-- 
2.43.0


From 662b86a56d2afc6dc3fdff68389a5a2c80554f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 14/42] fix: symbolic_regression: fitness depends on previous
 calls when using pdiv

The fitness cached by gradient() and hessians() is that of the expression where
pdiv is replaced by div, and may differ (for example it may be not finite).
---
 include/dcgp/problems/symbolic_regression.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index cd88b2a..fdaf214 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -201,9 +201,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, loss);
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -278,9 +276,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, loss);
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -551,6 +547,18 @@ private:
         return std::accumulate(vec.begin(), vec.end(), 0.) / static_cast<double>(vec.size());
     }
 
+    // Caches the loss computed by the inner dcgp expression. When the protected division is used the dcgp expression
+    // (where it is replaced by the division) may have a different loss, which must not be returned by the fitness.
+    void cache_fitness(const pagmo::vector_double &x, const audi::gdual_v &loss) const
+    {
+        if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
+            return;
+        }
+        m_cache_fitness.first = x;
+        m_cache_fitness.second.resize(get_nobj());
+        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+    }
+
     // Transpose of a vector vector
     static inline std::vector<std::vector<double>> transpose(const std::vector<std::vector<double>> &points)
     {
-- 
2.43.0


From 2d28a0e55a00ed0bf3b0345470a1264cd9984f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 15/42] fix: symbolic_regression: never advertise a constant
 thread safety

With kernels having a constant thread safety the problem was considered as
usable concurrently, while its fitness writes mutable data members.
---
 include/dcgp/problems/symbolic_regression.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index fdaf214..40cbe39 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -505,10 +505,12 @@ public:
      */
     pagmo::thread_safety get_thread_safety() const
     {
-        return (*std::min_element(
-                    m_f.begin(), m_f.end(),
-                    [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
-            .get_thread_safety();
+        auto retval = (*std::min_element(
+                           m_f.begin(), m_f.end(),
+                           [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
+                          .get_thread_safety();
+        // The fitness changes mutable data members, hence one object cannot be used by multiple threads at once.
+        return std::min(retval, pagmo::thread_safety::basic);
     }
 
     /// Sets the phenotype correction
-- 
2.43.0


From bd5e8df09c0a773925a57ae8b523d8a1cb2db5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 16/42] fix: es4cgp: constants are set to zero when they are
 not learned

---
 include/dcgp/algorithms/es4cgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..a2db9ff 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,8 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else { // otherwise the constants are those of the parent
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
-- 
2.43.0


From 22daec9f1f3d2a4c309a6b79c83561e5da173456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 17/42] fix: moes4cgp: constants are set to zero when they are
 not learned

---
 include/dcgp/algorithms/moes4cgp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..570a4d5 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,10 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else { // otherwise the constants are those of the parent
+                    for (auto j = 0u; j < n_eph; ++j) {
+                        dvs[i * dim + j] = pop.get_x()[i][j];
+                    }
                 }
             }
 
-- 
2.43.0


From 8a36e8291455ebfeadafaa8de59810b3f57465e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 18/42] fix: mes4cgp: no log and no screen output when the
 verbosity is zero

The ftol exit condition was logged and printed regardless of the verbosity.
---
 include/dcgp/algorithms/mes4cgp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..8d5d514 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -289,12 +289,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 return pop;
             }
         }
-- 
2.43.0


From d74446879a38be2002363b2919fd66e7e307a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 19/42] fix: moes4cgp: the ftol exit condition must not depend
 on the verbosity

It was checked only when a log line was added, hence never with verbosity zero.
---
 include/dcgp/algorithms/moes4cgp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 570a4d5..5f8b78d 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,15 +164,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition (this must not depend on the verbosity)
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
             for (decltype(NP) i = 0u; i < NP; ++i) {
-- 
2.43.0


From f27c0b859d4ec454ddb5cefc1097f6f12e9f21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 20/42] fix: momes4cgp: the ftol exit condition must not depend
 on the verbosity

It was checked only when a log line was added, hence never with verbosity zero.
---
 include/dcgp/algorithms/momes4cgp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..6871fad 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,15 +152,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition (this must not depend on the verbosity)
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
 
             // At each generation we need a copy of the population
             pagmo::population popnew(pop);
-- 
2.43.0


From f6c6be38a9de33a031ec73e602e85c13798c47c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 21/42] fix: moes4cgp: ftol was not serialised

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 5f8b78d..16c9951 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -370,6 +370,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From b8ac8530a970d980abfee1749e73dd4615d18496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 22/42] fix: gd4cgp: the selection and replacement policies
 were not serialised

---
 include/dcgp/algorithms/gd4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..f08d056 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -290,6 +290,7 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From 75fbe53b82b2a8aa0b99761a2c143fb857ebeb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 23/42] fix: mes4cgp: wrong hessian element used when only one
 constant is active

The second derivative with respect to the k-th constant is not the k-th element
of the lower triangular hessian (unless k = 0), so that no Newton step was made.
---
 include/dcgp/algorithms/mes4cgp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 8d5d514..b08d3dc 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // The hessian is stored as a lower triangular matrix, row by row.
+                        auto h = hess[0][non_zero[0] * (non_zero[0] + 3u) / 2u];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From b390771d27e76ead526d24dbedce9b520aca5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 24/42] fix: momes4cgp: wrong hessian element used when only
 one constant is active

The second derivative with respect to the k-th constant is not the k-th element
of the lower triangular hessian (unless k = 0), so that no Newton step was made.
---
 include/dcgp/algorithms/momes4cgp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 6871fad..1393aab 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -220,10 +220,10 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
-                            mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                        // The hessian is stored as a lower triangular matrix, row by row.
+                        auto h = hess[0][non_zero[0] * (non_zero[0] + 3u) / 2u];
+                        if (h != 0. && std::isfinite(grad[non_zero[0]]) && std::isfinite(h)) {
+                            mutated_x[i][non_zero[0]] = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / h;
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From 62773ed66f08bfc2d880b0c65098844c5616feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 25/42] fix: ReLu, ELU and step test the sign of a vectorized
 gdual element by element

---
 include/dcgp/wrapped_functions.hpp | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index a6cebf7..4fa3272 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -1,11 +1,13 @@
 #ifndef DCGP_WRAPPED_FUNCTIONS_H
 #define DCGP_WRAPPED_FUNCTIONS_H
 
+#include <algorithm>
 #include <audi/audi.hpp>
 #include <audi/functions.hpp>
 #include <cmath>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include <dcgp/config.hpp>
@@ -273,6 +275,28 @@ struct print_my_tanh_func {
 
 inline constexpr auto print_my_tanh = print_my_tanh_func{};
 
+namespace detail
+{
+// The piecewise kernels (ReLu, ELU, step) must test the sign of a vectorized gdual element by element.
+// True if some elements of c are negative and some are not.
+template <typename Cf>
+bool mixed_signs(const Cf &c)
+{
+    const auto n = std::count_if(c.begin(), c.end(), [](double v) { return v < 0.; });
+    return n > 0 && n < c.end() - c.begin();
+}
+// Returns a coefficient containing 0 where c is negative and 1 elsewhere.
+template <typename Cf>
+Cf non_negative_mask(const Cf &c)
+{
+    std::vector<double> mask(c.begin(), c.end());
+    for (auto &v : mask) {
+        v = v < 0. ? 0. : 1.;
+    }
+    return Cf(std::move(mask));
+}
+} // namespace detail
+
 // ReLu function (double overload):
 template <typename T, typename = void>
 struct my_relu_func {
@@ -301,6 +325,11 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            if (detail::mixed_signs(retval.constant_cf())) {
+                return retval * T(detail::non_negative_mask(retval.constant_cf()));
+            }
+        }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = T(0.);
         }
@@ -355,6 +384,12 @@ struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            if (detail::mixed_signs(retval.constant_cf())) {
+                const T mask(detail::non_negative_mask(retval.constant_cf()));
+                return retval * mask + (audi::exp(retval * (T(1.) - mask)) - T(1.));
+            }
+        }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = audi::exp(retval) - T(1.);
         }
@@ -624,6 +659,11 @@ struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            if (detail::mixed_signs(retval.constant_cf())) {
+                return T(detail::non_negative_mask(retval.constant_cf()));
+            }
+        }
         if (retval.constant_cf() < T(0.).constant_cf()) {
             retval = T(0.);
         } else {
-- 
2.43.0


From 4e6cada5402f3f4085f1e679157a256edac05b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 26/42] fix: expression_ann: sgd on malformed data was
 interrupted with the weights half trained

---
 include/dcgp/expression_ann.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 0f352e6..5d9360d 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -491,6 +491,19 @@ public:
             throw std::invalid_argument("The requested loss was: " + loss_s + " while only MSE and CE are allowed");
         }
 
+        // All the data is checked before touching anything, so that the training cannot be interrupted half way
+        if (std::any_of(points.begin(), points.end(),
+                        [this](const std::vector<double> &p) { return p.size() != this->get_n(); })
+            || std::any_of(labels.begin(), labels.end(),
+                           [this](const std::vector<double> &l) { return l.size() != this->get_m(); })) {
+            throw std::invalid_argument("The dimension of some of the data or labels is not that of the dCGPANN");
+        }
+        if (parallel > 0u
+            && (points.size() % batch_size % parallel != 0u
+                || (points.size() >= batch_size && batch_size % parallel != 0u))) {
+            throw std::invalid_argument("The batches cannot be divided into " + std::to_string(parallel) + " parts.");
+        }
+
         if (shuffle) {
             // Creating a shuffle
             // Create two random engines with the same state
-- 
2.43.0


From 40fc7c4afff8d0108603c067c4cf9da958b57ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 27/42] fix: cross entropy of vectorized gduals: the largest
 output is taken for each point

The largest output was chosen comparing the vectorized coefficients as a whole, so that the exponentials of
other points could overflow: the loss (and the fitness cached from it) and its derivatives were NaN.
---
 include/dcgp/expression.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index fdd7fe0..c9956f5 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -9,6 +9,8 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
+#include <utility>
 #include <vector>
 
 #include <audi/audi.hpp>
@@ -306,7 +308,7 @@ public:
             // Cross Entropy
             case loss_type::CE: {
                 // We guard from numerical instabilities subtracting the max element
-                auto max = *std::max_element(outputs.begin(), outputs.end());
+                auto max = max_output(outputs);
                 // log(sum exp(a_i - max))
                 T cumsum(0.);
                 for (const auto &a : outputs) {
@@ -1052,6 +1054,29 @@ protected:
     }
 
 private:
+    // The largest output. For a vectorized gdual it is computed for each of its elements.
+    static T max_output(const std::vector<T> &outputs)
+    {
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            std::vector<double> retval;
+            for (const auto &o : outputs) {
+                const auto c = o.constant_cf();
+                const std::vector<double> values(c.begin(), c.end());
+                // A size of one stands for the same value in all the elements
+                if (retval.empty()) {
+                    retval = values;
+                } else if (retval.size() < values.size()) {
+                    retval.resize(values.size(), retval[0]);
+                }
+                for (decltype(retval.size()) i = 0u; i < retval.size(); ++i) {
+                    retval[i] = std::max(retval[i], values.size() == 1u ? values[0] : values[i]);
+                }
+            }
+            return T(audi::vectorized<double>(std::move(retval)));
+        } else {
+            return *std::max_element(outputs.begin(), outputs.end());
+        }
+    }
     // implemented as a fake static member as to allow its use as a phenotype correction.
     static std::vector<T> call_operator_impl(const expression<T> &ex, const std::vector<T> &point)
     {
-- 
2.43.0


From 5c3479211f51742c8396c0163cc333d7b559f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 28/42] fix: symbolic_regression: a non finite loss computed on
 gduals must not be cached

The same decision vector may have a finite loss when it is computed on doubles (e.g. ReLu of minus infinity).
---
 include/dcgp/problems/symbolic_regression.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 40cbe39..b44e693 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -1,6 +1,7 @@
 #ifndef DCGP_SYMBOLIC_REGRESSION_H
 #define DCGP_SYMBOLIC_REGRESSION_H
 #include <algorithm>
+#include <cmath>
 #include <functional>
 #include <numeric> // std::accumulate
 #include <string>
@@ -556,9 +557,14 @@ private:
         if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
             return;
         }
+        const auto value = collapse(loss.constant_cf());
+        // Operations on non finite values (e.g. inf * 0) may differ from those made by the cgp expression
+        if (!std::isfinite(value)) {
+            return;
+        }
         m_cache_fitness.first = x;
         m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        m_cache_fitness.second[0] = value;
     }
 
     // Transpose of a vector vector
-- 
2.43.0


From a1e3e2d9b8ff8ed11777199bd3c136bc8e6a96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 29/42] fix: es4cgp, mes4cgp: a NaN fitness in the first
 individual hid the best of the population

---
 include/dcgp/algorithms/es4cgp.hpp            |  4 ++--
 include/dcgp/algorithms/mes4cgp.hpp           |  4 ++--
 include/dcgp/problems/symbolic_regression.hpp | 21 +++++++++++++++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index a2db9ff..29a8012 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -142,7 +142,7 @@ public:
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // We get the best chromosome in the population.
-        auto best_idx = pop.best_idx();
+        auto best_idx = details::best_idx(pop);
         auto best_x = pop.get_x()[best_idx];
         double best_f = pop.get_f()[best_idx][0];
         auto mutated_eph_val = std::vector<double>(n_eph, 0.);
@@ -368,7 +368,7 @@ private:
                            pagmo::vector_double(1, fs[i]));
             }
         }
-        auto worst_idx = pop.worst_idx();
+        auto worst_idx = details::worst_idx(pop);
         double worst_f_in_pop = pop.get_f()[worst_idx][0];
         // Then the best in place of the worst
         if (pagmo::detail::less_than_f(best_f, worst_f_in_pop)) {
diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index b08d3dc..2f6196e 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -131,8 +131,8 @@ public:
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // We get the best chromosome in the population.
-        auto best_idx = pop.best_idx();
-        auto worst_idx = pop.worst_idx();
+        auto best_idx = details::best_idx(pop);
+        auto worst_idx = details::worst_idx(pop);
         auto best_x = pop.get_x()[best_idx];
         auto best_f = pop.get_f()[best_idx];
         // And we split it into its integer ...
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b44e693..0abbf09 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -11,6 +11,7 @@
 #include <audi/gdual.hpp>
 #include <boost/numeric/conversion/cast.hpp>
 #include <boost/range/algorithm/transform.hpp>
+#include <pagmo/detail/custom_comparisons.hpp>
 #include <pagmo/io.hpp>
 #include <pagmo/population.hpp>
 #include <pagmo/problem.hpp>
@@ -690,6 +691,26 @@ namespace details
 // the correct UDP.
 inline dcgp::function<const dcgp::symbolic_regression *(const pagmo::problem &)> extract_sr_cpp_py
     = [](const pagmo::problem &p) { return p.extract<dcgp::symbolic_regression>(); };
+
+// Indexes of the best and worst individuals of a single objective population, where a NaN fitness is the worst
+// (pagmo::population::best_idx() and worst_idx() are not NaN aware: they return the first individual if its fitness is
+// NaN).
+inline pagmo::population::size_type best_idx(const pagmo::population &pop)
+{
+    const auto &f = pop.get_f();
+    auto it = std::min_element(f.begin(), f.end(), [](const pagmo::vector_double &a, const pagmo::vector_double &b) {
+        return pagmo::detail::less_than_f(a[0], b[0]);
+    });
+    return static_cast<pagmo::population::size_type>(it - f.begin());
+}
+inline pagmo::population::size_type worst_idx(const pagmo::population &pop)
+{
+    const auto &f = pop.get_f();
+    auto it = std::max_element(f.begin(), f.end(), [](const pagmo::vector_double &a, const pagmo::vector_double &b) {
+        return pagmo::detail::less_than_f(a[0], b[0]);
+    });
+    return static_cast<pagmo::population::size_type>(it - f.begin());
+}
 } // namespace details
 } // namespace dcgp
 
-- 
2.43.0


From 9410a6a76516d05466acf2efc115a5b42651c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:49 +0000
Subject: [PATCH 30/42] fix: ReLu of vectorized gduals: the clipped elements
 were -0, whose inverse is -inf

---
 include/dcgp/wrapped_functions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 4fa3272..5e4b87e 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -327,7 +327,8 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         }
         if constexpr (std::is_same<T, audi::gdual_v>::value) {
             if (detail::mixed_signs(retval.constant_cf())) {
-                return retval * T(detail::non_negative_mask(retval.constant_cf()));
+                // Adding zero turns into 0 the -0 the product yields where retval is negative
+                return retval * T(detail::non_negative_mask(retval.constant_cf())) + T(0.);
             }
         }
         if (retval.constant_cf() < T(0.).constant_cf()) {
-- 
2.43.0


From 9893c5848ac40685791e374cf90e0aef0bbbe2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 31/42] fix: moes4cgp, momes4cgp: models with a NaN loss were
 selected in place of the best ones

---
 include/dcgp/algorithms/moes4cgp.hpp          |  2 +-
 include/dcgp/algorithms/momes4cgp.hpp         |  2 +-
 include/dcgp/problems/symbolic_regression.hpp | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 16c9951..4de7a4a 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -214,7 +214,7 @@ public:
             }
 
             // 4 - We select a new population using non dominated sorting
-            best_idx = pagmo::select_best_N_mo(fs_v, NP);
+            best_idx = details::select_best_N_mo(fs_v, NP);
             // 5 - We insert into the population
             for (decltype(best_idx.size()) i = 0; i < best_idx.size(); ++i) {
                 pop.set_xf(i, dvs_v[best_idx[i]], fs_v[best_idx[i]]);
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 1393aab..1aa229f 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -294,7 +294,7 @@ public:
                 }
             }
             // 3 - We select a new population using non dominated sorting
-            best_idx = pagmo::select_best_N_mo(popnew.get_f(), NP);
+            best_idx = details::select_best_N_mo(popnew.get_f(), NP);
             // We insert into the population
             for (pagmo::population::size_type i = 0; i < NP; ++i) {
                 pop.set_xf(i, popnew.get_x()[best_idx[i]], popnew.get_f()[best_idx[i]]);
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 0abbf09..96d794f 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric> // std::accumulate
 #include <string>
 #include <unordered_map>
@@ -16,6 +17,7 @@
 #include <pagmo/population.hpp>
 #include <pagmo/problem.hpp>
 #include <pagmo/types.hpp>
+#include <pagmo/utils/multi_objective.hpp>
 
 #include <dcgp/expression.hpp>
 #include <dcgp/kernel_set.hpp>
@@ -711,6 +713,19 @@ inline pagmo::population::size_type worst_idx(const pagmo::population &pop)
     });
     return static_cast<pagmo::population::size_type>(it - f.begin());
 }
+
+// Selects the N best individuals of a multi objective population. Models whose loss is not finite come last, whatever
+// their complexity (the crowding distance is otherwise NaN, and the best models may be dropped in favour of them).
+inline std::vector<pagmo::population::size_type> select_best_N_mo(std::vector<pagmo::vector_double> fs,
+                                                                  pagmo::population::size_type N)
+{
+    for (auto &f : fs) {
+        if (!std::isfinite(f[0])) {
+            std::fill(f.begin(), f.end(), std::numeric_limits<double>::infinity());
+        }
+    }
+    return pagmo::select_best_N_mo(fs, N);
+}
 } // namespace details
 } // namespace dcgp
 
-- 
2.43.0


From bf05e5df6f74b29af7091738614bc2192d00dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:17 +0000
Subject: [PATCH 32/42] fix: UBall5D data: the squared distances were
 multiplied instead of summed

---
 include/dcgp/gym.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..ba1b983 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -90,8 +90,8 @@ inline double uball5d(const std::vector<double> &x)
 {
     return 10.
            / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+              + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From 339e4749cfa7d4d92ba5a8d4b957b89dc98f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:17 +0000
Subject: [PATCH 33/42] fix: SineCosine data: the labels were not 6 sin(x1)
 cos(x2)

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index ba1b983..c1cc1a5 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -101,7 +101,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From cf8c5d94901a8fa870c9cc48314e7ce46e6908e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:17 +0000
Subject: [PATCH 34/42] fix: Lanczos2 data: the labels had four decimals
 instead of the six published digits

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From f9c65dc0594820b275398357b08efc26c04d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 35/42] fix: expression_ann: an invalid index of a weight or
 bias was read or written out of bounds

---
 include/dcgp/expression_ann.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 5d9360d..d3d5b92 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -683,10 +683,13 @@ public:
      * @param[idx] index of the weight to be changed.
      * @param[w] value of the weight to be changed.
      *
-     * @throws std::invalid_argument if the node_id or input_id are not valid
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -738,9 +741,13 @@ public:
      *
      * @param[in] idx index of the weight
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -785,9 +792,13 @@ public:
      * @param[idx] index of the bias to be changed.
      * @param[w] value of the new bias.
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -813,9 +824,13 @@ public:
      *
      * @param[in] idx index of the bias
      *
+     * @throws std::invalid_argument if the index is not valid
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0


From 6edb4eb3d385a0bdc0741e438e0da281f1db374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 36/42] fix: NaN genes were accepted and cast to an arbitrary
 integer

---
 include/dcgp/expression.hpp                   |  2 +-
 include/dcgp/problems/symbolic_regression.hpp | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index c9956f5..7998342 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1134,7 +1134,7 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            if (!((*begin <= *ub_iter) && (*begin >= *lb_iter))) { // NOTE: true for NaNs too
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 96d794f..64d0776 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -193,7 +193,7 @@ public:
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
         std::vector<unsigned> xu(x.size() - m_n_eph);
         std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+                       gene_cast);
         m_dcgp.set(xu);
         // 2 - We use the floating point part of the chromosome to set ephemeral constants.
         std::vector<audi::gdual_v> eph_val;
@@ -265,7 +265,7 @@ public:
         // 1 - We extract the integer part and represent it as an unsigned vector to set the CGP expression.
         std::vector<unsigned> xu(x.size() - m_n_eph);
         std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.begin(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+                       gene_cast);
         m_dcgp.set(xu);
         // 2 - We use the floating point part of the chromosome to set the ephemeral constants values of the dcgp
         // member.
@@ -457,7 +457,7 @@ public:
         // We need to make a copy of the chromosome as to represents its genes as unsigned
         std::vector<unsigned> xu(x.size() - m_n_eph);
         std::transform(x.data() + m_n_eph, x.data() + x.size(), xu.data(),
-                       [](double a) { return boost::numeric_cast<unsigned>(a); });
+                       gene_cast);
         m_cgp.set(xu);
         // 2 - We set the floating point part as ephemeral constants.
         std::vector<double> eph_val(x.data(), x.data() + m_n_eph);
@@ -547,6 +547,15 @@ public:
     }
 
 private:
+    // Casts a component of the decision vector to a gene. (NOTE: boost::numeric_cast does not detect NaNs)
+    static inline unsigned gene_cast(double a)
+    {
+        if (std::isnan(a)) {
+            throw std::invalid_argument("The chromosome contains a NaN gene.");
+        }
+        return boost::numeric_cast<unsigned>(a);
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From ff9e94266a29575ad7cb50bd90cc669f30a6dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:34 +0000
Subject: [PATCH 37/42] fix: sizes whose number of nodes or genes overflows
 corrupted the memory

---
 include/dcgp/expression.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 7998342..2402f11 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -5,6 +5,8 @@
 #include <functional>
 #include <initializer_list>
 #include <iostream>
+#include <limits>
+#include <numeric>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -1160,6 +1162,13 @@ private:
             throw std::invalid_argument("Basis functions arity cannot be zero");
         }
         if (m_f.size() == 0) throw std::invalid_argument("Number of basis functions is 0");
+        // The number of nodes and of genes must be representable by the type used to index them.
+        const double arity_sum = std::accumulate(m_arity.begin(), m_arity.end(), 0.);
+        const double n_nodes = static_cast<double>(m_n) + static_cast<double>(m_r) * m_c;
+        const double n_genes = static_cast<double>(m_r) * (m_c + arity_sum) + m_m;
+        if (std::max(n_nodes, n_genes) > static_cast<double>(std::numeric_limits<unsigned>::max())) {
+            throw std::invalid_argument("The size requested (rows, columns, arity, inputs and outputs) is too large");
+        }
     }
     void init_bounds_and_chromosome()
     {
-- 
2.43.0


From 8936c8636946d30e8a7741d03e47787809d0f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 38/42] fix: loss: outputs of a phenotype correction of another
 length were read out of bounds

---
 include/dcgp/expression.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 2402f11..be63987 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -298,6 +298,11 @@ public:
         T retval(0.);
 
         auto outputs = this->operator()(point);
+        if (outputs.size() != prediction.size()) { // a phenotype correction can return any number of outputs
+            throw std::invalid_argument("When computing the loss the number of outputs was: "
+                                        + std::to_string(outputs.size())
+                                        + " while I expected: " + std::to_string(prediction.size()));
+        }
         switch (loss_e) {
             // Mean Square Error
             case loss_type::MSE: {
-- 
2.43.0


From addb0da0af0f334ebd9af275503d4886df7ab22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 39/42] fix: a number of inputs and constants that overflows
 gave an expression that cannot be evaluated

---
 include/dcgp/expression.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index be63987..67896e9 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -103,7 +103,7 @@ public:
         : m_n(n + n_eph), m_m(m), m_r(r), m_c(c), m_l(l), m_arity(arity), m_f(f), m_e(seed)
     {
         // Sanity checks
-        sanity_checks();
+        sanity_checks(n_eph);
         // Initializing bounds and chromosome
         init_bounds_and_chromosome();
         // We generate a random chromosome (expression)
@@ -152,7 +152,7 @@ public:
         // We fill the arity vector with the same number (uniform arity)
         m_arity = std::vector<unsigned>(m_c, arity);
         // Sanity checks
-        sanity_checks();
+        sanity_checks(n_eph);
         // Initializing bounds and chromosome
         init_bounds_and_chromosome();
         // We generate a random chromosome (expression)
@@ -1153,8 +1153,9 @@ private:
         return true;
     }
 
-    void sanity_checks()
+    void sanity_checks(unsigned n_eph)
     {
+        if (m_n < n_eph) throw std::invalid_argument("The number of inputs and ephemeral constants is too large");
         if (m_n == 0) throw std::invalid_argument("Number of inputs is 0");
         if (m_m == 0) throw std::invalid_argument("Number of outputs is 0");
         if (m_c == 0) throw std::invalid_argument("Number of columns is 0");
-- 
2.43.0


From b1a7321524324f72bd2dc2b768deb4d2e17aa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 40/42] fix: gd4cgp: an empty population was accessed out of
 bounds

---
 include/dcgp/algorithms/gd4cgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index f08d056..6ca5a21 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -103,6 +103,9 @@ public:
             throw std::invalid_argument(prob.get_name() + " has multiple objectives. " + get_name()
                                         + " can only be used on problems that are single objective.");
         }
+        if (pop.size() == 0u) {
+            throw std::invalid_argument(get_name() + " needs at least 1 individual in the population, 0 detected");
+        }
         // Get out if there is nothing to do.
         if (m_max_iter == 0u) {
             if (m_verbosity > 0u) {
-- 
2.43.0


From 5367a0b67cbf4b1965eb42ae4b9a709810e8aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 41/42] fix: symbolic_regression thread safety accounts for the
 phenotype corrections

---
 include/dcgp/expression.hpp                   | 12 ++++++++++++
 include/dcgp/problems/symbolic_regression.hpp |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 67896e9..61eb7ec 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -31,6 +31,8 @@
 #include <boost/serialization/optional.hpp>
 #include <boost/serialization/version.hpp>
 
+#include <pagmo/threading.hpp>
+
 #include <dcgp/config.hpp>
 #include <dcgp/kernel.hpp>
 #include <dcgp/kernel_set.hpp>
@@ -901,6 +903,16 @@ public:
         m_phenotype_correction = boost::none;
     }
 
+    /// Thread safety of the phenotype correction
+    /**
+     * @return the thread safety level declared by the phenotype correction, or the default level
+     * (pagmo::thread_safety::basic) if no phenotype correction is set.
+     */
+    pagmo::thread_safety get_phenotype_correction_thread_safety() const
+    {
+        return m_phenotype_correction ? m_phenotype_correction->get_thread_safety() : pagmo::thread_safety::basic;
+    }
+
     /// Overloaded stream operator
     /**
      * Will return a formatted string containing a human readable representation
diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 64d0776..4ab20b1 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -513,6 +513,9 @@ public:
                            m_f.begin(), m_f.end(),
                            [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
                           .get_thread_safety();
+        // The phenotype corrections (if any) are also called by the fitness and by its derivatives.
+        retval = std::min({retval, m_cgp.get_phenotype_correction_thread_safety(),
+                           m_dcgp.get_phenotype_correction_thread_safety()});
         // The fitness changes mutable data members, hence one object cannot be used by multiple threads at once.
         return std::min(retval, pagmo::thread_safety::basic);
     }
-- 
2.43.0


From 9829d96ad9006e5f27e84b018ad895a046a0a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 42/42] fix: gradient of the cross entropy when the labels do
 not sum to one

---
 include/dcgp/expression_ann.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index d3d5b92..102f3b9 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -367,9 +367,10 @@ public:
                 double log_cumsum = std::log(cumsum);
                 // We transform to probabilities p_i
                 std::transform(ps.begin(), ps.end(), ps.begin(), [cumsum](double a) { return a / cumsum; });
-                // We add the derivatives of the loss w.r.t. to outputs
+                // We add the derivatives of the loss w.r.t. to outputs (the labels may not sum to one)
+                const double labels_sum = std::accumulate(prediction.begin(), prediction.end(), 0.);
                 for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
-                    d_node.push_back(ps[i] - prediction[i]);
+                    d_node.push_back(ps[i] * labels_sum - prediction[i]);
                 }
                 // We compute the cross-entropy. The logarithm is not taken on p_i as it may underflow to zero
                 std::transform(log_ps.begin(), log_ps.end(), prediction.begin(), ps.begin(),
-- 
2.43.0

