From a8b71a12962ee3db95b86261e86d980ec84a96f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 01/48] fix: linear transforms keep their matrix type when
 copied and start with defined fields

---
 c3/lib_probability/probability.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..5e26154 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -619,8 +619,9 @@ linear_transform_alloc(size_t dimin, size_t dimout, double * A,
     lt->A = calloc_double(dimin*dimout);
     if (A != NULL){
         memmove(lt->A,A,dimin*dimout*sizeof(double));
-        lt->det = det;
     }
+    lt->det = det;
+    lt->mt = GEN;
 
     lt->b = calloc_double(dimout);
     if (b!= NULL){
@@ -630,6 +631,8 @@ linear_transform_alloc(size_t dimin, size_t dimout, double * A,
     // these are only allocated if necessary!!
     lt->Ainv = NULL;
     lt->binv = NULL;
+    lt->detinv = 0.0;
+    lt->mti = GEN;
 
     return lt;
 }
@@ -645,6 +648,8 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
 {
     struct LinearTransform * newlt = 
         linear_transform_alloc(lt->dimin, lt->dimout, lt->A, lt->b, lt->det);
+    newlt->mt = lt->mt;
+    newlt->mti = lt->mti;
 
     if (lt->Ainv != NULL){
         newlt->Ainv = calloc_double(lt->dimin*lt->dimout);
-- 
2.43.0


From fe8bcc8b7b212485a9f307199176e8ea854ec883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 02/48] fix: copying an optimizer keeps the stochastic
 objective and does not overrun the batch-gradient workspace

---
 c3/lib_optimization/optimization.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..ffed07a 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -302,6 +302,7 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->d = 0;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
 
     opt->lb = NULL;
@@ -318,6 +319,8 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->gtol = 1e-12;
 
     opt->sgd = NULL;
+    opt->nlocs = 0;
+    opt->prev_eval = 0.0;
     if (alg == BFGS){
         opt->grad = 1;
         opt->workspace = NULL; 
@@ -450,6 +453,7 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->d = d;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
     
     opt->lb = calloc_double(d);
@@ -471,6 +475,8 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->gtol = 1e-12;
 
     opt->sgd = NULL;
+    opt->nlocs = 0;
+    opt->prev_eval = 0.0;
     if (alg == BFGS){
         opt->grad = 1;
         opt->workspace = calloc_double(4*d);
@@ -533,6 +539,7 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     }
     struct c3Opt * opt = c3opt_alloc(old->alg,old->d);
     opt->f = old->f;
+    opt->fsgd = old->fsgd;
     opt->farg = old->farg;
     memmove(opt->lb,old->lb,opt->d*sizeof(double));
     memmove(opt->ub,old->ub,opt->d*sizeof(double));
@@ -545,7 +552,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2 : 4;
+        memmove(opt->workspace,old->workspace,nwork*opt->d*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
-- 
2.43.0


From 206d930a5ba587a8d7d804f97892d21762734448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:53 +0000
Subject: [PATCH 03/48] fix: qmatqmat stores element (i,j) of a^T b^T where the
 result's shape says it is

---
 c3/lib_clinalg/qmarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..5f05940 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1, 
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
-- 
2.43.0


From 2068d5e4345618f79fe46fbba40fdf4e947d3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:53 +0000
Subject: [PATCH 04/48] fix: a transposed tensor copy records the transposed
 extents

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From 115b394c1712f48c49c4f85a5712c8196596dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 05/48] fix: constant-element parameter gradients set every
 entry and return the value

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..2643839 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From c1265820d3e086c64653c8f8d875db8397716e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 06/48] fix: updating kernel parameters checks the number of
 kernels instead of overwriting it

---
 c3/lib_funcs/kernels.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/kernels.c b/c3/lib_funcs/kernels.c
index 2e517d7..4148de8 100644
--- a/c3/lib_funcs/kernels.c
+++ b/c3/lib_funcs/kernels.c
@@ -928,7 +928,7 @@ int kernel_expansion_update_params(struct KernelExpansion * ke, size_t dim, cons
             memmove(ke->coeff,param,dim*sizeof(double));
         }
         else{
-            assert (ke->nkernels = dim/2);
+            assert (ke->nkernels == dim/2);
             memmove(ke->coeff,param,dim/2 * sizeof(double));
             for (size_t ii = 0; ii < ke->nkernels; ii++){
                 kernel_update_center(ke->kernels[ii],param[ii+dim/2]);
-- 
2.43.0


From 940dba4eebd40a6852a1caa0a2d54f0adbe93594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 07/48] fix: applying operators to a function train records its
 first rank

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..dc1489f 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -261,7 +261,7 @@ function_train_operate(const struct FunctionTrain * ft,
 {
 
     struct FunctionTrain * ft_out = function_train_alloc(ft->dim);
-    ft_out->ranks[1] = ft->ranks[1];
+    ft_out->ranks[0] = ft->ranks[0];
     for (size_t ii = 0; ii < ft_out->dim; ii++){
         ft_out->cores[ii] = qmarray_operate_elements(ft->cores[ii],
                                                      op[ii]);
-- 
2.43.0


From cbb84127d9ef6f5b203253763f643468b6f8e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 08/48] fix: one-dimensional linear, additive and quadratic
 trains record their last rank

---
 c3/lib_clinalg/ft.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index dc1489f..0c2fb99 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1618,6 +1618,7 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -1625,10 +1626,10 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
 
     ft->cores[onDim]->funcs[0] = 
         generic_function_approximate1d(aopt->fc,aopt->aopts,fw);
-    ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
-                                                           aopt->aopts);
 
     if (dim > 1){
+        ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
+                                                               aopt->aopts);
         for (onDim = 1; onDim < dim-1; onDim++){
 
             fwrap_set_which_eval(fw,onDim);
@@ -1771,6 +1772,7 @@ function_train_linear(const double * c, size_t ldc,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -2051,6 +2053,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
-- 
2.43.0


From b908e7ec94296daee888a2ef8cc1cb8b3f1406a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 09/48] fix: the last core of an aligned quadratic uses the
 options of the last dimension

---
 c3/lib_clinalg/ft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 0c2fb99..2efab63 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2089,6 +2089,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
         }
 
         onDim = dim-1;
+        o = multi_approx_opts_get_aopts(aopts,onDim);
 
         ft->ranks[onDim] = 2;
         ft->ranks[onDim+1] = 1;
-- 
2.43.0


From c9dd4b574a92d11a11baf3ab3b8c5bb4d3330d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 10/48] fix: the sum of one-dimensional function trains is
 one-dimensional

---
 c3/lib_clinalg/ft.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 2efab63..40b55cb 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2853,6 +2853,14 @@ function_train_sum(const struct FunctionTrain * a,
 {
     struct FunctionTrain * ft = function_train_alloc(a->dim);
     
+    if (a->dim == 1){
+        ft->cores[0] = qmarray_copy(b->cores[0]);
+        qmarray_axpy(1.0,a->cores[0],ft->cores[0]);
+        ft->ranks[0] = a->ranks[0];
+        ft->ranks[1] = a->ranks[1];
+        return ft;
+    }
+
     // first core
     ft->cores[0] = qmarray_stackh(a->cores[0], b->cores[0]);
     ft->ranks[0] = a->ranks[0];
-- 
2.43.0


From d0d726b20a5d4aebcf94944928b9433046c4dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:59 +0000
Subject: [PATCH 11/48] fix: the Laplacian and diffusion of one-dimensional
 trains have one core of rank one

---
 c3/lib_clinalg/diffusion.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..906f38c 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -452,6 +452,17 @@ struct FunctionTrain * exact_diffusion(
     struct Qmarray * l1 = qmarray_kron(a->cores[0],ddf[0]);
     struct Qmarray * l2 = qmarray_kron(da[0],df[0]);
     qmarray_axpy(1.0,l1,l2);
+    if (dim == 1){
+        out->cores[0] = l2;
+        qmarray_free(l1); l1 = NULL;
+        qmarray_free(da[0]); da[0] = NULL;
+        qmarray_free(df[0]); df[0] = NULL;
+        qmarray_free(ddf[0]); ddf[0] = NULL;
+        free(da); da = NULL;
+        free(df); df = NULL;
+        free(ddf); ddf = NULL;
+        return out;
+    }
     struct Qmarray * l3 = qmarray_kron(a->cores[0],f->cores[0]);
     out->cores[0] = qmarray_stackh(l2,l3);
     out->ranks[1] = out->cores[0]->ncols;
@@ -535,6 +546,13 @@ struct FunctionTrain * exact_laplace(const struct FunctionTrain * fin,
         ddf[ii] = qmarray_dderiv(f->cores[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        function_train_free(f); f = NULL;
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
@@ -604,6 +622,12 @@ exact_laplace_periodic(struct FunctionTrain * f,
         ddf[ii] = qmarray_dderiv_periodic(f->cores[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
@@ -676,6 +700,12 @@ exact_laplace_op(struct FunctionTrain * f,
         ddf[ii] = qmarray_operate_elements(f->cores[ii], op[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
-- 
2.43.0


From d81f337f3a6161da14726493b1cff5aa31013bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:41 +0000
Subject: [PATCH 12/48] fix: order 200 is refused instead of reading past the
 quadrature tables

---
 c3/lib_quadrature/legquadrules2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/legquadrules2.c b/c3/lib_quadrature/legquadrules2.c
index 2d1fc8c..8dd41a8 100644
--- a/c3/lib_quadrature/legquadrules2.c
+++ b/c3/lib_quadrature/legquadrules2.c
@@ -649,7 +649,7 @@ pts1, pts2, pts3, pts4, pts5, pts6, pts7, pts8, pts9, pts10, pts11, pts12, pts13
 
 int getLegPtsWts2(size_t n, double ** pts, double ** wts)
 {  
-	 if ((n < 1) || (n > 200)){
+	 if ((n < 1) || (n > 199)){
  	 	 return 1;
 	 }
 	 *pts = legpts[n-1];
-- 
2.43.0


From d7962eb381b505b52e2cd6b33c8c65941f92cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:02 +0000
Subject: [PATCH 13/48] fix: the product of mixed representations is tagged
 piecewise and refuses classes it cannot convert

---
 c3/lib_funcs/funcs_mixed.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c3/lib_funcs/funcs_mixed.c b/c3/lib_funcs/funcs_mixed.c
index ce8c82a..81f0f23 100644
--- a/c3/lib_funcs/funcs_mixed.c
+++ b/c3/lib_funcs/funcs_mixed.c
@@ -211,8 +211,15 @@ generic_function_prod(struct GenericFunction * a, struct GenericFunction * b)
     struct PiecewisePoly * ap = NULL;
     struct PiecewisePoly * bp = NULL;
     if ( (a->fc != b->fc) || (a->fc == PIECEWISE) ){
+        assert (a->fc != LINELM);
+        assert (b->fc != LINELM);
+        assert (a->fc != CONSTELM);
+        assert (b->fc != CONSTELM);
+        assert (a->fc != KERNEL);
+        assert (b->fc != KERNEL);
         // everything to PIECEWISE!
         fc = PIECEWISE;
+        out->fc = fc;
         if (a->fc == POLYNOMIAL){
             ap = piecewise_poly_alloc();
             apalloc = 1;
-- 
2.43.0


From 84d4a0d607a540e4becdb1753d9cd669bcc18ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:47 +0000
Subject: [PATCH 14/48] fix: piecewise-constant options record their upper
 bound

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 2643839..a75d6c8 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From d3cba1c4edeaf4532ae7daef9e419707cec20b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:22 +0000
Subject: [PATCH 15/48] fix: save element and polynomial values as text at
 every precision, not only below 100 digits

---
 c3/lib_funcs/constelm.c    | 6 ++----
 c3/lib_funcs/linelm.c      | 6 ++----
 c3/lib_funcs/polynomials.c | 4 +---
 3 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index a75d6c8..7d73660 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1758,10 +1758,8 @@ void const_elem_exp_savetxt(const struct ConstElemExp * f,
     assert (f != NULL);
     fprintf(stream,"%zu ",f->num_nodes);
     for (size_t ii = 0; ii < f->num_nodes; ii++){
-        if (prec < 100){
-            fprintf(stream, "%3.*G ",(int)prec,f->nodes[ii]);
-            fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
-        }
+        fprintf(stream, "%3.*G ",(int)prec,f->nodes[ii]);
+        fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
     }
 }
 
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..94a9150 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2536,10 +2536,8 @@ void lin_elem_exp_savetxt(const struct LinElemExp * f,
     assert (f != NULL);
     fprintf(stream,"%zu ",f->num_nodes);
     for (size_t ii = 0; ii < f->num_nodes; ii++){
-        if (prec < 100){
-            fprintf(stream, "%3.*G ",(int)prec,f->nodes[ii]);
-            fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
-        }
+        fprintf(stream, "%3.*G ",(int)prec,f->nodes[ii]);
+        fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
     }
 }
 
diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 2808cbb..c47d565 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -2644,9 +2644,7 @@ void orth_poly_expansion_savetxt(const struct OrthPolyExpansion * f,
     fprintf(stream,"%3.*G ",(int)prec,f->upper_bound);
     fprintf(stream,"%zu ",f->num_poly);
     for (size_t ii = 0; ii < f->num_poly; ii++){
-        if (prec < 100){
-            fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
-        }
+        fprintf(stream, "%3.*G ",(int)prec,f->coeff[ii]);
     }
     space_mapping_savetxt(f->space_transform,stream,prec);
     fprintf(stream,"%d ",f->kristoffel_eval);
-- 
2.43.0


From 8d3cbf36973fb5f2d12e802f954a5759ed808ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:22 +0000
Subject: [PATCH 16/48] fix: check that the function class was read when
 loading a function from text

---
 c3/lib_funcs/functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 5a73e3a..c1e5725 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -313,8 +313,8 @@ generic_function_loadtxt(FILE * stream)
     struct GenericFunction * gf = generic_function_alloc_base(dim);
     int fcint;
     num = fscanf(stream,"%d ",&fcint);
+    assert (num == 1);
     gf->fc = (enum function_class)fcint;
-    assert (num = 1);
 
     GF_SWITCH_ONEOUT(loadtxt, gf->fc, gf->f, stream)
     return gf;
-- 
2.43.0


From 4b29f104ce2e714941948e0d2b96e442dee4f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:41 +0000
Subject: [PATCH 17/48] fix: release every element of a Laplace operator of two
 or more dimensions

---
 c3/lib_clinalg/diffusion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index 906f38c..886c8f2 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -859,8 +859,8 @@ void destroy_operator_for_laplace(struct OperatorForLaplace * op)
 {
     if (op != NULL) {
         for (size_t ii = 0; ii < op->dim; ii++){
-            free(op->op[ii]); op->op = NULL;
-            free(op->opLP[ii]); op->opLP = NULL;
+            free(op->op[ii]); op->op[ii] = NULL;
+            free(op->opLP[ii]); op->opLP[ii] = NULL;
         } 
         free(op->op); op->op = NULL;
         free(op->opLP); op->opLP = NULL;
-- 
2.43.0


From 67541be6f8c562d0c134d6669c3dd5db2e8b3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:05 +0000
Subject: [PATCH 18/48] fix: report files that are shorter than they should be
 when loading

---
 c3/lib_array/array.c             |  6 ++++++
 c3/lib_clinalg/ft.c              | 12 ++++++++++++
 c3/lib_probability/probability.c |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 807c867..50b9870 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -725,6 +725,12 @@ darray_load(char * filename, int type)
         }
 
         k = fread(data,sizeof(unsigned char),totsize,fp);
+        if (k != totsize){
+            fprintf(stderr, "error reading file %s\n", filename);
+            free(data); data = NULL;
+            fclose(fp);
+            return NULL;
+        }
         
         size_t nrows, ncols, tot;
         unsigned char * ptr = deserialize_size_t(data,&nrows);
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 40b55cb..b81777e 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -471,6 +471,12 @@ struct FunctionTrain * function_train_load(char * filename)
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        fprintf(stderr, "error reading file %s\n", filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FunctionTrain * ft = NULL;
     function_train_deserialize(data,&ft);
@@ -4180,6 +4186,12 @@ struct FT1DArray * ft1d_array_load(char * filename)
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        fprintf(stderr, "error reading file %s\n", filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FT1DArray * ft = NULL;
     ft1d_array_deserialize(data,&ft);
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 5e26154..fc3528d 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -999,6 +999,12 @@ struct ProbabilityDensity * probability_density_load(char * filename)
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        fprintf(stderr, "error reading file %s\n", filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct ProbabilityDensity * pdf = NULL;
     probability_density_deserialize(data,&pdf);
-- 
2.43.0


From 7d8a9915d8253bd0154d3d928cf406c1a85e8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:23 +0000
Subject: [PATCH 19/48] fix: report failure to write when saving to a file

---
 c3/lib_array/array.c             | 13 +++++++++++--
 c3/lib_clinalg/ft.c              | 14 ++++++++++----
 c3/lib_probability/probability.c |  7 +++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 50b9870..3994157 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -668,8 +668,13 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         ptr = serialize_size_t(ptr,cols);
         ptr = serialize_doublep(ptr,arr,rows*cols);
         
-        fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+        size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
         free(data); data = NULL;
+        if (k != totsize+sizeof(size_t)){
+            fprintf(stderr, "error writing file %s\n", filename);
+            fclose(fp);
+            return 0;
+        }
     }
     else{
         size_t ii,jj;
@@ -685,7 +690,11 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         }
     
     }
-    fclose(fp);
+    int failed = ferror(fp);
+    if ((fclose(fp) != 0) || failed){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
 
     return 1;
 }
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b81777e..37235e0 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -434,10 +434,13 @@ int function_train_save(struct FunctionTrain * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = function_train_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (k != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
@@ -4149,10 +4152,13 @@ int ft1d_array_save(struct FT1DArray * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = ft1d_array_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (k != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index fc3528d..07fac2e 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -962,10 +962,13 @@ int probability_density_save(struct ProbabilityDensity * pdf, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = probability_density_serialize(ptr,pdf,NULL);
     
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (k != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From e37f5fbeb65a196826549d52ac04fe4a7ab0d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:23 +0000
Subject: [PATCH 20/48] fix: close the file on the error returns of the savers
 and loaders

---
 c3/lib_array/array.c             | 4 ++++
 c3/lib_clinalg/ft.c              | 6 ++++++
 c3/lib_probability/probability.c | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 3994157..3133f83 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -660,6 +660,7 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         unsigned char * data = malloc(totsize+sizeof(size_t));
         if (data == NULL){
             fprintf(stderr, "can't allocate space for saving density\n");
+            fclose(fp);
             return 0;
         }
 
@@ -724,12 +725,14 @@ darray_load(char * filename, int type)
         size_t k = fread(&totsize,sizeof(size_t),1,fp);
         if ( k != 1){
             printf("error reading file %s\n",filename);
+            fclose(fp);
             return NULL;
         }
 
         unsigned char * data = malloc(totsize);
         if (data == NULL){
             fprintf(stderr, "can't allocate space for loading density\n");
+            fclose(fp);
             return NULL;
         }
 
@@ -752,6 +755,7 @@ darray_load(char * filename, int type)
     }
     else{
         fprintf(stderr,"Loading array of type=%d is not implemented\n",type);
+        fclose(fp);
     }
     return value;
 }
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 37235e0..efe523a 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -427,6 +427,7 @@ int function_train_save(struct FunctionTrain * ft, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
     
@@ -464,12 +465,14 @@ struct FunctionTrain * function_train_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
@@ -4145,6 +4148,7 @@ int ft1d_array_save(struct FT1DArray * ft, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
     
@@ -4182,12 +4186,14 @@ struct FT1DArray * ft1d_array_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 07fac2e..72da1f8 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -956,6 +956,7 @@ int probability_density_save(struct ProbabilityDensity * pdf, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
 
@@ -992,12 +993,14 @@ struct ProbabilityDensity * probability_density_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
-- 
2.43.0


From b901f6aca135aecbd16ef30f457fd1de21a8be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:21 +0000
Subject: [PATCH 21/48] fix: report a tensor file that ends before the sizes of
 the tensor

---
 c3/lib_tensor/tensor.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index 56f5830..6e1af70 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -117,14 +117,17 @@ struct tensor * read_tensor_3d(FILE * fp)
     struct tensor * a;
 
     size_t nvals[3];
-    nvals[0] = (size_t)( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[1] = (size_t) ( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[2] = (size_t) ( fgetc(fp)-'0');
+    for (ii = 0; ii < 3; ii++){
+        int digit = fgetc(fp);
+        int sep = fgetc(fp);
+        if ((digit == EOF) || (sep == EOF)){
+            fprintf(stderr, "failed to read in the 3d tensor file.\n");
+            exit(1);
+        }
+        nvals[ii] = (size_t)(digit-'0');
+    }
     //iprint(3, nvals);
     init_tensor(&a, 3, nvals);
-    fgetc(fp);
     char * buffer= malloc(2*nvals[2] * sizeof(double)/sizeof(char) * sizeof(char));
     char * pch;    
 
-- 
2.43.0


From 84da770e35ccdeb6586f88d9f4181439caab4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:21 +0000
Subject: [PATCH 22/48] fix: report streams whose length cannot be found when
 reading an array

---
 c3/lib_stringmanip/stringmanip.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 0753621..6a1ea1e 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -374,8 +374,15 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
 
 double * readfile_double_array(FILE * fp, size_t *nrows, size_t *ncols)
 {
-    fseek(fp, 0L, SEEK_END);  /* Position to end of file */
+    if (fseek(fp, 0L, SEEK_END) != 0){  /* Position to end of file */
+        fprintf(stderr, "Error reading file containing double array\n");
+        return NULL;
+    }
     long lFileLen = ftell(fp);     /* Get file length */
+    if (lFileLen < 0){
+        fprintf(stderr, "Error reading file containing double array\n");
+        return NULL;
+    }
     rewind(fp);
 
     char * cFile = calloc((unsigned long)lFileLen + 1, sizeof(char));
-- 
2.43.0


From 211adfc892e9ce231c125ed1b6ce9c00b23af669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 23/48] fix: randn keeps no sample from an earlier call, so
 seeding determines what it returns

---
 c3/lib_array/array.c | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 3133f83..2dd38e2 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -836,28 +836,11 @@ double randu(void)
 
 // standard normal
 //kbox-mueller
-static int generate = -1;
 double randn(void)
 {
     const double epsilon = pow(2,-32);
     const double two_pi = 2.0*3.14159265358979323846;
-         
-    static double z0, z1;
-    if (generate == 0){
-        generate = 1;
-    }
-    else if (generate == 1){
-        generate = 0;
-    }
-    else if (generate == -1){
-        generate = 1;
-    }
-    //generate = !generate;
-                     
-    if (!generate) {
-        return z1;
-    }
-                        
+
     double u1, u2;
     do
     {
@@ -865,9 +848,7 @@ double randn(void)
         u2 = rand() * (1.0 / RAND_MAX);
     } while ( u1 <= epsilon );
              
-    z0 = sqrt(-2.0 * log(u1)) * cos(two_pi * u2);
-    z1 = sqrt(-2.0 * log(u1)) * sin(two_pi * u2);
-    return z0;
+    return sqrt(-2.0 * log(u1)) * cos(two_pi * u2);
 }
 
 // poisson
-- 
2.43.0


From ac01c5a17a322a2f6088ebfa26d4b8deeda61ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:38 +0000
Subject: [PATCH 24/48] fix: set the fields of the missing inverse when reading
 a linear transform

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 72da1f8..6917710 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -838,6 +838,8 @@ linear_transform_deserialize(unsigned char * ser, struct LinearTransform ** lt)
     else{
         (*lt)->Ainv = NULL;
         (*lt)->binv = NULL;
+        (*lt)->detinv = 0.0;
+        (*lt)->mti = GEN;
     }
     return ptr;
 }
-- 
2.43.0


From 57f5899557931cfa37fdc5ef0e48699d0b984307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:53 +0000
Subject: [PATCH 25/48] fix: BFGS and L-BFGS stop after maxiter iterations, not
 one more

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index ffed07a..8466bb2 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2209,7 +2209,7 @@ int c3_opt_damp_bfgs(struct c3Opt * opt,
         opt->niters++;
         iter += 1;
 
-        if (iter > maxiter){
+        if (iter >= maxiter){
             //printf("iter = %zu,verbose=%d\n",iter,verbose);
             ret = C3OPT_MAXITER_REACHED;
             converged = 1;
@@ -2771,7 +2771,7 @@ int c3_opt_lbfgs(struct c3Opt * opt,
         opt->niters++;
         iter += 1;
         
-        if (iter > maxiter){
+        if (iter >= maxiter){
             ret = C3OPT_MAXITER_REACHED;
             converged = 1;
         }
-- 
2.43.0


From 8d4e89424f69f758f7b429e16b0ab9b287bf009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:53 +0000
Subject: [PATCH 26/48] fix: the zoom phase of the strong Wolfe line search
 respects its iteration limit

---
 c3/lib_optimization/optimization.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8466bb2..4cfd461 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1421,6 +1421,8 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
     double * lb = c3opt_get_lb(opt);
     double * ub = c3opt_get_ub(opt);
     size_t d = c3opt_get_d(opt);
+    size_t maxiter = c3opt_ls_get_maxiter(opt);
+    size_t iter = 0;
     double th = thigh;
     double tl = tlow;
     double fl = flow;
@@ -1431,9 +1433,10 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
     /* if (fabs(th - tl) < 1e-){ */
     /*     exit(1); */
     /* } */
-    while (fabs(th-tl) >= 1e-20){
+    while ((fabs(th-tl) >= 1e-20) && (iter < maxiter)){
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
+        iter++;
         t = (tl + th)/2.0;
         c3opt_ls_x_move(d,t,dir,x,newx,lb,ub);
 
-- 
2.43.0


From 933c231d69dd5e5810525f32568491b12f650952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:53 +0000
Subject: [PATCH 27/48] fix: tensor-train cross approximation stops after
 maxiter sweeps, not one more

---
 c3/lib_tensdecomp/cross.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 402db8a..34cac3a 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -782,7 +782,7 @@ tt_cross(void (*A)(size_t, size_t *, size_t, double *, void *),
         if (diff < opts->epsilon){
             done = 1;
         }
-        if (iter > opts->maxiter){
+        if (iter >= opts->maxiter){
             done = 1;
         }
     }
@@ -887,7 +887,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
                 opts->ranks[ii] += kickrank;
             }
         }
-        if (iter > maxiter){
+        if (iter >= maxiter){
             done = 1;
         }
     }
-- 
2.43.0


From 434ad8bd51c3559e672cade6ca9de988456f3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:53 +0000
Subject: [PATCH 28/48] fix: cross approximation with a sweep limit of zero
 stops

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index efe523a..0eb0e5d 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -3762,7 +3762,7 @@ ftapprox_cross(struct Fwrap * fw,
         fti = function_train_copy(ft);
 
         iter++;
-        if (iter  == cargs->maxiter){
+        if (iter >= cargs->maxiter){
             done = 1;
             break;
         }
-- 
2.43.0


From 657f61559149fbee4decd3fbd5ab197b1c069a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 29/48] fix: vec_kron passes the row length of its result as
 leading dimension

---
 c3/lib_linalg/linalg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..ecd7050 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
@@ -680,7 +680,7 @@ void vec_kronl(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, (double *) v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, (double *) out, n);
+                    a, lda, temp, m, scale, (double *) out, l);
     free(temp);
 }
 /*************************************************************//**
-- 
2.43.0


From e7d8ecf242a00d75997b42c50c47ab26fcec80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 30/48] fix: ttelem uses the extent of the current mode in the
 leading dimension

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..c862eb6 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From 17a0b7dbc7aae00cc70226532737876629495430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:34 +0000
Subject: [PATCH 31/48] fix: release the sorted copy of the zeros in the
 onezero functions

---
 c3/lib_funcs/constelm.c | 1 +
 c3/lib_funcs/linelm.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 7d73660..3ff4380 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1691,6 +1691,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_const_elem_exp(le,3,NULL,stdout); */
             return le;
         }
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 94a9150..b5733d5 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2469,6 +2469,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_lin_elem_exp(le,3,NULL,stdout); */
             return le;
         }
-- 
2.43.0


From ebf4ead702947165761185d42f2cf42e4c66222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:34 +0000
Subject: [PATCH 32/48] fix: release the work arrays when a Fourier
 approximation fails

---
 c3/lib_funcs/fourier.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_funcs/fourier.c b/c3/lib_funcs/fourier.c
index 35f57f7..9302d11 100644
--- a/c3/lib_funcs/fourier.c
+++ b/c3/lib_funcs/fourier.c
@@ -254,6 +254,9 @@ fourier_expansion_approx_vec(struct OrthPolyExpansion * poly,
 
     return_val = fwrap_eval(nquad,pts,fvals,f);
     if (return_val != 0){
+        free(pts); pts = NULL;
+        free(quad_pts); quad_pts = NULL;
+        free(fvals); fvals = NULL;
         return return_val;
     }
 
@@ -269,6 +272,11 @@ fourier_expansion_approx_vec(struct OrthPolyExpansion * poly,
     int fft_res = fft(N, fvc, 1, coeff, 1);
     if (fft_res != 0){
         fprintf(stderr, "fft is not successfull\n");
+        free(pts); pts = NULL;
+        free(quad_pts); quad_pts = NULL;
+        free(fvals); fvals = NULL;
+        free(fvc); fvc = NULL;
+        free(coeff); coeff = NULL;
         return 1;
     }
 
-- 
2.43.0


From c80a404cb4d4f24cfa83b4095b6b235dddd20d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:34 +0000
Subject: [PATCH 33/48] fix: release the indices a fiber of a discrete function
 is evaluated at

---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index da00cdb..4fc57eb 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -497,6 +497,7 @@ int fwrap_eval_fiber(size_t nevals, const void * x, double * out, void * fwin)
         for (size_t ii = 0; ii < nevals; ii++){
             out[ii] = fw->intf(xeval + ii*fw->d,fw->fargs);
         }
+        free(xeval);
     }
     else{
         const double * xin = x;
-- 
2.43.0


From acadbeb8408e88cf64f87e56799840664c2dd415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:34 +0000
Subject: [PATCH 34/48] fix: orth_poly_expansion_sum3_up uses the coefficients
 realloc returned

---
 c3/lib_funcs/polynomials.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index c47d565..a51da2f 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -4790,6 +4790,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        z->coeff = temp;
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
@@ -4807,6 +4808,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        z->coeff = temp;
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
-- 
2.43.0


From 170e1ce9747a874dfdb43ed9fa7bc69306f2c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:48 +0000
Subject: [PATCH 35/48] fix: release the reflectors when qmarray_qr fails

---
 c3/lib_clinalg/qmarray.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index 5f05940..8e7052e 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -3971,6 +3971,7 @@ int qmarray_qr(struct Qmarray * A, struct Qmarray ** Q, double ** R,
                                           V->funcs[ii*nrows+ll],
                                           A->funcs[kk*nrows+ll]);
                 if (success == 1){
+                    qmarray_free(V); V = NULL;
                     return 1;
                 }
                 //assert (success == 0);
@@ -3980,6 +3981,7 @@ int qmarray_qr(struct Qmarray * A, struct Qmarray ** Q, double ** R,
                     A->funcs[kk*nrows+ll]);
 
                 if (success == 1){
+                    qmarray_free(V); V = NULL;
                     return 1;
                 }
 //                assert (success == 0);
-- 
2.43.0


From 5428576c6db768c7ad44282278a57f6c42a84c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:48 +0000
Subject: [PATCH 36/48] fix: release the optimizer and its bounds in the
 Laplace approximation

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 6917710..5a916ef 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1224,6 +1224,9 @@ probability_density_laplace(double (*f)(size_t,const double *,double*,void *),
     free(mean); mean = NULL;
     free(hess); hess = NULL;
     free(cov); cov= NULL;
+    c3opt_free(opt); opt = NULL;
+    free(lb); lb = NULL;
+    free(ub); ub = NULL;
     
     return pdf;
 }
-- 
2.43.0


From f7fd60ab7ae4903cda73688f0288109daa952ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:08 +0000
Subject: [PATCH 37/48] fix: c3gemv leaves its result in the train it is given
 instead of releasing it

---
 c3/lib_clinalg/ft.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 0eb0e5d..d98911f 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4646,8 +4646,8 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
 
     size_t ii;
     assert (y != NULL);
-    function_train_scale(y,beta);
-    
+    struct FunctionTrain * z = function_train_copy(y);
+    function_train_scale(z,beta);
 
     if (epsilon > 0){
         struct FunctionTrain * runinit = function_train_product(A->ft[0],x);
@@ -4660,7 +4660,7 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             function_train_free(temp); temp = NULL;
             function_train_free(tempround); tempround = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&z,epsilon,opts);
         function_train_free(run); run = NULL;
         function_train_free(runinit); runinit = NULL;
     }
@@ -4672,10 +4672,15 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             c3axpy(1.0,temp,&run,epsilon,opts);
             function_train_free(temp); temp = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&z,epsilon,opts);
         function_train_free(run); run = NULL;
     }
-       
+
+    // the caller keeps the pointer y, so the result is moved into it
+    struct FunctionTrain old = *y;
+    *y = *z;
+    *z = old;
+    function_train_free(z); z = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 2c3c7e7733b20446b4efe3c7ec6f15d68b1f927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:58 +0000
Subject: [PATCH 38/48] fix: FunctionTrain.set_dim_opts stores the options at
 their dimension whatever the order of the calls

---
 wrappers/python/c3py/c3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index 71cdde7..1c64150 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -96,7 +96,7 @@ class FunctionTrain(object):
             o['lb'] = kernel_nodes[0]
             o['ub'] = kernel_nodes[-1]
         o['kernel_nodes'] = kernel_nodes
-        self.opts.insert(dim, o)
+        self.opts[dim] = o
 
     def __convert_opts_to_c3_form__(self):
 
-- 
2.43.0


From f7149225ab88cb393b91433c7e87f69b8a2660d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:58 +0000
Subject: [PATCH 39/48] fix: maxnum given to set_dim_opts reaches
 ope_opts_set_maxnum

---
 wrappers/python/c3py/c3py.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index 1c64150..e10540d 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -122,7 +122,7 @@ class FunctionTrain(object):
                 c3.ope_opts_set_nparams(c3_ope_opts[ii], nparam)
                 c3.ope_opts_set_coeffs_check(c3_ope_opts[ii], coeff_check)
                 c3.ope_opts_set_start(c3_ope_opts[ii], nparam)
-                if np.isinf(maxnum) is False:
+                if not np.isinf(maxnum):
                     c3.ope_opts_set_maxnum(c3_ope_opts[ii], maxnum)
                 c3.ope_opts_set_tol(c3_ope_opts[ii], tol)
             elif ftype == "hermite":
@@ -130,7 +130,7 @@ class FunctionTrain(object):
                 c3.ope_opts_set_nparams(c3_ope_opts[ii], nparam)
                 c3.ope_opts_set_coeffs_check(c3_ope_opts[ii], coeff_check)
                 c3.ope_opts_set_start(c3_ope_opts[ii], nparam)
-                if np.isinf(maxnum) is False:
+                if not np.isinf(maxnum):
                     c3.ope_opts_set_maxnum(c3_ope_opts[ii], maxnum)
                 c3.ope_opts_set_tol(c3_ope_opts[ii], tol)
             elif ftype == "fourier":
@@ -140,7 +140,7 @@ class FunctionTrain(object):
                 c3.ope_opts_set_nparams(c3_ope_opts[ii], nparam)
                 c3.ope_opts_set_coeffs_check(c3_ope_opts[ii], coeff_check)
                 c3.ope_opts_set_start(c3_ope_opts[ii], nparam)
-                if np.isinf(maxnum) is False:
+                if not np.isinf(maxnum):
                     c3.ope_opts_set_maxnum(c3_ope_opts[ii], maxnum)
                 c3.ope_opts_set_tol(c3_ope_opts[ii], tol)
             elif ftype == "linelm":
-- 
2.43.0


From 50614f33a0b0ef2a821c97b199b774bb28b99cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:58 +0000
Subject: [PATCH 40/48] fix: cross validation over reg_weight uses the weights
 given, not cvnparam

---
 wrappers/python/c3py/c3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index e10540d..1f544f9 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -458,7 +458,7 @@ class FunctionTrain(object):
         elif (cvnparam is not None) and (cvregweight is not None) and (cvrank is None):
             cvgrid = c3.cv_opt_grid_init(2)
             c3.cv_opt_grid_add_param(cvgrid, "num_param", len(cvnparam), list(cvnparam))
-            c3.cv_opt_grid_add_param(cvgrid, "reg_weight", len(cvregweight), list(cvnparam))
+            c3.cv_opt_grid_add_param(cvgrid, "reg_weight", len(cvregweight), list(cvregweight))
         elif (cvnparam is not None) and (cvrank is not None):
             cvgrid = c3.cv_opt_grid_init(2)
             c3.cv_opt_grid_add_param(cvgrid, "rank", len(cvrank), list(cvrank))
-- 
2.43.0


From 5e6d041aaf9637a64034e54688ad95e4ac861d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:58 +0000
Subject: [PATCH 41/48] fix: scale_and_shift keeps the rounded train instead of
 dropping it

---
 wrappers/python/c3py/c3py.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index 1f544f9..8669622 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -645,7 +645,9 @@ class FunctionTrain(object):
         c3.function_train_free(ft1)
         c3.function_train_free(ft2)
 
-        c3.function_train_round(ft_out.ft, eps, multiopts)
+        ft_rounded = c3.function_train_round(ft_out.ft, eps, multiopts)
+        c3.function_train_free(ft_out.ft)
+        ft_out.ft = ft_rounded
         self._free_approx_params(c3a, onedopts, low_opts, optnodes)
 
         if c3_pointer is True:
-- 
2.43.0


From 9dbc7d30cbcbd2ef23bc10b7632b71e8fa787694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:58 +0000
Subject: [PATCH 42/48] fix: load and build_approximation release the train
 they replace

---
 wrappers/python/c3py/c3py.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index 8669622..d06981e 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -55,6 +55,7 @@ class FunctionTrain(object):
 
         ft = c3.function_train_load(filename)
         self.dim = c3.function_train_get_dim(ft)
+        self.close()
         self.ft = ft
 
     def set_dim_opts(self, dim, ftype, lb=-1, ub=1, nparam=4,
@@ -323,7 +324,9 @@ class FunctionTrain(object):
                                                                       maxiter=maxiter,
                                                                       fiber_bounds=fiber_bounds)
         # print("do cross\n");
-        self.ft = c3.c3approx_do_cross(c3a, fw, adapt)
+        ft = c3.c3approx_do_cross(c3a, fw, adapt)
+        self.close()
+        self.ft = ft
 
         self._free_approx_params(c3a, onedopts, low_opts, optnodes)
         c3.fwrap_destroy(fw)
-- 
2.43.0


From 8f66aeacd37890a023ee934934c5c101cd3eb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 43/48] fix: build_data_model leaves no dangling train when it
 fails after releasing the old one

---
 wrappers/python/c3py/c3py.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index d06981e..31e03a8 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -445,10 +445,7 @@ class FunctionTrain(object):
                                                                 regweight, roundtol, als_max_sweep, opt_relftol, 
                                                                 kfold, verbose, kristoffel)
 
-        if self.ft is not None:
-            c3.function_train_free(self.ft)
-
-
+        self.close()
 
         cv = None
         cvgrid = None
-- 
2.43.0


From 9f503989c59696343c4c71b564ffeae1c63f26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 44/48] fix: wrappers return after reporting wrong array
 lengths

---
 wrappers/python/c3swig/c3.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wrappers/python/c3swig/c3.i b/wrappers/python/c3swig/c3.i
index 7c91104..435794e 100644
--- a/wrappers/python/c3swig/c3.i
+++ b/wrappers/python/c3swig/c3.i
@@ -408,6 +408,7 @@ void function_train_free(struct FunctionTrain *);
             PyErr_Format(PyExc_ValueError,
                          "ranks has incorrect dimensions (%zu) instead of %zu",
                          len1, c3approx_get_dim(c3a)+1);
+            return;
         }
 		/* size_t *use_ranks = calloc(len1, sizeof(size_t)); */
 		/* for (int ii = 0; ii < len1; ii++) { */
@@ -450,11 +451,13 @@ void function_train_free(struct FunctionTrain *);
             PyErr_Format(PyExc_ValueError,
                          "Evaluation point has incorrect dimensions (%zu) instead of %zu",
                          len1,function_train_get_dim(ft));
+            return;
         }
         if (len1 != len2){
             PyErr_Format(PyExc_ValueError,
                          "Input and outputs must be the same size: currently they are (%zu,%zu)",
                          len1,len2);
+            return;
         }
         
         function_train_gradient_eval(ft,evalnd_pt,evalnd_out);
@@ -475,11 +478,13 @@ void function_train_free(struct FunctionTrain *);
             PyErr_Format(PyExc_ValueError,
                          "Evaluation point has incorrect dimensions (%zu) instead of %zu",
                          len1,function_train_get_dim(fta->ft[0]));
+            return;
         }
         if (len1*len1 != len2){
             PyErr_Format(PyExc_ValueError,
                          "Output must be size of dimension squared (%zu,%zu)",
                          len1,len1);
+            return;
         }
         
         ft1d_array_eval2(fta,evalnd_pt,evalnd_out);
-- 
2.43.0


From 78ba4d22ce8eaa81d8a37633de52f66efcbc7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 45/48] fix: arrays handed to cross validation live as long as
 it does

---
 wrappers/python/c3py/c3py.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/c3py/c3py.py b/wrappers/python/c3py/c3py.py
index 31e03a8..a717f44 100644
--- a/wrappers/python/c3py/c3py.py
+++ b/wrappers/python/c3py/c3py.py
@@ -465,7 +465,9 @@ class FunctionTrain(object):
             c3.cv_opt_grid_add_param(cvgrid, "num_param", len(cvnparam), list(cvnparam))
 
 
-        yuse = ydata
+        # cross validation keeps pointers to these arrays
+        xuse = np.array(xdata, dtype=float).flatten(order='C')
+        yuse = np.array(ydata, dtype=float)
         if norm_ydata is True:
             vmin = np.min(ydata)
             vmax = np.max(ydata)
@@ -477,7 +479,7 @@ class FunctionTrain(object):
             #print("Cross validation is not working yet!\n")
             c3.cv_opt_grid_set_verbose(cvgrid, cvverbose)
 
-            cv = c3.cross_validate_init(self.dim, xdata.flatten(order='C'), yuse, kfold, cvverbose)
+            cv = c3.cross_validate_init(self.dim, xuse, yuse, kfold, cvverbose)
             c3.cross_validate_grid_opt(cv, cvgrid, reg, optimizer)
             c3.cv_opt_grid_free(cvgrid)
             c3.cross_validate_free(cv)
-- 
2.43.0


From 1f8da63a7176f976001e48640e8b25101928ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:05 +0000
Subject: [PATCH 46/48] fix: weights of the second Fejer rule

fejer2 handed out the interior weights of Clenshaw-Curtis quadrature, which do
not sum to 2, and the end points for N = 2. Use the weights (and, for N <= 2,
the nodes) of the rule.
---
 c3/lib_quadrature/quadrature.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 944c92c..79d126a 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -193,22 +193,24 @@ void rescale_cc(size_t N, double * pts, double * wts, double a, double b){
 *     \param[in,out] weights - weights (space alread alloc)
 *************************************************************/
 void fejer2(size_t N, double * pts, double * weights){
-    if (N > 2){
-        double * ptemp = calloc_double(N+2);
-        double * wtemp = calloc_double(N+2);
-
-        clenshaw_curtis(N+2,ptemp,wtemp);
-        memmove(pts,ptemp+1,N*sizeof(double));
-        memmove(weights,wtemp+1,N*sizeof(double));
-        //dprint(N,pts);
-        free(ptemp); ptemp = NULL;
-        free(wtemp); wtemp = NULL;
-    }
-    else{
-        clenshaw_curtis(N,pts,weights);
+    size_t ii, jj;
+    double theta;
+    for (ii = 0; ii < N; ii++){
+        theta = M_PI * (double)(N-ii) / (double) (N+1);
+        if (2 * ii + 1 == N){
+            pts[ii] = 0.0;
+        }
+        else{
+            pts[ii] = cos(theta);
+        }
+        weights[ii] = 0.0;
+        for (jj = 1; jj <= (N+1)/2; jj++){
+            weights[ii] += sin((double) (2*jj-1) * theta) / (double) (2*jj-1);
+        }
+        weights[ii] = 4.0 * sin(theta) * weights[ii] / (double) (N+1);
     }
 }
- 
+
 /***********************************************************//**
 *     Compute the points and weights of Gauss-Hermite quadrature
 *
-- 
2.43.0


From 28bf55a41c0fcd59fbeee18120440593b13ecb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:47 +0000
Subject: [PATCH 47/48] fix: c3vgemv_arr scales y by beta once

---
 c3/lib_clinalg/ft.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index d98911f..ae41244 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4818,7 +4818,6 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
 {
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
         
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
-- 
2.43.0


From 351583b3e1c413888ec149f411da2d03329b2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:47 +0000
Subject: [PATCH 48/48] fix: c3vgemv accumulates into the trains of y

---
 c3/lib_clinalg/ft.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index ae41244..86ae974 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4788,17 +4788,12 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
 
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
     
-    struct FT1DArray * run = ft1d_array_alloc(m);
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,beta,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0

