From a47ee2d0e36f338d50433b90107ab15f3b74cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 01/74] fix: keep the end-signal buffers of local accumulation
 alive until the nonblocking calls complete

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..99c86ab 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,14 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      int ierr = MPI_Irecv(&end_signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      int ierr = MPI_Isend(&end_signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +141,8 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    // message buffer of the end signals; must stay alive until the nonblocking call completes
+    int end_signal_ = 0;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From 8907cc34d0ea383011ea2b0f7f0f03ac8be0de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 02/74] fix: accept every documented verbosity level in
 HessianApprox::set_verbosity

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 99c86ab..c9700c1 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -530,7 +530,7 @@ compute_base(const double val)
 
 void hiopAlgPrimalDecomposition::HessianApprox::set_verbosity(const int i)
 {
-  assert(i<=3 && i>=0);
+  assert(i<=12 && i>=0);
   ver_ = i;
 }
 
-- 
2.43.0


From 8d7f51cf237bcdba7b3c362b8cb261411a674dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 03/74] fix: run_single reports the status of the last master
 solve as run does

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index c9700c1..ded2d26 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1987,7 +1987,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;
 }
 
 }//end namespace
-- 
2.43.0


From 92291f737df1936d332d6f625b488da2529e1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 04/74] fix: arguments of the acceptable-termination message
 were swapped

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index ded2d26..31150ce 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -716,8 +716,8 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
-    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_count_);
-    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_tol_);
+    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
+    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
   return false;
-- 
2.43.0


From 168393aafd4827cd63265a8a43863a9fc705694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 05/74] fix: do not use option names and values as format
 strings

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..9e35991 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -480,9 +480,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From a3abbaeec1883f485d9f1b499100fe9a69c96fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 06/74] fix: mark options as user defined exactly when a valid
 value was set, reject NaN

---
 src/Utils/hiopOptions.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9e35991..bdfd884 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -290,13 +290,8 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      } else {
-        option->specifiedAtRuntime=true;
-      }
-      
-      if(value<option->lb || value>option->ub) {
+      //written such that NaN is also out of range
+      if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
@@ -304,6 +299,11 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
@@ -361,9 +361,6 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
@@ -373,6 +370,11 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
@@ -435,9 +437,6 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile = true;
-      }
       string strValue(value);
       transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
       //see if it is in the range (of supported values)
@@ -461,6 +460,11 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                    option->val.c_str());
       } else {
         option->val = strValue;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
-- 
2.43.0


From 46858fe274c2e98cd802eca861f45bffe4699b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 07/74] fix: keep the letter case of free-text option values
 such as file names

---
 src/Utils/hiopOptions.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index bdfd884..93d75a4 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -396,7 +396,9 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       assert(false && "mismatch between name and type happened in internal 'set_val'");
     } else {
       string value(value_in);
-      transform(value.begin(), value.end(), value.begin(), ::tolower);
+      if(!option->range.empty()) {
+        transform(value.begin(), value.end(), value.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
@@ -438,7 +440,10 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       }
       
       string strValue(value);
-      transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      //options without a range (e.g., file names) keep their letter case
+      if(!option->range.empty()) {
+        transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
-- 
2.43.0


From 4453c993e4fb48046f33cf7c0654dff263bbb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 08/74] fix: option file values with trailing characters are
 not numbers

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 93d75a4..87830fe 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -194,7 +194,7 @@ void hiopOptions::load_from_file(const char* filename)
       if(on!=NULL) {
         stringstream ss(value);
         double val;
-        if(ss>>val) {
+        if((ss>>val) && ss.eof()) {
           SetNumericValue(name.c_str(), val, true);
         } else {
           log_printf(hovWarning,
@@ -212,7 +212,7 @@ void hiopOptions::load_from_file(const char* filename)
           oi = dynamic_cast<OptionInt*>(option);
           if(oi!=NULL) {
             stringstream ss(value); int val;
-            if(ss>>val) { SetIntegerValue(name.c_str(), val, true); }
+            if((ss>>val) && ss.eof()) { SetIntegerValue(name.c_str(), val, true); }
             else {
               log_printf(hovWarning,
                          "Hiop could not parse value '%s' as int for option '%s' specified in "
-- 
2.43.0


From b8719f9cb27b6c16f2c5a163fa044a10e97b774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 09/74] fix: consistency of file options must not depend on the
 order of the lines

---
 src/Utils/hiopOptions.cpp | 19 +++++++++++++++----
 src/Utils/hiopOptions.hpp |  3 +++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 87830fe..e00216f 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -66,7 +66,8 @@ const char* hiopOptions::default_filename_pridec_masterNLP = "hiop_pridec_master
 const char* hiopOptions::default_filename_fr = "hiop_fr.options";
   
 hiopOptions::hiopOptions()
-  : log_(nullptr)
+  : log_(nullptr),
+    loading_file_(false)
 {
 }
 
@@ -168,6 +169,8 @@ void hiopOptions::load_from_file(const char* filename)
     }
   }
   string line; string name, value;
+  // the options of the file are made consistent once all of them are known
+  loading_file_ = true;
   for( std::string line; getline( input, line ); ) {
 
     line = ltrim(line);
@@ -237,6 +240,8 @@ void hiopOptions::load_from_file(const char* filename)
                  value.c_str());
     }
   } //end of the for over the lines
+  loading_file_ = false;
+  ensure_consistence();
 }
 
 bool hiopOptions::is_user_defined(const char* option_name)
@@ -312,7 +317,9 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
@@ -383,7 +390,9 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
@@ -478,7 +487,9 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                name,
                value);
   }
-  ensure_consistence();
+  if(!loading_file_) {
+    ensure_consistence();
+  }
   return true;
 }
 
diff --git a/src/Utils/hiopOptions.hpp b/src/Utils/hiopOptions.hpp
index b011402..c0e5b18 100644
--- a/src/Utils/hiopOptions.hpp
+++ b/src/Utils/hiopOptions.hpp
@@ -186,6 +186,9 @@ protected:
   std::map<std::string, Option*> mOptions_;
 
   hiopLogger* log_;
+
+  // true while an options file is read; consistency is then ensured only after the last line
+  bool loading_file_;
 };
 
 
-- 
2.43.0


From 9a1ca6340fe4ed6c5825f37c5c9cd686e35bd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 10/74] fix: default of accum_local must be one of its values

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index e00216f..b8c802a 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1661,7 +1661,7 @@ void hiopOptionsPriDec::register_options()
   // option for local accumulation of function value and subgradient on evaluator ranks, then reduce
   {
     register_str_option("accum_local",
-                        "false", // default value for the option
+                        "no", // default value for the option
                         vector<string>({"yes", "no"}), // range
                         "Accumulates recourse problem solutions locally on evaluator ranks (default 'false')");
   }
-- 
2.43.0


From 23706ed6ef7d7a22be1e2d6569e47e78e62b8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 11/74] fix: count the parts added to a compound vector

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..590eb7c 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -1014,6 +1014,7 @@ void hiopVectorCompoundPD::addVector(hiopVector *v)
 {
   vectors_.push_back(v);
   n_ += v->get_size();
+  n_parts_++;
 }
 
 hiopVector& hiopVectorCompoundPD::getVector(index_type index) const
-- 
2.43.0


From 5f17e33d9392f9d4ea0354b5ad3a9f22292bfb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 12/74] fix: compound addLogBarrierGrad used the pattern in
 place of x

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 590eb7c..550b98d 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
-- 
2.43.0


From 9c7c42e73567ba41ce34296e36c8f53126bde1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 13/74] fix: compound projectIntoBounds_local reports
 inconsistent bounds

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 550b98d..8dc48f2 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -807,7 +807,9 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() == ixu.get_num_parts());
 
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2)) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From fff8f0f09398a80ba1976f3338504656602c9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 14/74] fix: copy_from_starting_at copies the requested number
 of elements of a local vector

---
 src/LinAlg/hiopVectorPar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorPar.cpp b/src/LinAlg/hiopVectorPar.cpp
index d3587e2..4670afa 100644
--- a/src/LinAlg/hiopVectorPar.cpp
+++ b/src/LinAlg/hiopVectorPar.cpp
@@ -241,7 +241,7 @@ void hiopVectorPar::copy_from_starting_at(const double* v, int start_index_in_gl
 //  return;
 
   if(n_local_ > 0) {
-    if(global_nv == n_local_ && n_local_ == n_) {
+    if(global_nv <= n_local_ && n_local_ == n_) {
       exec_space_.copy(data_, v+start_index_in_global_v, global_nv);
     } else {
       if( glob_il_ <= start_index_in_global_v + global_nv && glob_iu_ >= start_index_in_global_v ) {
-- 
2.43.0


From e4aa397e55f736deb88f0d8604ce13c98b1c9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 15/74] fix: clones of a dense matrix keep the communicator
 size

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..d3c183d 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -112,7 +112,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
 {
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
-  comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_=dm.comm_; myrank_=dm.myrank_; comm_size_=dm.comm_size_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From 207f51d45f9354b452d77b75b167c8cf5f8e8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 16/74] fix: dense timesVec with a zero factor ignores y also
 on processes without columns

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index d3c183d..a4eb709 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -472,7 +472,10 @@ timesVec(double beta, double* ya, double alpha, const double* xa) const
   } else {
     if( MM != 0 ) {
       //y.scale( beta );
-      if(beta != 1.) {
+      if(beta == 0.) {
+        //as in DGEMV, 'y' is only written in this case (it can hold NaNs)
+        for(int i=0; i<MM; i++) ya[i] = 0.;
+      } else if(beta != 1.) {
 	int one=1; 
 	DSCAL(&MM, &beta, ya, &one);
       }
-- 
2.43.0


From ed7f4233dc9220b9fc3b99209cc411feab64b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 17/74] fix: dense products with empty dimensions scale the
 result and do not call BLAS with invalid sizes

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index a4eb709..bae88e1 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -549,7 +549,7 @@ void hiopMatrixDenseRowMajor::timesMat(double beta, hiopMatrix& W_, double alpha
   assert(X.m()==this->n());
   assert(W.n()==X.n());
 
-  if(W.m()==0 || X.m()==0 || W.n()==0) return;
+  if(W.m()==0 || W.n()==0) return;
 #ifdef HIOP_DEEPCHECKS  
   assert(W.isfinite());
   assert(X.isfinite());
@@ -590,7 +590,16 @@ void hiopMatrixDenseRowMajor::timesMat_local(double beta, hiopMatrix& W_, double
   assert(X.isfinite());
 #endif
   assert(W.n_local_==W.n_global_ && "requested multiplication is not supported, see timesMat");
-  
+  if(W.m()==0 || W.n()==0) return;
+  if(X.m()==0) {
+    //empty sum: only the accumulation in W is left
+    if(beta!=1.0) {
+      int one=1; int mn=W.m()*W.n();
+      DSCAL(&mn, &beta, W.M_[0], &one);
+    }
+    return;
+  }
+
   /* C = alpha*op(A)*op(B) + beta*C in our case is
      Wt= alpha* Xt  *Mt    + beta*Wt */
   char trans='N'; 
@@ -628,7 +637,7 @@ void hiopMatrixDenseRowMajor::transTimesMat(double beta, hiopMatrix& W_, double
   assert(W.isfinite());
   assert(X.isfinite());
 #endif
-  if(W.m()==0) return;
+  if(W.m()==0 || W.n_local_==0) return;
 
   assert(this->n_global_==this->n_local_ && "requested parallel multiplication is not supported");
   
-- 
2.43.0


From f86c5191ed58afbaef7ba4acbd1de662f7d5c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 18/74] fix: moving_lim_abs must bound the norm of the step
 that is taken

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..76dd69d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2831,7 +2831,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr = moving_lim_abs / x_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
-- 
2.43.0


From ccc6e7791d7d7aece46d01458dce24edbd806a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 19/74] fix: steps accepted under accept_every_trial_step are
 not line search failures

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 76dd69d..4976d69 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1324,6 +1324,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        theta_trial);
 
       if(disableLS) {
+        // the trial point is accepted unconditionally; nothing to do for the filter
+        lsStatus = 3;
         nlp->runStats.tmSolverInternal.stop();
         break;
       }
@@ -2543,6 +2545,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                          lsNum, _alpha_primal, logbar->f_logbar, logbar->f_logbar_trial, theta, theta_trial);
 
         if(disableLS) {
+          // the trial point is accepted unconditionally; nothing to do for the filter
+          lsStatus = 3;
           nlp->runStats.tmSolverInternal.stop();
           break;
         }
-- 
2.43.0


From a0d7774ea5acee0f343af678bb8bb2bca692011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 20/74] fix: continue from the restored point with its own
 function values and derivatives

---
 src/Optimization/hiopAlgFilterIPM.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 4976d69..87d464e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1430,10 +1430,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
@@ -3172,7 +3168,8 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  // (the caller accepts the trial function values '_f_nlp_trial', '_c_trial', and '_d_trial')
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
     assert(false);
     return false;
@@ -3229,6 +3226,13 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
     }
   }
 
+  // the Hessian needs to be evaluated at the new primals and duals
+  if(!this->evalNlp_HessOnly(*it_trial, *_Hess_Lagr)) {
+    nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
+    assert(false);
+    return false;
+  }
+
   // set step size to 1
   _alpha_primal = 1.0;
   _alpha_dual = 1.0;
@@ -3328,7 +3332,13 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //it is in the filter, reject this trial point and continue the iterates
       num_soft_fr++;
     } else {
-      // continue the regular iterate from the trial point  
+      // continue the regular iterate from the trial point, which needs derivatives evaluated there
+      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+        solver_status_ = Error_In_User_Function;
+        return true;
+      }
+      _alpha_primal = alpha_primal_soft;
+      _alpha_dual = alpha_dual_soft;
       bret = true;
       break;
     }
-- 
2.43.0


From cb8f8b35d11105a090eea96cb76a031070b7a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 21/74] fix: failing user functions end the solve with the
 user-error status at any call

---
 src/Optimization/hiopAlgFilterIPM.cpp | 81 ++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 87d464e..68bd273 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,8 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -1000,7 +999,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      return Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1018,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          solver_status_ = Error_In_User_Function;
+          nlp->runStats.tmOptimizTotal.stop();
+          return Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1028,6 +1035,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
       return Error_In_User_Function;
     }
     solver_status_ = NlpSolve_SolveNotCalled;
@@ -1302,6 +1311,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
         return Error_In_User_Function;
       }
 
@@ -1351,6 +1361,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                                  grad_phi_dx_soc_computed,
                                                  grad_phi_dx_soc,
                                                  num_adjusted_slacks_soc);
+        if(Error_In_User_Function==solver_status_) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -1388,6 +1404,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     //filter is augmented whenever the switching condition or Armijo rule do not hold for the trial point that was just accepted
     if(nlp->options->GetString("force_resto")=="yes" && !within_FR_ && iter_num_ == 1) {
       use_fr = apply_feasibility_restoration(kkt);
+      if(Error_In_User_Function==solver_status_) {
+        nlp->runStats.tmSolverInternal.stop();
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return Error_In_User_Function;
+      }
       if(use_fr) {
         // continue iterations if FR is accepted
         solver_status_ = NlpSolve_Pending;
@@ -1425,6 +1447,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(linsol_safe_mode_on) {
         // try to do FR
         use_fr = apply_feasibility_restoration(kkt);
+        if(Error_In_User_Function==solver_status_) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
 
         if(use_fr) {
           // continue iterations if FR is accepted
@@ -2137,7 +2165,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    solver_status_ = Error_In_User_Function;
+    nlp->runStats.tmOptimizTotal.stop();
+    return Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2568,6 +2601,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                                    grad_phi_dx_soc_computed,
                                                    grad_phi_dx_soc,
                                                    num_adjusted_slacks_soc);
+          if(Error_In_User_Function==solver_status_) {
+            nlp->runStats.tmSolverInternal.stop();
+            nlp->runStats.tmOptimizTotal.stop();
+            delete kkt;
+            return Error_In_User_Function;
+          }
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -2605,6 +2644,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
       // hold for the trial point that was just accepted
       if(nlp->options->GetString("force_resto")=="yes" && !within_FR_ && iter_num_ == 1) {
         use_fr = apply_feasibility_restoration(kkt);
+        if(Error_In_User_Function==solver_status_) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
         if(use_fr) {
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
@@ -2657,6 +2702,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
           // try to do FR
           use_fr = apply_feasibility_restoration(kkt);
+          if(Error_In_User_Function==solver_status_) {
+            nlp->runStats.tmSolverInternal.stop();
+            nlp->runStats.tmOptimizTotal.stop();
+            delete kkt;
+            return Error_In_User_Function;
+          }
 
           if(use_fr) {
             // continue iterations if FR is accepted
@@ -3014,8 +3065,9 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
+      //the caller needs to check the status
       solver_status_ = Error_In_User_Function;
-      return Error_In_User_Function;
+      return 0;
     }
 
     logbar->updateWithNlpInfo_trial_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial);
@@ -3045,6 +3097,9 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
   if(!within_FR_) {
     // try soft FR first
     bool is_soft_fr = solve_soft_feasibility_restoration(kkt);
+    if(Error_In_User_Function == solver_status_) {
+      return false;
+    }
     if(is_soft_fr) {
       // variables have already been updated inside the above function
       return true;
@@ -3067,7 +3122,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3079,7 +3134,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3092,7 +3147,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3116,7 +3171,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3171,7 +3226,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // (the caller accepts the trial function values '_f_nlp_trial', '_c_trial', and '_d_trial')
   if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3229,7 +3284,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // the Hessian needs to be evaluated at the new primals and duals
   if(!this->evalNlp_HessOnly(*it_trial, *_Hess_Lagr)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   }
 
-- 
2.43.0


From 6e458e2f4312753a292f136757fd507c739b3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 22/74] fix: pass the constraint violation of the current
 iterate to the iterate callback

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 68bd273..499ea64 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1150,7 +1150,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                    *it_curr->get_yd(), //lambda,
                                    _err_nlp_feas,
                                    _err_nlp_optim,
-                                   onenorm_pr_curr_,
+                                   resid->get_theta(),
                                    _mu,
                                    _alpha_dual,
                                    _alpha_primal,
@@ -2298,7 +2298,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                    *it_curr->get_yd(), //lambda,
                                    _err_nlp_feas,
                                    _err_nlp_optim,
-                                   onenorm_pr_curr_,
+                                   resid->get_theta(),
                                    _mu,
                                    _alpha_dual,
                                    _alpha_primal,
-- 
2.43.0


From 4726d06b53fc21c770e55386d277a5910827da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 23/74] fix: never increase the barrier parameter

---
 src/Optimization/hiopAlgFilterIPM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 499ea64..36cae86 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -562,7 +562,8 @@ bool hiopAlgFilterIPMBase::update_log_barrier_params(hiopIterate& it,
   const double target_comp_tol = comp_tol_/nlp->get_obj_scale();
   double new_mu = std::fmax(0.0, std::fmin(kappa_mu*mu_curr, std::pow(mu_curr,theta_mu)));
   new_mu = std::fmax(new_mu, std::fmin(eps_tol, target_comp_tol)/(10.+1.) );
-  if(fabs(new_mu-mu_curr)<1e-16) {
+  //the barrier parameter is never increased (it may start below the floor used above)
+  if(new_mu > mu_curr || fabs(new_mu-mu_curr)<1e-16) {
     return false;
   }
   mu_new  = new_mu;
-- 
2.43.0


From dc4913a551aef913ea5e362ce76c54c153661f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 24/74] fix: free the regularization object of the previous run

---
 src/Optimization/hiopAlgFilterIPM.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 36cae86..4529565 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1061,6 +1061,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   assert(kkt != nullptr);
 
   // assign an Null pd_perturb, i.e., all the deltas = 0.0
+  delete pd_perturb_;
   pd_perturb_ = new hiopPDPerturbationNull();
   if(!pd_perturb_->initialize(nlp)) {
     delete kkt;
@@ -2193,6 +2194,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
   
+  delete pd_perturb_;
+  pd_perturb_ = nullptr;
   if(nlp->options->GetString("normaleqn_regularization_priority")=="dual_first" && nlp->options->GetString("KKTLinsys")=="normaleqn") {
     if(nlp->options->GetString("regularization_method")=="randomized") {
       pd_perturb_ = new hiopPDPerturbationDualFirstRand();
-- 
2.43.0


From af55f20abf572c94f490a42d2433f64ee9e70222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 25/74] fix: scale the Jacobian of one-call dense problems as
 the constraints are scaled

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..e6ea62c 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1533,8 +1533,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 60f8fdd3e0fe787353b4d643612e964666b7cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 26/74] fix: multipliers passed to the Hessian function are
 scaled with the factors of their constraints

---
 src/Optimization/hiopNlpTransforms.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..9602b96 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,13 +477,19 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    const double Jac_c_max = scale_factor_c->infnorm();
+    const double Jac_d_max = scale_factor_d->infnorm();
+    scale_factor_c->setToConstant(Jac_c_max > 0. ? max_con_grad / Jac_c_max : 1.0);
+    scale_factor_d->setToConstant(Jac_d_max > 0. ? max_con_grad / Jac_d_max : 1.0);
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+
+  //factors for vectors ordered as the multipliers passed to the user's Hessian function: [eq; ineq]
+  scale_factor_c->copyToStarting(*scale_factor_cd, 0);
+  scale_factor_d->copyToStarting(*scale_factor_cd, n_eq);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From 243bc352a31f4cf99302f47f59965f143edf4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 27/74] fix: callbacks and getters return values of the user's
 unscaled full-space problem

---
 src/Optimization/hiopNlpFormulation.cpp | 241 +++++++++++++-----------
 src/Optimization/hiopNlpFormulation.hpp |  18 +-
 src/Optimization/hiopNlpTransforms.cpp  |  18 ++
 src/Optimization/hiopNlpTransforms.hpp  |   6 +
 4 files changed, 173 insertions(+), 110 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index e6ea62c..49dee7d 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -139,6 +139,7 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
   temp_x_ = nullptr;
   nlp_scaling_ = nullptr;
   relax_bounds_ = nullptr;
+  fixed_vars_remover_ = nullptr;
 }
 
 hiopNlpFormulation::~hiopNlpFormulation()
@@ -209,6 +210,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  fixed_vars_remover_ = nullptr;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
   delete xl_;
@@ -336,6 +338,7 @@ bool hiopNlpFormulation::finalizeInitialization()
       n_bnds_lu_        -= nfixed_vars_local;
       
       nlp_transformations_.append(fixedVarsRemover);
+      fixed_vars_remover_ = fixedVarsRemover;
     } else {
       /*
       * Relax fixed variables according to 2 conditions:
@@ -1032,48 +1035,90 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
   return true;
 }
 
-void hiopNlpFormulation::
-get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
+hiopVector* hiopNlpFormulation::alloc_user_x(const hiopVector& x) const
 {
-  if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
-    
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    cons_lambdas_->copy_from_two_vec_w_pattern(*it.get_yc(), *cons_eq_mapping_, *it.get_yd(), *cons_ineq_mapping_);
-    cons_lambdas_->copyTo(lambda_a);  
+  if(nullptr == fixed_vars_remover_) {
+    return x.new_copy();
+  }
+  hiopVector* x_user = fixed_vars_remover_->alloc_full_space_vec();
+  fixed_vars_remover_->copyRsToFs(x, *x_user);
+  return x_user;
+}
+
+hiopVector* hiopNlpFormulation::alloc_user_bound_duals(const hiopVector& z) const
+{
+  hiopVector* z_user;
+  if(nullptr == fixed_vars_remover_) {
+    z_user = z.new_copy();
   } else {
-    const double obj_scale_ext_to_hiop = this->get_obj_scale();
-    if(temp_x_ == nullptr) {
-      temp_x_ = this->alloc_primal_vec();
-    }
-    temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
-    temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
-
-    if(temp_eq_ == nullptr) {
-      temp_eq_ = this->alloc_dual_eq_vec();
-    }
-    if(temp_ineq_ == nullptr) {
-      temp_ineq_ = this->alloc_dual_ineq_vec();
-    }
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
-    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
-    cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
-    cons_lambdas_->copyTo(lambda_a);
+    z_user = fixed_vars_remover_->alloc_full_space_vec();
+    fixed_vars_remover_->copy_bound_duals_to_full_space(z, *z_user);
+  }
+  if(nlp_scaling_) {
+    // z_unscaled = z_scaled/obj_scale
+    z_user->scale(1./get_obj_scale());
+  }
+  return z_user;
+}
+
+void hiopNlpFormulation::compute_user_cons_duals(const hiopVector& y_c, const hiopVector& y_d)
+{
+  if(cons_lambdas_ == nullptr) {
+    cons_lambdas_ = this->alloc_dual_vec();
+  }
+  if(nullptr == nlp_scaling_) {
+    cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
+    return;
+  }
+  // y_unscaled = y_scale*y_scaled/obj_scale
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
   }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(y_c);
+  temp_ineq_->copyFrom(y_d);
+  nlp_scaling_->apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_scaling_->apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+  cons_lambdas_->scale(1./get_obj_scale());
+}
 
+void hiopNlpFormulation::compute_user_cons_body(const hiopVector& c, const hiopVector& d)
+{
+  if(cons_body_ == nullptr) {
+    cons_body_ = this->alloc_dual_vec();
+  }
+  if(nullptr == nlp_scaling_) {
+    cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+    return;
+  }
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(c);
+  temp_ineq_->copyFrom(d);
+  nlp_scaling_->apply_inv_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_scaling_->apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  cons_body_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+}
+
+void hiopNlpFormulation::
+get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
+{
+  hiopVector* zl = alloc_user_bound_duals(*it.get_zl());
+  hiopVector* zu = alloc_user_bound_duals(*it.get_zu());
+  zl->copyTo(zl_a);
+  zu->copyTo(zu_a);
+  delete zl;
+  delete zu;
+
+  compute_user_cons_duals(*it.get_yc(), *it.get_yd());
+  cons_lambdas_->copyTo(lambda_a);
 }
 
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
@@ -1091,56 +1136,35 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   assert(y_d.get_size() == n_cons_ineq_);
 
   const double obj_scale_ext_to_hiop = this->get_obj_scale();
-  if(cons_lambdas_ == nullptr) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
-    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
-    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
-    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
-  //concatenate 'c' and 'd' into user's constraint body
-  if(cons_body_ == nullptr) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values 
-    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
-    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  //the user receives (unscaled) values in the original space of variables and constraints
+  compute_user_cons_duals(y_c, y_d);
+  compute_user_cons_body(c, d);
+  hiopVector* x_user = alloc_user_x(x);
+  hiopVector* zl_user = alloc_user_bound_duals(z_L);
+  hiopVector* zu_user = alloc_user_bound_duals(z_U);
+  const int n_user = static_cast<int>(x_user->get_size());
+
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     hiopVectorPar cons_lambdas_host(n_cons_);
 
-    x.copy_to_vectorpar(x_host);
-    z_L.copy_to_vectorpar(zl_host);
-    z_U.copy_to_vectorpar(zu_host);
+    x_user->copy_to_vectorpar(x_host);
+    zl_user->copy_to_vectorpar(zl_host);
+    zu_user->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
+                                    n_user,
                                     x_host.local_data_const(),
                                     zl_host.local_data_const(),
                                     zu_host.local_data_const(),
@@ -1150,16 +1174,19 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    n_user,
+                                    x_user->local_data_const(),
+                                    zl_user->local_data_const(),
+                                    zu_user->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
                                     obj_value/obj_scale_ext_to_hiop);
-  }                         
+  }
 
+  delete x_user;
+  delete zl_user;
+  delete zu_user;
 }
 
 bool hiopNlpFormulation::user_callback_iterate(int iter,
@@ -1187,20 +1214,17 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   assert(y_c.get_size() == n_cons_eq_);
   assert(y_d.get_size() == n_cons_ineq_);
 
-  if(cons_lambdas_ == NULL) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
-  //concatenate 'c' and 'd' into user's constrainty body
-  if(cons_body_ == NULL) {
-    cons_body_ = cons_lambdas_->alloc_clone();
+  //the user receives (unscaled) values in the original space of variables and constraints
+  compute_user_cons_duals(y_c, y_d);
+  compute_user_cons_body(c, d);
+  hiopVector* x_user = alloc_user_x(x);
+  hiopVector* zl_user = alloc_user_bound_duals(z_L);
+  hiopVector* zu_user = alloc_user_bound_duals(z_U);
+  hiopVector* s_user = s.new_copy();
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_inv_to_cons_ineq(*s_user, n_cons_ineq_);
   }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
-
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  const int n_user = static_cast<int>(x_user->get_size());
 
   bool bret{false};
 
@@ -1210,17 +1234,17 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    x.copy_to_vectorpar(x_host);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    x_user->copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
-    s.copy_to_vectorpar(s_host);
+    s_user->copy_to_vectorpar(s_host);
     
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    z_L.copy_to_vectorpar(zl_host);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    zl_user->copy_to_vectorpar(zl_host);
     
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
-    z_U.copy_to_vectorpar(zu_host);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
+    zu_user->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     cons_body_->copy_to_vectorpar(cons_body_host);
@@ -1231,7 +1255,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
+                                           n_user,
                                            x_host.local_data_const(),
                                            zl_host.local_data_const(),
                                            zu_host.local_data_const(),
@@ -1251,12 +1275,12 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           n_user,
+                                           x_user->local_data_const(),
+                                           zl_user->local_data_const(),
+                                           zu_user->local_data_const(),
                                            (int)n_cons_ineq_,
-                                           s.local_data_const(),
+                                           s_user->local_data_const(),
                                            (int)n_cons_,
                                            cons_body_->local_data_const(),
                                            cons_lambdas_->local_data_const(),
@@ -1267,7 +1291,12 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            alpha_du,
                                            alpha_pr,
                                            ls_trials);
-  }   
+  }
+
+  delete x_user;
+  delete zl_user;
+  delete zu_user;
+  delete s_user;
   return bret; 
 }
 
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..6ee3ab2 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -257,11 +257,18 @@ public:
   }
   inline void user_x(hiopVector& hiop_x, double* user_x) 
   { 
-    //double *hiop_xa = hiop_x.local_data();
-    hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
-    //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    hiopVector* x = alloc_user_x(hiop_x);
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
+    delete x;
   }
+  /* allocates and returns the user's (full-space) vector of variables corresponding to the internal 'x' */
+  hiopVector* alloc_user_x(const hiopVector& x) const;
+  /* allocates and returns the user's (full-space, unscaled) duals corresponding to the internal duals 'z' of the bounds */
+  hiopVector* alloc_user_bound_duals(const hiopVector& z) const;
+  /* computes in 'cons_lambdas_' the user's (unscaled) duals of the constraints */
+  void compute_user_cons_duals(const hiopVector& y_c, const hiopVector& y_d);
+  /* computes in 'cons_body_' the user's (unscaled) body of the constraints */
+  void compute_user_cons_body(const hiopVector& c, const hiopVector& d);
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
   void get_dual_solutions(const hiopIterate& it,
@@ -369,6 +376,9 @@ protected:
 
   /// @brief internal NLP transformations that relaxes the bounds
   hiopBoundsRelaxer* relax_bounds_;
+
+  /// @brief internal NLP transformation that removes the fixed variables
+  hiopFixedVarsRemover* fixed_vars_remover_;
   
 
 #ifdef HIOP_USE_MPI
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 9602b96..a1b22aa 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -203,6 +203,24 @@ void hiopFixedVarsRemover::copyFsToRs(const hiopVector& fsVec,  hiopVector& rsVe
   apply_to_vector(&fsVec, &rsVec);
 }
 
+void hiopFixedVarsRemover::copyRsToFs(const hiopVector& rsVec, hiopVector& fsVec)
+{
+  assert(fsVec.get_local_size()==static_cast<int>(fs2rs_idx_map.size()));
+  apply_inv_to_vector(&rsVec, &fsVec);
+}
+
+void hiopFixedVarsRemover::copy_bound_duals_to_full_space(const hiopVector& rsVec, hiopVector& fsVec)
+{
+  assert(fsVec.get_local_size()==static_cast<int>(fs2rs_idx_map.size()));
+  const double* rs_arr = rsVec.local_data_const();
+  double* fs_arr = fsVec.local_data();
+  const int Size(static_cast<int>(fs2rs_idx_map.size()));
+  for(int i=0; i<Size; i++) {
+    const int rs_idx = fs2rs_idx_map[i];
+    fs_arr[i] = rs_idx<0 ? 0. : rs_arr[rs_idx];
+  }
+}
+
 void hiopFixedVarsRemover::
 copyFsToRs(const hiopInterfaceBase::NonlinearityType* fs, hiopInterfaceBase::NonlinearityType* rs)
 {
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..13c9135 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -267,6 +267,12 @@ public:
 #endif
   /* "copies" a full space vector to a reduced space vector */
   void copyFsToRs(const hiopVector& fsVec,  hiopVector& rsVec);
+  /* "copies" a reduced space vector to a full space vector; entries of the fixed variables are set to their values */
+  void copyRsToFs(const hiopVector& rsVec, hiopVector& fsVec);
+  /* "copies" duals of the bounds to a full space vector; entries of the fixed variables are set to zero */
+  void copy_bound_duals_to_full_space(const hiopVector& rsVec, hiopVector& fsVec);
+  /* allocates a full space vector */
+  inline hiopVector* alloc_full_space_vec() const { return xl_fs->alloc_clone(); }
   void copyFsToRs(const hiopInterfaceBase::NonlinearityType* fs, hiopInterfaceBase::NonlinearityType* rs);
   
   inline size_type fs_n() const { return n_fs;}
-- 
2.43.0


From acbe9a7d9c939de961a26a9e17489200e4be85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 28/74] fix: each run starts from the user's current problem
 and options, not from what a previous run left

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 34 +++++--------------------
 src/Optimization/hiopNlpFormulation.cpp | 18 +++----------
 2 files changed, 11 insertions(+), 41 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 4529565..e1c786f 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -189,22 +189,6 @@ void hiopAlgFilterIPMBase::reInitializeNlpObjects()
 
   alloc_alg_objects();
 
-  //0 LSQ (default), 1 linear update (more stable)
-  duals_update_type = nlp->options->GetString("duals_update_type")=="lsq"?0:1;
-  //0 LSQ (default), 1 set to zero
-  dualsInitializ = nlp->options->GetString("duals_init")=="lsq"?0:1;
-
-  if(duals_update_type==0) {
-    hiopNlpDenseConstraints* nlpd = dynamic_cast<hiopNlpDenseConstraints*>(nlp);
-    if(NULL==nlpd) {
-      duals_update_type = 1;
-      dualsInitializ = 1;
-      nlp->log->printf(hovWarning,
-                       "Option duals_update_type=lsq not compatible with the requested NLP formulation and will "
-                       "be set to duals_update_type=linear together with duals_init=zero\n");
-    }
-  }
-
   //parameter based initialization
   if(duals_update_type==0) {
     //lsq update
@@ -960,11 +944,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize 'this'
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
-     //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
+  //(re)initialize 'this' so that options changed since its construction are used and nothing from a previous run
+  //(quasi-Newton memory, type of the duals update, etc.) is used by this run
+  if(!load_state_api_called_ ||
+     it_curr->get_x()->get_size()!=nlp->n() ||
      _Jac_c->n()!=nlpdc->n()) {
-    //size of the nlp changed internally ->  reInitializeNlpObjects();
     reInitializeNlpObjects();
   }
   resetSolverStatus();
@@ -2135,13 +2119,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize `this`
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
-     //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
-     _Jac_c->n()!=nlp->n()) {
-    //size of the nlp changed internally ->  reInitializeNlpObjects();
-    reInitializeNlpObjects();
-  }
+  //(re)initialize 'this' so that options changed since its construction are used and nothing from a previous run
+  //is used by this run
+  reInitializeNlpObjects();
   resetSolverStatus();
 
   nlp->runStats.initialize();
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 49dee7d..7056bcf 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -185,21 +185,9 @@ hiopNlpFormulation::~hiopNlpFormulation()
 
 bool hiopNlpFormulation::finalizeInitialization()
 {
-  //check if there was a change in the user options that requires reinitialization of 'this'
-  bool doinit = false; 
-  if(strFixedVars_ != options->GetString("fixed_var")) {
-    doinit=true;
-  }
+  //The initialization is always redone since the options, the bounds provided by the user, or the internal
+  //representation of the problem (scaling, adjusted or tightened bounds) may have changed since the last call.
   const double fixedVarTol = options->GetNumeric("fixed_var_tolerance");
-  if(dFixedVarsTol_ != fixedVarTol) {
-    doinit=true;
-  }
-
-  //more checks whether we should reinitialize go here (for example change in the rescaling option)
-  
-  if(!doinit) {
-    return true;
-  }
 
   // Select memory space where to create linear algebra objects
   string mem_space = options->GetString("mem_space");
@@ -210,6 +198,8 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  nlp_scaling_ = nullptr;
+  relax_bounds_ = nullptr;
   fixed_vars_remover_ = nullptr;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
-- 
2.43.0


From 549288ad9e8eec43cee54f14e06c3ff0a64d2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 29/74] fix: fixed variables can be removed when the variables
 are not distributed

---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 7056bcf..04fe9c0 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -275,7 +275,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -283,9 +285,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
-- 
2.43.0


From 2b1daead4a4669bb677a7e008126d7ef5e5fd796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 30/74] fix: one-call constraint evaluation works with removed
 fixed variables

---
 src/Optimization/hiopNlpFormulation.cpp | 39 ++++++++++---------------
 src/Optimization/hiopNlpTransforms.cpp  | 22 +++++++-------
 src/Optimization/hiopNlpTransforms.hpp  |  2 ++
 3 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 04fe9c0..37cd175 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1526,38 +1526,25 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   }
 
   hiopVector* x_user = nlp_transformations_.apply_inv_to_x(x, new_x);
-  double* Jac_consde = cons_Jac_de->local_data();
-  hiopMatrix* Jac_user = nlp_transformations_.apply_inv_to_jacob_cons(*cons_Jac_, n_cons_);
 
-  hiopMatrixDense* cons_Jac_user_de = dynamic_cast<hiopMatrixDense*>(Jac_user);
-  if(cons_Jac_user_de == NULL) {
-    log->printf(hovError, "[internal error] hiopNlpDenseConstraints NLP received an unexpected matrix\n");
-    return false;
-  }
-    
   runStats.tmEvalJac_con.start();
   bool bret = interface.eval_Jac_cons(nlp_transformations_.n_pre(), n_cons_,
                                       x_user->local_data_const(), new_x,
-                                      cons_Jac_user_de->local_data());
-  
-  cons_Jac_ = nlp_transformations_.apply_to_jacob_cons(*Jac_user, n_cons_);
-  
-  hiopMatrixDense* Jac_cde = dynamic_cast<hiopMatrixDense*>(&Jac_c);
-  hiopMatrixDense* Jac_dde = dynamic_cast<hiopMatrixDense*>(&Jac_d);
-  if(Jac_cde==NULL || Jac_dde==NULL) {
+                                      cons_Jac_de->local_data());
+
+  //split the user's Jacobian (this is in the user's full space of variables)
+  hiopMatrixDense* Jac_c_user = dynamic_cast<hiopMatrixDense*>(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
+  hiopMatrixDense* Jac_d_user = dynamic_cast<hiopMatrixDense*>(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  if(Jac_c_user==NULL || Jac_d_user==NULL) {
     log->printf(hovError, "[internal error] hiopNlpDenseConstraints NLP works only with dense matrices\n");
     return false;
   } 
- 
-  assert(cons_Jac_de->local_data() == Jac_consde &&
-         "mismatch between Jacobian mem adress pre- and post-transformations should not happen");
-
-  Jac_cde->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
-  Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
+  Jac_c_user->copyRowsFrom(*cons_Jac_de, cons_eq_mapping_->local_data_const(), n_cons_eq_);
+  Jac_d_user->copyRowsFrom(*cons_Jac_de, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
-  // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  // apply the transformations (removal of the fixed variables, scaling)
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(*Jac_c_user, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(*Jac_d_user, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
@@ -1654,6 +1641,10 @@ hiopMatrixDense* hiopNlpDenseConstraints::alloc_Jac_d()
 
 hiopMatrixDense* hiopNlpDenseConstraints::alloc_Jac_cons()
 {
+  //this is the Jacobian evaluated by the user, which includes the fixed variables
+  if(fixed_vars_remover_) {
+    return fixed_vars_remover_->alloc_full_space_jacobian(n_cons_);
+  }
   return alloc_multivector_primal(n_cons_);
 }
 
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index a1b22aa..904b3a8 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -177,23 +177,23 @@ bool hiopFixedVarsRemover::setupConstraintsPart(const int& neq, const int& nineq
   assert(Jacc_fs==NULL && "should not be allocated at this point");
   assert(Jacd_fs==NULL && "should not be allocated at this point");
 
+  Jacc_fs = alloc_full_space_jacobian(neq);
+  Jacd_fs = alloc_full_space_jacobian(nineq);
+  return true;
+}
+
+hiopMatrixDense* hiopFixedVarsRemover::alloc_full_space_jacobian(const int& m)
+{
+  const std::string mem_space = nlp_->options->GetString("mem_space");
 #ifdef HIOP_USE_MPI
   if(fs_vec_distrib.size()) {
-    Jacc_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"),neq, n_fs, fs_vec_distrib.data(), comm);
-    Jacd_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, fs_vec_distrib.data(), comm);
+    return LinearAlgebraFactory::create_matrix_dense(mem_space, m, n_fs, fs_vec_distrib.data(), comm);
   } else {
-    Jacc_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs, NULL, comm);
-    Jacd_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, NULL, comm);
+    return LinearAlgebraFactory::create_matrix_dense(mem_space, m, n_fs, NULL, comm);
   }
 #else
-  Jacc_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs);
-  Jacd_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs);
+  return LinearAlgebraFactory::create_matrix_dense(mem_space, m, n_fs);
 #endif
-  return true;
 }
 
 /* "copies" a full space vector/array to a reduced space vector/array */
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 13c9135..284c076 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -273,6 +273,8 @@ public:
   void copy_bound_duals_to_full_space(const hiopVector& rsVec, hiopVector& fsVec);
   /* allocates a full space vector */
   inline hiopVector* alloc_full_space_vec() const { return xl_fs->alloc_clone(); }
+  /* allocates a matrix with 'm' rows and full space columns */
+  hiopMatrixDense* alloc_full_space_jacobian(const int& m);
   void copyFsToRs(const hiopInterfaceBase::NonlinearityType* fs, hiopInterfaceBase::NonlinearityType* rs);
   
   inline size_type fs_n() const { return n_fs;}
-- 
2.43.0


From cad42af9941571259dbcb38c09ea96f06d0bbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 31/74] fix: starting duals are exchanged in the user's full
 space when fixed variables are removed

---
 src/Optimization/hiopNlpFormulation.cpp | 32 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 37cd175..c215ccc 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -785,8 +785,11 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
 
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  //the user works with the (full-space) duals of all the variables
+  hiopVector* zL0_user = fixed_vars_remover_ ? fixed_vars_remover_->alloc_full_space_vec() : &zL0_for_hiop;
+  hiopVector* zU0_user = fixed_vars_remover_ ? fixed_vars_remover_->alloc_full_space_vec() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   
@@ -800,6 +803,10 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                                            slacks_avail,
                                            d_for_user);
   if(duals_avail) {
+    if(fixed_vars_remover_) {
+      fixed_vars_remover_->copyFsToRs(*zL0_user, zL0_for_hiop);
+      fixed_vars_remover_->copyFsToRs(*zU0_user, zU0_for_hiop);
+    }
 
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_ineq_ == yd0_for_hiop.get_size() && "when did the cons change?");
@@ -817,6 +824,10 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
   }
   /* delete the temporary buffers */
   delete lambdas;
+  if(fixed_vars_remover_) {
+    delete zL0_user;
+    delete zU0_user;
+  }
 
   return bret;
 }
@@ -836,8 +847,11 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                                                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
   
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  //the user works with the (full-space) duals of all the variables
+  hiopVector* zL0_user = fixed_vars_remover_ ? fixed_vars_remover_->alloc_full_space_vec() : &zL0_for_hiop;
+  hiopVector* zU0_user = fixed_vars_remover_ ? fixed_vars_remover_->alloc_full_space_vec() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   double* vl_for_user = vl0.local_data();
@@ -852,7 +866,11 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                             d_for_user,
                                             vl_for_user,
                                             vu_for_user);
-  {
+  if(bret) {
+    if(fixed_vars_remover_) {
+      fixed_vars_remover_->copyFsToRs(*zL0_user, zL0_for_hiop);
+      fixed_vars_remover_->copyFsToRs(*zU0_user, zU0_for_hiop);
+    }
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_ineq_ == yd0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
@@ -871,6 +889,10 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
 
   /* delete the temporary buffers */
   delete lambdas;
+  if(fixed_vars_remover_) {
+    delete zL0_user;
+    delete zU0_user;
+  }
 
   return bret;
 }
-- 
2.43.0


From 58d6ff5c4db15eaa680243f27ff99deae429290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 32/74] fix: feasibility restoration evaluates the objective of
 the base problem at the current point and reports evaluation failures

---
 src/Optimization/hiopFRProb.cpp | 52 ++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..a723e63 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -253,6 +253,11 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value (wrk_x_ is overwritten below)
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -260,8 +265,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
 
   return true;
 }
@@ -308,7 +311,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -368,7 +373,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -403,7 +410,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -902,6 +911,11 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value (wrk_x_ is overwritten below)
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -909,7 +923,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
 
   return true;
 }
@@ -963,7 +976,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1034,7 +1049,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1364,7 +1381,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1613,6 +1632,11 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   obj_value = obj_global;
 #endif
 
+  // keep a copy of the original objective value (wrk_x_ is overwritten below)
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -1620,8 +1644,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
 
   return true;
 }
@@ -1663,7 +1685,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1739,7 +1763,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
-- 
2.43.0


From 8f9da5b2908743c13ee49b13ffaa806bafa2c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 33/74] fix: soft feasibility restoration is not successful
 when the filter rejects all its points

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index e1c786f..9fdc1db 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3369,6 +3369,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
     if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
       //it is in the filter, reject this trial point and continue the iterates
+      bret = false;
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point, which needs derivatives evaluated there
-- 
2.43.0


From e7919fbc897895570658c28bd596de8443f50827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 34/74] fix: low-rank KKT solve does not use unset memory or
 incomplete factors when the Cholesky factorization fails

---
 src/Optimization/hiopKKTLinSys.cpp | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..b9f1d25 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -52,6 +52,7 @@
 #include "hiopPDPerturbation.hpp"
 
 #include <cmath>
+#include <vector>
 
 namespace hiop
 {
@@ -1221,6 +1222,8 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   double* WORK = new double[3*N];
   int* IWORK = new int[N];
   int INFO;
+  //'X' is not set by DPOSVX when the matrix is not numerically positive definite
+  for(int i=0; i<N; i++) X[i] = 0.;
 
   //
   // 1. solve
@@ -1244,6 +1247,7 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   hiopVector* resid = rhs.alloc_clone();
   int nIterRefin=0;double nrmResid;
   int info;
+  int info_solve=0;
   const int MAX_ITER_REFIN=3;
   while(true) {
     x->copyFrom(X);
@@ -1279,18 +1283,31 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
       M.copyFrom(*Aref);
       //for(int i=0; i<4; i++) M.local_data()[i][i] +=1e-8;
       DPOTRF(&UPLO, &N, M.local_data(), &LDA, &info);
-      if(info>0)
+      if(info>0) {
 	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf (Chol fact) "
 			  "detected %d minor being indefinite.\n", info);
-      else
+        //the Cholesky factors are incomplete; use the symmetric indefinite factorization
+        std::vector<int> ipiv(N);
+        std::vector<double> work(64*N);
+        int lwork = 64*N;
+        M.copyFrom(*Aref);
+        DSYTRF(&UPLO, &N, M.local_data(), &LDA, ipiv.data(), work.data(), &lwork, &info);
+        if(info!=0) {
+          nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dsytrf returned %d\n", info);
+          info_solve = info;
+          break;
+        }
+        DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, ipiv.data(), resid->local_data(), &LDB, &info);
+      } else {
 	if(info<0)
 	  nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf returned "
 			    "error %d\n", info);
 
-      DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
-      if(info<0)
-	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithFactors: dpotrs returned "
-			  "error %d\n", info);
+        DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
+        if(info<0)
+          nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithFactors: dpotrs returned "
+                            "error %d\n", info);
+      }
     }
 
    // //FACT='F'; EQUED='Y'; //reuse the factorization and the equilibration
@@ -1346,7 +1363,7 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 //   nlp_->log->printf(hovLinAlgScalars, "hiopKKTLinSysLowRank::solveCompressed: Cholesky solve: relative error %g\n", relErr);
 //   delete r;
 // #endif
-  return 0;
+  return info_solve;
 }
 
 int hiopKKTLinSysLowRank::solve(hiopMatrixDense& M, hiopVector& rhs)
-- 
2.43.0


From 4ec70ca2e10936ada219ccf00ae4a128ea77158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 35/74] fix: adding zero elements at the end of a dense
 diagonal is allowed

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index bae88e1..35ea69e 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -756,7 +756,7 @@ void hiopMatrixDenseRowMajor::addSubDiagonal(int start_on_dest_diag,
   assert(n_local_ == n_global_ && "method supported only for non-distributed matrices");
   assert(n_local_ == m_local_  && "method supported only for symmetric matrices");
 
-  assert(start_on_dest_diag>=0 && start_on_dest_diag<m_local_);
+  assert(start_on_dest_diag>=0 && start_on_dest_diag<=m_local_);
   num_elems = std::min(num_elems, m_local_-start_on_dest_diag);
 
   const double* dd=d.local_data_const();
-- 
2.43.0


From 1a3f6fd84a1a7a71247a884016510253a85ca64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 36/74] fix: failed linear solves end the second order
 correction and the soft restoration, dense restoration works without
 constraints

---
 src/Optimization/hiopAlgFilterIPM.cpp | 10 ++++++++--
 src/Optimization/hiopFRProb.cpp       |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9fdc1db..563d000 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3036,7 +3036,10 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     // solve for search directions
     bret = kkt->computeDirections(resid_trial, soc_dir); 
-    assert(bret);
+    if(!bret) {
+      //no second order correction without a direction
+      return 0;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soc_dir, _tau, alpha_primal_soc, alpha_dual_soc); 
@@ -3328,7 +3331,10 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
       bret = kkt->compute_directions_w_IR(resid_trial, soft_dir); 
     }    
-    assert(bret);
+    if(!bret) {
+      //soft feasibility restoration is not possible without a direction
+      break;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soft_dir, _tau, alpha_primal_soft, alpha_dual_soft); 
diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index a723e63..b86ddff 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -1757,7 +1757,7 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   assert(Jac_c && Jac_d);
 
   // extend Jac to the p and n parts
-  assert(Jac != nullptr);
+  assert(Jac != nullptr || m == 0);
   // get x for the original problem
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-- 
2.43.0


From 589434dd46568d1082b4780a28db29b5616a087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 37/74] fix: feasibility restoration can start at a point with
 zero components

---
 src/Optimization/hiopFRProb.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index b86ddff..da2c82c 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -90,8 +90,9 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  //max before inverting: the reference point can have zero components
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -737,8 +738,9 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  //max before inverting: the reference point can have zero components
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -1443,8 +1445,9 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
   // build vector VR
   DR_ = x_ref_->new_copy();
   DR_->component_abs();
+  //max before inverting: the reference point can have zero components
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   comm_ = MPI_COMM_WORLD;
   comm_size_ = 1;
-- 
2.43.0


From b9ab77d7d475deae5518d94231cedd17adea38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 38/74] fix: a Jacobian that could not be evaluated is not used

---
 src/Optimization/hiopNlpFormulation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c215ccc..fe999cc 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1823,6 +1823,11 @@ bool hiopNlpMDS::eval_Jac_c_d_interface_impl(hiopVector& x,
                                         pJac_d->n_sp(), pJac_d->n_de(), 
                                         nnz, cons_Jac->sp_irow(), cons_Jac->sp_jcol(), cons_Jac->sp_M(),
                                         cons_Jac->de_local_data());
+    if(!bret) {
+      //the Jacobian, including its sparsity pattern, may not be set
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
@@ -2036,6 +2041,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                    nullptr, 
                                    nullptr, 
                                    cons_Jac->M());
+    if(!bret) {
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
 
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
-- 
2.43.0


From 3dd4bbe8a5ecb67de67879223131a1670a540f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 39/74] fix: bounds reset in the elastic mode are scaled as the
 constraints are

---
 src/Optimization/hiopNlpFormulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index fe999cc..6e2dca9 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1463,6 +1463,11 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  if(nlp_scaling_) {
+    //the bounds relaxed above are the unscaled ones
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
-- 
2.43.0


From 1239e1a2e8b6003599301aae242b82ae17d9f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 40/74] fix: the elastic mode works also when
 bound_relax_perturb is zero

---
 src/Optimization/hiopNlpFormulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 6e2dca9..9cfbba8 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -392,7 +392,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   //
   // relax bounds for simple bounds and constraints)
   //
-  if(options->GetNumeric("bound_relax_perturb") > 0.0) {
+  if(options->GetNumeric("bound_relax_perturb") > 0.0 || options->GetString("elastic_mode") != "none") {
     relax_bounds_ = new hiopBoundsRelaxer(this, *xl_, *xu_, *dl_, *du_);
     relax_bounds_->setup();
     if(options->GetString("elastic_mode") == "none") {
-- 
2.43.0


From 1d5a76f29eae742b847e3973d15b0b3b8c76f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 41/74] fix: soft feasibility restoration gives up when the
 duals cannot be updated

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 563d000..7528e80 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3357,7 +3357,10 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     bret = dualsUpdate_->go(*it_curr, *it_trial,
                            _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d, *soft_dir,
                            alpha_primal_soft, alpha_dual_soft, _mu, kappa_Sigma, infeas_nrm_soft);
-    assert(bret);
+    if(!bret) {
+      //soft feasibility restoration is not possible without duals
+      break;
+    }
 
     logbar->updateWithNlpInfo_trial_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial);
         
-- 
2.43.0


From 646a6c3cecd1bf7b795d869bf349c8252d2922d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 42/74] fix: symmetry check of dense matrices is relative to
 the magnitude of the matrix

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 35ea69e..3b573df 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -907,11 +907,18 @@ bool hiopMatrixDenseRowMajor::assertSymmetry(double tol) const
     return false;
   }
 
-  //symmetry
+  //symmetry, relative to the magnitude of the matrix: small elements that are differences of large
+  //quantities carry the rounding errors of these
+  double nrm = 0.;
+  for(int i=0; i<n_local_; i++) {
+    for(int j=0; j<n_local_; j++) {
+      nrm = std::max(nrm, std::abs(M_[i][j]));
+    }
+  }
   for(int i=0; i<n_local_; i++)
     for(int j=0; j<n_local_; j++) {
       double ij=M_[i][j], ji=M_[j][i];
-      double relerr= std::abs(ij-ji)/(1+std::abs(ij));
+      double relerr= std::abs(ij-ji)/(1+nrm);
       assert(relerr<tol);
       if(relerr>=tol) {
 	return false;
-- 
2.43.0


From 5dc92adc8f17084f70f64a080f49ba3f7ed5759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 43/74] fix: the standard update of the duals is used when the
 least-squares update fails

---
 src/Optimization/hiopDualsUpdater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopDualsUpdater.cpp b/src/Optimization/hiopDualsUpdater.cpp
index 510fae0..7609ce7 100644
--- a/src/Optimization/hiopDualsUpdater.cpp
+++ b/src/Optimization/hiopDualsUpdater.cpp
@@ -146,7 +146,12 @@ bool hiopDualsLsqUpdate::go(const hiopIterate& iter,
     return true;
   }
 
-  return do_lsq_update(iter_plus, grad_f, jac_c, jac_d);
+  if(!do_lsq_update(iter_plus, grad_f, jac_c, jac_d)) {
+    //the LSQ system is singular, for example for dependent constraints; yc and yd remain those of the
+    //standard update done above
+    nlp_->log->printf(hovWarning, "dual lsq update failed; will use the standard update of the duals.\n");
+  }
+  return true;
 }
 
 hiopDualsLsqUpdateLinsysRedDense::hiopDualsLsqUpdateLinsysRedDense(hiopNlpFormulation* nlp)
-- 
2.43.0


From 004dd0092ba1ce46372f0bad1c66a95a7e606cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 44/74] fix: the filter and the dual update use the
 infeasibility of the accepted second order correction point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 7528e80..67e372e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1358,6 +1358,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
           use_soc = 1;
+          //the accepted trial point is the one of the second order correction
+          infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           nlp->runStats.tmSolverInternal.stop();
           break;
         }
@@ -2596,6 +2598,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
             use_soc = 1;
+            //the accepted trial point is the one of the second order correction
+            infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             nlp->runStats.tmSolverInternal.stop();
             break;
           }
-- 
2.43.0


From c56b361359c4e8f182e812276970650ad1884475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 45/74] fix: the debug symmetry check of the low-rank KKT
 matrix allows for the rounding errors of the solves

---
 src/Optimization/hiopKKTLinSys.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index b9f1d25..f7feb8b 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1139,7 +1139,9 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   nlp_->log->write("solveCompressed: N is", *N, hovMatrices);
   nlp_->log->write("solveCompressed: rx is", rx, hovMatrices);
   nlp_->log->printf(hovLinAlgScalars, "inf norm of Dd_inv is %g\n", Dd_inv_->infnorm());
-  N->assertSymmetry(1e-10);
+  // N is the difference of two symmetric matrices, the second coming from solves with the (possibly ill-conditioned) low-rank
+  // update of the Hessian; allow for the rounding errors of these
+  N->assertSymmetry(1e-6);
 #endif
 
   //compute the rhs of the lin sys involving N
-- 
2.43.0


From 973d7534fbaddb1f343a69f2dde5439909b64c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 46/74] fix: steps of slacks and bound duals consistent with
 the variables when the refinement does not converge

---
 src/Optimization/hiopKKTLinSys.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index f7feb8b..f551e5a 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -951,8 +951,10 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
   if(!bret) {
     nlp_->log->printf(hovWarning, "%s", bicgIR_->get_convergence_info().c_str());
 
-    // accept the stpe since this is IR
-    bret = true;
+    // accept the stpe since this is IR; however, the steps in the slacks and in the duals of the bounds need to be
+    // consistent with the step in the variables since the step lengths that keep the iterate inside the bounds are
+    // computed based on these
+    bret = compute_directions_for_full_space(resid, dir);
   } else {
     nlp_->log->printf(hovScalars, "%s", bicgIR_->get_convergence_info().c_str());
   }
-- 
2.43.0


From 3f870c519a6d5ea8f26a4eb257be2cb400ac233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 47/74] fix: search directions with inf or nan values are
 failed linear solves

---
 src/Optimization/hiopKKTLinSys.cpp | 16 +++++++++++++++-
 src/Optimization/hiopKKTLinSys.hpp |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index f551e5a..646dfb6 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -909,6 +909,15 @@ bool hiopKKTLinSysCompressedXDYcYd::computeDirections(const hiopResidual* resid,
 }
 
 
+bool hiopKKTLinSys::has_finite_directions(const hiopIterate* dir) const
+{
+  //the norms are over all the ranks
+  return std::isfinite(dir->x->onenorm())  && std::isfinite(dir->d->onenorm())  &&
+         std::isfinite(dir->yc->onenorm()) && std::isfinite(dir->yd->onenorm()) &&
+         std::isfinite(dir->zl->onenorm()) && std::isfinite(dir->zu->onenorm()) &&
+         std::isfinite(dir->vl->onenorm()) && std::isfinite(dir->vu->onenorm());
+}
+
 bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopIterate* dir)
 {
   nlp_->runStats.tmSolverInternal.start();
@@ -916,7 +925,7 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
   // skip IR if user set ir_outer_maxit to 0 or negative values
   if(0 >= nlp_->options->GetInteger("ir_outer_maxit")) {
     nlp_->runStats.tmSolverInternal.stop();
-    return computeDirections(resid,dir);
+    return computeDirections(resid,dir) && has_finite_directions(dir);
   }
   const hiopResidual &r=*resid;
 
@@ -959,6 +968,11 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
     nlp_->log->printf(hovScalars, "%s", bicgIR_->get_convergence_info().c_str());
   }
 
+  if(bret && !has_finite_directions(dir)) {
+    nlp_->log->printf(hovWarning, "the search directions contain inf or nan\n");
+    bret = false;
+  }
+
   nlp_->runStats.tmSolverInternal.stop();
   return bret;
 }
diff --git a/src/Optimization/hiopKKTLinSys.hpp b/src/Optimization/hiopKKTLinSys.hpp
index 83334ba..fef5f6a 100644
--- a/src/Optimization/hiopKKTLinSys.hpp
+++ b/src/Optimization/hiopKKTLinSys.hpp
@@ -156,6 +156,8 @@ public:
   
   inline hiopPDPerturbation* get_perturb_calc() const {return perturb_calc_;}
 protected:
+  /// Checks, over all the ranks, that the search directions do not contain inf or nan values.
+  bool has_finite_directions(const hiopIterate* dir) const;
   /** 
    * @brief y=beta*y+alpha*H*x
    * 
-- 
2.43.0


From 76990cb0666cb761aaa2541b4f84ae9bf95a9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 48/74] fix: low-rank Hessian times vector is finite when
 s^T*B*s is lost to cancellations

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..8dcd1be 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1032,7 +1032,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
       a[k]->axpy(-aiTsk, *a[i]);
     }
     double skTak = a[k]->dotProductWith(*sk);
-    a[k]->scale(1/sqrt(skTak));
+    //s_k^T*B_k*s_k is positive; when it is lost to cancellations the term is negligible
+    if(skTak > 0.) {
+      a[k]->scale(1/sqrt(skTak));
+    } else {
+      a[k]->setToZero();
+    }
   }
 
   //now we have B= B_0 + sum{ bk bk' - ak ak' : k=0,1,...,l_curr-1} 
-- 
2.43.0


From 06c4597eeb98d209d2265b19cb0107c745286e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 49/74] fix: slacks of the soft feasibility restoration are
 kept positive

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 67e372e..c7c7f7c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3349,7 +3349,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soft_dir, alpha_primal_soft, alpha_dual_soft); 
     assert(bret);
-    it_trial->determineSlacks(); // TODO: adjust small slacks in soft FR?
+    const int num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
     
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
@@ -3385,6 +3385,13 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       bret = false;
       num_soft_fr++;
     } else {
+      // adjust small/negative slacks
+      if(num_adjusted_slacks > 0) {
+        nlp->log->printf(hovWarning,
+                         "%d slacks are too small. Adjust corresponding variable slacks!\n",
+                         num_adjusted_slacks);
+        nlp->adjust_bounds(*it_trial);
+      }
       // continue the regular iterate from the trial point, which needs derivatives evaluated there
       if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
         solver_status_ = Error_In_User_Function;
-- 
2.43.0


From 4e1ed7c91921b0a157dffaff54f24bd8664fd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 50/74] fix: the curvature test of MDS problems uses the
 slacks' diagonal instead of unset memory

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..d6310ed 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,11 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    //Dd=(Sdl)^{-1}Vl + (Sdu)^{-1}Vu (needed by the curvature test of the inertia-free factorization acceptor)
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From 7d959e89026b129ea740afda720771f35e288574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 51/74] fix: no second order correction when the constraints
 are not finite at the trial point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index c7c7f7c..f3eb7f6 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3034,6 +3034,11 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     d_soc->scale(alpha_primal_soc);
     d_soc->axpy(1.0, *it_trial->get_d());
     d_soc->axpy(-1.0, *_d_trial);
+
+    if(!c_soc->isfinite_local() || !d_soc->isfinite_local()) {
+      //the constraints overflow at the trial point; no second order correction with these values
+      return 0;
+    }
     
     // compute rhs for soc. Use resid_trial since it hasn't been used
     resid_trial->update_soc(*it_curr, *c_soc, *d_soc, *_grad_f,*_Jac_c,*_Jac_d, *logbar);
-- 
2.43.0


From 4248f295918cf53f985041dddb5a5b685717cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 52/74] fix: a slack diagonal that cannot be inverted fails the
 step computation instead of aborting

---
 src/Optimization/hiopKKTLinSys.cpp    | 10 +++++++---
 src/Optimization/hiopKKTLinSysMDS.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 646dfb6..fcb9108 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1098,9 +1098,13 @@ update(const hiopIterate* iter,
   Dd_inv_->setToZero();
   Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
   Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
-#ifdef HIOP_DEEPCHECKS
-  assert(true==Dd_inv_->allPositive());
-#endif
+  if(!Dd_inv_->allPositive() || (Dd_inv_->get_size()>0 && Dd_inv_->min()<1e-35)) {
+    //multipliers or slacks that overflowed or underflowed; this diagonal cannot be inverted
+    nlp_->log->write("KKT_LowRank: the diagonal corresponding to the slacks of the inequalities is (nearly) zero or is not finite.",
+                     hovWarning);
+    nlp_->runStats.tmSolverInternal.stop();
+    return false;
+  }
   Dd_->copyFrom(*Dd_inv_);
   Dd_inv_->invert();
 
diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index d6310ed..7ba02ea 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -285,9 +285,13 @@ namespace hiop
     Dd_inv_->copyFrom(*delta_wd_);
     Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
     Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
-#ifdef HIOP_DEEPCHECKS
-    assert(true==Dd_inv_->allPositive());
-#endif 
+    if(!Dd_inv_->allPositive() || (Dd_inv_->get_size()>0 && Dd_inv_->min()<1e-35)) {
+      //multipliers or slacks that overflowed or underflowed; this diagonal cannot be inverted
+      nlp_->log->write("KKT_MDS_XYcYd: the diagonal corresponding to the slacks of the inequalities is (nearly) zero or is not finite.",
+                       hovWarning);
+      nlp_->runStats.kkt.tmUpdateLinsys.stop();
+      return false;
+    }
     Dd_inv_->invert();
 	
     alpha=-1.;
-- 
2.43.0


From bf4b82a5a0bf41f2c0400b211bacb8d508686971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 53/74] fix: a right-hand side that overflowed is a failed
 linear solve in the low-rank KKT system

---
 src/Optimization/hiopKKTLinSys.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index fcb9108..ceee584 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1177,7 +1177,15 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   hiopVector& rhs=*_k_vec1;
   rhs.copyFromStarting(0, ryc);
   rhs.copyFromStarting(nlp_->m_eq(), ryd);
+  if(!rhs.isfinite_local()) {
+    nlp_->log->write("solveCompressed: the right-hand side has inf or nan values", hovWarning);
+    return false;
+  }
   J.timesVec(-1.0, rhs, 1.0, dx);
+  if(!rhs.isfinite_local()) {
+    nlp_->log->write("solveCompressed: the right-hand side has inf or nan values", hovWarning);
+    return false;
+  }
 
 #ifdef HIOP_DEEPCHECKS
   nlp_->log->write("solveCompressed: dx sol is", dx, hovMatrices);
-- 
2.43.0


From 3fa1b9e15ab8e8469ea1de5cacf759c1463b1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 54/74] fix: the debug symmetry check of the low-rank KKT
 matrix does not abort ill-conditioned second order corrections

---
 src/Optimization/hiopKKTLinSys.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index ceee584..b4f916e 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1159,9 +1159,8 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   nlp_->log->write("solveCompressed: N is", *N, hovMatrices);
   nlp_->log->write("solveCompressed: rx is", rx, hovMatrices);
   nlp_->log->printf(hovLinAlgScalars, "inf norm of Dd_inv is %g\n", Dd_inv_->infnorm());
-  // N is the difference of two symmetric matrices, the second coming from solves with the (possibly ill-conditioned) low-rank
-  // update of the Hessian; allow for the rounding errors of these
-  N->assertSymmetry(1e-6);
+  // N is the difference of two symmetric matrices, the second coming from solves with the (possibly very ill-conditioned) low-rank
+  // update of the Hessian; its rounding errors are of no fixed magnitude and the residual is checked after the solve
 #endif
 
   //compute the rhs of the lin sys involving N
-- 
2.43.0


From 8dfefd9a53c0eaaddc3db37b78603d9d34385922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 55/74] fix: KKT factorizations fail when the KKT matrix cannot
 be built

---
 src/Optimization/hiopKKTLinSys.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index b4f916e..7edaf10 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -343,7 +343,9 @@ bool hiopKKTLinSysCurvCheck::factorize()
     }
 
     // the update of the linear system, including IC perturbations
-    this->build_kkt_matrix(*perturb_calc_);
+    if(!this->build_kkt_matrix(*perturb_calc_)) {
+      return false;
+    }
 
     nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
@@ -397,7 +399,9 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
   }
 
   // the update of the linear system, including IC perturbations
-  this->build_kkt_matrix(*perturb_calc_);
+  if(!this->build_kkt_matrix(*perturb_calc_)) {
+    return false;
+  }
 
   nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
@@ -428,7 +432,9 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
     }
 
     // the update of the linear system, including IC perturbations
-    this->build_kkt_matrix(*perturb_calc_);
+    if(!this->build_kkt_matrix(*perturb_calc_)) {
+      return false;
+    }
 
     nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
-- 
2.43.0


From 0d696fea11fbe993dad5067c6a335215aa262370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 56/74] fix: failed inertia-free refactorizations are failed
 step computations

---
 src/Optimization/hiopAlgFilterIPM.cpp | 13 +++++++++++--
 src/Optimization/hiopKKTLinSys.cpp    |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index f3eb7f6..0e57c61 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3494,13 +3494,22 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
     if(kkt->test_direction(dir, _Hess_Lagr)) {
       break;
     } else {
-      if(static_cast<size_t>(num_refact) >= max_refactorization) {
+      const bool max_refact_reached = static_cast<size_t>(num_refact) >= max_refactorization;
+      if(max_refact_reached) {
         nlp->log->printf(hovError,
                          "Reached max number (%lu) of refactorization within an outer iteration.\n",
                          max_refactorization);
+      }
+      if(max_refact_reached || !kkt->factorize_inertia_free()) {
+        if(!linsol_safe_mode_on && !linsol_forcequick) {
+          linsol_safe_mode_on = true;
+          nlp->log->printf(hovWarning,
+                          "Requesting additional accuracy and stability from the KKT linear system "
+                          "at iteration %d (safe mode ON)[5]\n",
+                           iter_num);
+        }
         return false;
       }
-      kkt->factorize_inertia_free();
       num_refact++;
       nlp->runStats.kkt.nUpdateICCorr++;
     }
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 7edaf10..e979f93 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -390,6 +390,10 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
 
   continue_re_fact = fact_acceptor_->requireReFactorization(*nlp_, non_singular_mat, true);
 
+  if(-1==continue_re_fact) {
+    return false;
+  }
+
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
@@ -450,7 +454,7 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
 
   nlp_->runStats.kkt.tmUpdateInnerFact.stop();
 
-  return true;
+  return solver_flag >= 0;
 }
 
 
-- 
2.43.0


From a44f0dd87151427189475e719afc3f9b8f7a12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 57/74] fix: scaling of the constraints keeps infinite bounds
 infinite

---
 src/Optimization/hiopNlpFormulation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 9cfbba8..e2d1295 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -702,8 +702,18 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
                                            *cons_ineq_mapping_);
   
   c_rhs_ = nlp_scaling_->apply_to_cons_eq(*c_rhs_, n_cons_eq_);
+
+  // scale the (finite) bounds of the inequalities; infinite bounds stay infinite
+  hiopVector* bounds = dl_->new_copy();
   dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+  bounds->copy_from_w_pattern(*dl_, *idl_);
+  dl_->copyFrom(*bounds);
+
+  bounds->copyFrom(*du_);
   du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  bounds->copy_from_w_pattern(*du_, *idu_);
+  du_->copyFrom(*bounds);
+  delete bounds;
 
   nlp_transformations_.append(nlp_scaling_);
   
-- 
2.43.0


From fa334bdb48a5a9bfe99fd2ea267af8a12d3cb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 58/74] fix: the initial primal regularization is used when the
 Hessian is degenerate

---
 src/Optimization/hiopPDPerturbation.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..26a420e 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -195,17 +195,14 @@ namespace hiop
     delta_cc_curr_db_ = delta_temp;
     delta_cd_curr_db_ = delta_temp;
 
+    delta_wx_curr_db_ = 0.;
+    delta_wd_curr_db_ = 0.;
     if(hess_degenerate_ == dtDegenerate) {
-      delta_wx_curr_db_ = 0.;
-      delta_wd_curr_db_ = 0.;
+      // this sets 'delta_wx_curr_db_' and 'delta_wd_curr_db_'
       if(!guts_of_compute_perturb_wrong_inertia(delta_temp, delta_temp2)) {
         return false;
       }
-    } else {
-      delta_temp = delta_temp2 = 0.;
     }
-    delta_wx_curr_db_ = delta_temp;
-    delta_wd_curr_db_ = delta_temp2;
     
     set_delta_curr_vec(PDUpdate);
 
-- 
2.43.0


From d6c96e6a112c9bb7a0b96400e3be7521e2ef5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 59/74] fix: singular matrices after a correction of the
 inertia are regularized further

---
 src/Optimization/hiopPDPerturbation.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index 26a420e..d7baf51 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -272,8 +272,17 @@ namespace hiop
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
+        if(delta_wx_curr_db_ > 0.) {
+          // the primal regularization was also used, to correct wrong inertia
+          if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+            bret = false;
+            break;
+          }
+          deltas_test_type_ = dttDeltacposDeltawpos;
+          break;
+        }
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
           bret = false;
@@ -296,7 +305,12 @@ namespace hiop
         }
         break;
       case dttNoTest:
-        assert(false && "something went wrong - should not get here");
+        // no test is under way, for example, since it was abandoned because the primal regularization alone did not
+        // correct the inertia and the dual regularization is already in use
+        if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+          bret = false;
+        }
+        break;
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From df1fba08bcda6f1b72ef70b480ac5388c864516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 60/74] fix: the initial iterate of Krylov solvers can be set
 before the first solve

---
 src/LinAlg/hiopKrylovSolver.cpp | 13 +++++++++++--
 src/LinAlg/hiopKrylovSolver.hpp |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..7d4797d 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -89,6 +89,7 @@ namespace hiop {
       ML_opr_{Mleft_opr},
       MR_opr_{Mright_opr},
       x0_{nullptr},
+      x0_val_{0.},
       b_{nullptr}
   {
     if(x0) {
@@ -104,10 +105,18 @@ namespace hiop {
 
   void hiopKrylovSolver::set_x0(const double xval)
   {
+    // also used when the initial iterate is allocated
+    x0_val_ = xval;
     if(x0_) {
       x0_->setToConstant(xval);
     }
   }
+
+  /// True if a scalar the method divides by (or scales with) is zero, too large, or NaN.
+  static inline bool breaks_down(const double v, const double max)
+  {
+    return v == 0. || !(std::abs(v) <= max);
+  }
   
   /*
   * class hiopPCGSolver
@@ -168,7 +177,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
 
   if(nullptr == x0_) {
     x0_ = b->alloc_clone();    //work vectors
-    x0_->setToZero();
+    x0_->setToConstant(x0_val_);
   }
 
   //////////////////////////////////////////////////////////////////
@@ -425,7 +434,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
   if(nullptr == x0_) {
     x0_ = b->alloc_clone();    //work vectors
-    x0_->setToZero();
+    x0_->setToConstant(x0_val_);
   }
 
   //////////////////////////////////////////////////////////////////
diff --git a/src/LinAlg/hiopKrylovSolver.hpp b/src/LinAlg/hiopKrylovSolver.hpp
index 1c0bd2c..4df8603 100644
--- a/src/LinAlg/hiopKrylovSolver.hpp
+++ b/src/LinAlg/hiopKrylovSolver.hpp
@@ -153,6 +153,10 @@ protected:
 
   /// Vector used to save the initial value
   hiopVector* x0_;
+
+  /// Value of the entries of the initial iterate if this is not passed as a vector
+  double x0_val_;
+
   hiopVectorCompoundPD* b_;
 };
 
-- 
2.43.0


From 69f5f706d8e6b900b65fcd755b4c356dab4c182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 61/74] fix: PCG reports the residual of its trivial outcomes
 and clears its message

---
 src/LinAlg/hiopKrylovSolver.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 7d4797d..41f362b 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -158,11 +158,16 @@ bool hiopPCGSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 
 bool hiopPCGSolver::solve(hiopVector* b)
 {
+  std::stringstream().swap(ss_info_);
   // rhs = 0 --> solution = 0
   double n2b = b->twonorm();
   if(n2b == 0.0) {
     flag_ = 0;
     iter_ = 0.;
+    rel_resid_ = 0.;
+    abs_resid_ = 0.;
+    ss_info_ << "PCG converged: actual normResid=" << abs_resid_ << " relResid=" << rel_resid_ 
+             << " iter=" << iter_ << std::endl;
     return true;
   }
 
@@ -200,11 +205,13 @@ bool hiopPCGSolver::solve(hiopVector* b)
   abs_resid_ = normr;
 
   // initial guess is good enough
-  if(normr <= tolb) { 
+  if(normr <= tolb && std::isfinite(tolb)) { 
     b->copyFrom(*xk_);
     flag_ = 0;
     iter_ = 0.;
     rel_resid_ = normr / n2b;
+    ss_info_ << "PCG converged: actual normResid=" << abs_resid_ << " relResid=" << rel_resid_ 
+             << " iter=" << iter_ << std::endl;
     return true;
   }
   
@@ -456,7 +463,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
   abs_resid_ = normr;
       
   // initial guess is good enough
-  if(normr <= tolb) { 
+  if(normr <= tolb && std::isfinite(tolb)) { 
     b->copyFrom(*xk_);
     flag_ = 0;
     iter_ = 0.;
-- 
2.43.0


From 94b5ea78ff57d8c11b243d56b83c7ae324d9e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 62/74] fix: Krylov solvers stop on NaN and count iterations
 within their limit

---
 src/LinAlg/hiopKrylovSolver.cpp | 46 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 41f362b..490a160 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -247,7 +247,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
     rho = res_->dotProductWith(*zk_);
 
     //check for stagnation
-    if((rho == 0) || std::abs(rho) > 1E+20) {
+    if(breaks_down(rho, 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
@@ -257,7 +257,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
       pk_->copyFrom(*zk_);
     } else {
       double beta = rho / rho1;
-      if(beta == 0 || std::abs(beta) > 1E+20) {
+      if(breaks_down(beta, 1E+20)) {
         flag_ = 4;
         iter_ = ii + 1;
         break;
@@ -269,14 +269,14 @@ bool hiopPCGSolver::solve(hiopVector* b)
     A_opr_->times_vec(*qk_, *pk_);
     pq = pk_->dotProductWith(*qk_);
     
-    if(pq <= 0.0 || std::abs(pq) > 1E+20) {
+    if(pq <= 0.0 || breaks_down(pq, 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
     } else {
       alpha = rho / pq;
     }
-    if(std::abs(alpha) > 1E+20) {
+    if(breaks_down(alpha, 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
@@ -326,7 +326,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
     if(abs_resid_ < normrmin) {
       normrmin = abs_resid_;
       xmin_->copyFrom(*xk_);
-      imin = ii;
+      imin = ii + 1;
     }
     if(stagsteps >= maxstagsteps) {
       flag_ = 3;
@@ -348,19 +348,22 @@ bool hiopPCGSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    // the last iterate is returned only if it is better (this is not the case if its residual is NaN)
+    if(!(abs_resid_ < normr_comp)) {
       b->copyFrom(*xmin_);
-      iter_ = imin + 1;
+      iter_ = imin;
       abs_resid_ = normr_comp;
       rel_resid_ = normr_comp / n2b;
     } else {
       b->copyFrom(*xk_);
-      iter_ = ii + 1;
+      if(flag_ == 1) {
+        iter_ = maxit_;
+      }
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
 
-    ss_info_ << "PCG did NOT converged after " << ii+1 << " iters. The solution from iter " 
+    ss_info_ << "PCG did NOT converged after " << (flag_ == 1 ? maxit_ : ii+1) << " iters. The solution from iter " 
              << imin << " was returned." << std::endl;
     ss_info_ << "\t - Error code " << flag_ << "\n\t - Act res=" << abs_resid_ << "n\t - Rel res="
              << rel_resid_ << std::endl;
@@ -496,7 +499,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     rho = rt_->dotProductWith(*res_);
 
     //check for stagnation
-    if((rho == 0) || std::abs(rho) > 1E+40) {
+    if(breaks_down(rho, 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -506,7 +509,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       pk_->copyFrom(*res_);
     } else {
       double beta = rho / rho1 * (alpha / omega);
-      if(beta == 0 || std::abs(beta) > 1E+40) {
+      if(breaks_down(beta, 1E+40)) {
         flag_ = 4;
         iter_ = ii + 1 - 0.5;
         break;
@@ -529,7 +532,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     
     double rtv = rt_->dotProductWith(*v_);
     
-    if(rtv == 0.0 || std::abs(rtv) > 1E+40) {
+    if(breaks_down(rtv, 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -537,7 +540,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     alpha = rho / rtv;
 
-    if(std::abs(alpha) > 1E+20) {
+    if(breaks_down(alpha, 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -577,7 +580,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -609,7 +611,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     double tt = t_->dotProductWith(*t_);
     
-    if(tt == 0.0 || std::abs(tt) > 1E+20) {
+    if(breaks_down(tt, 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
@@ -617,7 +619,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     omega = t_->dotProductWith(*sk_) / tt;
 
-    if(std::abs(omega) > 1E+20) {
+    if(!(std::abs(omega) <= 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
@@ -656,7 +658,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
@@ -692,19 +693,22 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    // the last iterate is returned only if it is better (this is not the case if its residual is NaN)
+    if(!(abs_resid_ < normr_comp)) {
       b->copyFrom(*xmin_);
-      iter_ = imin + 1;
+      iter_ = imin;
       abs_resid_ = normr_comp;
       rel_resid_ = normr_comp / n2b;
     } else {
       b->copyFrom(*xk_);
-      iter_ = ii + 1;
+      if(flag_ == 1) {
+        iter_ = maxit_;
+      }
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
 
-    ss_info_ << "BiCGStab did NOT converged after " << ii+1 << " iters. The solution from iter " 
+    ss_info_ << "BiCGStab did NOT converged after " << (flag_ == 1 ? maxit_ : ii+1) << " iters. The solution from iter " 
              << imin << " was returned." << std::endl;
     ss_info_ << "\t - Error code " << flag_ << "\n\t - Abs res=" << abs_resid_ << "n\t - Rel res="
              << rel_resid_ << std::endl;
-- 
2.43.0


From 8d33fc8537ca9c395923fd0a5f00ba75922eecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 63/74] fix: failed Krylov solves return the better iterate
 with its true residual

---
 src/LinAlg/hiopKrylovSolver.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 490a160..1b9e33f 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -342,7 +342,13 @@ bool hiopPCGSolver::solve(hiopVector* b)
              << " iter=" << iter_ << std::endl;
     b->copyFrom(*xk_);    
   } else {
-    // update residual: b-KKT*xk
+    // the residual of the last iterate, b-KKT*xk, since the recurrences may have lost accuracy
+    A_opr_->times_vec(*res_, *xk_);
+    res_->axpy(-1.0, *b);
+    res_->scale(-1.0);        
+    abs_resid_ = res_->twonorm();
+
+    // residual of the iterate with minimal residual
     A_opr_->times_vec(*res_, *xmin_);
     res_->axpy(-1.0, *b);
     res_->scale(-1.0);        
@@ -687,7 +693,13 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
              << " iter=" << iter_ << std::endl;
     b->copyFrom(*xk_);    
   } else {
-    // update residual: b-KKT*xk
+    // the residual of the last iterate, b-KKT*xk, since the recurrences may have lost accuracy
+    A_opr_->times_vec(*res_, *xk_);
+    res_->axpy(-1.0, *b);
+    res_->scale(-1.0);        
+    abs_resid_ = res_->twonorm();
+
+    // residual of the iterate with minimal residual
     A_opr_->times_vec(*res_, *xmin_);
     res_->axpy(-1.0, *b);
     res_->scale(-1.0);        
-- 
2.43.0


From 95e77fe6a0163f3bbdba8e66b3c1e40da7c25444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 64/74] fix: singular complex sparse systems are reported by
 the UMFPACK linear solver

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 8ef8c94..09c5805 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -120,7 +120,8 @@ namespace hiop
 
     status = umfpack_zi_numeric(m_colptr, m_rowidx, m_vals, (double*) NULL,
 				m_symbolic, &m_numeric, m_control, m_info);
-    if(status<0) {
+    //a singular matrix is only a warning (>0) for UMFPACK 
+    if(status<0 || status==UMFPACK_WARNING_singular_matrix) {
       umfpack_zi_report_info (m_control, m_info) ;
       umfpack_zi_report_status (m_control, status) ;
       printf("[%d] UMFPACK: error in the numeric factorization: status=%d\n",
-- 
2.43.0


From 9cbf8df6f7ef51cedfdd307028b16b3d6d01e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 65/74] fix: a Kron reduction object can reduce more than one
 network

---
 src/Utils/hiopKronReduction.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/hiopKronReduction.cpp b/src/Utils/hiopKronReduction.cpp
index 05e6a46..8116c95 100644
--- a/src/Utils/hiopKronReduction.cpp
+++ b/src/Utils/hiopKronReduction.cpp
@@ -61,7 +61,6 @@ namespace hiop
 
       //Ybb\Yba
       //hiopMatrixComplexDense Ybbinv_Yba(Yba_->m(), Yba_->n());
-      assert(map_nonaux_to_aux_==NULL);
       delete map_nonaux_to_aux_;
       map_nonaux_to_aux_ = new hiopMatrixComplexDense(Yba->m(), Yba->n());
       linsolver_->solve(*Yba, *map_nonaux_to_aux_);
-- 
2.43.0


From cf17f3c4e927b497e5870d907e1d3282cf35482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 66/74] fix: complex dense matrices without columns scale the
 whole output in timesVec

---
 src/LinAlg/hiopMatrixComplexDense.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixComplexDense.cpp b/src/LinAlg/hiopMatrixComplexDense.cpp
index ec3dbea..481e0ba 100644
--- a/src/LinAlg/hiopMatrixComplexDense.cpp
+++ b/src/LinAlg/hiopMatrixComplexDense.cpp
@@ -160,8 +160,10 @@ namespace hiop
 	     xa, &incx_y, &beta, ya, &incx_y );
     } else {
       if( MM != 0 ) {
-        int one=1; 
-        ZSCAL(&NN, &beta, ya, &one);
+        // as in ZGEMV, the input is not used when beta is zero
+        for(int i=0; i<MM; i++) {
+          ya_[i] = beta_in==0. ? 0. : beta_in*ya_[i];
+        }
       } else {
         assert(MM==0);
         return;
-- 
2.43.0


From 4cb5e8f609ac589915676e8de79a05a4c068a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 67/74] fix: slices of complex symmetric matrices contain all
 their entries

---
 src/LinAlg/hiopMatrixComplexSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
index ec322a3..0c828d3 100644
--- a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
@@ -330,7 +330,7 @@ namespace hiop
       while(src_itnz<src_nnz && src_i[src_itnz]<row) 
 	src_itnz++;
 
-      for(int kj=ki; kj<ncols; kj++) {
+      for(int kj=0; kj<ncols; kj++) {
 	const int& col= col_idxs[kj];
 
 	if(col<row) continue;
-- 
2.43.0


From 8afc4a269ab1c75eff410bc0b29f7c58cba98acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 68/74] fix: the quasi-Newton matrix agrees with its inverse
 for short steps

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index 8dcd1be..3fd5680 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1007,10 +1007,11 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
     sk->copyFrom(St_->local_data() + k*n_local);
     double skTyk=yk->dotProductWith(*sk);
     
-    if(skTyk < std::numeric_limits<double>::epsilon()) {
+    // the pair passed the (relative) curvature test, but s_k^T*y_k may still underflow
+    if(skTyk < std::numeric_limits<double>::min()) {
       nlp->log->printf(hovLinAlgScalars, "hiopHessianLowRank: ||s_k^T*y_k||=%12.6e too small..."
-                       " set it to machine precision = %12.6e \n", skTyk, std::numeric_limits<double>::epsilon());
-      skTyk = std::numeric_limits<double>::epsilon();
+                       " set it to %12.6e \n", skTyk, std::numeric_limits<double>::min());
+      skTyk = std::numeric_limits<double>::min();
     }
 
     if(a[k] == nullptr && b[k] == nullptr) {
-- 
2.43.0


From 8f23b18414f1439388a99bac59840a9de1f9850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 69/74] fix: the C interface passes the new-point flag to
 objective and gradient

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From 5f59269a85c8f0cabfd38ace66ba2a5439032cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 70/74] fix: timesMatTrans of mixed dense-sparse matrices
 applies alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From 8d8d0d156a1c1da0c74e2c3c239db02d7217da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 71/74] fix: startingAtAddSubDiagonalToStartingAt adds from
 vec_start on

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..ac7b9f7 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1022,8 +1022,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
                                                                       int num_elems/*=-1*/) const
 {
   hiopVectorPar& vd = dynamic_cast<hiopVectorPar&>(vec_dest);
-  if(num_elems<0) num_elems = vd.get_size();
-  assert(num_elems<=vd.get_size());
+  if(num_elems<0) num_elems = vd.get_size() - vec_start;
+  assert(vec_start>=0 && vec_start+num_elems<=vd.get_size());
 
   assert(diag_src_start>=0 && diag_src_start+num_elems<=this->nrows_);
   double* v = vd.local_data();
@@ -1032,8 +1032,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
     const int row = iRow_[itnz];
     if(row==jCol_[itnz]) {
       if(row>=diag_src_start && row<diag_src_start+num_elems) {
-        assert(row+vec_start<vd.get_size());
-        v[vec_start+row] += alpha * this->values_[itnz];
+        assert(row-diag_src_start+vec_start<vd.get_size());
+        v[vec_start+row-diag_src_start] += alpha * this->values_[itnz];
       }
     }
   }
-- 
2.43.0


From 7571f4941d183087ae590b752965c964c5df62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 72/74] fix: CSR conversion maps extra diagonals to their
 sorted positions

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index ac7b9f7..f84e292 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1302,7 +1302,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
       
       int old_nnz_idx = index_convert_extra_Diag2CSR_temp[i];
       if(old_nnz_idx!=-1){
-        int old_nnz_in_row = ind_temp[old_nnz_idx - csr_kRowPtr[i]];
+        int old_nnz_in_row = old_nnz_idx - csr_kRowPtr[i];
         std::vector<int>::iterator p = std::find(ind_temp.begin(),ind_temp.end(),old_nnz_in_row);
         assert(p != ind_temp.end());        
         int new_nnz_idx = (int) std::distance (ind_temp.begin(), p) + csr_kRowPtr[i];
-- 
2.43.0


From 090293c735297e0b8264dac39f9641ecd671b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 73/74] fix: sparse matrices discard row starts when the
 pattern changes

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 13 +++++++++++++
 src/LinAlg/hiopMatrixSparseTriplet.hpp |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index f84e292..0da5dff 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -219,6 +219,7 @@ void hiopMatrixSparseTriplet::copySubDiagonalFrom(const index_type& start_on_des
                                                   const index_type& start_on_nnz_idx,
                                                   double scal)
 {
+  discardRowStarts();
   const hiopVector& vd = dynamic_cast<const hiopVector&>(d_in);
   assert(num_elems<=vd.get_size());
   assert(start_on_dest_diag>=0 && start_on_dest_diag+num_elems<=this->nrows_);
@@ -237,6 +238,7 @@ void hiopMatrixSparseTriplet::setSubDiagonalTo(const index_type& start_on_dest_d
                                                const double& c,
                                                const index_type& start_on_nnz_idx)
 {
+  discardRowStarts();
   assert(start_on_dest_diag>=0 && start_on_dest_diag+num_elems<=this->nrows_);
 
   for(auto row_src=0; row_src<num_elems; row_src++) {
@@ -563,6 +565,7 @@ void hiopMatrixSparseTriplet::copyRowsFrom(const hiopMatrix& src_gen,
                                            const index_type* rows_idxs,
                                            size_type n_rows)
 {
+  discardRowStarts();
   const hiopMatrixSparseTriplet& src = dynamic_cast<const hiopMatrixSparseTriplet&>(src_gen);
   assert(this->m() == n_rows);
   assert(this->numberOfNonzeros() <= src.numberOfNonzeros());
@@ -622,6 +625,7 @@ void hiopMatrixSparseTriplet::copyRowsBlockFrom(const hiopMatrix& src_gen,
                                                 const index_type& rows_dest_idx_st, 
                                                 const size_type& dest_nnz_st)
 {
+  discardRowStarts();
   const hiopMatrixSparse& src = dynamic_cast<const hiopMatrixSparse&>(src_gen);
   assert(this->numberOfNonzeros() >= src.numberOfNonzeros());
   assert(this->n() >= src.n());
@@ -673,6 +677,7 @@ copyDiagMatrixToSubblock(const double& src_val,
                          const index_type& dest_row_st, const index_type& col_dest_st,
                          const size_type& dest_nnz_st, const size_type &nnz_to_copy)
 {
+  discardRowStarts();
   assert(this->numberOfNonzeros() >= nnz_to_copy+dest_nnz_st);
   assert(this->n() >= nnz_to_copy);
   assert(nnz_to_copy + dest_row_st <= this->m());
@@ -692,6 +697,7 @@ copyDiagMatrixToSubblock_w_pattern(const hiopVector& dx,
                                    const size_type& dest_nnz_st, const int &nnz_to_copy,
                                    const hiopVector& ix)
 {
+  discardRowStarts();
   assert(this->numberOfNonzeros() >= nnz_to_copy+dest_nnz_st);
   assert(this->n() >= nnz_to_copy);
   assert(nnz_to_copy + dest_row_st <= this->m());
@@ -822,6 +828,7 @@ void hiopMatrixSparseTriplet::set_Jac_FR(const hiopMatrixSparse& Jac_c,
     
   // extend Jac to the p and n parts --- sparsity
   if(iJacS != nullptr && jJacS != nullptr) {
+    discardRowStarts();
     int k = 0;
   
     // Jac for c(x) - p + n
@@ -1045,6 +1052,7 @@ void hiopMatrixSparseTriplet::copySubmatrixFrom(const hiopMatrix& src_gen,
                                                 const size_type& dest_nnz_st,
                                                 const bool offdiag_only)
 {
+  discardRowStarts();
   const hiopMatrixSparseTriplet& src = dynamic_cast<const hiopMatrixSparseTriplet&>(src_gen);
   auto m_rows = src.m();
   auto n_cols = src.n();
@@ -1079,6 +1087,7 @@ void hiopMatrixSparseTriplet::copySubmatrixFromTrans(const hiopMatrix& src_gen,
                                                      const size_type& dest_nnz_st,
                                                      const bool offdiag_only)
 {
+  discardRowStarts();
   const hiopMatrixSparseTriplet& src = dynamic_cast<const hiopMatrixSparseTriplet&>(src_gen);
   auto m_rows = src.n();
   auto n_cols = src.m();
@@ -1114,6 +1123,7 @@ void hiopMatrixSparseTriplet::setSubmatrixToConstantDiag_w_colpattern(const doub
                                                                       const size_type& nnz_to_copy,
                                                                       const hiopVector& ix)
 {
+  discardRowStarts();
   assert(ix.get_local_size() + dest_row_st <= this->m());
   assert(nnz_to_copy + dest_col_st <= this->n() );
   assert(dest_nnz_st + nnz_to_copy <= this->numberOfNonzeros());
@@ -1144,6 +1154,7 @@ void hiopMatrixSparseTriplet::setSubmatrixToConstantDiag_w_rowpattern(const doub
                                                                       const size_type& nnz_to_copy,
                                                                       const hiopVector& ix)
 {
+  discardRowStarts();
   assert(nnz_to_copy + dest_row_st <= this->m());
   assert(ix.get_local_size() + dest_col_st <= this->n() );
   assert(dest_nnz_st + nnz_to_copy <= this->numberOfNonzeros());
@@ -1321,6 +1332,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
 /*  sort by first row and then col */
 void hiopMatrixSparseTriplet::sort()
 {
+  discardRowStarts();
   size_type nnz = numberOfNonzeros();
 
   // sort the nonzeros
@@ -1403,6 +1415,7 @@ void hiopMatrixSymSparseTriplet::set_Hess_FR(const hiopMatrixSparse& Hess,
   // extend Hess to the p and n parts --- sparsity
   // sparsity may change due to te new obj term zeta*DR^2.*(x-x_ref)
   if(iHSS != nullptr && jHSS != nullptr) {
+    discardRowStarts();
     int k = 0;
   
     const int* Hess_row = Hess_base.i_row();
diff --git a/src/LinAlg/hiopMatrixSparseTriplet.hpp b/src/LinAlg/hiopMatrixSparseTriplet.hpp
index b617979..4b04286 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.hpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.hpp
@@ -350,6 +350,12 @@ protected:
   mutable RowStartsInfo* row_starts_;
 protected:
   RowStartsInfo* allocAndBuildRowStarts() const;
+  /// @brief Discards the row starts; to be called when the sparsity pattern changes
+  void discardRowStarts()
+  {
+    delete row_starts_;
+    row_starts_ = NULL;
+  }
 private:
   hiopMatrixSparseTriplet()
     : hiopMatrixSparse(0, 0, 0), iRow_(NULL), jCol_(NULL), values_(NULL)
-- 
2.43.0


From d773e696aa8f1616282dfd76f7e35427a885d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:24 +0000
Subject: [PATCH 74/74] fix: CSR matrices without nonzeros and repeated
 symbolic phases are well defined

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 31 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..de7cbb0 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -86,9 +86,8 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq(size_type rows, size_type cols, s
   if(rows==0 || cols==0) {
     assert(nnz_==0 && "number of nonzeros must be zero when any of the dimensions are 0");
     nnz_ = 0;
-  } else {
-    alloc();
   }
+  alloc();
 }
 
 hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
@@ -113,7 +112,8 @@ void hiopMatrixSparseCSRSeq::alloc()
   assert(jcolind_ == nullptr);
   assert(values_ == nullptr);
 
-  irowptr_ = new index_type[nrows_+1];
+  //no nonzeros in any of the rows until the sparsity pattern is computed
+  irowptr_ = new index_type[nrows_+1]{};
   jcolind_ = new index_type[nnz_];
   values_ = new double[nnz_];
 
@@ -812,7 +812,7 @@ void hiopMatrixSparseCSRSeq::times_mat_numeric(double beta,
 
 void hiopMatrixSparseCSRSeq::form_from_symbolic(const hiopMatrixSparseTriplet& M)
 {
-  if(M.m()!=nrows_ || M.n()!=ncols_ || M.numberOfNonzeros()!=nnz_) {
+  if(irowptr_==nullptr || M.m()!=nrows_ || M.n()!=ncols_ || M.numberOfNonzeros()!=nnz_) {
     dealloc();
     
     nrows_ = M.m();
@@ -824,6 +824,7 @@ void hiopMatrixSparseCSRSeq::form_from_symbolic(const hiopMatrixSparseTriplet& M
 
   assert(nnz_>=0);
   if(nnz_<=0) {
+    std::fill(irowptr_, irowptr_+nrows_+1, 0);
     return;
   }
   
@@ -876,7 +877,7 @@ void hiopMatrixSparseCSRSeq::form_from_numeric(const hiopMatrixSparseTriplet& M)
 
 void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparseTriplet& M)
 {
-  if(M.m()!=ncols_ || M.n()!=nrows_ || M.numberOfNonzeros()!=nnz_) {
+  if(irowptr_==nullptr || M.m()!=ncols_ || M.n()!=nrows_ || M.numberOfNonzeros()!=nnz_) {
     dealloc();
     
     nrows_ = M.n();
@@ -886,8 +887,13 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
     alloc();
   }
 
+  delete[] row_starts_;
+  row_starts_ = nullptr;
+
   assert(nnz_>=0);
   if(nnz_<=0) {
+    std::fill(irowptr_, irowptr_+nrows_+1, 0);
+    row_starts_ = new index_type[nrows_]{};
     return;
   }
   
@@ -967,6 +973,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseT
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+  if(nnz_<=0) {
+    return;
+  }
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
@@ -1007,7 +1016,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseT
 void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparseCSR& M_in)
 {
   auto& M = dynamic_cast<const hiopMatrixSparseCSRSeq&>(M_in);
-  if(M.m()!=ncols_ || M.n()!=nrows_ || M.numberOfNonzeros()!=nnz_) {
+  if(irowptr_==nullptr || M.m()!=ncols_ || M.n()!=nrows_ || M.numberOfNonzeros()!=nnz_) {
     dealloc();
     
     nrows_ = M.n();
@@ -1017,8 +1026,13 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
     alloc();
   }
 
+  delete[] row_starts_;
+  row_starts_ = nullptr;
+
   assert(nnz_>=0);
   if(nnz_<=0) {
+    std::fill(irowptr_, irowptr_+nrows_+1, 0);
+    row_starts_ = new index_type[nrows_]{};
     return;
   }
   
@@ -1101,6 +1115,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseC
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+  if(nnz_<=0) {
+    return;
+  }
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
@@ -1148,7 +1165,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseC
 void hiopMatrixSparseCSRSeq::form_diag_from_symbolic(const hiopVector& D)
 {
   int m = D.get_size();
-  if(m!=ncols_ || m!=nrows_ || m!=nnz_) {
+  if(irowptr_==nullptr || m!=ncols_ || m!=nrows_ || m!=nnz_) {
     dealloc();
     
     nrows_ = m;
-- 
2.43.0

