From 7b395d4dab208e31c4ea0bf636357be4e4555651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 01/52] fix: reduce global and/or over bool, not over 4 bytes
 of a 1 byte buffer

---
 include/qdp_parscalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7e91f24..6dbbb84 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -195,7 +195,7 @@ namespace QDPInternal
   //! Global And
   inline void globalCheckAnd(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout & *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout && *(bool*)in;
   }
 
   //! Wrapper to get a functional global And
@@ -209,7 +209,7 @@ namespace QDPInternal
   //! Global Or
   inline void globalCheckOr(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout | *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout || *(bool*)in;
   }
 
   //! Wrapper to get a functional global Or
-- 
2.43.0


From f3d23e1882e39f600610fe93d5b2e02485325de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 02/52] fix: isnormal of a matrix must test isnormal of its
 elements, not isinf

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..722831b 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -807,7 +807,7 @@ isnormal(const PMatrix<T1,N,C>& l)
 
   for(int i=0; i < N; ++i)
     for(int j=0; j < N; ++j)
-      d &= isinf(l.elem(i,j));
+      d &= isnormal(l.elem(i,j));
 
   return d;
 }
-- 
2.43.0


From 9905baf0d6f341e607685e67432fe4eb44a069fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 03/52] fix: random field fill advances the generator even when
 a node or thread has no selected site

The seed after a fill was taken from the last site a thread handled.  With an
empty subset (scalar), a thread without sites (scalar, OpenMP) the new seed was
an uninitialised variable; with no selected site on a node (parscalar) that node
kept the old seed and the nodes went out of step.
---
 include/qdp_parscalar_specific.h | 36 +++++++++++++++-----------------
 include/qdp_scalar_specific.h    | 30 +++++++++++++-------------
 2 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 6dbbb84..7296ab2 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -520,29 +520,27 @@ random(OLattice<T>& d, const Subset& s)
 	const int *tab = s.siteTable().slice();
 	const int nodeSites = s.numSiteTable();
 
-#pragma omp parallel
+	// The new global seed does not depend on which sites are filled: it is the
+	// same when the subset has no site on this node.
+	Seed new_seed = RNG::ran_seed;
 	{
-		Seed seed;
-		Seed skewed_seed;
-
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early!
-		for(int j=0; j < nodeSites; ++j)
-		{
-			int i = tab[j];
-			seed = RNG::ran_seed;
+		T dummy;
+		Seed skewed_seed = RNG::ran_seed;
+		fill_random(dummy, new_seed, skewed_seed, RNG::ran_mult_n);
+	}
 
-			skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
-			fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
-		}
+#pragma omp parallel for
+	for(int j=0; j < nodeSites; ++j)
+	{
+		int i = tab[j];
+		Seed seed = RNG::ran_seed;
+		Seed skewed_seed;
 
-		int myId = qdpThreadNum();
-		if( myId < nodeSites ) {
-#pragma omp critical (random)
-		{
-			RNG::ran_seed = seed;	 // The seed from any site is the same as the new global seed
-		}
-		}
+		skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
+		fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
 	}
+
+	RNG::ran_seed = new_seed;
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..dc46457 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -341,25 +341,25 @@ random(OLattice<T>& d, const Subset& s)
   // Grab table array
   const int *tab = s.siteTable().slice();
 
-#pragma omp parallel 
+  // The new global seed does not depend on which sites are filled: it is the
+  // same when the subset, or the share of a thread, has no site at all.
+  Seed new_seed = RNG::ran_seed;
   {
-    Seed seed;
-    Seed skewed_seed;
-
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
-    for(int j=0; j < s.numSiteTable(); ++j) {
-      int i = tab[j];
-      seed = RNG::ran_seed;
-      skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
-      fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
-    }
+    T dummy;
+    Seed skewed_seed = RNG::ran_seed;
+    fill_random(dummy, new_seed, skewed_seed, RNG::ran_mult_n);
+  }
 
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
+#pragma omp parallel for
+  for(int j=0; j < s.numSiteTable(); ++j) {
+    int i = tab[j];
+    Seed seed = RNG::ran_seed;
+    Seed skewed_seed;
+    skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
+    fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
   }
 
+  RNG::ran_seed = new_seed;
 }
 
 
-- 
2.43.0


From c2f23cf6f885fa678eeeb9dcaf8fdbc7940f5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 04/52] fix: RANNYU keeps a seed set before the first draw and
 returns the default state before it

---
 lib/qdp_rannyu.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..3350450 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -53,20 +53,29 @@ namespace QDP
     }
 
 
+    namespace
+    {
+      // Initialize the global seed if needed
+      void init_seed()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
+    }
+
+
     //! The RNG. Has side effects.
     double random()
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
+      init_seed();
 
       __rand(ran, ran_seed);
       return ran;
@@ -83,12 +92,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      init_seed();
       return ran_seed;
     }
 
-- 
2.43.0


From 7c61bc832ab0389d59943b9ec46caef341bc159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 05/52] fix: stop when a QMP collective reports failure instead
 of using its result

---
 include/qdp_parscalar_specific.h | 33 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7296ab2..a68c728 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -55,6 +55,13 @@ namespace QDPInternal
 		}
 	}
 
+	//! A failed collective has no usable result: stop here rather than carry on with it
+	inline void checkQMP(QMP_status_t status)
+	{
+		if (status != QMP_SUCCESS)
+			QDP_error_exit("QMP operation failed: %s", QMP_error_string(status));
+	}
+
 	//! Unsigned accumulate
 	inline void sumAnUnsigned(void* inout, void* in)
 	{
@@ -65,26 +72,26 @@ namespace QDPInternal
 	inline void globalSumArray(unsigned int *dest, int len)
 	{
 		for(int i=0; i < len; i++, dest++)
-			QMP_binary_reduction(dest, sizeof(unsigned int), sumAnUnsigned);
+			checkQMP(QMP_binary_reduction(dest, sizeof(unsigned int), sumAnUnsigned));
 	}
 
 	//! Low level hook to QMP_global_sum
 	inline void globalSumArray(int *dest, int len)
 	{
 		for(int i=0; i < len; i++, dest++)
-			QMP_sum_int(dest);
+			checkQMP(QMP_sum_int(dest));
 	}
 
 	//! Low level hook to QMP_global_sum
 	inline void globalSumArray(float *dest, int len)
 	{
-		QMP_sum_float_array(dest, len);
+		checkQMP(QMP_sum_float_array(dest, len));
 	}
 
 	//! Low level hook to QMP_global_sum
 	inline void globalSumArray(double *dest, int len)
 	{
-		QMP_sum_double_array(dest, len);
+		checkQMP(QMP_sum_double_array(dest, len));
 	}
 
 	//! Global sum on a multi1d
@@ -142,20 +149,20 @@ namespace QDPInternal
 #if 0 
     QDPIO::cout << "Using simple sum_double" << endl;
 #endif
-    QMP_sum_double(&dest);
+    checkQMP(QMP_sum_double(&dest));
   }
 
 
   //! Low level hook to QMP_max_double
   inline void globalMaxValue(float* dest)
   {
-    QMP_max_float(dest);
+    checkQMP(QMP_max_float(dest));
   }
 
   //! Low level hook to QMP_max_double
   inline void globalMaxValue(double* dest)
   {
-    QMP_max_double(dest);
+    checkQMP(QMP_max_double(dest));
   }
 
 
@@ -172,13 +179,13 @@ namespace QDPInternal
   //! Low level hook to QMP_min_float
   inline void globalMinValue(float* dest)
   {
-    QMP_min_float(dest);
+    checkQMP(QMP_min_float(dest));
   }
 
   //! Low level hook to QMP_min_double
   inline void globalMinValue(double* dest)
   {
-    QMP_min_double(dest);
+    checkQMP(QMP_min_double(dest));
   }
 
 
@@ -201,7 +208,7 @@ namespace QDPInternal
   //! Wrapper to get a functional global And
   inline void globalAnd(bool& dest)
   {
-    QMP_binary_reduction(&dest, sizeof(bool), globalCheckAnd);
+    checkQMP(QMP_binary_reduction(&dest, sizeof(bool), globalCheckAnd));
   }
 
 
@@ -215,14 +222,14 @@ namespace QDPInternal
   //! Wrapper to get a functional global Or
   inline void globalOr(bool& dest)
   {
-    QMP_binary_reduction(&dest, sizeof(bool), globalCheckOr);
+    checkQMP(QMP_binary_reduction(&dest, sizeof(bool), globalCheckOr));
   }
 
   //! Broadcast from primary node to all other nodes
   template<class T>
   inline void broadcast(T& dest)
   {
-    QMP_broadcast((void *)&dest, sizeof(T));
+    checkQMP(QMP_broadcast((void *)&dest, sizeof(T)));
   }
 
   //! Broadcast a string from primary node to all other nodes
@@ -231,7 +238,7 @@ namespace QDPInternal
   //! Broadcast from primary node to all other nodes
   inline void broadcast(void* dest, size_t nbytes)
   {
-    QMP_broadcast(dest, nbytes);
+    checkQMP(QMP_broadcast(dest, nbytes));
   }
 
   //! Broadcast a string from primary node to all other nodes
-- 
2.43.0


From f818c59758258c4156920c787e43ce86ae510de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 06/52] fix: sendToWait and recvFromWait check the message
 handles and the wait status

---
 lib/qdp_parscalar_specific.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 3298c3b..406619c 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -331,12 +331,18 @@ namespace QDP {
 #endif
 
       QMP_msgmem_t request_msg = QMP_declare_msgmem(send_buf, count);
+      if (request_msg == (QMP_msgmem_t)NULL)
+	QDP_error_exit("sendToWait: QMP_declare_msgmem failed\n");
+
       QMP_msghandle_t request_mh = QMP_declare_send_to(request_msg, dest_node, 0);
+      if (request_mh == (QMP_msghandle_t)NULL)
+	QDP_error_exit("sendToWait: QMP_declare_send_to failed\n");
 
       if (QMP_start(request_mh) != QMP_SUCCESS)
 	QDP_error_exit("sendToWait failed\n");
 
-      QMP_wait(request_mh);
+      if (QMP_wait(request_mh) != QMP_SUCCESS)
+	QDP_error_exit("sendToWait: wait failed\n");
 
       QMP_free_msghandle(request_mh);
       QMP_free_msgmem(request_msg);
@@ -355,12 +361,18 @@ namespace QDP {
 #endif
 
       QMP_msgmem_t request_msg = QMP_declare_msgmem(recv_buf, count);
+      if (request_msg == (QMP_msgmem_t)NULL)
+	QDP_error_exit("recvFromWait: QMP_declare_msgmem failed\n");
+
       QMP_msghandle_t request_mh = QMP_declare_receive_from(request_msg, srce_node, 0);
+      if (request_mh == (QMP_msghandle_t)NULL)
+	QDP_error_exit("recvFromWait: QMP_declare_receive_from failed\n");
 
       if (QMP_start(request_mh) != QMP_SUCCESS)
 	QDP_error_exit("recvFromWait failed\n");
 
-      QMP_wait(request_mh);
+      if (QMP_wait(request_mh) != QMP_SUCCESS)
+	QDP_error_exit("recvFromWait: wait failed\n");
 
       QMP_free_msghandle(request_mh);
       QMP_free_msgmem(request_msg);
-- 
2.43.0


From 443699b37fdc64bf23ad4aecb1dce55426cbc493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 07/52] fix: Layout::create stops when QMP_layout_grid fails

---
 lib/qdp_parscalar_layout.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8f925a3..e36351f 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -278,7 +278,8 @@ namespace QDP
 	nrow[i] = _layout.nrow[i] / min_dim[i];
 
       int* nrow_slice=const_cast<int*>(nrow.slice());
-      QMP_layout_grid(nrow_slice, Nd);
+      if (QMP_layout_grid(nrow_slice, Nd) != QMP_SUCCESS)
+	QDP_error_exit("Layout::create - QMP_layout_grid failed");
 
 
       // Pull out useful stuff
-- 
2.43.0


From ba5da1e81b7a18d5dc847b08bd5f5f8352d314de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 08/52] fix: report start-up failures on std::cerr, QDPIO::cerr
 is not open yet

---
 lib/qdp_parscalar_init.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_parscalar_init.cc b/lib/qdp_parscalar_init.cc
index d8b520f..2dbb9b2 100644
--- a/lib/qdp_parscalar_init.cc
+++ b/lib/qdp_parscalar_init.cc
@@ -174,7 +174,7 @@ namespace QDP {
 				int n = strlen((*argv)[++i]);
 				if (n >= maxlen)
 				{
-					QDPIO::cerr << __func__ << ": rtinode name too long" << std::endl;
+					std::cerr << __func__ << ": rtinode name too long" << std::endl;
 					QDP_abort(1);
 				}
 				sscanf((*argv)[i], "%s", rtinode);
@@ -190,7 +190,7 @@ namespace QDP {
 			
 			if (i >= *argc) 
 			{
-				QDPIO::cerr << __func__ << ": missing argument at the end" << std::endl;
+				std::cerr << __func__ << ": missing argument at the end" << std::endl;
 				QDP_abort(1);
 			}
 		}
@@ -215,7 +215,7 @@ namespace QDP {
 			QMP_thread_level_t prv;
 			if (QMP_init_msg_passing(argc, argv, QMP_THREAD_MULTIPLE, &prv) != QMP_SUCCESS)
 			{
-				QDPIO::cerr << __func__ << ": QMP_init_msg_passing failed" << std::endl;
+				std::cerr << __func__ << ": QMP_init_msg_passing failed" << std::endl;
 				QDP_abort(1);
 			}
 		}
@@ -227,7 +227,7 @@ namespace QDP {
 		if (setGeomP)
 			if (QMP_declare_logical_topology(logical_geom.slice(), Nd) != QMP_SUCCESS)
 			{
-				QDPIO::cerr << __func__ << ": QMP_declare_logical_topology failed" << std::endl;
+				std::cerr << __func__ << ": QMP_declare_logical_topology failed" << std::endl;
 				QDP_abort(1);
 			}
 		
-- 
2.43.0


From ed5cb0d28d177a7415c11143118aae035d7c262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 09/52] fix: define the declared << operators for char of
 TextWriter and BinaryWriter

---
 lib/qdp_io.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..674b85e 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -292,6 +292,12 @@ namespace QDP
     return txt;
   }
 
+  TextWriter& operator<<(TextWriter& txt, char output)
+  {
+    txt.write(output);
+    return txt;
+  }
+
   TextWriter& operator<<(TextWriter& txt, int output)
   {
     txt.write(output);
@@ -1282,6 +1288,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From e3eaa716f0c1b50664ac418033896b3fa1ce6a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 10/52] fix: binary buffer streams opened from a string start
 with a zero checksum

---
 lib/qdp_io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 674b85e..72ca88c 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -929,6 +929,7 @@ namespace QDP
 
   void BinaryBufferReader::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1365,6 +1366,7 @@ namespace QDP
 
   void BinaryBufferWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1558,6 +1560,7 @@ namespace QDP
 
   void BinaryBufferReaderWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
-- 
2.43.0


From 7cbe588616b895f3413392178d9a8a46094c1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 11/52] fix: the clear-to-send message of the lattice writers
 no longer overruns short buffers

---
 lib/qdp_parscalar_specific.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 406619c..845d2ab 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -412,7 +412,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;   // recv_buf can be shorter than an int
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -466,7 +467,8 @@ namespace QDP {
 
     // Send nodes must wait for a ready signal from the master node
     // to prevent message pileups on the master node
-    QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+    int ready = 0;   // recv_buf can be shorter than an int
+    QDPInternal::clearToSend(&ready,sizeof(int),node);
   
     // Copy to buffer: be really careful since max(linear) could vary among nodes
     if (Layout::nodeNumber() == node)
@@ -536,7 +538,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;   // recv_buf can be shorter than an int
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -880,7 +883,8 @@ namespace QDP {
 	// to prevent message pileups on the master node
 	if (node != old_node){
 	  // On non-grid machines, use a clear-to-send like protocol
-	  QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	  int ready = 0;   // recv_buf can be shorter than an int
+	  QDPInternal::clearToSend(&ready,sizeof(int),node);
 	  old_node = node;}
     
 	// Copy to buffer: be really careful since max(linear) could vary among nodes
-- 
2.43.0


From da0312114d787c66eead1b6101f4e24822e53ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 12/52] fix: binary reads that end early give zero elements,
 not uninitialised lengths and data

---
 lib/qdp_io.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 72ca88c..6f71de4 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -717,6 +717,16 @@ namespace QDP
     QDPInternal::broadcast((void*)input, size*nmemb);
   }
 
+  // Read elements from a stream. Elements that are missing or incomplete are set to
+  // zero: the stream reports the failure, but lengths read this way are still used.
+  static void readElements(std::istream& is, char* input, size_t size, size_t nmemb)
+  {
+    is.read(input, size*nmemb);
+
+    size_t done = is.fail() ? is.gcount() / size * size : size*nmemb;
+    std::fill(input + done, input + size*nmemb, 0);
+  }
+
   // Read array from the primary node
   void BinaryReader::readArrayPrimaryNode(char* input, size_t size, size_t nmemb)
   {
@@ -724,7 +734,7 @@ namespace QDP
     {
       // Read
       // By default, we expect all data to be in big-endian
-      getIstream().read(input, size*nmemb);
+      readElements(getIstream(), input, size, nmemb);
       internalChecksum() = QDPUtil::crc32(internalChecksum(), input, size*nmemb);
 
       if (! QDPUtil::big_endian())
@@ -743,7 +753,7 @@ namespace QDP
     {
       // Read
       // By default, we expect all data to be in big-endian
-      getIstream().read(input, size*nmemb);
+      readElements(getIstream(), input, size, nmemb);
      // internalChecksum() = QDPUtil::crc32(internalChecksum(), input, size*nmemb);
 
       if (QDPUtil::big_endian())
@@ -763,7 +773,7 @@ namespace QDP
     {
       // Read
       // By default, we expect all data to be in big-endian
-      getIstream().read(input, size*nmemb);
+      readElements(getIstream(), input, size, nmemb);
      // internalChecksum() = QDPUtil::crc32(internalChecksum(), input, size*nmemb);
 
       if (QDPUtil::big_endian())
-- 
2.43.0


From a63f703ee49898da4659dac806783c68705b2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 13/52] fix: multiNd without sizes is empty instead of reading
 beyond its size array

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..e4d27ca 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1043,7 +1043,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;   // no sizes, no elements
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From e945a6b8279863c59243a42c77001dba33f36c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 14/52] fix: gauge archives with three stored rows carry the
 datatype 4D_SU3_GAUGE_3x3

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 6706acf..5b57557 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -621,7 +621,7 @@ static void writeArchivHeader(BinaryWriter& cfg_out, const ArchivGauge_t& header
   head << "LINK_TRACE = " << header.link << "\n"
        << "PLAQUETTE = " << header.w_plaq << "\n";
 
-  head << "DATATYPE = 4D_SU3_GAUGE\n"
+  head << "DATATYPE = " << (header.mat_size == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE") << "\n"
        << "HDR_VERSION = 1.0\n"
        << "STORAGE_FORMAT = 1.0\n";
 
-- 
2.43.0


From aedb8e4fa98f82059a4b24ecb1f22726fedb9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 15/52] fix: gauge archive reader understands the boundary
 conditions the writer writes

---
 lib/qdp_iogauge.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 5b57557..0fef12e 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -420,6 +420,20 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
       
       header.boundary[dd-1] = itmp;
     }
+    else if ( sscanf(line.c_str(), "BOUNDARY_%d", &dd) == 1 ) 
+    {
+      // The form written by writeArchiv and used by the archive
+      if (dd < 1 || dd > Nd)
+      {
+	QDPIO::cerr << __func__ << ": dimension number out of bounds" << std::endl;
+	QDP_abort(1);
+      }
+      
+      if ( value == std::string("PERIODIC") )
+	header.boundary[dd-1] = 1;
+      else if ( value == std::string("ANTIPERIODIC") )
+	header.boundary[dd-1] = -1;
+    }
 
     if( token == std::string("FLOATING_POINT") )
     {
-- 
2.43.0


From cb9652df84e0cf5059409c580c7a8a8ef266d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 16/52] fix: the XML form of a gauge archive header holds the
 checksum in hexadecimal

---
 lib/qdp_iogauge.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 0fef12e..c4dd7a2 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -156,6 +156,7 @@ void read(XMLReader& xml, const std::string& path, ArchivGauge_t& header)
     std::string chk;
     read(paramtop, "checksum", chk);
     std::istringstream s(chk);
+    s.setf(std::ios_base::hex, std::ios_base::basefield);
     s >> header.checksum;
   }
 }
-- 
2.43.0


From f207ec8ccca36a1970fe438fa71fda52020a8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 17/52] fix: writeArchiv notices that the end of the file could
 not be written

---
 lib/qdp_iogauge.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index c4dd7a2..a070c87 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -717,6 +717,13 @@ void writeArchiv(ArchivGauge_t& header, const multi1d<LatticeColorMatrix>& u, co
   writeArchiv(cfg_out, u, header.mat_size);  // continuing writing after header
 
   cfg_out.close();
+
+  // data may still have been buffered
+  if (cfg_out.fail())
+  {
+    QDPIO::cerr << __func__ << ": error writing configuration" << std::endl;
+    QDP_abort(1);
+  }
 }
 
 
-- 
2.43.0


From 87497fc9b67c5f782dc26e7901bf59555805c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 18/52] fix: readArchiv stops when the file ends early, as the
 scalar version does

---
 lib/qdp_parscalar_specific.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 845d2ab..c9dd8d5 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -1076,6 +1076,12 @@ namespace QDP {
 
     delete[] recv_buf;
 
+    if (cfg_in.fail())
+    {
+      QDPIO::cerr << __func__ << ": error reading configuration" << std::endl;
+      QDP_abort(1);
+    }
+
     QDPInternal::broadcast(checksum);
 
     // Reconstruct the gauge field
-- 
2.43.0


From e1e91419d5ca5d979ac4d1e9ee1ceb4c708e484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 19/52] fix: MapObjectDisk no longer divides by zero when it
 stores a stream position

---
 include/qdp_map_obj_disk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..22697c7 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -210,9 +210,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream offset always fits in the less significant word
+    uint64_t less = uint64_t(off_type(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
-- 
2.43.0


From c43cd5207671edfadbc67b5c7e075063a8412909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 20/52] fix: MapObjectDisk::insert appends records instead of
 overwriting others

---
 include/qdp_map_obj_disk.h | 40 +++++++-------------------------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 22697c7..4477336 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -550,44 +550,18 @@ namespace QDP
       //  Find key
       BinaryBufferWriter bin;
       write(bin, key);
-      typename MapType_t::const_iterator key_ptr = src_map.find(bin.str());
 
-      if (key_ptr != src_map.end()) { 
-	// Key does exist
-	pos_type wpos = convertFromPrivate(key_ptr->second);
-	if (level >= 2) {
-	  QDPIO::cout << "Found key to update. Position is " << wpos << std::endl;
-	}
-	
-	streamer.seek(wpos);
-	
-	if (level >= 2) {
-	  QDPIO::cout << "Sought write position. Current Position: " << streamer.currentPosition() << std::endl;
-	}
-	streamer.resetChecksum(); // Reset checksum. It gets calculated on write.
-	write(streamer, val);
-	
-	if (level >= 2) {	
-	  QDPIO::cout << "Wrote value to disk. Current Position: " << streamer.currentPosition() << std::endl;
-	}
-	write(streamer, streamer.getChecksum()); // Write Checksum
-	streamer.flush(); // Sync the file
-	
-	if (level >= 2) {
-	  QDPIO::cout << "Wrote checksum " << streamer.getChecksum() << " to disk. Current Position: " << streamer.currentPosition() << std::endl;
-	}
-
-	// Done
-	state = MODIFIED;
-      }
-      else {
-	// Key does not exist
+      // A record always goes to the end of the file, also when the key exists:
+      // the new value may be longer than the one it replaces, and the position 
+      // may be anywhere after a lookup
+      {
+	streamer.seekEnd(0);
 
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-	// Insert pos into map
-	src_map.insert(std::make_pair(bin.str(), convertToPrivate(pos)));
+	// Insert or update pos in the map
+	src_map[bin.str()] = convertToPrivate(pos);
 
 	streamer.resetChecksum();
 
-- 
2.43.0


From 8013b8a32ec28cc85c76727070563a6fd27b1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 21/52] fix: MapObjectDisk::close forgets the keys of the
 closed file

---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 4477336..754b755 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -422,6 +422,9 @@ namespace QDP
       break;
     }
 
+    // The keys belong to the file just closed
+    src_map.clear();
+
     state = INIT;
   }
   
-- 
2.43.0


From f8cf84081bfcee5354261196d63c1a88eb806579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 22/52] fix: MapObjectDisk refuses a file whose header or map
 cannot be read

---
 include/qdp_map_obj_disk.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 754b755..8f56362 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -794,6 +794,11 @@ namespace QDP
       // Read MD location
       streamer.readArray((char *)&md_position, sizeof(priv_pos_type_t), 1);
 
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: error reading the header of " << filename << std::endl;
+	QDP_abort(1);
+      }
+
       if (level >= 2) {
 	QDPIO::cout << "Read MD Location. Current position: " << streamer.currentPosition() << std::endl;
       }
@@ -872,6 +877,11 @@ namespace QDP
       readDesc(streamer, key_str);
       
       streamer.readArray((char *)&rpos, sizeof(priv_pos_type_t),1);
+
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: error reading the map of " << filename << std::endl;
+	QDP_abort(1);
+      }
       
       if (level >= 2) {
 	QDPIO::cout << "Read Key/Position pair. Current position: " << streamer.currentPosition() << std::endl;
@@ -886,6 +896,10 @@ namespace QDP
     if (level >= 2) {
       QDPIO::cout << "Read Map checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition();
     }
+    if (streamer.fail()) {
+      QDPIO::cerr << "MapObjectDisk: error reading the map of " << filename << std::endl;
+      QDP_abort(1);
+    }
     if( read_checksum != calc_checksum ) { 
       QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
       QDP_abort(1);
-- 
2.43.0


From a8641f22424b3e9d8f3950436942662c9d1c7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 23/52] fix: MapObjectDisk::get stops when a record cannot be
 read

---
 include/qdp_map_obj_disk.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 8f56362..fc79ddf 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -677,6 +677,11 @@ namespace QDP
 	  QDPIO::cout << " Record checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
+	if (streamer.fail()) {
+	  QDPIO::cerr << "MapObjectDisk: error reading a record of " << filename << std::endl;
+	  QDP_abort(1);
+	}
+
 	if( read_checksum != calc_checksum ) { 
 	  QDPIO::cout << "Mismatched Checksums: Expected: " << calc_checksum << " but read " << read_checksum << std::endl;
 	  QDP_abort(1);
-- 
2.43.0


From e9b1e4599d6e6a93a2d1b2759b47d575b78a1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 24/52] fix: MapObjectDisk notices when a record or the map
 could not be written

---
 include/qdp_map_obj_disk.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index fc79ddf..af7e573 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -413,6 +413,11 @@ namespace QDP
       closeWrite(); // This finalizes files for us
       if( streamer.is_open() ) { 
 	streamer.close();
+
+	if (streamer.fail()) {
+	  QDPIO::cerr << "MapObjectDisk: error closing " << filename << std::endl;
+	  QDP_abort(1);
+	}
       }
       break;
     case INIT:
@@ -563,9 +568,6 @@ namespace QDP
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-	// Insert or update pos in the map
-	src_map[bin.str()] = convertToPrivate(pos);
-
 	streamer.resetChecksum();
 
 	// Add position to the map
@@ -591,11 +593,19 @@ namespace QDP
 
 	write(streamer, streamer.getChecksum()); // Write Checksum
 	streamer.flush();
+
+	if (streamer.fail()) {
+	  ret = -1;
+	  break;
+	}
 	
 	if (level >= 2) {
 	  QDPIO::cout << "Wrote checksum " << streamer.getChecksum() << " to disk. Current Position: " << streamer.currentPosition() << std::endl;
 	}
 
+	// Insert or update pos in the map
+	src_map[bin.str()] = convertToPrivate(pos);
+
 	// Done
 	state = MODIFIED;
       }
@@ -965,6 +975,11 @@ namespace QDP
       // skip to end and close
       streamer.seekEnd(0);
       streamer.flush();
+
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: error writing the map of " << filename << std::endl;
+	QDP_abort(1);
+      }
 	
       QDPIO::cout << "MapObjectDisk: Closed file " << filename<< " for write access" <<  std::endl;
     }
-- 
2.43.0


From 7391e2e3c8fa89d41f0f9cbb6188051a0238e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 25/52] fix: MapObjectDisk::insert fails on a map opened for
 reading only

---
 include/qdp_map_obj_disk.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index af7e573..0b902a7 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -141,6 +141,9 @@ namespace QDP
     //! State of db
     State state;
 
+    //! Mode the file was opened with
+    std::ios_base::openmode open_mode;
+
     //! Debugging
     int level;
 
@@ -256,6 +259,7 @@ namespace QDP
     case INIT: 
     {
       filename = file;
+      open_mode = mode;
 
       QDPIO::cout << "MapObjectDisk: opening file " << filename
 		  << " for writing" << std::endl;
@@ -367,6 +371,7 @@ namespace QDP
     case INIT:
     {
       filename = file;
+      open_mode = mode;
 
       QDPIO::cout << "MapObjectDisk: opening file " << filename
 		  << " for reading" << std::endl;
@@ -555,6 +560,12 @@ namespace QDP
     switch (state)  { 
     case MODIFIED :
     case UNCHANGED : {
+      if (! (open_mode & std::ios_base::out)) {
+	// The file is open for reading only
+	ret = 1;
+	break;
+      }
+
       //  Find key
       BinaryBufferWriter bin;
       write(bin, key);
-- 
2.43.0


From 8e10ad796ab1d1210b02f1408f8a530e92e50b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 26/52] fix: MapObjectDiskMultiple no longer uses deleted maps
 after close

---
 include/qdp_map_obj_disk_multiple.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..2e12274 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -71,6 +71,8 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+
+      dbs_.clear();
     }
 
 
-- 
2.43.0


From e1f7e33fcba13902ab37db733d96004d5e11cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 27/52] fix: MapObjectDiskMultiple::fileExists looks at all the
 files it is given

---
 include/qdp_map_obj_disk_multiple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 2e12274..63c11da 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -52,9 +52,9 @@ namespace QDP
     bool fileExists(const std::vector<std::string>& files) const
     {
       bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
+	ret = ! MapObjDiskEnv::checkForNewFile(files[i], std::ios_base::in);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0


From d789e175d8f3fb1e5b9cc5312ed388b4ea334719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 28/52] fix: getMetaData stops when the user data of a map file
 cannot be read

---
 lib/qdp_map_obj_disk.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/qdp_map_obj_disk.cc b/lib/qdp_map_obj_disk.cc
index 421ca74..da0c8ba 100644
--- a/lib/qdp_map_obj_disk.cc
+++ b/lib/qdp_map_obj_disk.cc
@@ -39,6 +39,11 @@ namespace QDP
       
       std::string user_data;
       readDesc(reader, user_data);
+
+      if (reader.fail()) {
+	QDPIO::cerr << "getMetaData: error reading the user data of " << filename << std::endl;
+	QDP_abort(1);
+      }
     
       reader.close();
       return user_data;
-- 
2.43.0


From 03cb171106a2e7e4d701e0e637b77e3fb49fd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 29/52] fix: readDesc fails the stream when the stored length
 is negative or beyond the end

---
 lib/qdp_io.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 6f71de4..accf825 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -620,14 +620,21 @@ namespace QDP
       // Get the length
       int n;
       readArrayPrimaryNode((char*)&n, sizeof(int), 1);
-    
-      // Read
-      char* str = new char[n];
-      readArrayPrimaryNode(str, sizeof(char), n);
 
-      input.assign(str, n);
+      // A corrupt length is an error of the stream
+      if (n < 0)
+	getIstream().setstate(std::ios_base::failbit);
 
-      delete[] str;
+      // Read piecewise: the length may be far beyond the end of the stream
+      input.clear();
+      char str[4096];
+      while (n > 0 && ! getIstream().fail())
+      {
+	int m = (n < (int)sizeof(str)) ? n : (int)sizeof(str);
+	readArrayPrimaryNode(str, sizeof(char), m);
+	input.append(str, m);
+	n -= m;
+      }
     }
 
     QDPInternal::broadcast(input);
-- 
2.43.0


From d574c6ffc1df38a75029a02940057882941bcd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 30/52] fix: u = v*u with double precision SSE matrix kernels
 reads operands the kernel has already overwritten

---
 .../qdp_scalarsite_linalg_double.cc           | 43 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..a648528 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,6 +20,19 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
+  // The product kernels store a result before they have read all of their operands.
+  // When the destination is also an operand (u = v*u) they work on copies of the operands.
+  struct ssed_operands {
+    REAL64 l[18] QDP_ALIGN16;
+    REAL64 r[18] QDP_ALIGN16;
+    ssed_operands(const REAL64* lm, const REAL64* rm) {
+      for(int j=0; j < 18; j++) { 
+	l[j] = lm[j];
+	r[j] = rm[j];
+      }
+    }
+  };
+
 // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
@@ -40,6 +53,13 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
+    if( dm == lm || dm == rm ) { 
+      for(int i=0; i < n_3mat; i++) { 
+	ssed_operands t(&lm[18*i], &rm[18*i]);
+	func(&dm[18*i], t.l, t.r, 1);
+      }
+      return;
+    }
     func(dm,lm,rm, n_3mat);
   }
 
@@ -68,7 +88,13 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      if( dm == lm || dm == rm ) { 
+	ssed_operands t(lm, rm);
+	func(dm, t.l, t.r, 1);
+      }
+      else {
+	func(dm,lm, rm, 1);
+      }
     }
   }
       
@@ -279,6 +305,13 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
+    if( dm == lm || dm == rm ) { 
+      for(int i=0; i < n_3mat; i++) { 
+	ssed_operands t(&lm[18*i], &rm[18*i]);
+	func(&dm[18*i], c, t.l, t.r, 1);
+      }
+      return;
+    }
     func(dm,c,lm,rm, n_3mat);
   }
 
@@ -309,7 +342,13 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      if( dm == lm || dm == rm ) { 
+	ssed_operands t(lm, rm);
+	func(dm, a->c, t.l, t.r, 1);
+      }
+      else {
+	func(dm,a->c, lm, rm, 1);
+      }
     }
   }
       
-- 
2.43.0


From 5b78026b73e7d557cacd66ac855f619efc638365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 31/52] fix: h = u*h with the generic half fermion evaluate
 reads components it has already overwritten

---
 .../qdp_scalarsite_generic_linalg_wrapper.h          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..02fd516 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,11 +44,13 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // d and r may be the same lattice, so work on a copy of the site
+     const PSpinVector<PColorVector<RComplexFloat, 3>, 2> h(r.elem(i));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(0),
+				      h.elem(0),
 				      d.elem(i).elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(1),
+				      h.elem(1),
 				      d.elem(i).elem(1));
    }
   
@@ -87,11 +89,13 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // d and r may be the same lattice, so work on a copy of the site
+     const PSpinVector<PColorVector<RComplexFloat, 3>, 2> h(r.elem(i));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(0),
+				      h.elem(0),
 				      d.elem(i).elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
-				      r.elem(i).elem(1),
+				      h.elem(1),
 				      d.elem(i).elem(1));
    } 
 }
-- 
2.43.0


From 42163bdd7f8ef492139f1779cf018298706443fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 32/52] fix: single precision SSE colour matrix copies use
 unaligned access, a subset may start at an odd site

---
 lib/scalarsite_sse/qdp_scalarsite_sse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_sse.cc b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
index 5101ee4..b56a22d 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_sse.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_sse.cc
@@ -617,7 +617,7 @@ void evaluate(OLattice< TCol >& d,
 
   
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_load_ps(r_ptr_v4sf));
+      _mm_storeu_ps( d_ptr_v4sf, _mm_loadu_ps(r_ptr_v4sf));
     }
   
     
@@ -674,8 +674,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_add_ps( _mm_load_ps(d_ptr_v4sf), 
-					    _mm_load_ps(r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_add_ps( _mm_loadu_ps(d_ptr_v4sf), 
+					    _mm_loadu_ps(r_ptr_v4sf) ) );
     }
     
     
@@ -731,8 +731,8 @@ void evaluate(OLattice< TCol >& d,
     
     
     for(unsigned int i = 0 ; i < total_v4sf; i++, d_ptr_v4sf +=4, r_ptr_v4sf+=4 ) { 
-      _mm_store_ps( d_ptr_v4sf, _mm_sub_ps( _mm_load_ps( d_ptr_v4sf), 
-					    _mm_load_ps( r_ptr_v4sf) ) );
+      _mm_storeu_ps( d_ptr_v4sf, _mm_sub_ps( _mm_loadu_ps( d_ptr_v4sf), 
+					    _mm_loadu_ps( r_ptr_v4sf) ) );
     }
     
     
-- 
2.43.0


From 152969cbbe12c500f2ff22a8fec14f135c75f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 33/52] fix: SSE norm2 and innerProduct do not add stale
 results of threads that had no sites

---
 include/scalarsite_sse/qdp_scalarsite_sse_blas.h        | 4 ++++
 include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
index 5668c48..234eb49 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas.h
@@ -2217,6 +2217,8 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1, const Subset& s)
     arg.vptr = (REAL32*) &(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq_24_48;
+    // threads without sites do not store a result
+    for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n_real, arg, ordered_norm_single_func);
     
     REAL64 ltmp=arg.results[0];
@@ -2263,6 +2265,8 @@ norm2(const QDPType<TVec ,OLattice< TVec > >& s1)
   arg.vptr = (REAL32*) &(s1.elem(all.start()).elem(0).elem(0).real());
   arg.results = ThreadReductions::norm2_results;
   arg.func = local_sumsq_24_48;
+  // threads without sites do not store a result
+  for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
   dispatch_to_threads(n_real, arg, ordered_norm_single_func);
   
     
diff --git a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
index 97baf95..d95f162 100644
--- a/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
+++ b/include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h
@@ -2572,6 +2572,8 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1, const Subset& s)
     arg.vptr = (REAL64*)&(s1.elem(s.start()).elem(0).elem(0).real());
     arg.results = ThreadReductions::norm2_results;
     arg.func = local_sumsq4;
+    // threads without sites do not store a result
+    for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
     REAL64 lsum=arg.results[0];
     for(int i=1; i < qdpNumThreads(); i++) { 
@@ -2630,6 +2632,8 @@ norm2(const QDPType<DVec ,OLattice< DVec > >& s1)
   arg.results = ThreadReductions::norm2_results;
 
 
+  // threads without sites do not store a result
+  for(int i=0; i < qdpNumThreads(); i++) arg.results[i] = 0;
   dispatch_to_threads(n4vec, arg, ordered_norm_double_func);
 
   // Sum partial results
@@ -2672,6 +2676,8 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // threads without sites do not store a result
+    for(int i=0; i < 2*qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
@@ -2741,6 +2747,8 @@ innerProduct(const QDPType< DVec, OLattice<DVec> > &v1,
     arg.func = local_vcdot4;
     arg.results = ThreadReductions::innerProd_results;
 
+    // threads without sites do not store a result
+    for(int i=0; i < 2*qdpNumThreads(); i++) arg.results[i] = 0;
     dispatch_to_threads(n4vec, arg, ordered_inner_product_double_func);
     REAL64 ip[2] = { arg.results[0],arg.results[1] };
 
-- 
2.43.0


From 63b483b1a2220b5c252ef9d52c0c119e2c037c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 34/52] fix: shut the QMT thread pool down on finalisation
 (misspelt QDP_USE_QMT_THREADS)

---
 lib/qdp_parscalar_init.cc | 2 +-
 lib/qdp_scalar_init.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_parscalar_init.cc b/lib/qdp_parscalar_init.cc
index 2dbb9b2..e2d2321 100644
--- a/lib/qdp_parscalar_init.cc
+++ b/lib/qdp_parscalar_init.cc
@@ -342,7 +342,7 @@ namespace QDP {
 		//
 		delete [] ThreadReductions::norm2_results;
 		delete [] ThreadReductions::innerProd_results;
-#if defined(QMT_USE_QMT_THREADS)
+#if defined(QDP_USE_QMT_THREADS)
 		// Finalize threads
 		std::cout << "QDP use qmt threading: Finalizing threads" << std::endl;
 		qmt_finalize();
diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index ae96ea7..b15f010 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -147,7 +147,7 @@ void QDP_finalize()
    
   // finalise qmt
   //
-#if defined(QMT_USE_QMT_THREADS)
+#if defined(QDP_USE_QMT_THREADS)
 
  
 
-- 
2.43.0


From 05828d66be7c43206a0aa5c31591e9f4edb43ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 35/52] fix: self-assignment of multi2d, multi3d, multi4d,
 multi5d and multiNd keeps the contents

---
 include/qdp_multi.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index e4d27ca..ed25b4f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,6 +680,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size2(), s1.size1());   // always resize
 
       for(int i=0; i < sz; ++i)
@@ -779,6 +782,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -874,6 +880,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -971,6 +980,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -1072,6 +1084,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 23880b58dc52b5f011fe25bd8f491d7d15a4202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 36/52] fix: parscalar layout checks for memory before using
 the node coordinates from QMP

---
 lib/qdp_parscalar_layout.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index e36351f..8a2581d 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -139,6 +139,8 @@ namespace QDP
     {
       multi1d<int> node_coord(Nd);
       const int* node_crd = QMP_get_logical_coordinates_from(node);  // QMP mallocs here
+      if (node_crd == 0)
+	QDP_error_exit("Layout::getLogicalCoordFrom - no memory for the coordinates of node %d", node);
 
       for(int i=0; i < Nd; ++i)
 	node_coord[i] = node_crd[i];
-- 
2.43.0


From fd4f3af80d97c3c57a9c6dbb2225e88cf782d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 37/52] fix: the pool allocator reports an exhausted pool
 instead of handing out a null pointer

---
 lib/qdp_pool_allocator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/qdp_pool_allocator.cc b/lib/qdp_pool_allocator.cc
index d16fc05..4e68933 100644
--- a/lib/qdp_pool_allocator.cc
+++ b/lib/qdp_pool_allocator.cc
@@ -72,6 +72,10 @@ namespace Allocator {
 
 
 	    unsigned char* Unaligned = (unsigned char *)(_LargePool->malloc(BytesToAlloc));
+	    if ( Unaligned == nullptr ) {
+	      QDPIO::cerr << "Unable to allocate memory in allocate(): pool exhausted" << std::endl;
+	      throw std::bad_alloc();
+	    }
 
 	    unsigned char* Aligned = (unsigned char *)
 	    				( ( (unsigned long)Unaligned + (QDP_ALIGNMENT_SIZE-1) ) & ~(QDP_ALIGNMENT_SIZE - 1));
-- 
2.43.0


From 12047ac51641beeb80123747900b4ad2423c5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 38/52] fix: in-memory buffers pass on an allocation failure
 instead of silently truncating their contents

---
 lib/qdp_io.cc | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index accf825..71573c5 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -434,9 +434,18 @@ namespace QDP
 
   //--------------------------------------------------------------------------------
   // Text buffer writer support
-  TextBufferWriter::TextBufferWriter() {}
+  TextBufferWriter::TextBufferWriter()
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+  }
 
-  TextBufferWriter::TextBufferWriter(const std::string& p) {open(p);}
+  TextBufferWriter::TextBufferWriter(const std::string& p)
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+    open(p);
+  }
 
   void TextBufferWriter::open(const std::string& s)
   {
@@ -1374,10 +1383,20 @@ namespace QDP
 
   //--------------------------------------------------------------------------------
   // Binary writer support
-  BinaryBufferWriter::BinaryBufferWriter() {checksum=0;}
+  BinaryBufferWriter::BinaryBufferWriter()
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+    checksum=0;
+  }
 
   // Construct from a string
-  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {open(s);}
+  BinaryBufferWriter::BinaryBufferWriter(const std::string& s)
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+    open(s);
+  }
 
   BinaryBufferWriter::~BinaryBufferWriter() {}
 
@@ -1568,10 +1587,20 @@ namespace QDP
 
   //--------------------------------------------------------------------------------
   // Binary buffer reader/writer support
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter() {checksum=0;}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter()
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+    checksum=0;
+  }
 
   // Construct from a string
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {open(s);}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s)
+  {
+    // Running out of memory must not silently truncate the buffer
+    f.exceptions(std::ios_base::badbit);
+    open(s);
+  }
 
   BinaryBufferReaderWriter::~BinaryBufferReaderWriter() {}
 
-- 
2.43.0


From be7d71b21cdc9ae97c1221805a3fba5e17f6e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 39/52] fix: stopwatch total does not run backwards or pick up
 garbage when the clock jumps back or fails

---
 lib/qdp_stopwatch.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_stopwatch.cc b/lib/qdp_stopwatch.cc
index cd4a81d..9aa57ca 100644
--- a/lib/qdp_stopwatch.cc
+++ b/lib/qdp_stopwatch.cc
@@ -22,14 +22,15 @@ namespace QDP {
   StopWatch::~StopWatch() {}
 	
   void StopWatch::calcDuration(long& secs, long& usecs){
+    secs=0;
+    usecs=0;
      if (!state){
         QDPIO::cerr << "Timer in error state"<<std::endl;
         return;}
-    secs=0;
-    usecs=0;
     if( startedP && stoppedP ) 
     { 
-      if( t_end.tv_sec < t_start.tv_sec ) 
+      if( t_end.tv_sec < t_start.tv_sec ||
+	  ( t_end.tv_sec == t_start.tv_sec && t_end.tv_usec < t_start.tv_usec ) ) 
       { 
 	QDPIO::cerr << __func__ << ": critical timer rollover" << std::endl;
         state=false;
-- 
2.43.0


From f2c60bf056da791b28b7affd14da2064f05aecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 40/52] fix: QDP_info, QDP_error and QDP_error_exit overran
 their buffers with long messages

---
 lib/qdp_util.cc | 67 ++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..6f810fd 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -5,6 +5,8 @@
  */
 
 #include <cstdarg>
+#include <cstdio>
+#include <vector>
 #include <unistd.h>
 
 #include "qdp.h"
@@ -37,27 +39,49 @@ int gethostname(char *hostname, size_t size)
 namespace QDP {
 
 /**
- * Simple information display routine
+ * Format a message of any length and print it with the name of this node in front
  */
-int
-QDP_info (const char* format, ...)
+static int
+print_message (FILE* fp, const char* kind, const char* format, va_list argp)
 {
-  va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
+  char    hostname[256] = "";
+  char    fixed[1024] = "";
+  std::vector<char> big;           // only used for messages that do not fit above
+  const char* buffer = fixed;
 
   /* get machine host name */
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s info: ", 
-	   rank, size, hostname);
+
+  va_list again;
+  va_copy (again, argp);
+  int status = vsnprintf (fixed, sizeof (fixed), format, argp);
+  if (status >= (int) sizeof (fixed))
+  {
+    big.resize (status + 1);
+    vsnprintf (&big[0], big.size(), format, again);
+    buffer = &big[0];
+  }
+  va_end (again);
+
+  fprintf (fp, "QDP m%d,n%d@%s %s:  %s\n", rank, size, hostname, kind, buffer);
+  return status;
+}
+
+
+/**
+ * Simple information display routine
+ */
+int
+QDP_info (const char* format, ...)
+{
+  va_list argp;
 
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = print_message (stdout, "info", format, argp);
   va_end (argp);
 
-  fprintf (stdout, "%s %s\n", info, buffer);
   return status;
 }
 
@@ -69,20 +93,11 @@ int
 QDP_error (const char* format, ...)
 {
   va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
 
-  /* get machine host name */
-  gethostname (hostname, sizeof (hostname) - 1);
-  int rank = Layout::nodeNumber();
-  int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s error: ", rank, size, hostname);
-	   
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = print_message (stderr, "error", format, argp);
   va_end (argp);
 
-  fprintf (stderr, "%s %s\n", info, buffer);
   return status;
 }
 
@@ -93,21 +108,11 @@ void
 QDP_error_exit (const char* format, ...)
 {
   va_list argp;
-  char    info[128], hostname[256];
-  char    buffer[1024];
 
-  /* get machine host name */
-  gethostname (hostname, sizeof (hostname) - 1);
-  int rank = Layout::nodeNumber();
-  int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
-	   
   va_start (argp, format);
-  vsprintf (buffer, format, argp);
+  print_message (stderr, "fatal error", format, argp);
   va_end (argp);
 
-  fprintf (stderr, "%s %s\n", info, buffer);
-
   QDP_abort(1);  // Abort knows how to shutdown the machine
 }
 
-- 
2.43.0


From 9685390bd3c528e63e4e8fd7db4b8e5a263f6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 41/52] fix: MapObjectDisk::close reports a failing close of a
 file that was flushed before

---
 include/qdp_map_obj_disk.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 0b902a7..df301a5 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -409,17 +409,14 @@ namespace QDP
   MapObjectDisk<K,V>::close() 
   {
     switch(state) { 
-    case UNCHANGED:
-      if( streamer.is_open() ) { 
-	streamer.close();
-      }
-      break;
     case MODIFIED:
       closeWrite(); // This finalizes files for us
+      // fall through: records written before a flush can still be lost here
+    case UNCHANGED:
       if( streamer.is_open() ) { 
 	streamer.close();
 
-	if (streamer.fail()) {
+	if (streamer.fail() && (open_mode & std::ios_base::out)) {
 	  QDPIO::cerr << "MapObjectDisk: error closing " << filename << std::endl;
 	  QDP_abort(1);
 	}
-- 
2.43.0


From 35014c139094385c50182ce8e8000d4712194c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 42/52] fix: an error the XML reader finds on the primary node
 is thrown on all nodes

---
 include/qdp_xmlio.h | 30 +++++++++++++++++++----
 lib/qdp_xmlio.cc    | 58 ++++++++++++++++++++++-----------------------
 2 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/include/qdp_xmlio.h b/include/qdp_xmlio.h
index acc3ce1..753de26 100644
--- a/include/qdp_xmlio.h
+++ b/include/qdp_xmlio.h
@@ -129,10 +129,7 @@ namespace QDP
     template<typename T>
     void set(const std::string& xpath, const T& to_set) 
       {
-	if (Layout::primaryNode())
-	{  
-	  BasicXPathReader::set<T>(xpath, to_set);
-	}
+	onPrimaryNode([&] { BasicXPathReader::set<T>(xpath, to_set); });
       }
 
 
@@ -167,6 +164,31 @@ namespace QDP
     readAttrPrimitive(const std::string& xpath, 
 		      const std::string& attrib_name,
 		      T& result);
+
+    //! Call something on the primary node. If it throws there, all nodes throw
+    template<typename F>
+    static void onPrimaryNode(F func)
+      {
+	bool failed = false;
+	std::string error;
+
+	if (Layout::primaryNode())
+	{
+	  try {
+	    func();
+	  }
+	  catch (const std::string& e) {
+	    failed = true;
+	    error = e;
+	  }
+	}
+
+	shareError(failed, error);
+      }
+
+    //! The error of the primary node is thrown on all nodes
+    static void shareError(bool failed, std::string& error);
+
   private:
     bool  iop;  //file open or closed?
     bool  derived; // is this reader derived from another reader?
diff --git a/lib/qdp_xmlio.cc b/lib/qdp_xmlio.cc
index e010aec..184fdf7 100644
--- a/lib/qdp_xmlio.cc
+++ b/lib/qdp_xmlio.cc
@@ -44,8 +44,7 @@ namespace QDP
 
   void XMLReader::open(const std::string& filename)
   {
-    if (Layout::primaryNode())
-    {
+    onPrimaryNode([&] {
 #if 0
       BasicXPathReader::open(filename);
 #else
@@ -66,7 +65,7 @@ namespace QDP
 #endif
 
 #endif
-    }
+    });
 
     iop = true;
     derived = false;
@@ -74,8 +73,7 @@ namespace QDP
 
   void XMLReader::open(std::istream& is)
   {
-    if (Layout::primaryNode())
-      BasicXPathReader::open(is);
+    onPrimaryNode([&] { BasicXPathReader::open(is); });
 
     iop = true;
     derived = false;
@@ -83,11 +81,10 @@ namespace QDP
 
   void XMLReader::open(const XMLBufferWriter& mw)
   {
-    if (Layout::primaryNode())
-    {  
+    onPrimaryNode([&] {
       std::istringstream is(const_cast<XMLBufferWriter&>(mw).str()+"\n");
       BasicXPathReader::open(is);
-    }
+    });
 
     iop = true;
     derived = false;
@@ -95,10 +92,7 @@ namespace QDP
 
   void XMLReader::open(XMLReader& old, const std::string& xpath)
   {
-    if( Layout::primaryNode()) 
-    {
-      BasicXPathReader::open((BasicXPathReader&)old, xpath);
-    }
+    onPrimaryNode([&] { BasicXPathReader::open((BasicXPathReader&)old, xpath); });
 
     iop = true;
     derived = true;
@@ -125,12 +119,24 @@ namespace QDP
   XMLReader::~XMLReader() {close();}
 
 
+  // The other nodes must not wait for a result that never comes
+  void XMLReader::shareError(bool failed, std::string& error)
+  {
+    QDPInternal::broadcast(failed);
+
+    if (failed)
+    {
+      QDPInternal::broadcast_str(error);
+      throw error;
+    }
+  }
+
+
   // Overloaded Reader Functions
   void XMLReader::get(const std::string& xpath, std::string& result)
   {
     // Only primary node can grab string
-    if (Layout::primaryNode()) 
-      BasicXPathReader::get(xpath, result);
+    onPrimaryNode([&] { BasicXPathReader::get(xpath, result); });
 
     // broadcast string
     QDPInternal::broadcast_str(result);
@@ -182,9 +188,7 @@ namespace QDP
   template<typename T>
   void XMLReader::readPrimitive(const std::string& xpath, T& result)
   {
-    if (Layout::primaryNode()) {
-      BasicXPathReader::get(xpath, result);
-    }
+    onPrimaryNode([&] { BasicXPathReader::get(xpath, result); });
 
     // Now broadcast back out to all nodes
     QDPInternal::broadcast(result);
@@ -195,9 +199,7 @@ namespace QDP
 				    const std::string& attrib_name, 
 				    T& result)
   {
-    if (Layout::primaryNode()) {
-      BasicXPathReader::getAttribute(xpath, attrib_name, result);
-    }
+    onPrimaryNode([&] { BasicXPathReader::getAttribute(xpath, attrib_name, result); });
 
     // Now broadcast back out to all nodes
     QDPInternal::broadcast(result);
@@ -208,11 +210,10 @@ namespace QDP
     std::ostringstream newos;
     std::string s;
 
-    if (Layout::primaryNode())
-    {
+    onPrimaryNode([&] {
       BasicXPathReader::print(newos);
       s = newos.str();
-    }
+    });
 
     // Now broadcast back out to all nodes
     QDPInternal::broadcast_str(s);
@@ -224,15 +225,14 @@ namespace QDP
     std::ostringstream newos;
     std::string s;
 
-    if (Layout::primaryNode())
-    {
+    onPrimaryNode([&] {
       if (is_derived())
 	BasicXPathReader::printChildren(newos);
       else
 	BasicXPathReader::printRoot(newos);
 
       s = newos.str();
-    }
+    });
 
     // Now broadcast back out to all nodes
     QDPInternal::broadcast_str(s);
@@ -242,8 +242,7 @@ namespace QDP
   int XMLReader::count(const std::string& xpath)
   {
     int n;
-    if (Layout::primaryNode())
-      n = BasicXPathReader::count(xpath);
+    onPrimaryNode([&] { n = BasicXPathReader::count(xpath); });
 
     // Now broadcast back out to all nodes
     QDPInternal::broadcast(n);
@@ -253,8 +252,7 @@ namespace QDP
   // Namespace Registration?
   void XMLReader::registerNamespace(const std::string& prefix, const std::string& uri)
   {
-    if (Layout::primaryNode())
-      BasicXPathReader::registerNamespace(prefix, uri);
+    onPrimaryNode([&] { BasicXPathReader::registerNamespace(prefix, uri); });
   }
 
   // Overloaded Reader Functions
-- 
2.43.0


From eb78d14d0de2ec00a05ff707e6f24d05ffa62bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 43/52] fix: XML reads of lists read their elements, a failing
 count of array elements is reported

---
 include/qdp_xmlio.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_xmlio.h b/include/qdp_xmlio.h
index 753de26..3b2588f 100644
--- a/include/qdp_xmlio.h
+++ b/include/qdp_xmlio.h
@@ -238,7 +238,8 @@ namespace QDP
     }
     catch( const std::string& e) { 
       error_message << "Exception occurred while counting " << elem_base_query 
-		    << " during array read " << std::endl;
+		    << " during array read " << s << std::endl;
+      throw error_message.str();
     }
       
     // Now resize the array to hold the no of elements.
@@ -389,7 +390,7 @@ namespace QDP
     input.clear();
 
     // Get the elements one by one
-    for(int i=0; i < input.size(); i++) 
+    for(int i=0; i < array_size; i++) 
     {
       std::ostringstream element_xpath;
 
-- 
2.43.0


From 98d905d63eabd415e1591359711eb593f85b96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 44/52] fix: XML reads of arrays and lists of numbers report an
 element that cannot be read

---
 lib/qdp_xmlio.cc | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/qdp_xmlio.cc b/lib/qdp_xmlio.cc
index 184fdf7..f15b2cd 100644
--- a/lib/qdp_xmlio.cc
+++ b/lib/qdp_xmlio.cc
@@ -320,13 +320,15 @@ namespace QDP
 	
     int array_size = 0;
     T dummy;
-    while(list_stream >> dummy)
-      ++array_size;
-
-    if ((! list_stream.eof()) && list_stream.fail())
+    while(! (list_stream >> std::ws).eof())
     {
-      error_message << "Error in reading array " << s << std::endl;
-      throw error_message.str();
+      // An element that cannot be read may well be the last one
+      if (! (list_stream >> dummy))
+      {
+	error_message << "Error in reading array " << s << std::endl;
+	throw error_message.str();
+      }
+      ++array_size;
     }
 
     // It is not an error to have a zero-length array
@@ -434,13 +436,15 @@ namespace QDP
 	
     int array_size = 0;
     T dummy;
-    while(list_stream >> dummy)
-      ++array_size;
-
-    if ((! list_stream.eof()) && list_stream.fail())
+    while(! (list_stream >> std::ws).eof())
     {
-      error_message << "Error in reading array " << xpath << std::endl;
-      throw error_message.str();
+      // An element that cannot be read may well be the last one
+      if (! (list_stream >> dummy))
+      {
+	error_message << "Error in reading array " << xpath << std::endl;
+	throw error_message.str();
+      }
+      ++array_size;
     }
 
     // Now resize the array to hold the no of elements.
@@ -533,8 +537,14 @@ namespace QDP
     std::istringstream list_stream(list_string);
 	
     T dummy;
-    while(list_stream >> dummy)
+    while(! (list_stream >> std::ws).eof())
     {
+      if (! (list_stream >> dummy))
+      {
+	std::ostringstream error_message;
+	error_message << "Error in reading list " << xpath << std::endl;
+	throw error_message.str();
+      }
       result.push_back(dummy);
     }
   }
-- 
2.43.0


From 2582e1df0afb6d62dc2e0bc3ef9cf5b6d0ef75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 45/52] fix: a char written to an XML writer without a name is
 a character, not a number

---
 lib/qdp_xmlio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_xmlio.cc b/lib/qdp_xmlio.cc
index f15b2cd..2903cc7 100644
--- a/lib/qdp_xmlio.cc
+++ b/lib/qdp_xmlio.cc
@@ -862,7 +862,7 @@ namespace QDP
   // Versions that do not print a name
   XMLWriter& operator<<(XMLWriter& xml, const std::string& d) {xml.write(d);return xml;}
   XMLWriter& operator<<(XMLWriter& xml, const char* d) {xml.write(std::string(d));return xml;}
-  XMLWriter& operator<<(XMLWriter& xml, const char& d) {xml.write(d);return xml;}
+  XMLWriter& operator<<(XMLWriter& xml, const char& d) {xml.write(std::string(1,d));return xml;}
   XMLWriter& operator<<(XMLWriter& xml, const int& d) {xml.write(d);return xml;}
   XMLWriter& operator<<(XMLWriter& xml, const unsigned int& d) {xml.write(d);return xml;}
   XMLWriter& operator<<(XMLWriter& xml, const short int& d) {xml.write(d);return xml;}
-- 
2.43.0


From 13bff91d2265d6381f676cb0c4aa9f619466d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 46/52] fix: an XML seed without exactly 4 elements is reported
 instead of read out of bounds

---
 include/qdp_primseed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_primseed.h b/include/qdp_primseed.h
index ffd0d78..58617c4 100644
--- a/include/qdp_primseed.h
+++ b/include/qdp_primseed.h
@@ -196,6 +196,8 @@ void read(XMLReader& xml, const std::string& path, PSeed<T>& d)
   multi1d<S> ff(4);
 
   read(xml, path + "/Seed", ff);
+  if (ff.size() != 4)
+    throw std::string("Error in reading seed " + path + ": it does not have 4 elements");
   
   for(int i=0; i < 4; ++i)
   {
-- 
2.43.0


From 2a90df24c46a3b3cf56ca1310c3cf80fe5a45caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 47/52] fix: XML reads of lists of bool read what was written
 for them

---
 include/qdp_xmlio.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qdp_xmlio.h b/include/qdp_xmlio.h
index 3b2588f..6e33501 100644
--- a/include/qdp_xmlio.h
+++ b/include/qdp_xmlio.h
@@ -429,6 +429,7 @@ namespace QDP
   void read(XMLReader& xml, const std::string& s, std::list<unsigned long int>& input);
   void read(XMLReader& xml, const std::string& s, std::list<float>& input);
   void read(XMLReader& xml, const std::string& s, std::list<double>& input);
+  void read(XMLReader& xml, const std::string& s, std::list<bool>& input);
 
 
 
-- 
2.43.0


From 0048fd751a910bafeb4f6d8d9407221c87a20f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 48/52] fix: XML writes of vectors and lists of floating point
 numbers can be linked

---
 lib/qdp_xmlio.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/qdp_xmlio.cc b/lib/qdp_xmlio.cc
index 2903cc7..e561bb2 100644
--- a/lib/qdp_xmlio.cc
+++ b/lib/qdp_xmlio.cc
@@ -1057,7 +1057,6 @@ namespace QDP
   {
     writeVectorPrimitive<unsigned long int>(xml, xpath, output);
   }
-  template<>
   void write(XMLWriter& xml, const std::string& s, const std::vector<float>& s1)
   {
     std::ostringstream output;
@@ -1075,7 +1074,6 @@ namespace QDP
     xml << output.str();
     xml.closeTag();
   }
-  template<>
   void write(XMLWriter& xml, const std::string& s, const std::vector<double>& s1)
   {
     std::ostringstream output;
@@ -1193,7 +1191,6 @@ namespace QDP
   {
     writeListPrimitive<unsigned long int>(xml, xpath, output);
   }
-  template<>
   void write(XMLWriter& xml, const std::string& s, const std::list<float>& s1)
   {
     std::ostringstream output;
@@ -1214,7 +1211,6 @@ namespace QDP
     xml << output.str();
     xml.closeTag();
   }
-  template<>
   void write(XMLWriter& xml, const std::string& s, const std::list<double>& s1)
   {
     std::ostringstream output;
-- 
2.43.0


From 4896a2e4b19d3f729fcf38e16e53f6bd91fcfa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 49/52] fix: QDPFileWriter::close ignored the status of
 QIO_close_write

---
 lib/qdp_qdpio.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_qdpio.cc b/lib/qdp_qdpio.cc
index b34aad7..4821b7e 100644
--- a/lib/qdp_qdpio.cc
+++ b/lib/qdp_qdpio.cc
@@ -488,8 +488,12 @@ namespace QDP
   {
     if (is_open()) 
     {
-      // int status = QIO_close_write(qio_out);
-      QIO_close_write(qio_out);
+      // Buffered data may only reach the disk here
+      if (QIO_close_write(qio_out) != QIO_SUCCESS)
+      {
+	QDPIO::cerr << "QDPFileWriter: error in close" << std::endl;
+	QDP_abort(1);
+      }
     }
 
     iop = false;
-- 
2.43.0


From b401570f1415a4a57b995771377916c0f9ca5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 50/52] fix: file readers and writers that were never opened
 had an uninitialised status

---
 lib/qdp_qdpio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_qdpio.cc b/lib/qdp_qdpio.cc
index 4821b7e..e9decfb 100644
--- a/lib/qdp_qdpio.cc
+++ b/lib/qdp_qdpio.cc
@@ -103,7 +103,7 @@ namespace QDP
 	
   //-----------------------------------------------------------------------------
   // QDP QIO support
-  QDPFileReader::QDPFileReader() {iop=false;}
+  QDPFileReader::QDPFileReader() {iop=false; iostate=QDPIO_badbit;}
 
   QDPFileReader::QDPFileReader(XMLReader& xml, 
 			       const std::string& path,
@@ -291,7 +291,7 @@ namespace QDP
 
   //-----------------------------------------------------------------------------
   // QDP QIO support (writers)
-  QDPFileWriter::QDPFileWriter() {iop=false;}
+  QDPFileWriter::QDPFileWriter() {iop=false; iostate=QDPIO_badbit;}
 
   QDPFileWriter::QDPFileWriter(XMLBufferWriter& xml, 
 			       const std::string& path,
-- 
2.43.0


From 2af1753a9f35a67cdfbb9d967ed25ab0039869de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 51/52] fix: 3D checkerboard layout: files keep the usual
 lexicographic order

With this layout crtesn and local_site ran the last dimension fastest, also
where they give the order of sites in files and the x-strips that go between
nodes. Fields written were ordered differently from every other layout, came
back wrong when a strip crossed nodes, and time slices took the wrong sites.
Only the order of sites within a node is special now.
---
 lib/qdp_layout.cc           | 14 +++++++++-----
 lib/qdp_parscalar_layout.cc |  8 ++++++--
 lib/qdp_scalar_layout.cc    | 10 +++++++---
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_layout.cc b/lib/qdp_layout.cc
index 711aa62..a9cc001 100644
--- a/lib/qdp_layout.cc
+++ b/lib/qdp_layout.cc
@@ -68,7 +68,11 @@ namespace QDP {
 
 #if QDP_USE_CB3D_LAYOUT == 1
 
-	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
+	// The orderings of the 3D checkerboard layout: the last dimension runs fastest.
+	// Everything that is not a layout (files, maps) keeps the usual order below.
+	namespace Layout
+	{
+	multi1d<int> crtesnLastFirst(int ipos, const multi1d<int>& latt_size)
 	{
 		multi1d<int> coord(latt_size.size());
 		int Ndim=latt_size.size() - 1; // Last elem latt size
@@ -99,7 +103,7 @@ namespace QDP {
 	* Nothing specific about the actual lattice size, can be used for 
 	* any kind of latt size 
 	*/
-	int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size)
+	int localSiteLastFirst(const multi1d<int>& coord, const multi1d<int>& latt_size)
 	{
 		int order = 0;
 
@@ -118,8 +122,10 @@ namespace QDP {
 		return order;
 	}
 
+	}
+
+#endif
 
-#else
 	// Usual lattice decomposition -- x fastest, t slowest
 	//! Decompose a lexicographic site into coordinates
 	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
@@ -162,8 +168,6 @@ namespace QDP {
 		return order;
 	}
 
-#endif
-
 
 
 } // namespace QDP;
diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8a2581d..d992b75 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -552,6 +552,10 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
 
   namespace Layout
   {
+    // Orderings with the last dimension running fastest, in qdp_layout.cc
+    multi1d<int> crtesnLastFirst(int ipos, const multi1d<int>& latt_size);
+    int localSiteLastFirst(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
     //! The linearized site index for the corresponding coordinate
     /*! This layout is appropriate for a 2 checkerboard (red/black) lattice */
     int linearSiteIndex(const multi1d<int>& coord)
@@ -571,7 +575,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       for(int i=1; i < Nd; ++i)
 	subgrid_cb_coord[i] = coord[i] % subgrid_cb_nrow[i];
     
-      return local_site(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
+      return localSiteLastFirst(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
     }
 
 
@@ -609,7 +613,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       coord *= Layout::subgridLattSize();
     
       int cb = linearsite / subgrid_vol_cb;
-      multi1d<int> tmp_coord = crtesn(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
+      multi1d<int> tmp_coord = crtesnLastFirst(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
 
       
 
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 61dc62a..0e25d37 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -361,6 +361,10 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
 
   namespace Layout
   {
+    // Orderings with the last dimension running fastest, in qdp_layout.cc
+    multi1d<int> crtesnLastFirst(int ipos, const multi1d<int>& latt_size);
+    int localSiteLastFirst(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
 
    
     //! Reconstruct the lattice coordinate from the node and site number
@@ -379,8 +383,8 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
 
       int cb = linearsite / vol_cb;
 
-      // This now uses crtesn with the t running fastest
-      multi1d<int> coord = crtesn(linearsite % vol_cb, cb_nrow);
+      // This now uses crtesnLastFirst with the t running fastest
+      multi1d<int> coord = crtesnLastFirst(linearsite % vol_cb, cb_nrow);
 
       int cbb = cb;
       for(int m=1; m<coord.size()-1; ++m) // Nd-1 checkerboard
@@ -412,7 +416,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       cb = cb & 1;
 
       // Use funky local site 
-      return local_site(cb_coord, cb_nrow) + cb*vol_cb;
+      return localSiteLastFirst(cb_coord, cb_nrow) + cb*vol_cb;
     }
   }
 
-- 
2.43.0


From e49a1274636e0d0b033abcfc96ac8d56fc2dc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 52/52] fix: assigning a scalar to a field held on a subset set
 only its first site

---
 include/qdp_outer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..a6c1651 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -242,8 +242,9 @@ inline
 void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs,
 	      const Subset& s)
 {
-  // Subset is not used at this level. It may be needed, though, within an inner operation
-  op(*dest, forEach(rhs, ElemLeaf(), OpCombine()));
+  // The destination holds only the sites of the subset on this node, possibly none
+  for(int j=0; j < s.numSiteTable(); ++j)
+    op(dest[j], forEach(rhs, ElemLeaf(), OpCombine()));
 }
 
 
-- 
2.43.0

