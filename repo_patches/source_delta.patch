From f7ee4676473e57a62200932329da45a9cabfd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/99] fix: BCRSMatrix::compress() must not write without any
 array storage

With an expected average row size of zero, compress() wrote the entries of
the overflow area through a null pointer.
---
 dune/istl/bcrsmatrix.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..eadda1f 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1389,6 +1389,13 @@ namespace Dune {
       if (ready!=building)
         DUNE_THROW(InvalidStateException,"You may only call compress() at the end of the 'building' stage");
 
+      // without any array storage there is no room for entries of the overflow area
+      if (allocationSize_==0 && !overflow.empty())
+        DUNE_THROW(Dune::ImplicitModeCompressionBufferExhausted,
+                   "Allocated memory for BCRSMatrix exhausted during compress()!"
+                   "Please increase either the average number of entries per row or the compressionBufferSize value."
+                   );
+
       //calculate statistics
       CompressionStatistics stats;
       stats.overflow_total = overflow.size();
-- 
2.43.0


From 1b1f0ab71bb3e6bfdb1220d86caf352054b1b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/99] fix: BCRSMatrix::nonzeroes() must not change the memory
 layout flag

nnz_ > 0 means that all rows live in one array.  Caching the number of
nonzeroes of a matrix with separately allocated rows in it made a later
operator*= or operator/= use the null array, and was a data race when a const
matrix is queried or copied by several threads.
---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index eadda1f..392fdc8 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2020,8 +2020,9 @@ namespace Dune {
     size_type nonzeroes () const
     {
       // in case of row-wise allocation
+      // the result must not be stored: nnz_ > 0 indicates that there is one array for all rows
       if( nnz_ <= 0 )
-        nnz_ = std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
+        return std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
       return nnz_;
     }
 
-- 
2.43.0


From cae909187719fff5a2bf065fea4b590ce7b03a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/99] fix: BCRSMatrix::nnz_ need not be mutable any more

---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 392fdc8..f93fb88 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2066,7 +2066,7 @@ namespace Dune {
     // size of the matrix
     size_type n;       // number of rows
     size_type m;       // number of columns
-    mutable size_type nnz_;     // number of nonzeroes contained in the matrix
+    size_type nnz_;     // number of nonzeroes contained in the matrix
     size_type allocationSize_; //allocated size of a and j arrays, except in implicit mode: nnz_==allocationsSize_
     // zero means that memory is allocated separately for each row.
 
-- 
2.43.0


From c4a6dc27256dfc5dfab38b830623cdf811a9c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/99] fix: BCRSMatrix: close gaps in the index array of the
 random build mode

If more indices than needed were reserved for some row, the index array kept
the unused slots.  A copy shares the index array and assumes that the rows are
stored contiguously, hence copying such a matrix overwrote the sparsity pattern
of the original.
---
 dune/istl/bcrsmatrix.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index f93fb88..eb7c75b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1278,6 +1278,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"matrix size not set and no memory allocated yet");
 
       // check if there are undefined indices
+      size_type* jptr = j_.get();
       RowIterator endi=end();
       for (RowIterator i=begin(); i!=endi; ++i)
       {
@@ -1291,6 +1292,15 @@ namespace Dune {
             break;
           }
         }
+
+        // close the gap left by unused indices of previous rows, a copy
+        // sharing the index array relies on contiguous storage
+        row_type& row = r[i.index()];
+        if (row.getsize() > 0 && row.getindexptr() != jptr) {
+          std::copy(row.getindexptr(), row.getindexptr()+row.getsize(), jptr);
+          row.setindexptr(jptr);
+        }
+        jptr += row.getsize();
       }
 
       allocateData();
-- 
2.43.0


From 74be71e538ada8fff9527142ee511c7140f8e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/99] fix: BCRSMatrix: do not destroy rows that were never
 allocated

In the random build mode with unknown number of nonzeroes, row sizes may be set
before any memory is allocated.  Destroying or resizing such a matrix called
the destructors of nonexistent blocks.
---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index eb7c75b..6fb2445 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2205,7 +2205,7 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 30909b751e6cacdbfffd89a576935e213741e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/99] fix: BCRSMatrix: deallocate rows with the size they
 were allocated with

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 6fb2445..b4eeea7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2211,8 +2211,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 5d69c02efa3e811e6cee8e9c0413cc3c39dc8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/99] fix: BCRSMatrix: setSize() must discard entries of an
 unfinished implicit build

Entries in the overflow area survived setSize() and showed up again in the
pattern of the new matrix.
---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b4eeea7..b584771 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2227,6 +2227,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // discard entries of an unfinished implicit build
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From c451423bd6ec0288069ca97274e344df7aaa665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/99] fix: BCRSMatrix: count the nonzeroes of the random
 build mode correctly

If more nonzeroes were reserved than the row sizes add up to, nonzeroes()
returned the reserved number, and scaling the matrix used uninitialised blocks.
---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b584771..7b70f6d 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1163,6 +1163,9 @@ namespace Dune {
       else if(nnz_ < total)
         DUNE_THROW(BCRSMatrixError,"Specified number of nonzeros ("<<nnz_<<") not "
                                                              <<"sufficient for calculated nonzeros ("<<total<<"! ");
+      else
+        // Set nnz to the exact number of nonzero blocks, as in row-wise mode
+        nnz_ = total;
 
       // set the window pointers correctly
       setColumnPointers(begin());
-- 
2.43.0


From 9937e19fad019643a10941621aaa1ed1a848e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 09/99] fix: BCRSMatrix: row-wise creation of a matrix without
 rows

createend() threw because createbegin() had already marked the matrix as built,
and reserved nonzeroes were reported as stored.
---
 dune/istl/bcrsmatrix.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 7b70f6d..60d7c21 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,13 +961,15 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        if (i==0 && Mat.ready != building && !(Mat.ready == built && Mat.n == 0))
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-        if(i==0 && _Mat.N()==0)
-          // empty Matrix is always built.
-           Mat.ready = built;
+        if(i==0 && _Mat.N()==0) {
+          // empty Matrix is always built and has no nonzeroes.
+          Mat.ready = built;
+          Mat.nnz_ = 0;
+        }
       }
 
       //! prefix increment
-- 
2.43.0


From f861f0db72a317ea68bf71c2a27e51187e96e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 10/99] fix: BCRSMatrix::compress(): a matrix without rows has
 no nonzeroes

---
 dune/istl/bcrsmatrix.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 60d7c21..3e5277b 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1512,6 +1512,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From b5a7451bd90ad7a232c330c91668108ca92887d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 11/99] fix: VariableBlockVector: creating a vector without
 blocks

allocate() wrote to the first block of an empty vector.
---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..6318650 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size() > 0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From 9efea82c25d939e268f7ceecb9e8e5eaf967c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 12/99] fix: VariableBlockVector::resize(n) must forget the old
 block sizes

It is documented to have the effect of the constructor, but blocks whose size
is not set afterwards kept their previous size and a dangling pointer.
---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 6318650..50f3819 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -199,7 +199,8 @@ namespace Dune {
 
       syncBaseArray();
 
-      // we can allocate the windows now
+      // we can allocate the windows now, the previous ones refer to released storage
+      block.clear();
       block.resize(numBlocks);
 
       // and the vector not fully usable
-- 
2.43.0


From 95f56c76418f97d795b5de0c0a27410751e91185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 13/99] fix: Matrix::infinity_norm() does not compile for field
 types without NaN

---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..7574828 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From 6f6fdc4b055d9668f9c022ed7290b291afa15bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 14/99] fix: Matrix::exists() checks the wrong index against
 the number of columns

---
 dune/istl/matrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 7574828..8e04776 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -1064,7 +1064,7 @@ namespace MatrixImp
     {
 #ifdef DUNE_ISTL_WITH_CHECKING
       if (i<0 || i>=N()) DUNE_THROW(ISTLError,"row index out of range");
-      if (j<0 || i>=M()) DUNE_THROW(ISTLError,"column index out of range");
+      if (j<0 || j>=M()) DUNE_THROW(ISTLError,"column index out of range");
 #endif
       return true;
     }
-- 
2.43.0


From 6f97d3880468e2594be29de5af0c9629dccfa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 15/99] fix: BCRSMatrix: assignment must not release the rows a
 second time

deallocate() has released the rows if the number of rows differs, and has reset
the pointer; destroying and deallocating null rows is undefined behaviour.
---
 dune/istl/bcrsmatrix.hh | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3e5277b..733068c 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -917,14 +917,6 @@ namespace Dune {
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
 
-      // reallocate the rows if required
-      if (n>0 && n!=Mat.n) {
-        // free rows
-        for(row_type *riter=r+(n-1), *rend=r-1; riter!=rend; --riter)
-          std::allocator_traits<decltype(rowAllocator_)>::destroy(rowAllocator_, riter);
-        rowAllocator_.deallocate(r,n);
-      }
-
       nnz_ = Mat.nonzeroes();
 
       // allocate a, share j_
-- 
2.43.0


From 5505162b1dca7b6414fea77e7ae43045cd7f9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/99] fix: BCRSMatrix: the copy of an empty matrix is not
 built

A copy of a matrix without size was marked as built, so that its build mode
could not be set any more.
---
 dune/istl/bcrsmatrix.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 733068c..7e4a657 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2171,6 +2171,15 @@ namespace Dune {
       // copy data
       for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
 
+      // the copy of a matrix without size is not built either, it can still be set up in any mode
+      if (Mat.ready == notAllocated) {
+        build_mode = Mat.build_mode;
+        avg = Mat.avg;
+        compressionBufferSize_ = Mat.compressionBufferSize_;
+        ready = notAllocated;
+        return;
+      }
+
       // finish off
       build_mode = row_wise; // dummy
       ready = built;
-- 
2.43.0


From 64e596e9f613009dd153f0333749840fc535485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 17/99] fix: BCRSMatrix: copying must not write to the shared
 column indices

The copy shares the array of column indices and wrote the indices, to themselves,
back into it.  This is a data race if the matrix is used by another thread.
---
 dune/istl/bcrsmatrix.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 7e4a657..7a1b164 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2168,8 +2168,13 @@ namespace Dune {
     {
       setWindowPointers(Mat.begin());
 
-      // copy data
-      for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
+      // copy data, the column indices only if they are not shared
+      if (j_ == Mat.j_) {
+        for (size_type i=0; i<n; i++)
+          std::copy(Mat.r[i].getptr(), Mat.r[i].getptr()+Mat.r[i].getsize(), r[i].getptr());
+      } else {
+        for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
+      }
 
       // the copy of a matrix without size is not built either, it can still be set up in any mode
       if (Mat.ready == notAllocated) {
-- 
2.43.0


From db9524624c0a9fefbdbbc8706e896f898099a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 18/99] fix: BDMatrix::setSize() on a default-constructed or
 copied matrix

It always threw for a positive size, because the build mode was not set.
---
 dune/istl/bdmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..31a0eef 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -84,6 +84,9 @@ namespace Dune {
                                      size,   // columns
                                      size);  // nonzeros
 
+      // a default-constructed or copied matrix need not be in random mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
 
-- 
2.43.0


From 5379b104e544b7b87d13e92148e4cb95515a5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 19/99] fix: BTDMatrix::setSize() on a default-constructed or
 copied matrix

It always threw for a positive size, because the build mode was not set.
---
 dune/istl/btdmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..023c043 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -81,6 +81,9 @@ namespace Dune {
                                      size,   // columns
                                      nonZeros);
 
+      // a default-constructed or copied matrix need not be in random mode
+      this->setBuildMode(BCRSMatrix<B,A>::random);
+
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
       for (size_t i=0; i<size; i++)
-- 
2.43.0


From f62c0f7703a037e96e4f06e0cd8bad6274f4ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 20/99] fix: ScaledIdentityMatrix: norms, inverse and output of
 complex matrices

The Frobenius norm must use the absolute value of the entries, and the
integer constants did not compile with complex numbers.
---
 dune/istl/scaledidmatrix.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index 4efdba4..55e5c1c 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -361,13 +361,13 @@ namespace Dune {
     //! frobenius norm: sqrt(sum over squared values of entries)
     typename FieldTraits<field_type>::real_type frobenius_norm () const
     {
-      return fvmeta::sqrt(n*p_*p_);
+      return fvmeta::sqrt(frobenius_norm2());
     }
 
     //! square of frobenius norm, need for block recursion
     typename FieldTraits<field_type>::real_type frobenius_norm2 () const
     {
-      return n*p_*p_;
+      return n*fvmeta::abs2(p_);
     }
 
     //! infinity norm (row sum norm, how to generalize for blocks?)
@@ -397,7 +397,7 @@ namespace Dune {
      */
     void invert()
     {
-      p_ = 1/p_;
+      p_ = K(1)/p_;
     }
 
     //! calculates the determinant of this matrix
@@ -438,7 +438,7 @@ namespace Dune {
     {
       for (size_type i=0; i<n; i++) {
         for (size_type j=0; j<n; j++)
-          s << ((i==j) ? a.p_ : 0) << " ";
+          s << ((i==j) ? a.p_ : K(0)) << " ";
         s << std::endl;
       }
       return s;
-- 
2.43.0


From 997d8341707d74679de8f6c3385148c5e6a502e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 21/99] fix: sparse matrix products without rows

Do not dereference the row iterator of a result that has no rows.
---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From c01c008018d7ec8617185a34c2a054ff0ada418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 22/99] fix: MatrixDimension: do not look into the entries of
 an empty row

Rows of a matrix that was built implicitly have a pointer even if they
are empty.
---
 dune/istl/matrixutils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..c3c6231 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -267,7 +267,7 @@ namespace Dune
     static size_type rowdim (const Matrix& A, size_type i)
     {
       const B* row = A.r[i].getptr();
-      if(row)
+      if(row && A.r[i].getsize()>0)
         return MatrixDimension<block_type>::rowdim(*row);
       else
         return 0;
-- 
2.43.0


From 207002af10ab8eee3797f28bb79920a01956447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 23/99] fix: MatrixDimension: skip columns of unknown dimension

The comparison of an unsigned number with zero is always true, so that
the marker was added to the sum.
---
 dune/istl/matrixutils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c3c6231..fbf5d75 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -328,7 +328,7 @@ namespace Dune
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
         // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        if ((*it)!=std::numeric_limits<size_type>::max())
           sum += *it;
 
       return sum;
-- 
2.43.0


From dacd4f8e83a9257cb8282d2419949149daf6bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 24/99] fix: ILU: detect a missing diagonal entry at the end of
 a row

The search for the diagonal ran past the end of a row without an entry on
or right of the diagonal, and took the first entry of the next row for the
diagonal entry if that happened to have the right column index.
---
 dune/istl/ilu.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..0301b8c 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
@@ -196,7 +196,7 @@ namespace Dune {
           rowpattern[j.index()] = 0;
 
         // eliminate entries in row which are to the left of the diagonal
-        for (mapiterator ik=rowpattern.begin(); (*ik).first<i.index(); ++ik)
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end() && (*ik).first<i.index(); ++ik)
         {
           if ((*ik).second<n)
           {
-- 
2.43.0


From dd89c4a3090cea76b65490c45c4739efbd1afc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 25/99] fix: ILDL: detect a missing diagonal entry at the end
 of a row

---
 dune/istl/ildl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..417b324 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -94,7 +94,8 @@ namespace Dune
       auto &&A_i = *i;
 
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      const auto ijend = A_i.end();
+      for( ; ij != ijend && ij.index() < i.index(); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( ij == ijend || ij.index() != i.index() )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
-- 
2.43.0


From e40563a261a65b2f9bacbf8ea5ae59a9b622caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 26/99] fix: ILU: convertToCRS() of a matrix without rows

The row offsets of the empty matrix were written without having been
allocated.
---
 dune/istl/ilu.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 0301b8c..3fe01c1 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -281,7 +281,7 @@ namespace Dune {
 
       void resize( const size_type nRows )
       {
-          if( nRows_ != nRows )
+          if( nRows_ != nRows || rows_.empty() )
           {
             nRows_ = nRows ;
             rows_.resize( nRows_+1, size_type(-1) );
@@ -324,7 +324,6 @@ namespace Dune {
       // lower and upper triangular should store half of non zeros minus diagonal
       const size_t memEstimate = (A.nonzeroes() - A.N())/2;
 
-      assert( A.nonzeroes() != 0 );
       lower.reserveAdditional( memEstimate );
       upper.reserveAdditional( memEstimate );
 
-- 
2.43.0


From cd0fe884b131aafac11ea27f9c5a3fd5e5469b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 27/99] fix: Jacobi and SOR steps on nested blocks must start
 from a zero correction

bsorf(), bsorb() and dbjac() compute a correction for each block.  With a
block level larger than one the step on the diagonal block improves a start
value, which was the first block of the iterate, the correction of the
previous row or the iterate itself instead of zero.  The solution was no
fixed point, and blocks of different sizes were accessed out of bounds.
---
 dune/istl/gsetc.hh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..ceccdd1 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -424,10 +424,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
       {
@@ -451,6 +447,8 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          v = x[i.index()];           // initialize nested data structure
+          v = 0;           // v is a correction
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -467,10 +465,6 @@ namespace Dune {
       bblock rhs;
       xblock v;
 
-      // Initialize nested data structure if there are entries
-      if(A.begin()!=A.end())
-        v=x[0];
-
       rowiterator endi=A.beforeBegin();
       for (rowiterator i=A.beforeEnd(); i!=endi; --i)
       {
@@ -494,6 +488,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          v = x[i.index()];           // initialize nested data structure
+          v = 0;           // v is a correction
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -509,6 +505,7 @@ namespace Dune {
       bblock rhs;
 
       X v(x);     // allocate with same size
+      v = 0;      // v is a correction
 
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
-- 
2.43.0


From a3b4da23bc946c7b4184db0a8a81bb084125e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 28/99] fix: MultiTypeBlockMatrix: SOR steps must start from a
 zero correction

As in dbjac(), the start value of the step on the diagonal block is zero.
---
 dune/istl/multitypeblockmatrix.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..335b407 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -527,8 +527,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorf(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //v is a correction
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorf(A,x,v,b,w);
 
     }
@@ -554,8 +554,8 @@ namespace Dune {
      */
     template <typename TVector, typename TMatrix, typename K>
     static void bsorb(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
-      TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      TVector v(x);
+      v=0;                                                            //v is a correction
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorb(A,x,v,b,w);
 
     }
-- 
2.43.0


From eaca0153cbeed102c8e8679b0e09067edd13cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 29/99] fix: MultiTypeBlockMatrix: Gauss-Seidel step computed a
 correction

dbgs() solved the diagonal block with the defect as right hand side, but
stored the result as the new value of the block.
---
 dune/istl/multitypeblockmatrix.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index 335b407..a99578d 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -509,6 +509,8 @@ namespace Dune {
       auto rhs = std::get<crow> (b);
 
       MultiTypeBlockMatrix_Solver_Col<I,crow,0, TMatrix::M()>::calc_rhs(A,x,v,rhs,w);  // calculate right side of equation
+      //the diagonal block is solved for the new value, not for a correction
+      std::get<crow>( std::get<crow>(A) ).umv( std::get<crow>(x), rhs );
       //solve on blocklevel I-1
       using M =
         typename std::remove_cv<
-- 
2.43.0


From 758a78683a1c83f94b2f7d20d231788b96482e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 30/99] fix: ILU(n): detect a missing diagonal entry in the
 symbolic phase

---
 dune/istl/ilu.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 3fe01c1..8b1cb07 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -202,6 +202,8 @@ namespace Dune {
           {
             coliterator endk = ILU[(*ik).first].end();                       // end of row k
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
+            if (kj==endk)
+              DUNE_THROW(ISTLError,"diagonal entry missing");
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
               // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-- 
2.43.0


From 9adf4d395198c0d90c036425d6a705fea691b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 31/99] fix: MultiTypeBlockMatrix: maximum norms must not drop
 NaN

A NaN in any row but the last was lost in std::max, other than in all
other matrix and vector classes.
---
 dune/istl/multitypeblockmatrix.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index a99578d..22f38d3 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -384,6 +384,7 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      real_type nanTracker=1;  // preserves any nan value
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -393,8 +394,13 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm();
         });
         norm = max(sum, norm);
+        if constexpr (HasNaN<field_type>())
+          nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<field_type>())
+        norm *= (nanTracker / nanTracker);
       return norm;
     }
 
@@ -403,6 +409,7 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      real_type nanTracker=1;  // preserves any nan value
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -412,8 +419,13 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm_real();
         });
         norm = max(sum, norm);
+        if constexpr (HasNaN<field_type>())
+          nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<field_type>())
+        norm *= (nanTracker / nanTracker);
       return norm;
     }
 
-- 
2.43.0


From 81643b0c9d947ae2dc62eaad1bc6339693295d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 32/99] fix: IterativeSolver::apply() with a reduction must
 restore it after an abort

---
 dune/istl/solver.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..f48aaab 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -377,7 +377,13 @@ namespace Dune
     {
       scalar_real_type saved_reduction = _reduction;
       _reduction = reduction;
-      this->apply(x,b,res);
+      try {
+        this->apply(x,b,res);
+      }
+      catch (...) {
+        _reduction = saved_reduction;
+        throw;
+      }
       _reduction = saved_reduction;
     }
 
-- 
2.43.0


From 2914940b798093ffa9ae2241f89f3e22ddc03fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 33/99] fix: solver statistics must not be NaN for a zero
 initial defect

---
 dune/istl/solver.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index f48aaab..087948f 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -488,7 +488,8 @@ namespace Dune
       void finalize(){
         _res.converged = (Simd::allTrue(_def<_def0*_parent._reduction || _def<real_type(1E-30)));
         _res.iterations = _i;
-        _res.reduction = static_cast<double>(Simd::max(_def/_def0));
+        // nothing to reduce if the initial defect is zero
+        _res.reduction = static_cast<double>(Simd::max(Simd::cond(_def0==real_type(0.), real_type(0.), real_type(_def/_def0))));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
         _res.elapsed = _watch.elapsed();
         if (_parent._verbose>0)                 // final print
-- 
2.43.0


From 41dfa38d59f6afb12960466e6ef48f703e2eace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 34/99] fix: GMRes solvers ignored the reduction passed to
 apply()

---
 dune/istl/solvers.hh | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..e18edb3 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -899,6 +899,9 @@ namespace Dune {
       _restart(restart)
     {}
 
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
+
     /*!
        \brief Apply inverse operator.
 
@@ -908,19 +911,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1151,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From 77f4f0abacd5a76a8a26a94f709c1b7c1d98b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 35/99] fix: GMRes solvers must restart before the last
 iteration, too

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index e18edb3..bf686f6 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1003,8 +1003,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if there are iterations left (do not restart after the last one)
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1248,8 +1248,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if there are iterations left (do not restart after the last one)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From fa607b816732264154ef6377ba2672e710e3075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 36/99] fix: GeneralizedPCGSolver must stop when it has
 converged

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index bf686f6..5da1387 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1421,7 +1421,7 @@ private:
       while(i<_maxit) {
         // the loop
         int end=std::min(_restart, _maxit-i+1);
-        for (int ii = 1; ii < end; ++ii)
+        for (int ii = 1; ii < end && !res.converged; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
           // compute next conjugate direction
-- 
2.43.0


From 0e7c9eb53a5b394348d3d115658b850a7a84ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 37/99] fix: GeneralizedPCGSolver must not iterate more often
 than allowed

---
 dune/istl/solvers.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 5da1387..aa37fb2 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1396,6 +1396,11 @@ private:
         _prec->post(x);
         return;
       }
+      // no iteration allowed
+      if(_maxit < 1){
+        _prec->post(x);
+        return;
+      }
       // some local variables
       field_type rho, lambda;
 
-- 
2.43.0


From 903c4c020d1621718c1eefbc75bd56bab45a3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 38/99] fix: GeneralizedPCGSolver did not terminate for
 restart=1

---
 dune/istl/solvers.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index aa37fb2..461b7bf 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1424,9 +1424,10 @@ private:
       }
 
       while(i<_maxit) {
-        // the loop
-        int end=std::min(_restart, _maxit-i+1);
-        for (int ii = 1; ii < end && !res.converged; ++ii)
+        // the loop, keeping the last direction if there is room for more than one
+        const int begin=std::min(1, _restart-1);
+        int end=std::min(_restart, _maxit-i+begin);
+        for (int ii = begin; ii < end && !res.converged; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
           // compute next conjugate direction
-- 
2.43.0


From 341c6a5495320b65382e98a49e1b2a27c2ac380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 39/99] fix: FCG solvers must stop when they have converged

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 461b7bf..0c85e65 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1603,7 +1603,7 @@ private:
       int i=1;
       int i_bounded=0;
       while(i<=_maxit && !res.converged) {
-        for (; i_bounded <= _mmax && i<= _maxit; i_bounded++) {
+        for (; i_bounded <= _mmax && i<= _maxit && !res.converged; i_bounded++) {
           d[i_bounded] = 0;                   // reset search direction
           _prec->apply(d[i_bounded], b);     // apply preconditioner
           w = d[i_bounded];                 // copy of current d[i]
-- 
2.43.0


From 0fb20eec688e816a91343f18c060921627318a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 40/99] fix: RestartedFCGSolver did not terminate for mmax=0

---
 dune/istl/solvers.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 0c85e65..65bd829 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1646,8 +1646,8 @@ private:
 
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
-      // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      // Reset loop index (there is nothing to keep for mmax=0) and exchange the first and last arrays
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 254144775e8bd020c7d582f691454de910858bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 41/99] fix: MINRESSolver compared defects in different norms

---
 dune/istl/solvers.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 65bd829..543c5ba 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -641,7 +641,8 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+      // measure it as in the iteration, i.e. in the norm defined by W^-1
+      real_type def = sqrt(abs(_sp->dot(b,z)));
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
-- 
2.43.0


From 6064314696af079437777ee7cd42f3cae2ca2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 42/99] fix: GeneralizedPCGSolver: order of the scalar product
 for complex numbers

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 543c5ba..e0e2198 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1439,7 +1439,7 @@ private:
           _op->apply(prec_res, q);
 
           for(int j=0; j<ii; ++j) {
-            rho =_sp->dot(q,*(p[j]))/pp[j];
+            rho =_sp->dot(*(p[j]),q)/pp[j];
             p[ii]->axpy(-rho, *(p[j]));
           }
 
-- 
2.43.0


From ce9bdac1e138103f942c404e55f67ca2147fbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 43/99] fix: MINRES and GMRes: plane rotations must not depend
 on the scaling of the matrix

---
 dune/istl/solvers.hh | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index e0e2198..c41eb50 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -770,24 +770,25 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
+      // entries are negligible compared to the other one, not in absolute terms
+      const real_type eps = real_type(1e-15)*norm_max;
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy <= eps,
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps,
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy <= eps,
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps,
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             // dy and dx are real in exact arithmetic
@@ -1067,24 +1068,25 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
+      // entries are negligible compared to the other one, not in absolute terms
+      const real_type eps = real_type(1e-15)*norm_max;
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy <= eps,
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps,
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy <= eps,
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx <= eps,
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*conjugate(dy)/norm_dx/norm_dy,
-- 
2.43.0


From 7cca7ab3a41f1d77267481ca3e9b6f7d583cdfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 44/99] fix: CGSolver: condition estimate read past the
 recorded coefficients

---
 dune/istl/solvers.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index c41eb50..2ba9265 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -347,7 +347,8 @@ namespace Dune {
           // those of the original system
           // (see Y. Saad, Iterative methods for sparse linear systems)
 
-          COND_MAT T(i, i, COND_MAT::row_wise);
+          const int n = lambdas.size();
+          COND_MAT T(n, n, COND_MAT::row_wise);
 
           for (auto row = T.createbegin(); row != T.createend(); ++row) {
             if (row.index() > 0)
@@ -356,7 +357,7 @@ namespace Dune {
             if (row.index() < T.N() - 1)
               row.insert(row.index()+1);
           }
-          for (int row = 0; row < i; ++row) {
+          for (int row = 0; row < n; ++row) {
             if (row > 0) {
               T[row][row-1] = sqrt(betas[row-1]) / lambdas[row-1];
             }
@@ -366,7 +367,7 @@ namespace Dune {
               T[row][row] += betas[row-1] / lambdas[row-1];
             }
 
-            if (row < i - 1) {
+            if (row < n - 1) {
               T[row][row+1] = sqrt(betas[row]) / lambdas[row];
             }
           }
-- 
2.43.0


From 531eb0ee258ddffdf4363054eb41bef65b62576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 45/99] fix: CGSolver: condition estimate after one iteration
 or none

---
 dune/istl/solvers.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 2ba9265..f814618 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -348,6 +348,14 @@ namespace Dune {
           // (see Y. Saad, Iterative methods for sparse linear systems)
 
           const int n = lambdas.size();
+
+          // ARPACK needs at least two rows
+          if (n < 2) {
+            if (n == 1)
+              res.condition_estimate = 1.0;
+            return;
+          }
+
           COND_MAT T(n, n, COND_MAT::row_wise);
 
           for (auto row = T.createbegin(); row != T.createend(); ++row) {
-- 
2.43.0


From a22f20e5b27f88a93ca17c827ef3c628b10114b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 46/99] fix: UMFPack: make apply on C arrays compile for
 complex matrices

---
 dune/istl/umfpack.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..eeceffa 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -470,8 +470,8 @@ namespace Dune {
                     umfpackMatrix_.getColStart(),
                     umfpackMatrix_.getRowIndex(),
                     umfpackMatrix_.getValues(),
-                    x,
-                    b,
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
                     UMF_Numeric,
                     UMF_Control,
                     UMF_Apply_Info);
-- 
2.43.0


From fad79fc952a4087371e565a042f872dfff1a353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 47/99] fix: SuperLU: free() without a matrix, or twice, does
 nothing

---
 dune/istl/superlu.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/superlu.hh b/dune/istl/superlu.hh
index 0d69988..cdc5358 100644
--- a/dune/istl/superlu.hh
+++ b/dune/istl/superlu.hh
@@ -402,6 +402,8 @@ namespace Dune
   template<typename M>
   void SuperLU<M>::free()
   {
+    if(mat.N()+mat.M()==0)
+      return;
     delete[] perm_c;
     delete[] perm_r;
     delete[] etree;
-- 
2.43.0


From cb427bd7e727c3bfe4f2d6325c94c67b685af028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 48/99] fix: Cholmod: setMatrix forgets the ignore field and
 the factor of the previous matrix

---
 dune/istl/cholmod.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..ed8283f 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -360,6 +360,11 @@ public:
       numberOfIgnoredDofs = std::count(flatIgnore.begin(),flatIgnore.end(),true);
     }
 
+    // forget everything about a previously set matrix
+    subIndices_.clear();
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+
     nIsZero_ = (size_t(flatRows) <= numberOfIgnoredDofs);
 
     if ( nIsZero_ )
-- 
2.43.0


From 40c81d6e6f262e4446342c88b1ae6044080f8ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 49/99] fix: SPQR: allocate complex storage for complex
 matrices, delete the CHOLMOD common object

---
 dune/istl/spqr.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..bac5375 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -149,6 +149,7 @@ namespace Dune {
       if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
         free();
       cholmod_l_finish(cc_);
+      delete cc_;
     }
 
     /** \copydoc InverseOperator::apply(X&, Y&, InverseOperatorResult&) */
@@ -290,8 +291,9 @@ namespace Dune {
       const std::size_t ncols(spqrMatrix_.M());
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
-      // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      // initialise the matrix A (sorted, packed, unsymmetric, real or complex entries)
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0,
+                                     std::is_same_v<T,double> ? CHOLMOD_REAL : CHOLMOD_COMPLEX, cc_);
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
-- 
2.43.0


From f3a433093bb98c7ea306c55c496211128c64758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 50/99] fix: UMFPack: apply works with a loaded decomposition

---
 dune/istl/umfpack.hh | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index eeceffa..ef7ec3c 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -402,9 +402,10 @@ namespace Dune {
      */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
-      if (umfpackMatrix_.N() != b.dim())
+      // the matrix is not known if only its decomposition was loaded
+      if (!matrixIsLoaded_ && umfpackMatrix_.N() != b.dim())
         DUNE_THROW(Dune::ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
-      if (umfpackMatrix_.M() != x.dim())
+      if (!matrixIsLoaded_ && umfpackMatrix_.M() != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
         return;
@@ -424,15 +425,7 @@ namespace Dune {
       });
 
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(&xFlat[0]),
-                    reinterpret_cast<double*>(&bFlat[0]),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(&xFlat[0], &bFlat[0], UMF_Apply_Info);
 
       // copy back to blocked vector
       flatVectorForEach(x, [&](auto&& entry, auto offset)
@@ -466,15 +459,7 @@ namespace Dune {
     void apply(T* x, T* b)
     {
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(x),
-                    reinterpret_cast<double*>(b),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(x, b, UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
     }
 
@@ -726,6 +711,25 @@ namespace Dune {
     friend class SeqOverlappingSchwarz;
     friend struct SeqOverlappingSchwarzAssemblerHelper<UMFPack<Matrix>,true>;
 
+    /** @brief forward and backward substitution for flat arrays */
+    void solve(T* x, T* b, double* info)
+    {
+      // iterative refinement is impossible with a loaded decomposition, as the matrix is not known
+      const double refinementSteps = UMF_Control[UMFPACK_IRSTEP];
+      if (matrixIsLoaded_)
+        UMF_Control[UMFPACK_IRSTEP] = 0;
+      Caller::solve(UMFPACK_A,
+                    umfpackMatrix_.getColStart(),
+                    umfpackMatrix_.getRowIndex(),
+                    umfpackMatrix_.getValues(),
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
+                    UMF_Numeric,
+                    UMF_Control,
+                    info);
+      UMF_Control[UMFPACK_IRSTEP] = refinementSteps;
+    }
+
     /** @brief computes the LU Decomposition */
     void decompose()
     {
-- 
2.43.0


From 32e110c8eabb8b37ac9ef05daf62e1ff1699e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 51/99] fix: UMFPack: free() without a matrix, or twice, does
 nothing

---
 dune/istl/umfpack.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index ef7ec3c..4db660b 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -693,6 +693,8 @@ namespace Dune {
      */
     void free()
     {
+      if (umfpackMatrix_.N() + umfpackMatrix_.M() == 0 && !matrixIsLoaded_)
+        return;
       if (!matrixIsLoaded_)
       {
         Caller::free_symbolic(&UMF_Symbolic);
-- 
2.43.0


From e7d53e63e7dd187979c2611eff539eb8f2bf23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 52/99] fix: LDL: free() without a matrix, or twice, does
 nothing

---
 dune/istl/ldl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/ldl.hh b/dune/istl/ldl.hh
index ce56f88..bb8ad15 100644
--- a/dune/istl/ldl.hh
+++ b/dune/istl/ldl.hh
@@ -245,6 +245,8 @@ namespace Dune {
      */
     void free()
     {
+      if (ldlMatrix_.N() + ldlMatrix_.M() == 0 && !matrixIsLoaded_)
+        return;
       delete [] D_;
       delete [] Y_;
       delete [] Lp_;
-- 
2.43.0


From 41904c442afd8790837aa962c814e7ce01025b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 53/99] fix: SPQR: free() without a matrix, or twice, does
 nothing

---
 dune/istl/spqr.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index bac5375..9c73e1c 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -265,6 +265,8 @@ namespace Dune {
      */
     void free()
     {
+      if (spqrMatrix_.N() + spqrMatrix_.M() == 0 && !matrixIsLoaded_)
+        return;
       cholmod_l_free_sparse(&A_, cc_);
       cholmod_l_free_dense(&B_, cc_);
       SuiteSparseQR_free<T>(&spqrfactorization_, cc_);
-- 
2.43.0


From e9af429a2f45435440ed58755548f5146d067ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 54/99] fix: LDL: release the memory of a failed factorisation

---
 dune/istl/ldl.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/ldl.hh b/dune/istl/ldl.hh
index bb8ad15..663152d 100644
--- a/dune/istl/ldl.hh
+++ b/dune/istl/ldl.hh
@@ -322,6 +322,8 @@ namespace Dune {
       Pinv_ = new int [dimMat];
 
       double Info [AMD_INFO];
+      Lx_ = nullptr;
+      Li_ = nullptr;
       if(amd_order (dimMat, ldlMatrix_.getColStart(), ldlMatrix_.getRowIndex(), P_, (double *) NULL, Info) < AMD_OK)
         DUNE_THROW(InvalidStateException,"Error: AMD failed!");
       if(verbose_ > 0)
@@ -341,7 +343,10 @@ namespace Dune {
       delete [] Lnz_;
 
       if(rank!=dimMat)
+      {
+        free();
         DUNE_THROW(InvalidStateException,"Error: LDL factorisation failed!");
+      }
     }
 
     LDLMatrix ldlMatrix_;
-- 
2.43.0


From 9194d58e3f369521d1087f0e3c4924c9f41f2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 55/99] fix: MatrixMarket: write complex numbers in the format
 that is read back

---
 dune/istl/matrixmarket.hh | 55 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..7d282aa 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -896,14 +896,37 @@ namespace Dune
     istr >> cols;
   }
 
+  // Read a number, complex ones either as "real imag" or as "(real,imag)"
+  template<typename T>
+  void mm_read_number(T& number, std::istream& istr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value)
+    {
+      istr >> std::ws;
+      if (istr.peek() == '(')
+        istr >> number;
+      else
+      {
+        typename T::value_type real = 0, imag = 0;
+        istr >> real >> imag;
+        number = {real, imag};
+      }
+    }
+    else
+      istr >> number;
+  }
+
   template<typename T, typename A>
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
                               size_t lane)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (int i=0; size>0; ++i, --size) {
+      Simd::Scalar<T> val;
+      mm_read_number(val, istr);
+      Simd::lane(lane,vector[i])=val;
+    }
   }
 
   template<typename T, typename A, int entries>
@@ -914,7 +937,7 @@ namespace Dune
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      mm_read_number(val, istr);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -1025,6 +1048,16 @@ namespace Dune
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
+  // Print a number: the format wants real and imaginary part of a complex number separated by a blank
+  template<typename T>
+  void mm_print_number(const T& number, std::ostream& ostr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value)
+      ostr << number.real() << " " << number.imag();
+    else
+      ostr << number;
+  }
+
   // Print a scalar entry
   template<typename B>
   void mm_print_entry(const B& entry,
@@ -1033,13 +1066,20 @@ namespace Dune
                       std::ostream& ostr)
   {
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    {
+      ostr << rowidx << " " << colidx << " ";
+      mm_print_number(entry, ostr);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
-        for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        for (auto col = row->begin(); col != row->end(); ++col, ++coli) {
+          ostr<< rowidx<<" "<<coli<<" ";
+          mm_print_number(*col, ostr);
+          ostr<<std::endl;
+        }
       }
     }
   }
@@ -1050,7 +1090,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    mm_print_number(static_cast<Simd::Scalar<V>>(Simd::lane(lane,entry)), ostr);
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From 9b5b2110c91d30d3a393a75116fc52a9e473d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 56/99] fix: MatrixMarket: read matrices with partially stored
 blocks or without full diagonal

---
 dune/istl/matrixmarket.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 7d282aa..70dad98 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1028,18 +1028,20 @@ namespace Dune
 
     istr >>entries;
 
-    std::size_t nnz, blockrows, blockcols;
+    std::size_t blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
+    std::tie(blockrows, blockcols, std::ignore) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
-    matrix.setSize(blockrows, blockcols, nnz);
+    // The number of nonzero blocks is only known after reading all entries: blocks may be
+    // stored partially, and symmetric matrices need not have a full diagonal.
+    matrix.setSize(blockrows, blockcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
     if(header.type==array_type)
-- 
2.43.0


From 1b7c32217c0e8b6f911cb5d449db49abc20e2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 57/99] fix: MatrixMarket: report truncated and malformed files
 instead of reading beyond the data

---
 dune/istl/matrixmarket.hh | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 70dad98..b479d9d 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,9 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -784,9 +787,11 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Invalid or missing matrix entry!");
+          if(row>=rows.size() || data.index/bcols>=matrix.M())
+            DUNE_THROW(MatrixMarketFormatError, "Matrix entry out of range!");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -864,9 +869,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
 
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
@@ -894,6 +896,9 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Invalid size line!");
   }
 
   // Read a number, complex ones either as "real imag" or as "(real,imag)"
@@ -986,6 +991,8 @@ namespace Dune
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
+      if(!istr)
+        DUNE_THROW(MatrixMarketFormatError, "Invalid or missing vector entry!");
     }
   }
 
@@ -1028,12 +1035,18 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Invalid size line!");
+
     std::size_t blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
     std::tie(blockrows, blockcols, std::ignore) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-- 
2.43.0


From 0cc79fe41842a27e1c42eef5098469d388a29ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 58/99] fix: OwnerOverlapCopyCommunication::dot conjugates its
 first argument like ScalarProduct::dot

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From 889eaff4fc63a017c65ae21518b22f4e2bd0aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 59/99] fix: OwnerOverlapCopyCommunication: check for the end
 of the index set before dereferencing

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From 42e5d80be6c13de5f2ec8f23767b4f10a56d11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 60/99] fix: MatrixMarket: report truncated and malformed index
 files

---
 dune/istl/matrixmarket.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index b479d9d..3da2f4c 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1373,7 +1373,7 @@ namespace Dune
       DUNE_THROW(InvalidIndexSetState, "Index set is not empty!");
 
     pis.beginResize();
-    while(!file.eof() && file.peek()!='n') {
+    while(file.peek()!=std::ifstream::traits_type::eof() && file.peek()!='n') {
       G g;
       file >>g;
       std::size_t l;
@@ -1382,6 +1382,8 @@ namespace Dune
       file >>c;
       bool b;
       file >> b;
+      if(!file)
+        DUNE_THROW(MatrixMarketFormatError, "Invalid or missing entry in index file!");
       pis.add(g,LocalIndexT(l,Attribute(c),b));
       lineFeed(file);
     }
@@ -1393,11 +1395,11 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
-        int i;
-        file >> i;
+      int i;
+      while(file >> i)
         nb.insert(i);
-      }
+      if(!file.eof())
+        DUNE_THROW(MatrixMarketFormatError, "Invalid neighbour in index file!");
       file.close();
       comm.ri.setNeighbours(nb);
     }
-- 
2.43.0


From 83d949fe9ee1c8fdc6fdcdef33a9596ac1d26d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 61/99] fix: commGraphRepartition: skip processes without
 shared indices when building the graph

---
 dune/istl/repartition.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..ecc63cc 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -844,15 +844,18 @@ namespace Dune
 
         // Build the graph of the communication scheme and create an appropriate indexset.
         // calculate the neighbour vertices
-        int noNeighbours = oocomm.remoteIndices().neighbours();
+        // processes that we share indices with. (The remote indices might contain
+        // empty lists, and not necessarily symmetrically.)
+        const auto isNeighbour = [rank](const auto& n)
+        {
+          return n.first!=rank && !n.second.first->empty();
+        };
+        int noNeighbours = 0;
 
         for(auto n= oocomm.remoteIndices().begin(); n !=  oocomm.remoteIndices().end();
             ++n)
-          if(n->first==rank) {
-            //do not include ourselves.
-            --noNeighbours;
-            break;
-          }
+          if(isNeighbour(*n))
+            ++noNeighbours;
 
         // A parmetis graph representing the communication graph.
         // The diagonal entries are the number of nodes on the process.
@@ -915,7 +918,7 @@ namespace Dune
 
         for(auto n= oocomm.remoteIndices().begin(); n !=  oocomm.remoteIndices().end();
             ++n)
-          if(n->first != rank) {
+          if(isNeighbour(*n)) {
             *adjp=n->first;
             ++adjp;
 #ifdef USE_WEIGHTS
-- 
2.43.0


From 237cce16a009ce7b879e3460cf6b8fd0b12fd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 62/99] fix: graphRepartition: assign the computed parts to the
 vertices they belong to

---
 dune/istl/repartition.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index ecc63cc..07eb636 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1423,10 +1423,10 @@ namespace Dune
     // the overlap/copy vertices
     std::vector<int> setPartition(oocomm.indexSet().size(), -1);
 
-    std::size_t i=0; // parmetis index
     for(auto index = oocomm.indexSet().begin(); index != oocomm.indexSet().end(); ++index)
       if(OwnerSet::contains(index->local().attribute())) {
-        setPartition[index->local()]=domainMapping[part[i++]];
+        // part is indexed by the parmetis index, which follows the local numbering
+        setPartition[index->local()]=domainMapping[part[indexMap.toLocalParmetis(index->local())]];
       }
 
     delete[] part;
-- 
2.43.0


From ca7989f537c43223709a29e3a947c1d00a51f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 63/99] fix: repartition: no deadlock if a process has no
 neighbours after redistribution

---
 dune/istl/repartition.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 07eb636..5121555 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1836,6 +1836,11 @@ namespace Dune
 
 
     if(color != MPI_UNDEFINED) {
+      // The remote indices take an empty set of neighbours as unknown neighbours and
+      // then talk to all processes, which has to happen on all processes or on none.
+      std::erase(tneighbors, newrank);
+      if(outcomm->communicator().min(tneighbors.size())==0)
+        tneighbors.clear();
       outcomm->remoteIndices().setNeighbours(tneighbors);
       outcomm->remoteIndices().template rebuild<true>();
 
-- 
2.43.0


From c085288eba85ea0d82f0553f6ea03e329aeefb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 64/99] fix: redistributeMatrix: do not read beyond the end of
 a copy row

---
 dune/istl/matrixredistribute.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..238bdc9 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -617,7 +617,7 @@ namespace Dune
       // and receiver will ignore it.
       if (col==cont.matrix[i].end()) {
         numlimits = std::numeric_limits<GlobalIndex>::max();
-        datastore = Data(numlimits,*col);
+        datastore = Data(numlimits,typename M::block_type());
         return datastore;
       }
       else {
-- 
2.43.0


From d86df50611d49914df55c571ba0448fe8c41d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 65/99] fix: ILUNSubdomainSolver: call to a member of a
 dependent base class

---
 dune/istl/ilusubdomainsolver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..a320603 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,7 +228,7 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
+    std::size_t offset=this->copyToLocalMatrix(A,rowSet);
     RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
     ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
-- 
2.43.0


From 5d269bec5cf351703c4cb80aa17fba2c7c52eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 66/99] fix: DynamicMatrixSubdomainSolver: local matrix of
 scalars, as filled by setSubMatrix

---
 dune/istl/overlappingschwarz.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..628fd20 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -207,7 +207,7 @@ namespace Dune
       }
     }
   private:
-    DynamicMatrix<K> A;
+    DynamicMatrix<field_type> A;
   };
 
   template<typename T, bool tag>
-- 
2.43.0


From e1471689d1e07f3c06f36b341353235ac6907bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 67/99] fix: blockILUDecomposition: do not write to unallocated
 values if the number of nonzeroes is given

---
 dune/istl/ilu.hh | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 8b1cb07..c164e71 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -180,11 +180,12 @@ namespace Dune {
       typedef typename M::ConstRowIterator crowiterator;
       typedef typename M::ConstColIterator ccoliterator;
       typedef typename M::CreateIterator createiterator;
-      typedef typename M::field_type K;
       typedef std::map<size_t, int> map;
       typedef typename map::iterator mapiterator;
 
-      // symbolic factorization phase, store generation number in first matrix element
+      // symbolic factorization phase, the values of ILU need not be allocated yet:
+      // the generation numbers of its entries are stored separately
+      std::vector<std::vector<int>> generations(A.N());
       crowiterator endi=A.end();
       createiterator ci=ILU.createbegin();
       for (crowiterator i=A.begin(); i!=endi; ++i)
@@ -204,18 +205,18 @@ namespace Dune {
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
             if (kj==endk)
               DUNE_THROW(ISTLError,"diagonal entry missing");
-            for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
+            // generation numbers of the entries right of the diagonal
+            auto generation = generations[(*ik).first].begin();
+            for (coliterator j = ILU[(*ik).first].begin(); j!=kj; ++j)
+              ++generation;
+            for (++kj, ++generation; kj!=endk; ++kj, ++generation)                       // row k eliminates in row i
             {
-              // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-              // starting from C++11, we can use std::abs to always return a real value, even if it is double/float
-              using std::abs;
-              int generation = (int) Simd::lane(0, abs( firstMatrixElement(*kj) ));
-              if (generation<n)
+              if (*generation<n)
               {
                 mapiterator ij = rowpattern.find(kj.index());
                 if (ij==rowpattern.end())
                 {
-                  rowpattern[kj.index()] = generation+1;
+                  rowpattern[kj.index()] = *generation+1;
                 }
               }
             }
@@ -227,10 +228,10 @@ namespace Dune {
           ci.insert((*ik).first);
         ++ci;           // now row i exist
 
-        // write generation index into entries
-        coliterator endILUij = ILU[i.index()].end();;
-        for (coliterator ILUij=ILU[i.index()].begin(); ILUij!=endILUij; ++ILUij)
-          Simd::lane(0, firstMatrixElement(*ILUij)) = (Simd::Scalar<K>) rowpattern[ILUij.index()];
+        // store generation numbers of the entries
+        generations[i.index()].reserve(rowpattern.size());
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
+          generations[i.index()].push_back((*ik).second);
       }
 
       // copy entries of A
-- 
2.43.0


From b2c5fc72797325bacca4b6f8c3a9d87501dda32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 68/99] fix: DynamicMatrixSubdomainSolver: relax each local
 correction only once

---
 dune/istl/overlappingschwarz.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 628fd20..9e64d3e 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -1324,7 +1324,9 @@ namespace Dune
   OverlappingAssignerHelper< DynamicMatrixSubdomainSolver< BCRSMatrix< K, Al>, X, Y >,false>
   ::relaxResult(field_type relax)
   {
-    lhs() *= relax;
+    // relax the entries of the current block only
+    for(size_type j=0; j<n; ++j)
+      lhs()[i+j] *= relax;
   }
 
   template<class K, class Al, class X, class Y>
-- 
2.43.0


From ce4f94dfa7fa474ff8521b1b4b0076deac01217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 69/99] fix: initialise the number of edges of a sub graph
 without vertices

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..3be6952 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From 9d88509ac78f6c92f66a12a91c3669ea57b11476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 70/99] fix: the property selectors of graphs store the address
 of the graph

---
 dune/istl/paamg/graph.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 3be6952..594e382 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1378,7 +1378,7 @@ namespace Dune
        * @param g The graph whose properties we access.
        */
       GraphVertexPropertiesSelector(G& g)
-        : graph_(g)
+        : graph_(&g)
       {}
       /**
        * @brief Default constructor.
@@ -1426,7 +1426,7 @@ namespace Dune
        * @param g The graph whose properties we access.
        */
       GraphEdgePropertiesSelector(G& g)
-        : graph_(g)
+        : graph_(&g)
       {}
       /**
        * @brief Default constructor.
-- 
2.43.0


From bb5abae3cde905911b3e814767b5f2efe15b7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 71/99] fix: count the aggregates of one vertex correctly

---
 dune/istl/paamg/aggregates.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..71e89b2 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2508,14 +2508,12 @@ namespace Dune
               ++avg;
               minA=min(minA,static_cast<std::size_t>(1));
               maxA=max(maxA,static_cast<std::size_t>(1));
-              ++oneAggregates;
               ++conAggregates;
             }
           }else{
             ++avg;
             minA=min(minA,static_cast<std::size_t>(1));
             maxA=max(maxA,static_cast<std::size_t>(1));
-            ++oneAggregates;
             ++isoAggregates;
           }
           ++avg;
@@ -2531,6 +2529,14 @@ namespace Dune
 
       }
 
+      // Vertices might have been merged into aggregates consisting of one vertex,
+      // therefore these are counted once all aggregates are complete.
+      std::vector<std::size_t> sizes(conAggregates+isoAggregates, 0);
+      for(auto vertex = graph.begin(); vertex != graph.end(); ++vertex)
+        if(aggregates[*vertex] != AggregatesMap<Vertex>::ISOLATED)
+          ++sizes[aggregates[*vertex]];
+      oneAggregates = std::count(sizes.begin(), sizes.end(), std::size_t(1));
+
       Dune::dinfo<<"connected aggregates: "<<conAggregates;
       Dune::dinfo<<" isolated aggregates: "<<isoAggregates;
       if(conAggregates+isoAggregates>0)
-- 
2.43.0


From fca784f828292dae01c57931b496eb2a8b2e23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 72/99] fix: never aggregate rows representing Dirichlet
 boundaries on the finest level

---
 dune/istl/paamg/aggregates.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index 71e89b2..f1a8435 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
@@ -2242,6 +2243,9 @@ namespace Dune
         typedef typename std::vector<Vertex>::const_iterator Iterator;
 
         for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
+          if(graph_->getVertexProperties(*vertex).excludedBorder())
+            continue; // Dirichlet boundaries are not aggregated
+
           if(distance(*vertex, aggregates)>c.maxDistance())
             continue; // distance of proposes aggregate too big
 
@@ -2294,7 +2298,8 @@ namespace Dune
 
         for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
           // Only nonisolated nodes are considered
-          if(graph_->getVertexProperties(*vertex).isolated())
+          if(graph_->getVertexProperties(*vertex).isolated() ||
+             graph_->getVertexProperties(*vertex).excludedBorder())
             continue;
 
           int twoWayCons = twoWayConnections(*vertex, aggregate_->id(), aggregates);
@@ -2464,7 +2469,8 @@ namespace Dune
 
           for(Iterator vertex = front_.begin(); vertex != front_.end(); ++vertex) {
 
-            if(graph.getVertexProperties(*vertex).isolated())
+            if(graph.getVertexProperties(*vertex).isolated() ||
+               graph.getVertexProperties(*vertex).excludedBorder())
               continue; // No isolated nodes here
 
             if(twoWayConnections( *vertex, aggregate_->id(), aggregates) == 0 &&
-- 
2.43.0


From 77cc3e8695b782b88dcdc737221c1ec8011ce628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 73/99] fix: SymmetricMatrixDependency on sub graphs

---
 dune/istl/paamg/aggregates.hh | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index f1a8435..90469ae 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -185,9 +185,6 @@ namespace Dune
       int row_;
       /** @brief The norm of the current diagonal. */
       real_type diagonal_;
-      std::vector<real_type> vals_;
-      typename std::vector<real_type>::iterator valIter_;
-
     };
 
 
@@ -201,10 +198,6 @@ namespace Dune
     inline void SymmetricMatrixDependency<M,N>::initRow(const Row& row, int index)
     {
       using std::min;
-      vals_.assign(row.size(), 0.0);
-      assert(vals_.size()==row.size());
-      valIter_=vals_.begin();
-
       maxValue_ = min(- std::numeric_limits<real_type>::max(), std::numeric_limits<real_type>::min());
       diagonal_=norm_(row[index]);
       row_ = index;
@@ -218,22 +211,22 @@ namespace Dune
       real_type eij = norm_(*col);
       if(!N::is_sign_preserving || eij<0)  // || eji<0)
       {
-        *valIter_ = eij/diagonal_*eij/norm_(matrix_->operator[](col.index())[col.index()]);
-        maxValue_ = max(maxValue_, *valIter_);
-      }else
-        *valIter_ =0;
-      ++valIter_;
+        maxValue_ = max(maxValue_, eij/diagonal_*eij/norm_(matrix_->operator[](col.index())[col.index()]));
+      }
     }
 
     template<class M, class N>
     template<class G>
-    inline void SymmetricMatrixDependency<M,N>::examine(G&, const typename G::EdgeIterator& edge, const ColIter&)
+    inline void SymmetricMatrixDependency<M,N>::examine(G&, const typename G::EdgeIterator& edge, const ColIter& col)
     {
-      if(*valIter_ > alpha() * maxValue_) {
-        edge.properties().setDepends();
-        edge.properties().setInfluences();
-      }
-      ++valIter_;
+      // The graph might have fewer edges than the row has entries.
+      real_type eij = norm_(*col);
+      // skip positive offdiagonals if norm preserves sign of them.
+      if(!N::is_sign_preserving || eij<0)
+        if(eij/diagonal_*eij/norm_(matrix_->operator[](col.index())[col.index()]) > alpha() * maxValue_) {
+          edge.properties().setDepends();
+          edge.properties().setInfluences();
+        }
     }
 
     template<class M, class N>
@@ -241,7 +234,6 @@ namespace Dune
     {
       if(diagonal_==0)
         DUNE_THROW(Dune::ISTLError, "No diagonal entry for row "<<row_<<".");
-      valIter_=vals_.begin();
       return maxValue_  < beta();
     }
 
-- 
2.43.0


From 8c57a3047ada75189a79de8ac2bad191c60c7359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 74/99] fix: free the matrix graphs when coarsening stops
 because of rate breakdown

---
 dune/istl/paamg/matrixhierarchy.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..5406981 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -581,6 +581,8 @@ namespace Dune
           aggregatesMap->free();
           delete aggregatesMap;
           aggregatesMaps_.pop_back();
+          GraphCreator::free(graphs);
+          delete std::get<0>(graphs);
 
           if(criterion.accumulate() && mlevel.isRedistributed() && info->communicator().size()>1) {
             // coarse level matrix was already redistributed, but to more than 1 process
-- 
2.43.0


From f8ed691b06d1370649f78e398b67221db612a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 75/99] fix: AMG::usesDirectCoarseLevelSolver always returned
 false

---
 dune/istl/paamg/amg.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..d79d10f 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1024,7 +1024,12 @@ namespace Dune
     template<class M, class X, class S, class PI, class A>
     bool AMG<M,X,S,PI,A>::usesDirectCoarseLevelSolver() const
     {
-      return IsDirectSolver< CoarseSolver>::value;
+      // the solver is stored as an InverseOperator, hence check its dynamic type
+      typedef DirectSolverSelector< typename M::matrix_type, X > SolverSelector;
+      if constexpr (SolverSelector::isDirectSolver)
+        return dynamic_cast<const typename SolverSelector::DirectSolver*>(solver_.get()) != nullptr;
+      else
+        return false;
     }
 
     template<class M, class X, class S, class PI, class A>
-- 
2.43.0


From 1821bdafb621e69a695104e2c9e5fb19d7cba298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 76/99] fix: AMG reads minCoarseningRate from the ParameterTree
 as a floating point number

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index d79d10f..cc7c413 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -542,7 +542,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From c06886ea1f38af08e3c1cc1106cc941ff4545eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:39 +0000
Subject: [PATCH 77/99] fix: AMG accumulationMode "successive" set the coarsen
 target instead of the accumulation mode

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index cc7c413..a053733 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -555,7 +555,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From 5936ef252d852a819fc8d90cbdd6535388dec871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:54 +0000
Subject: [PATCH 78/99] fix: AMG honours maxAggregateDistance when choosing the
 default aggregate sizes

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index a053733..f6612c2 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -569,7 +569,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From b38cdb4609a3689c6c7f8de384ff8d0b61e8e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 79/99] fix: AMG with a given hierarchy and coarse solver read
 an empty smoother hierarchy and deleted the solver

---
 dune/istl/paamg/amg.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index f6612c2..89bc015 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,14 +408,13 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), update_(), scalarProduct_(0),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
-// #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices_->matrices().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
-- 
2.43.0


From 7f8f86729afad284bc2bd44bbaeb04be300ba5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 80/99] fix: FastAMG::usesDirectCoarseLevelSolver always
 returned false

---
 dune/istl/paamg/fastamg.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..7cdda0c 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -653,7 +653,14 @@ namespace Dune
     template<class M, class X, class PI, class A>
     bool FastAMG<M,X,PI,A>::usesDirectCoarseLevelSolver() const
     {
-      return IsDirectSolver< CoarseSolver>::value;
+      // the solver is stored as an InverseOperator, hence check its dynamic type
+#if HAVE_SUITESPARSE_UMFPACK
+      return dynamic_cast<const UMFPack<typename M::matrix_type>*>(solver_.get()) != nullptr;
+#elif HAVE_SUPERLU
+      return dynamic_cast<const SuperLU<typename M::matrix_type>*>(solver_.get()) != nullptr;
+#else
+      return false;
+#endif
     }
 
     template<class M, class X, class PI, class A>
-- 
2.43.0


From 035ccb3b53822a1c7f4874dee8e22321538259bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 81/99] fix: FastAMG deleted the coarse solver it was given by
 reference

---
 dune/istl/paamg/fastamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 7cdda0c..3078dff 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From e403864befc1ace6591a690375f8855ded96dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 82/99] fix: FastAMG defect for symmetric matrices with
 unsymmetric off-diagonal blocks

---
 dune/istl/paamg/fastamgsmoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamgsmoother.hh b/dune/istl/paamg/fastamgsmoother.hh
index b7c157e..ec71174 100644
--- a/dune/istl/paamg/fastamgsmoother.hh
+++ b/dune/istl/paamg/fastamgsmoother.hh
@@ -43,7 +43,7 @@ namespace Dune
 
           // Update residual for the symmetric case
           for(col=(*row).begin(); col.index()<row.index(); ++col)
-            col->mmv(*xIter, d[col.index()]);     //d_j-=A_ij x_i
+            col->mmtv(*xIter, d[col.index()]);     //d_j-=A_ji x_i, where A_ji=A_ij^T
         }
       }
     };
-- 
2.43.0


From 8c08cd546ffaf9ce027a3ba7660eda0bccb4a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 83/99] fix: copy of a TwoLevelMethod that was used before
 dereferenced null pointers

---
 dune/istl/paamg/twolevelmethod.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..6457370 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,7 +301,7 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : x_(other.x_), amg_(other.amg_), first_(true) // the copied AMG still has to be prepared
     {
     }
   private:
-- 
2.43.0


From 6125d5f8c30dece7c7c671d47cb06c1f8837f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 84/99] fix: AMG and FastAMG reported every application after a
 failed coarse solve as failed

---
 dune/istl/paamg/amg.hh     | 1 +
 dune/istl/paamg/fastamg.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 89bc015..924987b 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -902,6 +902,7 @@ namespace Dune
         *levelContext.rhs = d;
         *levelContext.update=0;
         levelContext.level=0;
+        coarsesolverconverged = true;
 
         mgc(levelContext);
 
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 3078dff..0d96168 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -516,6 +516,7 @@ namespace Dune
       assert(v.two_norm()==0);
 
       level=0;
+      coarsesolverconverged = true;
       if(matrices_->maxlevels()==1){
         // The coarse solver might modify the d!
         Range b(d);
-- 
2.43.0


From 34caf8ded013697213442f843b78dd9eeb28fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 85/99] fix: additive AMG started the iterative coarse solve
 from the previous correction

---
 dune/istl/paamg/amg.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 924987b..1297de8 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1122,6 +1122,7 @@ namespace Dune
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
       InverseOperatorResult res;
       pinfo->copyOwnerToAll(*rhs, *rhs);
+      *lhs=0;
       solver_->apply(*lhs, *rhs, res);
 
       if(!res.converged)
-- 
2.43.0


From e52dfd8ea146caa7c593ac35c2f5bea23aa66e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 86/99] fix: redistribute the matrix rows of processes that get
 a single index

ParallelIndexSet::at() does not find the entry of an index set with one
entry, so the only row such a process receives stayed empty.
---
 dune/istl/matrixredistribute.hh | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 238bdc9..cd8cf92 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -4,6 +4,7 @@
 // vi: set et ts=4 sw=2 sts=2:
 #ifndef DUNE_ISTL_MATRIXREDISTRIBUTE_HH
 #define DUNE_ISTL_MATRIXREDISTRIBUTE_HH
+#include <algorithm>
 #include <memory>
 #include "repartition.hh"
 #include <dune/common/exceptions.hh>
@@ -513,6 +514,21 @@ namespace Dune
 
   };
 
+  namespace Impl
+  {
+    // Find the index pair of a global index in an index set that might not contain it.
+    // (ParallelIndexSet::at() never finds the entry of a set with only one index.)
+    template<class I>
+    const typename I::IndexPair& indexPairOf(const I& indexSet, const typename I::GlobalIndex& global)
+    {
+      auto pair = std::lower_bound(indexSet.begin(), indexSet.end(), global,
+                                   [](const auto& entry, const auto& gi) { return entry.global() < gi; });
+      if (pair == indexSet.end() || pair->global() != global)
+        DUNE_THROW(RangeError, "Could not find entry of "<<global);
+      return *pair;
+    }
+  }
+
   template<class M, class I>
   struct MatrixSparsityPatternGatherScatter
   {
@@ -554,7 +570,7 @@ namespace Dune
     {
       try{
         if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
+          const typename I::IndexPair& ip=Impl::indexPairOf(cont.aggidxset, gi);
           assert(ip.global()==gi);
           std::size_t column = ip.local();
           cont.sparsity[i].insert(column);
@@ -639,7 +655,7 @@ namespace Dune
     {
       try{
         if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
+          typename M::size_type column=Impl::indexPairOf(cont.aggidxset, data.first).local();
           cont.matrix[i][column]=data.second;
         }
       }
-- 
2.43.0


From 7ff225162ec8155acf36da4cd01cad75283781dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 87/99] fix: keep the couplings to overlap indices when
 redistributing a matrix

Columns with attribute overlap are ghosts only in nonoverlapping
decompositions. In an overlapping one their entries were lost.
---
 dune/istl/matrixredistribute.hh | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index cd8cf92..3828a6c 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -358,6 +358,13 @@ namespace Dune
     const I& aggidxset;
     std::vector<std::set<size_type> > sparsity;
     const std::vector<size_type>* rowsize;
+    /**
+     * @brief Whether columns with attribute overlap are ghosts whose entries are not sent.
+     *
+     * Only nonoverlapping decompositions have ghosts, in an overlapping one the
+     * entries belong to the complete rows of the owner.
+     */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -451,6 +458,13 @@ namespace Dune
     const I& aggidxset;
     /** @brief row size information for the receiving side. */
     std::vector<size_t>* rowsize; // row sizes differ from sender side in overlap!
+    /**
+     * @brief Whether columns with attribute overlap are ghosts whose entries are not sent.
+     *
+     * Only nonoverlapping decompositions have ghosts, in an overlapping one the
+     * entries belong to the complete rows of the owner.
+     */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -558,7 +572,7 @@ namespace Dune
         const typename I::IndexPair* index=cont.idxset.pair(col.index());
         assert(index);
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != 2)
           return index->global();
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -642,7 +656,7 @@ namespace Dune
         assert(index);
         // Store the data to prevent reference to temporary
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != 2)
           datastore = Data(index->global(),*col);
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -699,6 +713,7 @@ namespace Dune
     // get sparsity pattern from owner rows
     CommMatrixSparsityPattern<M,IndexSet>
     origsp(origMatrix, origComm.globalLookup(), newComm.indexSet());
+    origsp.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     CommMatrixSparsityPattern<M,IndexSet>
     newsp(origMatrix, origComm.globalLookup(), newComm.indexSet(), rowsize);
 
@@ -809,6 +824,7 @@ namespace Dune
 
     CommMatrixRow<M,IndexSet>
     origrow(origMatrix, origComm.globalLookup(), newComm.indexSet());
+    origrow.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     CommMatrixRow<M,IndexSet>
     newrow(newMatrix, origComm.globalLookup(), newComm.indexSet(),rowsize);
     ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow,newrow);
-- 
2.43.0


From bcbed499f627b3b8f87f6c642621b62b3272daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:36 +0000
Subject: [PATCH 88/99] fix: no neighbour for processes without shared indices

OwnerOverlapCopyCommunication built from IndexInfoFromGrid without remote
indices had process 0 as neighbour, but not vice versa. Setting up parallel
AMG then waited forever for a message of that process.
---
 dune/istl/owneroverlapcopy.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index dea5934..f2df3a7 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -643,6 +643,9 @@ namespace Dune {
       }else{
         // Force remote indices to be synced!
         ri.template getModifier<false,true>(0);
+        // This process shares no index. Forget the list for process 0 again, that
+        // process does not know about it and nobody must wait for its messages.
+        ri.free();
       }
     }
 
-- 
2.43.0


From 019d1c84d6491b00e134e84b5a0420f0569436f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 89/99] fix: AMG started the coarse solve after a
 redistribution from the previous correction

---
 dune/istl/paamg/amg.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 1297de8..babd87b 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1044,6 +1044,7 @@ namespace Dune
             // We are still participating in the computation
             levelContext.pinfo.getRedistributed().copyOwnerToAll(levelContext.rhs.getRedistributed(),
                                                     levelContext.rhs.getRedistributed());
+            levelContext.update.getRedistributed()=0;
             solver_->apply(levelContext.update.getRedistributed(),
                            levelContext.rhs.getRedistributed(), res);
           }
-- 
2.43.0


From c04a04dc7078810bbebd177469b7d6a85941767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 90/99] fix: destruction of a matrix hierarchy that was not
 built

---
 dune/istl/paamg/matrixhierarchy.hh | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 5406981..921c9be 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -829,17 +829,9 @@ namespace Dune
     template<class M, class IS, class A>
     MatrixHierarchy<M,IS,A>::~MatrixHierarchy()
     {
-      typedef typename AggregatesMapList::reverse_iterator AggregatesMapIterator;
-      typedef typename ParallelMatrixHierarchy::Iterator Iterator;
-      typedef typename ParallelInformationHierarchy::Iterator InfoIterator;
-
-      AggregatesMapIterator amap = aggregatesMaps_.rbegin();
-      InfoIterator info = parallelInformation_.coarsest();
-      for(Iterator level=matrices_.coarsest(), finest=matrices_.finest(); level != finest;  --level, --info, ++amap) {
-        (*amap)->free();
-        delete *amap;
-      }
-      delete *amap;
+      // there are none as long as build() was not called or if it did not finish
+      for(AggregatesMap* amap : aggregatesMaps_)
+        delete amap;
     }
 
     template<class M, class IS, class A>
-- 
2.43.0


From 9ac80d12d5439ac59ccc5594d986d2020c043a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 91/99] fix: eigenvalue iterations returned NaN as if they had
 converged

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..2f9ba8a 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))  // do not stop if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -425,7 +425,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))  // do not stop if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -553,7 +553,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))  // do not stop if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -726,7 +726,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon))  // do not stop if r_norm is NaN
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From 7006bc58f2c43fb79ac89ec4942e450b12590bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 92/99] fix: inverse iteration without shift ignored
 avoidLinSolverCrime

---
 dune/istl/eigenvalue/poweriteration.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 2f9ba8a..e48fe6e 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -357,7 +357,8 @@ namespace Dune
                                        BlockVector& x, Real& lambda) const
     {
       constexpr Real gamma = 0.0;
-      applyInverseIteration(gamma,epsilon,solver,x,lambda);
+      applyInverseIteration<ISTLLinearSolver,avoidLinSolverCrime>
+        (gamma,epsilon,solver,x,lambda);
     }
 
     /**
-- 
2.43.0


From 5f4fa01a9689d5667ec98fecf9ace42fdf8cd686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:56 +0000
Subject: [PATCH 93/99] fix: iteration matrix created after a shifted iteration
 was not shifted

---
 dune/istl/eigenvalue/poweriteration.hh | 41 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index e48fe6e..b6c490b 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -946,8 +946,13 @@ namespace Dune
     inline const BCRSMatrix& getIterationMatrix () const
     {
       // create iteration matrix on demand
+      // (it has to account for the current shift)
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        if (mu_ != 0.0)
+          updateIterationMatrix();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -993,27 +998,33 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        updateIterationMatrix();
         // notify linear solver about change of the iteration matrix object
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
       }
     }
 
+    //! write the diagonal of (m_ - mu_*I) to the iteration matrix
+    inline void updateIterationMatrix () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
+      }
+    }
+
   protected:
     // parameters related to iterative eigenvalue algorithms
     const BCRSMatrix& m_;
-- 
2.43.0


From ad2f0bdc9dbf4da9790d227023a0a964cfce3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 94/99] fix: eigenvalue iterations with a second linear solver
 used its outdated decomposition

---
 dune/istl/eigenvalue/poweriteration.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index b6c490b..3cc0bd1 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -975,7 +975,8 @@ namespace Dune
      * \brief Update shift mu_, i.e. update iteration operator/matrix
      *        (m_ - mu_*I).
      *
-     * \note Does nothing if new shift equals the old one.
+     * \note Does nothing if new shift equals the old one, unless
+     *       another linear solver was used the last time.
      *
      * \tparam ISTLLinearSolver Type of a DUNE-ISTL InverseOperator
      *                          which is used as a linear solver.
@@ -989,8 +990,10 @@ namespace Dune
     inline void updateShiftMu (const Real& mu,
                                ISTLLinearSolver& solver) const
     {
-      // do nothing if new shift equals the old one
-      if (mu == mu_) return;
+      // do nothing if new shift equals the old one and if the linear
+      // solver was already notified about it
+      if (mu == mu_ && lastSolver_ == &solver) return;
+      lastSolver_ = &solver;
 
       // update shift mu_, i.e. update iteration operator
       mu_ = mu;
@@ -1036,6 +1039,9 @@ namespace Dune
     // shift mu_ used by iteration operator/matrix (m_ - mu_*I)
     mutable Real mu_;
 
+    // the linear solver which was used the last time
+    mutable const void* lastSolver_ = nullptr;
+
     // iteration operator (m_ - mu_*I), passing shift mu_ by reference
     const MatrixOperator matrixOperator_;
     const ScalingOperator scalingOperator_;
-- 
2.43.0


From da0f510ce5ff09c354acc6f685c2f8ce8ce79aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 95/99] fix: ARPACK++ wrapper exchanged the numbers of rows and
 columns

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index cc8930a..8b5dfbb 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -63,7 +63,7 @@ namespace Dune
       //! Construct from BCRSMatrix A
       ArPackPlusPlus_BCRSMatrixWrapper (const BCRSMatrix& A)
         : A_(A),
-          m_(A_.M() * mBlock), n_(A_.N() * nBlock)
+          m_(A_.N() * mBlock), n_(A_.M() * nBlock)
       {
         // assert that BCRSMatrix type has blocklevel 2
         static_assert
@@ -72,8 +72,8 @@ namespace Dune
 
         // allocate memory for auxiliary block vector objects
         // which are compatible to matrix rows / columns
-        domainBlockVector.resize(A_.N());
-        rangeBlockVector.resize(A_.M());
+        domainBlockVector.resize(A_.M());
+        rangeBlockVector.resize(A_.N());
       }
 
       //! Perform matrix-vector product w = A*v
-- 
2.43.0


From d7d51444148bdc1b6bbf42f5d663a33634d15c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:06 +0000
Subject: [PATCH 96/99] fix: smallest singular value of a singular matrix was
 NaN

---
 dune/istl/eigenvalue/arpackpp.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 8b5dfbb..1cc212d 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -782,7 +782,7 @@ namespace Dune
 
       // calculate smallest singular value of A (note that
       // x is right-singular / left-singular vector of A)
-      sigma = std::sqrt(lambda);
+      sigma = std::sqrt(std::max(lambda,Real(0)));  // rounding may yield a negative lambda
 
       // print verbosity information
       if (verbosity_level_ > 0)
@@ -898,7 +898,7 @@ namespace Dune
 
       // calculate largest and smallest singular value of A
       const Real sigma_max = std::sqrt(lambda_max);
-      const Real sigma_min = std::sqrt(lambda_min);
+      const Real sigma_min = std::sqrt(std::max(lambda_min,Real(0)));  // rounding may yield a negative lambda_min
 
       // obtain approximated spectral condition number of A
       cond_2 = sigma_max / sigma_min;
-- 
2.43.0


From cb892568dec65007830257d8dfd44274296cbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:06 +0000
Subject: [PATCH 97/99] fix: spectral condition number of symmetric matrices
 that are not positive definite

---
 dune/istl/eigenvalue/arpackpp.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 1cc212d..0311d4c 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -541,7 +541,17 @@ namespace Dune
       Real* x_min_raw = dprob.RawEigenvector(0);
 
       // obtain approximated spectral condition number of A
-      cond_2 = std::abs(lambda_max / lambda_min);
+      // (both ends of the spectrum, these are its dominant and its least
+      // dominant eigenvalue if A is definite)
+      Real dominant = std::max(std::abs(lambda_max),std::abs(lambda_min));
+      Real leastDominant = std::min(std::abs(lambda_max),std::abs(lambda_min));
+      if (lambda_min < 0.0 && lambda_max > 0.0)
+      {
+        BlockVector x(m_.M());
+        computeSymMinMagnitude(epsilon,x,leastDominant);
+        leastDominant = std::abs(leastDominant);
+      }
+      cond_2 = dominant / leastDominant;
 
       // obtain number of Arnoldi update iterations actually taken
       nIterations_ = dprob.GetIter();
-- 
2.43.0


From 3d7916a54e2af8791d6c76da2c546ef1078267cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 98/99] fix: Matlab output of matrices without columns

The loop over the columns ran far beyond the end.
---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From 4a45a794b7b580e33964a830cbfa60e99aebac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:51 +0000
Subject: [PATCH 99/99] fix: dimension of empty rows and columns of matrices
 with scalar, diagonal or scaled identity blocks

---
 dune/istl/matrixutils.hh | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index fbf5d75..5122d7b 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -222,6 +222,31 @@ namespace Dune
     }
   };
 
+  namespace Impl
+  {
+    // number of rows and columns of blocks whose type determines their size
+    template<typename B, typename = void>
+    struct FixedBlockDimension : std::false_type {};
+
+    template<typename B>
+    struct FixedBlockDimension<B, std::enable_if_t<IsNumber<B>::value> > : std::true_type
+    {
+      static constexpr std::size_t dimension = 1;
+    };
+
+    template<typename K, int n>
+    struct FixedBlockDimension<DiagonalMatrix<K,n> > : std::true_type
+    {
+      static constexpr std::size_t dimension = n;
+    };
+
+    template<typename K, int n>
+    struct FixedBlockDimension<ScaledIdentityMatrix<K,n> > : std::true_type
+    {
+      static constexpr std::size_t dimension = n;
+    };
+  }
+
   // Default implementation for scalar types
   template<typename B, typename TA>
   struct MatrixDimension<Matrix<B,TA> >
@@ -266,6 +291,10 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
+      // also rows without entries have a dimension if the block type has
+      if constexpr (Impl::FixedBlockDimension<B>::value)
+        return Impl::FixedBlockDimension<B>::dimension;
+
       const B* row = A.r[i].getptr();
       if(row && A.r[i].getsize()>0)
         return MatrixDimension<block_type>::rowdim(*row);
@@ -275,6 +304,9 @@ namespace Dune
 
     static size_type coldim (const Matrix& A, size_type c)
     {
+      if constexpr (Impl::FixedBlockDimension<B>::value)
+        return Impl::FixedBlockDimension<B>::dimension;
+
       // find an entry in column c
       if (A.nnz_ > 0)
       {
@@ -309,6 +341,9 @@ namespace Dune
     }
 
     static size_type coldim (const Matrix& A){
+      if constexpr (Impl::FixedBlockDimension<B>::value)
+        return A.M()*Impl::FixedBlockDimension<B>::dimension;
+
       typedef typename Matrix::ConstRowIterator ConstRowIterator;
       typedef typename Matrix::ConstColIterator ConstColIterator;
 
-- 
2.43.0

