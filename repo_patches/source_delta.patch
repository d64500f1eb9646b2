From dcc8eaebc234232587f0169842d5c9775ff51293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 001/131] fix: ModP reduces, compares and assigns machine
 integers outside the residue range

---
 include/linalg/field.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..a1418bd 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -89,11 +89,18 @@ private:
   // Check whether P is prime before compiling
   static_assert(isprime(P), "not prime!");
 
+  // residue in 0..P-1 of any integer, including negative ones
+  template <typename T>
+  static inline IntT residue(const T x) {
+    T r = x % T(P);
+    return r < 0 ? r + T(P) : r;
+  }
+
 public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  ModP(IntT val) : val(residue(val)) {}
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +165,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == residue(b);
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != residue(b);
   }
 
   inline bool operator<( const ModP &b) const {
@@ -331,11 +338,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From 709fbcbcd7594787d9e628d91778042226bb9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 002/131] fix: Rational operator/= when the divisor is the
 object itself

---
 include/linalg/field.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index a1418bd..db3f1f8 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -480,8 +480,9 @@ public:
 
   Rational& operator/=( const Rational &b) {
     if (b.n == 0) {throw std::runtime_error("Division by zero!");}
+    const IntT bn = b.n; // b may be this object
     n *= b.d;
-    d *= b.n;
+    d *= bn;
     reduce();
     return *this;
   }
-- 
2.43.0


From 18dc02a45e91815c8639f43e0fc43ea5f0b69783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 003/131] fix: SparseVector::insert_rows read one past the end
 of the row list

---
 include/linalg/sparse_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..11af713 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -686,7 +686,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -724,7 +724,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From f69ca15e9c8256fc7d304bd1bfd2d51eccddd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 004/131] fix: SparseVector::set_block also erased the entry at
 the exclusive end

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 11af713..a9ecc2f 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -468,7 +468,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From 9450d16e04fde9ab7b32ab8c8a01ac987357fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 005/131] fix: SparseVector::ipermute applied the forward
 permutation

---
 include/chain/chain_complex.hpp  | 2 +-
 include/linalg/sparse_vector.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..947ed48 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].permute_rows(bats::util::inv_perm(PI_row));
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index a9ecc2f..491edb1 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -419,10 +419,11 @@ public:
 	// apply inverse permutation in-place
 	// O(nz log nz) where nz is #non-zeros
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
+		std::vector<size_t> iperm(perm.size());
+		for (size_t i = 0; i < perm.size(); i++) {
+			iperm[perm[i]] = i;
 		}
-		sort();
+		permute(iperm);
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From 5add1ec81ed35958bd33f5b0a65c6721c910dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 006/131] fix: SparseVector::mix_rows inserted through an
 invalidated iterator

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 491edb1..2ae3ba1 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -653,7 +653,8 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			// the erase may have moved the insertion point
+			if (b*vj != 0) indval.insert(lower_bound(i), key_type(i, b*vj));
 
 		}
 	}
-- 
2.43.0


From de3ccde0bdac6483595b2a6d90f8108a961d8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 007/131] fix: SparseVector::scale_inplace(0) and scale(0)
 stored explicit zeros

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 2ae3ba1..c827b57 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1149,6 +1149,7 @@ public:
 
 	// scale vector by c
 	void scale_inplace(const TV c) {
+		if (c == 0) { clear(); return; } // do not store zeros
 		auto it = nzbegin();
 		while (it != nzend()) {
 			it->val = it->val * c;
-- 
2.43.0


From 0524e28be1216e87fffe9044eb774aa5c9ce64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 008/131] fix: SparseVector::find_last_nz answered the end when
 every index is below i

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c827b57..64cef5a 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -390,7 +390,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
-- 
2.43.0


From ad680bd15082668b9e97e9588392e227a2f7a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 009/131] fix: sparse vectors built from integers stored
 entries that vanish in the field

---
 include/linalg/sparse_vector.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 64cef5a..eae9b4e 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -110,7 +110,8 @@ public:
 	SparseVector(const SparseVector<int, TI2> &other) {
 		indval.reserve(other.nnz());
 		for (auto it = other.nzbegin(); it < other.nzend(); ++it) {
-			indval.emplace_back(key_type((*it).ind, (*it).val));
+			TV v((*it).val);
+			if (!(v == TV(0))) { indval.emplace_back(key_type((*it).ind, v)); } // may vanish in TV
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -121,10 +122,8 @@ public:
 	SparseVector(const std::vector<std::tuple<size_t, int>>& ival) {
 		indval.reserve(ival.size());
 		for (auto& tup : ival) {
-			indval.emplace_back(key_type(
-				std::get<0>(tup),
-				std::get<1>(tup)
-			));
+			TV v(std::get<1>(tup));
+			if (!(v == TV(0))) { indval.emplace_back(key_type(std::get<0>(tup), v)); } // may vanish in TV
 		}
 		sort();
 	}
@@ -135,7 +134,9 @@ public:
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			TI ind(*indit++);
+			TV v(*valit++);
+			if (!(v == TV(0))) { indval.emplace_back(key_type(ind, v)); } // may vanish in TV
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -1211,7 +1212,8 @@ public:
 		std::vector<key_type> indval;
 		for (size_t i = 0; i < n; i++) {
 			if (nz_distribution(generator) < p) {
-				indval.emplace_back(key_type(i, val_distribution(generator)));
+				TV v(val_distribution(generator));
+				if (!(v == TV(0))) { indval.emplace_back(key_type(i, v)); } // may vanish in TV
 			}
 		}
 		return SparseVector(indval);
-- 
2.43.0


From fdf32008c851875eed5ea0569d9ea836da015e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 010/131] fix: SparseVector::tensor called itself

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index eae9b4e..4d25fa4 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1243,5 +1243,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 8cc16686cf726d21274cf6665faf7cbee9360fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 011/131] fix: ranged SetVector::axpy dereferenced end() and
 dropped the tail of the range

---
 include/linalg/set_vector.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index 3602098..a66caa4 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -178,8 +178,7 @@ public:
 
 		// set i2 to find first ind >= firstind
 		auto i2 = x.lower_bound(firstind);
-		if (!((*i2).ind < lastind) || i2 == x.nzend()) { return; } // nothing to do
-		while (i1 != indval.end() && i2 != x.nzend()) {
+		while (i1 != indval.end() && i2 != x.nzend() && (*i2).ind < lastind) {
 			if ((*i1).ind == (*i2).ind) {
 				TV val = (a * (*i2).val) + (*i1).val;
 				// delete the current key
@@ -190,7 +189,6 @@ public:
 					++i1;
 				}
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			} else if (*i1 < *i2) {
 				// need to catch up i1
 				++i1;
@@ -198,11 +196,10 @@ public:
 				// i2 has lower index
 				i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 				++i2;
-				if (!((*i2).ind < lastind)) { break; }
 			}
 		}
 		// run through rest of entries in i2
-		while (i2 != x.nzend() && !((*i2).ind < lastind)) {
+		while (i2 != x.nzend() && (*i2).ind < lastind) {
 			i1 = indval.emplace_hint(i1, key_type((*i2).ind, a * (*i2).val) );
 			++i2;
 		}
-- 
2.43.0


From 65a8e5b9b501b345fad7c5ac5ee0e689a69bdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 012/131] fix: SetVector::axpy with coefficient zero stored
 zeros

---
 include/linalg/set_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/set_vector.hpp b/include/linalg/set_vector.hpp
index a66caa4..60369f3 100755
--- a/include/linalg/set_vector.hpp
+++ b/include/linalg/set_vector.hpp
@@ -132,6 +132,7 @@ public:
         const SVT &x
     ) {
 
+        if (a == TV(0)) { return; } // do not store zeros
         auto i1 = indval.begin();
         auto i2 = x.nzbegin();
         while (i1 != indval.end() && i2 != x.nzend()) {
@@ -173,6 +174,7 @@ public:
 		const TI &lastind
 	) {
 
+		if (a == TV(0)) { return; } // do not store zeros
 		// set i1 to find first ind >= firstind
 		auto i1 = indval.lower_bound(key_type(firstind, TV(0)));
 
-- 
2.43.0


From 3c70438c2518c6f852549cf615524c3a854302af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 013/131] fix: tensor_product of column matrices did not
 compile

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..a6d930c 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1079,7 +1079,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].kron(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
-- 
2.43.0


From 655bb384994c87e572987d42db6aec4ae7640604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 014/131] fix: ColumnMatrix subtraction returned B - A

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index a6d930c..935c873 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From 19dd97ed0da1aca13e595f84fbe7b0c1f4ec2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 015/131] fix: is_upper_invert accepted zero columns and
 non-square matrices

---
 include/linalg/col_matrix.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 935c873..92c9122 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -917,13 +917,13 @@ public:
 
 	// tests to see if matrix is invertible and upper-triangular
 	bool is_upper_invert() const {
+		if (m != n) { return false; }
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
+			if (iv == col[j].nzbegin()) { return false; } // no diagonal entry
+			--iv;
+			if (iv->ind != j) {
+				return false;
 			}
 		}
 		return true;
-- 
2.43.0


From 6da2fcede81a3e39c13c2b530d9ad993f265b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 016/131] fix: a constant vector of zeros stored explicit zeros

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 4d25fa4..b5ae5c3 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -154,6 +154,7 @@ public:
 	*/
 	static SparseVector dense(const TV a, const TI m) {
 		std::vector<key_type> vindval;
+		if (a == TV(0)) { return SparseVector(vindval); }
 		vindval.reserve(m);
 		for (size_t i = 0; i < m; ++i) {
 			vindval.emplace_back(key_type(i,a));
-- 
2.43.0


From a372852c4ccf186d27fc597a566bb1275fabcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 017/131] fix: insert_column of a zero column shifted the wrong
 way

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 92c9122..a849e93 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
-- 
2.43.0


From 3ea6546dd1cb256a2d9604bbc0f1848a6d874c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 018/131] fix: insert_rows with more than one row compared the
 wrong index

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index a849e93..aafd4c3 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From cf5ed193303b66710c4c9a84b68a36c20929a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 019/131] fix: insert_sparse_rows read one past the end of the
 index list

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index aafd4c3..cef17bd 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
-- 
2.43.0


From 8a314628957c94c2a8e1d55acc8cbfbf408e1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 020/131] fix: sort_sum_reduce read past the end of an empty
 range

---
 include/util/sorted.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..1e5b18f 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -155,6 +155,7 @@ void sort_sum_reduce(
     std::vector<TI> &tmpind,
     std::vector<TV> &tmpval
 ) {
+    if (ind.size() == offset) { return; } // nothing to reduce
     // sort ind and val simultaneously
     fill_sortperm(ind.cbegin() + offset, ind.cend(), perm);
     apply_perm(ind.data() + offset, tmpind, perm);
-- 
2.43.0


From 2aaf30ed32c70d06d5f290d5f1d55f04a25a6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 021/131] fix: CSC submatrix left row indices unsorted

---
 include/linalg/csc_matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..6e3fb52 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -165,6 +165,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort(); // rind may not be in increasing order
         return A;
 
     }
-- 
2.43.0


From f75bd352be5ab7803d8823b8a979c809cdcd9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 022/131] fix: CSC block_select ignored its column selection

---
 include/linalg/csc_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 6e3fb52..1979a52 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -194,7 +194,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
@@ -204,6 +204,7 @@ public:
             j++;
             A.colptr[j] = A.rowind.size();
         }
+        A.sort();
     }
 
     /*
-- 
2.43.0


From 37635625bd5f578cfc2d6dc4f65f6229597cde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 023/131] fix: negating a const F2 value did not compile

---
 include/linalg/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index db3f1f8..ce23f0d 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -284,7 +284,7 @@ public:
     return *this;
   }
 
-  inline ModP& operator-() {
+  inline ModP operator-() const {
     return *this; // no-op
   }
 
-- 
2.43.0


From 315b7705adad983a318a2d4bae0afaee34ccf2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 024/131] fix: is_monic of the zero polynomial read an empty
 vector

---
 include/linalg/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index 892e56e..a3c2ac3 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -267,7 +267,7 @@ public:
 	}
 
 	inline bool is_monic() const {
-		return leading_coeff() == T(1);
+		return !is_zero() && leading_coeff() == T(1);
 	}
 
     // companion matrix
-- 
2.43.0


From 8eb8d31c4c214e7e48db1fd772de3087719212ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 025/131] fix: RCF_basis took one vector too many from every
 cyclic summand

---
 include/linalg/rcf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..b0b51b3 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,7 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            for (size_t k = 1; k < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From e77c6e9d6a7eebc8f0c7e3f73e4801ecc998f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 026/131] fix: Smith reduction looped or lost equivalence when
 the pivot divides an entry

---
 include/linalg/pid.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..81561b5 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -25,6 +25,14 @@ std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID&
     //
     // }
 
+    // if a divides b keep a as the gcd, so that a is not replaced by an associate
+    if (a != 0) {
+        PID q = b / a;
+        if (b == q * a) {
+            return std::make_tuple(PID(1), PID(0), PID(a), PID(1), q);
+        }
+    }
+
     PID s(0), old_s(1);
     PID t(1), old_t(0);
     PID r(b), old_r(a);
-- 
2.43.0


From 4c9ccef2982bc756ea249dce9f50bb0a579e177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 027/131] fix: Smith forms kept an iterator into a column that
 mix_cols replaces

---
 include/linalg/pid.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 81561b5..7e8ece0 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -102,17 +102,16 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = A[j].nzbegin();
             for (size_t j2 = j+1; j2 < A.ncol(); j2++) {
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(A[j].firstnz().val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
                 }
             }
 
             // now we loop over rows
             continue_reduction = false;
-            p = A[j].nzbegin();
+            auto p = A[j].nzbegin();
             auto rp = A[j].nzend() - 1;
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
@@ -223,10 +222,9 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(S[j].firstnz().val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                     C.mix_rows(j, j2, w, z, -y, x);
                 }
@@ -235,7 +233,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
                 if (!continue_reduction && p->val == g) {
@@ -330,10 +328,9 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
-                    auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
+                    auto [x, y, g, w, z] = extended_euclidean(S[j].firstnz().val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                 }
             }
@@ -341,7 +338,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
                 if (!continue_reduction && p->val == g) {
-- 
2.43.0


From 4332db1fc69a15e61351f1f5006e1de43ed373ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 028/131] fix: companion_matrix stored zeros and failed for
 degree zero

---
 include/linalg/polynomial.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index a3c2ac3..d444917 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -275,14 +275,16 @@ public:
 		if (!is_monic()) {throw std::runtime_error("Companion matrix requires monic polynomial!");}
 		size_t n = dim(); // size of companion matrix
 		std::vector<SparseVector<T>> cols(n);
+		if (n == 0) { return ColumnMatrix<SparseVector<T>>(n,n,cols); }
 		for (size_t j = 0; j < n-1; j++) {
 			cols[j] = SparseVector<T>({j+1}, {T(1)});
 		}
-		std::vector<size_t> ind(n);
-		std::vector<T> val(n);
+		std::vector<size_t> ind;
+		std::vector<T> val;
 		for (size_t i = 0; i < n; i++) {
-			ind[i] = i;
-			val[i] = -c[i];
+			if (c[i] == 0) { continue; }
+			ind.emplace_back(i);
+			val.emplace_back(-c[i]);
 		}
 		cols[n-1] = SparseVector<T>(ind, val);
 
-- 
2.43.0


From 3c39c7287a294417b8af8ab683cf7c5e6548a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 029/131] fix: bounded sorted intersections did not check their
 first elements

---
 include/util/sorted.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 1e5b18f..926d847 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,6 +87,7 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
+    if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) {return;}
     while (ia != a.cend() && ib != b.cend()) {
         if (*ia < *ib) {
             ++ia;
@@ -110,6 +111,7 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
+    if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) {return false;}
     while (ia != a.cend() && ib != b.cend()) {
         if (*ia < *ib) {
             ++ia;
-- 
2.43.0


From 751765d04200494aeeed070dd6fc33dd6b77b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 030/131] fix: find_sorted_lt read before its range

---
 include/util/sorted.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 926d847..2284571 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -202,6 +202,7 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    if (it == begin) { return bats::NO_IND; } // nothing is less than v
     it--;
     if (*it < v) {
         return it - begin;
-- 
2.43.0


From b0c3824135faf51be3fc3ced82f99c41dd9d0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 031/131] fix: SparseTrie assignment left dangling children

---
 include/util/trie.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..dabc8f7 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -44,24 +44,26 @@ public:
 
     SparseTrie() : val(T(0)), children(nullptr) {};
 
-    ~SparseTrie() {
+    // delete every child
+    void release() {
         if (children != nullptr) {
-			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
+    ~SparseTrie() { release(); }
+
 	// Copy assignment
 	// performs deep copy
 	SparseTrie& operator=(const SparseTrie& t) {
 
 		if (&t == this) {return *this;}
 
-		// release children
-		if (children != nullptr) { delete children; }
+		release();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -82,8 +84,7 @@ public:
 		if (&t == this)
 			return *this;
 
-		// release children
-		if (children != nullptr) { delete children; }
+		release();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From 42005d520d2097229ca673f502d48d2f24819f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 032/131] fix: SimplexContainer checked the wrong size

---
 include/util/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 15d5733..88583ca 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -44,7 +44,7 @@ public:
 
     // emplace_back with vector
     void emplace_back(std::vector<size_t> &s) {
-        if (data.size() != k) {throw "unexpected simplex size!";}
+        if (s.size() != k) {throw "unexpected simplex size!";}
         for (auto i : s) {
             data.emplace_back(i);
         }
-- 
2.43.0


From 7842d3fea091b1d128e3746d8dae5f4181726732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 033/131] fix: write_simplex(vector) wrote a line read_simplex
 rejects

---
 include/util/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 88583ca..6de0c93 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -86,7 +86,7 @@ int simplex_sign(std::vector<T> &s) {
 template <typename IO, typename T>
 void write_simplex(IO &io, std::vector<T> &s) {
     for (auto x : s) {
-        io << x << ", ";
+        io << x << ",";
     }
     io << '\n';
 }
-- 
2.43.0


From 2fe03962c2b0077862335a9f954fd2e739ee294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 034/131] fix: LightSimplicialComplex boundary iteration read
 before its offset table

---
 include/complex/light_simplicial_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..1a93b35 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			c = -c;
 			i--;
-- 
2.43.0


From c59081adeda4ce3ae6b51b98d412410b7977b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 035/131] fix: LightSimplicialComplex::find_idx overran its
 tables for large simplices

---
 include/complex/light_simplicial_complex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 1a93b35..cb5c2f7 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -268,6 +268,7 @@ public:
 	// find index of simplex s
 	// returns bats::NO_IND if s can not be found
 	size_t find_idx(const std::vector<index_type> &s) const {
+		if (s.empty() || s.size() > index_to_key.size()) { return bats::NO_IND; }
 		auto key = simplex_key(s);
 		size_t dim = s.size() - 1;
 		return find_idx(dim, key);
-- 
2.43.0


From 3c816bd15932a656f381e0e2abd80627fd667280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 036/131] fix: complexes read past their tables when asked for
 cells above the maximum dimension

---
 include/complex/cubical_complex.hpp          | 2 +-
 include/complex/light_simplicial_complex.hpp | 2 +-
 include/complex/simplicial_complex.hpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..950ba51 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -286,7 +286,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index cb5c2f7..ab13b52 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -183,7 +183,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..b614e23 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -345,7 +345,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From 2c7f0e5192d57dad6b45ae1c44f9518af2d4dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 037/131] fix: extra reduction and cycle removal skipped the
 first nonzero of a column

---
 include/homology/parallel.hpp  |  7 ++-----
 include/homology/reduction.hpp | 31 +++++++++----------------------
 2 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..a5375a2 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -207,8 +207,8 @@ void reduce_column_extra(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 1;
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(M[j].nnz() >= end_offset) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
@@ -216,15 +216,12 @@ void reduce_column_extra(
 			size_t k = p2c[piv->ind];
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else if (end_offset == 1){
 			// new pivot
 			p2c[piv->ind] = j;
 			++end_offset;
-			--piv;
 		} else {
 			++end_offset;
-			--piv;
 		}
 	}
 }
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..35e9e4c 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -95,8 +95,8 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
-		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(M[j].nnz() >= end_offset) {
+			auto piv = M[j].nzend() - end_offset; // nonzero location
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -106,18 +106,15 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 				size_t k = pivot_to_col[piv->ind];
 				auto a = piv->val / M[k].lastnz().val;
 				M[j].axpy(-a, M[k], tmp);
-				piv = M[j].nzend() - end_offset; // next nonzero location
 			} else if (!found_pivot) {
 				// new pivot
 				pivot_to_col[piv->ind] = j;
 				found_pivot = true;
 				end_offset++;
-				piv--;
 			} else {
 				// we skip zeroing out this entry
 				// need to increment offset
 				end_offset++;
-				piv--;
 			}
 		}
 	}
@@ -193,8 +190,8 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	// loop over columns
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
-		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(M[j].nnz() >= end_offset) {
+			auto piv = M[j].nzend() - end_offset; // nonzero location
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -205,17 +202,14 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 				auto a = piv->val / M[k].lastnz().val;
 				M[j].axpy(-a, M[k], tmp);
 				U[j].axpy(-a, U[k], tmp); // update change of basis
-				piv = M[j].nzend() - end_offset; // next nonzero location
 			} else if (end_offset == 1) {
 				// new pivot
 				pivot_to_col[piv->ind] = j;
 				++end_offset;
-				--piv;
 			} else {
 				// we skip zeroing out this entry
 				// need to increment offset
 				++end_offset;
-				--piv;
 			}
 		}
 	}
@@ -258,18 +252,16 @@ void reduce_column_sparsify(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (M[j].nnz() >= end_offset) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
-			--piv;
 		} else if (pivot_to_col[piv->ind] < j && end_offset == 1) {
 			// we simply eliminate this non-zero
 			size_t k = pivot_to_col[piv->ind];
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else if (pivot_to_col[piv->ind] < j) {
 			// determine if we should eliminate this non-zero
 			size_t i = piv->ind;
@@ -289,18 +281,15 @@ void reduce_column_sparsify(
 			if (ct > (M[k].nnz() / 2)) {
 				M[j].axpy(-a, M[k], tmp);
 			}
-			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (M[j].nnz() >= end_offset && (M[j].nzend() - end_offset)->ind == i) {++end_offset;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
 			++end_offset;
-			--piv;
 		} else {
 			// we skip zeroing out this entry
 			// need to increment offset
 			++end_offset;
-			--piv;
 		}
 	}
 	return;
@@ -545,20 +534,18 @@ void remove_extra_cycles(
 	size_t n = U.ncol(); // number of columns
 	for (size_t j = 0; j < n; ++j) {
 		size_t end_offset = 2; // entry above diagonal
-		auto piv = U[j].nzend() - end_offset; // nonzero location
-		while (piv - U[j].nzbegin() > 0) {
+		while (U[j].nnz() >= end_offset) {
+			auto piv = U[j].nzend() - end_offset; // nonzero location
 			size_t k = piv->ind;
 			if (R[k].nnz() == 0) {
 				// we can eliminate entry
 				auto a = piv->val / U[k].lastnz().val;
 				U[j].axpy(-a, U[k], tmp); // update change of basis
 				// R[j].axpy(R[k]) does nothing because R[k] = 0
-				piv = U[j].nzend() - end_offset; // next nonzero location
 			} else {
 				// we skip zeroing out this entry
 				// need to increment offset
 				end_offset++;
-				piv--;
 			}
 		}
 	}
-- 
2.43.0


From 6e515e7e50a82281822962060ec001d018c4f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 038/131] fix: sparsify_basis destroyed the reduction

---
 include/homology/reduction.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 35e9e4c..334d7e2 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -317,11 +317,12 @@ void sparsify_basis(
 	typename TVec::tmp_type& tmp
 ) {
 	size_t end_offset = 2; // entry above diagonal in U[j]
-	auto piv = U[j].nzend() - end_offset; // nonzero location
-	while (piv - U[j].nzbegin() > 0) {
+	while (U[j].nnz() >= end_offset) {
+		auto piv = U[j].nzend() - end_offset; // nonzero location
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		// adding column k must not change the pivot of R[j]
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -339,11 +340,9 @@ void sparsify_basis(
 				U[j].axpy(-a, U[k], tmp);
 				R[j].axpy(-a, R[k], tmp);
 			}
-			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (U[j].nnz() >= end_offset && (U[j].nzend() - end_offset)->ind == k) {++end_offset;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
-			--piv;
 		}
 	}
 	return;
-- 
2.43.0


From f0bb7aad216ed9898c9536e8548ff90d05e99e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 039/131] fix: compression with a basis left B*U != R

---
 include/homology/basis.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..65fa156 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -242,6 +242,8 @@ public:
 			U[k] = MT::identity(C.dim(k));
 			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());
 			comp_inds = get_compression_inds(R[k]);
+			// restore the compressed rows, so that B * U = R (pivots do not change)
+			R[k] = C.boundary[k] * U[k];
 		}
 
 		set_indices();
-- 
2.43.0


From b261b5dc5037305b5006b1f1fb62664b72e834a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 040/131] fix: apparent pairs were not apparent

---
 include/chain/chain_complex.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 947ed48..f5cf48a 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -344,10 +344,12 @@ template <typename Information_type>
 
 		std::vector<bool> comp_inds;
 		std::vector<bool> clear_inds;
+		std::vector<bool> seen_inds; // rows which have a nonzero in an earlier column
 		for (size_t dim = 1; dim < maxdim() + 1; ++dim) {
 			// prepare clearing and compression indices
 			clear_inds.resize(boundary[dim].nrow());
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
+			seen_inds.assign(boundary[dim].nrow(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
 			// look at pivots to determine clearing/compression inds
@@ -357,13 +359,16 @@ template <typename Information_type>
 				if (it != boundary[dim][j].nzbegin()) {
 					--it; // point to last nonzero
 					size_t i = it->ind; // pivot index
-					if (!clear_inds[i]) {
-						// this is the first time we have seen this pivot
+					if (!seen_inds[i]) {
+						// no earlier column has a nonzero in this row
 						// mark j as a compression ind
 						comp_inds[j] = true;
 						// mark i as a clearing ind
 						clear_inds[i] = true;
 					}
+					for (auto rit = boundary[dim][j].nzbegin(); rit != boundary[dim][j].nzend(); ++rit) {
+						seen_inds[rit->ind] = true;
+					}
 				}
 			}
 			// we can now clear indices one dimension lower
-- 
2.43.0


From 8dc36905e93d10d46b7b92ee80fb21819f201ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 041/131] fix: partial_reduce_parallel wrapped around on
 matrices smaller than a block

---
 include/homology/parallel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index a5375a2..841ce0d 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -350,8 +350,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, j, std::min(j+block_size, n));
 	}
 	return;
 }
@@ -371,8 +371,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, U, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, U, j, std::min(j+block_size, n));
 	}
 	return;
 }
-- 
2.43.0


From 0aa203672a943103230eb682baa27a31e4b3d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 042/131] fix: ReducedDGVectorSpace::initialize left the degree
 unset and dropped a differential

---
 include/homology/dgbasis.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..c138320 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -54,16 +54,17 @@ public:
 	initialize with chain complex C, but do not do reduction
 	*/
 	void initialize(const DGVectorSpace<MT>& C) {
-		size_t dmax = C.maxdim() + 1;
+		degree = C.degree;
+		size_t dmax = C.differential.size();
 		U.resize(dmax);
 		R.resize(dmax);
 		I.resize(dmax);
 		p2c.resize(dmax);
 
 		for (size_t k = 0; k < dmax; ++k) {
-			U[k] = MT::identity(C.dim(k));
-			R[k] = C[k];
-			p2c[k].resize(C[k].nrow(), bats::NO_IND);
+			U[k] = MT::identity(C.differential[k].ncol());
+			R[k] = C.differential[k];
+			p2c[k].resize(C.differential[k].nrow(), bats::NO_IND);
 		}
 	}
 
-- 
2.43.0


From f78bbc20b5d5b44f8728c7ec2bbe75edc3f5bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 043/131] fix: cohomology representatives used the homology
 offsets

---
 include/homology/dgbasis.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index c138320..318f5e8 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -279,7 +279,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[(degree == -1) ? k : k+1], v);
 	}
 
 	/**
@@ -287,7 +287,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[(degree == -1) ? k : k+1] * v;
 	}
 
 
@@ -297,7 +297,8 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		const size_t k_ind = (degree == -1) ? k : k+1;
+		return U[k_ind][I[k_ind][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -306,9 +307,10 @@ public:
 		vect_type &y,
 		size_t k
 	) const {
-		int dg_offset = (degree == -1) ? 0 : 1;
-		k += dg_offset;
-		if (k == R.size()-1) {
+		// kb is the location of the map into dimension k
+		const size_t kb = (degree == -1) ? k+1 : k;
+		if (degree == +1) { ++k; }
+		if (kb == R.size()) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
@@ -316,18 +318,18 @@ public:
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kb].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			// if (p2c[kb].count(j) > 0) {
+			if (p2c[kb][j] != bats::NO_IND) {
+				auto i = p2c[kb].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kb][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From c9cab8e3ef32874d7a65745fc5ebfa548c55adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 044/131] fix: permuting the basis of a chain complex with
 vertices only read past the boundary matrices

---
 include/chain/chain_complex.hpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index f5cf48a..828d18f 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -122,17 +122,13 @@ struct ChainComplex {
 
 	// permute basis in dimension k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			boundary[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
+		if (k > 0) {
+			// columns of boundary[k]; boundary[0] is zero
 			boundary[k].permute_cols(perm);
+		}
+		if (k < maxdim()) {
+			// rows of boundary[k+1]
 			boundary[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
 		}
 	}
 
@@ -144,15 +140,12 @@ struct ChainComplex {
 	}
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
-		if (k == 0) {
-			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
-		} else if (k == maxdim()) {
-			boundary[k].ipermute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
+		if (k > 0) {
+			// columns of boundary[k]; boundary[0] is zero
 			boundary[k].ipermute_cols(perm);
+		}
+		if (k < maxdim()) {
+			// rows of boundary[k+1]
 			boundary[k+1].permute_rows(bats::util::inv_perm(perm));
 		}
 	}
-- 
2.43.0


From 55fcf0f7609b4eddc547db0d4b7ddc00271fa3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 045/131] fix: sublevel sets of light complexes whose vertices
 are not numbered contiguously

---
 include/complex/abstract_complex.hpp         | 8 ++++++++
 include/complex/light_simplicial_complex.hpp | 9 +++++++++
 include/filtration/filtration.hpp            | 2 +-
 include/zigzag/zigzag_filtration.hpp         | 2 +-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/complex/abstract_complex.hpp b/include/complex/abstract_complex.hpp
index c1ede77..68a536b 100755
--- a/include/complex/abstract_complex.hpp
+++ b/include/complex/abstract_complex.hpp
@@ -25,6 +25,14 @@ public:
     }
 };
 
+namespace bats {
+
+// empty complex which can hold any subcomplex of X
+template <class CpxT>
+CpxT empty_like(const CpxT& X) { return CpxT(X.ncells(0), X.maxdim()); }
+
+} // namespace bats
+
 // //#include "csc_matrix.h"
 // //#include "sparse_vector.h"
 //
diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index ab13b52..5e59a32 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -452,8 +452,17 @@ public:
 		std::cout << ncells() << " total" << std::endl;
 	}
 
+	// empty complex on the same vertex set
+	LightSimplicialComplex empty_like() const { return LightSimplicialComplex(_n, _k); }
+
 };
 
+// vertex labels are bounded by the vertex set, not by the number of vertices present
+template <typename index_type, typename hash_table>
+LightSimplicialComplex<index_type, hash_table> empty_like(
+	const LightSimplicialComplex<index_type, hash_table>& X
+) { return X.empty_like(); }
+
 
 
 // // binomial simplicial complex
diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..986b3dc 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -206,7 +206,7 @@ public:
 	@param a upper bound of levelset
 	*/
 	CpxT sublevelset(const TF a) const {
-		CpxT Y(X.ncells(0), X.maxdim()); // initialize new complex
+		CpxT Y = empty_like(X); // initialize new complex
 		for (size_t k = 0; k < maxdim() + 1; ++k) {
 			for (size_t i = 0; i < ncells(k); ++i) {
 				if (val[k][i] <= a) {
diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..0e7c568 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -150,7 +150,7 @@ public:
 	@param s1 upper bound of levelset
 	*/
 	CpxT levelset(T s0, T s1) const {
-		CpxT Y(X.ncells(0), X.maxdim());
+		CpxT Y = empty_like(X);
 
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
-- 
2.43.0


From 3d3d7982a42f7fbc772192cc0540de451051a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 046/131] fix: adding a simplex recursively to a filtration
 overwrote the value of a cell already present

---
 include/filtration/filtration.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 986b3dc..2284e91 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -171,6 +171,8 @@ public:
 	inline std::vector<cell_ind> add_recursive(TF t, Ts (&...args)) {
 		std::vector<cell_ind> ret = X.add_recursive(args...);
 		for (auto &r : ret) {
+			reserve(r.dim); // cells already present keep their value
+			if (r.ind < val[r.dim].size()) { continue; }
 			reserve(r.dim, r.ind+1);
 			val[r.dim][r.ind] = t;
 		}
-- 
2.43.0


From 1eb356e0460edb334b4d5aa864a842102634d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 047/131] fix: updating the filtration of a reduced complex
 with vertices only read past its matrices

---
 include/homology/basis.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 65fa156..70a00fb 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -293,16 +293,13 @@ public:
 	// we also permute rows of R_{k+1}
 	void permute_matrices(size_t k, const std::vector<size_t> &perm) {
 		auto iperm = bats::util::inv_perm(perm);
-		if (k == 0) {
-			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
-		} else if (k == maxdim()) {
-			// only need to worry about rows of U[k]
+		if (k > 0) {
+			// columns of boundary[k] are rows of U[k]; boundary[0] is zero
 			U[k].permute_rows(iperm); // inverse perm here
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			U[k].permute_rows(iperm); // inverse perm here
-			R[k+1].permute_rows(iperm); // regular perm here
+		}
+		if (k < maxdim()) {
+			// rows of boundary[k+1]
+			R[k+1].permute_rows(iperm);
 		}
 		// at end of this, homology classes are invalidated
 	}
-- 
2.43.0


From 4f333585d107426ab29b15977645777443956256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 048/131] fix: updating the filtration of a filtered complex
 applied the inverse of the permutation

---
 include/chain/filtered_chain_complex.hpp |  5 +++--
 include/dgvs/filtered_dgvs.hpp           | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..d420f12 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,14 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// iperm[k][i] is the current index of the cell which moves to index i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..aeec2b0 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,26 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// iperm[k][i] is the current index of the cell which moves to index i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From f9fdaf9ce6de82991cb5d4acca2268437648b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 049/131] fix: incremental deletion permuted boundary matrices
 in the wrong direction

---
 include/chain/chain_complex.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 828d18f..37051d3 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -200,7 +200,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // permute
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -217,7 +217,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].permute_rows(bats::util::inv_perm(perm)); // permute
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
@@ -283,6 +283,12 @@ template <typename Information_type>
 
 	template <typename Information_type>
 	void update_basis_general(const Information_type &UI_fast) {
+		if (UI_fast.max_dim == 0) {
+			// vertices only: boundary[0] is zero, only its number of columns changes
+			boundary[0] = MT(boundary[0].nrow(), boundary[0].ncol()
+				- UI_fast.deletion_indices[0].size() + UI_fast.addition_indices[0].size());
+			return;
+		}
 		for (size_t k = 0; k < UI_fast.max_dim; k++) {
 			update_basis_general(k, UI_fast);
 		}
-- 
2.43.0


From 0d735c9971965f3b5ec772d31932a56a53684ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 050/131] fix: UpdateInfo2 asked for the boundary of a vertex

---
 include/filtration/update_information.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index e4d5bf0..a486061 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -173,11 +173,10 @@ struct UpdateInfo2{
 				} else {
 					// this simplex is not in X1 - must be inserted
 					insertion_indices[dim].emplace_back(fj2); // this is insertion index
-					auto [ind, val] = X2.boundary(dim, j2);
-
 					// put indices  of boundary in permutation order
 					bdry.clear();
 					if (dim > 0) {
+						auto [ind, val] = X2.boundary(dim, j2);
 						for (size_t ii = 0; ii < ind.size(); ++ii) {
 							bdry.emplace_back(nzpair(
 								iperms2[dim-1][ind[ii]], // where index gets mapped in filtration order
-- 
2.43.0


From 813db4f96337b5906da8e4181dc964788f34af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 051/131] fix: new vertices made the basis of a reduced complex
 singular

---
 include/homology/basis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 70a00fb..f49bc23 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -402,8 +402,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// index of the first new column of U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
-- 
2.43.0


From 9ac64dc3a5e417f9b085a35a69debf5d5ba2f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 052/131] fix: incremental updates of differential graded
 spaces left the top dimension stale

---
 include/homology/dgbasis.hpp | 49 ++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 318f5e8..99abcfd 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -395,6 +395,22 @@ public:
 		return;
 	}
 
+	/**
+	helper function for updates
+
+	makes the zero map beyond the top dimension match the number of cells there
+	*/
+	void _resize_top() {
+		const size_t top = R.size() - 1;
+		if (degree == -1) {
+			R[top] = MT(R[top-1].ncol(), 0);
+		} else {
+			R[top] = MT(0, R[top-1].nrow());
+			U[top] = MT::identity(R[top].ncol());
+		}
+		p2c[top] = reduce_matrix(R[top], U[top]);
+	}
+
 	template <typename... Args>
 	void update_reduction2(size_t k, Args ...args) {
 
@@ -663,6 +679,7 @@ public:
 		}
 
 
+		if (degree == -1) { _resize_top(); }
 		set_indices(); // update homology indices
 	}
 
@@ -854,8 +871,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// index of the first new column of U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -975,14 +992,8 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
-		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
-		}
+		// the zero map in the highest dimension
+		_resize_top();
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
@@ -1223,8 +1234,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// index of the first new column of U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -1338,14 +1349,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = ssize_t(max_dim)-1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k < max_dim + 1; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1358,12 +1369,8 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add zero columns
-		if(degree == +1){
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-		}
+		// the zero map in the highest dimension
+		_resize_top();
 
 		t0 = std::chrono::steady_clock::now();
 		set_indices(); // update homology indices
-- 
2.43.0


From b8da0ad1f93e3a01ccaf094f6a83ede349f6578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 053/131] fix: flag constructions of dimension zero added edges

---
 include/filtration/flag.hpp | 2 ++
 include/topology/flag.hpp   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..0341ac9 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -301,6 +301,7 @@ Filtration<T, CpxT> FlagFiltration(
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return F; } // edges exceed the maximum dimension
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -366,6 +367,7 @@ auto FlagFiltration_extension(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
         inds[0].emplace_back(k);
     }
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // edges exceed the maximum dimension
 
     std::vector<std::vector<size_t>> nbrs(n);
 
diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..bd2d83f 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -80,6 +80,7 @@ CpxT FlagComplex(
         spx_idxs[0] = k;
         X.add(spx_idxs);
     }
+    if (maxdim == 0) { return X; } // edges exceed the maximum dimension
 
     std::vector<std::vector<size_t>> nbrs(n);
 
-- 
2.43.0


From 786524ec39033ada2f0d15c59fdb15ab46f065df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 054/131] fix: FlagComplex passed unsorted edges on

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index bd2d83f..ca7cd6b 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -93,6 +93,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From 9512960afc976d25a1afc79245306d67fee6edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 055/131] fix: CompleteFlagFiltration returned an empty complex
 and ignored a small maxdim

---
 include/filtration/flag.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index 0341ac9..7614215 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -450,6 +450,7 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); } // edges exceed the maximum dimension
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -473,10 +474,12 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
-- 
2.43.0


From 1b0fc63d152331ff4893c5d9c2956aa187696686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 056/131] fix: CosineDist could be negative

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..02cb4b7 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -123,7 +123,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return T(1) - cxy;
+        return T(1) - (cxy > T(1) ? T(1) : cxy);
     }
 };
 
-- 
2.43.0


From 1442534d3e72cfb628afcac8a1dd7e6a545f7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 057/131] fix: union-find persistence read values in the wrong
 order

---
 include/persistence/union_find.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..4f569f0 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -72,7 +72,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 			0,
 			k,
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][F.perm[0][k]], // values are stored in original order
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -94,13 +94,13 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		if (pi == pj) { continue; }
 
 		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
+		T bi = pairs[pi].birth;
+		T bj = pairs[pj].birth;
 		if (bi < bj) {
 			// component with j merges into component with i
 			// kill bar at pj
 			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death = vals[1][F.perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -109,7 +109,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 			// component with i merges into component with j
 			// kill bar at pi
 			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death = vals[1][F.perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From 008dde656826e84fab69a1f6cecec500f3211d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 058/131] fix: rips_union_find_pairs did not compile for float

---
 include/persistence/union_find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 4f569f0..a45c594 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -199,7 +199,7 @@ std::vector<PersistencePair<T>> rips_union_find_pairs(
 			0,
 			k,
 			bats::NO_IND,
-			0.0, // standard birth at 0.0
+			T(0), // standard birth at 0.0
 			std::numeric_limits<T>::infinity()
 		));
 	}
-- 
2.43.0


From ce98da30dbec94bcdd8060048b135686e77bacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 059/131] fix: union-find persistence of a complex without
 edges read out of bounds

---
 include/persistence/union_find.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index a45c594..c86a9b0 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -52,13 +52,11 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	const FilteredChainComplex<T, MT> &F
 ) {
 
-	// first get boundary in dimension 1
-	// assumed to be sorted in filtration order
-	auto& B = F.complex()[1];
 	auto& vals = F.vals();
 
-	size_t N = B.nrow();
-	size_t M = B.ncol();
+	size_t N = F.complex()[0].ncol();
+	// no edges to process if there are only vertices
+	size_t M = (F.complex().maxdim() > 0) ? F.complex()[1].ncol() : 0;
 
 	// initialize parent vector
 	std::vector<size_t> parent(N);
@@ -82,7 +80,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < M; ++k) {
 		// first, get simplices on boundary
 
+		// boundary in dimension 1 is assumed to be sorted in filtration order
 		// This is not safe if we do not know we're working with 1-dimensional boundary
+		auto& B = F.complex()[1];
 		auto nzit = B[k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
-- 
2.43.0


From a4cb014bac7fb75f62868f18adf28e82af9fc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 060/131] fix: union-find persistence dereferenced the empty
 boundary of a loop

---
 include/persistence/union_find.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index c86a9b0..ef7da01 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -83,6 +83,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// boundary in dimension 1 is assumed to be sorted in filtration order
 		// This is not safe if we do not know we're working with 1-dimensional boundary
 		auto& B = F.complex()[1];
+		if (B[k].nnz() < 2) { continue; } // loop: H1 created
 		auto nzit = B[k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
-- 
2.43.0


From c6a3db44179c5e4deb24861d5b56ec9e3222d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 061/131] fix: zigzag expansion attached a first lifetime to an
 absent copy of a face

---
 include/zigzag/zigzag_filtration.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 0e7c568..13b402c 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -196,11 +196,11 @@ struct ZigzagChainComplex
 		auto it = C[k][j].nzbegin();
 		while (it != C[k][j].nzend()) {
 			auto i = it->ind;
-			// if this column enters after the original boundary exits, we need
+			// if this column enters while the original boundary is absent, we need
 			// to search for copy of boundary
-			if (val[k][j].first > val[k-1][i].second) {
+			if (val[k][j].first > val[k-1][i].second || val[k][j].first < val[k-1][i].first) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (val[k-1][i2].first <= val[k][j].first && val[k][j].first <= val[k-1][i2].second) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -259,6 +259,11 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the first lifetime may also start in a later lifetime of a face
+				// this is done last since copies are made of the original column
+				if (k > 0) {
+					_correct_indices(k, i, extra_cells);
+				}
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From ecb107f2032b1300f58c82486442f90533a17ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 062/131] fix: zigzag extra reduction skipped the first nonzero
 of a column

---
 include/zigzag/reduction.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..bf41d9b 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -110,8 +110,8 @@ void extra_col_reduction(
 ) {
 
 	size_t end_offset = 1; // difference from end
-	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(M[j].nnz() >= end_offset) {
+		auto piv = M[j].nzend() - end_offset; // nonzero location
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
@@ -120,12 +120,10 @@ void extra_col_reduction(
 			auto a = piv->val / M[k].lastnz().val;
 			M[j].axpy(-a, M[k], tmp);
 			U[j].axpy(-a, U[k], tmp);
-			piv = M[j].nzend() - end_offset; // next nonzero location
 		} else {
 			// we skip zeroing out this entry
 			// need to increment offset
 			end_offset++;
-			piv--;
 		}
 	}
 
-- 
2.43.0


From 9a6fce845def4a023907f9595eaf1a8afbc99702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 063/131] fix: zigzag barcode below the top dimension read
 removed columns

---
 include/zigzag/reduction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index bf41d9b..531b3f3 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -449,6 +449,7 @@ auto zigzag_barcode_reduction(
 
 	for (auto& fval : filt_order) {
 		ssize_t k = fval.dim; // dimension
+		if (k > maxdim + 1) { continue; } // cell does not affect homology up to maxdim
 		// std::cout << fval << std::endl;
 
 		if (fval.entry) {
-- 
2.43.0


From f1f877fd18ec87622c82e9b823c63b2b1da2f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 064/131] fix: a decreasing Rips parameter ended the program

---
 include/multigraph/functors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..d83b748 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -101,6 +101,13 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first - an exception can not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of simplicial complexes and maps
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
@@ -116,9 +123,6 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
@@ -277,6 +281,13 @@ auto RipsHom(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first - an exception can not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of dimensions and induced maps
 	Diagram<size_t, MT> TD(n, m);
 
@@ -287,9 +298,6 @@ auto RipsHom(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 		// handle nodes
 		auto Is = get_subset(X, D.node[s]);
 		auto It = get_subset(X, D.node[t]);
-- 
2.43.0


From 77b426d63920093e70e41f90d423316cfd5d523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 065/131] fix: lazy WitnessComplex did not compile

---
 include/topology/dowker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..c6814ac 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -226,7 +226,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From dd222cf1dc57105b613373964a760733c69ee142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 066/131] fix: witness_edges with a radius did not compile

---
 include/topology/dowker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index c6814ac..a58f3ca 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -164,7 +164,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
-- 
2.43.0


From 321a9f8fa02937388ebbeba779f2afbf68b42e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 067/131] fix: RPCosineDist evaluated as CosineDist

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index 02cb4b7..be5256b 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
-- 
2.43.0


From 74792ca838f264fd34b60eeb0cd75f270ae406c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 068/131] fix: RPAngleDist was NaN when rounding exceeded one

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index be5256b..3ab3b82 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From 3c8130475f7649fe0f427143b6787ae6650f19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 069/131] fix: AngleDist was NaN when rounding fell below minus
 one

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index 3ab3b82..a9e79b2 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
-- 
2.43.0


From 1a21548d85623384af2c89e1418c5b9ec80bb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 070/131] fix: RPCosineDist was negative when rounding exceeded
 one

---
 include/topology/metric.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index a9e79b2..42ab4f2 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -141,7 +141,8 @@ struct RPCosineDist : AbstractMetric<RPCosineDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return T(1) - std::abs(cxy);
+        cxy = std::abs(cxy);
+        return T(1) - (cxy > T(1) ? T(1) : cxy);
     }
 };
 
-- 
2.43.0


From df58a217861245cb655a2267d4067824d93c263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 071/131] fix: radius neighborhoods raced and returned twice as
 many lists

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..0564ba3 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -59,7 +59,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}
 
 	return nbrs;
-- 
2.43.0


From d2a6df7e457e4b41c428e681989da584dac7f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 072/131] fix: k nearest neighbors of fewer than k points read
 past the end

---
 include/topology/dowker.hpp  | 2 +-
 include/util/permutation.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index a58f3ca..ae1c620 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -185,7 +185,7 @@ SimplicialComplex WitnessComplex(
 ) {
 
 
-    size_t k = dmax + 1; // number of neighbors to find
+    size_t k = std::min(dmax + 1, L.size()); // number of neighbors to find
     // find the k closest neighbors in
     auto nbrs = neighborhoods(X, L, dist, k);
 
diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..7eb3d06 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -139,10 +139,11 @@ template <typename TI>
 std::vector<size_t> firstk(
     const TI& begin,
     const TI& end,
-    const size_t k
+    size_t k
 ) {
     std::vector<size_t> perm(end - begin);
     std::iota(perm.begin(), perm.end(), 0);
+    k = std::min(k, perm.size()); // there may be fewer than k elements
     std::partial_sort(
         perm.begin(),
         perm.begin() + k,
-- 
2.43.0


From 5ab25fa853757bbaae96ec29b7238c5d4e12b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 073/131] fix: witness_edge_param looped over the wrong number
 of rows

---
 include/topology/dowker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index ae1c620..b08a56f 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -105,10 +105,11 @@ Matrix<T> witness_edge_param(
     // get m
     auto m = get_m(pdist, nu);
     auto nX = pdist.ncol();
+    auto nL = pdist.nrow();
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < nL; i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
-- 
2.43.0


From d8d607712b17bf1639117b2c2eed36dfb2adee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 074/131] fix: Nerve of dimension 0 contained edges

---
 include/topology/nerve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..78d89c6 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // only the vertices
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From 27e924b1037fa1d4d70711e803949dac7a8a1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 075/131] fix: linear_cover_intersection_diagram edges ended at
 the wrong node

---
 include/topology/inclusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..d4d5ccd 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
-- 
2.43.0


From fda98f38c24b6287566f337e51d67c4bb2b28071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 076/131] fix: serpinski_diagram subdivided an edge into the
 wrong pieces

---
 include/topology/extras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index c9f52bf..7140205 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -101,7 +101,7 @@ Diagram<CellComplex, CellularMap> serpinski_diagram(
 
             col1[tri.ab] = Vint({t1.ab, t2.ab}, {1, 1});
             col1[tri.bc] = Vint({t2.bc, t3.bc}, {1, 1});
-            col1[tri.ca] = Vint({t2.ca, t1.ca}, {1, 1});
+            col1[tri.ca] = Vint({t1.ca, t3.ca}, {1, 1});
 
             tri_bdry.emplace_back(Vint({t1.bc, t2.ca, t3.ab}, {-1, -1, -1}));
         }
-- 
2.43.0


From dd21574ea3a85d36a94802c31f0aa7290a951309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 077/131] fix: get_m skipped zero and repeated distances

---
 include/topology/dowker.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index b08a56f..64b15da 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -41,12 +41,19 @@ std::vector<T> get_m(
     size_t nu
 ) {
     size_t N = pdist.ncol();
+    size_t n = pdist.nrow();
     std::vector<T> m(N, T(0));
+    if (nu == 0) { return m; }
+    if (nu > n) { return std::vector<T>(N, std::numeric_limits<T>::max()); }
 
-    while (nu > 0) {
-        // update m with next largest entry
-        increment_m(pdist, m);
-        nu--;
+    std::vector<T> col(n);
+    for (size_t j = 0; j < N; j++) {
+        for (size_t i = 0; i < n; i++) {
+            col[i] = pdist(i,j);
+        }
+        // entries may repeat, or be 0
+        std::nth_element(col.begin(), col.begin() + (nu - 1), col.end());
+        m[j] = col[nu - 1];
     }
 
     return m;
-- 
2.43.0


From bad30526fba177215e1835fdc32025c0ecf536d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 078/131] fix: greedy landmarks of repeated points hung or
 repeated a landmark

---
 include/topology/landmark.hpp | 49 ++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/include/topology/landmark.hpp b/include/topology/landmark.hpp
index 1f31d14..f119a6a 100755
--- a/include/topology/landmark.hpp
+++ b/include/topology/landmark.hpp
@@ -29,6 +29,20 @@ DataSet<T> random_landmarks(
 	return D[inds];
  }
 
+// index of the largest entry of d that is not yet selected (first one on ties)
+// assume that there is one
+template <typename T>
+size_t farthest_unselected(
+	const std::vector<T> &d,
+	const std::vector<bool> &selected
+) {
+	size_t i = d.size();
+	for (size_t k = 0; k < d.size(); k++) {
+		if (!selected[k] && (i == d.size() || d[i] < d[k])) { i = k; }
+	}
+	return i;
+}
+
 // greedy landmarking
 // D is dataset
 // k is number of landmarks
@@ -46,14 +60,16 @@ DataSet<T> greedy_landmarks(
 	inds.insert(i0);
 
 	std::vector<T> d = dist(D[i0], D);
+	std::vector<bool> selected(D.size(), false);
+	selected[i0] = true;
 
-	while (inds.size() < k) {
+	while (inds.size() < k && inds.size() < D.size()) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = farthest_unselected(d, selected);
 
 		// insert point
 		inds.insert(i);
+		selected[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -130,14 +146,17 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 	std::vector<T> d = dist(D[i0], D);
 
+	std::vector<bool> selected(D.size(), false);
+	selected[i0] = true;
+
 	while (inds.size() < D.size()) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = farthest_unselected(d, selected);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		selected[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -176,14 +195,17 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 	std::vector<T> d = dist(D[i0], D);
 
+	std::vector<bool> selected(D.size(), false);
+	selected[i0] = true;
+
 	while (inds.size() < k) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = farthest_unselected(d, selected);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		selected[i] = true;
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
@@ -221,14 +243,17 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 		*dit++ = pdist(i0,i);
 	}
 
+	std::vector<bool> selected(pdist.ncol(), false);
+	selected[i0] = true;
+
 	while (inds.size() < pdist.ncol()) {
 		// get furthest point from landmark set
-		auto it = std::max_element(d.cbegin(), d.cend());
-		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
-		size_t i = std::distance(d.cbegin(), it);
+		size_t i = farthest_unselected(d, selected);
+		hds.emplace_back(d[i]); // Hausdorff distance of set up to that point.
 
 		// insert new point
 		inds.emplace_back(i);
+		selected[i] = true;
 
 		// get all distances
 		auto di = pdist[i]; // distance from point i
-- 
2.43.0


From 9175fc12ec14b17497046e1ff799f0cc748580e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 079/131] fix: landmark_eps_cover with eps 0 covered nothing

---
 include/topology/cover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 803067c..92c06b8 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -155,7 +155,7 @@ bats::Cover landmark_eps_cover(
 		auto di = dist(X[i], L); // distance from X[i] to points in L
 		auto it = std::min_element(di.cbegin(), di.cend());
 		for (size_t j = 0; j < L.size(); j++) {
-			if (di[j] < *it + eps) {
+			if (di[j] <= *it + eps) {
 				// add i to any landmark set that is within eps of closest landmark
 				// this should include closest point
 				cover[j].emplace(i);
-- 
2.43.0


From 1fb951514b5f158c62b5243745b13367fdfbbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 080/131] fix: strict witness neighborhoods contained landmarks
 instead of witnesses

---
 include/topology/dowker.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 64b15da..e75e8c1 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -96,10 +96,10 @@ Matrix<T> dowker_edge_param(
     return R;
 }
 
-// get witness edge parameters
-// for witness filtration
+// distances of landmarks to points, less the nu-th smallest distance of the point
+// |L| x |X| matrix of the parameters at which X[j] is close to L[i]
 template <typename T, typename M>
-Matrix<T> witness_edge_param(
+Matrix<T> witness_param(
     const DataSet<T> &X,
     const DataSet<T> &L,
     const M &dist,
@@ -122,7 +122,19 @@ Matrix<T> witness_edge_param(
         }
     }
 
-    return dowker_edge_param(pdist);
+    return pdist;
+}
+
+// get witness edge parameters
+// for witness filtration
+template <typename T, typename M>
+Matrix<T> witness_edge_param(
+    const DataSet<T> &X,
+    const DataSet<T> &L,
+    const M &dist,
+    const size_t nu
+) {
+    return dowker_edge_param(witness_param(X, L, dist, nu));
 }
 
 
@@ -245,7 +257,7 @@ inline auto witness_neighborhoods(
     const size_t nu,
     const T rmax
 ) {
-    auto pdist = witness_edge_param(X, L, dist, nu);
+    auto pdist = witness_param(X, L, dist, nu);
     // get cover
     return neighborhoods(pdist, rmax);
 }
-- 
2.43.0


From 4c77983d3926a5c102b42f75428f5c9e252745f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 081/131] fix: interval of zero points wrote outside the data

---
 include/topology/data_gen.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/data_gen.hpp b/include/topology/data_gen.hpp
index 3a548e6..1b97137 100755
--- a/include/topology/data_gen.hpp
+++ b/include/topology/data_gen.hpp
@@ -222,6 +222,7 @@ DataSet<T> interval(
     const size_t n
 ) {
     Matrix<T> x(n, 1);
+    if (n == 0) { return DataSet<T>(x); }
     T stride = (max - min) / (n-1);
     x(0) = min;
     for (size_t i = 1; i < n; i++) {
-- 
2.43.0


From 771f5e4a3990b27841b6645f47534430bc6ac1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 082/131] fix: uniform_interval_cover converted negative and
 NaN values to size_t

---
 include/topology/cover.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 92c06b8..45b92b6 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -27,7 +27,7 @@ using Cover = std::vector<std::set<size_t>>;
 // helper function for assigning lower set
 template <typename T>
 int assign_set_lower(const T v, const T min_val, const double bin_width, const size_t nsets) {
-	double offset = (v - min_val) / bin_width;
+	double offset = (bin_width > 0) ? (v - min_val) / bin_width : 0; // width is 0 if all points agree
 	size_t bin = (size_t) floor(offset) * 2;
 	if (!(bin < nsets)) {
 		return -1;
@@ -39,6 +39,7 @@ int assign_set_lower(const T v, const T min_val, const double bin_width, const s
 template <typename T>
 int assign_set_upper(const T v, const T min_val, const double bin_width, const size_t nsets) {
 	double offset = (v - min_val) / bin_width - 0.5;
+	if (!(offset >= 0)) { return -1; } // before the first upper set, or width 0
 	size_t bin = 1 + (size_t) floor(offset) * 2;
 	if (!(bin > 0) || !(bin < nsets)) {
 		return -1;
-- 
2.43.0


From 52025744b5c8b3cfaae2e027d0708158ac072ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 083/131] fix: TriangulatedProduct used boundary keys as
 vertices for light complexes

---
 include/complex/simplicial_complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index b614e23..ad65930 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -731,14 +731,16 @@ CpxT TriangulatedProduct(
 
 			// loop over simplices of dimension dX
 			for (size_t iX = 0; iX < X.ncells(dX); iX++) {
+				auto sX = X.get_simplex(dX, iX);
 				// loop over simplices of dimension dY
 				for (size_t iY = 0; iY < Y.ncells(dY); iY++) {
+					auto sY = Y.get_simplex(dY, iY);
 					product_paths(
 						XY,
-						X.simplex_begin(dX, iX),
-						X.simplex_end(dX, iX),
-						Y.simplex_begin(dY, iY),
-						Y.simplex_end(dY, iY),
+						sX.begin(),
+						sX.end(),
+						sY.begin(),
+						sY.end(),
 						s,
 						n
 					);
-- 
2.43.0


From 877a6dfd84969f4cbac9bc29b92164e40ffaf490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 084/131] fix: tensor products read the index shift of
 dimension -1

---
 include/chain/chain_complex.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 37051d3..4d31077 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -322,8 +322,14 @@ template <typename Information_type>
 				for (size_t iA = 0; iA < A.dim(Adim); iA++) {
 					// loop over simplices of dimension dY
 					for (size_t iB = 0; iB < B.dim(Bdim); iB++) {
-						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(ind_shift[Adim-1][Bdim])\
-						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						// the boundary of a 0-dimensional chain is zero
+						VT dxy;
+						if (Adim > 0) {
+							dxy = A[Adim][iA].kron(VT(iB), B.dim(Bdim)).shift_inds(ind_shift[Adim-1][Bdim]);
+						}
+						if (Bdim > 0) {
+							dxy = dxy + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						}
 						C[n].append_column(dxy);
 					}
 				}
-- 
2.43.0


From f534219b192651b20e191885a1dd3de2af873476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 085/131] fix: EilenbergZilber read the index shift of
 dimension -1

---
 include/topology/eilenberg_zilber.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..cb5bc70 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -83,8 +83,13 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					VT dxy; // the boundary of a vertex is zero
+					if (dX > 0) {
+						dxy = CX[dX][iX].kron(VT(iY), Y.ncells(dY)).shift_inds(ind_shift[dX-1][dY]);
+					}
+					if (dY > 0) {
+						dxy = dxy + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					}
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
-- 
2.43.0


From 6c7f128baf805879f13a432faa02f673565fe010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 086/131] fix: EilenbergZilber sized the product for the square
 of X

---
 include/topology/eilenberg_zilber.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index cb5bc70..45bbf7b 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -31,7 +31,7 @@ auto EilenbergZilber(
 	using MT = ColumnMatrix<VT>;
 
 	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n*n, maxdim); // product simplicial complex
+	CpxT XY(n * Y.ncells(0), maxdim); // product simplicial complex
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
-- 
2.43.0


From 299ef03f17b82b0c68f47f397d68879a31ccb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 087/131] fix: EilenbergZilber vertices of the product were
 missing or in another order

---
 include/topology/eilenberg_zilber.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 45bbf7b..110464e 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -51,6 +51,14 @@ auto EilenbergZilber(
 			// just do this explicitly
 			ind_shift[0][0] = 0;
 			CXCY[0] = MT(1, X.ncells(0) * Y.ncells(0));
+			// vertices of the product, in the order of the tensor product
+			for (size_t iX = 0; iX < X.ncells(0); iX++) {
+				for (size_t iY = 0; iY < Y.ncells(0); iY++) {
+					s.assign(1, prod_ind(X.get_simplex(0, iX)[0], Y.get_simplex(0, iY)[0], n));
+					XY.add(s);
+				}
+			}
+			s.clear();
 			F[0] = MT::identity(X.ncells(0) * Y.ncells(0));
 			continue;
 		}
-- 
2.43.0


From 33996f40b9096f21bbc1a134b0cdba77ee1dc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 088/131] fix: the Eilenberg-Zilber map lacked the signs of the
 shuffles

---
 include/topology/eilenberg_zilber.hpp | 40 ++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 110464e..21bafb3 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -12,6 +12,44 @@ Input is 2 simplicial complexes, X, Y
 
 namespace bats {
 
+/*
+sign of simplex s of the product XY as a term of the Eilenberg-Zilber map
+on a pair of simplices of dimensions dX and dY
+n is number of possible vertices on X
+*/
+template <typename CpxT>
+int shuffle_sign(
+	const CpxT& XY,
+	const std::vector<size_t>& s,
+	const size_t dX,
+	const size_t dY,
+	const size_t n
+) {
+	// parity of the shuffle: steps in direction y taken before steps in direction x
+	size_t ysteps = 0;
+	size_t parity = 0;
+	for (size_t i = 1; i < s.size(); i++) {
+		if (s[i] / n != s[i-1] / n) { ysteps++; } else { parity += ysteps; }
+	}
+	// complexes may orient the simplices of one dimension oppositely
+	// the first vertex is removed with sign +1 in the standard orientation
+	auto flipped = [&XY](size_t maxk) {
+		size_t ct = 0;
+		for (size_t k = 1; k <= maxk; k++) {
+			auto t = XY.get_simplex(k, 0);
+			t.erase(t.begin());
+			const size_t face = XY.find_idx(t);
+			auto [ind, val] = XY.boundary(k, 0);
+			for (size_t i = 0; i < ind.size(); i++) {
+				if (ind[i] == face && val[i] == -1) { ct++; }
+			}
+		}
+		return ct;
+	};
+	parity += flipped(dX) + flipped(dY) + flipped(dX + dY);
+	return parity & 0x1 ? -1 : 1;
+}
+
 /*
 Eilenberg-Zilberg map
 returns:
@@ -109,7 +147,7 @@ auto EilenbergZilber(
 
 					for (auto& c: ci) {
 						ind.emplace_back(c.ind);
-						val.emplace_back(T(1));
+						val.emplace_back(T(shuffle_sign(XY, XY.get_simplex(dim, c.ind), dX, dY, n)));
 					}
 					F[dim].append_column(ind, val);
 				}
-- 
2.43.0


From fe0e709cda5f0918866bd46dfaeb17be133e9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 089/131] fix: relative Eilenberg-Zilber took complements of
 unsorted indices

---
 include/topology/eilenberg_zilber.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 21bafb3..c035ad9 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -247,6 +247,9 @@ std::vector<std::vector<size_t>> kron_index(
 	size_t maxdim
 ) {
 	std::vector<std::vector<size_t>> ABinds(maxdim+1);
+	// complements are taken of sorted indices
+	for (auto& ind : Ainds) { std::sort(ind.begin(), ind.end()); }
+	for (auto& ind : Binds) { std::sort(ind.begin(), ind.end()); }
 
 	// loop over simplex dimension of product
 	for (size_t dim = 0; dim <=maxdim; dim++) {
-- 
2.43.0


From bb233497b2c92ba7f5ec2e3bf7b20fcdbe58f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 090/131] fix: columns of the Mayer-Vietoris boundary were not
 sorted

---
 include/topology/mayer_vietoris.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..3973892 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -61,6 +61,7 @@ auto mayer_vietoris_boundary(
                 c = -c;
             }
             col.emplace_back(TC(inds, vals));
+            col.back().sort();
 
         } else {
             // boundary is 0
-- 
2.43.0


From d122d6b05e57ddf78068c19648d9afc73bc3c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 091/131] fix: SparseVector could not read the line it writes

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index b5ae5c3..1972eed 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -183,7 +183,8 @@ public:
 		std::istringstream iss(line);
 		while (getline(iss, token, ',')) {
 			// std::cout << token << ',' << std::endl;
-			if (token.size() > 0) {
+			// the line may still have its line break
+			if (token.find_first_not_of(" \t\r\n") != std::string::npos) {
 				indval.emplace_back(key_type(token));
 			}
 		}
-- 
2.43.0


From e21f0e0efab7d1f4a211926c23900cb09818fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 092/131] fix: fractions, reals and large indices were cut when
 read

---
 include/linalg/abstract_vector.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 5d8345a..5b7cbfa 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <string>
 #include <sstream>
+#include <type_traits>
 
 /*
 struct that holds index value pairs
@@ -20,9 +21,21 @@ struct nzpair {
       std::string token;
   		std::istringstream iss(str);
   		getline(iss, token, ':');
-  		ind = TI(std::stoi(token));
+  		ind = TI(std::stoull(token));
   		getline(iss, token);
-  		val = TV(std::stoi(token));
+  		val = parse_val(token);
+    }
+
+    // read a value in the format in which values are written
+    static TV parse_val(const std::string &str) {
+      if constexpr (std::is_floating_point<TV>::value) {
+        return TV(std::stod(str));
+      } else {
+        const size_t slash = str.find('/');
+        const TV num(std::stoll(str));
+        if (slash == std::string::npos) { return num; }
+        return num / TV(std::stoll(str.substr(slash + 1))); // fraction
+      }
     }
 
     inline bool operator==(const nzpair &other) const { return (ind == other.ind) && (val == other.val); }
-- 
2.43.0


From afc546c43ab65f8519525fb9a67a5527a443e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 093/131] fix: CellularMap could not be read from a file

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..54f2630 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -39,7 +39,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
-- 
2.43.0


From b3067b093376cc4ff4104064f79ae1ec9817c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 094/131] fix: CellularMap::operator[] did not allocate the
 dimension asked for

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 54f2630..6b0e595 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From 16307c910c52bacf16dfffabe21764412c1525e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 095/131] fix: real values lost digits when written

---
 include/linalg/sparse_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 1972eed..1b00185 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -11,6 +11,8 @@ maintains indices in sorted order
 #include <iostream>
 #include <algorithm>
 #include <string>
+#include <limits>
+#include <type_traits>
 #include <sstream>
 #include <utility>
 #include <random>
@@ -1192,12 +1194,18 @@ public:
 
 	template <typename IO>
 	void write(IO &io) const {
+		// write enough digits to read the same values again
+		const auto prec = io.precision();
+		if constexpr (std::is_floating_point<TV>::value) {
+			io.precision(std::numeric_limits<TV>::max_digits10);
+		}
 		auto it = indval.cbegin();
 		while (it != indval.cend()) {
 			io << (*it).ind << ':' << (*it).val << ',';
 			++it;
 		}
 		io << '\n';
+		io.precision(prec);
 	}
 
 	std::string str() {
-- 
2.43.0


From 7378fb7835b4cb39e320c0c7b700d67e71229b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 096/131] fix: simplices with large vertex labels could not be
 read

---
 include/util/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/simplex.hpp b/include/util/simplex.hpp
index 6de0c93..78cacdf 100755
--- a/include/util/simplex.hpp
+++ b/include/util/simplex.hpp
@@ -109,7 +109,7 @@ void read_simplex(std::string &line, std::vector<T> &s) {
     while (getline(iss, token, ',')) {
         // std::cout << token << ',' << std::endl;
         if (token.size() > 0) {
-            s.emplace_back(std::stoi(token));
+            s.emplace_back(std::stoull(token));
         }
     }
 }
-- 
2.43.0


From 2c4024ab04d26ae12dd5dd251629299a1746c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 097/131] fix: point clouds with lines of different lengths
 overran their matrix

---
 include/topology/data.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..7afdf2b 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 
 #include <linalg/naive_dense.hpp>
 
@@ -28,7 +29,6 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 		std::string line;
 		if (header) {getline(file, line);} // TODO: check validity of header?
 		while (getline(file, line)) {
-			m++;
 			std::string token;
 		    std::istringstream iss(line);
 			size_t ncol = 0;
@@ -39,11 +39,14 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 					data.emplace_back(T(std::stod(token)));
 				}
 			}
+			if (ncol == 0) {continue;} // nothing on this line
+			m++;
 			if ( n== 0 ) {
 				n = ncol;
 			} else if (n != ncol) {
 				std::cerr << "inconsistent number of columns at line " << m << std::endl;
 				std::cerr << "saw " << ncol << " entries, expected " << n << std::endl;
+				throw std::runtime_error("inconsistent number of columns in " + fname);
 			}
 		}
 		file.close();
-- 
2.43.0


From b7e3dc7b684e08c73e4f2dd8d2fd396f9c716103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 098/131] fix: read_point_cloud mixed the coordinates of
 different points

---
 include/topology/data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 7afdf2b..67fb558 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -58,7 +58,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // one point on each row
 }
 
 
-- 
2.43.0


From 6cedc57bb97356c641c1e5ea01360276371052c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 099/131] fix: zigzag extensions entered cells with negative
 values too late

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..0184ebc 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
-- 
2.43.0


From 1b1178652c82dfc6b672a10f7acd8ec35de437bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 100/131] fix: zigzag extension on a LightSimplicialComplex
 read face keys as vertices

---
 include/zigzag/extension.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 0184ebc..8065eeb 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -54,13 +54,11 @@ auto extend_zigzag_filtration(
     for (size_t k = 0; k < X.maxdim() + 1; ++k) {
         val[k].resize(X.ncells(k));
         for (size_t i = 0; i < X.ncells(k); ++i) {
-            auto minmax = detail::simplex_extrema(
-                X.simplex_begin(k, i), X.simplex_end(k, i), f0
-            );
+            auto spx = X.get_simplex(k, i);
+            auto minmax = detail::simplex_extrema(spx.cbegin(), spx.cend(), f0);
             T entry = minmax.second - eps;
             T removal = minmax.first + eps;
             if (entry > removal) {
-                auto spx = X.get_simplex(k, i);
                 for (auto s : spx) { std::cout << s << ","; }
                 std::cout << std::endl;
                 std::cout << minmax.first << ", " << minmax.second << ", eps = " << eps << std::endl;
-- 
2.43.0


From f813a41d3517d0dcf0539ad6d30e0406ecc7d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 101/131] fix: extend_levelset declared a return type its value
 does not have

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 8065eeb..7693f52 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -125,10 +125,10 @@ complex.  The filtration progresses from low to high values.
 @param eps  thickened levelset radius
 @param n    length of cube
 
-@return val vector of vector of pairs holding zigzag filtration values for each cube.
+@return val vector of vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From 42590b34ebb8e455b42f676a9581639d4000140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 102/131] fix: zigzag_toplex removed edges before the last
 pixel next to them

---
 include/topology/levelset.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..aed4039 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -85,19 +85,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -111,19 +111,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -137,19 +137,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
-- 
2.43.0


From c859b64e4335715aaaac7757e182da201bbd71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 103/131] fix: levelsets missed cells alive throughout the
 interval

---
 include/zigzag/zigzag_filtration.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 13b402c..4f8250d 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -155,9 +155,11 @@ public:
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
-				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
-					Y.add(X.get_cell(k, i));
+				for (auto &[b, d] : val[k][i]) {
+					if (!(d < s0) && !(s1 < b)) {
+						Y.add(X.get_cell(k, i));
+						break;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 297f3359b32723c3ebd4480bdd08b79eb21ecb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 104/131] fix: windows of zigzag_levelsets could fail to nest
 by a rounding error

---
 include/topology/levelset.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index aed4039..1f593e4 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -254,9 +254,11 @@ auto zigzag_levelsets(
     T si = t0;
     sets.emplace_back(std::make_pair(si, si + eps)); // first set
     while (si < t1 - eps) {
-        sets.emplace_back(std::make_pair(si, si + 2*eps));
-        si += eps;
-        sets.emplace_back(std::make_pair(si, si + eps));
+        T s1 = si + eps;
+        T s2 = s1 + eps;
+        sets.emplace_back(std::make_pair(si, s2));
+        sets.emplace_back(std::make_pair(s1, s2));
+        si = s1;
     }
 
     size_t n = sets.size();
-- 
2.43.0


From 8daa3a45aed5b4d074cebf07de7ba2d3169e2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 105/131] fix: grids one vertex wide had no vertices, empty
 grids did not terminate

---
 include/topology/grid.hpp | 135 ++++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 58 deletions(-)

diff --git a/include/topology/grid.hpp b/include/topology/grid.hpp
index c979b9e..001ee85 100644
--- a/include/topology/grid.hpp
+++ b/include/topology/grid.hpp
@@ -34,8 +34,18 @@ template <typename CpxT>
 CpxT Freudenthal(size_t m, size_t n) {
     CpxT X(m*n, 2);
 
-    for (size_t i = 0; i < m-1; ++i) {
-        for (size_t j = 0; j < n-1; ++j) {
+    // vertices and edges along the axes, in case the grid is 1-dimensional
+    for (size_t i = 0; i < m; ++i) {
+        for (size_t j = 0; j < n; ++j) {
+            auto k1 = rowmajor::get_idx(i, j, n);
+            X.add_recursive({k1});
+            if (i > 0) { X.add_recursive({rowmajor::get_idx(i-1, j, n), k1}); }
+            if (j > 0) { X.add_recursive({rowmajor::get_idx(i, j-1, n), k1}); }
+        }
+    }
+
+    for (size_t i = 0; i + 1 < m; ++i) {
+        for (size_t j = 0; j + 1 < n; ++j) {
             auto k1 = rowmajor::get_idx(i,j,n);
             auto k2 = rowmajor::get_idx(i+1, j, n);
             auto k3 = rowmajor::get_idx(i, j+1, n);
@@ -54,8 +64,17 @@ Cubical complex on 2-dimensional gird on m x n vertices
 CubicalComplex Cube(size_t m, size_t n) {
     CubicalComplex X(2);
 
-    for (size_t i = 0; i < m-1; ++i) {
-        for (size_t j = 0; j < n-1; ++j) {
+    // vertices and edges along the axes, in case the grid is 1-dimensional
+    for (size_t i = 0; i < m; ++i) {
+        for (size_t j = 0; j < n; ++j) {
+            X.add_recursive({i, i, j, j});
+            if (i > 0) { X.add_recursive({i-1, i, j, j}); }
+            if (j > 0) { X.add_recursive({i, i, j-1, j}); }
+        }
+    }
+
+    for (size_t i = 0; i + 1 < m; ++i) {
+        for (size_t j = 0; j + 1 < n; ++j) {
             X.add_recursive({i, i+1, j, j+1});
         }
     }
@@ -63,6 +82,11 @@ CubicalComplex Cube(size_t m, size_t n) {
 }
 
 
+// subsets of a 3-dimensional grid, defined below
+template <typename CpxT>
+CpxT Freudenthal(size_t n1, size_t n2, size_t n3, size_t i0, size_t i1, size_t j0, size_t j1, size_t k0, size_t k1);
+CubicalComplex Cube(size_t, size_t, size_t, size_t i0, size_t i1, size_t j0, size_t j1, size_t k0, size_t k1);
+
 /**
 Freudenthal triangulation of 3-dimensional grid on n1 x n2 x n3 vertices
 
@@ -70,50 +94,18 @@ Freudenthal triangulation of 3-dimensional grid on n1 x n2 x n3 vertices
 @param n2 grid size in 2nd index
 @param n3 grid size in 3rd index
 
-The grid is indexed in row-major order.  The index for vertex `(i,j,k)` is `k + n2 * (j + n1 * i)`
+The grid is indexed in row-major order.  The index for vertex `(i,j,k)` is `k + n3 * (j + n2 * i)`
 */
 template <typename CpxT>
 CpxT Freudenthal(size_t n1, size_t n2, size_t n3) {
-    CpxT X(n1*n2*n3, 3); // 3 is the max complex dimension
-
-    for (size_t i = 0; i < n1-1; ++i) {
-        for (size_t j = 0; j < n2-1; ++j) {
-            for (size_t k = 0; k < n3-1; ++k) {
-                auto s1 = rowmajor::get_idx(i,j,k, n2, n3);
-                auto s2 = rowmajor::get_idx(i,j,k+1, n2, n3);
-                auto s3 = rowmajor::get_idx(i,j+1,k, n2, n3);
-                auto s4 = rowmajor::get_idx(i+1,j,k, n2, n3);
-                auto s5 = rowmajor::get_idx(i,j+1,k+1, n2, n3);
-                auto s6 = rowmajor::get_idx(i+1,j,k+1, n2, n3);
-                auto s7 = rowmajor::get_idx(i+1,j+1,k, n2, n3);
-                auto s8 = rowmajor::get_idx(i+1,j+1,k+1, n2, n3);
-                X.add_recursive({s1,s2,s5,s8}); // k, j, i
-                X.add_recursive({s1,s2,s6,s8}); // k, i, j
-                X.add_recursive({s1,s4,s7,s8}); // i, j, k
-                X.add_recursive({s1,s4,s6,s8}); // i, k, j
-                X.add_recursive({s1,s3,s7,s8}); // j, i, k
-                X.add_recursive({s1,s3,s5,s8}); // j, k, i
-            }
-        }
-    }
-
-    return X;
+    return Freudenthal<CpxT>(n1, n2, n3, 0, n1, 0, n2, 0, n3);
 }
 
 /**
 Cubical complex on 3-dimensional gird on n1 x n2 x n3 vertices
 */
 CubicalComplex Cube(size_t n1, size_t n2, size_t n3) {
-    CubicalComplex X(3);
-
-    for (size_t i = 0; i < n1-1; ++i) {
-        for (size_t j = 0; j < n2-1; ++j) {
-            for (size_t k = 0; k < n3-1; ++k) {
-                X.add_recursive({i, i+1, j, j+1, k, k+1});
-            }
-        }
-    }
-    return X;
+    return Cube(n1, n2, n3, 0, n1, 0, n2, 0, n3);
 }
 
 /**
@@ -129,7 +121,7 @@ Subset of Freudenthal triangulation of 3-dimensional grid on n1 x n2 x n3 vertic
 @param k0 start of third index
 @param k1 end of third index
 
-The grid is indexed in row-major order.  The index for vertex `(i,j,k)` is `k + n2 * (j + n1 * i)`
+The grid is indexed in row-major order.  The index for vertex `(i,j,k)` is `k + n3 * (j + n2 * i)`
 
 This function is useful for constructing zigzags through a grid
 */
@@ -145,10 +137,24 @@ CpxT Freudenthal(
     // declare index helpers
     size_t s1, s2, s3, s4, s5, s6, s7, s8;
 
+    // add vertices and edges along the axes
+    // do this in case we are on a 1-dimensional slice
+    for (size_t i = i0; i < i1; ++i) {
+        for (size_t j = j0; j < j1; ++j) {
+            for (size_t k = k0; k < k1; ++k) {
+                s1 = rowmajor::get_idx(i, j, k, n2, n3);
+                X.add_recursive({s1});
+                if (i > i0) { X.add_recursive({rowmajor::get_idx(i-1, j, k, n2, n3), s1}); }
+                if (j > j0) { X.add_recursive({rowmajor::get_idx(i, j-1, k, n2, n3), s1}); }
+                if (k > k0) { X.add_recursive({rowmajor::get_idx(i, j, k-1, n2, n3), s1}); }
+            }
+        }
+    }
+
     // add 2-simplices on planes
     // do this in case we are on a 2-dimensional slice
-    for (size_t i = i0; i < i1-1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
             for (size_t k = k0; k < k1; ++k) {
                 // i-j plane
                 s1 = rowmajor::get_idx(i,   j,   k,   n2, n3);
@@ -162,8 +168,8 @@ CpxT Freudenthal(
     }
 
     for (size_t i = i0; i < i1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 // j-k plane
                 s1 = rowmajor::get_idx(i,   j,   k,   n2, n3);
                 s2 = rowmajor::get_idx(i,   j+1, k,   n2, n3);
@@ -175,9 +181,9 @@ CpxT Freudenthal(
         }
     }
 
-    for (size_t i = i0; i < i1-1; ++i) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
         for (size_t j = j0; j < j1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 // i-k plane
                 s1 = rowmajor::get_idx(i,   j,   k,   n2, n3);
                 s2 = rowmajor::get_idx(i+1, j,   k,   n2, n3);
@@ -190,9 +196,9 @@ CpxT Freudenthal(
     }
 
     // add 3-simplices
-    for (size_t i = i0; i < i1-1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 s1 = rowmajor::get_idx(i,j,k, n2, n3);
                 s2 = rowmajor::get_idx(i,j,k+1, n2, n3);
                 s3 = rowmajor::get_idx(i,j+1,k, n2, n3);
@@ -237,10 +243,23 @@ CubicalComplex Cube(
 ) {
     CubicalComplex X(3); // 3 is the max complex dimension
 
+    // add vertices and edges along the axes
+    // do this in case we are on a 1-dimensional slice
+    for (size_t i = i0; i < i1; ++i) {
+        for (size_t j = j0; j < j1; ++j) {
+            for (size_t k = k0; k < k1; ++k) {
+                X.add_recursive({i, i, j, j, k, k});
+                if (i > i0) { X.add_recursive({i-1, i, j, j, k, k}); }
+                if (j > j0) { X.add_recursive({i, i, j-1, j, k, k}); }
+                if (k > k0) { X.add_recursive({i, i, j, j, k-1, k}); }
+            }
+        }
+    }
+
     // add 2-simplices on planes
     // do this in case we are on a 2-dimensional slice
-    for (size_t i = i0; i < i1-1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
             for (size_t k = k0; k < k1; ++k) {
                 // i-j plane
                 X.add_recursive({i, i+1, j, j+1, k, k});
@@ -248,16 +267,16 @@ CubicalComplex Cube(
         }
     }
     for (size_t i = i0; i < i1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 // j-k plane
                 X.add_recursive({i, i, j, j+1, k, k+1});
             }
         }
     }
-    for (size_t i = i0; i < i1-1; ++i) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
         for (size_t j = j0; j < j1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 // i-k plane
                 X.add_recursive({i, i+1, j, j, k, k+1});
             }
@@ -265,9 +284,9 @@ CubicalComplex Cube(
     }
 
     // add 3-simplices
-    for (size_t i = i0; i < i1-1; ++i) {
-        for (size_t j = j0; j < j1-1; ++j) {
-            for (size_t k = k0; k < k1-1; ++k) {
+    for (size_t i = i0; i + 1 < i1; ++i) {
+        for (size_t j = j0; j + 1 < j1; ++j) {
+            for (size_t k = k0; k + 1 < k1; ++k) {
                 X.add_recursive({i, i+1, j, j+1, k, k+1});
             }
         }
-- 
2.43.0


From d3c9aa3026e64b0bad9b78e2bdfd012e35061da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 106/131] fix: CSCMatrix built without dimensions had an
 uninitialised number of rows

---
 include/linalg/csc_matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 1979a52..2c7bd9c 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -2,6 +2,7 @@
 
 #include <cstddef>
 #include <cassert>
+#include <algorithm>
 #include <vector>
 #include "abstract_matrix.hpp"
 #include <util/sorted.hpp>
@@ -84,7 +85,8 @@ public:
         const std::vector<TI> &colptr,
         const std::vector<TI> &rowind,
         const std::vector<TV> &val
-    ) : colptr(colptr), rowind(rowind), val(val), n(colptr.size()-1) {
+    ) : colptr(colptr), rowind(rowind), val(val), m(0), n(colptr.size()-1) {
+        for (auto i : rowind) { m = std::max(m, size_t(i) + 1); }
         sort();
     }
 
-- 
2.43.0


From 0402bf6d46f46f00819ad4fceda73cf35bfc09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 107/131] fix: default LightSimplicialComplex had no tables for
 its dimension

---
 include/complex/light_simplicial_complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 5e59a32..9b85ca3 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -153,7 +153,7 @@ private:
 	};
 
 public:
-    LightSimplicialComplex() : _n(0), _k(0) {}
+    LightSimplicialComplex() : LightSimplicialComplex(0, 0) {}
 
     LightSimplicialComplex(
         const index_type n,
-- 
2.43.0


From d63b081bb5f9a5d2c00245ec5105086da993efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 108/131] fix: default-constructed ReducedDGVectorSpace had an
 uninitialised degree

---
 include/homology/dgbasis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 99abcfd..caf1e46 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -86,7 +86,7 @@ public:
 	}
 
 
-	ReducedDGVectorSpace() {}
+	ReducedDGVectorSpace() : degree(-1) {}
 
 	// compute reduced chain complex from chain complex
 	ReducedDGVectorSpace(const DGVectorSpace<MT> &C) : degree(C.degree) {
-- 
2.43.0


From a43958e7602acea27b9f82c99a296719e8d20afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 109/131] fix: dense apply_matmul_on_right returned its right
 operand

---
 include/linalg/naive_dense.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 1e4019e..415baa2 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -535,12 +535,12 @@ A<Dense<F,Acc2>> apply_matmul_on_left(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> A
 }
 
 template <typename F,typename Acc1,typename Acc2>
-A<Dense<F,Acc2>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
+A<Dense<F,Acc1>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
     size_t m = Amat1.nrow();
     for (size_t i = 0; i < m; i++) {
         matmul(Amat1.r(i), Amat2);
     }
-    return Amat2;
+    return Amat1;
 }
 
 
-- 
2.43.0


From 44584e748f15fbf20cfac5b142bda704311e8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 110/131] fix: dense commute read past the last row

---
 include/linalg/naive_dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 415baa2..d44085a 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -562,7 +562,7 @@ L<Dense<F,Acc2>> commute(EL<Dense<F,Acc1>> ELmat, L<Dense<F,Acc2>> Lmat) {
     // loop over columns of ELmat
     for (j = 0; j < n && i < m; j++) {
         // increment i until we find a non-zero, or run out of column
-        while (ELmat(i,j) == F(0) && i < m) {
+        while (i < m && ELmat(i,j) == F(0)) {
             i++;
         }
         // column is all zero
-- 
2.43.0


From 20ecbb07a3d22a605c00156b9bb3c962739b3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 111/131] fix: dense find_pivot read past the last column

---
 include/linalg/naive_dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index d44085a..9654ed4 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -732,7 +732,7 @@ auto find_pivot(M mat,size_t pr, size_t pc){
         prow ++; // try new row
         pcol = pc;
         //search col, give up if u reach last col
-        while( (mat(prow,pcol)==F(0)) & (pcol < mat.n)){
+        while( (pcol < mat.n) && (mat(prow,pcol)==F(0)) ){
             pcol++;
         }
     }while((pcol == mat.n) && !(prow == mat.m-1));
-- 
2.43.0


From 479514ca2d1e12d7e84dec7f57eac1c06685af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 112/131] fix: postfix increment of strided iterators returned
 the incremented position

---
 include/future/dense.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index c0b4a45..32ecaad 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -47,9 +47,9 @@ public:
 	strided_iterator(T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator old(*this); pos_+=stride_; return old; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator old(*this); pos_-=stride_; return old; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -79,9 +79,9 @@ public:
 	const_strided_iterator(const T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~const_strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator old(*this); pos_+=stride_; return old; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator old(*this); pos_-=stride_; return old; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -140,9 +140,9 @@ public:
 		const_iterator(const T v, const T s) : val_(v), stride_(s) {}
 		~const_iterator() {}
 
-		iterator operator++(int) { return iterator(val_+=stride_, stride_); } // postfix
+		iterator operator++(int) { iterator old(*this); val_+=stride_; return old; } // postfix
 		iterator& operator++() {val_+=stride_; return *this; } // prefix
-		iterator operator--(int) {return iterator(val_-=stride_, stride_); } // postfix
+		iterator operator--(int) { iterator old(*this); val_-=stride_; return old; } // postfix
 		iterator& operator--() {val_-=stride_; return *this; } // prefix
 		reference operator*() const { return val_; }
 		pointer operator->() const { return &val_; }
-- 
2.43.0


From 27a6f83e37ef8f0d0b59d59ec36c498fa224aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 113/131] fix: LU of rectangular and empty matrices went out of
 bounds

---
 include/future/lu.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index ee3f84c..9b59832 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <utility>
 
 namespace bats {
@@ -137,7 +138,7 @@ MT unit_lower(const MT &A) {
 	MT L = MT::identity(m);
 	// loop in row major order
 	for (size_t i = 1; i < m; i++) {
-		for (size_t j = 0; j < i; j++ ) {
+		for (size_t j = 0; j < i && j < n; j++ ) {
 			L(i,j) = A(i,j);
 		}
 	}
@@ -174,7 +175,7 @@ LUFact<MT> LU(const MT &A0) {
 	MT Q = MT::identity(n);
 	// maintain invariant P^T A Q^T
 
-	for (size_t k = 0; k < n-1; k++) {
+	for (size_t k = 0; k < std::min(m, n); k++) {
 		auto [mu, lam] = find_pivot_complete(A, k);
 		// do pivoting
 		A.swap_rows(k, mu);
-- 
2.43.0


From 4f553c194b98fc7fc56e267786bcca5a9d7a0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 114/131] fix: LU returned the inverses of its permutations

---
 include/future/lu.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index 9b59832..22eeab4 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -173,7 +173,7 @@ LUFact<MT> LU(const MT &A0) {
 
 	MT P = MT::identity(m);
 	MT Q = MT::identity(n);
-	// maintain invariant P^T A Q^T
+	// maintain invariant P * A * Q = A0
 
 	for (size_t k = 0; k < std::min(m, n); k++) {
 		auto [mu, lam] = find_pivot_complete(A, k);
@@ -196,7 +196,7 @@ LUFact<MT> LU(const MT &A0) {
 		}
 	}
 
-	return LUFact(P.transpose(), unit_lower(A), upper(A), Q.transpose());
+	return LUFact(std::move(P), unit_lower(A), upper(A), std::move(Q));
 }
 
 }
-- 
2.43.0


From 327942b7a33711a5da5151a39a18ea4e5d8cdb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 115/131] fix: Span::contains wrote past its copy and accepted
 every vector

---
 include/future/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/future/span.hpp b/include/future/span.hpp
index 5f1599b..cef3188 100755
--- a/include/future/span.hpp
+++ b/include/future/span.hpp
@@ -80,14 +80,14 @@ public:
 	// returns false if vector is not in span
 	template <typename TV>
 	bool contains(const TV &v) const {
-		std::vector<T> v_copy(dim());
+		std::vector<T> v_copy(vdim());
 
 		// put P^T*v in v_copy
 		gemv(Pt, v, v_copy);
 
 		l_residual(L, v_copy);
 
-		auto piv = find_pivot_high(v, vdim(), dim());
+		auto piv = find_pivot_high(v_copy, dim(), vdim());
 
 		// if v_copy has been zeroed out, then in span.
 		return piv == -1 ? true : false;
-- 
2.43.0


From 7fbc9ef35e79bce0c6fb9349d98a9922adde9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 116/131] fix: descending ranges never ended

---
 include/future/dense.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index 32ecaad..cd4b447 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -105,8 +105,6 @@ public:
 	range() : begin_(0), end_(0), stride_(0) {}
 	range(T b, T e) : begin_(b), end_(e), stride_(1) {
 		if (e < b) {
-			begin_ = e;
-			end_ = b;
 			stride_ = T(-1);
 		}
 	}
-- 
2.43.0


From f866288e4131dc20c5eaf46abde29326cdf276b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 117/131] fix: trilu on CSC matrices did not compile and
 ignored the diagonal

---
 include/linalg/csc_matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 2c7bd9c..54806f7 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -426,13 +426,13 @@ public:
                 C.val.emplace_back(B.val[pBj]);
             }
 
-            size_t lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
+            size_t lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), m);
 
             while (lastnz != bats::NO_IND) {
 
                 TI i = *(C.rowind.cbegin() + offsetCj + lastnz);
-                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 *(C.val.begin() + offsetCj + lastnz) /= A.val[A.colptr[i+1] - 1]; // y[i] = y[i] / U[i,i]
+                TV yi = *(C.val.cbegin() + offsetCj + lastnz);
                 // y[:i-1] += y[i]*U[:i-1, i]
                 size_t offsetAi = A.colptr[i];
 
@@ -455,7 +455,7 @@ public:
                     }
                 }
 
-                lastnz = find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
+                lastnz = bats::util::find_sorted_lt(C.rowind.cbegin() + offsetCj, C.rowind.cend(), i);
             }
             C.colptr[j+1] = C.rowind.size();
         }
-- 
2.43.0


From ebb1130e7952564aa8bf34d863ef3cf22440cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:42 +0000
Subject: [PATCH 118/131] fix: MorsePairing of a complex with cells did not
 make room for them

---
 include/morse/pairing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/morse/pairing.hpp b/include/morse/pairing.hpp
index 6744e66..65895a4 100755
--- a/include/morse/pairing.hpp
+++ b/include/morse/pairing.hpp
@@ -206,8 +206,10 @@ public:
 
 	MorsePairing(CpxT &C) : cpx(&C), _maxdim(0) {
 		for (size_t dim = 0; dim < C.maxdim() + 1; dim++){
-			reserve(dim, C._reserved[dim]);
-			// reserve(dim, C.ncells(dim));
+			// make room for cells that are present as well as those reserved
+			size_t n = C.ncells(dim);
+			if (dim < C._reserved.size()) { n = std::max(n, C._reserved[dim]); }
+			reserve(dim, n);
 		}
 	};
 
-- 
2.43.0


From e72104309d30ac13a6dcd2ad91e53068d6bc288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:42 +0000
Subject: [PATCH 119/131] fix: MorsePairing::clear kept the components of the
 0-cells

---
 include/morse/pairing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/morse/pairing.hpp b/include/morse/pairing.hpp
index 65895a4..7c72f51 100755
--- a/include/morse/pairing.hpp
+++ b/include/morse/pairing.hpp
@@ -234,6 +234,10 @@ public:
 		for (size_t i = 0; i < down.size(); i++) {
 			down[i].clear();
 		}
+		// every 0-cell is in its own component again
+		for (size_t i = 0; i < parent.size(); i++) {
+			parent[i] = i;
+		}
 	}
 
 	inline size_t maxdim() const { return _maxdim; }
-- 
2.43.0


From e4aac9e6f461d536d34bf9c807bde85a30bb3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:43 +0000
Subject: [PATCH 120/131] fix: define the functions of the headers inline, so
 that several translation units can include them

---
 include/filtration/filtration.hpp    |  2 +-
 include/filtration/rips.hpp          |  2 +-
 include/future/permutation.hpp       |  4 ++--
 include/homology/reduction.hpp       |  2 +-
 include/linalg/pid.hpp               |  2 +-
 include/multigraph/functors.hpp      |  2 +-
 include/persistence/union_find.hpp   |  3 ++-
 include/quiver/sparse.hpp            |  2 +-
 include/topology/cover.hpp           |  2 +-
 include/topology/data_gen.hpp        |  2 +-
 include/topology/extras.hpp          |  2 +-
 include/topology/grid.hpp            |  6 +++---
 include/topology/inclusion.hpp       |  4 ++--
 include/topology/nerve.hpp           |  4 ++--
 include/util/io.hpp                  |  2 +-
 include/util/permutation.hpp         | 16 ++++++++--------
 include/util/set.hpp                 |  2 +-
 include/zigzag/zigzag_filtration.hpp |  4 ++--
 18 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 2284e91..9a42329 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -26,7 +26,7 @@ std::vector<std::vector<size_t>> filtration_sortperm(
 	return perms;
 }
 
-std::vector<std::vector<size_t>> filtration_iperm(
+inline std::vector<std::vector<size_t>> filtration_iperm(
 	const std::vector<std::vector<size_t>> &perms
 ) {
 	std::vector<std::vector<size_t>> iperms;
diff --git a/include/filtration/rips.hpp b/include/filtration/rips.hpp
index 4ea0bba..6392d82 100755
--- a/include/filtration/rips.hpp
+++ b/include/filtration/rips.hpp
@@ -75,7 +75,7 @@ void rips_edges(std::vector<T> &x, std::vector<size_t> &edges, std::vector<T> &t
 }
 
 // returns all pairs on n vertices
-std::vector<size_t> all_pairs(const size_t n) {
+inline std::vector<size_t> all_pairs(const size_t n) {
     size_t m = ((n-1)*n) / 2;
     std::vector<size_t> edges;
     edges.reserve(m);
diff --git a/include/future/permutation.hpp b/include/future/permutation.hpp
index 546ef52..0275ab3 100755
--- a/include/future/permutation.hpp
+++ b/include/future/permutation.hpp
@@ -40,7 +40,7 @@ struct ElementaryPermutation {
 
 	friend std::ostream& operator<<(std::ostream& os, const ElementaryPermutation& p);
 };
-std::ostream& operator<<(std::ostream& os, const ElementaryPermutation& p) {
+inline std::ostream& operator<<(std::ostream& os, const ElementaryPermutation& p) {
 	os << '(' << p.i << ',' << p.j << ')';
 	return os;
 }
@@ -83,7 +83,7 @@ public:
 
 	friend std::ostream& operator<<(std::ostream& os, const CompositePermutation& p);
 };
-std::ostream& operator<<(std::ostream& os, const CompositePermutation& p) {
+inline std::ostream& operator<<(std::ostream& os, const CompositePermutation& p) {
 	if (p.perm.size() == 0) {
 		os << "()";
 	} else {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 334d7e2..a2f76a0 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -377,7 +377,7 @@ void sparsify_basis(
 }
 
 // get clearing indices from pivots
-std::vector<size_t> get_clearing_inds(const p2c_type &p2c) {
+inline std::vector<size_t> get_clearing_inds(const p2c_type &p2c) {
 	std::vector<size_t> inds;
 	inds.reserve(p2c.size());
 	size_t i = 0;
diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 7e8ece0..2603317 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -5,7 +5,7 @@
 #include "polynomial.hpp"
 
 
-int sgn(const int &a) {
+inline int sgn(const int &a) {
     return (a < 0) ? -1 : (a > 0) ? 1 : 0;
 }
 
diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index d83b748..f498f52 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -21,7 +21,7 @@ Functors from one type of diagram to another
 
 namespace bats {
 
-Diagram<SimplicialComplex, CellularMap> Nerve(
+inline Diagram<SimplicialComplex, CellularMap> Nerve(
 	const Diagram<bats::Cover, std::vector<size_t>> &D,
 	const size_t dmax // maximum simplex dimension
 ) {
diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index ef7da01..84bdabf 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <iostream>
 #include <vector>
 #include <utility>
@@ -18,7 +19,7 @@ Implementation that avoids recursive function calls
 
 Modified from https://github.com/stat37411/tda/blob/main/include/union_find.hpp
 */
-size_t find_parent(
+inline size_t find_parent(
     std::vector<size_t> &parent,
     size_t i
 ) {
diff --git a/include/quiver/sparse.hpp b/include/quiver/sparse.hpp
index 8775039..6cf72fb 100755
--- a/include/quiver/sparse.hpp
+++ b/include/quiver/sparse.hpp
@@ -575,7 +575,7 @@ std::vector<bar> barcode_from_barcode_form(
     return bars;
 }
 
-std::vector<PersistencePair<size_t>> bars_to_pairs(
+inline std::vector<PersistencePair<size_t>> bars_to_pairs(
     const std::vector<bar> &bars,
     size_t hdim
 ) {
diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 45b92b6..76d4d90 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -172,7 +172,7 @@ produce bivariate cover of cover1, cover2
 i.e. restriction to diagonal in cover1 x cover2
 also return maps to cover1 and cover2 (extends to SimplicialMap on Nerves)
 */
-auto bivariate_cover(
+inline auto bivariate_cover(
 	const std::vector<std::set<size_t>> &cover1,
 	const std::vector<std::set<size_t>> &cover2
 ) {
diff --git a/include/topology/data_gen.hpp b/include/topology/data_gen.hpp
index 1b97137..f687f77 100755
--- a/include/topology/data_gen.hpp
+++ b/include/topology/data_gen.hpp
@@ -252,7 +252,7 @@ DataSet<T> circle(
     generate 3-d cylinder that is I x S^1
     total number of points is n_len x n_cir
 */
-DataSet<double> gen_cylinder(
+inline DataSet<double> gen_cylinder(
     const size_t n_len,
     const size_t n_cir,
     const double rad=1.0
diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index 7140205..bab49ed 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -21,7 +21,7 @@ struct triangle {
 };
 
 // diagram up to kth level
-Diagram<CellComplex, CellularMap> serpinski_diagram(
+inline Diagram<CellComplex, CellularMap> serpinski_diagram(
     size_t k
 ) {
 
diff --git a/include/topology/grid.hpp b/include/topology/grid.hpp
index 001ee85..afd2ee4 100644
--- a/include/topology/grid.hpp
+++ b/include/topology/grid.hpp
@@ -61,7 +61,7 @@ CpxT Freudenthal(size_t m, size_t n) {
 /**
 Cubical complex on 2-dimensional gird on m x n vertices
 */
-CubicalComplex Cube(size_t m, size_t n) {
+inline CubicalComplex Cube(size_t m, size_t n) {
     CubicalComplex X(2);
 
     // vertices and edges along the axes, in case the grid is 1-dimensional
@@ -104,7 +104,7 @@ CpxT Freudenthal(size_t n1, size_t n2, size_t n3) {
 /**
 Cubical complex on 3-dimensional gird on n1 x n2 x n3 vertices
 */
-CubicalComplex Cube(size_t n1, size_t n2, size_t n3) {
+inline CubicalComplex Cube(size_t n1, size_t n2, size_t n3) {
     return Cube(n1, n2, n3, 0, n1, 0, n2, 0, n3);
 }
 
@@ -235,7 +235,7 @@ Subset of Cubical complex of 3-dimensional grid on n1 x n2 x n3 vertices
 
 This function is useful for constructing zigzags through a grid
 */
-CubicalComplex Cube(
+inline CubicalComplex Cube(
     size_t, size_t, size_t, // dimensions of grid - not used
     size_t i0, size_t i1, // range of first index
     size_t j0, size_t j1, // range of second index
diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index d4d5ccd..a1b0b16 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -24,7 +24,7 @@ std::vector<size_t> vertex_inclusion_map(const T1 &s, const T2 &t) {
     return i;
 }
 
-Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
+inline Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
 	std::vector<std::set<size_t>> &subsets
 ) {
 	Diagram<std::set<size_t>, std::vector<size_t>> SetDgm;
@@ -43,7 +43,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
 	return SetDgm;
 }
 
-Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram(
+inline Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram(
 	std::vector<std::set<size_t>> &cover
 ) {
 	Diagram<std::set<size_t>, std::vector<size_t>> SetDgm;
diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 78d89c6..3b1ffea 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -11,7 +11,7 @@ Nerve of a cover
 
 namespace bats {
 
-void add_dimension_recursive_nerve(
+inline void add_dimension_recursive_nerve(
 	SimplicialComplex &N,
 	std::vector<size_t> spx,
 	const bats::Cover &cover,
@@ -46,7 +46,7 @@ void add_dimension_recursive_nerve(
 /*
 Build nerve of cover up to dmax skeleton
 */
-SimplicialComplex Nerve(
+inline SimplicialComplex Nerve(
 	const bats::Cover &cover,
 	const size_t dmax
 ) {
diff --git a/include/util/io.hpp b/include/util/io.hpp
index 4898b49..c6b76a1 100755
--- a/include/util/io.hpp
+++ b/include/util/io.hpp
@@ -35,7 +35,7 @@ T parse_argv(
 }
 
 template<>
-std::string parse_argv(
+inline std::string parse_argv(
 	const int argc,
 	char** argv,
 	const std::string &&token,
diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 7eb3d06..e981735 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -283,7 +283,7 @@ inline void apply_iperm_swap(
 // return a vector ret of length n so that
 // ret[i] = index in inds if i in inds
 // ret[i] = NO_IND otherwise
-std::vector<size_t> partial_perm(const std::vector<size_t> &ind, const size_t n) {
+inline std::vector<size_t> partial_perm(const std::vector<size_t> &ind, const size_t n) {
     std::vector<size_t> ret(n, bats::NO_IND);
     for (size_t k = 0; k < ind.size(); k++) {
         ret[ind[k]] = k;
@@ -304,7 +304,7 @@ inline void sort_ind_by_perm(std::vector<size_t> &ind, const std::vector<size_t>
 }
 
 // fill indperm so that ind[ind_perm] is in perm order
-void fill_partial_sortperm(
+inline void fill_partial_sortperm(
     const std::vector<size_t> &ind,
     const std::vector<size_t> &perm,
     std::vector<size_t> &indperm
@@ -323,7 +323,7 @@ void fill_partial_sortperm(
 
 // sort so that ind1 is ordered by perm
 // apply same sort to ind2
-void sort_ind_pair_by_perm(
+inline void sort_ind_pair_by_perm(
     std::vector<size_t> &ind1,
     std::vector<size_t> &ind2,
     const std::vector<size_t> &perm
@@ -336,7 +336,7 @@ void sort_ind_pair_by_perm(
 
 
 // random permutation on n indices
-std::vector<size_t> rand_perm(const size_t n) {
+inline std::vector<size_t> rand_perm(const size_t n) {
 
     std::default_random_engine generator;
     std::uniform_real_distribution<float> distribution(0.0,1.0);
@@ -387,7 +387,7 @@ inline int perm_sign(const std::vector<T> &p) {
 // The following functions when called will not need to use bats::util::function_name
 
 // Return an identity permutation, k is its length
-std::vector<size_t> identity_perm(const size_t& k){
+inline std::vector<size_t> identity_perm(const size_t& k){
     std::vector<size_t> l(k);
     std::iota(l.begin(), l.end(), 0);
     return l;
@@ -447,7 +447,7 @@ std::vector<size_t> find_perm_from_vector(const std::vector<T> &v) {
 
 
 // get the permutation for permuting i-th element to the end
-std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
+inline std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
     std::vector<size_t> v;
     v.reserve(length);
 
@@ -461,7 +461,7 @@ std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
 // get the permutation for permuting elements, with their indices in a list, to the end
 // the index_list should be sorted
 // eg. passing ([1,3],5) will return [0,2,4,1,3]
-std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const size_t& length){
+inline std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const size_t& length){
     std::vector<size_t> v;
     v.reserve(length);
     auto it = index_list.begin();
@@ -488,7 +488,7 @@ std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const
 // extend a permutation to a desired length
 // with the elements appended unmoved, e.g.
 // eg., passing ([2,0,1], 6) return [2,0,1,3,4,5]
-std::vector<size_t> extension_perm(const std::vector<size_t>& perm, const size_t& length){
+inline std::vector<size_t> extension_perm(const std::vector<size_t>& perm, const size_t& length){
     if(!perm.empty()){
         std::vector<size_t> v;
         v.reserve(length);
diff --git a/include/util/set.hpp b/include/util/set.hpp
index 108fe14..b7bb0ea 100755
--- a/include/util/set.hpp
+++ b/include/util/set.hpp
@@ -44,7 +44,7 @@ std::set<size_t> set_intersection(const C1 &a, const C2 &b) {
 }
 
 // random subset of n numbers of size ns
-std::set<size_t> random_subset(
+inline std::set<size_t> random_subset(
 	const size_t n,
 	const size_t ns
 ) {
diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 4f8250d..c694f15 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -392,7 +392,7 @@ compare simplex i in dimension dimi with simplex j in dimension dimj
 @param j index of second simplex
 @return true if first simplex < second simplex, false otherwise
 */
-bool lex_cmp(
+inline bool lex_cmp(
 	const bats::SimplicialComplex& X,
 	size_t dimi, size_t i, size_t dimj, size_t j
 ) {
@@ -414,7 +414,7 @@ bool lex_cmp(
 }
 
 // reverse of above
-bool rlex_cmp(
+inline bool rlex_cmp(
 	const bats::SimplicialComplex& X,
 	size_t dimi, size_t i, size_t dimj, size_t j
 ) {
-- 
2.43.0


From d0a74cb1e87342739713c139dce61bc34c65dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:13 +0000
Subject: [PATCH 121/131] fix: calling filtered_info again leaves an
 Update_info as it is

---
 include/filtration/update_information.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index a486061..f14d20c 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -273,6 +273,9 @@ struct Update_info{
 	This function is only called in tests
 	*/
     void filtered_info(const std::vector<std::vector<size_t>>&perms_X, const int& degree = -1){
+        // the constructor has already put the indices in filtered order
+        if (filtered_boolean) return;
+
         // step 1: determine permutation order for new filtration values
         F_X_perms = perms_X;
         if (degree == +1){
-- 
2.43.0


From a00333d3f2450a45c4f1bac7eff8275c435d5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:33 +0000
Subject: [PATCH 122/131] fix: print_detail of an Update_info prints the
 simplices it was built from

---
 include/filtration/update_information.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index f14d20c..7153f96 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -262,8 +262,9 @@ struct Update_info{
     std::vector<std::vector<size_t>> F_Y_perms;
     std::vector<std::vector<size_t>> perms_Y_inv;
 
-    FiltrationType F_old;
-    FiltrationType F_new;
+    // simplices of the two filtrations in each dimension (used by print_detail)
+    std::vector<std::vector<std::vector<size_t>>> simplices_old;
+    std::vector<std::vector<std::vector<size_t>>> simplices_new;
     bool filtered_boolean = false;
 
     // degree for DGVectorSpace
@@ -392,9 +393,6 @@ struct Update_info{
 
     Update_info(const FiltrationType& F_X, const FiltrationType& F_Y, int degree = -1){
 
-        // F_old = F_X;
-        // F_new = F_Y;
-
         max_dim = F_Y.maxdim();
         F_X_vals = F_X.vals();
         F_Y_vals = F_Y.vals(); // needed for update
@@ -474,6 +472,9 @@ struct Update_info{
 
             addition_indices.emplace_back(addition_in_i);
             boundary_indices.emplace_back(boundary_indices_in_i);
+
+            simplices_old.emplace_back(std::move(simplices_X));
+            simplices_new.emplace_back(std::move(simplices_Y));
         }
 
 		filtered_info(F_X_perms);
@@ -516,13 +517,10 @@ struct Update_info{
     }
 
     void print_detail(){
-        auto smcplex_X = F_old.complex();
-        auto smcplex_Y = F_new.complex();
-
         for(size_t i = 0 ; i <= max_dim; i++){
             // find simplices in dimension i for both X and Y
-            auto simplices_Y = smcplex_Y.get_simplices(i); // simplices in dimension i
-            auto simplices_X = smcplex_X.get_simplices(i);
+            auto simplices_Y = simplices_new[i]; // simplices in dimension i
+            auto simplices_X = simplices_old[i];
             if(filtered_boolean){
                 bats::util::apply_perm_swap(simplices_X, perms_X_inv[i]);
                 bats::util::apply_perm_swap(simplices_Y, perms_Y_inv[i]);
-- 
2.43.0


From 696975928073595d46e6c2606dc83fb61c8e15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:52 +0000
Subject: [PATCH 123/131] fix: Hom takes a homology dimension of any integer
 type

---
 include/multigraph/functors.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index f498f52..c0b575f 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -186,10 +186,14 @@ inline auto Chain(const Diagram<CpxT, CellularMap>& D, T) {
 Homology functor for dimension k
 template over matrix type
 */
-template <typename TM>
+template <
+	typename TM,
+	typename I,
+	typename = std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value>
+>
 Diagram<ReducedChainComplex<TM>, TM> Hom(
 	const Diagram<ChainComplex<TM>, ChainMap<TM>> &D,
-	size_t k
+	I k
 ) {
 
 	size_t n = D.nnode();
@@ -369,10 +373,14 @@ Diagram<DGVectorSpace<TM>, DGLinearMap<TM>> DGLinearFunctor(
 Homology functor for dimension k
 template over matrix type
 */
-template <typename TM>
+template <
+	typename TM,
+	typename I,
+	typename = std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value>
+>
 Diagram<ReducedDGVectorSpace<TM>, TM> Hom(
 	const Diagram<DGVectorSpace<TM>, DGLinearMap<TM>> &D,
-	size_t k
+	I k
 ) {
 
 	size_t n = D.nnode();
-- 
2.43.0


From 0a40b4be948dcf9dd5d567e71e31418f1c0ecbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:03 +0000
Subject: [PATCH 124/131] fix: print_summary of a cohomology basis counts the
 differential out of each dimension

---
 include/homology/dgbasis.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index caf1e46..cbf0db3 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -357,9 +357,11 @@ public:
 			std::cout << "\tdim " << k << ": " << dim(k)
 			<< ", betti_" << k << ": " << hdim(k);
 			if (print_nnz) {
-				std::cout << " nnz(R): " << R[k].nnz();
-				if (U.size() > k) { // handle if basis not computed
-					std::cout << " nnz(U): " << U[k].nnz();
+				// the differential out of dimension k
+				const size_t i = (degree == -1) ? k : k + 1;
+				std::cout << " nnz(R): " << R[i].nnz();
+				if (U.size() > i) { // handle if basis not computed
+					std::cout << " nnz(U): " << U[i].nnz();
 				}
 			}
 			std::cout << "\n";
-- 
2.43.0


From f3b2b065745aaf1ad7386f4782dd6c58e174083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:56 +0000
Subject: [PATCH 125/131] fix: DGVectorSpace::permute_basis permutes spaces of
 degree +1

---
 include/dgvs/dgvs.hpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..a4c5195 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,18 +97,30 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (k == 0) {
-			// only worry about boundary[1]
-			differential[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			differential[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			differential[k].permute_cols(perm);
-			differential[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+		if (degree == -1) {
+			if (k == 0) {
+				// only worry about boundary[1]
+				differential[1].permute_rows(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_cols(perm);
+				// only worry about boundary[maxdim()]
+			} else {
+				// need to handle boundary[k] and boundary[k+1]
+				differential[k].permute_cols(perm);
+				differential[k+1].permute_rows(perm);
+				// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+			}
+		} else { // degree == +1
+			// differential[0] : * -> C^0
+			// differential[k+1] : C^k -> C^{k+1}
+			if (k == 0) {
+				differential[1].permute_cols(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_rows(perm);
+			} else {
+				differential[k+1].permute_cols(perm);
+				differential[k].permute_rows(perm);
+			}
 		}
 	}
 
-- 
2.43.0


From 178c14fa64fd43f4e2b5e1dda4481ff589cac75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:13 +0000
Subject: [PATCH 126/131] fix: ChainMap::permute_row_basis follows the order of
 permute_basis

---
 include/chain/chain_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/chain/chain_map.hpp b/include/chain/chain_map.hpp
index e7ced88..23e969c 100755
--- a/include/chain/chain_map.hpp
+++ b/include/chain/chain_map.hpp
@@ -78,7 +78,7 @@ struct ChainMap {
     inline const TM& operator[](size_t k) const { return map[k]; }
 
     inline void permute_row_basis(size_t k, const std::vector<size_t> &p) {
-        map[k].permute_rows(bats::util::inv_perm(p));
+        map[k].permute_rows(p);
     }
 
     inline void permute_column_basis(size_t k, const std::vector<size_t> &p) {
-- 
2.43.0


From c9d9af26bc38f88bbfcf4170d8618a2a8d7793d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:13 +0000
Subject: [PATCH 127/131] fix: DGLinearMap::permute_row_basis follows the order
 of permute_basis

---
 include/dgvs/dgmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dgvs/dgmap.hpp b/include/dgvs/dgmap.hpp
index d03082d..21b4567 100644
--- a/include/dgvs/dgmap.hpp
+++ b/include/dgvs/dgmap.hpp
@@ -53,7 +53,7 @@ struct DGLinearMap {
     inline const TM& operator[](ssize_t k) const { return map[k]; }
 
     inline void permute_row_basis(ssize_t k, const std::vector<size_t> &p) {
-        map[k].permute_rows(bats::util::inv_perm(p));
+        map[k].permute_rows(p);
     }
 
     inline void permute_column_basis(ssize_t k, const std::vector<size_t> &p) {
-- 
2.43.0


From 3c9675b06dd0b9d9dd6a2d5964c11b135099ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:19 +0000
Subject: [PATCH 128/131] fix: add_rows on sparse matrices

---
 include/linalg/sparse_vector.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 1b00185..0fd9e0a 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -742,22 +742,20 @@ public:
 		// }
 	}
 
-	// // v[i] <- v[i] + c * v[j]
-	// void add_rows(const size_t i, const TV& c, const size_t j) {
-	// 	if (c == 0) return;
-	// 	auto pi = lower_bound(i);
-	// 	if (pi != nzend() && pi->ind == i) {
-	// 		// something to do
-	// 		auto pj = lower_bound(j);
-	// 		if (pj != nzend() && pj->ind ==j) {
-	// 			pj->val = pj->val + c * (pi->val);
-	// 			if (pj->val == 0) indval.erase(pj); // delete entry if value is 0
-	// 		} else {
-	// 			// need to insert
-	// 			indval.insert(pj, c*(pi->val));
-	// 		}
-	// 	}
-	// }
+	// v[i] <- v[i] + c * v[j]
+	void add_rows(const size_t i, const TV& c, const size_t j) {
+		auto pj = lower_bound(j);
+		if (pj == nzend() || pj->ind != j) return;
+		TV a = c * pj->val;
+		if (a == TV(0)) return;
+		auto pi = lower_bound(i);
+		if (pi != nzend() && pi->ind == i) {
+			pi->val = pi->val + a;
+			if (pi->val == TV(0)) indval.erase(pi); // delete entry if value is 0
+		} else {
+			indval.insert(pi, key_type(i, a));
+		}
+	}
 
 	/**
 	calculate the number of non-zeros common to two vectors
-- 
2.43.0


From 4b5855a1f469d4df36df578275390cc8802fba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:19 +0000
Subject: [PATCH 129/131] fix: ColumnMatrix::schur_complement compiles

---
 include/linalg/col_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index cef17bd..5ac582f 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -858,10 +858,11 @@ public:
 	// schur complement of i,j entry
 	inline void schur_complement(size_t i, size_t j) {
 		auto a11 = col[j][i];
+		tmp_type tmp; // for use with axpy
 		for (size_t j1 = j+1; j1 < n; j1++) {
 			auto c = col[j1][i];
 			if (c != 0) {
-				col[j1].axpy(-c / a11, col[j], i+1, m);
+				col[j1].axpy(-c / a11, col[j], i+1, m, tmp);
 			}
 		}
 	}
-- 
2.43.0


From 0d73a2f6c44cefe6edb545d7febfbbb06cbe1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:59 +0000
Subject: [PATCH 130/131] fix: LightSimplicialComplex::get_simplices with any
 index type

---
 include/complex/light_simplicial_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 9b85ca3..043d0f8 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -249,8 +249,8 @@ public:
 	}
 
 	// return all simplices
-	std::vector<std::vector<size_t>> get_simplices() const {
-		std::vector<std::vector<size_t>> simplices;
+	std::vector<std::vector<index_type>> get_simplices() const {
+		std::vector<std::vector<index_type>> simplices;
 		for (size_t dim = 0; dim < maxdim() + 1; dim++){
 			auto spx_dim = get_simplices(dim);
 			simplices.insert(simplices.end(), spx_dim.begin(), spx_dim.end());
-- 
2.43.0


From 433a3c288e9f485a24a4b04581102a6911d26082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:59 +0000
Subject: [PATCH 131/131] fix: Filtration::union_add for cubical complexes

---
 include/filtration/filtration.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 9a42329..d0d4c1e 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -180,11 +180,10 @@ public:
 	}
 
 	void union_add(const Filtration& F2) {
-		std::vector<size_t> s;
 		for (size_t dim = 0; dim < F2.maxdim() + 1; ++dim){
-			// loop over simplices in dimension dim
+			// loop over cells in dimension dim
 			for (size_t i=0; i < F2.X.ncells(dim); ++i) {
-				F2.X.get_simplex(dim, i, s);
+				auto s = F2.X.get_cell(dim, i);
 				auto ci = X.add(s);
 				reserve(dim, ci.ind+1);
 				val[dim][ci.ind] = F2.val[dim][i];
-- 
2.43.0

