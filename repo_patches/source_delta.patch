From 49c731ba1a5432a6adc0b03aeeb4e864c31dcb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 01/32] fix: exact mul_v1 products that underflow are zero, not
 NaN

---
 include/thls/tops/fp_flopoco_mul_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_mul_v1.hpp b/include/thls/tops/fp_flopoco_mul_v1.hpp
index fbb3c99..90c5282 100644
--- a/include/thls/tops/fp_flopoco_mul_v1.hpp
+++ b/include/thls/tops/fp_flopoco_mul_v1.hpp
@@ -107,7 +107,7 @@ THLS_INLINE fp_flopoco<wER,wFR> mul_v1(const fp_flopoco<wEX,wFX> &x, const fp_fl
         fw_uint<2> excPostNorm = select(
             expPostNormB==0b00, fw_uint<2>(0b01),
             expPostNormB==0b01, fw_uint<2>(0b10),
-            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b11),
+            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b00),
             fw_uint<2>(0b11)// Impossible last case?
         ); 
 
-- 
2.43.0


From 7020bd6e24c9b5884e37521f599d5169677b44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 02/32] fix: inv_v1 builds the constant one from a binary, not
 an octal, literal

---
 include/thls/tops/fp_flopoco_inv_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_v1.hpp b/include/thls/tops/fp_flopoco_inv_v1.hpp
index bf2285f..5e05e49 100644
--- a/include/thls/tops/fp_flopoco_inv_v1.hpp
+++ b/include/thls/tops/fp_flopoco_inv_v1.hpp
@@ -34,7 +34,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_v1(const fp_flopoco<wEY,wFY> &y, int DEBUG)
     static const int wE=wEY;
     static const int wF=wFY;
 
-    auto X=concat(cg<4>(0100),og<wE-1>(),zg<wF>());
+    auto X=concat(cg<4>(0b0100),og<wE-1>(),zg<wF>());
     auto Y=y.bits;
 
 
-- 
2.43.0


From 6dfd8a1e590aebffab4d3dd85126ea37038404c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 03/32] fix: table-only reciprocal for small formats passes its
 template arguments in order

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 97b3b17..3a0f9e4 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -318,7 +318,7 @@ namespace thls
     {
         template<int LSBR,int LSBY>
         static fw_fix<0,LSBR> go(const fw_fix<0,LSBY> &x)
-        { return inv_frac_direct_table<LSBR>(x); }
+        { return inv_frac_direct_table<0,LSBR>(x); }
     };
 
     template<>
-- 
2.43.0


From fc53ef270d7b78dcdf28eee9ae02af04804ba6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 04/32] fix: table-based reciprocals of inputs next to the top
 binade underflow to zero

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 3a0f9e4..ce4c371 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -374,13 +374,16 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
     if(take_msb(frac_out_fix.bits).to_bool()){
         exp=exp+fw_uint<wER>(1);
     }
+    // Inputs in the top binade need exponent -2 or -1, the ones just below it -1 unless rounded up to a power of two
+    bool underflow=(y.get_exp_bits()==og<wEY>()).to_bool()
+            || ( (y.get_exp_bits()==(og<wEY>()-fw_uint<wEY>(1))).to_bool() && !take_msb(frac_out_fix.bits).to_bool() );
 
     switch(flags.to_int()){
     case 0:
         flags=fw_uint<2>(0b10);
         break;
     case 1:
-        if((y.get_exp_bits()==og<wEY>()).to_bool()){
+        if(underflow){
             flags=fw_uint<2>(0b00);
         }else {
             flags = fw_uint<2>(0b01);
@@ -413,13 +416,16 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         if((y.get_frac_bits()==zg<wFY>()).to_bool()){
             exp=exp+fw_uint<wER>(1);
         }
+        // Inputs in the top binade need exponent -2 or -1, the ones just below it -1 unless rounded up to a power of two
+        bool underflow=(y.get_exp_bits()==og<wEY>()).to_bool()
+                || ( (y.get_exp_bits()==(og<wEY>()-fw_uint<wEY>(1))).to_bool() && !take_msb(frac_out_fix.bits).to_bool() );
 
         switch(flags.to_int()){
             case 0:
                 flags=fw_uint<2>(0b10);
                 break;
             case 1:
-                if((y.get_exp_bits()==og<wEY>()).to_bool()){
+                if(underflow){
                     flags=fw_uint<2>(0b00);
                 }else {
                     flags = fw_uint<2>(0b01);
-- 
2.43.0


From 2d7afb782353fda6afcb4e26860160d36202d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 05/32] fix: inv_direct increments the exponent when the
 reciprocal rounds up to a power of two

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index ce4c371..5c22b41 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -413,7 +413,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         auto frac_out_fix=inv_frac_direct_table<0,-wFR-1,0,-wFY>(frac_in_fix);
         fw_uint<wFR> frac=take_lsbs<wFR>(frac_out_fix.bits);
         fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
-        if((y.get_frac_bits()==zg<wFY>()).to_bool()){
+        if(take_msb(frac_out_fix.bits).to_bool()){
             exp=exp+fw_uint<wER>(1);
         }
         // Inputs in the top binade need exponent -2 or -1, the ones just below it -1 unless rounded up to a power of two
-- 
2.43.0


From 0a60fd595160959a604b8c1aa3b9f1479071854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 06/32] fix: single-path adders keep a tail that is exactly
 wF+2 places away

---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index f0ddef3..d2b5c46 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -310,7 +310,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index a7722f7..340aaab 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -244,7 +244,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a85454c..68837c3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -279,7 +279,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 64c1eb1..805498a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -300,7 +300,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b8e6c84..22de0ed 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -140,7 +140,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
-- 
2.43.0


From 1a2a72a9029ea1f96b2ee705859c7797b7146e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 07/32] fix: add_single_v4 rounds up unless tied to even, as
 its comment says

---
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 805498a..afb213e 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -485,7 +485,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     /*auto addToRoundBit = select(
         lsb==0 && grd==1 && rnd==0 && stk==0, zg<1>(),
         og<1>());*/
-    auto addToRoundBit = concat(lsb,grd,rnd,stk) ==cg<4>(0b0100);
+    auto addToRoundBit = concat(lsb,grd,rnd,stk) !=cg<4>(0b0100);
     //round
 
     //IntAdder *ra = new IntAdder(target, wE+2+wF+1, inDelayMap("X", getCriticalPath() ) );
-- 
2.43.0


From cdcf3c79d627d12c29e7cda94c87397ac64c38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 08/32] fix: single-path adders cap the alignment shift when wE
 equals the shift width

---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d2b5c46..abfadb0 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -327,7 +327,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else if (wE==sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 340aaab..2780236 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -254,7 +254,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 68837c3..c84d7a1 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -289,7 +289,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index afb213e..fc96d11 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -317,7 +317,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else if (wE==sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 22de0ed..fee333a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -149,7 +149,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
-- 
2.43.0


From 60d22c1ab044840b2bf459da1f9f054979e0f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 09/32] fix: single-path adders form the shift distance for
 exponents narrower than it

---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index abfadb0..c0cf6fd 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -331,7 +331,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 2780236..e19aaa1 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -257,7 +257,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index c84d7a1..a252b52 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -292,7 +292,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index fc96d11..548b97d 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -321,7 +321,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index fee333a..5846614 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -152,7 +152,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
-- 
2.43.0


From 54daca67bcbc44c1e3514031d16c2c478229309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 10/32] fix: comparisons ignore the exponent and fraction bits
 of infinities

---
 include/thls/tops/fp_flopoco_ordering.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/thls/tops/fp_flopoco_ordering.hpp b/include/thls/tops/fp_flopoco_ordering.hpp
index a8cf000..4099536 100644
--- a/include/thls/tops/fp_flopoco_ordering.hpp
+++ b/include/thls/tops/fp_flopoco_ordering.hpp
@@ -28,6 +28,8 @@ THLS_INLINE fw_uint<1> equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<wEB,
             zg<1>(), // Flags must be the same 
         na.is_zero(),
             og<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()==nb.get_sign(), // The exponent and fraction of an infinity are not part of its value
         // else
             na.get_sign()==nb.get_sign() && na.get_exp_frac_bits()==nb.get_exp_frac_bits()
     );
@@ -50,6 +52,8 @@ THLS_INLINE fw_uint<1> not_equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             og<1>(), // Flags must be the same
         na.is_zero(),
             zg<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()!=nb.get_sign(), // The exponent and fraction of an infinity are not part of its value
         // else
             na.get_sign() != nb.get_sign() || na.get_exp_frac_bits()!=nb.get_exp_frac_bits()
     );
@@ -78,6 +82,8 @@ THLS_INLINE fw_uint<1> less_than(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_negative(), // If different signs, first must be negative for less than
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(), // The exponent and fraction of an infinity are not part of its value
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()>nb.get_flags_exp_frac_bits(),
@@ -107,6 +113,8 @@ THLS_INLINE fw_uint<1> less_than_equal(const fp_flopoco<wEA,wFA> &a, const fp_fl
         // Pre: neither is nan, both are not zero
         na.is_negative() ^ nb.is_negative(),
             na.is_negative(), // If different signs, first must be negative for less than equal
+        (na.is_inf() & nb.is_inf()),
+            og<1>(), // The exponent and fraction of an infinity are not part of its value
         // Pre: not nan, not _both_ zero, same sign
         na.is_negative(),
             na.get_flags_exp_frac_bits()>=nb.get_flags_exp_frac_bits(),
@@ -133,6 +141,8 @@ THLS_INLINE fw_uint<1> greater_than(const fp_flopoco<wEA,wFA> &a, const fp_flopo
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be negative for greater than
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(), // The exponent and fraction of an infinity are not part of its value
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<nb.get_flags_exp_frac_bits(),
@@ -159,6 +169,8 @@ THLS_INLINE fw_uint<1> greater_than_equal(const fp_flopoco<wEA,wFA> &a, const fp
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be positive for greater than equal
+            (na.is_inf() & nb.is_inf()),
+                og<1>(), // The exponent and fraction of an infinity are not part of its value
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<=nb.get_flags_exp_frac_bits(),
-- 
2.43.0


From 137304cfeded34a435e3476551f5f5ccc0dce7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 11/32] fix: constructing a float from an infinite or
 negative-zero double keeps infinity and sign

---
 include/thls/tops/fp_flopoco.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..9590bbf 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -51,7 +51,7 @@ struct fp_flopoco
     explicit fp_flopoco(double x)
     {
         fw_uint<1> sign(0);
-        if(x<0){
+        if(std::signbit(x)){
             sign=fw_uint<1>(1);
             x=-x;
         }
@@ -59,7 +59,9 @@ struct fp_flopoco
         fw_uint<ExpBits> exp(0);
         fw_uint<FracBits> frac(0);
         switch(std::fpclassify(x)){
-        case FP_INFINITE:  ;
+        case FP_INFINITE:
+            flags=fw_uint<2>(0b10);
+            break;
         case FP_NAN:
             flags=fw_uint<2>(0b11);
             break;
-- 
2.43.0


From 6e7542c69c06aabeeb6d26308022e7d69cd8c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 12/32] fix: to_double of negative normal numbers negates the
 result, not the unsigned significand

---
 include/thls/tops/fp_flopoco.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 9590bbf..4b1795b 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1003,10 +1003,8 @@ double fp_flopoco<ExpBits,FracBits>::to_double() const
         return is_negative().to_bool() ? neg_zero : pos_zero;
     }else if(is_normal().to_bool()){
         uint64_t frac=concat(og<1>(), get_frac_bits()).to_uint64();
-        if(is_negative().to_bool()){
-            frac=-frac;
-        }
-        return ::ldexp(frac, get_exp_bits().to_int() - bias - FracBits );
+        double r=::ldexp(frac, get_exp_bits().to_int() - bias - FracBits );
+        return is_negative().to_bool() ? -r : r;
     }else if(is_inf().to_bool()){
         return is_negative().to_bool() ? neg_inf : pos_inf;
     }else{
-- 
2.43.0


From ca0a320e054d659c168ec1f62b508b4bfab9fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 13/32] fix: nextdown crosses binade boundaries to the adjacent
 number

---
 include/thls/tops/fp_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 4b1795b..57aa170 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -453,7 +453,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==zg<FracBits>(),
                 select(x.get_exp_bits()==zg<ExpBits>(),
                     traits::pos_zero(),
-                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,zg<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,og<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits(),x.get_frac_bits()-1))
             ),
@@ -465,7 +465,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==og<FracBits>(),
                 select(x.get_exp_bits()==og<ExpBits>(),
                     traits::neg_infinity(),
-                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,og<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,zg<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits(),x.get_frac_bits()+1))
             ),
-- 
2.43.0


From 1ac1f1e9a207821b6fc5484f9a9a249dd291dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 14/32] fix: convert between equal exponent widths leaves zeros
 and NaNs alone when their fraction bits wrap

---
 include/thls/tops/fp_convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_convert.hpp b/include/thls/tops/fp_convert.hpp
index 5c3da9a..6a1295e 100644
--- a/include/thls/tops/fp_convert.hpp
+++ b/include/thls/tops/fp_convert.hpp
@@ -153,7 +153,7 @@ void convert(fp_flopoco<ER,FR> &dst, const fp_flopoco<EX,FX> &src)
         const int ADJ = (1<<(ER-1)) - (1<<(EX-1));
         rExp = checked_cast<ER>(zpad_hi<ER-EX>(xExp)) + fw_uint<ER>(ADJ) + zpad_hi<ER-1>(fracWrappedUp);
     }else if(ER == EX){
-        if( (fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
+        if( (src.is_normal() & fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
             rFlags=fw_uint<2>(0b10); // infinity
         }
         rExp = checked_cast<ER>( xExp ) + zpad_hi<ER-1>(fracWrappedUp);
-- 
2.43.0


From 6b7221790c5d2b04b0598706ab64b03347a65caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 15/32] fix: promote from IEEE to flopoco returns a flopoco
 number by value

---
 include/thls/tops/fp_promote.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..4f5d0a3 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -77,7 +77,7 @@ namespace detail
         
         static fp_flopoco<DstE,DstF> to_flopoco(const fp_ieee<SrcE,SrcF> &src)
         {
-            return fp_ieee<DstE,DstF>(
+            return fp_flopoco<DstE,DstF>(
                 concat(
                     src.get_flags(),
                     src.get_sign(),
@@ -126,7 +126,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0


From ea2e3a004f25ae15342e53b4172cddb3106926e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 16/32] fix: promote between IEEE formats keeps zeros,
 infinities and NaNs

---
 include/thls/tops/fp_promote.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 4f5d0a3..890fed6 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -66,11 +66,26 @@ namespace detail
         
         static fp_ieee<DstE,DstF> to_ieee(const fp_ieee<SrcE,SrcF> &src)
         {
+            /*  The exponents of zero, infinity and nan are reserved in both
+                formats, so they map to the reserved exponents of the destination.
+            */
             return fp_ieee<DstE,DstF>(
                 concat(
                     src.get_sign(),
-                    promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
-                    promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
+                    select(
+                        src.get_flags()==0b01, // normal
+                            promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
+                        src.get_flags()==0b00, // zero
+                            zg<DstE>(),
+                        // default: nan or infinity
+                            og<DstE>()
+                    ),
+                    select(
+                        src.get_flags()==0b00, // zero
+                            zg<DstF>(),
+                        // default: normal, nan or infinity
+                            promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
+                    )
                 )
             );
         }
-- 
2.43.0


From 0b5386a27bec63d521a244b8c9b83732077cdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 17/32] fix: converting a negative float to a flopoco number
 takes its bits as unsigned

---
 include/thls/tops/policy_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/policy_flopoco.hpp b/include/thls/tops/policy_flopoco.hpp
index 649f153..f6f6fea 100644
--- a/include/thls/tops/policy_flopoco.hpp
+++ b/include/thls/tops/policy_flopoco.hpp
@@ -242,7 +242,7 @@ struct to_impl<fp_flopoco_wrapper <wE, wF>,TPolicy,float>
         static_assert( (TPolicy&(allow_overflow|allow_underflow)) || (wE>=8), "Conversion could cause under/over-flow" );
         static_assert( (TPolicy&(allow_precision_loss)) || (wF>=23), "Conversion could cause precision loss" );
         
-        fw_uint<32> bits( *(uint32_t*)&src );
+        fw_uint<32> bits = fw_uint<32>::from_bits( *(uint32_t*)&src );
         
         fp_ieee<8,23> ieee(bits);
         fp_flopoco<wE,wF> res;
-- 
2.43.0


From ffc7f4434f1e6e7f69268f7607afc64cce4f2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 18/32] fix: adders with a narrow exponent and wide fraction
 underflow after deep cancellation, not overflow

---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp   | 5 ++++-
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 5 ++++-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 5 ++++-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 5 ++++-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index 571d523..7ea7ba5 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -295,7 +295,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
              << "newX("<<wE+wF-1<<" downto "<<wF<<")) "
              <<"- (CONV_STD_LOGIC_VECTOR(0,"<<wE-lzocs->getCountWidth()+2<<") & nZerosNew);"
              <<endl;*/
-        auto exponentResultClose = zpad_hi<2>(get_bits<wE+wF-1,wF>(newX)) - zpad_hi<wE-lzocCountWidth+2>(nZerosNew);
+        // Any count past this underflows; capping it keeps a narrow exponent from wrapping round to overflow
+        const int maxZeros = thls_ctMin((1<<lzocCountWidth)-1, 1<<(wE+1));
+        auto nZerosCapped = select(nZerosNew > maxZeros, fw_uint<lzocCountWidth>(maxZeros), nZerosNew);
+        auto exponentResultClose = zpad_hi<2>(get_bits<wE+wF-1,wF>(newX)) - zpad_hi<wE-lzocCountWidth+2>(nZerosCapped);
 
 
         // concatenate exponent with fractional part before rounding so the possible carry propagation automatically increments the exponent
diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index c0cf6fd..19e1835 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -469,7 +469,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //update exponent
 
     //vhdl << tab << declare("updatedExp",wE+2) << " <= extendedExpInc - (" << zg(wE+2-lzocs->getCountWidth(),0) <<" & nZerosNew);"<<endl;
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // Any count past this underflows; capping it keeps a narrow exponent from wrapping round to overflow
+    const int maxZeros = thls_ctMin((1<<lzocCountWidth)-1, 1<<(wE+1));
+    auto nZerosCapped = select(nZerosNew > maxZeros, fw_uint<lzocCountWidth>(maxZeros), nZerosNew);
+    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosCapped);
     //vhdl << tab << declare("eqdiffsign")<< " <= '1' when nZerosNew="<<og(lzocs->getCountWidth(),0)<<" else '0';"<<endl;
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index e19aaa1..0a64c9c 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -331,7 +331,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     //need to decide how much to add to the exponent
     //update exponent
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // Any count past this underflows; capping it keeps a narrow exponent from wrapping round to overflow
+    const int maxZeros = thls_ctMin((1<<lzocCountWidth)-1, 1<<(wE+1));
+    auto nZerosCapped = select(nZerosNew > maxZeros, fw_uint<lzocCountWidth>(maxZeros), nZerosNew);
+    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosCapped);
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 548b97d..119da42 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -449,7 +449,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //update exponent
 
     //vhdl << tab << declare("updatedExp",wE+2) << " <= extendedExpInc - (" << zg(wE+2-lzocs->getCountWidth(),0) <<" & nZerosNew);"<<endl;
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // Any count past this underflows; capping it keeps a narrow exponent from wrapping round to overflow
+    const int maxZeros = thls_ctMin((1<<lzocCountWidth)-1, 1<<(wE+1));
+    auto nZerosCapped = select(nZerosNew > maxZeros, fw_uint<lzocCountWidth>(maxZeros), nZerosNew);
+    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosCapped);
     //vhdl << tab << declare("eqdiffsign")<< " <= '1' when nZerosNew="<<og(lzocs->getCountWidth(),0)<<" else '0';"<<endl;
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 5846614..1821205 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -229,7 +229,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
 
     //need to decide how much to add to the exponent
     //update exponent
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // Any count past this underflows; capping it keeps a narrow exponent from wrapping round to overflow
+    const int maxZeros = thls_ctMin((1<<lzocCountWidth)-1, 1<<(wE+1));
+    auto nZerosCapped = select(nZerosNew > maxZeros, fw_uint<lzocCountWidth>(maxZeros), nZerosNew);
+    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosCapped);
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
-- 
2.43.0


From 6dfb3191d2987751b9b12ab7431a662233f167ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 19/32] fix: extracting a negative number in a directed
 rounding mode rounds in that direction

---
 include/thls/tops/fp_flopoco.hpp | 6 +++---
 include/thls/tops/fp_ieee.hpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 57aa170..c6d0f3e 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -603,12 +603,12 @@ void fp_flopoco<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(negative.to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits); // Before rounding, so that directed modes see the sign
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..d45e84a 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -392,12 +392,12 @@ void fp_ieee<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(is_negative().to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits); // Before rounding, so that directed modes see the sign
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
-- 
2.43.0


From 44562d1d2a31b84f3d7e20002c1b5e0be6fa0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 20/32] fix: constructing a float from a double keeps fraction
 bits beyond the 31st

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index c6d0f3e..a132938 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -80,7 +80,7 @@ struct fp_flopoco
                 }else{
                     assert(1.0<=f && f<2.0);
                     uint64_t fx=ldexp(f-1.0, FracBits);
-                    frac=fw_uint<FracBits>(fx);
+                    frac=fw_uint<FracBits>::from_uint64(fx);
                     exp=fw_uint<ExpBits>(e+bias);
                     //std::cerr<<"  x="<<x<<", f="<<f<<", e="<<e<<", fx="<<fx<<", exp="<<exp<<", frac="<<frac<<"\n";
 
-- 
2.43.0


From f47431a71b514ebacd3012f4ae2ca6abd2908e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 21/32] fix: dot4_pos_rndd keeps enough low bits for the carry
 of overlapping small terms

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 082d7c3..c894599 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -137,7 +137,9 @@ fw_uint<W> safe_rshift(const fw_uint<W> &val, const fw_uint<WS> &places)
       =
      ??.ffffffff
 
-     So we need to keep 3*WAB-1 bits (still huge...)
+     So we could keep 3*WAB-1 bits if the terms did not overlap. They can (e.g. WF=2,
+     where three overlapping terms form the run of ones and the carry comes from the
+     dropped tails), so we keep the pessimistic 3*WAB+2 bits (still huge...)
 */
 template<int WE, int WF, bool log=false>
 fp_flopoco<WE,WF> dot4_pos_rndd(
@@ -227,7 +229,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto shift3=x0_exp-x3_exp;
 
     const int WAB=2*WF;
-    const int PAD_LOW=2*WAB-1;
+    const int PAD_LOW=2*WAB+2;
 
     auto x0_frac_full=concat(zg<2>(), x0_frac, zg<PAD_LOW>());
     auto x1_frac_full=concat(zg<2>(), x1_frac, zg<PAD_LOW>());
-- 
2.43.0


From 0887aa9e824e0382e4395e9b7b3dba98b61cae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 22/32] fix: or with an integer admits the all-ones constant

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..531fcc8 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -595,7 +595,7 @@ struct fw_uint
 
     THLS_INLINE fw_uint operator|(int b) const
     {
-        assert(b>=0 && b< MASK());
+        assert(b>=0 && bits_t(b) <= MASK());
         return fw_uint( bits_t(bits|b) & MASK(), detail::init_from_bits());
     }
 
-- 
2.43.0


From 7a7cab1c2b747722ba6ae437952b85b69df29c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 23/32] fix: import of values far below the range by
 policy_native_single

mpfr_subnormalize needs an operand inside the exponent range, which mpfr_set
does not enforce: values below 2^-149 made MPFR abort instead of giving zero
---
 include/thls/tops/policy_native.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/thls/tops/policy_native.hpp b/include/thls/tops/policy_native.hpp
index 2e105fd..9cce292 100644
--- a/include/thls/tops/policy_native.hpp
+++ b/include/thls/tops/policy_native.hpp
@@ -102,6 +102,7 @@ namespace thls {
             mpfr_set_emax(128);
 
             int i = mpfr_set (tmp, x, MPFR_RNDN);
+            i = mpfr_check_range(tmp, i, MPFR_RNDN); // mpfr_set does not check the range, mpfr_subnormalize needs it
             mpfr_subnormalize(tmp, i, MPFR_RNDN);
 
             mpfr_set_emin(emin);
-- 
2.43.0


From 7bcd962ad7ccfd25bb719316237540b2d2dd3f65 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 24/32] fix: fixed-point comparison of constants looks at the
 second value

---
 include/thls/core/constfunc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/core/constfunc_helpers.hpp b/include/thls/core/constfunc_helpers.hpp
index 3324d65..6b8cd92 100644
--- a/include/thls/core/constfunc_helpers.hpp
+++ b/include/thls/core/constfunc_helpers.hpp
@@ -64,7 +64,7 @@ struct ctFixCompare
 	static const int eLo=ctMin<eA,eB>::val;
 	
 	static const int64_t nA=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
-	static const int64_t nB=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
+	static const int64_t nB=ctCheckedShiftLeft<vB,(eB-eLo)>::val;
 	
 	static const int val = (nA < nB) ? -1 : (nA>nB) ? +1 : 0;
 };
-- 
2.43.0


From ff0fe44c00c2f1dd08c9654976175f47996f9295 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 25/32] fix: exhaustive dot2 self-check reports differences,
 not agreement

---
 include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index cd48863..e6bfda8 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -298,7 +298,7 @@ void exhaust_dot2_pos_rndd()
                     auto ref=dot2_pos_rndd_ref(x0,x1,x2,x3);
                     auto got=dot2_pos_rndd(x0,x1,x2,x3);
                     //fprintf(stderr, "  ref=%lg, got=%lg\n", ref.to_double(), got.to_double());
-                    if(ref.equals(got).to_bool()){
+                    if(!ref.equals(got).to_bool()){
                         fprintf(stderr, "  ERROR : ref=~%lg, got=~%lg\n", ref.to_double_approx(), got.to_double_approx());
                         exit(1);
                     }
-- 
2.43.0


From 58e118d808c4d332619aab29e72fd133ea9979e1 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 26/32] fix: random source never draws a disabled class

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index a132938..1c803c1 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1142,7 +1142,7 @@ public:
         double u=m_udist(rng) * class_cdf.back();
         unsigned sel;
         for(sel=0; sel<class_cdf.size(); sel++){
-            if( u <= class_cdf[sel] ){
+            if( class_pdf[sel] > 0.0 && u <= class_cdf[sel] ){ // u can be exactly zero
                 break;
             }
         }
-- 
2.43.0


From fad0fbebc04f3ac4ec1e7078541f6887b643f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 27/32] fix: the four-term dot product has an include guard of
 its own

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index c894599..aea0fa8 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -1,5 +1,5 @@
-#ifndef dot2_pos_hpp
-#define dot2_pos_hpp
+#ifndef dot4_pos_hpp
+#define dot4_pos_hpp
 
 #include "fp_flopoco.hpp"
 
-- 
2.43.0


From 66314887990d58b6b60f056ac9a36afe3eaacc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 28/32] fix: add_dual: pad the far path shifter for 61 bit
 fractions too

As with 5, 13 and 29 bits, 2*wF+4 is one shift short of the range of
shiftVal, so aligning by 126 places shifted an fw_uint<126> by its whole
width and failed its assertion.
---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index 7ea7ba5..8be14cb 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -350,7 +350,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
     // HACK: This is a complete hack to get very specific widths to
     // pass. It has a small cost, but seems to be benign   
     // TODO: WTF is going on here?
-    static const int pad1=(wF==5 || wF==13 || wF==29) ? 2 : 0;
+    static const int pad1=(wF==5 || wF==13 || wF==29 || wF==61) ? 2 : 0;
     auto preFracNewY=zpad_lo<wF+3+pad1>(fracNewY);
     //sstd::cerr<<"shiftVal="<<shiftVal<<", pad="<<pad1<<"\n";
     fw_uint<2*wF+4+pad1> shiftedFracYp = preFracNewY >> shiftVal.to_int();    
-- 
2.43.0


From 15eab2681ec7599fbb18c21975eebb681e94fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 29/32] fix: fp_ieee: the text of a number with a fraction
 wider than 31 bits

---
 include/thls/tops/fp_ieee.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index d45e84a..08606b0 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -492,7 +492,7 @@ std::string fp_ieee<ExpBits,FracBits>::str() const
         fw_uint<FracBits> frac=get_bits<FracBits-1,0>(bits);
         acc<<" e="<<expnt<<"="<<(expnt.to_int()- (1<<(ExpBits-1))+1);
         
-        acc<<" f="<<frac<<"= (approx)"<<(ldexp(frac.to_int()+ldexp(1,FracBits),-FracBits));
+        acc<<" f="<<frac<<"= (approx)"<<(ldexp(thls::to_double_approx(frac)+ldexp(1,FracBits),-FracBits));
     }else if( is_inf().to_bool() ){
         acc<<select(is_negative(), "-inf" , "+inf");
     }else{
-- 
2.43.0


From 1f55f6de0eeaff22f4a01705fc742026f1eac578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 30/32] fix: add_single_v3: count of leading zeros of a zero
 byte is undefined

---
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a252b52..c9c853d 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -111,7 +111,9 @@ THLS_INLINE void LZOCShifter(fw_uint<WD> &out, fw_uint<WC> &count, const fw_uint
 
 THLS_INLINE fw_uint<3> clz(const fw_uint<8> &x)
 {
-    return fw_uint<3>(0x7&__builtin_clz(0xFF & x.to_int()));
+    // __builtin_clz is undefined for zero
+    int v=0xFF & x.to_int();
+    return fw_uint<3>(v==0 ? 0 : 0x7&__builtin_clz(v));
 }
 
 THLS_INLINE fw_uint<1> non_zero(const fw_uint<8> &x)
-- 
2.43.0


From 158900646eef68acf9eb52a2418f46db49e1e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 31/32] fix: ref_inv, ref_inv_faithful: free the numerator

---
 include/thls/tops/fp_flopoco.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 1c803c1..939604d 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -754,6 +754,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
     fp_flopoco<ER,FR> res(mr,true);
 
     mpfr_clear(ma);
+    mpfr_clear(mb);
     mpfr_clear(mr);
 
     return res;
@@ -777,6 +778,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
         r2=fp_flopoco<ER,FR>(mr,true);
 
         mpfr_clear(ma);
+        mpfr_clear(mb);
         mpfr_clear(mr);
 
     }
-- 
2.43.0


From f5a47f46dd3b7fccd382f7a898fcc9995c38a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:52 +0000
Subject: [PATCH 32/32] fix: from_mpfr: free the relative error before refusing
 an inexact value

---
 include/thls/tops/policy_native.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/policy_native.hpp b/include/thls/tops/policy_native.hpp
index 9cce292..18e0aa4 100644
--- a/include/thls/tops/policy_native.hpp
+++ b/include/thls/tops/policy_native.hpp
@@ -26,6 +26,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
@@ -124,6 +125,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
-- 
2.43.0

