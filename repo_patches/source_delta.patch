From 3eaa31be9e73d3d3ccd0b3ac5f5ad7729a4754c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 01/80] fix: TA_LINEARREG_State computes the regression sums
 with the weights of TA_LINEARREG

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..cfa2fee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -368,14 +368,14 @@
 
    if (NEED_MORE_DATA)
    {
+       STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
        STATE.SumY += inReal;
-       STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
       PUSH_TO_MEM(inReal,inReal);
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    }
 
+   STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
    STATE.SumY += inReal;
-   STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
    m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
    b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@
 
    tempReal = POP_FROM_MEM(inReal);
    STATE.SumY -= tempReal;
-   STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+   STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
    PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From e668a0717c8a1ac3c35cbcb79ee9328d5f09aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 02/80] fix: TA_LINEARREG_ANGLE_State computes the regression
 sums with the weights of TA_LINEARREG_ANGLE

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..8c3f7c3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -327,7 +327,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_ANGLE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -369,21 +369,21 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         VALUE_HANDLE_DEREF(outReal) = std_atan(m) * ( 180.0 / PI );
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 543b109ac7500898b02dd0837d693a940cd6b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 03/80] fix: TA_LINEARREG_INTERCEPT_State computes the
 regression sums with the weights of TA_LINEARREG_INTERCEPT

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..65b3b45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -325,7 +325,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_INTERCEPT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -367,14 +367,14 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
@@ -382,7 +382,7 @@ double m, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 8c1ccd50fa2e9a183f2231acee3be499a065a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 04/80] fix: TA_LINEARREG_SLOPE_State computes the regression
 sums with the weights of TA_LINEARREG_SLOPE

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..70811a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -323,7 +323,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_SLOPE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -365,20 +365,20 @@ double tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         VALUE_HANDLE_DEREF(outReal) = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 163c135e356fbcdafcc60f27883655e949a4b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 05/80] fix: TA_TSF_State computes the regression sums with the
 weights of TA_TSF

---
 ta-lib-rt/c/src/ta_func/ta_TSF.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..1ddf782 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -326,7 +326,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_TSF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, b, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -368,14 +368,14 @@ double m, b, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // every older value gains one: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@ double m, b, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From d1413b3408a3239e509361eeb1bf261e22569a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 06/80] fix: TA_SUM_State returns the sum over the whole period

---
 ta-lib-rt/c/src/ta_func/ta_SUM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..d31b31e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -357,10 +357,10 @@
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    } else {             
-       _state->tempSum -= POP_FROM_MEM(inReal);
        _state->tempSum += inReal;
+       VALUE_HANDLE_DEREF(outReal) = _state->tempSum;
+       _state->tempSum -= POP_FROM_MEM(inReal);
        PUSH_TO_MEM(inReal,inReal);
-       VALUE_HANDLE_DEREF(outReal) = inReal;
        return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    }
 
-- 
2.43.0


From 9ee117868120b657ae342bf488479c87042927d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 07/80] fix: TA_AVGDEV_State averages over the whole period

---
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..85c2e91 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -340,11 +340,9 @@
    }
 
 
-   STATE.sum -= POP_FROM_MEM(inReal);
    STATE.sum += inReal;
-   PUSH_TO_MEM(inReal, inReal);
 
-   temp = 0.0;
+   temp = std_fabs(inReal - STATE.sum / STATE.optInTimePeriod);
 
    FOR_ALL_MEM(i) {
        temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
@@ -352,6 +350,9 @@
 
    VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
 
+   STATE.sum -= POP_FROM_MEM(inReal);
+   PUSH_TO_MEM(inReal, inReal);
+
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From faba387579beb09d83a7e4485f5424d1c5cf3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 08/80] fix: TA_SMA_State with period 1 has no history to read
 or write

---
 ta-lib-rt/c/src/ta_func/ta_SMA.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..9429ffb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -400,6 +400,11 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 
   VALUE_HANDLE_DEREF(outReal) = STATE.periodTotal / STATE.optInTimePeriod;
 
+  if (MEM_SIZE == 0)
+  { // period 1: the window is the current value only
+    STATE.periodTotal = 0;
+    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+  }
   STATE.periodTotal -= POP_FROM_MEM(inReal);
   PUSH_TO_MEM(inReal,inReal);
 
-- 
2.43.0


From bafecb950cc740817133877098ef2cbfd3f7d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 09/80] fix: TA_WMA_State with period 1 has no history to read
 or write

---
 ta-lib-rt/c/src/ta_func/ta_WMA.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..7443cbd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -434,6 +434,13 @@
 
     VALUE_HANDLE_DEREF(outReal) = STATE.periodSum / STATE.divider;
 
+    if (MEM_SIZE == 0)
+    { // period 1: the window is the current value only
+      STATE.periodSum = 0.;
+      STATE.periodSub = 0.;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    }
+
     STATE.periodSum -= STATE.periodSub;
     STATE.periodSub -= POP_FROM_MEM(inReal);
     PUSH_TO_MEM(inReal,inReal);
-- 
2.43.0


From 2e28cdba4e35a13997a257befb53732500f82141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 10/80] fix: TA_VAR_State with period 1 has no history to read
 or write

---
 ta-lib-rt/c/src/ta_func/ta_VAR.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..d4b1fd8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -464,6 +464,13 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 
     VALUE_HANDLE_DEREF(outReal) = meanValue2 - meanValue1 * meanValue1;
 
+    if (MEM_SIZE == 0)
+    { // period 1: the window is the current value only
+      STATE.periodTotal1 = 0.;
+      STATE.periodTotal2 = 0.;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    }
+
     tempReal = POP_FROM_MEM(inReal);
     STATE.periodTotal1 -= tempReal;
     STATE.periodTotal2 -= tempReal*tempReal;
-- 
2.43.0


From fe6383c2cb7195e351ccbe33fe721c991348d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 11/80] fix: TA_CORREL_State with period 1 has no history to
 read or write

---
 ta-lib-rt/c/src/ta_func/ta_CORREL.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..9f6f86a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -421,6 +421,12 @@
    else
       VALUE_HANDLE_DEREF(outReal) = 0.0;
 
+   if (MEM_SIZE == 0)
+   { // period 1: the window is the current pair only
+      ADDDATA(inReal0, inReal1, -1)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    x=POP_FROM_MEM(inReal0);
    y=POP_FROM_MEM(inReal1);
    ADDDATA(x, y, -1)
-- 
2.43.0


From 40a57ff309ffd87abca387c27c0fce7781ffd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 12/80] fix: TA_BETA_State with period 1 has no history to read
 or write

---
 ta-lib-rt/c/src/ta_func/ta_BETA.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..df3bdcf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -473,7 +473,7 @@ double x,y,temp;
     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
   }
 
-  temp = POP_FROM_MEM(inReal0);
+  temp = (MEM_SIZE > 0) ? POP_FROM_MEM(inReal0) : inReal0;
 
   if( !TA_IS_ZERO(STATE.last_price_x) )
      x = (temp-STATE.last_price_x)/STATE.last_price_x;
@@ -481,7 +481,7 @@ double x,y,temp;
      x = 0.0;
   STATE.last_price_x = temp;
 
-  temp = POP_FROM_MEM(inReal1);
+  temp = (MEM_SIZE > 0) ? POP_FROM_MEM(inReal1) : inReal1;
 
   if( !TA_IS_ZERO(STATE.last_price_y) )
      y = (temp-STATE.last_price_y)/STATE.last_price_y;
@@ -502,10 +502,11 @@ double x,y,temp;
   STATE.S_xy -= x*y;
   STATE.S_x -= x;
   STATE.S_y -= y;
-
-  PUSH_TO_MEM(inReal0,inReal0);
-  PUSH_TO_MEM(inReal1,inReal1);
-
+  if (MEM_SIZE > 0)
+  {
+    PUSH_TO_MEM(inReal0,inReal0);
+    PUSH_TO_MEM(inReal1,inReal1);
+  }
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From 0d128956e0361cbdf5fc1e57ce9b92303280b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 13/80] fix: TA_TRIMA_State with periods 1, 2 and 3

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..702d331 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -605,6 +605,12 @@ double tempReal;
     }
 
 
+   if (MEM_SIZE == 0)
+   { // period 1: the average is the current value
+       VALUE_HANDLE_DEREF(outReal) = inReal;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (NEED_MORE_DATA)
    { // _cur_idx always < STATE.optInTimePeriod
        if ((int)_cur_idx <= STATE.middleIdx)
@@ -642,7 +648,7 @@ double tempReal;
    /* Step (1) */
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
-
+   PUSH_TO_MEM(inReal, inReal); // periods 2 and 3 have the current value in the middle
    middle = STATE.middleIdx++ % STATE.mem_size;
    tempReal = MEM_IDX_NS(inReal, middle);
    STATE.numeratorSub += tempReal;
@@ -656,11 +662,6 @@ double tempReal;
        STATE.numeratorAdd -= tempReal;
        STATE.numerator +=  STATE.numeratorAdd;
    }
-
-
-
-   PUSH_TO_MEM(inReal, inReal);
-
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From b5d42d37b0a8e4972b45d74447257fa4a7ba1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 14/80] fix: TA_STOCHF_State with a Fast-K period of 1 has no
 history to write

---
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..f39c4af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -708,9 +708,11 @@ TA_RetCode retCode;
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
-
+   if (MEM_SIZE > 0)
+   {
+     PUSH_TO_MEM(inHigh,inHigh);
+     PUSH_TO_MEM(inLow,inLow);
+   }
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-- 
2.43.0


From a113e5f7fc7a38c8f5edcf954857656d08f00d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 15/80] fix: TA_ULTOSC_StateInit sorts the periods after the
 default values are substituted

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..4d9027b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -429,15 +429,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
        x = x ^ y; \
     }
 
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -479,6 +470,17 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   //sort optIns (the default values are known by now)
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
-- 
2.43.0


From 51ed8d7a18b48339e073f7301e43601239bd8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 16/80] fix: TA_ULTOSC_State with a period of 1

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 4d9027b..35dff2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -584,6 +584,10 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.b1Total += trueRange;
     }
 
+    // with a period of 1 the value removed below is the current one
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
+
     if (!(NEED_MORE_DATA))
     {
         tempDouble = 0.0;
@@ -605,9 +609,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.a1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodA, idx);
         STATE.b1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodB, idx);
 }
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
-
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
 
-- 
2.43.0


From 99ed8f20078bdb683db143c19dcca508a8556afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 17/80] fix: TA_EMA_State with an unstable period, or period 1
 in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..e405b7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -508,12 +508,10 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
-                  if (!(NEED_MORE_DATA))
-                  {
-                      VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-                      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
-
+                  if (NEED_MORE_DATA)
+                      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                  VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+                  return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                 } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
@@ -522,7 +520,10 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
-- 
2.43.0


From 6dc670429055e9371459bd8c962ef5e68df28f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 18/80] fix: TA_WLMA_State with an unstable period, or period 1
 in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..306a4c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -505,12 +505,10 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
-                  if (!(NEED_MORE_DATA))
-                  {
-                      VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-                      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
-
+                  if (NEED_MORE_DATA)
+                      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                  VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+                  return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                 } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
@@ -519,7 +517,10 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
-- 
2.43.0


From e46baa74a1e3e5a00af19acde34d133d03c01070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 19/80] fix: TA_EMA_StateInit computes the smoothing factor of
 the default period

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index e405b7f..49e18b9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,9 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0


From 64dc5d46ed0661955b8491e82d43eb291f384e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 20/80] fix: TA_WLMA_StateInit computes the smoothing factor of
 the default period

---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 306a4c1..fd52900 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,9 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0


From d68a5c056b9d0979494fea37151c20c3ac34ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 21/80] fix: TA_T3_State with period 1 or an unstable period

---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..536b220 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -480,6 +480,11 @@
     STATE.c4 = 1.0 + 3.0 * STATE.optInVFactor - STATE.c1 + 3.0 * t;
    }
 
+   if (STATE.optInTimePeriod == 1)
+   {
+       if (FIRST_LAUNCH)
+         STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
+   } else
    if ((int)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
@@ -556,31 +561,19 @@
                                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                        }
 
-   if (NEED_MORE_DATA)
+   // all the averages are initialized at 6*(period-1), they are updated from the next value on
+   if ((int)_cur_idx > 6*(STATE.optInTimePeriod-1))
    {
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
-
    STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
    STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
    STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
    STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
    STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
    STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
+   }
 
+   if (NEED_MORE_DATA)
+     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From e999380b28f6266a7c93c3b2d81a4e298b9a0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 22/80] fix: TA_NATR writes the 0.0 of a zero close to its own
 output, not to the first one

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..3c49dfd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -332,7 +332,7 @@
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -891,7 +891,7 @@ TA_RetCode retCode;
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From a1c5ad4d1131e0eb1422821e872a64ae97726dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 23/80] fix: TA_NATR normalizes with the close of the same bar
 when startIdx exceeds the lookback

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 3c49dfd..e236027 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -314,7 +314,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -328,7 +328,7 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx+outIdx];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
@@ -876,7 +876,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -887,7 +887,7 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx+outIdx];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-- 
2.43.0


From 07b071e0b570cc4f1afdbe40b88159e6d7c422a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 24/80] fix: TA_BBANDS_State needs more data as long as its
 moving average does

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..34e3c73 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -534,7 +534,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-  ENUM_DECLARATION(RetCode) retCode;
+  ENUM_DECLARATION(RetCode) retCode, retCode2;
   double tempReal, tempReal2;
   #define TA_BBANDS_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
@@ -571,7 +571,9 @@
    /* insert state based TA func code here. */
    retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
+   retCode2 = retCode;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
+   if (retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success)) retCode = retCode2; /* both must have enough data */
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
 
-- 
2.43.0


From dac3e7a1c050e634b0623851c7cc7fa67ff40648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 25/80] fix: TA_CMO_State tests the average, not the sum,
 against zero in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_CMO.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..042c736 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -559,8 +559,10 @@ double tempValue1, tempValue2;
          return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
        tempValue1 = STATE.prevGain+STATE.prevLoss;
-
-       if( !TA_IS_ZERO(tempValue1) )
+       tempValue2 = tempValue1;
+       if ((int)STATE.mem_index == STATE.optInTimePeriod)
+          tempValue2 /= STATE.optInTimePeriod; // first Metastock value: the sums are not averaged yet
+       if( !TA_IS_ZERO(tempValue2) )
           VALUE_HANDLE_DEREF(outReal) = 100*((STATE.prevGain-STATE.prevLoss)/tempValue1);
        else
           VALUE_HANDLE_DEREF(outReal) = 0.0;
-- 
2.43.0


From 8748bd777c4c035f652a303635c1c198d0dce7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 26/80] fix: TA_RSI_State tests the average, not the sum,
 against zero in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_RSI.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..2e1532b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -562,8 +562,10 @@ double tempValue1, tempValue2;
      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    tempValue1 = STATE.prevGain+STATE.prevLoss;
-
-   if( !TA_IS_ZERO(tempValue1) )
+   tempValue2 = tempValue1;
+   if ((int)STATE.mem_index == STATE.optInTimePeriod)
+      tempValue2 /= STATE.optInTimePeriod; // first Metastock value: the sums are not averaged yet
+   if( !TA_IS_ZERO(tempValue2) )
       VALUE_HANDLE_DEREF(outReal) = 100*(STATE.prevGain/tempValue1);
    else
       VALUE_HANDLE_DEREF(outReal) = 0.0;
-- 
2.43.0


From 08e22a2a09fe0fad635f699ab4679a197c6c2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 27/80] fix: TA_MAXINDEX_State picks the same one of equal
 values as TA_MAXINDEX

---
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c | 54 ++++++++++-----------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..233aa47 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -330,7 +330,7 @@
 {
    /* insert local variable here */
     TA_Real val;
-    int i, j;
+    unsigned int i;
    #define TA_MAXINDEX_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -358,7 +358,25 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-if (FIRST_LAUNCH || STATE.max <= inReal) {
+if (FIRST_LAUNCH) {
+    STATE.max = inReal;
+    STATE.maxIdx = STATE.mem_index;
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
+    if (STATE.max < inReal) {
+        STATE.max = inReal;
+        STATE.maxIdx = STATE.mem_index;
+    }
+} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the oldest of equal values
+    STATE.maxIdx = STATE.mem_index - MEM_SIZE;
+    STATE.max = MEM_IDX_NS(inReal, _cur_idx);
+    for (i = 1; i <= MEM_SIZE; i++) {
+        val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
+        if (STATE.max < val) {
+            STATE.maxIdx = STATE.mem_index - MEM_SIZE + i;
+            STATE.max = val;
+        }
+    }
+} else if (STATE.max <= inReal) {
     STATE.max = inReal;
     STATE.maxIdx = STATE.mem_index;
 }
@@ -366,38 +384,6 @@ if (FIRST_LAUNCH || STATE.max <= inReal) {
 if (NEED_MORE_DATA) {
     PUSH_TO_MEM(inReal,inReal);
     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-} else {
-    if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max
-
-        STATE.maxIdx = STATE.mem_index;
-        STATE.max = inReal;
-
-        for (i = _cur_idx; i < MEM_SIZE; i++) {
-            val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
-                STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                STATE.max = val;
-            }
-        }
-
-        for (i = 0; i < _cur_idx; i++) {
-            val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
-                STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
-                STATE.max = val;
-            }
-        }
-
-        // FOR_ALL_MEM(i) {
-        //     val = MEM_IDX_NS(inReal, i);
-        //     if (STATE.max < val) {
-        //         STATE.maxIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.max = val;
-        //     }
-        // }
-
-    }
 }
 
 PUSH_TO_MEM(inReal,inReal);
-- 
2.43.0


From 7b0b7197a184f8b3800fc10afd27fa76ac1ae2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 28/80] fix: TA_MININDEX_State picks the same one of equal
 values as TA_MININDEX

---
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c | 55 ++++++++++-----------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..82f44ee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -330,7 +330,7 @@
 {
    /* insert local variable here */
     TA_Real val;
-    int i, j;
+    unsigned int i;
    #define TA_MININDEX_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -359,7 +359,25 @@
 
    /* insert state based TA func code here. */
 
-    if (FIRST_LAUNCH || STATE.min >= inReal) {
+    if (FIRST_LAUNCH) {
+        STATE.min = inReal;
+        STATE.minIdx = STATE.mem_index;
+    } else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
+        if (STATE.min > inReal) {
+            STATE.min = inReal;
+            STATE.minIdx = STATE.mem_index;
+        }
+    } else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the oldest of equal values
+        STATE.minIdx = STATE.mem_index - MEM_SIZE;
+        STATE.min = MEM_IDX_NS(inReal, _cur_idx);
+        for (i = 1; i <= MEM_SIZE; i++) {
+            val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
+            if (STATE.min > val) {
+                STATE.minIdx = STATE.mem_index - MEM_SIZE + i;
+                STATE.min = val;
+            }
+        }
+    } else if (STATE.min >= inReal) {
         STATE.min = inReal;
         STATE.minIdx = STATE.mem_index;
     }
@@ -367,39 +385,6 @@
     if (NEED_MORE_DATA) {
         PUSH_TO_MEM(inReal,inReal);
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-    } else {
-        if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min
-
-            STATE.minIdx = STATE.mem_index;
-            STATE.min = inReal;
-
-            for (i = _cur_idx; i < MEM_SIZE; i++) {
-                val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
-                    STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                    STATE.min = val;
-                }
-            }
-
-            for (i = 0; i < _cur_idx; i++) {
-                val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
-                    STATE.minIdx = STATE.mem_index - (_cur_idx - i);
-                    STATE.min = val;
-                }
-            }
-
-            // FOR_ALL_MEM(i) {
-            //     val = MEM_IDX_NS(inReal, i);
-            //     if (STATE.min > val) {
-            //         STATE.minIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-            //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-            //         STATE.min = val;
-            //     }
-            // }
-
-        }
-
     }
 
     PUSH_TO_MEM(inReal,inReal);
-- 
2.43.0


From f3ffa3600da8140a57d66c8553427520776d09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 29/80] fix: TA_MINMAXINDEX_State picks the same one of equal
 values as TA_MINMAXINDEX

---
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c | 105 +++++++++--------------
 1 file changed, 41 insertions(+), 64 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..1205902 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -365,8 +365,7 @@
 {
    /* insert local variable here */
     TA_Real val;
-    int i, j;
-    int find_min, find_max;
+    unsigned int i;
 #define TA_MINMAXINDEX_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -398,76 +397,54 @@
 
    /* insert state based TA func code here. */
 if (FIRST_LAUNCH) {
-    STATE.max = STATE.min = inReal;
-    STATE.maxIdx = STATE.minIdx = STATE.mem_index;
-} else if (STATE.min >= inReal) {
-    STATE.min = inReal;
-    STATE.minIdx = STATE.mem_index;
+    STATE.max = inReal;
+    STATE.maxIdx = STATE.mem_index;
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
+    if (STATE.max < inReal) {
+        STATE.max = inReal;
+        STATE.maxIdx = STATE.mem_index;
+    }
+} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the oldest of equal values
+    STATE.maxIdx = STATE.mem_index - MEM_SIZE;
+    STATE.max = MEM_IDX_NS(inReal, _cur_idx);
+    for (i = 1; i <= MEM_SIZE; i++) {
+        val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
+        if (STATE.max < val) {
+            STATE.maxIdx = STATE.mem_index - MEM_SIZE + i;
+            STATE.max = val;
+        }
+    }
 } else if (STATE.max <= inReal) {
     STATE.max = inReal;
     STATE.maxIdx = STATE.mem_index;
 }
 
-if (NEED_MORE_DATA) {
-    PUSH_TO_MEM(inReal,inReal);
-    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-} else {
-
-    find_min = STATE.minIdx < STATE.mem_index - MEM_SIZE;
-    find_max = STATE.maxIdx < STATE.mem_index - MEM_SIZE;
-
-    if (find_min || find_max) {
-
-        if (find_min) {
-            STATE.minIdx = STATE.mem_index;
-            STATE.min = inReal;
-        }
-        if (find_max) {
-            STATE.maxIdx = STATE.mem_index;
-            STATE.max = inReal;
-        }
-
-
-        for (i = _cur_idx; i < MEM_SIZE; i++) {
-            val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
-                STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                STATE.min = val;
-            }
-            if (find_max && STATE.max < val) {
-                STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                STATE.max = val;
-            }
-        }
-
-        for (i = 0; i < _cur_idx; i++) {
-            val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
-                STATE.minIdx = STATE.mem_index - (_cur_idx - i);
-                STATE.min = val;
-            }
-            if (find_max && STATE.max < val) {
-                STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
-                STATE.max = val;
-            }
+if (FIRST_LAUNCH) {
+    STATE.min = inReal;
+    STATE.minIdx = STATE.mem_index;
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
+    if (STATE.min > inReal) {
+        STATE.min = inReal;
+        STATE.minIdx = STATE.mem_index;
+    }
+} else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the oldest of equal values
+    STATE.minIdx = STATE.mem_index - MEM_SIZE;
+    STATE.min = MEM_IDX_NS(inReal, _cur_idx);
+    for (i = 1; i <= MEM_SIZE; i++) {
+        val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
+        if (STATE.min > val) {
+            STATE.minIdx = STATE.mem_index - MEM_SIZE + i;
+            STATE.min = val;
         }
-
-        // FOR_ALL_MEM(i) {
-        //     val = MEM_IDX_NS(inReal, i);
-        //     if (find_min && STATE.min > val) {
-        //         STATE.minIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.min = val;
-        //     }
-        //     if (find_max && STATE.max < val) {
-        //         STATE.maxIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.max = val;
-        //     }
-        // }
-
     }
+} else if (STATE.min >= inReal) {
+    STATE.min = inReal;
+    STATE.minIdx = STATE.mem_index;
+}
 
+if (NEED_MORE_DATA) {
+    PUSH_TO_MEM(inReal,inReal);
+    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 }
 
 PUSH_TO_MEM(inReal,inReal);
-- 
2.43.0


From 9e6a695512eddd76d1e58734050f83a1750684be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 30/80] fix: TA_SAREXT_State has no output for the first bar
 with a start value

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..81ae971 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -888,8 +888,9 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              {
               STATE.newHigh = inHigh;
               STATE.newLow = inLow;
+              if(STATE.optInStartValue != 0)
+                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
              }
-
              if(STATE.optInStartValue == 0)
              {
              retCode = FUNCTION_CALL_STATE(MINUS_DM)( (struct TA_MINUS_DM_State*) STATE.stateMINUS_DM, inHigh, inLow, &ep_temp );
-- 
2.43.0


From 207bea273b3ba5db008ed22f87b1cf2288a31d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 31/80] fix: TA_CDL2CROWS_State keeps the candle averages of
 TA_CDL2CROWS

---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..1c4a79f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -361,7 +361,7 @@
             STATE.BodyLongPeriodTotal = 0.;
       }
 
-   if (STATE.mem_index > MEM_SIZE-2)
+   if (!(NEED_MORE_DATA))
    {
        i1 = GET_LOCAL_IDX(-1);
        i2 = GET_LOCAL_IDX(-2);
@@ -380,7 +380,7 @@
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
        STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+   } else if (STATE.mem_index <= MEM_SIZE-2) STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
 
 
    PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From ed1a1d735f541612d70dd966c5990f9f444931d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 32/80] fix: TA_CDL3BLACKCROWS_State keeps the candle averages
 of TA_CDL3BLACKCROWS

---
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..f4ef00f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -411,7 +411,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if (STATE.mem_index-1 >= 2)
+        if (STATE.mem_index-1 >= 3)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
-- 
2.43.0


From 9053e39881b72cb7b553defce33abbf8ecb7cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 33/80] fix: TA_CDLBREAKAWAY_State keeps the candle averages of
 TA_CDLBREAKAWAY

---
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..1f67785 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -420,7 +420,7 @@ unsigned int i1,i2,i3,i4;
 
         if (!(NEED_MORE_DATA))
         {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From b6595b1f25fa414729fefc16eeafecfea8fbc732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 34/80] fix: TA_CDLEVENINGSTAR_State keeps the candle averages
 of TA_CDLEVENINGSTAR

---
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..63fe981 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -458,7 +458,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 44fe7cb36d899633c6700343b2f643bd01901002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 35/80] fix: TA_CDLMORNINGSTAR_State keeps the candle averages
 of TA_CDLMORNINGSTAR

---
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..8e8b669 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -448,7 +448,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 6dd47a973b6addecabac37b98aa5348111b5cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 36/80] fix: TA_CDLSTALLEDPATTERN_State keeps the candle
 averages of TA_CDLSTALLEDPATTERN

---
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..deec975 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -486,7 +486,7 @@ int i1, i2, i3;
           STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
           STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
           STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
+          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort-1 );
           STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
           STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
         }
-- 
2.43.0


From e02cfb18b640afa77fc80139267b2f3d17ee77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 37/80] fix: TA_CDLUPSIDEGAP2CROWS_State keeps the candle
 averages of TA_CDLUPSIDEGAP2CROWS

---
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..7479b43 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -371,11 +371,11 @@ int i1,i2;
                    {
                          STATE.BodyShortPeriodTotal = 0.;
                          STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort) + 1;
-                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
+                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort + 1;
 
                          STATE.BodyLongPeriodTotal = 0.;
                          STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
                    }
 
                 i1 = GET_LOCAL_IDX(-1);
-- 
2.43.0


From 8c2ea942b4ce17cb69abe2f4dbb3e35deb447214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 38/80] fix: TA_CDLCOUNTERATTACK_State keeps the candle
 averages of TA_CDLCOUNTERATTACK

---
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..aceca9c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -413,7 +413,7 @@ unsigned int i1;
         {
          STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 081233c7385a7061c043b7e4331e9b3c6bbf69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 39/80] fix: TA_CDLABANDONEDBABY_State keeps the candle
 averages of TA_CDLABANDONEDBABY

---
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..c23d4ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -434,11 +434,11 @@
                   STATE.BodyShortPeriodTotal = 0.;
 
                   STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) - 1;
+                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) + 1;
                   STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort);
 
-                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
-                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji;
+                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
+                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji + 1;
                   STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
             }
 
-- 
2.43.0


From 3b6010ff386abc35d678af934f28714e7739b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 40/80] fix: TA_CDLRISEFALL3METHODS_State keeps the candle
 averages of TA_CDLRISEFALL3METHODS

---
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..0fc45d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -443,14 +443,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
-- 
2.43.0


From 46b22ea5a4a5b0f6616f0f32aff129207d0805f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 41/80] fix: TA_CDLMATHOLD_State keeps the candle averages of
 TA_CDLMATHOLD

---
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..299aeb2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -478,14 +478,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
-- 
2.43.0


From 8a84870da1d58ca60da0f3b693b4d98f305bbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 42/80] fix: TA_CDLHIKKAKEMOD_State keeps the candle averages
 of TA_CDLHIKKAKEMOD

---
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..48bc4be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -464,7 +464,7 @@ int i1,i2,i3;
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
                 if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
+                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
                 PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From ed35fe666216e480a5929039b4f31888692470d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 43/80] fix: TA_CDL3INSIDE_State keeps the candle averages of
 TA_CDL3INSIDE

---
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..2119e2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -396,12 +396,12 @@ unsigned int i1,i2;
                 }
 
 
-                if (STATE.mem_index-1 >= 2)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyLong + 2)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
                 }
 
-                if (STATE.mem_index-1 >= 1)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyShort + 1)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
-- 
2.43.0


From cf176f6992c41cc406fa02b1f815d3275b1ab1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 44/80] fix: TA_KAMA_State looks one period back, also with an
 unstable period

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..ebab907 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -485,11 +485,11 @@
 
      if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
-         STATE.sumROC1 -= std_fabs(STATE.trailingValue-POP_FROM_MEM(inReal));
+         STATE.sumROC1 -= std_fabs(STATE.trailingValue-MEM_IDX_NS(inReal, GET_LOCAL_IDX(-STATE.optInTimePeriod)));
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
      }
 
-    STATE.trailingValue = POP_FROM_MEM(inReal);
+    STATE.trailingValue = MEM_IDX_NS(inReal, GET_LOCAL_IDX(-STATE.optInTimePeriod));
     periodROC = inReal - STATE.trailingValue;
 
 
-- 
2.43.0


From 82b35ab4ea0a1bbccae7d2994328f7666efb747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 45/80] fix: TA_CDLUNIQUE3RIVER_State keeps the candle averages
 of TA_CDLUNIQUE3RIVER

---
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..28c3954 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -402,7 +402,7 @@ int i1,i2;
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong + 2)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
-- 
2.43.0


From 0126f3b27f10a98c9fba341783abcd0c5d587c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 46/80] fix: TA_CDLHIGHWAVE_State keeps the candle averages of
 TA_CDLHIGHWAVE

---
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..5785860 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -371,8 +371,10 @@
                 }
 
 
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                    STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                    STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
 
-- 
2.43.0


From f128aecc76227afdf3f3fb00021bc9c8ac3ab08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 47/80] fix: TA_STOCH_State keeps no history when the FastK
 period is 1

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..8e9def1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -766,8 +766,11 @@
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
+   if (MEM_SIZE > 0)
+   {
+     PUSH_TO_MEM(inHigh,inHigh);
+     PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-- 
2.43.0


From 38bdb1864f07b10365fe085483a6cdfe24514b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 48/80] fix: TA_MACDEXT_State starts its averages on the same
 bars as TA_MACDEXT

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..3159f29 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -610,6 +610,13 @@ ENUM_DECLARATION(RetCode) retCode;
 {
    /* insert local variable here */
 #define TA_MACDEXT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+/* Outside of the default compatibility these MA are seeded with the very first
+ * price bar, whatever the lookback is.
+ */
+#define TA_MACDEXT_STARTS_AT_FIRST_BAR(maType) \
+   ( (TA_GLOBALS_COMPATIBILITY != ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default)) && \
+     (((maType) == ENUM_VALUE(MAType,TA_MAType_EMA,Ema)) || \
+      ((maType) == ENUM_VALUE(MAType,TA_MAType_WLMA,Wlma))) )
  ENUM_DECLARATION(RetCode) retCode1;
  ENUM_DECLARATION(RetCode) retCode2;
  ENUM_DECLARATION(RetCode) retCode3;
@@ -655,26 +662,29 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           /* Positive: the fast MA starts later. Negative: the slow MA starts later. */
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
         /* Calculate the slow MA.  */
-        retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
-
+        retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        if( (-STATE.fastMADelay < (int) STATE.mem_index) ||
+            TA_MACDEXT_STARTS_AT_FIRST_BAR(STATE.optInSlowMAType) )
+           retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode1 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode1;
 
 
         /* Calculate the fast MA. */
-        if (STATE.fastMADelay < (int) STATE.mem_index)
-        {
-        retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
+        retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        if( (STATE.fastMADelay < (int) STATE.mem_index) ||
+            TA_MACDEXT_STARTS_AT_FIRST_BAR(STATE.optInFastMAType) )
+           retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
 
         if( retCode2 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode2 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode2;
-        } else return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
 
         if (retCode1 | retCode2)
-- 
2.43.0


From f7d17a8ca2c7bd0b713522ef6ef22c4713c7ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 49/80] fix: TA_CDLLONGLINE_State keeps no history when its
 candle averages need none

---
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..aa028be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -397,10 +397,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
                 }
 
+                if (MEM_SIZE > 0)
+                {
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
                 PUSH_TO_MEM(inLow,inLow);
                 PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From ab23d7f1014462db7e4aa69705d6d9ec4a277c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 50/80] fix: TA_CDLRICKSHAWMAN_State keeps no history when its
 candle averages need none

---
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..f9fd3b0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -439,10 +439,13 @@
                  STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear );
                 }
 
+                if (MEM_SIZE > 0)
+                {
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
                 PUSH_TO_MEM(inLow,inLow);
                 PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 1c5705d68f078743803e3a7e4bd74e28c0b64296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 51/80] fix: TA_CDLSHORTLINE_State keeps no history when its
 candle averages need none

---
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..57b25bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -393,10 +393,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
                 }
 
+                if (MEM_SIZE > 0)
+                {
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
                 PUSH_TO_MEM(inLow,inLow);
                 PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 1884ab23fc600971dbd168378de0551c5d385e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 52/80] fix: TA_CDLSPINNINGTOP_State keeps no history when its
 candle averages need none

---
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..d2caee8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -374,10 +374,13 @@
                  STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
                 }
 
+                if (MEM_SIZE > 0)
+                {
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
                 PUSH_TO_MEM(inLow,inLow);
                 PUSH_TO_MEM(inClose,inClose);
+                }
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 69c5703ba636a4ee15bc5e36528c5970f8cdccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 53/80] fix: TA_MACDFIX_StateSave and StateLoad store the whole
 MACD stream

---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..a943b26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -496,6 +496,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 
 {
+   return FUNCTION_CALL_STATE_SAVE(MACD)( (struct TA_MACD_State*) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
@@ -525,6 +527,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state save code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
@@ -544,6 +547,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */ #endif
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
+   return FUNCTION_CALL_STATE_LOAD(MACD)( (struct TA_MACD_State**) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
@@ -575,6 +580,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state load code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 15 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 6d7479a69d506d5979ee663489bd972c106038c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 54/80] fix: StateFree of the composite indicators accepts an
 empty or missing handle

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 2 ++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 2 ++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 2 ++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 2 ++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 2 ++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 2 ++
 29 files changed, 58 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..e8ab856 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -603,6 +603,8 @@ double tempReal,tempReal1,tempReal2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..78579ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -509,6 +509,8 @@ double tempReal;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..fb54be7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -705,6 +705,8 @@ int res1, res2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..94faaea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -581,6 +581,8 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         TA_RetCode retCode;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 34e3c73..696081b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -729,6 +729,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..27ab607 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -554,6 +554,8 @@ double lastValue, sum, theAverage;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..b39799b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -558,6 +558,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..8028fde 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -695,6 +695,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
         FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..305257e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -835,6 +835,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..c6e43e6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -736,6 +736,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..ddf7a6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -862,6 +862,8 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..5c6ff96 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -796,6 +796,8 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..057e83c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -965,6 +965,8 @@ double sine, leadSine;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..8176682 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -660,6 +660,8 @@ return retValue;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 ENUM_DECLARATION(RetCode) retValue;
 
 if( STATE_P.optInTimePeriod != 1 )
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..e6e428e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -943,6 +943,8 @@ k2 = (double)0.15; /* Fix 12 */
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
     if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 3159f29..46b3dba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -820,6 +820,8 @@ int tempInteger, tempInteger2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..2bc3b01 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..65a41d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -568,6 +568,8 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..09fb824 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -658,6 +658,8 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index e236027..8c5e71d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -604,6 +604,8 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         if( STATE_P.optInTimePeriod <= 1 )
         {
            /* No smoothing needed. Just do a TRANGE. */
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..a4d4cb5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -890,6 +890,8 @@ double ep_temp;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 81ae971..ca5f36c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1180,6 +1180,8 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
  if (STATE_P.optInStartValue == 0)
   {
     TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..d008dec 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -583,6 +583,8 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 8e9def1..0100d41 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -904,6 +904,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index f39c4af..a9a6cb9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -843,6 +843,8 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..2abb2ed 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -615,6 +615,8 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..ef9eacd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -568,6 +568,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
         if (res == ENUM_VALUE(RetCode,TA_SUCCESS,Success))
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..21f2115 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -528,6 +528,8 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 35dff2d..9c4ecce 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -725,6 +725,8 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From b4a0ec9ddab37310984ce21cd7cdc7423c575bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 55/80] fix: TA_NATR_StateFree with period 1 releases its own
 state

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 8c5e71d..1dacb92 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -606,12 +606,6 @@ double tempReal, tempATR;
    /* insert local variable here */
    if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
-- 
2.43.0


From 67d56a736174a03764070d03fd8ba0091975169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 56/80] fix: stream creation and loading report a failed memory
 request

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ACOS.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AD.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADD.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADX.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADXR.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_APO.c                 |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_AROON.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ASIN.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ATAN.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ATR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_BETA.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_BOP.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CCI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c         |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c       |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CEIL.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CMO.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CORREL.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_COS.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_COSH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DEMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DIV.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DX.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_EMA.c                 |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_EXP.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_IMI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_KAMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LN.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LOG10.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MA.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MACD.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAVP.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAX.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MFI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MOM.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MULT.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_NATR.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_NVI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_OBV.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PPO.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PVI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PVT.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROC.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCP.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCR.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_RSI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SAR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SIN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SINH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SMA.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SQRT.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_STOCH.c               |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c              |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SUB.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SUM.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_T3.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TAN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TANH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TEMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRIX.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_VAR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WILLR.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WLMA.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 |  6 +++++-
 ta-lib-rt/c/src/tools/gen_code/gen_code.c        | 10 +++++++++-
 166 files changed, 846 insertions(+), 169 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index e8ab856..74ade05 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -369,12 +369,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -716,6 +718,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -724,6 +727,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..85b3dd9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -205,11 +205,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..307e3d9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -252,11 +252,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..a117517 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -217,11 +217,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -485,6 +487,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -493,6 +496,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..4edf310 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -390,13 +390,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -725,6 +727,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +736,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..98f5b30 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -585,12 +585,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -967,6 +969,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -975,6 +978,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index 78579ac..8c7c77d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -302,12 +302,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -323,6 +325,7 @@
 
    // TODO only one double is needed for memory
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -614,6 +617,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -622,6 +626,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index fb54be7..fd07571 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -445,14 +445,16 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -524,6 +526,7 @@ if( optInSlowPeriod < optInFastPeriod )
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -821,6 +824,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -829,6 +833,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..61bd07e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -341,12 +341,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -703,6 +705,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -711,6 +714,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..84407a9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -352,12 +352,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -698,6 +700,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -706,6 +709,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..3337c14 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -205,11 +205,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..d909bf6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -202,11 +202,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -460,6 +462,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -468,6 +471,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 94faaea..b3289ed 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -355,12 +355,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -700,6 +702,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -708,6 +711,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 85c2e91..1679779 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -262,12 +262,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..5007102 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -226,11 +226,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -508,6 +510,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -516,6 +519,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 696081b..bee1894 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -485,6 +485,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -492,8 +493,9 @@
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -845,6 +847,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -853,6 +856,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index df3bdcf..0aa6e2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -361,12 +361,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -377,8 +379,9 @@
    /* insert state init code here. */
    STATE_P.initialized = 0;
    MEM_SIZE_P--;
-   if (MEM_SIZE_P > 0)
+   if (MEM_SIZE_P > 0) {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+     if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -725,6 +728,7 @@ double x,y,temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +737,7 @@ double x,y,temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..dbeb626 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -225,11 +225,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -513,6 +515,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -521,6 +524,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index 27ab607..41e4e95 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -337,12 +337,14 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -658,6 +660,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -666,6 +669,7 @@ double lastValue, sum, theAverage;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1c4a79f..8ed599b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index f4ef00f..ff702a3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -641,6 +643,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 2119e2a..3496350 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -289,11 +289,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -632,6 +634,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..32e8b71 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -300,11 +300,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..b7589a1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -268,11 +268,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -284,6 +286,7 @@
 
 //   MEM_SIZE_P--;
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -574,6 +577,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -582,6 +586,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..be2b67a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -329,11 +329,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -722,6 +724,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..d6d8803 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -342,11 +342,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -755,6 +757,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -763,6 +766,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c23d4ac..063a2f5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -350,12 +350,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -732,6 +734,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -740,6 +743,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..7e6aa8a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -378,11 +378,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -830,6 +832,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -838,6 +841,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..471c87e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index 1f67785..032cec0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..243e373 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -298,11 +298,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -651,6 +653,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,6 +662,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..3252e1e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -303,11 +303,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index aceca9c..5a20420 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -642,6 +644,7 @@ unsigned int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@ unsigned int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..cf8d68d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -310,12 +310,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -639,6 +641,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..af348a1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -593,6 +595,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -601,6 +604,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..55a33bf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -632,6 +634,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..15b6ee4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -293,11 +293,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -635,6 +637,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,6 +646,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..6267198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -274,11 +274,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -579,6 +581,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,6 +590,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..47583d6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -338,12 +338,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -707,6 +709,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -715,6 +718,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 63fe981..aff1417 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -330,12 +330,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -689,6 +691,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..3fae97c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -639,6 +641,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..edcb2e7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -623,6 +625,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -631,6 +634,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..c0d0833 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..9a2e954 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..9f60ec6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -656,6 +658,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..22fd769 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -653,6 +655,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 5785860..d8170c7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -607,6 +609,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -615,6 +618,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..8a741e6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -298,11 +298,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 48bc4be..3f47fcf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -330,11 +330,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -693,6 +695,7 @@ int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -701,6 +704,7 @@ int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..06e5c7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..554547b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -316,11 +316,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,6 +697,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,6 +706,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..0f9e489 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -292,11 +292,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,6 +638,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,6 +647,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..48c266f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -663,6 +665,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..172379a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -304,11 +304,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -672,6 +674,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..d46eee4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -679,6 +681,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..a331423 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -282,11 +282,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -618,6 +620,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..a95f5ed 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -279,11 +279,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index aa028be..fd02658 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -624,6 +626,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -632,6 +635,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..56c2d63 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..916316e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -273,11 +273,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -602,6 +604,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,6 +613,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 299aeb2..6fb8ba1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -347,12 +347,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -729,6 +731,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -737,6 +740,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..fb36a82 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -332,12 +332,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -701,6 +703,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -709,6 +712,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 8e8b669..f71e7d7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -320,12 +320,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -679,6 +681,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..0169ea1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -631,6 +633,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..b284c57 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -622,6 +624,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,6 +633,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index f9fd3b0..0b49de9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -672,6 +674,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index 0fc45d1..779143d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -314,11 +314,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -696,6 +698,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..ba37e8e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -673,6 +675,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..60fdff2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -657,6 +659,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -665,6 +668,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 57b25bc..9d0c02b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index d2caee8..c225ed6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -268,11 +268,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -595,6 +597,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -603,6 +606,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index deec975..8d34ee2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -332,11 +332,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -731,6 +733,7 @@ int i1, i2, i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,6 +742,7 @@ int i1, i2, i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..e6482f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -274,11 +274,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -605,6 +607,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..c78dd61 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -654,6 +656,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..29258f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..1a9dc86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..4c500c8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -288,11 +288,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -628,6 +630,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -636,6 +639,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index 28c3954..9fe7698 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -288,11 +288,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -638,6 +640,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,6 +649,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 7479b43..3a9875d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -641,6 +643,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..2830800 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -272,11 +272,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -581,6 +583,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -589,6 +592,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..5e42e08 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 042c736..2e6de98 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -448,12 +448,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -771,6 +773,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -779,6 +782,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index 9f6f86a..13d2da8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -315,12 +315,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -643,6 +645,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -651,6 +654,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..cba34d7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..91a63c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index b39799b..c03fe9a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -375,12 +375,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -670,6 +672,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -678,6 +681,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..90e33b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -213,11 +213,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..af48231 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -522,12 +522,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -885,6 +887,7 @@ double minusDI, plusDI;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -893,6 +896,7 @@ double minusDI, plusDI;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 49e18b9..c978009 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -394,12 +394,14 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -440,6 +442,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -747,6 +750,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -755,6 +759,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..85ee092 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..317fa7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index 8028fde..bc09e77 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -406,11 +406,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -839,6 +841,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -847,6 +850,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 305257e..b8b885f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -490,11 +490,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -986,6 +988,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -994,6 +997,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index c6e43e6..0bc48db 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -423,11 +423,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -878,6 +880,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -886,6 +889,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index ddf7a6d..88f6114 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -498,11 +498,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1015,6 +1017,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1023,6 +1026,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index 5c6ff96..fd38ee8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -471,11 +471,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -948,6 +950,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -956,6 +959,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 057e83c..244c166 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -559,11 +559,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1131,6 +1133,7 @@ double sine, leadSine;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1139,6 +1142,7 @@ double sine, leadSine;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..3f3b310 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -268,12 +268,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -580,6 +582,7 @@ double tempClose, tempOpen;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -588,6 +591,7 @@ double tempClose, tempOpen;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index ebab907..553d32c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -391,12 +391,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -721,6 +723,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -729,6 +732,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index cfa2fee..1800cb4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -289,12 +289,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 8c3f7c3..ac8916a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -290,12 +290,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 65b3b45..a26d53a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -288,12 +288,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,6 +593,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,6 +602,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 70811a2..c392c3b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -286,12 +286,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -587,6 +589,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -595,6 +598,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..3b78e9b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..aece7ff 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 8176682..b5db5c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -388,13 +388,15 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -869,6 +871,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -877,6 +880,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index e6e428e..5e8c26d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -586,14 +586,16 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,6 +697,7 @@ k2 = (double)0.15; /* Fix 12 */
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1064,6 +1067,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1072,6 +1076,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 46b3dba..575a486 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -545,6 +545,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -554,8 +555,9 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    STATE_P.optInSignalMAType = optInSignalMAType;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -947,6 +949,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -955,6 +958,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index a943b26..3ec16b7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -260,12 +260,14 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -561,6 +563,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 2bc3b01..8308c50 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -535,13 +535,15 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1036,6 +1038,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1044,6 +1047,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 65a41d1..fa0fa62 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -387,14 +387,16 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -675,6 +677,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -683,6 +686,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..76de97d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -298,12 +298,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 233aa47..4b589cc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -589,6 +591,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -597,6 +600,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..e2854f4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -221,11 +221,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -488,6 +490,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -496,6 +499,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index 09fb824..eedb36f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -419,12 +419,14 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -765,6 +767,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -773,6 +776,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..dcae201 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -286,12 +286,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -560,6 +562,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,6 +571,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..76bec2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -578,6 +580,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,6 +589,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..dabf8d3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -299,12 +299,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -599,6 +601,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -607,6 +610,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 82f44ee..5037d09 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -590,6 +592,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -598,6 +601,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..0d61671 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -324,12 +324,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -663,6 +665,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 1205902..41c3ce2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -324,12 +324,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -664,6 +666,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -672,6 +675,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..46d4ec0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -529,12 +529,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -893,6 +895,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,6 +904,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..1fd9a86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -442,12 +442,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..b78a819 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -290,12 +290,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -553,6 +555,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -561,6 +564,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..764737b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -213,11 +213,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 1dacb92..9df719f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -377,12 +377,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -719,6 +721,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -727,6 +730,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..6564c3d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -227,11 +227,13 @@ int outIdx;
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -505,6 +507,7 @@ int outIdx;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,6 +516,7 @@ int outIdx;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..d4bff49 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -225,11 +225,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -511,6 +513,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -519,6 +522,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..6f96320 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -529,12 +529,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -894,6 +896,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -902,6 +905,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..4c7d15b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -443,12 +443,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..a05e201 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -306,14 +306,16 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -577,6 +579,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,6 +588,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..9d0f17f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -229,11 +229,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -506,6 +508,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -514,6 +517,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..1e4e7c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -224,11 +224,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..6987f64 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -293,12 +293,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..4c10be1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -294,12 +294,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..3bd19df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -295,12 +295,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -558,6 +560,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -566,6 +569,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..636bdb7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -294,12 +294,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 2e1532b..8566290 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -453,12 +453,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -774,6 +776,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -782,6 +785,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index a4d4cb5..d6a6b76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -541,13 +541,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1013,6 +1015,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1021,6 +1024,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index ca5f36c..dfe430e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -786,6 +786,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -797,8 +798,9 @@
 /* Generated */    STATE_P.optInAccelerationMaxShort = optInAccelerationMaxShort;
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1320,6 +1322,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1328,6 +1331,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..a1d1948 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..b9dc522 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 9429ffb..1e1e7de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -320,12 +320,14 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -606,6 +608,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -614,6 +617,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..ec0f85a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index d008dec..96bba46 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -387,13 +387,15 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -687,6 +689,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -695,6 +698,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 0100d41..f68bd2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -618,6 +618,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -626,8 +627,9 @@
 /* Generated */    STATE_P.optInSlowD_MAType = optInSlowD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,8 +639,9 @@
 
    /* insert state init code here. */
    MEM_SIZE_P = (optInFastK_Period - 1);
- if (MEM_SIZE_P > 0)
+ if (MEM_SIZE_P > 0) {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+     if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
  else MEM_P = NULL;
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
@@ -1029,6 +1032,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1037,6 +1041,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index a9a6cb9..038b069 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -547,14 +547,16 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -564,8 +566,9 @@ TA_RetCode retCode;
 
    /* insert state init code here. */
         MEM_SIZE_P = (optInFastK_Period - 1);
-      if (MEM_SIZE_P > 0)
+      if (MEM_SIZE_P > 0) {
           MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
       else MEM_P = NULL;
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
@@ -960,6 +963,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -968,6 +972,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 2abb2ed..8727c49 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -423,6 +423,7 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -430,8 +431,9 @@ TA_RetCode retCode;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -731,6 +733,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,6 +742,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..223dc26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -214,11 +214,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -480,6 +482,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -488,6 +491,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index d31b31e..fefde99 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -278,12 +278,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -561,6 +563,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 536b220..fac2fa9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -401,13 +401,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -802,6 +804,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -810,6 +813,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..a99243e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -207,11 +207,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..3d2ca7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index ef9eacd..1ff66bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -377,12 +377,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -686,6 +688,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -694,6 +697,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..0bb20d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -260,11 +260,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 702d331..a7b9fbb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -516,12 +516,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -868,6 +870,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -876,6 +879,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 21f2115..229fcf1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -344,12 +344,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -647,6 +649,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -655,6 +658,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 1ddf782..aca46d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -289,12 +289,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@ double m, b, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, b, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..1e3f314 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -223,11 +223,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 9c4ecce..b7325c4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -454,14 +454,16 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
 /* Generated */    STATE_P.optInTimePeriod3 = optInTimePeriod3;
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -851,6 +853,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -859,6 +862,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index d4b1fd8..fc18e58 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -375,13 +375,15 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -679,6 +681,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..faad47c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -222,11 +222,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -497,6 +499,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,6 +508,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..70ee549 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -341,12 +341,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -696,6 +698,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index fd52900..d451b6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -391,12 +391,14 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -437,6 +439,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -744,6 +747,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -752,6 +756,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 7443cbd..4eca453 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -344,12 +344,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -647,6 +649,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -655,6 +658,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..12c2e92 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1839,6 +1839,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
@@ -1855,6 +1857,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } \n");
@@ -2543,6 +2547,8 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
        printIndent( out, indent);
+       fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+       printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
        int word_idx = 0;
@@ -2572,9 +2578,11 @@ void printFunc( FILE *out,
        printIndent( out, indent );
        fprintf( out, "#ifndef TA_%s_SUPPRESS_MEMORY_ALLOCATION\n", funcName);
        printIndent( out, indent);
-       fprintf( out, "if (MEM_SIZE_P > 0)\n");
+       fprintf( out, "if (MEM_SIZE_P > 0) {\n");
        printIndent( out, indent+6 );
        fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       printIndent( out, indent+6 );
+       fprintf( out, "if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }\n");
        printIndent( out, indent );
        fprintf( out, "else\n");
        printIndent( out, indent );
-- 
2.43.0


From 317a488488778f79937014bbb05aedef8b0db658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 57/80] fix: ATR, NATR, MAVP, STOCH, STOCHF and STOCHRSI report
 a failed memory request

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c      |  8 ++++++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c     | 22 ++++++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c     |  8 ++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 16 ++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c   | 16 ++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c |  8 ++++++++
 6 files changed, 78 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index b3289ed..f25fd4c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -249,6 +249,10 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -827,6 +831,10 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index fa0fa62..288da82 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -270,7 +270,18 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   #if !defined( _JAVA )
+      if( !localOutputArray )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+   #if !defined( _JAVA )
+      if( !localPeriodArray )
+      {
+         ARRAY_FREE( localOutputArray );
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
@@ -813,7 +824,18 @@ TA_RetCode retCode;
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localOutputArray )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localPeriodArray )
+/* Generated */       {
+/* Generated */          ARRAY_FREE( localOutputArray );
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 9df719f..adb382b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -264,6 +264,10 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -846,6 +850,10 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index f68bd2d..6e7003c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -404,6 +404,10 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+         if( !tempBuffer )
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      #endif
    #else
       if( (outSlowK == inHigh) || 
           (outSlowK == inLow)  || 
@@ -423,6 +427,10 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+            if( !tempBuffer )
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         #endif
       }
    #endif
 
@@ -1214,6 +1222,10 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outSlowK == inHigh) || 
 /* Generated */           (outSlowK == inLow)  || 
@@ -1233,6 +1245,10 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */             if( !tempBuffer )
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 038b069..af44808 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -360,6 +360,10 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+         if( !tempBuffer )
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      #endif
    #else
       if( (outFastK == inHigh) || 
           (outFastK == inLow)  || 
@@ -379,6 +383,10 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+            if( !tempBuffer )
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         #endif
       }
    #endif
 
@@ -1122,6 +1130,10 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outFastK == inHigh) || 
 /* Generated */           (outFastK == inLow)  || 
@@ -1141,6 +1153,10 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */             if( !tempBuffer )
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 8727c49..8409ece 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -322,6 +322,10 @@
    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+   #if !defined( _JAVA )
+      if( !tempRSIBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
@@ -880,6 +884,10 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempRSIBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
 /* Generated */                                 endIdx, 
 /* Generated */                                 inReal, 
-- 
2.43.0


From 1809d02f48b5bd5ba7999ac359f7e3d666f6da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 58/80] fix: circular buffer save and load report a failed read
 or write of index and size

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From 9da27d7591ec37a7843f2b950970c50edcc03c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 59/80] fix: TRIX starting after its lookback returns the
 values of the requested bars

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 229fcf1..7fc3818 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -776,7 +776,7 @@ TA_RetCode retCode;
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
-- 
2.43.0


From 3a9c9100da8df81920f246d9f175335f79d852de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 60/80] fix: MAXINDEX, MININDEX and MINMAXINDEX choose the same
 one of equal values wherever the range starts

---
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c    | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c    | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c | 24 ++++++++++++------------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 4b589cc..6ed7dd1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -233,7 +233,7 @@
         while( ++i<=today )
         {
            tmp = inReal[i];
-           if( tmp > highest )
+           if( tmp >= highest )
            {
               highestIdx = i;
               highest = tmp;
@@ -363,17 +363,17 @@
 if (FIRST_LAUNCH) {
     STATE.max = inReal;
     STATE.maxIdx = STATE.mem_index;
-} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
-    if (STATE.max < inReal) {
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the latest of equal values
+    if (STATE.max <= inReal) {
         STATE.max = inReal;
         STATE.maxIdx = STATE.mem_index;
     }
-} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the oldest of equal values
+} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the latest of equal values
     STATE.maxIdx = STATE.mem_index - MEM_SIZE;
     STATE.max = MEM_IDX_NS(inReal, _cur_idx);
     for (i = 1; i <= MEM_SIZE; i++) {
         val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
-        if (STATE.max < val) {
+        if (STATE.max <= val) {
             STATE.maxIdx = STATE.mem_index - MEM_SIZE + i;
             STATE.max = val;
         }
@@ -707,7 +707,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmp = inReal[i];
-/* Generated */            if( tmp > highest )
+/* Generated */            if( tmp >= highest )
 /* Generated */            {
 /* Generated */               highestIdx = i;
 /* Generated */               highest = tmp;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 5037d09..4a2cbfa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -233,7 +233,7 @@
         while( ++i<=today )
         {
            tmp = inReal[i];
-           if( tmp < lowest )
+           if( tmp <= lowest )
            {
               lowestIdx = i;
               lowest = tmp;
@@ -364,17 +364,17 @@
     if (FIRST_LAUNCH) {
         STATE.min = inReal;
         STATE.minIdx = STATE.mem_index;
-    } else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
-        if (STATE.min > inReal) {
+    } else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the latest of equal values
+        if (STATE.min >= inReal) {
             STATE.min = inReal;
             STATE.minIdx = STATE.mem_index;
         }
-    } else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the oldest of equal values
+    } else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the latest of equal values
         STATE.minIdx = STATE.mem_index - MEM_SIZE;
         STATE.min = MEM_IDX_NS(inReal, _cur_idx);
         for (i = 1; i <= MEM_SIZE; i++) {
             val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
-            if (STATE.min > val) {
+            if (STATE.min >= val) {
                 STATE.minIdx = STATE.mem_index - MEM_SIZE + i;
                 STATE.min = val;
             }
@@ -708,7 +708,7 @@
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmp = inReal[i];
-/* Generated */            if( tmp < lowest )
+/* Generated */            if( tmp <= lowest )
 /* Generated */            {
 /* Generated */               lowestIdx = i;
 /* Generated */               lowest = tmp;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 41c3ce2..73a98b8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -242,7 +242,7 @@
         while( ++i<=today )
         {
            tmpHigh = inReal[i];
-           if( tmpHigh > highest )
+           if( tmpHigh >= highest )
            {
               highestIdx = i;
               highest = tmpHigh;
@@ -263,7 +263,7 @@
         while( ++i<=today )
         {
            tmpLow = inReal[i];
-           if( tmpLow < lowest )
+           if( tmpLow <= lowest )
            {
               lowestIdx = i;
               lowest = tmpLow;
@@ -401,17 +401,17 @@
 if (FIRST_LAUNCH) {
     STATE.max = inReal;
     STATE.maxIdx = STATE.mem_index;
-} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
-    if (STATE.max < inReal) {
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the latest of equal values
+    if (STATE.max <= inReal) {
         STATE.max = inReal;
         STATE.maxIdx = STATE.mem_index;
     }
-} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the oldest of equal values
+} else if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max, the latest of equal values
     STATE.maxIdx = STATE.mem_index - MEM_SIZE;
     STATE.max = MEM_IDX_NS(inReal, _cur_idx);
     for (i = 1; i <= MEM_SIZE; i++) {
         val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
-        if (STATE.max < val) {
+        if (STATE.max <= val) {
             STATE.maxIdx = STATE.mem_index - MEM_SIZE + i;
             STATE.max = val;
         }
@@ -424,17 +424,17 @@ if (FIRST_LAUNCH) {
 if (FIRST_LAUNCH) {
     STATE.min = inReal;
     STATE.minIdx = STATE.mem_index;
-} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the oldest of equal values
-    if (STATE.min > inReal) {
+} else if (STATE.mem_index - 1 <= MEM_SIZE) { // first window: the latest of equal values
+    if (STATE.min >= inReal) {
         STATE.min = inReal;
         STATE.minIdx = STATE.mem_index;
     }
-} else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the oldest of equal values
+} else if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min, the latest of equal values
     STATE.minIdx = STATE.mem_index - MEM_SIZE;
     STATE.min = MEM_IDX_NS(inReal, _cur_idx);
     for (i = 1; i <= MEM_SIZE; i++) {
         val = (i < MEM_SIZE) ? MEM_IDX_NS(inReal, (_cur_idx + i) % MEM_SIZE) : inReal;
-        if (STATE.min > val) {
+        if (STATE.min >= val) {
             STATE.minIdx = STATE.mem_index - MEM_SIZE + i;
             STATE.min = val;
         }
@@ -794,7 +794,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmpHigh = inReal[i];
-/* Generated */            if( tmpHigh > highest )
+/* Generated */            if( tmpHigh >= highest )
 /* Generated */            {
 /* Generated */               highestIdx = i;
 /* Generated */               highest = tmpHigh;
@@ -814,7 +814,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */         while( ++i<=today )
 /* Generated */         {
 /* Generated */            tmpLow = inReal[i];
-/* Generated */            if( tmpLow < lowest )
+/* Generated */            if( tmpLow <= lowest )
 /* Generated */            {
 /* Generated */               lowestIdx = i;
 /* Generated */               lowest = tmpLow;
-- 
2.43.0


From 4bc91f0bdf1571391f59b02678069cfa9a5b6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 61/80] fix: STOCH and STOCHF return the K line when the D line
 shares memory with an input

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 12 ------------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 12 ------------
 2 files changed, 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 6e7003c..b5f5877 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -415,12 +415,6 @@
       {
          tempBuffer = outSlowK;
       }
-      else if( (outSlowD == inHigh) ||
-               (outSlowD == inLow)  ||
-               (outSlowD == inClose) )
-      {
-         tempBuffer = outSlowD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -1233,12 +1227,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
 /* Generated */       }
-/* Generated */       else if( (outSlowD == inHigh) ||
-/* Generated */                (outSlowD == inLow)  ||
-/* Generated */                (outSlowD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outSlowD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined(_JAVA)
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index af44808..13b514f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -371,12 +371,6 @@
       {
          tempBuffer = outFastK;
       }
-      else if( (outFastD == inHigh) ||
-               (outFastD == inLow)  ||
-               (outFastD == inClose) )
-      {
-         tempBuffer = outFastD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -1141,12 +1135,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
 /* Generated */       }
-/* Generated */       else if( (outFastD == inHigh) ||
-/* Generated */                (outFastD == inLow)  ||
-/* Generated */                (outFastD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outFastD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined( _JAVA )
-- 
2.43.0


From 7113d07da0291221cd857621b37ce97e3f170521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 62/80] fix: TA_SetUnstablePeriod and TA_GetUnstablePeriod
 refuse negative identifiers

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..bbef606 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From b014d4d66e8bcaddf0a6af8d640fd796f6c87d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 63/80] fix: IMI with an unstable period keeps the window of
 its time period

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 52 +++++++++++++++-----------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 3f3b310..b381927 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -213,7 +213,7 @@
 		double upsum = .0, downsum = .0;
 		int i;
 
-		for (i = startIdx - lookback; i <= startIdx; i++) {
+		for (i = startIdx - (optInTimePeriod - 1); i <= startIdx; i++) {
 			double close = inClose[i];
 			double open = inOpen[i];
 
@@ -312,6 +312,8 @@
    /* insert local variable here */
 #define TA_IMI_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempClose, tempOpen;
+int needMore;
+size_t _old_idx;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -339,42 +341,36 @@ double tempClose, tempOpen;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-                if (NEED_MORE_DATA)
-        {
-
-
-            if (inClose > inOpen) {
-                STATE.upsum += (inClose - inOpen);
-            } else {
-                STATE.downsum += (inOpen - inClose);
-            }
-
-            PUSH_TO_MEM(inOpen,inOpen);
-            PUSH_TO_MEM(inClose,inClose);
-            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-        }
-
-
         if (inClose > inOpen) {
             STATE.upsum += (inClose - inOpen);
         } else {
             STATE.downsum += (inOpen - inClose);
         }
 
+        needMore = NEED_MORE_DATA;
+        if (!needMore)
+            VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
 
-         VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        /* Remove the bar that leaves the window; the memory may hold more than
+         * one window when there is an unstable period.
+         */
+        if (STATE.mem_index >= (size_t)STATE.optInTimePeriod) {
+            _old_idx = GET_LOCAL_IDX(MEM_SIZE - (STATE.optInTimePeriod - 1));
+            tempClose = MEM_IDX_NS(inClose,_old_idx);
+            tempOpen = MEM_IDX_NS(inOpen,_old_idx);
 
-         tempClose = POP_FROM_MEM(inClose);
-         tempOpen = POP_FROM_MEM(inOpen);
+            if (tempClose > tempOpen) {
+                STATE.upsum -= (tempClose - tempOpen);
+            } else {
+                STATE.downsum -= (tempOpen - tempClose);
+            }
+        }
 
-         if (tempClose > tempOpen) {
-             STATE.upsum -= (tempClose - tempOpen);
-         } else {
-             STATE.downsum -= (tempOpen - tempClose);
-         }
+        PUSH_TO_MEM(inOpen,inOpen);
+        PUSH_TO_MEM(inClose,inClose);
 
-         PUSH_TO_MEM(inOpen,inOpen);
-         PUSH_TO_MEM(inClose,inClose);
+        if (needMore)
+            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
         return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     }
@@ -688,7 +684,7 @@ double tempClose, tempOpen;
 /* Generated */    while (startIdx <= endIdx) {
 /* Generated */ 		double upsum = .0, downsum = .0;
 /* Generated */ 		int i;
-/* Generated */ 		for (i = startIdx - lookback; i <= startIdx; i++) {
+/* Generated */ 		for (i = startIdx - (optInTimePeriod - 1); i <= startIdx; i++) {
 /* Generated */ 			double close = inClose[i];
 /* Generated */ 			double open = inOpen[i];
 /* Generated */ 			if (close > open) {
-- 
2.43.0


From 4faa5c034d6c829d10ae59313b3ab55a97f3c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 64/80] fix: APO and PPO streams accept the Wilders average and
 order the periods after substituting defaults

---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index fd07571..f542204 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -493,13 +493,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
 
 
  #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -521,10 +514,18 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
-- 
2.43.0


From 3678d31d1ab71ed83cbc4e778f481be1f68a31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 65/80] fix: ATR and NATR streams refuse a missing handle

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c  | 3 +++
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index f25fd4c..c0d001b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -413,6 +413,9 @@ TA_RetCode retCode;
    /* insert local variable here */
 
 
+             if( _state == NULL )
+                return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+
              if( STATE.optInTimePeriod <= 1 )
              {
                 /* No smoothing needed. Just do a TRANGE. */
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index adb382b..4ce8464 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -436,6 +436,9 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+        if( _state == NULL )
+           return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+
         if( STATE.optInTimePeriod <= 1 )
         {
            /* No smoothing needed. Just do a TRANGE. */
-- 
2.43.0


From 4170cc86cd5add8446e3acb7faa553fdd4095be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 66/80] fix: CDLKICKING and CDLKICKINGBYLENGTH streams take the
 old long-body range off their totals, not the short-body range

---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c         | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index 172379a..846eb75 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -441,9 +441,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index d46eee4..bc1ecb8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -448,9 +448,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 464c4f9993322bd18c1a85ed4967331eb84e107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 67/80] fix: CDLSHOOTINGSTAR stream accumulates the short-body
 range its total is made of

---
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index 60fdff2..c4e5627 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -409,7 +409,7 @@ int i1;
 
         if ((int)STATE.mem_index-1 >= STATE.gapBody)
         {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
+          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
         if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-- 
2.43.0


From 9313f9233c8f4fbfa92390376978d98a961df7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 68/80] fix: a refused price setting leaves the parameters set
 before

---
 ta-lib-rt/c/src/ta_abstract/ta_abstract.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
index 67fffa9..03024a0 100644
--- a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
+++ b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
@@ -948,15 +948,29 @@ TA_RetCode TA_SetInputParamPricePtr( TA_ParamHolder     *param,
       return TA_INVALID_PARAM_HOLDER_TYPE;
    }
 
+   /* All the needed components must be provided, else nothing is changed. */
+   #define CHECK_PARAM_INFO(lowerParam,upperParam) \
+   { \
+      if( (paramInfo->flags & TA_IN_PRICE_##upperParam) && (lowerParam == NULL) ) \
+      { \
+         return TA_BAD_PARAM; \
+      } \
+   }
+
+   CHECK_PARAM_INFO(open, OPEN );
+   CHECK_PARAM_INFO(high, HIGH );
+   CHECK_PARAM_INFO(low, LOW );
+   CHECK_PARAM_INFO(close, CLOSE );
+   CHECK_PARAM_INFO(volume, VOLUME );
+   CHECK_PARAM_INFO(openInterest, OPENINTEREST );
+
+   #undef CHECK_PARAM_INFO
+
    /* keep a copy of the provided parameter. */
    #define SET_PARAM_INFO(lowerParam,upperParam) \
    { \
       if( paramInfo->flags & TA_IN_PRICE_##upperParam ) \
       { \
-         if( lowerParam == NULL ) \
-         { \
-            return TA_BAD_PARAM; \
-         } \
          paramHolderPriv->in[paramIndex].data.inPrice.lowerParam = lowerParam; \
       } \
    }
-- 
2.43.0


From 5b053f4fa536ac5ba5168def22ece74d81d171cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 69/80] fix: the textual description ends with a zero and
 carries the suggested ranges

The description was a character array without terminating zero, though it is
handed out as a string, and repeated the maximum of every integer option as its
suggested start, end and increment.
---
 .../templates/ta_func_api.c.template          |    2 +-
 .../c/src/tools/gen_code/print_funcs_xml.c    |    6 +-
 ta-lib-rt/ta_func_api.xml                     | 2400 ++++++++---------
 3 files changed, 1204 insertions(+), 1204 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_abstract/templates/ta_func_api.c.template b/ta-lib-rt/c/src/ta_abstract/templates/ta_func_api.c.template
index 1e55ac8..af601d0 100644
--- a/ta-lib-rt/c/src/ta_abstract/templates/ta_func_api.c.template
+++ b/ta-lib-rt/c/src/ta_abstract/templates/ta_func_api.c.template
@@ -43,7 +43,7 @@
 static const char TA_FunctionDescriptionXMLArray[] =
 {
 %%%GENCODE%%%
-};
+,0x00};
 
 const char *TA_FunctionDescriptionXML()
 {
diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index e4db2f3..43c67c9 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -186,9 +186,9 @@ void print_opt_input_arg(FILE *file, int indent, const TA_OptInputParameterInfo
         fprintf(file, "%.*s<Range>\n", indent+1, t);
         fprintf(file, "%.*s<Minimum>%d</Minimum>\n", indent+2, t, integerRange->min);
         fprintf(file, "%.*s<Maximum>%d</Maximum>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->max);
+        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->suggested_start);
+        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->suggested_end);
+        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->suggested_increment);
         fprintf(file, "%.*s</Range>\n", indent+1, t);
         fprintf(file, "%.*s<DefaultValue>%d</DefaultValue>\n", indent+1, t, (int)optInputInfo->defaultValue);
     }
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index eeec395..86f1c4b 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -62,9 +62,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -104,9 +104,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -161,9 +161,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -314,9 +314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -344,9 +344,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -1079,9 +1079,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1092,9 +1092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1138,9 +1138,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1151,9 +1151,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1194,9 +1194,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1207,9 +1207,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1340,9 +1340,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1353,9 +1353,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1383,9 +1383,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1396,9 +1396,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1490,9 +1490,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1532,9 +1532,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1575,9 +1575,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1700,9 +1700,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1730,9 +1730,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1796,9 +1796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1838,9 +1838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1881,9 +1881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2006,9 +2006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2036,9 +2036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2099,9 +2099,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2112,9 +2112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2152,9 +2152,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2165,9 +2165,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2214,9 +2214,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2227,9 +2227,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2342,9 +2342,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2355,9 +2355,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2391,9 +2391,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2404,9 +2404,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2485,9 +2485,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2523,9 +2523,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2573,9 +2573,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2704,9 +2704,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2734,9 +2734,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2809,9 +2809,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2847,9 +2847,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2890,9 +2890,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3007,9 +3007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3037,9 +3037,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3499,9 +3499,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3541,9 +3541,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3584,9 +3584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3709,9 +3709,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3739,9 +3739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4040,9 +4040,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4074,9 +4074,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4117,9 +4117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4226,9 +4226,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4256,9 +4256,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4318,9 +4318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4386,9 +4386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4477,9 +4477,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4648,9 +4648,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4712,9 +4712,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4837,9 +4837,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4875,9 +4875,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4918,9 +4918,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5035,9 +5035,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5065,9 +5065,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5372,9 +5372,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5414,9 +5414,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5457,9 +5457,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5582,9 +5582,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5612,9 +5612,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22797,9 +22797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22831,9 +22831,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22874,9 +22874,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22983,9 +22983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23013,9 +23013,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23088,9 +23088,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23126,9 +23126,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23169,9 +23169,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23286,9 +23286,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23316,9 +23316,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23762,9 +23762,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23796,9 +23796,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23839,9 +23839,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23948,9 +23948,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23978,9 +23978,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24276,9 +24276,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24318,9 +24318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24361,9 +24361,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24486,9 +24486,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24516,9 +24516,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24587,9 +24587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24621,9 +24621,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24664,9 +24664,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24773,9 +24773,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24803,9 +24803,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27054,9 +27054,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27092,9 +27092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27135,9 +27135,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27252,9 +27252,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27282,9 +27282,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27353,9 +27353,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27387,9 +27387,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27430,9 +27430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27539,9 +27539,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27569,9 +27569,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27643,9 +27643,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27677,9 +27677,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27720,9 +27720,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27829,9 +27829,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27859,9 +27859,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27930,9 +27930,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27964,9 +27964,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28007,9 +28007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28116,9 +28116,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28146,9 +28146,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28220,9 +28220,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28254,9 +28254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28297,9 +28297,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28406,9 +28406,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28436,9 +28436,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28507,9 +28507,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28541,9 +28541,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28584,9 +28584,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28693,9 +28693,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28723,9 +28723,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -29165,9 +29165,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29205,9 +29205,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29254,9 +29254,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29369,9 +29369,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29405,9 +29405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29478,9 +29478,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29491,9 +29491,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29504,9 +29504,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29538,9 +29538,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29551,9 +29551,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29564,9 +29564,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29621,9 +29621,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29634,9 +29634,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29647,9 +29647,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29784,9 +29784,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29797,9 +29797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29810,9 +29810,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29840,9 +29840,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29853,9 +29853,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29866,9 +29866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29933,9 +29933,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29952,9 +29952,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29971,9 +29971,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30011,9 +30011,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30030,9 +30030,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30049,9 +30049,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30112,9 +30112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30131,9 +30131,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30150,9 +30150,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30293,9 +30293,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30312,9 +30312,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30331,9 +30331,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30367,9 +30367,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30386,9 +30386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30405,9 +30405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30462,9 +30462,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30496,9 +30496,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30553,9 +30553,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30690,9 +30690,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30720,9 +30720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -31241,9 +31241,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31254,9 +31254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31298,9 +31298,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31311,9 +31311,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31360,9 +31360,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31373,9 +31373,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31496,9 +31496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31509,9 +31509,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31545,9 +31545,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31558,9 +31558,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31626,9 +31626,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31660,9 +31660,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31703,9 +31703,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31812,9 +31812,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31842,9 +31842,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31901,9 +31901,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31935,9 +31935,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31978,9 +31978,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32087,9 +32087,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32117,9 +32117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32410,9 +32410,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32456,9 +32456,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32499,9 +32499,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32632,9 +32632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32662,9 +32662,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32716,9 +32716,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32750,9 +32750,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32793,9 +32793,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32902,9 +32902,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32932,9 +32932,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32990,9 +32990,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33028,9 +33028,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33071,9 +33071,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33188,9 +33188,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33218,9 +33218,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33280,9 +33280,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33314,9 +33314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33357,9 +33357,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33466,9 +33466,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33496,9 +33496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33555,9 +33555,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33589,9 +33589,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33632,9 +33632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33741,9 +33741,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33771,9 +33771,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33841,9 +33841,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33875,9 +33875,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33925,9 +33925,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34048,9 +34048,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34078,9 +34078,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34145,9 +34145,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34179,9 +34179,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34229,9 +34229,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34352,9 +34352,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34382,9 +34382,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34464,9 +34464,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34506,9 +34506,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34549,9 +34549,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34674,9 +34674,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34704,9 +34704,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34774,9 +34774,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34812,9 +34812,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34855,9 +34855,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34972,9 +34972,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35002,9 +35002,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35053,9 +35053,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35087,9 +35087,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35130,9 +35130,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35239,9 +35239,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35269,9 +35269,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35555,9 +35555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35597,9 +35597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35640,9 +35640,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35765,9 +35765,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35795,9 +35795,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36305,9 +36305,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36347,9 +36347,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36390,9 +36390,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36515,9 +36515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36545,9 +36545,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36615,9 +36615,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36653,9 +36653,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36696,9 +36696,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36813,9 +36813,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36843,9 +36843,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36894,9 +36894,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36907,9 +36907,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -36947,9 +36947,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36960,9 +36960,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37009,9 +37009,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37022,9 +37022,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37137,9 +37137,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37150,9 +37150,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37186,9 +37186,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37199,9 +37199,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37680,9 +37680,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37714,9 +37714,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37757,9 +37757,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37866,9 +37866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37896,9 +37896,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37947,9 +37947,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37981,9 +37981,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38024,9 +38024,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38133,9 +38133,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38163,9 +38163,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38214,9 +38214,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38248,9 +38248,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38291,9 +38291,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38400,9 +38400,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38430,9 +38430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38481,9 +38481,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38515,9 +38515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38558,9 +38558,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38667,9 +38667,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38697,9 +38697,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38767,9 +38767,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38801,9 +38801,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38844,9 +38844,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38953,9 +38953,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38983,9 +38983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -40643,9 +40643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40677,9 +40677,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40720,9 +40720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40829,9 +40829,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40859,9 +40859,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -41106,9 +41106,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41154,9 +41154,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41211,9 +41211,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41334,9 +41334,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41378,9 +41378,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41475,9 +41475,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41488,9 +41488,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41507,9 +41507,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41555,9 +41555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41568,9 +41568,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41587,9 +41587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41643,9 +41643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41656,9 +41656,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41675,9 +41675,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41820,9 +41820,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41833,9 +41833,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41852,9 +41852,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41888,9 +41888,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41901,9 +41901,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41920,9 +41920,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42005,9 +42005,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42018,9 +42018,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42066,9 +42066,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42079,9 +42079,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42135,9 +42135,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42148,9 +42148,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42293,9 +42293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42306,9 +42306,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42342,9 +42342,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42355,9 +42355,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42423,9 +42423,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42436,9 +42436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42449,9 +42449,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42489,9 +42489,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42502,9 +42502,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42515,9 +42515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42571,9 +42571,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42584,9 +42584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42597,9 +42597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42726,9 +42726,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42739,9 +42739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42752,9 +42752,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42788,9 +42788,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42801,9 +42801,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42814,9 +42814,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -43083,9 +43083,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43117,9 +43117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43160,9 +43160,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43269,9 +43269,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43299,9 +43299,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43410,9 +43410,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43458,9 +43458,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43515,9 +43515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43638,9 +43638,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43682,9 +43682,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -44146,9 +44146,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44180,9 +44180,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44223,9 +44223,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44332,9 +44332,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44362,9 +44362,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44660,9 +44660,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44694,9 +44694,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44737,9 +44737,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44846,9 +44846,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44876,9 +44876,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44943,9 +44943,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44977,9 +44977,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45020,9 +45020,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45129,9 +45129,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45159,9 +45159,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45233,9 +45233,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45267,9 +45267,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45310,9 +45310,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45419,9 +45419,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45449,9 +45449,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45779,9 +45779,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45792,9 +45792,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45805,9 +45805,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45847,9 +45847,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45860,9 +45860,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45873,9 +45873,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45916,9 +45916,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45929,9 +45929,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45942,9 +45942,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46067,9 +46067,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46080,9 +46080,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46093,9 +46093,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46123,9 +46123,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46136,9 +46136,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46149,9 +46149,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46208,9 +46208,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46256,9 +46256,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46313,9 +46313,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46436,9 +46436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46480,9 +46480,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46796,9 +46796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46838,9 +46838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46881,9 +46881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47006,9 +47006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47036,9 +47036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47107,9 +47107,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47141,9 +47141,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47184,9 +47184,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47293,9 +47293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47323,9 +47323,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47389,9 +47389,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47423,9 +47423,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47466,9 +47466,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47575,9 +47575,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47605,9 +47605,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
-- 
2.43.0


From ed0ff0f6e57346308fddb703d22b079e07d569f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 70/80] fix: the textual description gives price inputs and
 stream save/load their real arguments

---
 .../c/src/tools/gen_code/print_funcs_xml.c    |   15 +-
 ta-lib-rt/ta_func_api.xml                     | 6148 ++++-------------
 2 files changed, 1483 insertions(+), 4680 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index 43c67c9..2ead997 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -22,49 +22,49 @@ void print_input_arg(FILE *file, int indent, const TA_InputParameterInfo *inputI
         if(inputInfo->flags & TA_IN_PRICE_OPEN)
         {
             fprintf(file, "%.*s<%s>\n",  indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n", indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n", indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Open</Name>\n",   indent+2, t);
             fprintf(file, "%.*s</%s>\n", indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_HIGH)
         {
             fprintf(file, "%.*s<%s>\n",  indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n", indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n", indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>High</Name>\n",   indent+2, t);
             fprintf(file, "%.*s</%s>\n", indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_LOW)
         {
             fprintf(file, "%.*s<%s>\n",  indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n", indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n", indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Low</Name>\n",    indent+2, t);
             fprintf(file, "%.*s</%s>\n", indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_CLOSE)
         {
             fprintf(file, "%.*s<%s>\n",  indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n", indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n", indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Close</Name>\n",  indent+2, t);
             fprintf(file, "%.*s</%s>\n", indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_VOLUME)
         {
             fprintf(file, "%.*s<%s>\n",  indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n", indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n", indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Volume</Name>\n", indent+2, t);
             fprintf(file, "%.*s</%s>\n", indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_OPENINTEREST)
         {
             fprintf(file, "%.*s<%s>\n",          indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Double</Type>\n",         indent+2, t);
+            fprintf(file, "%.*s<Type>Double%s</Type>\n",         indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Open Interest</Name>\n",  indent+2, t);
             fprintf(file, "%.*s</%s>\n",         indent+1, t, field_name);
         }
         if(inputInfo->flags & TA_IN_PRICE_TIMESTAMP)
         {
             fprintf(file, "%.*s<%s>\n",      indent+1, t, field_name);
-            fprintf(file, "%.*s<Type>Long</Type>\n",       indent+2, t);
+            fprintf(file, "%.*s<Type>Long%s</Type>\n",       indent+2, t, is_array ? " Array" : "");
             fprintf(file, "%.*s<Name>Timestamp</Name>\n",  indent+2, t);
             fprintf(file, "%.*s</%s>\n",     indent+1, t, field_name);
         }
@@ -479,7 +479,6 @@ void print_state_save_or_load_function(FILE *file, int indent, const struct TA_F
 
     fprintf(file, "%.*s</SpecialInputArguments>\n", indent+1, t);
 
-    print_arguments_input_optional(file, indent+1, funcInfo);
 
     fprintf(file, "%.*s</Function>\n", indent, t);
 }
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index 86f1c4b..706ba04 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -84,15 +84,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -237,15 +237,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -306,21 +306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ACCBANDS_StateSave</Name>
@@ -336,21 +321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -610,19 +580,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -713,19 +683,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -1114,224 +1084,22 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Volume</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
 						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_ADOSC_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_ADOSC_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Volume</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_ADOSC_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_ADOSC_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_ADOSC_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Fast Period</Name>
@@ -1360,20 +1128,33 @@
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ADOSC_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_ADOSC_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -1404,6 +1185,139 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_ADOSC_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Low</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Volume</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ADOSC_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Low</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Volume</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ADOSC_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ADOSC_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ADOSC_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -1512,15 +1426,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -1637,15 +1551,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -1692,21 +1606,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADX_StateSave</Name>
@@ -1722,21 +1621,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1818,15 +1702,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -1943,15 +1827,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -1998,21 +1882,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADXR_StateSave</Name>
@@ -2028,21 +1897,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2334,40 +2188,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_APO_StateSave</Name>
@@ -2383,40 +2203,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2507,11 +2293,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -2638,11 +2424,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -2696,21 +2482,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROON_StateSave</Name>
@@ -2726,21 +2497,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2831,11 +2587,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -2948,11 +2704,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -2999,21 +2755,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROONOSC_StateSave</Name>
@@ -3029,21 +2770,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -3521,15 +3247,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -3646,15 +3372,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -3701,21 +3427,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ATR_StateSave</Name>
@@ -3731,21 +3442,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -3812,19 +3508,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -3915,19 +3611,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -4218,21 +3914,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AVGDEV_StateSave</Name>
@@ -4248,21 +3929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -4640,55 +4306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BBANDS_StateSave</Name>
@@ -4704,55 +4321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5027,21 +4595,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BETA_StateSave</Name>
@@ -5057,21 +4610,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5135,19 +4673,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5238,19 +4776,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5394,15 +4932,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5519,15 +5057,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5574,21 +5112,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CCI_StateSave</Name>
@@ -5604,21 +5127,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5689,19 +5197,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5792,19 +5300,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -5948,19 +5456,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6051,19 +5559,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6207,19 +5715,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6310,19 +5818,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6462,19 +5970,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6565,19 +6073,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6705,19 +6213,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -6808,19 +6316,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7000,19 +6508,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7103,19 +6611,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7307,19 +6815,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7410,19 +6918,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7602,19 +7110,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7737,19 +7245,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -7796,22 +7304,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLABANDONEDBABY_StateSave</Name>
@@ -7827,22 +7319,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -7989,19 +7465,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8092,19 +7568,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8256,19 +7732,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8359,19 +7835,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8503,19 +7979,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8606,19 +8082,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8770,19 +8246,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -8873,19 +8349,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9029,19 +8505,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9132,19 +8608,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9300,19 +8776,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9403,19 +8879,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9567,19 +9043,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9702,19 +9178,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9761,22 +9237,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLDARKCLOUDCOVER_StateSave</Name>
@@ -9792,22 +9252,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -9878,19 +9322,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -9981,19 +9425,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10145,19 +9589,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10248,19 +9692,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10412,19 +9856,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10515,19 +9959,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10655,19 +10099,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10758,19 +10202,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -10950,19 +10394,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11085,19 +10529,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11144,22 +10588,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGDOJISTAR_StateSave</Name>
@@ -11175,22 +10603,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11301,19 +10713,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11436,19 +10848,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11495,22 +10907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGSTAR_StateSave</Name>
@@ -11526,22 +10922,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11624,19 +11004,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11727,19 +11107,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11891,19 +11271,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -11994,19 +11374,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12182,19 +11562,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12285,19 +11665,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12473,19 +11853,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12576,19 +11956,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12740,19 +12120,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -12843,19 +12223,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13007,19 +12387,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13110,19 +12490,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13266,19 +12646,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13369,19 +12749,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13525,19 +12905,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13628,19 +13008,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13796,19 +13176,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -13899,19 +13279,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14063,19 +13443,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14166,19 +13546,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14342,19 +13722,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14445,19 +13825,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14609,19 +13989,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14712,19 +14092,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14888,19 +14268,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -14991,19 +14371,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15163,19 +14543,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15266,19 +14646,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15438,19 +14818,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15541,19 +14921,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15693,19 +15073,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15796,19 +15176,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -15960,19 +15340,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16063,19 +15443,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16227,19 +15607,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16330,19 +15710,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16494,19 +15874,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16597,19 +15977,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16749,19 +16129,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -16852,19 +16232,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17040,19 +16420,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17175,19 +16555,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17234,22 +16614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMATHOLD_StateSave</Name>
@@ -17265,22 +16629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17399,19 +16747,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17534,19 +16882,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17593,22 +16941,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGDOJISTAR_StateSave</Name>
@@ -17624,22 +16956,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17750,19 +17066,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17885,19 +17201,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -17944,22 +17260,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGSTAR_StateSave</Name>
@@ -17975,22 +17275,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -18081,19 +17365,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18184,19 +17468,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18340,19 +17624,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18443,19 +17727,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18619,19 +17903,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18722,19 +18006,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -18898,19 +18182,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19001,19 +18285,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19177,19 +18461,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19280,19 +18564,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19456,19 +18740,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19559,19 +18843,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19723,19 +19007,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19826,19 +19110,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -19978,19 +19262,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20081,19 +19365,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20277,19 +19561,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20380,19 +19664,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20532,19 +19816,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20635,19 +19919,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20811,19 +20095,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -20914,19 +20198,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21066,19 +20350,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21169,19 +20453,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21333,19 +20617,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21436,19 +20720,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21588,19 +20872,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21691,19 +20975,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21855,19 +21139,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -21958,19 +21242,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -22122,19 +21406,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -22225,19 +21509,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -22365,19 +21649,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -22468,19 +21752,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -22975,21 +22259,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CMO_StateSave</Name>
@@ -23005,21 +22274,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23278,21 +22532,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CORREL_StateSave</Name>
@@ -23308,21 +22547,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23940,21 +23164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DEMA_StateSave</Name>
@@ -23970,21 +23179,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24298,15 +23492,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -24423,15 +23617,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -24478,21 +23672,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DX_StateSave</Name>
@@ -24508,21 +23687,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24765,21 +23929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_EMA_StateSave</Name>
@@ -24795,21 +23944,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -27076,11 +26210,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -27193,11 +26327,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Open</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -27244,21 +26378,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_IMI_StateSave</Name>
@@ -27274,21 +26393,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -27531,21 +26635,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_KAMA_StateSave</Name>
@@ -27561,21 +26650,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -27821,21 +26895,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_LINEARREG_StateSave</Name>
@@ -27851,21 +26910,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -28108,21 +27152,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_LINEARREG_ANGLE_StateSave</Name>
@@ -28138,21 +27167,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -28398,21 +27412,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_LINEARREG_INTERCEPT_StateSave</Name>
@@ -28428,21 +27427,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -28685,21 +27669,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_LINEARREG_SLOPE_StateSave</Name>
@@ -28715,21 +27684,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -29361,27 +28315,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MA_StateSave</Name>
@@ -29397,27 +28330,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -29776,47 +28688,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACD_StateSave</Name>
@@ -29832,47 +28703,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30285,65 +29115,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDEXT_StateSave</Name>
@@ -30359,65 +29130,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30682,21 +29394,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDFIX_StateSave</Name>
@@ -30712,21 +29409,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31111,36 +29793,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAMA_StateSave</Name>
@@ -31156,36 +29808,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31488,40 +30110,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAVP_StateSave</Name>
@@ -31537,40 +30125,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31804,21 +30358,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAX_StateSave</Name>
@@ -31834,21 +30373,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -32079,21 +30603,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAXINDEX_StateSave</Name>
@@ -32109,21 +30618,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -32182,11 +30676,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -32269,11 +30763,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -32432,19 +30926,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -32565,19 +31059,19 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -32624,21 +31118,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MFI_StateSave</Name>
@@ -32654,21 +31133,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -32894,21 +31358,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPOINT_StateSave</Name>
@@ -32924,21 +31373,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33012,11 +31446,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -33129,11 +31563,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -33180,21 +31614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPRICE_StateSave</Name>
@@ -33210,21 +31629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33458,21 +31862,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIN_StateSave</Name>
@@ -33488,21 +31877,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33733,21 +32107,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MININDEX_StateSave</Name>
@@ -33763,21 +32122,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34040,21 +32384,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAX_StateSave</Name>
@@ -34070,21 +32399,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34344,21 +32658,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAXINDEX_StateSave</Name>
@@ -34374,21 +32673,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34486,15 +32770,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -34611,15 +32895,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -34666,21 +32950,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DI_StateSave</Name>
@@ -34696,21 +32965,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34796,11 +33050,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -34913,11 +33167,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -34964,21 +33218,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DM_StateSave</Name>
@@ -34994,21 +33233,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35231,21 +33455,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MOM_StateSave</Name>
@@ -35261,21 +33470,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35577,15 +33771,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -35702,15 +33896,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -35757,21 +33951,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_NATR_StateSave</Name>
@@ -35787,21 +33966,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35861,11 +34025,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -35948,11 +34112,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -36077,11 +34241,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -36164,11 +34328,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -36327,15 +34491,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -36452,15 +34616,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -36507,21 +34671,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_PLUS_DI_StateSave</Name>
@@ -36537,21 +34686,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -36637,174 +34771,14 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
 						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
@@ -36820,159 +34794,6 @@
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PLUS_DM_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- PPO -->
-	<FinancialFunctionGroup>
-		<Abbreviation>PPO</Abbreviation>
-		<CamelCaseName>Ppo</CamelCaseName>
-		<ShortDescription>Percentage Price Oscillator</ShortDescription>
-		<GroupId>Momentum Indicators</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>inReal</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_PPO_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 				<OutputArguments>
 					<OutputArgument>
 						<Type>Pointer to Integer</Type>
@@ -36992,7 +34813,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_StateInit</Name>
+				<Name>TA_PLUS_DM_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37003,41 +34824,22 @@
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>2</Minimum>
+							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
+							<SuggestedStart>1</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_State</Name>
+				<Name>TA_PLUS_DM_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37049,7 +34851,11 @@
 				<RequiredInputArguments>
 					<RequiredInputArgument>
 						<Type>Double</Type>
-						<Name>inReal</Name>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37063,7 +34869,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_BatchState</Name>
+				<Name>TA_PLUS_DM_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37083,7 +34889,11 @@
 					</RequiredInputArgument>
 					<RequiredInputArgument>
 						<Type>Double Array</Type>
-						<Name>inReal</Name>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37105,7 +34915,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_StateFree</Name>
+				<Name>TA_PLUS_DM_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37116,7 +34926,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_StateLoad</Name>
+				<Name>TA_PLUS_DM_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37129,6 +34939,57 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PLUS_DM_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- PPO -->
+	<FinancialFunctionGroup>
+		<Abbreviation>PPO</Abbreviation>
+		<CamelCaseName>Ppo</CamelCaseName>
+		<ShortDescription>Percentage Price Oscillator</ShortDescription>
+		<GroupId>Momentum Indicators</GroupId>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_PPO_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Fast Period</Name>
@@ -37165,19 +35026,23 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PPO_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_PPO</Name>
+				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Fast Period</Name>
@@ -37212,73 +35077,6 @@
 						<DefaultValue>0</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- PVI -->
-	<FinancialFunctionGroup>
-		<Abbreviation>PVI</Abbreviation>
-		<CamelCaseName>Pvi</CamelCaseName>
-		<ShortDescription>Positive Volume Index</ShortDescription>
-		<GroupId>Volume Indicators</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>Close</Name>
-			</StateMemoryField>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>Volume</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>prevPVI</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_PVI_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-			</Function>
-			<Function>
-				<Name>TA_PVI</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Volume</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
 				<OutputArguments>
 					<OutputArgument>
 						<Type>Pointer to Integer</Type>
@@ -37298,7 +35096,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_StateInit</Name>
+				<Name>TA_PPO_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37307,9 +35105,43 @@
 						<Name>state</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Fast Period</Name>
+						<ShortDescription>Number of period for the fast MA</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>2</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>12</DefaultValue>
+					</OptionalInputArgument>
+					<OptionalInputArgument>
+						<Name>Slow Period</Name>
+						<ShortDescription>Number of period for the slow MA</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>2</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>26</DefaultValue>
+					</OptionalInputArgument>
+					<OptionalInputArgument>
+						<Name>MA Type</Name>
+						<ShortDescription>Type of Moving Average</ShortDescription>
+						<Type>MA Type</Type>
+						<DefaultValue>0</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_State</Name>
+				<Name>TA_PPO_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37321,11 +35153,7 @@
 				<RequiredInputArguments>
 					<RequiredInputArgument>
 						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Volume</Name>
+						<Name>inReal</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37339,7 +35167,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_BatchState</Name>
+				<Name>TA_PPO_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37358,12 +35186,8 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Volume</Name>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37385,7 +35209,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_StateFree</Name>
+				<Name>TA_PPO_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37396,7 +35220,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_StateLoad</Name>
+				<Name>TA_PPO_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37411,7 +35235,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVI_StateSave</Name>
+				<Name>TA_PPO_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37429,11 +35253,11 @@
 	</FinancialFunctionGroup>
 
 
-	<!-- PVT -->
+	<!-- PVI -->
 	<FinancialFunctionGroup>
-		<Abbreviation>PVT</Abbreviation>
-		<CamelCaseName>Pvt</CamelCaseName>
-		<ShortDescription>Price Volume Trend</ShortDescription>
+		<Abbreviation>PVI</Abbreviation>
+		<CamelCaseName>Pvi</CamelCaseName>
+		<ShortDescription>Positive Volume Index</ShortDescription>
 		<GroupId>Volume Indicators</GroupId>
 		<StateMemory>
 			<StateMemoryField>
@@ -37460,17 +35284,17 @@
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>prevPVT</Name>
+				<Name>prevPVI</Name>
 			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_PVT_Lookback</Name>
+				<Name>TA_PVI_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 			</Function>
 			<Function>
-				<Name>TA_PVT</Name>
+				<Name>TA_PVI</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -37483,11 +35307,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -37510,7 +35334,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_StateInit</Name>
+				<Name>TA_PVI_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37521,7 +35345,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_State</Name>
+				<Name>TA_PVI_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37551,7 +35375,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_BatchState</Name>
+				<Name>TA_PVI_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37570,11 +35394,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -37597,7 +35421,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_StateFree</Name>
+				<Name>TA_PVI_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37608,7 +35432,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_StateLoad</Name>
+				<Name>TA_PVI_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37623,7 +35447,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_PVT_StateSave</Name>
+				<Name>TA_PVI_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37641,16 +35465,20 @@
 	</FinancialFunctionGroup>
 
 
-	<!-- ROC -->
+	<!-- PVT -->
 	<FinancialFunctionGroup>
-		<Abbreviation>ROC</Abbreviation>
-		<CamelCaseName>Roc</CamelCaseName>
-		<ShortDescription>Rate of change : ((price/prevPrice)-1)*100</ShortDescription>
-		<GroupId>Momentum Indicators</GroupId>
+		<Abbreviation>PVT</Abbreviation>
+		<CamelCaseName>Pvt</CamelCaseName>
+		<ShortDescription>Price Volume Trend</ShortDescription>
+		<GroupId>Volume Indicators</GroupId>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
-				<Name>inReal</Name>
+				<Name>Close</Name>
+			</StateMemoryField>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>Volume</Name>
 			</StateMemoryField>
 		</StateMemory>
 		<State>
@@ -37666,30 +35494,19 @@
 				<Type>Pointer</Type>
 				<Name>memory</Name>
 			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>prevPVT</Name>
+			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_ROC_Lookback</Name>
+				<Name>TA_PVT_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC</Name>
+				<Name>TA_PVT</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -37703,24 +35520,13 @@
 					</RequiredInputArgument>
 					<RequiredInputArgument>
 						<Type>Double Array</Type>
-						<Name>inReal</Name>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 				<OutputArguments>
 					<OutputArgument>
 						<Type>Pointer to Integer</Type>
@@ -37740,7 +35546,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_StateInit</Name>
+				<Name>TA_PVT_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37749,24 +35555,9 @@
 						<Name>state</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_State</Name>
+				<Name>TA_PVT_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37778,7 +35569,11 @@
 				<RequiredInputArguments>
 					<RequiredInputArgument>
 						<Type>Double</Type>
-						<Name>inReal</Name>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37792,7 +35587,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_BatchState</Name>
+				<Name>TA_PVT_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37812,7 +35607,11 @@
 					</RequiredInputArgument>
 					<RequiredInputArgument>
 						<Type>Double Array</Type>
-						<Name>inReal</Name>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Volume</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
 				<OutputArguments>
@@ -37834,7 +35633,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_StateFree</Name>
+				<Name>TA_PVT_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37845,7 +35644,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_StateLoad</Name>
+				<Name>TA_PVT_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37858,24 +35657,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROC_StateSave</Name>
+				<Name>TA_PVT_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -37888,31 +35672,16 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- ROCP -->
+	<!-- ROC -->
 	<FinancialFunctionGroup>
-		<Abbreviation>ROCP</Abbreviation>
-		<CamelCaseName>RocP</CamelCaseName>
-		<ShortDescription>Rate of change Percentage: (price-prevPrice)/prevPrice</ShortDescription>
+		<Abbreviation>ROC</Abbreviation>
+		<CamelCaseName>Roc</CamelCaseName>
+		<ShortDescription>Rate of change : ((price/prevPrice)-1)*100</ShortDescription>
 		<GroupId>Momentum Indicators</GroupId>
 		<StateMemory>
 			<StateMemoryField>
@@ -37936,7 +35705,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_ROCP_Lookback</Name>
+				<Name>TA_ROC_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -37956,7 +35725,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP</Name>
+				<Name>TA_ROC</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -38007,7 +35776,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_StateInit</Name>
+				<Name>TA_ROC_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38033,7 +35802,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_State</Name>
+				<Name>TA_ROC_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38059,7 +35828,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_BatchState</Name>
+				<Name>TA_ROC_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38101,7 +35870,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_StateFree</Name>
+				<Name>TA_ROC_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38112,7 +35881,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_StateLoad</Name>
+				<Name>TA_ROC_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38125,24 +35894,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCP_StateSave</Name>
+				<Name>TA_ROC_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38155,31 +35909,16 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- ROCR -->
+	<!-- ROCP -->
 	<FinancialFunctionGroup>
-		<Abbreviation>ROCR</Abbreviation>
-		<CamelCaseName>RocR</CamelCaseName>
-		<ShortDescription>Rate of change ratio: (price/prevPrice)</ShortDescription>
+		<Abbreviation>ROCP</Abbreviation>
+		<CamelCaseName>RocP</CamelCaseName>
+		<ShortDescription>Rate of change Percentage: (price-prevPrice)/prevPrice</ShortDescription>
 		<GroupId>Momentum Indicators</GroupId>
 		<StateMemory>
 			<StateMemoryField>
@@ -38203,7 +35942,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_ROCR_Lookback</Name>
+				<Name>TA_ROCP_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -38223,7 +35962,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR</Name>
+				<Name>TA_ROCP</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -38274,7 +36013,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_StateInit</Name>
+				<Name>TA_ROCP_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38300,7 +36039,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_State</Name>
+				<Name>TA_ROCP_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38326,7 +36065,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_BatchState</Name>
+				<Name>TA_ROCP_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38368,7 +36107,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_StateFree</Name>
+				<Name>TA_ROCP_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38379,7 +36118,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_StateLoad</Name>
+				<Name>TA_ROCP_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38392,24 +36131,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR_StateSave</Name>
+				<Name>TA_ROCP_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38422,31 +36146,16 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- ROCR100 -->
+	<!-- ROCR -->
 	<FinancialFunctionGroup>
-		<Abbreviation>ROCR100</Abbreviation>
-		<CamelCaseName>RocR100</CamelCaseName>
-		<ShortDescription>Rate of change ratio 100 scale: (price/prevPrice)*100</ShortDescription>
+		<Abbreviation>ROCR</Abbreviation>
+		<CamelCaseName>RocR</CamelCaseName>
+		<ShortDescription>Rate of change ratio: (price/prevPrice)</ShortDescription>
 		<GroupId>Momentum Indicators</GroupId>
 		<StateMemory>
 			<StateMemoryField>
@@ -38470,7 +36179,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_ROCR100_Lookback</Name>
+				<Name>TA_ROCR_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -38490,7 +36199,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100</Name>
+				<Name>TA_ROCR</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -38541,7 +36250,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_StateInit</Name>
+				<Name>TA_ROCR_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38567,7 +36276,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_State</Name>
+				<Name>TA_ROCR_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38593,7 +36302,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_BatchState</Name>
+				<Name>TA_ROCR_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38635,7 +36344,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_StateFree</Name>
+				<Name>TA_ROCR_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38646,7 +36355,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_StateLoad</Name>
+				<Name>TA_ROCR_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -38659,6 +36368,57 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- ROCR100 -->
+	<FinancialFunctionGroup>
+		<Abbreviation>ROCR100</Abbreviation>
+		<CamelCaseName>RocR100</CamelCaseName>
+		<ShortDescription>Rate of change ratio 100 scale: (price/prevPrice)*100</ShortDescription>
+		<GroupId>Momentum Indicators</GroupId>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_ROCR100_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
@@ -38676,18 +36436,65 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_ROCR100_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_ROCR100</Name>
+				<Type>Regular</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>1</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>10</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR100_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -38705,6 +36512,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_ROCR100_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR100_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR100_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR100_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_ROCR100_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -38945,21 +36861,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_RSI_StateSave</Name>
@@ -38975,21 +36876,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39114,11 +37000,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -39261,11 +37147,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -39312,36 +37198,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAR_StateSave</Name>
@@ -39357,36 +37213,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39599,11 +37425,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -39914,11 +37740,11 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -39965,120 +37791,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAREXT_StateSave</Name>
@@ -40094,120 +37806,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -40821,21 +38419,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SMA_StateSave</Name>
@@ -40851,21 +38434,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41326,35 +38894,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STDDEV_StateSave</Name>
@@ -41370,35 +38909,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41535,15 +39045,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -41690,183 +39200,130 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_STOCH_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outSlowK</Name>
-						<Flags>
-							<Flag>Dashed Line</Flag>
-						</Flags>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outSlowD</Name>
-						<Flags>
-							<Flag>Dashed Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_STOCH_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>High</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Low</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>Close</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outSlowK</Name>
-						<Flags>
-							<Flag>Dashed Line</Flag>
-						</Flags>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outSlowD</Name>
-						<Flags>
-							<Flag>Dashed Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_STOCH_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_STOCH_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
+				<Name>TA_STOCH_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Low</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outSlowK</Name>
+						<Flags>
+							<Flag>Dashed Line</Flag>
+						</Flags>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outSlowD</Name>
+						<Flags>
+							<Flag>Dashed Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_STOCH_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>High</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Low</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>Close</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outSlowK</Name>
+						<Flags>
+							<Flag>Dashed Line</Flag>
+						</Flags>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outSlowD</Name>
+						<Flags>
+							<Flag>Dashed Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_STOCH_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_STOCH_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
 				<Name>TA_STOCH_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
@@ -41880,59 +39337,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42046,15 +39450,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -42223,15 +39627,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -42285,40 +39689,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHF_StateSave</Name>
@@ -42334,40 +39704,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42718,53 +40054,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHRSI_StateSave</Name>
@@ -42780,53 +40069,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43261,21 +40503,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SUM_StateSave</Name>
@@ -43291,21 +40518,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43537,173 +40749,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
-			<Function>
-				<Name>TA_T3_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_T3_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_T3_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_T3_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_T3_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
+			<Function>
+				<Name>TA_T3_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_T3_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_T3_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_T3_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_T3_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -44324,21 +41478,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TEMA_StateSave</Name>
@@ -44354,21 +41493,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -44428,15 +41552,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -44523,15 +41647,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -44838,21 +41962,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIMA_StateSave</Name>
@@ -44868,21 +41977,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45121,21 +42215,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIX_StateSave</Name>
@@ -45151,21 +42230,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45411,21 +42475,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TSF_StateSave</Name>
@@ -45441,21 +42490,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45518,15 +42552,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -45613,15 +42647,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -45827,15 +42861,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46004,15 +43038,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46059,47 +43093,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ULTOSC_StateSave</Name>
@@ -46115,47 +43108,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46428,35 +43380,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_VAR_StateSave</Name>
@@ -46472,35 +43395,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46563,15 +43457,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46658,15 +43552,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46818,15 +43712,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46943,15 +43837,15 @@
 						<Name>endIdx</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>High</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Low</Name>
 					</RequiredInputArgument>
 					<RequiredInputArgument>
-						<Type>Double</Type>
+						<Type>Double Array</Type>
 						<Name>Close</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
@@ -46998,21 +43892,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WILLR_StateSave</Name>
@@ -47028,21 +43907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47285,21 +44149,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WLMA_StateSave</Name>
@@ -47315,21 +44164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47567,21 +44401,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WMA_StateSave</Name>
@@ -47597,21 +44416,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
-- 
2.43.0


From 110401e5f21dc987914ea027de1d495cfe23a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 71/80] fix: BBANDS starts where both the moving average and
 the standard deviation have enough data

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 52 ++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index bee1894..5e8eec2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -129,11 +129,18 @@
 /**** END GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 
    /* insert lookback code here. */
+   int maLookback, stddevLookback;
+
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * its lookback does not depend on the period (MAMA) and the standard
+    * deviation needs more.
+    */
+   maLookback     = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   stddevLookback = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+   return max( maLookback, stddevLookback );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -213,7 +220,7 @@
 {
    /* Insert local variables here. */
    ENUM_DECLARATION(RetCode) retCode;
-   int i;
+   int i, lookbackTotal;
    double tempReal, tempReal2;
    ARRAY_REF(tempBuffer1);
    ARRAY_REF(tempBuffer2);
@@ -311,6 +318,22 @@
    #endif
 
 
+   /* The moving average and the standard deviation must start at the
+    * same bar: the first one for which both have enough data.
+    */
+   lookbackTotal = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp,
+                                          optInNbDevDn, optInMAType );
+
+   if( startIdx < lookbackTotal )
+      startIdx = lookbackTotal;
+
+   if( startIdx > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    /* Calculate the middle band, which is a moving average.
     * The other two bands will simply add/substract the
     * standard deviation from this middle band.
@@ -537,6 +560,7 @@
 {
    /* insert local variable here */
   ENUM_DECLARATION(RetCode) retCode, retCode2;
+  int maDelay;
   double tempReal, tempReal2;
   #define TA_BBANDS_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
@@ -571,7 +595,15 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-   retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
+   /* The moving average starts later when it needs less data than the
+    * standard deviation. So both have their first value at the same bar.
+    */
+   maDelay = LOOKBACK_CALL(STDDEV)( STATE.optInTimePeriod, 1.0 ) -
+             LOOKBACK_CALL(MA)( STATE.optInTimePeriod, STATE.optInMAType );
+
+   retCode = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+   if( maDelay < (int) STATE.mem_index )
+      retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
    retCode2 = retCode;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
@@ -943,7 +975,7 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /* Generated */ {
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
-/* Generated */    int i;
+/* Generated */    int i, lookbackTotal;
 /* Generated */    double tempReal, tempReal2;
 /* Generated */    ARRAY_REF(tempBuffer1);
 /* Generated */    ARRAY_REF(tempBuffer2);
@@ -1009,6 +1041,16 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
+/* Generated */    lookbackTotal = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp,
+/* Generated */                                           optInNbDevDn, optInMAType );
+/* Generated */    if( startIdx < lookbackTotal )
+/* Generated */       startIdx = lookbackTotal;
+/* Generated */    if( startIdx > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
 /* Generated */                                 optInTimePeriod, optInMAType,
 /* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
-- 
2.43.0


From ed85d5eee4941ae1d9e0db99d28daa2ebc46c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 72/80] fix: IMI of a window without any move is 0 instead of
 not a number

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index b381927..a32af79 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -222,9 +222,13 @@
 			} else {
 				downsum += (open - close);
 			}
+		}
 
+		/* No bar of the window moved. */
+		if( TA_IS_ZERO(upsum + downsum) )
+			outReal[outIdx] = 0.0;
+		else
 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
-		}
 
 		startIdx++;
 		outIdx++;
@@ -348,8 +352,13 @@ size_t _old_idx;
         }
 
         needMore = NEED_MORE_DATA;
-        if (!needMore)
-            VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        if (!needMore) {
+            /* No bar of the window moved. */
+            if( TA_IS_ZERO(STATE.upsum + STATE.downsum) )
+                VALUE_HANDLE_DEREF(outReal) = 0.0;
+            else
+                VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        }
 
         /* Remove the bar that leaves the window; the memory may hold more than
          * one window when there is an unstable period.
@@ -692,8 +701,11 @@ size_t _old_idx;
 /* Generated */ 			} else {
 /* Generated */ 				downsum += (open - close);
 /* Generated */ 			}
-/* Generated */ 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
 /* Generated */ 		}
+/* Generated */ 		if( TA_IS_ZERO(upsum + downsum) )
+/* Generated */ 			outReal[outIdx] = 0.0;
+/* Generated */ 		else
+/* Generated */ 			outReal[outIdx] = 100.0*(upsum/(upsum + downsum));
 /* Generated */ 		startIdx++;
 /* Generated */ 		outIdx++;
 /* Generated */    }
-- 
2.43.0


From 7d00b665dba42f136fbf4a8a249b07682cb5c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 73/80] fix: a streaming hikkake keeps confirming its patterns
 after 2^31 bars

---
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 8a741e6..0adb937 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -405,7 +405,7 @@ int i1,i2;
                 VALUE_HANDLE_DEREF(outInteger) = STATE.patternResult;
             } else
                 /* search for confirmation if hikkake was no more than 3 bars ago */
-                if( (int)STATE.mem_index-1 <= STATE.patternIdx+3 &&
+                if( (unsigned int)STATE.mem_index-1 - (unsigned int)STATE.patternIdx <= 3 &&
                         ( ( STATE.patternResult > 0 && inClose > STATE.patternHigh )    // close higher than the high of 2nd
                           ||
                           ( STATE.patternResult < 0 && inClose < STATE.patternLow )     // close lower than the low of 2nd
@@ -414,6 +414,7 @@ int i1,i2;
                 {
                     VALUE_HANDLE_DEREF(outInteger) = STATE.patternResult + 100 * ( STATE.patternResult > 0 ? 1 : -1 );
                     STATE.patternIdx = 0;
+                    STATE.patternResult = 0;
                 } else
                     VALUE_HANDLE_DEREF(outInteger) = 0;
 
-- 
2.43.0


From dbe0f62ed53a6b72ce8a01899b1b851ca487fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 74/80] fix: streaming MAX, MIN and MINMAX drop expired extrema
 after 2^31 bars too

---
 ta-lib-rt/c/src/ta_func/ta_MAX.c    |  4 ++--
 ta-lib-rt/c/src/ta_func/ta_MIN.c    |  4 ++--
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c | 10 +++++-----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index 76de97d..cbfb8da 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -369,14 +369,14 @@
    /* insert state based TA func code here. */
     if (FIRST_LAUNCH || STATE.max <= inReal) {
         STATE.max = inReal;
-        STATE.maxIdx = _cur_idx;
+        STATE.maxIdx = STATE.mem_index;
     }
 
     if (NEED_MORE_DATA) {
         PUSH_TO_MEM(inReal,inReal);
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
     } else {
-        if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max
+        if ((unsigned int)STATE.mem_index - (unsigned int)STATE.maxIdx > MEM_SIZE) { // find new max
 
             STATE.maxIdx = STATE.mem_index;
             STATE.max = inReal;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index dabf8d3..242b26e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -369,14 +369,14 @@
 
  if (FIRST_LAUNCH || STATE.min >= inReal) {
     STATE.min = inReal;
-    STATE.minIdx = _cur_idx;
+    STATE.minIdx = STATE.mem_index;
  }
 
  if (NEED_MORE_DATA) {
      PUSH_TO_MEM(inReal,inReal);
      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
  } else {
-     if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min
+     if ((unsigned int)STATE.mem_index - (unsigned int)STATE.minIdx > MEM_SIZE) { // find new min
 
          STATE.minIdx = STATE.mem_index;
          STATE.min = inReal;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 0d61671..02215e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -402,13 +402,13 @@
 
     if (FIRST_LAUNCH) {
         STATE.max = STATE.min = inReal;
-        STATE.maxIdx = STATE.minIdx = _cur_idx;
+        STATE.maxIdx = STATE.minIdx = STATE.mem_index;
     } else if (STATE.min >= inReal) {
         STATE.min = inReal;
-        STATE.minIdx = _cur_idx;
+        STATE.minIdx = STATE.mem_index;
     } else if (STATE.max <= inReal) {
         STATE.max = inReal;
-        STATE.maxIdx = _cur_idx;
+        STATE.maxIdx = STATE.mem_index;
     }
 
     if (NEED_MORE_DATA) {
@@ -416,8 +416,8 @@
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
     } else {
 
-        find_min = STATE.minIdx < STATE.mem_index - MEM_SIZE;
-        find_max = STATE.maxIdx < STATE.mem_index - MEM_SIZE;
+        find_min = (unsigned int)STATE.mem_index - (unsigned int)STATE.minIdx > MEM_SIZE;
+        find_max = (unsigned int)STATE.mem_index - (unsigned int)STATE.maxIdx > MEM_SIZE;
 
         if (find_min || find_max) {
 
-- 
2.43.0


From 530083fcb5a9c7547d44fd14fe226f5b82651e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 75/80] fix: the streaming triangular average keeps its middle
 index inside its memory

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index a7b9fbb..de4a44b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -651,7 +651,8 @@ double tempReal;
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
    PUSH_TO_MEM(inReal, inReal); // periods 2 and 3 have the current value in the middle
-   middle = STATE.middleIdx++ % STATE.mem_size;
+   middle = STATE.middleIdx % STATE.mem_size;
+   STATE.middleIdx = middle + 1;
    tempReal = MEM_IDX_NS(inReal, middle);
    STATE.numeratorSub += tempReal;
 
-- 
2.43.0


From 7acedc9fc59cf275f15a85c32aced66eff54a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 76/80] fix: streaming windows are indexed with the full bar
 counter

---
 ta-lib-rt/c/src/ta_func/ta_AROON.c        | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c     | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_WILLR.c        | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 61bd07e..cf5ce06 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -388,7 +388,8 @@
    /* insert local variable here */           
 #define TA_AROON_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 unsigned  int i;
-int j,p;
+size_t j;
+int p;
 double temp;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index 84407a9..d2fbecd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -396,7 +396,8 @@
    /* insert local variable here */
 #define TA_AROONOSC_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 unsigned  int i;
-int j,p;
+size_t j;
+int p;
 double temp;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index fd38ee8..06abc03 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -523,7 +523,8 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
  /* Variable used to calculate the dominant cycle phase */
  int DCPeriodInt;
  double DCPeriod;
- int idx, i;
+ size_t idx;
+ int i;
 
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 244c166..1b698ba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -611,7 +611,8 @@ double tempReal, tempReal2;
 /* Variable used to calculate the dominant cycle phase */
 int DCPeriodInt;
 double DCPeriod, imagPart, realPart;
-int idx, i, trend;
+size_t idx;
+int i, trend;
 double trendline;
 double sine, leadSine;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index b5f5877..143aaa6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -682,7 +682,8 @@
    /* insert local variable here */
  TA_RetCode retCode;
  double temp;
- unsigned int j,i,p;
+ size_t j;
+ unsigned int i,p;
 #define TA_STOCH_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 13b514f..b24f30d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -609,7 +609,8 @@ TA_RetCode retCode;
    /* insert local variable here */
         TA_RetCode retCode;
         double temp;
-        unsigned int j,i,p;
+        size_t j;
+        unsigned int i,p;
 #define TA_STOCHF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 
 #ifndef TA_FUNC_NO_RANGE_CHECK
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 70ee549..1144e07 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -388,7 +388,8 @@
    /* insert local variable here */
 #define TA_WILLR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
         unsigned  int i;
-        int j,p;
+        size_t j;
+        int p;
         double temp;
         double diff;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From fde29a91c7aaeff7faa7da9e1ef0c5ecb275c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 77/80] fix: streams compare their bar counter without
 narrowing it to int

---
 ta-lib-rt/c/include/ta_defs.h                 |  1 +
 ta-lib-rt/c/src/ta_func/ta_ADX.c              |  8 +++---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c           |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c       |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c |  8 +++---
 .../c/src/ta_func/ta_CDL3WHITESOLDIERS.c      |  8 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c  | 10 +++----
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c     |  2 +-
 .../c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c     |  4 +--
 .../c/src/ta_func/ta_CDLCONCEALBABYSWALL.c    |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c |  4 +--
 .../c/src/ta_func/ta_CDLDARKCLOUDCOVER.c      |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c |  4 +--
 .../c/src/ta_func/ta_CDLEVENINGDOJISTAR.c     |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c   |  4 +--
 .../c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c    |  4 +--
 .../c/src/ta_func/ta_CDLGRAVESTONEDOJI.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c        |  8 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c    |  8 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c        |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c   |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c    |  9 ++++---
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c  |  4 +--
 .../c/src/ta_func/ta_CDLIDENTICAL3CROWS.c     |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c        |  4 +--
 .../c/src/ta_func/ta_CDLINVERTEDHAMMER.c      |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c       |  4 +--
 .../c/src/ta_func/ta_CDLKICKINGBYLENGTH.c     |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c  |  2 +-
 .../c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c      |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c   |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c       |  4 +--
 .../c/src/ta_func/ta_CDLMORNINGDOJISTAR.c     |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c   |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c        |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c      |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c   |  6 ++---
 .../c/src/ta_func/ta_CDLRISEFALL3METHODS.c    |  4 +--
 .../c/src/ta_func/ta_CDLSEPARATINGLINES.c     |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c  |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c     |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c   |  2 +-
 .../c/src/ta_func/ta_CDLSTALLEDPATTERN.c      |  8 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c        |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c     |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c     |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c       |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c  |  4 +--
 .../c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c     |  4 +--
 ta-lib-rt/c/src/ta_func/ta_CMO.c              |  2 +-
 ta-lib-rt/c/src/ta_func/ta_DX.c               |  4 +--
 ta-lib-rt/c/src/ta_func/ta_EMA.c              |  4 +--
 ta-lib-rt/c/src/ta_func/ta_KAMA.c             |  6 ++---
 ta-lib-rt/c/src/ta_func/ta_MACD.c             |  2 +-
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c          |  4 +--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c         |  4 +--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c         |  2 +-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c          |  4 +--
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c          |  2 +-
 ta-lib-rt/c/src/ta_func/ta_RSI.c              |  2 +-
 ta-lib-rt/c/src/ta_func/ta_T3.c               | 26 +++++++++----------
 ta-lib-rt/c/src/ta_func/ta_WLMA.c             |  4 +--
 69 files changed, 159 insertions(+), 157 deletions(-)

diff --git a/ta-lib-rt/c/include/ta_defs.h b/ta-lib-rt/c/include/ta_defs.h
index a02309c..c2508f6 100644
--- a/ta-lib-rt/c/include/ta_defs.h
+++ b/ta-lib-rt/c/include/ta_defs.h
@@ -53,6 +53,7 @@
     #define INT_MAX Integer.MAX_VALUE
   #else
     #include <limits.h>
+    #include <stddef.h>
 
     /* Identify if 64 bits platform with __64BIT__.
      * Can also be done from compiler command line. 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 98f5b30..a88abcb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -682,7 +682,7 @@
               diffM    = STATE.prevLow-inLow;   /* Minus Delta */
               STATE.prevLow  = inLow;
 
-               if ((int)STATE.mem_index > STATE.optInTimePeriod )
+               if ((ptrdiff_t)STATE.mem_index > STATE.optInTimePeriod )
                {
                  STATE.prevMinusDM -= STATE.prevMinusDM/STATE.optInTimePeriod;
                  STATE.prevPlusDM  -= STATE.prevPlusDM/STATE.optInTimePeriod;
@@ -702,7 +702,7 @@
               /* Calculate the prevTR */
               TRUE_RANGE(STATE.prevHigh,STATE.prevLow,STATE.prevClose,tempReal);
 
-              if ((int)STATE.mem_index < STATE.optInTimePeriod )
+              if ((ptrdiff_t)STATE.mem_index < STATE.optInTimePeriod )
                   STATE.prevTR += tempReal;
               else
                   STATE.prevTR = STATE.prevTR - (STATE.prevTR/STATE.optInTimePeriod) + tempReal;
@@ -713,7 +713,7 @@
 
 
 
-              if ((int)STATE.mem_index > STATE.optInTimePeriod )
+              if ((ptrdiff_t)STATE.mem_index > STATE.optInTimePeriod )
               {
                   /* Calculate the DX. The value is rounded (see Wilder book). */
                   if( !TA_IS_ZERO(STATE.prevTR))
@@ -727,7 +727,7 @@
                       if( !TA_IS_ZERO(tempReal))
                       {
 
-                          if ((int)STATE.mem_index > 2*STATE.optInTimePeriod )
+                          if ((ptrdiff_t)STATE.mem_index > 2*STATE.optInTimePeriod )
                           {
                               tempReal= round_pos( 100.0 * (std_fabs(minusDI-plusDI)/tempReal) );
                               /* Calculate the ADX */
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5e8eec2..01a7e2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -602,7 +602,7 @@
              LOOKBACK_CALL(MA)( STATE.optInTimePeriod, STATE.optInMAType );
 
    retCode = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   if( maDelay < (int) STATE.mem_index )
+   if( maDelay < (ptrdiff_t) STATE.mem_index )
       retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
    retCode2 = retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 3496350..703a691 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -398,12 +398,12 @@ unsigned int i1,i2;
                 }
 
 
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyLong + 2)
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE - STATE.periodBodyLong + 2)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
                 }
 
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyShort + 1)
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE - STATE.periodBodyShort + 1)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index be2b67a..a45755c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -456,23 +456,23 @@ unsigned int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  ShadowLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
           STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index d6d8803..24ea325 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -475,26 +475,26 @@ unsigned int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
           STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapFar)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapFar)
         {
           STATE.FarPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  Far, i2 );
           STATE.FarPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  Far, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  Near, i2 );
           STATE.NearPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  Near, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index 063a2f5..35b4c03 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -478,17 +478,17 @@
          }
 
 
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+         if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
          {
            STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
          }
 
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+         if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
          {
            STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i1 );
          }
 
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+         if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
          {
            STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
          }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index 7e6aa8a..42a0a34 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -534,7 +534,7 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowShort)
         {
           STATE.ShadowShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowShort, i2 );
           STATE.ShadowShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowShort, i1 );
@@ -542,25 +542,25 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowLong, i1 );
           STATE.ShadowLongPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( ShadowLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapFar)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapFar)
         {
           STATE.FarPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  Far, i2 );
           STATE.FarPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  Far, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  Near, i2 );
           STATE.NearPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  Near, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index 471c87e..61860c5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -394,12 +394,12 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index 032cec0..8881573 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -414,7 +414,7 @@ unsigned int i1,i2,i3,i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= 4)
+        if ((ptrdiff_t)STATE.mem_index-1 >= 4)
         {
            STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index 243e373..66fd252 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -408,12 +408,12 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 3252e1e..c2c1457 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -419,7 +419,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if ((int)STATE.mem_index-1 >= 3)
+        if ((ptrdiff_t)STATE.mem_index-1 >= 3)
         {
            STATE.ShadowVeryShortPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i3 );
            STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 5a20420..6313411 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -400,12 +400,12 @@ unsigned int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
            STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
            STATE.BodyLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
            STATE.BodyLongPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index cf8d68d..d515b24 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -413,7 +413,7 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= 1)
+        if ((ptrdiff_t)STATE.mem_index-1 >= 1)
         {
            STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 55a33bf..1e72920 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -393,12 +393,12 @@ int i1;
 
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapDoji)
                 {
                    STATE.DojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                    STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index 15b6ee4..5a52292 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -394,12 +394,12 @@
         }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                    STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index 47583d6..15cb0fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -453,17 +453,17 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
         {
           STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index aff1417..5324853 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -443,12 +443,12 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
           STATE.BodyShortPeriodTotal2 += TA_CANDLERANGE_STATE_CUR( BodyShort );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 3fae97c..7a7f0af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -402,12 +402,12 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= MEM_SIZE - STATE.periodNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= MEM_SIZE - STATE.periodNear)
         {
             STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= MEM_SIZE - STATE.periodEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= MEM_SIZE - STATE.periodEqual)
         {
             STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX( Equal, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index edcb2e7..1c4b617 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -382,12 +382,12 @@
         }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                    STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index c0d0833..a364531 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -419,22 +419,22 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Near, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 9a2e954..896e260 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -419,22 +419,22 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Near, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 9f60ec6..8d2e1f0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -416,12 +416,12 @@ int i1;
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 22fd769..6aa898b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -412,12 +412,12 @@ int i1;
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                   STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index d8170c7..550c9e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -373,9 +373,9 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
                     STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
                     STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 3f47fcf..e10e5c5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -424,7 +424,7 @@ int i1,i2,i3;
                 i2 = GET_LOCAL_IDX(-2);
                 i3 = GET_LOCAL_IDX(-3);
 
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE-3)
                 {
 
                     if( MEM_IDX_NS(inHigh,i2) < MEM_IDX_NS(inHigh,i3) && MEM_IDX_NS(inLow,i2) > MEM_IDX_NS(inLow,i3) &&             // 2nd: lower high and higher low than 1st
@@ -448,7 +448,7 @@ int i1,i2,i3;
                         VALUE_HANDLE_DEREF(outInteger) = STATE.patternResult;
                     } else
                         /* search for confirmation if hikkake was no more than 3 bars ago */
-                        if( (int)STATE.mem_index-1 <= STATE.patternIdx+3 &&
+                        if( (unsigned int)STATE.mem_index-1 - (unsigned int)STATE.patternIdx <= 3 &&
                                 ( ( STATE.patternResult > 0 && inClose > STATE.patternHigh )    // close higher than the high of 2nd
                                   ||
                                   ( STATE.patternResult < 0 && inClose < STATE.patternLow )     // close lower than the low of 2nd
@@ -457,15 +457,16 @@ int i1,i2,i3;
                         {
                             VALUE_HANDLE_DEREF(outInteger) = STATE.patternResult + 100 * ( STATE.patternResult > 0 ? 1 : -1 );
                             STATE.patternIdx = 0;
+                            STATE.patternResult = 0;
                         } else
                             VALUE_HANDLE_DEREF(outInteger) = 0;
 
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapNear)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
+                if ((ptrdiff_t)STATE.mem_index-1 >= (ptrdiff_t)MEM_SIZE-3)
                     STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 06e5c7f..1419f42 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -398,13 +398,13 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 554547b..c686a65 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -441,7 +441,7 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
@@ -449,7 +449,7 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  Equal, i2 );
           STATE.EqualPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 0f9e489..6935ae5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -398,12 +398,12 @@ int i1;
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
                 {
                    STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                    STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 48c266f..353f6ff 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -411,17 +411,17 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index 846eb75..1d75ecb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -424,13 +424,13 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
           STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index bc1ecb8..d6f932b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -431,13 +431,13 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
           STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index a331423..0f40a04 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -392,7 +392,7 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
             STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index a95f5ed..03d04a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -379,12 +379,12 @@
 
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                    STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
                 {
                    STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index fd02658..913c6e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -382,12 +382,12 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadow)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadow)
                 {
                   STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
                 {
                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index 56c2d63..d2dc1f9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -378,12 +378,12 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 916316e..6429d35 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -376,7 +376,7 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 6fb8ba1..9278e3e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -480,14 +480,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index fb36a82..be425ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -447,17 +447,17 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
         {
           STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index f71e7d7..fd7588d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -433,12 +433,12 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
           STATE.BodyShortPeriodTotal2 += TA_CANDLERANGE_STATE_CUR( BodyShort );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index 0169ea1..3b795df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -392,12 +392,12 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index b284c57..7074945 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -391,7 +391,7 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
           STATE.BodyLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index 0b49de9..d9fc9a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -419,17 +419,17 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                   STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
                 {
                   STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowLong );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapNear)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
                 {
                   STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_CUR( Near );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index 779143d..104a851 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -445,14 +445,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index ba37e8e..539dc0d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -419,17 +419,17 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
            STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX( Equal, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c4e5627..db42d37 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -407,17 +407,17 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowLong)
         {
           STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowLong );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 9d0c02b..72be57d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -378,12 +378,12 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadow)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadow)
                 {
                   STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
                 {
                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index c225ed6..519b2a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -365,7 +365,7 @@
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
                 {
                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 8d34ee2..82a6aac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -460,23 +460,23 @@ int i1, i2, i3;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
           STATE.BodyLongPeriodTotal2 += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
         {
           STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( ShadowVeryShort, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( Near, i1 );
           STATE.NearPeriodTotal2 += TA_CANDLERANGE_STATE_IDX( Near, i2 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index e6482f7..348b6e4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -379,7 +379,7 @@ int i1, i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i2 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index c78dd61..4a9179e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -401,17 +401,17 @@
         }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyDoji)
                 {
                    STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyDoji );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
                 {
                    STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapShadowVeryLong)
                 {
                    STATE.ShadowVeryLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 29258f8..bf78edc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -410,7 +410,7 @@ int i1, i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapNear)
         {
           STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Near, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index 1a9dc86..00e222c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -398,12 +398,12 @@ int i1;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapEqual)
         {
           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 4c500c8..a16ae65 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -402,7 +402,7 @@ int i1, i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBody)
         {
           STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i2 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index 9fe7698..1908c27 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -399,12 +399,12 @@ int i1,i2;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong + 2)
+        if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong + 2)
         {
           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 3a9875d..40b9d5f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -402,12 +402,12 @@ int i1,i2;
                 }
 
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyShort)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
+                if ((ptrdiff_t)STATE.mem_index-1 >= STATE.gapBodyLong)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 2e6de98..ce55b73 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -562,7 +562,7 @@ double tempValue1, tempValue2;
 
        tempValue1 = STATE.prevGain+STATE.prevLoss;
        tempValue2 = tempValue1;
-       if ((int)STATE.mem_index == STATE.optInTimePeriod)
+       if ((ptrdiff_t)STATE.mem_index == STATE.optInTimePeriod)
           tempValue2 /= STATE.optInTimePeriod; // first Metastock value: the sums are not averaged yet
        if( !TA_IS_ZERO(tempValue2) )
           VALUE_HANDLE_DEREF(outReal) = 100*((STATE.prevGain-STATE.prevLoss)/tempValue1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index af48231..715726d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -619,7 +619,7 @@ double minusDI, plusDI;
  diffM    = STATE.prevLow-inLow;   /* Minus Delta */
  STATE.prevLow  = inLow;
 
-  if ((int)STATE.mem_index > STATE.optInTimePeriod )
+  if ((ptrdiff_t)STATE.mem_index > STATE.optInTimePeriod )
   {
     STATE.prevMinusDM -= STATE.prevMinusDM/STATE.optInTimePeriod;
     STATE.prevPlusDM  -= STATE.prevPlusDM/STATE.optInTimePeriod;
@@ -638,7 +638,7 @@ double minusDI, plusDI;
 
  /* Calculate the prevTR */
  TRUE_RANGE(STATE.prevHigh,STATE.prevLow,STATE.prevClose,tempReal);
- if ((int)STATE.mem_index < STATE.optInTimePeriod )
+ if ((ptrdiff_t)STATE.mem_index < STATE.optInTimePeriod )
      STATE.prevTR += tempReal;
  else
      STATE.prevTR = STATE.prevTR - (STATE.prevTR/STATE.optInTimePeriod) + tempReal;
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index c978009..4a98986 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -507,10 +507,10 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
       if( TA_GLOBALS_COMPATIBILITY == ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) )
          {
-          if ((int)STATE.mem_index-1 < STATE.optInTimePeriod)
+          if ((ptrdiff_t)STATE.mem_index-1 < STATE.optInTimePeriod)
           {
               STATE.tempSum += inReal;
-              if ((int)STATE.mem_index == STATE.optInTimePeriod)
+              if ((ptrdiff_t)STATE.mem_index == STATE.optInTimePeriod)
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 553d32c..7e0aaab 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -472,11 +472,11 @@
             PUSH_TO_MEM(inReal,inReal);
             return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    } else
-        if ( ((int)STATE.mem_index-1) <= STATE.optInTimePeriod)
+        if ( ((ptrdiff_t)STATE.mem_index-1) <= STATE.optInTimePeriod)
         {
           STATE.sumROC1  += std_fabs(STATE.yestReal - inReal);
           STATE.yestReal = inReal;
-          if (((int)STATE.mem_index-1) < STATE.optInTimePeriod)
+          if (((ptrdiff_t)STATE.mem_index-1) < STATE.optInTimePeriod)
           {
              STATE.prevKAMA = inReal;
              PUSH_TO_MEM(inReal,inReal);
@@ -485,7 +485,7 @@
         }
 
 
-     if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
+     if (((ptrdiff_t)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
          STATE.sumROC1 -= std_fabs(STATE.trailingValue-MEM_IDX_NS(inReal, GET_LOCAL_IDX(-STATE.optInTimePeriod)));
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index 5e8c26d..7247b55 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -801,7 +801,7 @@ k2 = (double)0.15; /* Fix 12 */
 
 
           /* Calculate the fast EMA. */
-          if ( (STATE.fastEMADelay < (int)STATE.mem_index) || (TA_GLOBALS_COMPATIBILITY != ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) ))
+          if ( (STATE.fastEMADelay < (ptrdiff_t)STATE.mem_index) || (TA_GLOBALS_COMPATIBILITY != ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) ))
           {
           retCode2 = FUNCTION_CALL_STATE(EMA)( STATE.fastEMAState, inReal, &fastEMA );
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 575a486..1c91312 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -670,7 +670,7 @@ int tempInteger, tempInteger2;
 
         /* Calculate the slow MA.  */
         retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-        if( (-STATE.fastMADelay < (int) STATE.mem_index) ||
+        if( (-STATE.fastMADelay < (ptrdiff_t) STATE.mem_index) ||
             TA_MACDEXT_STARTS_AT_FIRST_BAR(STATE.optInSlowMAType) )
            retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
@@ -680,7 +680,7 @@ int tempInteger, tempInteger2;
 
         /* Calculate the fast MA. */
         retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-        if( (STATE.fastMADelay < (int) STATE.mem_index) ||
+        if( (STATE.fastMADelay < (ptrdiff_t) STATE.mem_index) ||
             TA_MACDEXT_STARTS_AT_FIRST_BAR(STATE.optInFastMAType) )
            retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 46d4ec0..9fd7f52 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -641,7 +641,7 @@
               }
 
 
-              if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+              if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
               {
                   if( (diffM > 0) && (diffP < diffM) )
                   {
@@ -662,7 +662,7 @@
 
               /* Calculate the prevTR */
               TRUE_RANGE(STATE.prevHigh,STATE.prevLow,STATE.prevClose,tempReal);
-              if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+              if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
                   STATE.prevTR += tempReal;
               else
                   STATE.prevTR = STATE.prevTR - (STATE.prevTR/STATE.optInTimePeriod) + tempReal;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index 1fd9a86..0e34ad8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -545,7 +545,7 @@ double diffP, diffM;
       }
 
 
-      if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+      if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
       {
           if( (diffM > 0) && (diffP < diffM) )
           {
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 6f96320..4e31803 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -641,7 +641,7 @@ double tempReal, tempReal2, diffP, diffM;
       }
 
 
-      if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+      if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
       {
           if( (diffP > 0) && (diffP > diffM) )
           {
@@ -662,7 +662,7 @@ double tempReal, tempReal2, diffP, diffM;
 
       /* Calculate the prevTR */
       TRUE_RANGE(STATE.prevHigh,STATE.prevLow,STATE.prevClose,tempReal);
-      if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+      if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
           STATE.prevTR += tempReal;
       else
           STATE.prevTR = STATE.prevTR - (STATE.prevTR/STATE.optInTimePeriod) + tempReal;
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 4c7d15b..67d6191 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -546,7 +546,7 @@ double diffP, diffM;
       }
 
 
-      if ((int)STATE.mem_index <= STATE.optInTimePeriod )
+      if ((ptrdiff_t)STATE.mem_index <= STATE.optInTimePeriod )
       {
           if( (diffP > 0) && (diffP > diffM) )
           {
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 8566290..774134e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -565,7 +565,7 @@ double tempValue1, tempValue2;
 
    tempValue1 = STATE.prevGain+STATE.prevLoss;
    tempValue2 = tempValue1;
-   if ((int)STATE.mem_index == STATE.optInTimePeriod)
+   if ((ptrdiff_t)STATE.mem_index == STATE.optInTimePeriod)
       tempValue2 /= STATE.optInTimePeriod; // first Metastock value: the sums are not averaged yet
    if( !TA_IS_ZERO(tempValue2) )
       VALUE_HANDLE_DEREF(outReal) = 100*(STATE.prevGain/tempValue1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index fac2fa9..1b0c088 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -487,67 +487,67 @@
        if (FIRST_LAUNCH)
          STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
    } else
-   if ((int)_cur_idx < STATE.optInTimePeriod)
+   if ((ptrdiff_t)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
-       if ((int)_cur_idx == STATE.optInTimePeriod-1)
+       if ((ptrdiff_t)_cur_idx == STATE.optInTimePeriod-1)
        {
            STATE.e1 = STATE.tempReal / STATE.optInTimePeriod;
            STATE.tempReal = STATE.e1;
        }
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    } else
-       if ((int)_cur_idx < 2*STATE.optInTimePeriod-1)
+       if ((ptrdiff_t)_cur_idx < 2*STATE.optInTimePeriod-1)
        {
            STATE.e1 = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
            STATE.tempReal += STATE.e1;
-           if ((int)_cur_idx == 2*STATE.optInTimePeriod-2)
+           if ((ptrdiff_t)_cur_idx == 2*STATE.optInTimePeriod-2)
            {
                STATE.e2 = STATE.tempReal / STATE.optInTimePeriod;
                STATE.tempReal = STATE.e2;
            }
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
        } else
-           if ((int)_cur_idx < 3*STATE.optInTimePeriod-2)
+           if ((ptrdiff_t)_cur_idx < 3*STATE.optInTimePeriod-2)
            {
                STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
                STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
                STATE.tempReal += STATE.e2;
-               if ((int)_cur_idx == 3*STATE.optInTimePeriod-3)
+               if ((ptrdiff_t)_cur_idx == 3*STATE.optInTimePeriod-3)
                {
                    STATE.e3 = STATE.tempReal / STATE.optInTimePeriod;
                    STATE.tempReal = STATE.e3;
                }
                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
            } else
-               if ((int)_cur_idx < 4*STATE.optInTimePeriod-3)
+               if ((ptrdiff_t)_cur_idx < 4*STATE.optInTimePeriod-3)
                {
                    STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
                    STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
                    STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
                    STATE.tempReal += STATE.e3;
-                   if ((int)_cur_idx == 4*STATE.optInTimePeriod-4)
+                   if ((ptrdiff_t)_cur_idx == 4*STATE.optInTimePeriod-4)
                    {
                        STATE.e4 = STATE.tempReal / STATE.optInTimePeriod;
                        STATE.tempReal = STATE.e4;
                    }
                    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                } else
-                   if ((int)_cur_idx < 5*STATE.optInTimePeriod-4)
+                   if ((ptrdiff_t)_cur_idx < 5*STATE.optInTimePeriod-4)
                    {
                        STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
                        STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
                        STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
                        STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
                        STATE.tempReal += STATE.e4;
-                       if ((int)_cur_idx == 5*STATE.optInTimePeriod-5)
+                       if ((ptrdiff_t)_cur_idx == 5*STATE.optInTimePeriod-5)
                        {
                            STATE.e5 = STATE.tempReal / STATE.optInTimePeriod;
                            STATE.tempReal = STATE.e5;
                        }
                        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                    } else
-                       if ((int)_cur_idx < 6*STATE.optInTimePeriod-5)
+                       if ((ptrdiff_t)_cur_idx < 6*STATE.optInTimePeriod-5)
                        {
                            STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
                            STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
@@ -555,7 +555,7 @@
                            STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
                            STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
                            STATE.tempReal += STATE.e5;
-                           if ((int)_cur_idx == 6*STATE.optInTimePeriod-6)
+                           if ((ptrdiff_t)_cur_idx == 6*STATE.optInTimePeriod-6)
                            {
                                STATE.e6 = STATE.tempReal / STATE.optInTimePeriod;
                                STATE.tempReal = STATE.e6;
@@ -564,7 +564,7 @@
                        }
 
    // all the averages are initialized at 6*(period-1), they are updated from the next value on
-   if ((int)_cur_idx > 6*(STATE.optInTimePeriod-1))
+   if ((ptrdiff_t)_cur_idx > 6*(STATE.optInTimePeriod-1))
    {
    STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
    STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index d451b6d..2d2eb9a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -504,10 +504,10 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
       if( TA_GLOBALS_COMPATIBILITY == ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) )
          {
-          if ((int)STATE.mem_index-1 < STATE.optInTimePeriod)
+          if ((ptrdiff_t)STATE.mem_index-1 < STATE.optInTimePeriod)
           {
               STATE.tempSum += inReal;
-              if ((int)STATE.mem_index == STATE.optInTimePeriod)
+              if ((ptrdiff_t)STATE.mem_index == STATE.optInTimePeriod)
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
-- 
2.43.0


From 28051fdcecaca96da3fad75a1d17e05daf689ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 78/80] fix: linear regressions over more than 1290 bars do not
 overflow their sums of bar numbers

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 1800cb4..b05e6e0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -359,8 +359,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+            STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -705,8 +705,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index ac8916a..881dc4a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -360,8 +360,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -705,8 +705,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index a26d53a..a44003d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -704,8 +704,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index c392c3b..32e69f5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -356,8 +356,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -699,8 +699,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index aca46d1..e07deb5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -359,8 +359,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -705,8 +705,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
-- 
2.43.0


From 6bf85b05b588ef4d3849f444f2424b5da29db088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 79/80] fix: weighted averages over more than 46340 bars do not
 overflow their divider

---
 ta-lib-rt/c/src/ta_func/ta_WMA.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 4eca453..43c2c21 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,8 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
-   double periodSum, periodSub, tempReal, trailingValue;
+   int inIdx, outIdx, i, trailingIdx;
+   double divider, periodSum, periodSub, tempReal, trailingValue;
    int lookbackTotal;
 
    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -234,7 +234,7 @@
     * By induction: 1+2+3+4+'n' = n(n+1)/2
     * '>>1' is usually faster than '/2' for unsigned.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = (double)optInTimePeriod*(optInTimePeriod+1)/2;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -416,7 +416,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider = (double)STATE.optInTimePeriod*(STATE.optInTimePeriod+1)/2; //const
     }
 
  if (NEED_MORE_DATA)
@@ -722,8 +722,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
-/* Generated */    double periodSum, periodSub, tempReal, trailingValue;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double divider, periodSum, periodSub, tempReal, trailingValue;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
 /* Generated */       ARRAY_MEMMOVEMIX_VAR;
@@ -765,7 +765,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = (double)optInTimePeriod*(optInTimePeriod+1)/2;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
-- 
2.43.0


From 0e85113fcf7b588c525a0cc78e6be86143e8cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 80/80] fix: triangular averages over more than 92680 bars do
 not overflow their divider

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index de4a44b..d2170f0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -339,7 +339,7 @@
        *       on assignement to the factor variable.
        */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (double)(i+1)*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +412,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = (double)i*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -594,12 +594,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (double)(i+1)*(i+1);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = (double)i*(i+1);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -984,7 +984,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (double)(i+1)*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1027,7 +1027,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = (double)i*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
-- 
2.43.0

