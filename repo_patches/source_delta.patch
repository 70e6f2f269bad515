From 36e8784dab6493b388c34f0695792a46b3db39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 01/28] fix: AsynchronousTask::awaitTask must not return on a
 spurious wakeup

Condition::wait can return without a signal (POSIX allows this for
pthread_cond_wait). awaitTask took any return as completion, so the
caller could read its results before performTask had run. Test the
m_inTask flag, which is only changed with m_done locked.
---
 thread/AsynchronousTask.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..2a6580c 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,9 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) {
+            m_done.wait();
+        }
         m_done.unlock();
     }
 
-- 
2.43.0


From aa252ead81fde9f138044115ffd0087d9d4647a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 02/28] fix: Condition::wait(us) timed out at once at an exact
 second boundary

When the current time plus the timeout had a microsecond part of exactly
1000000 it was not carried into the seconds, so pthread_cond_timedwait
was given tv_nsec == 1e9 and returned EINVAL immediately.
---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From 7e1df65324d264f8fc2b8e2e17b0f25ebe8a0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 03/28] fix: Filter wrote past its output buffer for an order-0
 IIR filter

With one a and one b coefficient m_bufa had m_offmax elements, and index
m_offmax was written every m_offmax+1 samples.
---
 dsp/signalconditioning/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..4c76c9b 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,8 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        // one sample more than the order, for the output just calculated
+        m_bufa.resize(m_sz + m_offmax);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From 3ec9509b37e18aa50489a5d0d8727566e109e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/28] fix: Framer::getFrame past the end wrote before the
 caller's buffer

Once the read position was beyond the end of the source, the number of
remaining samples was negative and zeros were written at dst[rem].
---
 dsp/signalconditioning/Framer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..6d4fab3 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,10 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0;
+        if (m_srcIndex < m_sampleLen) {
+            rem = int(m_sampleLen - m_srcIndex);
+        }
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0


From 4c60ae90cbebfef580150a0e62ccdd935f3a9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 05/28] fix: BlockAllocator freed live memory when it grew past
 1024 blocks

Block's destructor released its memory, but copies of a Block share it:
reallocation of the vector of blocks freed every live element.
---
 thread/BlockAllocator.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..9fca152 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -118,10 +118,6 @@ private:
             m_end(0)
         {}
 
-        ~Block() {
-            delete[] m_block;
-        }
-
         bool isFull() const {
             return m_allocated == m_a->elementsPerBlock();
         }
@@ -179,6 +175,14 @@ private:
         Blocks() {
             data.reserve(1024);
         }
+
+        // Blocks are copied when the vector grows, so they do not own
+        // their memory individually
+        ~Blocks() {
+            for (std::size_t i = 0; i < data.size(); ++i) {
+                data[i].clear();
+            }
+        }
     };
 
     const int m_sz;
-- 
2.43.0


From c366f6c34c2f5a1ed210771f21e36a96a58f5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 06/28] fix: BlockAllocator::allocate left a bad free list if
 growing failed

If adding the block threw bad_alloc, the free list already named it and
the next allocate() used a block that did not exist.
---
 thread/BlockAllocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 9fca152..708e9bc 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -65,8 +65,8 @@ public:
     allocate()
     {
         if (m_freelist.empty()) {
-            m_freelist.push_back(m_blocks.data.size());
             m_blocks.data.push_back(Block(this));
+            m_freelist.push_back(m_blocks.data.size() - 1);
         }
 
         const data_t index = m_freelist.back();
-- 
2.43.0


From d0d38b8211976d9bc7971d42ecb116b0a8b31ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 07/28] fix: ConstantQ::process(const double *) cleared one
 value past the end of its output

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From 0d4d794e967973a831a26e78e9475f28259303c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 08/28] fix: DCT::forward after DCT::inverse used values left
 in its work buffer

---
 dsp/transforms/DCT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..35d25a1 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -39,6 +39,10 @@ DCT::forward(const double *in, double *out)
         m_time2[i*2 + 1] = in[i];
         m_time2[m_n*4 - i*2 - 1] = in[i];
     }
+    // an earlier inverse() may have left values in the even positions
+    for (int i = 0; i < m_n*2; ++i) {
+        m_time2[i*2] = 0.0;
+    }
 
     m_fft.forward(m_time2.data(), m_freq2r.data(), m_freq2i.data());
 
-- 
2.43.0


From 42cd2e246c79a74be38ad7ce868b2e71e2c0d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 09/28] fix: FiltFilt::process started from the filter state
 left by the previous call

---
 dsp/signalconditioning/FiltFilt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..f74cdcf 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -70,7 +70,8 @@ void FiltFilt::process(const double *const QM_R__ src,
     }
     
     ////////////////////////////////
-    // Do 0Ph filtering
+    // Do 0Ph filtering, starting with no state from an earlier call
+    m_filter.reset();
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
         
     // reverse the series for FILTFILT 
-- 
2.43.0


From e42af9d93d8d194a3675e94f7f6bb2d0e3deda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 10/28] fix: DFProcess read past the end of a detection
 function shorter than its median window

---
 dsp/signalconditioning/DFProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..c3f0387 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -105,6 +105,7 @@ void DFProcess::medianFilter(double *src, double *dst)
     memset( y, 0, sizeof( double ) * ( m_winPost + m_winPre + 1) );
 
     double* scratch = new double[ m_length ];
+    memset( scratch, 0, sizeof( double ) * m_length );
 
     for( i = 0; i < m_winPre; i++) {
         
@@ -112,7 +113,7 @@ void DFProcess::medianFilter(double *src, double *dst)
             break;
         }
 
-        k = i + m_winPost + 1;
+        k = std::min( i + m_winPost + 1, m_length );
 
         for( j = 0; j < k; j++) {
             y[ j ] = src[ j ];
-- 
2.43.0


From e0f9774385402771f6b9c6d210b86df1c59bd382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 11/28] fix: TempoTrack::process continued from the previous
 call's frame position

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..b7f6676 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -650,6 +650,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     double* PW = new double[ m_lagLength ];
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
+    m_DFFramer.resetCounters();
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
-- 
2.43.0


From a70fb77c59ef4bd7ebb9609d5f82e6eb7bd8ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 12/28] fix: TempoTrack never returned when the beat period of
 a silent frame rounded to zero

---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index b7f6676..51a9a4f 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -605,7 +605,7 @@ int TempoTrack::beatPredict(int FSP0, double alignment, double period, int step
 
     m_beats.push_back( beat );
 
-    while( beat + p < FEP ) {
+    while( p > 0 && beat + p < FEP ) {
         beat += p;
         m_beats.push_back( beat );
     }
-- 
2.43.0


From f3f1e0716a22b35fbbbd0bf357ee03b4884a89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 13/28] fix: TempoTrack read past the end of its
 autocorrelation for long beat periods

---
 dsp/tempotracking/TempoTrack.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 51a9a4f..b324b78 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -309,7 +309,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2; i++ ) {
+        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -322,7 +322,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3; i++ ) {
+        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -335,7 +335,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4; i++ ) {
+        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -365,7 +365,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2; i++ ) {
+        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -378,7 +378,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3; i++ ) {
+        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -441,12 +441,12 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
 
     if( (double)len < 6 * p + 2 ) {
         
-        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
+        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1 && i < len; i++ ) {
             temp3A += ACF[ i ];
             dbf[ t++ ] = ACF[ i ];
         }
         
-        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
+        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1 && i < len; i++ ) {
             temp4A += ACF[ i ];
         }
 
@@ -455,19 +455,19 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
 
     } else {
         
-        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
+        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1 && i < len; i++ ) {
             temp3A += ACF[ i ];
         }
         
-        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
+        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1 && i < len; i++ ) {
             temp4A += ACF[ i ];
         }
 
-        for( i = ( 6 * p - 2 ); i < ( 6 * p + 2 ) + 1; i++ ) {
+        for( i = ( 6 * p - 2 ); i < ( 6 * p + 2 ) + 1 && i < len; i++ ) {
             temp3B += ACF[ i ];
         }
         
-        for( i = ( 2 * p - 2 ); i < ( 2 * p + 2 ) + 1; i++ ) {
+        for( i = ( 2 * p - 2 ); i < ( 2 * p + 2 ) + 1 && i < len; i++ ) {
             temp4B += ACF[ i ];
         }
 
-- 
2.43.0


From bbb8f249bac8ef176623b2c44ac914bfdf2d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 14/28] fix: TempoTrackV2::calculateBeats read before the start
 of an input shorter than one beat

---
 dsp/tempotracking/TempoTrackV2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..a1db432 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,13 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int startmin = df_len - beat_period[beat_period.size()-1];
+    if (startmin < 0) startmin = 0; // input shorter than one beat
+    for (int i = startmin; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + startmin;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From 555d61e3b2c1dd5c491d968678a69e0e13638388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:56 +0000
Subject: [PATCH 15/28] fix: keep HMM states with vanishing occupancy valid

Baum-Welch left an all-zero transition row and a NaN mean for any state
whose posterior underflowed to zero, and rows that did not sum to one
where it nearly did.
---
 hmm/hmm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..7ebcb26 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -252,15 +252,23 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
     }
         
     for (i = 0; i < N; i++) {
+        /* normalise by the sum of the row itself, which equals
+           sum_gamma[i] except where the posteriors underflow */
+        double sum_xi = 0;
+        for (t = 0; t < T-1; t++) {
+            for (j = 0; j < N; j++) {
+                sum_xi += xi[t][i][j];
+            }
+        }
+        if (sum_xi == 0.) {
+            continue; /* no transitions to learn from: keep the row as it is */
+        }
         for (j = 0; j < N; j++) {
             a[i][j] = 0;
-            if (sum_gamma[i] == 0.) {
-                continue;
-            }
             for (t = 0; t < T-1; t++) {
                 a[i][j] += xi[t][i][j];
             }
-            a[i][j] /= sum_gamma[i];        
+            a[i][j] /= sum_xi;
         }
     }
         
@@ -317,6 +325,9 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
         
     /* re-estimate means */
     for (j = 0; j < N; j++) {
+        if (sum_gamma[j] == 0.) {
+            continue; /* no observations to learn from: keep the mean as it is */
+        }
         for (d = 0; d < L; d++) {
             mu[j][d] = 0;
             for (t = 0; t < T; t++)
-- 
2.43.0


From 20fb5ac8737bff52bb065114e1a832852d7567f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 16/28] fix: constq_segment overran feature rows of fewer than
 20 coefficients

The number of PCA components is fixed at 20; with fewer constant-Q
coefficients pca_project and the envelope copy read and wrote past the
end of each row.
---
 dsp/segmentation/cluster_segmenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..ae9123f 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,9 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) {
+            ncomponents = ncoeff;
+        }
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From 74d265a1553575a44c79d82a398977c345f74a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 17/28] fix: stop HMM training when the likelihood becomes
 infinite

An infinite log-likelihood passed the NaN test, and re-estimating from
its posteriors filled the whole model with NaNs.
---
 hmm/hmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 7ebcb26..52a6e88 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -201,7 +201,7 @@ void hmm_train(double** x, int T, model_t* model)
         }
         forward_backwards(xi, gamma, &loglik, &loglik1, &loglik2,
                           iter, N, T, p0, a, b);
-        if (ISNAN(loglik)) {
+        if (ISNAN(loglik) || ISNAN(loglik - loglik)) { /* NaN or infinite */
             foundnan = 1;
             continue;
         }
-- 
2.43.0


From 81bd1062aebb7e74c99e770f4e150d8d50ac3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 18/28] fix: dlamch and ilaenv kept scratch values in static
 storage

Concurrent calls of the LAPACK routines behind HMM training, PCA and
matrix inversion overwrote each other's intermediate values.
---
 ext/cblas/src/dlamch.c   | 36 ++++++++++++++++++------------------
 ext/clapack/src/ilaenv.c | 14 +++++++-------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 1243e82..744f193 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -22,7 +22,7 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     integer i__1;
@@ -32,18 +32,18 @@ doublereal dlamch_(char *cmach)
     double pow_di(doublereal *, integer *);
 
     /* Local variables */
-    static doublereal t;
+    doublereal t;
     integer it;
-    static doublereal rnd, eps, base;
+    doublereal rnd, eps, base;
     integer beta;
-    static doublereal emin, prec, emax;
+    doublereal emin, prec, emax;
     integer imin, imax;
     logical lrnd;
-    static doublereal rmin, rmax;
+    doublereal rmin, rmax;
     doublereal rmach;
     extern logical lsame_(char *, char *);
     doublereal small;
-    static doublereal sfmin;
+    doublereal sfmin;
     extern /* Subroutine */ int dlamc2_(integer *, integer *, logical *, 
 	    doublereal *, integer *, doublereal *, integer *, doublereal *);
 
@@ -170,20 +170,20 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     doublereal d__1, d__2;
 
     /* Local variables */
     doublereal a, b, c__, f, t1, t2;
-    static integer lt;
+    integer lt;
     doublereal one, qtr;
-    static logical lrnd;
-    static integer lbeta;
+    logical lrnd;
+    integer lbeta;
     doublereal savec;
     extern doublereal dlamc3_(doublereal *, doublereal *);
-    static logical lieee1;
+    logical lieee1;
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -378,8 +378,8 @@ L30:
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
-    static logical iwarn = FALSE_;
+    logical first = TRUE_;
+    logical iwarn = FALSE_;
 
     /* Format strings */
     static char fmt_9999[] = "(//\002 WARNING. The value EMIN may be incorre"
@@ -399,21 +399,21 @@ L30:
     /* Local variables */
     doublereal a, b, c__;
     integer i__;
-    static integer lt;
+    integer lt;
     doublereal one, two;
     logical ieee;
     doublereal half;
     logical lrnd;
-    static doublereal leps;
+    doublereal leps;
     doublereal zero;
-    static integer lbeta;
+    integer lbeta;
     doublereal rbase;
-    static integer lemin, lemax;
+    integer lemin, lemax;
     integer gnmin;
     doublereal small;
     integer gpmin;
     doublereal third;
-    static doublereal lrmin, lrmax;
+    doublereal lrmin, lrmax;
     doublereal sixth;
     extern /* Subroutine */ int dlamc1_(integer *, integer *, logical *, 
 	    logical *);
diff --git a/ext/clapack/src/ilaenv.c b/ext/clapack/src/ilaenv.c
index 425f141..38ff960 100644
--- a/ext/clapack/src/ilaenv.c
+++ b/ext/clapack/src/ilaenv.c
@@ -19,14 +19,14 @@ integer ilaenv_(integer *ispec, char *name__, char *opts, integer *n1,
     integer s_cmp(char *, char *, ftnlen, ftnlen);
 
     /* Local variables */
-    static integer i__;
-    static char c1[1], c2[2], c3[3], c4[2];
-    static integer ic, nb, iz, nx;
-    static logical cname;
-    static integer nbmin;
-    static logical sname;
+    integer i__;
+    char c1[1], c2[2], c3[3], c4[2];
+    integer ic, nb, iz, nx;
+    logical cname;
+    integer nbmin;
+    logical sname;
     extern integer ieeeck_(integer *, real *, real *);
-    static char subnam[6];
+    char subnam[6];
     extern integer iparmq_(integer *, char *, char *, integer *, integer *, 
 	    integer *, integer *);
 
-- 
2.43.0


From b9c30026d63b98169c45429bf9dd4145f06d14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 19/28] fix: Window::operator= leaked its previous coefficients

---
 base/Window.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/Window.h b/base/Window.h
index 8c32753..e5970cf 100644
--- a/base/Window.h
+++ b/base/Window.h
@@ -53,6 +53,7 @@ public:
         if (&w == this) return *this;
         m_type = w.m_type;
         m_size = w.m_size;
+        delete[] m_cache;
         encache();
         return *this;
     }
-- 
2.43.0


From 3f75d387bd4457f3f754aed5baee4242022faea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 20/28] fix: invert() leaked its pivot array

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 52a6e88..6318f4c 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -619,6 +619,7 @@ void invert(double** cov, int L, double** icov, double* detcov)
 #ifndef HAVE_ATLAS	
     free(work);
 #endif
+    free(ipiv);
     free(a);	
 }
 
-- 
2.43.0


From 1a27d55c29ce5c6095b82093752143a3d83cc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 21/28] fix: hmm_close leaked the initial state distribution

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 6318f4c..fc82f55 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -137,6 +137,7 @@ void hmm_close(model_t* model)
         free(model->cov[i]);
     }
     free(model->cov);         
+    free(model->p0);
     free(model);    
 }
 
-- 
2.43.0


From 52902c368f56cb7d05ac65ee1b8ef5f03b46d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 22/28] fix: ~ClusterMeltSegmenter leaked its MFCC object

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 6fbb3b5..33be8d6 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -116,6 +116,7 @@ ClusterMeltSegmenter::~ClusterMeltSegmenter()
 {
     delete window;
     delete constq;
+    delete mfcc;
     delete decimator;
     delete fft;
 }
-- 
2.43.0


From 973a0be2b3853af666f3924a5ff6eec41523f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 23/28] fix: ClusterMeltSegmenter::initialise leaked the
 objects of an earlier call

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 33be8d6..0b89efb 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -51,6 +51,15 @@ void ClusterMeltSegmenter::initialise(int fs)
 {
     samplerate = fs;
 
+    delete constq;
+    constq = NULL;
+    delete mfcc;
+    mfcc = NULL;
+    delete decimator;
+    decimator = NULL;
+    delete fft;
+    fft = NULL;
+
     if (featureType == FEATURE_TYPE_CONSTQ ||
         featureType == FEATURE_TYPE_CHROMA) {
         
-- 
2.43.0


From efbc41049c94b0c0759ba67cffa25d7474686c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 24/28] fix: initialise TCSGram frame duration

Without a call to setFrameDuration, times and the duration were computed
from an uninitialised member (ChangeDetectionFunction does so internally).
---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..e681841 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0.0)
 {
 }
 
-- 
2.43.0


From 19ae574eb0d5ff43c861d676667a097d755882c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 25/28] fix: release the earlier kernel when
 ConstantQ::sparsekernel is called again

---
 dsp/chromagram/ConstantQ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..1da69ba 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -123,6 +123,7 @@ void ConstantQ::sparsekernel()
     delete [] transfWindowRe;
     delete [] transfWindowIm;
 
+    delete m_sparseKernel;
     m_sparseKernel = sk;
 }
 
-- 
2.43.0


From 6b42f17369310543dc4eddbc401272c8f4e4278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:52 +0000
Subject: [PATCH 26/28] fix: TempoTrack::findMeter leaked its scratch buffer

---
 dsp/tempotracking/TempoTrack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index b324b78..782762e 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -481,6 +481,8 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
         tsig = 4;
     }
 
+    delete [] dbf;
+
     return tsig;
 }
 
-- 
2.43.0


From 56ac0b2ac18c682f179e546e0902b7d74da64fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:31 +0000
Subject: [PATCH 27/28] fix: withdraw the TempoTrack beat loop guard

The zero beat period it guarded against was only ever computed from the
out-of-range autocorrelation reads that f3f1e07 removed; it cannot be
reached any more.
---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 782762e..fd68819 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -607,7 +607,7 @@ int TempoTrack::beatPredict(int FSP0, double alignment, double period, int step
 
     m_beats.push_back( beat );
 
-    while( p > 0 && beat + p < FEP ) {
+    while( beat + p < FEP ) {
         beat += p;
         m_beats.push_back( beat );
     }
-- 
2.43.0


From d9a6f00ef99ca334d78ba0f3948a955b71bee501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:17 +0000
Subject: [PATCH 28/28] fix: GetKeyMode::getKeyStrengths read uninitialised
 memory before the first process

---
 dsp/keydetection/GetKeyMode.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 879f8a8..a50f753 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -117,6 +117,10 @@ GetKeyMode::GetKeyMode(Config config) :
     
     m_majCorr = new double[kBinsPerOctave];
     m_minCorr = new double[kBinsPerOctave];
+
+    // getKeyStrengths reads these, possibly before the first process()
+    memset(m_majCorr, 0, sizeof(double) * kBinsPerOctave);
+    memset(m_minCorr, 0, sizeof(double) * kBinsPerOctave);
     
     m_majProfileNorm = new double[kBinsPerOctave];
     m_minProfileNorm = new double[kBinsPerOctave];
-- 
2.43.0

