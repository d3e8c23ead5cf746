From e65af736f75540d57eabe522d85f135f278e703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 01/87] fix: logger thread raced with the main thread on the
 message stack and on MPI

The detached flushing thread called MPI_Iprobe/MPI_Recv (MPI is initialised
with MPI_THREAD_FUNNELED) and changed msgStack while the main thread did the
same: messages were received twice or truncated and the stack corrupted, which
crashed or hung multi-rank runs at random. The thread now only writes the local
stack, under a lock shared with the main thread, and is joined before exit.
---
 include/utils/logger.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index e643cd4..006feda 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -12,6 +12,8 @@
 	#include<cstddef>
 	#include<algorithm>
 	#include<thread>
+	#include<mutex>
+	#include<atomic>
 
 	#include<cstdarg>
 	#include<cstring>
@@ -121,8 +123,10 @@
 				const LogMpi		mpiType;
 				std::vector<Msg>	msgStack;
 				const VerbosityLevel	verbose;
-				bool			logRunning;
+				std::atomic<bool>	logRunning;
 				volatile bool		logWriting ;
+				std::recursive_mutex	logLock;	// The stack and the file are shared with the flushing thread
+				std::thread		logThread;
 
 				void	printMsg	(const Msg &myMsg) noexcept {
 					if (myMsg.time(logStart)/1000 < 1000000) {
@@ -215,6 +219,7 @@
 					 /* LogWriting is created false to avoid inf-loops */
 					 // printf("Rank %d Logger started %s\n", commRank(), logWriting ? "true" : "false" );
 					logWriting = false ;
+					logRunning = false ;
 
 					bool			test;
 					struct stat		buffer;
@@ -239,24 +244,29 @@
 						oFile.open(ss.str().c_str(), std::ofstream::out);
 						banner();
 
-						std::thread([&](){
+						/* MPI is initialised with MPI_THREAD_FUNNELED, so this thread must never communicate */
+						logThread = std::thread([&](){
 							while (logRunning) {
 								std::this_thread::sleep_for(std::chrono::microseconds(logFreq));
-								flushLog();
+								std::lock_guard<std::recursive_mutex> guard(logLock);
+								flushStack();
+								flushDisk();
 							}
-						}).detach();
+						});
 					}
 
 				}
 
 				// Stops logger in preparation for an MPI shutdown
-				void	stop		() { logRunning = false; usleep(logFreq); }
+				void	stop		() { logRunning = false; if (logThread.joinable()) logThread.join(); }
 
 				// Receives pending MPI messages and flushes them to disk
 				void	flushLog	() {
 					if (omp_get_thread_num() != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> guard(logLock);
+
 					// Get all the messages
 					if (mpiType == ALL_RANKS) {
 						getMpiMsg (LOG_MSG);
@@ -300,6 +310,8 @@
 					if (mpiType == ZERO_RANK && myRank != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> guard(logLock);
+
 					switch	(level) {
 
 						case	LOG_MSG:
-- 
2.43.0


From b0c1fa26a259ec202e8c3621bea01e076076dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 02/87] fix: sign of the N=2 QCD force in the double precision
 saxion kernel (and single low memory one)

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..4381e16 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From 3f16ad589daa3651498f25d6ce6a96a2c440fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 03/87] fix: radial damping projected the acceleration with the
 wrong lane swap (double precision)

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 4381e16..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 7761d1e7360d8f30a14c2d5ddf0b85d05fc31b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 04/87] fix: vqcd0_pd returned (yy,xx) instead of (yy,xy),
 wrong cosine QCD force in double precision

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..03be42f 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 29d6cadbc1294c5675a3ac831c635389b78e73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 05/87] fix: axion propagator used the mass and scale factor of
 the previous stage in every odd stage

---
 include/propagator/propClass.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..0668959 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -534,6 +534,10 @@
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-- 
2.43.0


From 0d018979fbe9e93493ea4d3bdaff1f0a479557f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 06/87] fix: low memory saxion propagator never drifted the
 field and used an unset Hubble rate

---
 include/propagator/propClass.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 0668959..c3569aa 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -762,6 +762,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
@@ -772,7 +773,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -784,6 +785,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
-- 
2.43.0


From cef7b52a3ac1fa6e02e50254fa2272542cae9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 07/87] fix: propagator tuner divided by zero on short folded
 rows and used an uninitialised field key

---
 include/utils/tunable.h       | 2 +-
 lib/propagator/propagator.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/utils/tunable.h b/include/utils/tunable.h
index 5bef5df..b2d3bb1 100644
--- a/include/utils/tunable.h
+++ b/include/utils/tunable.h
@@ -94,7 +94,7 @@
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
 				} else {
-					yBlock = 3;
+					yBlock = (ySize > 3) ? 3 : ySize - 1;
 					do {
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index 7b7a2a3..81fa770 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -552,6 +552,8 @@ LogMsg (VERB_NORMAL, "Missing tuning cache file %s, will create a new one", tune
 				myField = 2;
 			else if (field->Field() == FIELD_PAXION)
 				myField = 3;
+			else
+				myField = 4;
 
 			char	     mDev[8];
 
@@ -777,6 +779,8 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			fType = 2;
 		else if (field->Field() == FIELD_PAXION)
 			fType = 3;
+		else
+			fType = 4;
 
 		std::string myDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
 		fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
-- 
2.43.0


From 1dd1ebb8ddaa02ecdd4fc8650571f71444d40c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 08/87] fix: paxion and naxion kernels updated sites twice when
 the block did not divide the folded rows

---
 include/propagator/propNaxXeon.h | 4 ++--
 include/propagator/propPaxXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..3a88d78 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -138,7 +138,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (idx >= Vf))
 				continue;
 			{
 				X[0] = xC;
@@ -347,7 +347,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (idx >= Vf))
 				continue;
 
 			X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..403d816 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -121,7 +121,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (idx >= Vf))
 				continue;
 			{
 				X[0] = xC;
@@ -324,7 +324,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (idx >= Vf))
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From 2f6016e67ff8bd49110bde5bbd2bfce18d246dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 09/87] fix: scaleField scaled memory beyond the named field
 (always v3 complex values)

---
 lib/scalar/scaleXeon.cpp | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..ead8533 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -5,23 +5,45 @@
 
 using namespace std;
 
+/*	Number of real values stored in the field, so scaling one field leaves the
+	memory that follows it alone:
+	m has v3 sites; v has two slices more than the lattice (or v3 sites for paxions);
+	m2 hosts complex data (padded FFTs, density maps) even when the field is real	*/
+static size_t	realSize (Scalar *sField, FieldIndex fIdx)
+{
+	const size_t nData = sField->DataSize()/sField->Precision();
+
+	switch (fIdx)
+	{
+		case FIELD_V:
+		if (sField->Field() != FIELD_PAXION)
+			return nData*sField->Surf()*(sField->Depth() + 2);
+
+		case FIELD_M:
+		return nData*sField->eSize();
+
+		default:
+		return 2*sField->eSize();
+	}
+}
+
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 {
 	switch (sField->Precision())
 	{
 		case FIELD_DOUBLE:
 		{
-			complex<double> *field;
-			size_t vol = sField->eSize();
+			double *field;
+			size_t vol = realSize(sField, fIdx);
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<double>*> (sField->mCpu());
+				field = static_cast<double*> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<double>*> (sField->vCpu());
+				field = static_cast<double*> (sField->vCpu());
 				break;
 
 				case FIELD_M2:
@@ -30,7 +52,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<double>*> (sField->m2Cpu());
+				field = static_cast<double*> (sField->m2Cpu());
 				break;
 
 				default:
@@ -48,18 +70,18 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 
 		case FIELD_SINGLE:
 		{
-			complex<float> *field;
+			float *field;
 			float  fac = factor;
-			size_t vol = sField->eSize();
+			size_t vol = realSize(sField, fIdx);
 
 			switch (fIdx)
 			{
 				case FIELD_M:
-				field = static_cast<complex<float> *> (sField->mCpu());
+				field = static_cast<float *> (sField->mCpu());
 				break;
 
 				case FIELD_V:
-				field = static_cast<complex<float> *> (sField->vCpu());
+				field = static_cast<float *> (sField->vCpu());
 				break;
 
 				case FIELD_M2:
@@ -68,11 +90,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 					return;
 				}
 
-				field = static_cast<complex<float> *> (sField->m2Cpu());
+				field = static_cast<float *> (sField->m2Cpu());
 				break;
 
 				default:
 				LogError ("Error: unrecognized field type");
+				return;
 				break;
 			}
 
-- 
2.43.0


From cdd157c4a31837b9ca6a93ea305ff5348c710fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 10/87] fix: no room for the ghosts of the paxion velocity and
 of the naxion when the stencil range exceeds 1

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..61119d1 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -205,9 +205,9 @@ const std::complex<float> If(0.,1.);
 	}
 	LogMsg(VERB_NORMAL, "[sca] Allocating RAM for CPU ");
 
-	LogMsg(VERB_NORMAL, "[sca] Number of points to be allocatted: v3[m]  %llu n2(Lz+2)[v] %llu n3[str]", v3, (n2*(nLz + 2)),n3);
+	LogMsg(VERB_NORMAL, "[sca] Number of points to be allocatted: v3[m]  %llu n2(Lz+2Ng)[v] %llu n3[str]", v3, (n2*(nLz + 2*Ng)),n3);
 	const size_t	mBytes = v3*fSize;
-	const size_t	vBytes = (n2*(nLz + 2))*fSize;
+	const size_t	vBytes = (n2*(nLz + 2*(Ng > 1 ? Ng : 1)))*fSize;	// room for FFTs in place and for the ghosts of the paxion velocity
 	LogMsg(VERB_NORMAL, "[sca] Bytes to be allocatted: mBytes %.3e GB, vBytes %.3e GB, strBytes %.3e GB", mBytes/1e9, vBytes/1e9, n3/1e9);
 	size_t totalCPU = 0;
 	switch (fieldType)
-- 
2.43.0


From 652bfbfe1c763d1a0e4be61dac0b4d42c24899c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 11/87] fix: scaleField: m and v have eSize sites

---
 lib/scalar/scaleXeon.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index ead8533..fa2a452 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -6,25 +6,13 @@
 using namespace std;
 
 /*	Number of real values stored in the field, so scaling one field leaves the
-	memory that follows it alone:
-	m has v3 sites; v has two slices more than the lattice (or v3 sites for paxions);
-	m2 hosts complex data (padded FFTs, density maps) even when the field is real	*/
+	memory that follows it alone: m and v have v3 sites, m2 hosts complex data
+	(padded FFTs, density maps) even when the field is real	*/
 static size_t	realSize (Scalar *sField, FieldIndex fIdx)
 {
-	const size_t nData = sField->DataSize()/sField->Precision();
+	const size_t nData = (fIdx == FIELD_M2) ? 2 : sField->DataSize()/sField->Precision();
 
-	switch (fIdx)
-	{
-		case FIELD_V:
-		if (sField->Field() != FIELD_PAXION)
-			return nData*sField->Surf()*(sField->Depth() + 2);
-
-		case FIELD_M:
-		return nData*sField->eSize();
-
-		default:
-		return 2*sField->eSize();
-	}
+	return	nData*sField->eSize();
 }
 
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
-- 
2.43.0


From a6bf7f7237a706f5c757c0b326d9dd1a64984d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 12/87] fix: kinetic energy of the double precision saxion
 truncated 1/R^2 to an integer

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 458a30570f142404e8f6f47a5259b0aae9f5aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 13/87] fix: mean rho never stored, masked rho and mask size
 not reduced over threads in the double precision saxion energy

---
 lib/energy/energyXeon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..8d56bb4 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 02f10a01faee51c1fdff0b45d6a6d75932c0faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 14/87] fix: N=2 QCD potential energy was the constant
 (1-1/R^2)/2

---
 lib/energy/energyXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 8d56bb4..5ceee5c 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -429,8 +429,8 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 						mCg = opCode(mul_pd, hVec, opCode(md2_pd, opCode(mul_pd,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 = */
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1087,8 +1087,8 @@ if (emask & EN_ENE){
 						mCg = opCode(mul_ps, hVec, opCode(md2_ps, opCode(mul_ps,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 = */
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From fe82477315885a2e348258d9df8905ad68cd9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 15/87] fix: energy() normalised uninitialised entries and
 cDensityMap passed too short a buffer

---
 lib/energy/dContrast.cpp |  2 +-
 lib/energy/energy.cpp    | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/energy/dContrast.cpp b/lib/energy/dContrast.cpp
index aabe1aa..b9c4131 100755
--- a/lib/energy/dContrast.cpp
+++ b/lib/energy/dContrast.cpp
@@ -92,7 +92,7 @@ void	dContrast	(Scalar *axion, size_t &rSize, bool &rhoMap) {
 void	cDensityMap	(Scalar *axion, size_t rSize, bool rhoMap) {
 
 	if (axion->m2Status() != M2_ENERGY) {
-		double eRes[10];
+		double eRes[23];
 		energy(axion, eRes, EN_MAP, 0.);
 	}
 
diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..4df42e6 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -195,16 +195,18 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	trackFree(eTmp);
 
 	const double Vt  = 1./(field->TotalSize());
-	const double Vt2 = 1./( static_cast<double*>(eRes)[22] );
-	const double mi  = 1.*( static_cast<double*>(eRes)[22] );
-
 	#pragma unroll
-	for (int i=0; i<11; i++)
+	for (int i=0; i<(size < 11 ? size : 11); i++)
 		static_cast<double*>(eRes)[i] *= Vt;
 
-	#pragma unroll
-	for (int i=11; i<22; i++)
-		static_cast<double*>(eRes)[i] *= Vt2;
+	if (size > 11) {
+		const double mi  = static_cast<double*>(eRes)[22];
+		const double Vt2 = (mi > 0) ? 1./mi : 0.;
+
+		#pragma unroll
+		for (int i=11; i<22; i++)
+			static_cast<double*>(eRes)[i] *= Vt2;
+	}
 
 	prof.stop();
 
-- 
2.43.0


From 68ff416a7719c90c6c148db10bb3a6e664f1511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:41 +0000
Subject: [PATCH 16/87] fix: reducing an axion field out of place overwrote the
 source instead of filling the new field

---
 lib/reducer/reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..d0a6500 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,8 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				Float *mD      = static_cast<Float*>(outField->mStart());
+				memcpy(mD, fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From b5587c58085e8fb4eb1e438109dc30c23eabf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 17/87] fix: reducing a paxion read and wrote the velocity
 without its ghost offset

---
 lib/reducer/reducer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index d0a6500..5e5b587 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -246,7 +246,7 @@ Scalar*	Reducer<Float>::runCpu	()
 			// CASE AXION, AXION_MOD
 		} else {
 			Float          *mIn  = static_cast<Float*>         (axionField->mStart());
-			Float          *vIn  = static_cast<Float*>         (axionField->vCpu());
+			Float          *vIn  = static_cast<Float*>         (axionField->vStart());	// paxion velocities have ghosts
 			Float          *fOut = static_cast<Float*>         (axionField->m2Cpu());
 			complex<Float> *fMid = static_cast<complex<Float>*>(axionField->m2Cpu());
 
@@ -269,9 +269,12 @@ Scalar*	Reducer<Float>::runCpu	()
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
 
 			if (inPlace) {
-				memcpy(vIn, fOut, volData);
+				Float *vD      = static_cast<Float*>(axionField->vCpu());
+				if (axionField->Field() == FIELD_PAXION)
+					vD += newLx*newLx*axionField->getNg();
+				memcpy(vD, fOut, volData);
 			} else {
-				Float *vD      = static_cast<Float*>(outField->vCpu());
+				Float *vD      = static_cast<Float*>(outField->vStart());
 				// Copy v to the second axionField
 				memcpy(vD, fOut, volData);
 			}
-- 
2.43.0


From 2f6f338340fa8e6f8690ae7fe525c283fc1e7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 18/87] fix: paxion gradient energy divided by an extra R^2 (it
 already carries the documented 1/R^5)

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..2a5f679 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -31,7 +31,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 {
 
 	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
 	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
 
-- 
2.43.0


From 9cabcb97d06d26a35b77f7e5ed56c2a95db68f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 19/87] fix: paxion energy map misplaced, and written beyond
 m2, when the stencil range exceeds 1

---
 lib/energy/energyPaxionXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 2a5f679..ea9542a 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -33,7 +33,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 	const double R     = ppar.R;
 	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
@@ -95,7 +95,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From 4c2acb15ed3f358f79159d504567c2d77ef73e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 20/87] fix: paxion construction fell through into the faxion
 allocations and leaked its own

---
 lib/scalar/scalarField.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 61119d1..9ce13e2 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -240,6 +240,7 @@ const std::complex<float> If(0.,1.);
 			alignAlloc ((void**) &v,   mAlign, mBytes);
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes*2 + n3;
+			break;
 
 		case FIELD_FAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating theta, vheta, rho, vho, gra");
-- 
2.43.0


From 6018c7256affae43cea6da31f31756d17332347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 21/87] fix: string length of cubes pierced by three strings
 dropped terms (stray semicolons)

---
 lib/strings/length.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index aef5713..0e373c1 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -233,49 +233,49 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 					 	  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 					 		  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 				    double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			  + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			  + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				  + sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
-- 
2.43.0


From 9df024ed257a43b1ed01db7d4bda5814ad337d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 22/87] fix: string length ignored the strings crossing the
 upper face of each rank's slab

---
 lib/strings/length.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 0e373c1..19ca5c2 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -88,12 +88,17 @@ void setCross (std::complex<double> m, std::complex<double> mu, std::complex<dou
 // Function that calculates the length of strings
 // -----------------------------------------------------
 
-	/* As it is written, it requires string information from
-	the slice forward in z, but stringData is not ghosted,
-	and so the last slice cannot be computed reliably,
-	the plaquette XY at Z+1 does not exist in the desired rank
-	THIS NEEDS TO BE FIXED
-	The current PATCH simply ignores the problematic plaquettes */
+template<typename Float>
+static inline bool isPierced (std::complex<Float> a, std::complex<Float> b, std::complex<Float> c, std::complex<Float> d)
+{
+	/* Same criterion as stringCpu: net crossings of the real axis along the plaquette */
+	const std::complex<Float> p[5] = { a, b, c, d, a };
+	int hand = 0;
+	for (int i=0; i<4; i++)
+		if (p[i].imag()*p[i+1].imag() < 0)
+			hand += (p[i].imag()*p[i+1].real() - p[i].real()*p[i+1].imag() > 0) ? 1 : -1;
+	return (hand == 2) || (hand == -2);
+}
 
 template<typename Float>
 StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType strmeas)
@@ -205,9 +210,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						pos_y.push_back(iy + 1.);
 						pos_z.push_back(rank*Lz + iz + du[0]);
 					}
-					/* In the case iz = Lz-1 this would segfault */
-					if ( iz < Lz - 1 )
-					if (strdaa[izM] & STRING_XY) {
+					/* sData has no ghosts, in the last slice the plaquette is checked with the ghosts of m */
+					if ( (iz < Lz - 1) ? ((strdaa[izM] & STRING_XY) != 0) : isPierced(ma[izM],ma[izxM],ma[ixyzM],ma[iyzM]) ) {
 						double du[2];
 						setCross(ma[izM],ma[izxM],ma[iyzM],ma[ixyzM],du);
 						pos_x.push_back(ix + du[0]);
-- 
2.43.0


From 95c6d168caefd30a2b82bbe4f9cedb3cd7a4c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 23/87] fix: string velocities read past the end of v in the
 last slice of each rank

---
 lib/strings/length.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 19ca5c2..dd6dd01 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -318,6 +318,13 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		std::complex<Float> *va     = static_cast<std::complex<Float>*>(field->vCpu());
 
+		/* v has no ghosts, get the first slice of the next rank */
+		std::vector<std::complex<Float>> vGhost(Lx*Lx);
+		const int nRanks = commSize();
+		MPI_Sendrecv(va,            Lx*Lx*sizeof(std::complex<Float>), MPI_BYTE, (rank + nRanks - 1) % nRanks, 0,
+			     vGhost.data(), Lx*Lx*sizeof(std::complex<Float>), MPI_BYTE, (rank + 1) % nRanks,          0, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+		auto vz = [&] (size_t i) { return (i < Lx*Lx*Lz) ? va[i] : vGhost[i - Lx*Lx*Lz]; };
+
 		#pragma omp parallel for reduction(+:gamma,gamma2,vel,vel2)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
@@ -368,8 +375,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phic = ma[izM]/Rscale;
 							std::complex<double> phid = ma[iyzM]/Rscale;
 							std::complex<double> dphib = (va[iyM]-Hc*ma[iyM])/(Rscale*Rscale);
-							std::complex<double> dphic = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[iyzM]-Hc*ma[iyzM])/(Rscale*Rscale);
+							std::complex<double> dphic = (vz(izM)-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vz(iyzM)-Hc*ma[iyzM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
@@ -387,9 +394,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phib = ma[izM]/Rscale;
 							std::complex<double> phic = ma[ixM]/Rscale;
 							std::complex<double> phid = ma[izxM]/Rscale;
-							std::complex<double> dphib = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphib = (vz(izM)-Hc*ma[izM])/(Rscale*Rscale);
 							std::complex<double> dphic = (va[ixM]-Hc*ma[ixM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[izxM]-Hc*ma[izxM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vz(izxM)-Hc*ma[izxM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
-- 
2.43.0


From 0ce9378b5b191c46eecec15310911b3d4673549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 24/87] fix: string energy densities assumed a cubic box

---
 lib/strings/length.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index dd6dd01..2e8fc97 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -953,10 +953,10 @@ StringEnergyData stringenergy (Scalar *field)
 
 	strE.rho_a   = rhoa_sum/nout_sum;
 	strE.rho_s   = rhos_sum/nout_sum;
-	strE.rho_str = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a - strE.rho_s;
-	strE.rho_a_Vil = rhoaV_sum/(Lx*Lx*Lx);
-	strE.rho_s_Vil = rhosV_sum/(Lx*Lx*Lx);
-	strE.rho_str_Vil = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a_Vil - strE.rho_s_Vil;
+	strE.rho_str = rhotot_sum/field->TotalSize() - strE.rho_a - strE.rho_s;
+	strE.rho_a_Vil = rhoaV_sum/field->TotalSize();
+	strE.rho_s_Vil = rhosV_sum/field->TotalSize();
+	strE.rho_str_Vil = rhotot_sum/field->TotalSize() - strE.rho_a_Vil - strE.rho_s_Vil;
 	strE.nout = nout_sum;
 
 	commSync();
-- 
2.43.0


From 7bef43005a408b01ebb8d8e3e2615141abe06e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 25/87] fix: conformal Hubble rate was 0 for every expansion
 exponent below 2

---
 lib/scalar/scalarField.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 9ce13e2..4307d99 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1200,13 +1200,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
-	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
-	return Rp ;
+	// R'/R
+	return bckgnd->Rp(*z);
 }
 
 double	Scalar::AxionMass  () {
-- 
2.43.0


From f2a759109ec20287aff48c22e92e8bf96fd25448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 26/87] fix: string and wall flags were displaced along z when
 the stencil range exceeds 1

---
 lib/strings/stringXeon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..12a94cf 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,7 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+	/* the kernel expects the field to start one slice after the pointer, mStart is Ng slices after mCpu */
+	const void *m = static_cast<const char *>(field->mStart()) - S*field->DataSize();
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From 1b493b28c3008c2ca0bfeff2694a909dc83e9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 27/87] fix: theta and rho histograms were displaced onto the
 ghosts when the stencil range exceeds 1

---
 lib/meas/measa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..84ad710 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -849,7 +849,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -864,7 +864,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
-- 
2.43.0


From 3d18b210608488d2f54084daa599c472e92de1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 28/87] fix: histograms were dropped when the first value was
 infinite

---
 include/utils/binner.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/utils/binner.h b/include/utils/binner.h
index 9848468..9765872 100644
--- a/include/utils/binner.h
+++ b/include/utils/binner.h
@@ -103,9 +103,14 @@
 		if ((inData == nullptr) || (dSize == 0))
 			return ;
 
-		auto	car = filter(inData[0]);
-		auto	cir = filter(inData[0]);
-		int	anf =0;
+		/* start from the first finite value, infinities are ignored everywhere */
+		size_t	first = 0;
+		while (first+1 < dSize && (first%PaddedLength >= DataLength || std::isinf(filter(inData[first]))))
+			first++;
+
+		auto	car = filter(inData[first]);
+		auto	cir = filter(inData[first]);
+		int	anf = (first > 0 && std::isinf(filter(inData[0]))) ? 1 : 0;
 		int Ninf = 0;
 
 		if (PaddedLength == DataLength) {
-- 
2.43.0


From 3e97984d908d744fd7a6828f2831d6454283d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 29/87] fix: linear potential spectrum of the complex field
 used the arguments of atan2 in the wrong order

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From 907e8c4857b75989ba06d5d2d1f693fcbf74fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 30/87] fix: potential spectrum (NRUN_CV) was built from the
 field displaced by one slice

---
 lib/spectrum/spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..b9705ea 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1205,8 +1205,8 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
-						size_t zp = Ly*Ly*(iz+1) ;
+						size_t zi = Ly*Ly*(iz+1) ;
+						size_t zp = Ly*Ly*(iz+2) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
 							size_t yi = Ly*iy ;
@@ -1225,7 +1225,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
-- 
2.43.0


From 2ba94f58dbbcb3dbe15b4fd888178be92156597a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 31/87] fix: velocity of a complex field was filtered with
 transposed wave vectors when reducing the grid

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..6565ddc 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From 58db0ef5e97b5dc4db75c7fec2e7fbac953b329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 32/87] fix: expanding a grid extrapolated / skipped points for
 non-integer ratios and used the x ratio along z

---
 include/utils/simpleops.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..e97415b 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -193,7 +193,8 @@
 		Lmin = ceil(n*N'/N)
 		Lmax = floor((n+1)*N'/N)
 		*/
-		double r = ((double) nx)/((double) Nx);
+		double r  = ((double) nx)/((double) Nx);
+		double rz = ((double) nz)/((double) Nz);
 
 		#pragma omp parallel default(shared)
 		{
@@ -207,11 +208,13 @@
 			#pragma omp for schedule(static)
 			for (size_t riz = 0; riz < nz; riz++) {
 			 iz0 = (riz*Nz)/nz;
+			 if (riz*Nz % nz) iz0++;
 			 izM = ((riz+1)*Nz)/nz;
 			 if ((riz+1)*Nz % nz ==0) izM--;
 
 			 for (size_t riy = 0; riy < nx; riy++) {
 				iy0 = (riy*Nx)/nx;
+				if (riy*Nx % nx) iy0++;
 				iyM = ((riy+1)*Nx)/nx;
                                 if ((riy+1)*Nx % nx ==0) iyM--;
 				for (size_t rix = 0; rix < nx; rix++) {
@@ -236,13 +239,13 @@
 					//iy0 = (riy*Nx)/nx;
 					// if (riy*Nx % nx) iy0++;
 					ix0 = (rix*Nx)/nx;
-					// if (rix*Nx % nx) ix0++;
+					if (rix*Nx % nx) ix0++;
 					//izM = ((riz+1)*Nz)/nz;
 					//if ((riz+1)*Nz % nz ==0) izM--;
 					//iyM = ((riy+1)*Nx)/nx;
 					//if ((riy+1)*Nx % nx ==0) iyM--;
 					ixM = ((rix+1)*Nx)/nx;
-					if ((rix+1)*Nz % nx ==0) ixM--;
+					if ((rix+1)*Nx % nx ==0) ixM--;
 
 
 					for (size_t iz = iz0; iz <= izM; iz++) {
@@ -252,7 +255,7 @@
 
 								dx = r*ix - ((double) rix);
 								dy = r*iy - ((double) riy);
-								dz = r*iz - ((double) riz);
+								dz = rz*iz - ((double) riz);
 
 
 								s[ix+Nx*(iy+Nx*iz)] =
-- 
2.43.0


From f7375e63f82b4f251e2d6200792ecc4985201865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 33/87] fix: Hubble rate, acceleration and mass derivatives
 ignored the matter term of the scale factor when gravity is on

---
 lib/cosmos/cosmos.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..2279e32 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -184,6 +184,9 @@ double  Cosmos::Rpp  (const double ct)
     // R''/R = frw(frw-1)/ct^2
   	//except in the case where frw = 0,1
   	rpp = frw*(frw-1.0)/(ct*ct) ;
+  	// R = ct + grav ct^2/4
+  	if (frw == 1 && icdatastruc.grav > 0.0)
+  		rpp = 0.5*icdatastruc.grav/R(ct);
   }
 LogMsg(VERB_PARANOID,"[Cos:Rpp] Rpp %.2e ",rpp);
   return rpp;
@@ -200,6 +203,9 @@ double  Cosmos::Rp  (const double ct)
   // R = ct^frw
   // R'/R = frw/ct
 	rp = frw/(ct) ;
+  // R = ct + grav ct^2/4
+  if (frw == 1 && icdatastruc.grav > 0.0)
+    rp = (1 + 0.5*ct*icdatastruc.grav)/R(ct);
   LogMsg(VERB_PARANOID,"[Cos] Rp = %e ",rp);
   }
   return rp;
@@ -272,17 +278,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
@@ -306,19 +312,19 @@ double  Cosmos::DlogMARDlogct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From 88d1aa51183000ba29c993d0b944239853f53c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 34/87] fix: tabulated QCD cosmology used uninitialised loop
 counters and paths, and a misplaced parenthesis in the derivative of mA R

---
 lib/cosmos/cosmos.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 2279e32..18452c3 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -21,7 +21,7 @@ void Cosmos::Setup()
 
   /*Read Cosmology*/
 
-  char cosName[2048];
+  char cosName[2048] = ".";
   if (const char *cosPath = std::getenv("JAXIONS_DIR")) {
     if (strlen(cosPath) < 1022) {
       struct stat tStat;
@@ -32,7 +32,7 @@ void Cosmos::Setup()
       }
     }
   }
-  sprintf(cosName, "%s%s", cosName,  "/include/cosmos/jaxi-cosmo.txt");
+  strcat(cosName, "/include/cosmos/jaxi-cosmo.txt");
   std::vector<double>	etav, Rv, Tv, Rppv, chiv, pfv;
   FILE *cFile = nullptr;
   if (((cFile  = fopen(cosName, "r")) == nullptr)){
@@ -90,7 +90,7 @@ void Cosmos::Setup()
   LogFlush();
   {
     std::vector<double>	letav;
-    for (int i; i < etav.size();i++)
+    for (size_t i=0; i < etav.size();i++)
       letav.push_back(std::log10(etav[i]));
 
     double lfA = std::log10(fA);
@@ -132,7 +132,7 @@ void Cosmos::Setup()
     in ADM units we thus have R_ctct/R = Rpp/ct^2
     should we tabulate however the log, which extrapolates safely to 0? */
 
-  for (int i; i < etav.size();i++){
+  for (size_t i=0; i < etav.size();i++){
     etav[i] /= eta1;
     Rv[i]   /= R1;
     chiv[i] /= chi1;
@@ -150,9 +150,10 @@ void Cosmos::Setup()
     char baseco[256];
     sprintf(baseco, "out/cosmos.txt");
     file_co = fopen(baseco,"w+");
-    for (size_t i=0; i<etav.size(); i++)
+    for (size_t i=0; file_co != NULL && i<etav.size(); i++)
       fprintf(file_co,"%e %e %e %e %e %e\n",etav[i], Rv[i], Tv[i], Rppv[i], chiv[i], pfv[i]);
-    fclose(file_co);
+    if (file_co != NULL)
+      fclose(file_co);
   }
   LogMsg(VERB_NORMAL,"[Cos] Setup of Cosmos printed\n",chi1);
 
@@ -302,7 +303,7 @@ double  Cosmos::DlogMARDlogct (const double ct)
 {
   if (ueCosm){
     double e = 1.e-6;
-    return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
+    return ct*(std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
     /*(nqcd/2 + 1)*frw*/
-- 
2.43.0


From 0b5bee9b0ba87e69eb4de5b51628341928a6ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 35/87] fix: saxion shift at a given time was evaluated at the
 current time

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 4307d99..d65cb72 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1482,13 +1482,13 @@ double  Scalar::Saskia  (const double ct)
 
 		case    V_QCD1:
 			if 			((pot & V_PQ) & (V_PQ1 | V_PQ3)){
-				double sh = SaxionShift();
+				double sh = SaxionShift(ct);
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ1 %e",sh);
 				return sh;
 			}
 			else if ((pot & V_PQ) == V_PQ2)
 			{
-				double sh = rsvPQ2(AxionMassSq()/bckgnd->LambdaP (*z));
+				double sh = rsvPQ2(AxionMassSq(ct)/bckgnd->LambdaP (ct));
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ2 %e",sh);
 				return sh ;
 			}
-- 
2.43.0


From 01d32c2483be5bc7262967274416ecf69bc9bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 36/87] fix: --lz2e was ignored together with --llcf while zi
 and msa were computed with it

---
 lib/utils/parse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..0c41e7c 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -2753,7 +2753,7 @@ Cosmos	createCosmos()
 			myCosmos.SetLambda(LL);
 
 		if (uMsa || uLambda)
-			myCosmos.SetLamZ2Exp( (lType == LAMBDA_Z2) ? lz2e : 0.0);
+			myCosmos.SetLamZ2Exp(lz2e);
 
 		if (uQcd)
 			myCosmos.SetQcdExp(nQcd);
@@ -2793,7 +2793,7 @@ Cosmos	createCosmos()
 
 	} else {
 		myCosmos.SetLambda  (LL);
-		myCosmos.SetLamZ2Exp( (lType == LAMBDA_Z2) ? lz2e : 0.0);
+		myCosmos.SetLamZ2Exp(lz2e);
 		myCosmos.SetQcdExp  (nQcd);
 		myCosmos.SetGamma   (gammo);
 		myCosmos.SetDecTime   (dectime);
-- 
2.43.0


From 56b6fa724db5ccbfdcbeedba3f88ad8540636e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 37/87] fix: time integrals of the axion mass missed the
 saturated value and compared conformal time with a scale factor

---
 lib/scalar/scalarField.cpp | 140 ++++++++++---------------------------
 1 file changed, 38 insertions(+), 102 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index d65cb72..09f5d7e 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1213,116 +1213,52 @@ double	Scalar::AxionMassSq() {
 }
 
 // time integral of the axion mass^2 R^n assuming it is a truncated power law
-// and R = z^frw
+// and R = z^frw; assumes zrestore is infty
 double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
-	double &indi3    = bckgnd->Indi3();
-	double &nQcd     = bckgnd->QcdExp();
-
-	// assume zrestore is infty
-	// exponent of the time integral
-	if (z > z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z0 > zThRes && (z >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	double frw   = bckgnd->Frw();
+	double nQcd  = bckgnd->QcdExp();
+	double mass2 = bckgnd->Indi3()*bckgnd->Indi3();
+	double zTh   = pow(bckgnd->ZThRes(), 1.0/frw);		// conformal time at which R = zThRes
+	double e1    = frw*(nQcd+nn) + 1;
+	double e2    = frw*nn + 1;
+
+	if (frw == 0.0)
+		return	AxionMassSq()*(z-z0);
+
+	auto prim = [&] (double t) {
+		return	(t <= zTh) ? mass2*pow(t, e1)/e1 : mass2*(pow(zTh, e1)/e1 + pow(zTh, frw*nQcd)*(pow(t, e2)-pow(zTh, e2))/e2);
+	};
+
+	return	prim(z) - prim(z0);
 }
 
 // 2nd time integral of the axion mass^2 R^n assuming it is a truncated power law
-// and R = z^frw
+// and R = z^frw; assumes zrestore is infty
 double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
-	double &indi3    = bckgnd->Indi3();
-	double &nQcd     = bckgnd->QcdExp();
-
-	// assume zrestore is infty
-	// exponent of the time integral
-	if (z>z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	double frw   = bckgnd->Frw();
+	double nQcd  = bckgnd->QcdExp();
+	double mass2 = bckgnd->Indi3()*bckgnd->Indi3();
+	double zTh   = pow(bckgnd->ZThRes(), 1.0/frw);		// conformal time at which R = zThRes
+	double e1    = frw*(nQcd+nn) + 1;
+	double e2    = frw*nn + 1;
+
+	if (frw == 0.0)
+		return	AxionMassSq()*0.5*(z-z0)*(z-z0);
+
+	auto prim = [&] (double t) {
+		if (t <= zTh)
+			return	mass2*pow(t, e1+1)/(e1*(e1+1));
+		double mth = mass2*pow(zTh, frw*nQcd);
+		return	mass2*pow(zTh, e1+1)/(e1*(e1+1)) + mass2*pow(zTh, e1)*(t-zTh)/e1
+			+ mth*((pow(t, e2+1)-pow(zTh, e2+1))/(e2+1) - pow(zTh, e2)*(t-zTh))/e2;
+	};
+
+	// first primitive at z0
+	double slope = (z0 <= zTh) ? mass2*pow(z0, e1)/e1 : mass2*(pow(zTh, e1)/e1 + pow(zTh, frw*nQcd)*(pow(z0, e2)-pow(zTh, e2))/e2);
 
+	return	prim(z) - prim(z0) - slope*(z-z0);
 }
 // Saxion mass squared, perhaps the following functions could be rewriten to use this one
 double  Scalar::SaxionMassSq  ()
-- 
2.43.0


From f59ea7808a0c6c38112d3ec49524217da738eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 38/87] fix: time step across the saturation of the axion mass
 ignored the matter term of the scale factor when gravity is on

---
 lib/scalar/scalarField.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 09f5d7e..8a33457 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1331,6 +1331,10 @@ double	Scalar::dzSize	   (double zNow) {
 			/* Rather, go a ministep ahead */
 			double zNext = zNow + dct;
 			dct = pow(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()),1.0/bckgnd->Frw()) - zNow;
+			/* R = ct + grav ct^2/4 */
+			double grav = bckgnd->ICData().grav;
+			if (bckgnd->Frw() == 1.0 && grav > 0.0)
+				dct = 2.0*(std::sqrt(1.0 + grav*(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()))) - 1.0)/grav - zNow;
 			LogMsg(VERB_PARANOID,"[sca:ct] >> dct decreased to %e just jump over Rc [ct,ct_Next,ct+sct]",dct, zNow, zNext,zNow+dct);
 		}
 	LogMsg(VERB_HIGH,"[sca:ct] dct = %e ct = %e",dct,zNow);
-- 
2.43.0


From 88f4a77661e389949d0318864043042df9d0a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 39/87] fix: spectral Laplacian used the wave numbers of a
 cubic box along z when depth and size differ

---
 lib/propagator/laplacian.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/propagator/laplacian.cpp b/lib/propagator/laplacian.cpp
index fea8efc..5aa59e9 100755
--- a/lib/propagator/laplacian.cpp
+++ b/lib/propagator/laplacian.cpp
@@ -96,7 +96,9 @@ void	Laplacian::lapCpu	(std::string name)
 				if (pz > hTz)
 					pz -= Tz;
 
-				size_t p2 = pz*pz + py*py + px*px;
+				/* fMom is (2pi/L)^2 with L the length of x,y; the length of z is L Tz/Lx */
+				double dz = ((double) pz)*((double) Lx)/((double) Tz);
+				double p2 = dz*dz + (double) (py*py + px*px);
 
 				mData[idx] *= (cFloat) (p2);
 			}
-- 
2.43.0


From f60bf54dd52f6f70b13013350c8fa50e43842088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 40/87] fix: sign of the N=2 QCD force in the spectral saxion
 kernel

---
 include/propagator/sPropXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index 8cfffd7..c6e99d2 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -179,7 +179,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -400,7 +400,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+						mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_ps,
-- 
2.43.0


From 32caaa8d3a30094d3e271ab44ba706c0b3e21376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 41/87] fix: damping of the spectral saxion kernel assumed R =
 conformal time and ignored --dectime

---
 include/propagator/propClass.h |  3 +++
 include/propagator/sPropXeon.h | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index c3569aa..2b51bb6 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -814,6 +814,7 @@
 		ppar.ood2a  = ood2;
 		ppar.gamma  = axion->BckGnd()->Gamma();
 		ppar.frw    = axion->BckGnd()->Frw();
+		ppar.dectime= axion->BckGnd()->DecTime();
 		ppar.fMom1 = -(4.*M_PI*M_PI)/(axion->BckGnd()->PhysSize()*axion->BckGnd()->PhysSize()*((double) axion->TotalSize()));
 
 		/* Returns ghost size region in slices */
@@ -836,6 +837,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, d0, S, V+S, precision);
 			*z += dz*d0;
@@ -853,6 +855,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, S, V+S, precision);
 		}
diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index c6e99d2..a2edc20 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -41,6 +41,8 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 	const double gamma = ppar.gamma;
 	const double LL    = ppar.lambda;
 	const double Rpp   = ppar.Rpp;
+	const double Rp    = ppar.Rp;
+	const double deti  = ppar.dectime;
 	const double fMom  = ppar.fMom1;
 
 	if (precision == FIELD_DOUBLE)
@@ -80,7 +82,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 
 		const double R4 = R2*R2;
 		const double LaLa = LL*2./R4;
-		const double GGGG = gamma/R;
+		double GGGG = gamma/R;
+		if (deti > 0.0)
+			GGGG *= R2/deti;
 		const double mola = GGGG*dzc/2.;
 		const double damp1 = 1./(1.+mola);
 		const double damp2 = (1.-mola)*damp1;
@@ -225,13 +229,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					tmp = opCode(sub_pd,
 						opCode(fmadd_pd, mMx, opCode(set1_pd, dzc), mPy),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
-							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
+							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #else
 					tmp = opCode(sub_pd,
 						opCode(add_pd, mPy, opCode(mul_pd, mMx, opCode(set1_pd, dzc))),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
 							opCode(add_pd,
-								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0)),
+								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0)),
 								opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #endif
 						break;
@@ -308,7 +312,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 		const float zN = gasa;
 
 		const float LaLa = LL*2.f/R4;
-		const float GGGG = gamma/Rf;
+		float GGGG = gamma/Rf;
+		if (deti > 0.0)
+			GGGG *= R2/deti;
 		const float mola = GGGG*dzc/2.f;
 		const float damp1 = 1.f/(1.f+mola);
 		const float damp2 = (1.f-mola)*damp1;
@@ -450,13 +456,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 				tmp = opCode(sub_ps,
 					opCode(fmadd_ps, mMx, opCode(set1_ps, dzc), mPy),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
-						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
+						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, (float) Rp))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #else
 				tmp = opCode(sub_ps,
 					opCode(add_ps, mPy, opCode(mul_ps, mMx, opCode(set1_ps, dzc))),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
 						opCode(add_ps,
-							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f)),
+							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, (float) Rp))), opCode(set1_ps, 2.f)),
 							opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #endif
 					}
-- 
2.43.0


From ae4734dc0a174880690b6a80ef5bd4fd10f6c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 42/87] fix: spectral propagator of the axion angle missed the
 R''/R term

---
 include/propagator/propClass.h      | 4 ++--
 include/propagator/sPropThetaXeon.h | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 2b51bb6..3ff8e8f 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -618,7 +618,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 			*z += dz*d[s];
 			axion->updateR();
 		}
@@ -636,7 +636,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..5e6b4d1 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double fMom, const double Rpp, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -70,6 +70,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_pd, dzc);
 		const _MData_ dzdVec = opCode(set1_pd, dzd);
 		const _MData_ fMVec  = opCode(set1_pd, fMom);
+		const _MData_ RppVec = opCode(set1_pd, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -87,10 +88,12 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 #if	defined(__AVX512F__) || defined(__FMA__)
 				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fmadd_pd, RppVec, mel, acu);
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
 				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(add_pd, acu, opCode(mul_pd, RppVec, mel));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -147,6 +150,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_ps, dzc);
 		const _MData_ dzdVec = opCode(set1_ps, dzd);
 		const _MData_ fMVec  = opCode(set1_ps, fMom);
+		const _MData_ RppVec = opCode(set1_ps, (float) Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -165,10 +169,12 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 #if	defined(__AVX512F__) || defined(__FMA__)
 				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fmadd_ps, RppVec, mel, acu);
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
 				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(add_ps, acu, opCode(mul_ps, RppVec, mel));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
-- 
2.43.0


From 87bd9fcd0ba0e9d7cc6ff5d86a7dd2ea7921c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 43/87] fix: spectral propagator of the axion angle used the
 cosine potential whatever potential was selected

---
 include/propagator/propClass.h      |  4 ++--
 include/propagator/sPropThetaXeon.h | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 3ff8e8f..a1de581 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -618,7 +618,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
+			sPropThetaKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 			*z += dz*d[s];
 			axion->updateR();
 		}
@@ -636,7 +636,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
+			sPropThetaKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 5e6b4d1..623c85b 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -26,7 +26,8 @@
 	#endif
 #endif
 
-void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
+template<const VqcdType VQcd>
+inline	void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
 			     const double aMass2, const double fMom, const double Rpp, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
@@ -53,7 +54,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const double zR = *R;
 		const double iZ = 1./zR;
 		//const double zQ = 9.*pow(zR, nQcd+3.);
-		const double zQ = aMass2*zR*zR*zR;
+		const double zQ = ((VQcd & V_QCD) == V_QCD0) ? 0.0 : aMass2*zR*zR*zR;
 
 #if	defined(__AVX512F__)
 //		const size_t XC = (Lx<<3);
@@ -86,13 +87,17 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				mel = opCode(load_pd, &m[idx]);
 				vel = opCode(load_pd, &v[idxMz]);
 
+				auto force = opCode(mul_pd, mel, izVec);
+				if ((VQcd & V_QCD) != V_QCDL)
+					force = opCode(sin_pd, force);
+
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fnmadd_pd, zQVec, force, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
 				acu = opCode(fmadd_pd, RppVec, mel, acu);
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, force));
 				acu = opCode(add_pd, acu, opCode(mul_pd, RppVec, mel));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
@@ -128,7 +133,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const float zR = *R;
 		const float iZ = 1./zR;
 		//const float zQ = 9.*powf(zR, nQcd+3.);
-		const float zQ = (float) (aMass2*zR*zR*zR);
+		const float zQ = ((VQcd & V_QCD) == V_QCD0) ? 0.f : (float) (aMass2*zR*zR*zR);
 #if	defined(__AVX512F__)
 //		const size_t XC = (Lx<<4);
 //		const size_t YC = (Lx>>4);
@@ -166,14 +171,18 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				mel = opCode(load_ps, &m[idx]);
 				vel = opCode(load_ps, &v[idxMz]);
 
+				auto force = opCode(mul_ps, mel, izVec);
+				if ((VQcd & V_QCD) != V_QCDL)
+					force = opCode(sin_ps, force);
+
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fnmadd_ps, zQVec, force, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
 				acu = opCode(fmadd_ps, RppVec, mel, acu);
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, force));
 				acu = opCode(add_ps, acu, opCode(mul_ps, RppVec, mel));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
-- 
2.43.0


From e55f3be2e222e444a138fd69a10bc8c7e65f9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 44/87] fix: spectral saxion kernel kept the QCD force when
 evolving only the radial mode

---
 include/propagator/sPropXeon.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index a2edc20..6cc14cd 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -175,6 +175,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					break;
 				}
 				/* mMx = mMx + VQCD part */
+				if ( !(VQcd & V_EVOL_RHO) )
 				switch	(VQcd & V_QCD) {
 					case V_QCD1:
 						mMx = opCode(add_pd, mMx, zQVec);
@@ -398,6 +399,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					break;
 				}
 				/* mMx = mMx + VQCD part */
+				if ( !(VQcd & V_EVOL_RHO) )
 				switch	(VQcd & V_QCD) {
 					case V_QCD1:
 						mMx = opCode(add_ps, mMx, zQVec);
-- 
2.43.0


From 301f3b1408b768d43914c6315d52b7ddd6d2fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 45/87] fix: self-interaction of the non-relativistic axion
 divided by zero when R ~ sqrt(ct)

---
 include/propagator/propPaxXeon.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 403d816..f01674d 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -45,7 +45,9 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
-	const double KKt  = ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
+	/* int d ct/R^2 with R a powerlaw; for R ~ sqrt(ct) the integral is a logarithm */
+	const double KKt  = (std::abs(u) < 1.e-8) ? ppar.sign*ppar.beta*ct*std::log(1.0 + dz/ct)/(8.0*R*R) :
+			    ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
 	LogMsg(VERB_PARANOID,"PPX KKt %e ");
 	/* integrate in time assuming powerlaw int d z/ m_A R */
-- 
2.43.0


From 573eaf18db20fb8e34d7c51751c4c237bae8a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 46/87] fix: gravitational potential used the wave numbers of a
 cubic box along z when depth and size differ

---
 include/gravity/potentialClass.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index d3b09e4..2652351 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -331,7 +331,9 @@ report (index, red, pad, fft, 1, "FFT");
 				ky += (int) zBase;
 				if (ky > static_cast<int>(hLy)) ky -= static_cast<int>(Lx);
 				if (kz > static_cast<int>(hTz)) kz -= static_cast<int>(Tz);
-				Float k2    = (Float) (kx*kx + ky*ky + kz*kz);
+				/* the box is Tz/Lx times as deep as wide */
+				Float kzs   = ((Float) kz)*((Float) Lx)/((Float) Tz);
+				Float k2    = ((Float) (kx*kx + ky*ky)) + kzs*kzs;
 				m2[idx]	*= fnorm/k2;
 			}
 			/* mode 0 to zero */
@@ -652,7 +654,8 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 			if (ky > static_cast<int>(hrLy)) ky -= static_cast<int>(rLx);
 			if (kz > static_cast<int>(hrTz)) kz -= static_cast<int>(rTz);
 
-			Float k2    = (Float) (kx*kx + ky*ky + kz*kz);
+			Float kzs   = ((Float) kz)*((Float) Lx)/((Float) Tz);
+			Float k2    = ((Float) (kx*kx + ky*ky)) + kzs*kzs;
 			/* We also shift it by delta/2*/
 			// Float phi = (Float) M_PI*( (((double) kx) / ((double) rLx)) + (((double) ky) / ((double) rLx)) + (((double) kz) / ((double) rTz))  ) ;
 			Float phix = (Float) M_PI* ( ((Float) (kx)) / ((Float) rLx)) ;
-- 
2.43.0


From bc516623e8121484a760f26aa846e01a8ce5dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 47/87] fix: mean density subtracted by the hybrid gravity
 solver was the one of each rank

---
 include/gravity/potentialClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index 2652351..2ef5604 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -798,7 +798,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 			MPI_Allreduce (&eA, &eAl, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
 
-			eA /= (double) tsize;
+			eA = eAl/((double) tsize);
 
 		LogMsg (VERB_PARANOID, "[bcon] contrast build, eA = %e ",eA);
 
-- 
2.43.0


From ba27b86b97837ac1809eea704bf6e325860a9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 48/87] fix: double precision relaxation of the gravitational
 potential read through an uninitialised pointer

---
 include/gravity/gravityPaxionXeon.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 3b21a98..7af8a4d 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -379,45 +379,45 @@
 									idxMy = ( idx + Sf - nv*XC );
 									idxPy = ( idx + nv*XC );
 
-									mPy = opCode(load_pd, &m[idxPy]);
+									mPy = opCode(load_pd, &m2h[idxPy]);
 	#ifdef	__AVX512F__
-									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m[idxMy]));
+									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m2h[idxMy]));
 	#elif	defined(__AVX2__)
-									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
+									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
 	#elif	defined(__AVX__)
-									acu = opCode(permute_pd, opCode(load_pd, &m[idxMy]), 0b00000101);
+									acu = opCode(permute_pd, opCode(load_pd, &m2h[idxMy]), 0b00000101);
 									vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 									mMy = opCode(blend_pd, acu, vel, 0b00000101);
 	#else
-									acu = opCode(load_pd, &m[idxMy]);
+									acu = opCode(load_pd, &m2h[idxMy]);
 									mMy = opCode(shuffle_pd, acu, acu, 0x00000001);
 	#endif
 								}
 	else
 								{
 									idxMy = ( idx - nv*XC );
-									mMy = opCode(load_pd, &m[idxMy]);
+									mMy = opCode(load_pd, &m2h[idxMy]);
 
 									if (X[1] + nv >= YC)
 									{
 										idxPy = ( idx + nv*XC - Sf );
 	#ifdef	__AVX512F__
-										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m[idxPy]));
+										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m2h[idxPy]));
 	#elif	defined(__AVX2__)	//AVX2
-										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
+										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
 	#elif	defined(__AVX__)
-										acu = opCode(permute_pd, opCode(load_pd, &m[idxPy]), 0b00000101);
+										acu = opCode(permute_pd, opCode(load_pd, &m2h[idxPy]), 0b00000101);
 										vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 										mPy = opCode(blend_pd, acu, vel, 0b00001010);
 	#else
-										vel = opCode(load_pd, &m[idxPy]);
+										vel = opCode(load_pd, &m2h[idxPy]);
 										mPy = opCode(shuffle_pd, vel, vel, 0x00000001);
 	#endif
 									}
 									else
 									{
 										idxPy = ( idx + nv*XC );
-										mPy = opCode(load_pd, &m[idxPy]);
+										mPy = opCode(load_pd, &m2h[idxPy]);
 									}
 								}
 
@@ -431,8 +431,8 @@
 													opCode(add_pd,
 														opCode(add_pd, mPy, mMy),
 															opCode(add_pd,
-																opCode(add_pd, opCode(load_pd, &m[idxPx]), opCode(load_pd, &m[idxMx])),
-																	opCode(add_pd, opCode(load_pd, &m[idxPz]), opCode(load_pd, &m[idxMz]))
+																opCode(add_pd, opCode(load_pd, &m2h[idxPx]), opCode(load_pd, &m2h[idxMx])),
+																	opCode(add_pd, opCode(load_pd, &m2h[idxPz]), opCode(load_pd, &m2h[idxMz]))
 															)
 													),
 													opCode(mul_pd, mel, m6Vec));
-- 
2.43.0


From 7dec0a38a09fe48db6626fe4c52b94f53d27edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 49/87] fix: hybrid gravity solver used the momenta of the full
 grid for its reduced grid on every rank but the first

---
 include/gravity/potentialClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index 2ef5604..54842e3 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -649,7 +649,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 			int    kx  = idx - tmp*hrLx;
 			int    ky  = tmp/rTz;
 			int    kz  = tmp - ((size_t) ky)*rTz;
-			ky += (int) zBase;
+			ky += (int) (zBase/ref);	// reduced grid
 
 			if (ky > static_cast<int>(hrLy)) ky -= static_cast<int>(rLx);
 			if (kz > static_cast<int>(hrTz)) kz -= static_cast<int>(rTz);
-- 
2.43.0


From 1896b4fad851bf9f86873756ad9593b88c1a6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 50/87] fix: amplitude correction of the non-relativistic axion
 was R^3 times too large

---
 lib/scalar/theta2PaxionXeon.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..fc49455 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -15,15 +15,14 @@ void	th2PaxionXeon (Scalar *sField)
 		const size_t S  = sField->Surf();
 
 		double mA    = sField->AxionMass();
-		double R2    = (*sField->RV())*(*sField->RV());
-		double ct    = (*sField->zV());
-		double frw   = (sField->BckGnd()->Frw());
+		double R     = *sField->RV();
+		double Rp    = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 		double mA2   = (sField->AxionMassSq());
 		double DmA2ct= sField->BckGnd()->DAxionMass2Dct(*sField->zV());
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		Float adiab  = (Float) ((DmA2ct + 2*Rp*mA2)/(4*mA2*mA*R)) ;
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From 91c23fb4c780ddf8873d25e5b100764a095a90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 51/87] fix: velocity of a mended axion field was shifted as if
 R'=1

---
 lib/scalar/mendThetaXeon.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..30d8fd6 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double dV, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, dV);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, dV);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double dV, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= dV;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += dV;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= dV;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += dV;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double dV, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= dV;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += dV;
 						count++;
 					}
 
@@ -1081,30 +1081,31 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	const double	dV    = 2.*M_PI*R*field->BckGnd()->Rp(*field->zV());	// (R theta)' jumps by 2 pi R'
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, dV, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, dV, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, dV, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, dV, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, dV, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, dV, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From 945295532305bcd1908b389f1f5dc3124ab10427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 52/87] fix: conversions between complex field and axion angle
 assumed R = ct or a power law for the velocity

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 lib/scalar/thetaXeon.cpp       | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..b48d2e5 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
diff --git a/lib/scalar/thetaXeon.cpp b/lib/scalar/thetaXeon.cpp
index 9ead872..1e4dfa2 100644
--- a/lib/scalar/thetaXeon.cpp
+++ b/lib/scalar/thetaXeon.cpp
@@ -28,9 +28,8 @@ void	toThetaKernelXeon (Scalar *sField, const Float shift)
 	Float *aField1  = static_cast<Float*>(sField->mFrontGhost()) ;
 	Float *aField2  = static_cast<Float*>(sField->mBackGhost()) ;
 
-	const Float z = static_cast<Float>(sField->zV()[0]);
 	const Float R = static_cast<Float>(sField->RV()[0]);
-	const Float F = static_cast<Float>(sField->BckGnd()->Frw())*R/z;
+	const Float F = static_cast<Float>(sField->BckGnd()->Rp(sField->zV()[0]))*R;
 
 	for (size_t cZ = 0; cZ < Lz; cZ++)
 	{
-- 
2.43.0


From f0ffb4426c67539e046c4ceaefe0a46949d2515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 53/87] fix: initial conditions ignored the value of mode0 and
 used 0 or 1 instead

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From 829c57c972833d45e75a316d97febfb97bf554bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 54/87] fix: initial conditions assumed that the total depth of
 the box equals its size

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..d4033a2 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From 24a16982c8ef3845b1ce6f53e0004d6605bc4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 55/87] fix: axiton initial conditions in double precision
 created parametric-resonance ones

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index d4033a2..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From 46e2b672859cef957740df6a9b87f0df0dc5c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 56/87] fix: cole initial conditions wrote through an
 uninitialised pointer and divided by an uninitialised mean

---
 lib/gen/genConf.cpp | 7 ++++---
 lib/gen/momConf.cpp | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..9cc9bff 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -885,6 +885,7 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
@@ -1638,7 +1639,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0., Mean = 0.;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1674,8 +1675,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 14f0003..a1fe2e6 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -435,6 +435,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<double, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<double, MOM_KCOLE> (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<double, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
@@ -484,6 +487,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<float, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<float, MOM_KCOLE> (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<float, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
-- 
2.43.0


From 989078de88a26388c6560505655ebe59f20e0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 57/87] fix: spectrum initial conditions of the complex field
 overwrote the velocity they were reading

---
 lib/gen/genConf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 9cc9bff..c3493bd 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1096,7 +1096,9 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<float> *co_m = static_cast<complex<float>*>(axionField->mStart());
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
 				float *f_m  = static_cast<float*>(axionField->m2Cpu());
-				float *f_v  = static_cast<float*>(axionField->vCpu());
+				/* v is expanded from real to complex, read it from a copy */
+				float *f_v  = f_m + vol;
+				memcpy     (f_v, axionField->vCpu(), sizeof(float)*vol);
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
@@ -1113,12 +1115,14 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<double> *co_m = static_cast<complex<double>*>(axionField->mStart());
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
 				double *f_m  = static_cast<double*>(axionField->m2Cpu());
-				double *f_v  = static_cast<double*>(axionField->vCpu());
+				/* v is expanded from real to complex, read it from a copy */
+				double *f_v  = f_m + vol;
+				memcpy     (f_v, axionField->vCpu(), sizeof(double)*vol);
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-					float theta  = f_m[idx]/R;
-					float thetap = f_v[idx]/R-theta*Rp;
+					double theta  = f_m[idx]/R;
+					double thetap = f_v[idx]/R-theta*Rp;
 					co_m[idx] = co_m[idx]*exp(complex<double>(0.0,theta))*R;
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
-- 
2.43.0


From 19581248498cf07333985117db167174a700a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 58/87] fix: zero mode of tkachev and thermal initial
 conditions was set in the velocity instead of the field

---
 lib/gen/momConf.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index a1fe2e6..af27d9a 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -353,17 +353,11 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 				{
 					LogMsg (VERB_NORMAL, "mode0 set to %f in rank %d", mode0, commRank());
 					// fM[0] = complex<Float>(cos(mode0), sin(mode0));
-					if (Moco == MOM_MVSINCOS || Moco == MOM_MVTHERMAL)
-						fV[0] = exp( complex<Float>(0,mode0) );
-						else
-						fM[0] = exp( complex<Float>(0,mode0) );
+					fM[0] = exp( complex<Float>(0,mode0) );
 				}
 				else
 				{
-					if (Moco == MOM_MVSINCOS || Moco == MOM_MVTHERMAL)
-						mode0 = atan2(fV[0].imag(),fV[0].real());
-						else
-						mode0 = atan2(fM[0].imag(),fM[0].real());
+					mode0 = atan2(fM[0].imag(),fM[0].real());
 
 					LogMsg (VERB_NORMAL, "mode0 is been randomly set to %f by rank %d", mode0, commRank());
 				}
-- 
2.43.0


From 87eec9327c15c178daf78bc85225f44dc0a2dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 59/87] fix: spectrum initial conditions of the complex field
 lost the scale factor when their cores were normalised

---
 lib/gen/genConf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index c3493bd..ceff708 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1127,9 +1127,11 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
 			}
-		/* Normalise cores? */
-		if (myCosmos->ICData().normcore)
+		/* Normalise cores? (to the conformal field in units of fA, i.e. without R) */
+		if (myCosmos->ICData().normcore) {
 			normCoreField	(axionField);
+			scaleField (axionField, FIELD_M, *axionField->RV());
+		}
 	}
 	LogMsg(VERB_NORMAL,"[GEN] CONF_SPAX end! \n");
 } // endconf spectrum axions
-- 
2.43.0


From f5b5b55f70867bea05ad2a367da811f29a90feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 60/87] fix: expansion of a configuration read from disk was
 always frw = 1, whatever the file or the command line said

---
 include/utils/parse.h      | 2 ++
 lib/io/readWrite.pHdf5.cpp | 9 ++++++---
 lib/utils/parse.cpp        | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..af4b67f 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -66,6 +66,8 @@ extern bool uPrec;
 //extern bool uGamma;
 //extern bool uPot;
 extern bool uZin;
+extern bool uFR;
+extern bool uMI;
 extern bool uZfn;
 extern bool aMod;
 extern bool spectral;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..efa1c29 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -864,13 +864,16 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
-			if (myCosmos->Frw() != fTmp) {
-				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
-				fTmp = myCosmos->Frw();
+			if (!uFR && !uMI) {
+				myCosmos->SetFrw(fTmp);
 				if (fTmp == 0.0 ){
 					myCosmos->SetMink(true);
 					LogMsg (VERB_NORMAL, "Set Mink (frw = 0, no expansion)");
 				}
+			} else {
+				LogMsg (VERB_NORMAL, "Frw (commandline): %.2f, h5read value %.2f",myCosmos->Frw(),fTmp);
+				if (myCosmos->Frw() == 0.0 )
+					myCosmos->SetMink(true);
 			}
 
 			/* Box length in ADM units */
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 0c41e7c..951146a 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -771,6 +771,7 @@ int	parseArgs (int argc, char *argv[])
 			}
 
 			frw = atof(argv[i+1]);
+			uFR = true;
 
 			if (frw < 0.)
 			{
-- 
2.43.0


From f2abff5d50f5381a4cb68ab2e4c348d009b8173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 61/87] fix: potentials PQ2 and PQ3 of a configuration were not
 recognised when it was read

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index efa1c29..06b80c3 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1091,9 +1091,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2") || !strcmp(vStr, "VPQ2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3") || !strcmp(vStr, "VPQ3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 9a40719b60752b65ce4aecac8e9d0724c53d7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 62/87] fix: configurations evolved only in theta were written
 as fully evolved

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 06b80c3..1ec3d08 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1136,6 +1137,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
@@ -1737,8 +1740,9 @@ void	createMeas (Scalar *axion, int index)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
-- 
2.43.0


From e62f0593a3872a6b36e55a78e85902348635dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 63/87] fix: slice of the energy map was always taken from the
 first rank, out of its bounds if another held it

---
 lib/io/readWrite.pHdf5.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 1ec3d08..239ce38 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -4047,7 +4047,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
 	hsize_t slb  = axion->Surf();
 	hsize_t lSz  = axion->Length();
-	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumbertoprint;
+	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*(slicenumbertoprint % axion->Depth());
 	// char eCh[16] = dataname;
 
 	LogMsg (VERB_NORMAL, "[wem] Writing 2D energy map to Hdf5 measurement file");
@@ -4083,12 +4083,8 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		dataType = H5T_NATIVE_FLOAT;
 	}
 
-	int slicenumber = slicenumbertoprint ;
-	if (slicenumbertoprint > axion->Depth())
-	{
-		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
-		slicenumber = 0;
-	}
+	/* The slice is held by only one of the ranks */
+	int prank = slicenumbertoprint/axion->Depth();
 
 	/*	Create a group for map data if it doesn't exist	*/
 	auto status = H5Lexists (meas_id, "/map", H5P_DEFAULT);
@@ -4114,7 +4110,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		exit (1);
 	}
 
-	if (myRank != 0) {
+	if (myRank != prank) {
 		H5Sselect_none(mapSpace);
 	}
 
@@ -4170,7 +4166,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 
 	hsize_t offset = 0;
 
-	if (myRank == 0) {
+	if (myRank == prank) {
 		H5Sselect_hyperslab(eSpace, H5S_SELECT_SET, &offset, NULL, &slb, NULL);
 	} else {
 		H5Sselect_none(eSpace);
-- 
2.43.0


From 9e43234d2a7ba851dd0d61eb0585a268d4d73fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 64/87] fix: strings and later energy maps were written with
 the dimensions of the reduced energy map

---
 lib/meas/measa.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 84ad710..2e1dd80 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -388,6 +388,8 @@ writePMapHdf5s (axiona, LAB);
 													 { return x*((float) exp(-eFc*(px*px + py*py + pz*pz))); });
 										}
 									writeEDens (axiona);
+									/* only the energy map was reduced, not the field */
+									axiona->setReduced(false);
 								}
 						}
 				}
-- 
2.43.0


From 51d3698576fe5367d9efdcee6c8df089274568c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 65/87] fix: asking for both energy projections aborted the run

---
 lib/meas/measa.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 2e1dd80..0faf49d 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -274,7 +274,10 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 							else {
 								projectField	(axiona, [] (float x) -> float { return x*x ; } );
 							}
-								writePMapHdf5 (axiona);
+								/* /map/P may hold the projection of the energy already */
+								char PLAB[16];
+								sprintf(PLAB, (info.maty & MAPT_XYPE) ? "/map/P2" : "/map/P");
+								writePMapHdf5s (axiona, PLAB);
 				}
 			}
 
-- 
2.43.0


From 598e4ac92c480631c95b22d5f50c852298ba975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 66/87] fix: spectra masked with Axit2 used whatever the last
 mask was

---
 lib/meas/measa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 0faf49d..589b770 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -576,7 +576,7 @@ writePMapHdf5s (axiona, LAB);
 			char LABEL[256];
 			string           masklab[9] = {"0", "Vi", "Vi2", "Bal", "Red", "Gau", "Dif", "Axit", "Axit2"};
 			SpectrumMaskType maskara[9] = {SPMASK_FLAT,SPMASK_VIL,SPMASK_VIL2,SPMASK_BALL,SPMASK_REDO,SPMASK_GAUS,SPMASK_DIFF,SPMASK_AXIT,SPMASK_AXIT2};
-			bool             prntmsk[9] = {false,true,true,true,true,true,true,true};
+			bool             prntmsk[9] = {false,true,true,true,true,true,true,true,true};
 			bool             mulmask[9] = {false,false,false,true,true,true,true,true,true};
 
 			LogMsg(VERB_NORMAL, "[Meas %d] masks are %d",indexa,mask);LogFlush();
-- 
2.43.0


From a86f19ca85fd79f5c01f35aee502f1ab21494f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 67/87] fix: YZ map of a slice number equal to the length read
 outside of the box

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 239ce38..77774f9 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -3908,7 +3908,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	//if (axion->Folded())
 	//{
 		int slicenumber = slicenumbertoprint ;
-		if (slicenumbertoprint > axion->Length())
+		if (slicenumbertoprint >= axion->Length())
 		{
 			LogMsg (VERB_NORMAL, "[wm2] Sliceprintnumberchanged to 0");
 			slicenumber = 0;
-- 
2.43.0


From 694bbaec04162ea15864b613d8b8f0a3ce48ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 68/87] fix: reduced energy map requested together with the
 multiple contrast was not reduced, or aborted the run

---
 lib/meas/measa.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 589b770..eb49793 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -375,6 +375,11 @@ writePMapHdf5s (axiona, LAB);
 
 						if (measa & MEAS_REDENE3DMAP){
 								if ( redmap > 0 ){
+							/* the multiple contrast leaves a smoothed map in m2 and the transform of the energy in m2h */
+							if ((axiona->m2Status() == M2_ENERGY_SMOOTH) && (axiona->m2hStatus() == M2_ENERGY_FFT)) {
+								memmove(axiona->m2Cpu(), axiona->m2half(), axiona->Precision()*axiona->eSize());
+								axiona->setM2(M2_ENERGY_FFT);
+							}
 										size_t nLz = (axiona->Depth()*redmap)/axiona->Length();
 										LogMsg(VERB_NORMAL, "[Meas %d] reduced energy map from Nx,Nz=%d,%d to Nx'Nz'=%d,%d by smoothing",indexa, axiona->Depth()*commSize(),
 										redmap, nLz*commSize());
-- 
2.43.0


From 97ac49266690c7c3d68fc51561e51f870d75d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 69/87] fix: a run restarted after it had switched to the angle
 went back to the complex field

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 77774f9..84a394b 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1362,6 +1362,14 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		slab   = (hsize_t) (Nx_read*Nx_read);
 		// We create a larger axion file if we need to expand
 
+		// a restarted run that was already evolving the angle goes on with it
+		if (restart && fTypeP == FIELD_SAXION) {
+			if (!strcmp(fStr, "Axion"))
+				fTypeP = FIELD_AXION;
+			else if (!strcmp(fStr, "Axion Mod"))
+				fTypeP = FIELD_AXION_MOD;
+		}
+
 		FieldType_s fTypeRead, fTypeCreate;
 		if (!strcmp(fStr, "Saxion"))
 		{
-- 
2.43.0


From 6c742270fed47d3aaf561c32b3bad58a950cd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 70/87] fix: string attributes of 32 characters written from
 and read into buffers of 16

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 84a394b..c78b490 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -763,7 +763,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1595,7 +1595,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5367,7 +5367,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From e10a4b8b94d301f4d43e897bf00bc2139d0d45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 71/87] fix: log messages whose format expects more arguments
 than were given

---
 include/propagator/propPaxXeon.h | 2 +-
 lib/io/readWrite.pHdf5.cpp       | 2 +-
 lib/meas/measa.cpp               | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index f01674d..3b25cf8 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -49,7 +49,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 	const double KKt  = (std::abs(u) < 1.e-8) ? ppar.sign*ppar.beta*ct*std::log(1.0 + dz/ct)/(8.0*R*R) :
 			    ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
-	LogMsg(VERB_PARANOID,"PPX KKt %e ");
+	LogMsg(VERB_PARANOID,"PPX KKt %e ",KKt);
 	/* integrate in time assuming powerlaw int d z/ m_A R */
 	const double grav = -ppar.massA*ppar.grav*dz;
 	double alpho = (ppar.n - 1);
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index c78b490..5985376 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -63,7 +63,7 @@ herr_t	writeAttribute(hid_t file_id, void *data, const char *name, hid_t h5_type
 	if ((attr    = H5Acreate2 (file_id, name, h5_type, attr_id, H5P_DEFAULT, H5P_DEFAULT)) < 0)
 		LogError ("Error creating attribute %s", name);
 	if ((status  = H5Awrite (attr, h5_type, data)) < 0)
-		LogError ("Error writing attribute %s to file");
+		LogError ("Error writing attribute %s to file", name);
 	H5Sclose (attr_id);
 	H5Aclose (attr);
 
diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index eb49793..9a98027 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -381,7 +381,7 @@ writePMapHdf5s (axiona, LAB);
 								axiona->setM2(M2_ENERGY_FFT);
 							}
 										size_t nLz = (axiona->Depth()*redmap)/axiona->Length();
-										LogMsg(VERB_NORMAL, "[Meas %d] reduced energy map from Nx,Nz=%d,%d to Nx'Nz'=%d,%d by smoothing",indexa, axiona->Depth()*commSize(),
+										LogMsg(VERB_NORMAL, "[Meas %d] reduced energy map from Nx,Nz=%d,%d to Nx'Nz'=%d,%d by smoothing",indexa, axiona->Length(), axiona->Depth()*commSize(),
 										redmap, nLz*commSize());
 										double ScaleSize = ((double) axiona->Length())/((double) redmap);
 										double eFc  = 0.5*M_PI*M_PI*(ScaleSize*ScaleSize)/((double) axiona->Surf());
@@ -616,7 +616,7 @@ writePMapHdf5s (axiona, LAB);
 												// prof.add(std::string(LABEL), 0.0, 0.0);
 											sprintf(LABEL, "W_%s", PRELABEL);
 											if (printedmask[i-1])
-													LogMsg(VERB_NORMAL,"[meas %d] mask already printed");
+													LogMsg(VERB_NORMAL,"[meas %d] mask already printed",indexa);
 												else
 													writeArray(specAna.data(SPECTRUM_P), specAna.PowMax(), "/mSpectrum", LABEL);
 
-- 
2.43.0


From babf8b72791d6e382f4ca843132de24377f2b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 72/87] fix: state of the auxiliary buffers was undefined in a
 new field

---
 lib/scalar/scalarField.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 8a33457..a479b7e 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -126,6 +126,9 @@ const std::complex<float> If(0.,1.);
 	LogMsg(VERB_NORMAL,"[sca] ic.smvarTy  %d",cm->ICData().smvarType);
 	LogMsg(VERB_NORMAL,"[sca] ic.mocoty   %d",cm->ICData().mocoty   );
 
+	statusM2   = M2_DIRTY;
+	statusM2h  = M2_DIRTY;
+	statusSD   = SD_DIRTY;
 	folded 	   = false;
 	M2folded 	 = false;
 	eReduced   = false;
-- 
2.43.0


From d20d979c1d67613f462167d2a02a38addf4f55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 73/87] fix: Fourier plans logged pointers that were never set

---
 include/fft/fftCode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fft/fftCode.h b/include/fft/fftCode.h
index dd6c0b7..85a55e7 100755
--- a/include/fft/fftCode.h
+++ b/include/fft/fftCode.h
@@ -17,8 +17,8 @@
 			void *		planForward;
 			void *		planBackward;
 
-			void *		pfrom;
-			void *		pto;
+			void *		pfrom = nullptr;
+			void *		pto = nullptr;
 
 			FFTtype		type;
 			FFTdir		dFft;
-- 
2.43.0


From b0a361db0224a7f03fa502aeb18100335c5760bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 74/87] fix: initial-condition type compared against an
 undefined string when the file has none

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 5985376..1783aed 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -763,7 +763,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
+		char	prec[32], fStr[32], lStr[32], icStr[32] = "", vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
-- 
2.43.0


From 6e9a977880a4588016eb661f7215a61f2168e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 75/87] fix: velocities of the void particles were written
 behind the end of the velocity buffer

---
 lib/gadget/gadget_output.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index b543b7e..0e29e46 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -616,6 +616,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
        Writes in slabs to corresponding hdf5 datasets
     */
     LogOut("\n[gadgetme] Creating particle coordinates and velocities ... ");
+    std::vector<float> vSlabData(slab*3);	/* v itself has no room for a slab of velocities */
     size_t lPos = 0;
     for (hsize_t zDim = 0; zDim < Nslabs; zDim++)
     {
@@ -640,7 +641,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	    if (dataSize == 4) 
 	    {	
 	        float *axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-		float  *vOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->vBackGhost())+dataSize*(slab*(Lz*2+1))));
+		float  *vOut = vSlabData.data();
                 float  *mOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+ (slab*(Lz+1))*dataSize));
 
                 for (hssize_t i=0; i<nPrti; i++)
@@ -753,7 +754,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(0); }
 	
 	H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
-	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, static_cast<char *> (axion->vBackGhost())+(slab*(Lz*2+1)*dataSize));
+	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, vSlabData.data());
 	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(0); }
 	
         H5Sselect_hyperslab(mSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
-- 
2.43.0


From 6337fe4770b46aa927377406b2abdf6b36cb3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 76/87] fix: balancing of the number of particles could pick a
 site behind the end of the box

---
 lib/gadget/gadget_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 0e29e46..1c36f35 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1261,7 +1261,7 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 
 		std::random_device rSd;
 		std::mt19937_64 rng(rSd());
-		std::uniform_int_distribution<size_t> uni  (0, slab*Lz);
+		std::uniform_int_distribution<size_t> uni  (0, slab*Lz-1);
 
 		LogOut("[gad] Balancing locally adding/substracting points...\n",aPart,nPrt);
 		// while (aPart != total)   [old global version]
-- 
2.43.0


From 072157eec6dfd5c6421db042b3e3a514cc1ea530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 77/87] fix: particles left over from one site could overflow
 the slab of particles being written

---
 lib/gadget/gadget_output.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 1c36f35..e460336 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1392,7 +1392,7 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 
 				if (dataSize == 4) {
 					float	*axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-					for (hssize_t i=0; i<remain; i++)
+					for (; remain > 0 && tPrti < slab; remain--)
 					{
 						float xO = (nX + 0.5f + gauss(rng) )*bSize/((float) totlX);
 						float yO = (nY + 0.5f + gauss(rng) )*bSize/((float) totlX);
@@ -1415,8 +1415,6 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 				} else {
 					// no double precision version
 				}
-
-				remain = 0;
 			}
 
 		/* main function */
-- 
2.43.0


From 70ecb642c8116b3663ddb27d9a9890592bc48dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 78/87] fix: coordinates of no strings were copied through a
 reference to the first element of an empty vector

---
 lib/strings/strings.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/strings/strings.cpp b/lib/strings/strings.cpp
index 8c4d1d2..994c984 100755
--- a/lib/strings/strings.cpp
+++ b/lib/strings/strings.cpp
@@ -356,19 +356,21 @@ StringData	strings2	(Scalar *field)
 	size_t trinitrize = (charmax/3)*3;
 	LogMsg	(VERB_NORMAL, "[st2] charmax = %lu (%lu), needed %lu ", charmax,trinitrize,carde3);
 
-	char *orig = static_cast<char*>( static_cast<void*>( &eStr->Pos()[0] ));
+	char *orig = static_cast<char*>( static_cast<void*>( eStr->Pos().data() ));
 
 	carde3 = std::min(carde3, trinitrize);
 
 	if (field->LowMem()){
 		LogMsg(VERB_HIGH,"[Strings2] copyng %d bytes to sData() [%lu bytes]",carde3,field->Size());
-		memcpy (dest, orig, carde3);
+		if (carde3 > 0)
+			memcpy (dest, orig, carde3);
 		field->setSD(SD_STRINGCOORD);
 	}
 	else
 	{
 		LogMsg(VERB_HIGH,"[Strings2] copyng %d bytes to m2Cpu() [%lu bytes]",carde3,field->Size());
-		memcpy (dest, orig, carde3);
+		if (carde3 > 0)
+			memcpy (dest, orig, carde3);
 		field->setM2(M2_STRINGCOO);
 		// unsigned short *cerda = static_cast<unsigned short *>( static_cast<void*>( &eStr->Pos()[0] ));
 		// printf("strings.cpp rank %d   %hu, %hu, %hu\n", rank, cerda[0],cerda[1],cerda[2]);
-- 
2.43.0


From a3a08552bbfba95d1235a98374f1e42d50c28147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 79/87] fix: all threads wrote the number of threads at once

---
 lib/comms/comms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/comms/comms.cpp b/lib/comms/comms.cpp
index b97950a..388428e 100644
--- a/lib/comms/comms.cpp
+++ b/lib/comms/comms.cpp
@@ -233,6 +233,7 @@ int	initComms (int argc, char *argv[], int size, DeviceType dev, LogMpi logMpi,
 	int nProcs, mThreads;
 
 	#pragma omp parallel
+	#pragma omp master
 	{
 		nProcs   = omp_get_num_procs();
 		nThreads = omp_get_num_threads();
-- 
2.43.0


From 4f936d77178199b45d230dc8c425915fa9bd06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:13 +0000
Subject: [PATCH 80/87] fix: ball masks lost sites when two threads raised the
 same ghost counter

maskball read the number of slices to mask in the neighbouring rank and wrote a
larger one in two separate atomic steps, so a thread could overwrite the larger
value of another and leave sites of the string mask unmasked.
---
 lib/spectrum/spectrum.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index b9705ea..1ebaa78 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -629,8 +629,12 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 										 	aux = mFG[(size_t) Ly*yii+xii];
 
 										if ( load > aux ){
+											/* other threads can have a larger load for the same point */
+											#pragma omp critical (maskballFG)
+											if ( load > mFG[(size_t) Ly*yii+xii] ){
 											#pragma omp atomic write
 												mFG[(size_t) Ly*yii+xii] = load;
+											}
 										}
 									}
 									else {
@@ -642,8 +646,11 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 												aux = mBG[(size_t) (Ly*yii+xii)];
 
 											if (load > aux){
+												#pragma omp critical (maskballBG)
+												if (load > mBG[(size_t) (Ly*yii+xii)]){
 												#pragma omp atomic write
 													mBG[(size_t) (Ly*yii+xii)] = load;
+												}
 											}
 										}
 										else
-- 
2.43.0


From 0330030838f454cf6757637fda5d218e8ddc90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 81/87] fix: ball masks read the defect map while other threads
 marked it

maskball tested a site's defect bits with a plain read while other threads set
the mask bit of the same byte atomically, a data race.
---
 lib/spectrum/spectrum.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 1ebaa78..27408ff 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -603,7 +603,11 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 					short aux;
 					short load;
 					/* Signals by any defect */
-					if (strdaa[idx] & DEFECT_LABEL){
+					/* other threads mark the mask in the same bytes */
+					char defect;
+					#pragma omp atomic read
+						defect = strdaa[idx];
+					if (defect & DEFECT_LABEL){
 
 						int rzmin = -rz;
 						int rzmax = rz;
@@ -692,7 +696,11 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 					size_t idx = zi + yi + x;
 
 					/* Signals by any defect */
-					if (strdaa[idx] & DEFECT_LABEL){
+					/* other threads mark the mask in the same bytes */
+					char defect;
+					#pragma omp atomic read
+						defect = strdaa[idx];
+					if (defect & DEFECT_LABEL){
 						for (int dz = -rz; dz <= rz; dz++) {
 							double raux = radius_mask*radius_mask- (double) ((dz)*(dz));
 							int ry = inflsq(raux);
-- 
2.43.0


From 8e4cf1112d593622c216142a30eb56d41d40c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 82/87] fix: ball mask leaves its pre-mask labelled as string
 defects, so that every later mask grows

---
 lib/spectrum/spectrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 27408ff..d9b5566 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3275,6 +3275,12 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 						   and labels it STRING_MASK*/
 							prof.start();
 						maskball	(radius_mask, STRING_ONLY, STRING_MASK);
+						/* the pre-mask points were only labelled as strings (all the plaquettes) for maskball;
+						   remove them so that the next mask starts from the actual defects */
+						#pragma omp parallel for schedule(static)
+						for (size_t idx = 0 ; idx < V; idx++)
+							if ((strdaa[idx] & STRING_ONLY) == STRING_ONLY)
+								strdaa[idx] &= ~STRING_ONLY;
 							prof.stop();
 								prof.add(std::string("M3.BALL"), 0.0, 0.0);
 					} // end internal CASE REDO and GAUS case switch
-- 
2.43.0


From 0ae0f7633ca71c2ebb02d663b86b3a35f3917b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 83/87] fix: measurement without --rmask reads the label of its
 mask radius out of bounds and uses radius 0 instead of the documented 2

---
 lib/meas/measa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 9a98027..db74f9d 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -83,7 +83,8 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 	/* Patch to make the cases where no radius is needed to work */
 	if ( irmask == 0 ){
 		irmask = 1;
-		rmasktab.push_back(0.0);
+		rmasktab.push_back(radius_mask);
+		rmasklabel.push_back(radius_mask);
 	}
 	LogMsg(VERB_PARANOID,"[Meas ...] rmask %.2f ",radius_mask);
 	LogMsg(VERB_HIGH,    "[Meas ...] number of mask radii %d ",irmask);
-- 
2.43.0


From 79bb76706265b5f6c6bd403be8b67a5a60ac60ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 84/87] fix: masked (Ball) spectra of gradient and potential
 energy bin a stale auxiliary field

---
 lib/spectrum/spectrum.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index d9b5566..0faf613 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1240,6 +1240,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
+									case SPMASK_BALL:
 											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
@@ -1408,6 +1409,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 										m2sa[odx] = (2*Rscale/depta)*std::imag((ma[ixM]-ma[idx])/(ma[ixM]+ma[idx]-zaskaF-zaskaF));
 										break;
 								case SPMASK_REDO:
+								case SPMASK_BALL:
 										if (strdaa[idx-LyLy] & STRING_MASK)
 												m2sa[odx] = 0 ;
 										else
@@ -1492,6 +1494,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 										m2sax[odx] = (2*Rscale/depta)*std::imag((ma[izM]-ma[idx])/(ma[izM]+ma[idx]-zaskaF-zaskaF));
 										break;
 								case SPMASK_REDO:
+								case SPMASK_BALL:
 										if (strdaa[idx-LyLy] & STRING_MASK){
 												m2sa[odx] = 0 ;
 												m2sax[odx] = 0 ;
-- 
2.43.0


From b0d320f1f83b96a829c4e2ee14190ef8ab94dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:08 +0000
Subject: [PATCH 85/87] fix: strings requested together with a mask measurement
 are not stored

---
 lib/meas/measa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index db74f9d..5bd7d5f 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -454,7 +454,7 @@ writePMapHdf5s (axiona, LAB);
 						}
 					}
 					// else {
-					else if ( !(measa & MEAS_MASK)) {
+					else if ( (measa & MEAS_STRING) || !(measa & MEAS_MASK)) {
 						writeString(axiona, MeasDataOut.str, false);
 					}
 			}
-- 
2.43.0


From d1698c76a2acab0b3c452451f57375b83f87b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 86/87] fix: string energies are lost when the strings
 themselves are not stored

---
 lib/io/readWrite.pHdf5.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 1783aed..a4dffce 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -2692,6 +2692,9 @@ void	writeStringEnergy	(Scalar *axion, StringEnergyData strEDat)
 	char LABEL[256];
 	sprintf(LABEL, "string/rmask_%.2f", strEDat.rmask);
 
+	if (H5Lexists (meas_id, "/string", H5P_DEFAULT) == 0)	// The parent group is missing if the strings themselves were not written
+		H5Gclose (H5Gcreate2(meas_id, "/string", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
+
 	auto status = H5Lexists (meas_id, LABEL, H5P_DEFAULT);	// Create group if it doesn't exists
 	if (!status)
 	{
-- 
2.43.0


From d9ea4f07dd76b50015d59ac5be0c6e520bfa90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:25 +0000
Subject: [PATCH 87/87] fix: softly masked (Gauss, Diff) spectra of the
 potential bin stale data and those of the z gradient a scrambled field

---
 lib/meas/measa.cpp        |  3 +++
 lib/spectrum/spectrum.cpp | 25 ++++++++++++++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 5bd7d5f..96e9a08 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -703,6 +703,9 @@ writePMapHdf5s (axiona, LAB);
 							LogMsg(VERB_NORMAL, "[Meas %d] Spectrum %s rmask %f [%d/%d] (old version)",indexa,masklab[i].c_str(),rmasktab[ii],ii+1,irmask);LogFlush();
 							// prof.start();
 							nRunType aux = nruntype & (NRUN_CK | NRUN_CG | NRUN_CV | NRUN_CS) ;
+							/* the gradients overwrite the soft masks */
+							if ((maskara[i] & (SPMASK_GAUS | SPMASK_DIFF)) && (nruntype & NRUN_G))
+								specAna.masker(rmasktab[ii], maskara[i], M2_MASK, cummask);
 								specAna.nRun(maskara[i], aux);
 									// prof.stop();
 										sprintf(LABEL, "NSPA_%s (pure)", masklab[i].c_str());
diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 0faf613..22c1640 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1182,7 +1182,14 @@ void	SpecBin::nRun	(nRunType nrt) {
 					char *m2C  = static_cast<char *>(field->m2Cpu());
 					char *m2Ch = static_cast<char *>(field->m2half());
 						prof.start();
-					memmove	(m2C, m2Ch, dataTotalSize2);
+					if (mask & (SPMASK_GAUS|SPMASK_DIFF)) {
+						/* m2half keeps the mask, build the linear potential here */
+						#pragma omp parallel for schedule(static)
+						for (size_t sl=0; sl < LyLz; sl++)
+							for (size_t ix=0; ix < Ly; ix++)
+								m2sa[ix + (Ly+2)*sl] = m2sax[ix + Ly*sl]*Rscale*std::arg(ma[ix + Ly*sl + LyLy]-zaskaF);
+					} else
+						memmove	(m2C, m2Ch, dataTotalSize2);
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
@@ -1248,6 +1255,10 @@ void	SpecBin::nRun	(nRunType nrt) {
 													m2sa[odx]  = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											}
 											break;
+									case SPMASK_GAUS:
+									case SPMASK_DIFF:
+											m2sa[odx]  = m2sax[idx-LyLy]*mass*Rscale*std::arg(ma[idx]-zaskaF);
+											break;
 									case SPMASK_VIL:
 											m2sa[odx]  = mass*(std::abs(ma[idx]-zaskaF))*std::arg(ma[idx]-zaskaF);
 											break;
@@ -1334,7 +1345,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF */
 
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 								prof.start();
@@ -1342,10 +1353,10 @@ void	SpecBin::nRun	(nRunType nrt) {
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 							prof.stop();
 								prof.add(std::string("unpad"), 0.0, 0.0);
@@ -1553,17 +1564,17 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF */
 							prof.start();
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 							size_t dl = Ly*field->Precision();
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 						}
 						prof.stop();
-- 
2.43.0

