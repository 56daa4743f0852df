From 09939da1b994ac44b07f4062316522346eda4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:33 +0000
Subject: [PATCH 01/65] fix: line seabed force no longer includes the bending
 force

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..f446527 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 977799c8dab1d0bd6aab83d30f79753ecf577eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:33 +0000
Subject: [PATCH 02/65] fix: read the ordinates of nonlinear curves from the
 second column

---
 source/MoorDyn2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..db2b951 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -740,7 +740,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
-- 
2.43.0


From 3dd17a0246e3ffed3972fa605bf22f01793d3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 03/65] fix: read the first CdA component of bodies given per
 axis

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..3fbc7b5 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1864,12 +1864,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From bb1706d116f7bfaf26808d0c15cf7909ec8c6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 04/65] fix: submerged length of rods with just end B below the
 surface

---
 source/Rod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..6e27c61 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -959,10 +959,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
-- 
2.43.0


From 7d40059ad9daebcbb6c5dae8171b06b5d5a11bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:06 +0000
Subject: [PATCH 05/65] fix: keep the driven acceleration of coupled pinned
 rods in their reaction

---
 source/Rod.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 6e27c61..97604d1 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -674,7 +674,6 @@ Rod::getStateDeriv()
 		// of the matrix. See
 		// https://eigen.tuxfamily.org/dox/group__TutorialLinearAlgebra.html
 		const mat M_out3 = M_out6(Eigen::seqN(3, 3), Eigen::seqN(3, 3));
-		acc6(Eigen::seqN(0, 3)) = vec::Zero();
 		acc6(Eigen::seqN(3, 3)) = M_out3.inverse() * Fnet_out3;
 
 		// dxdt = V   (velocities)
-- 
2.43.0


From 9756d48a4ee05e1841357bbdad407c77c52a382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:47 +0000
Subject: [PATCH 06/65] fix: start free and pinned rods with the orientation of
 the input file

---
 source/Rod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 97604d1..739060f 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -150,13 +150,13 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		r7.quat = quaternion::Identity();
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity();
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From 0e16a1fd4f1f94dd8dc7695f8cda14834feff863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:55 +0000
Subject: [PATCH 07/65] fix: fill all the rows of the 6x6 mass matrices handed
 to the user

---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..f2258aa 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -422,24 +422,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -450,24 +435,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 9333650eef4a8a1e53369b8ac5f991ae614c70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:39 +0000
Subject: [PATCH 08/65] fix: refuse null coupled kinematics instead of
 dereferencing them

---
 source/MoorDyn2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3fbc7b5..4a901cb 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -629,6 +630,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From 42d07e35806beb7d1084650309c8ee3ac4129b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:39 +0000
Subject: [PATCH 09/65] fix: report the errors found while initializing instead
 of aborting

---
 source/MoorDyn2.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 4a901cb..7f0370c 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2403,14 +2403,36 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (!err_msg.empty()) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 16fec86b036d56b30d8473c79af1ad0ad6056701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 10/65] fix: initialize the loads and accelerations of the
 entities, which can be read before the first step

---
 source/Body.cpp  |  8 ++++++++
 source/Line.cpp  |  1 +
 source/Point.cpp |  6 ++++++
 source/Rod.cpp   | 11 +++++++++++
 4 files changed, 26 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..27aef7d 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -40,6 +40,13 @@ namespace moordyn {
 
 Body::Body(moordyn::Log* log, size_t id)
   : io::IO(log)
+  , v6(vec6::Zero())
+  , a6(vec6::Zero())
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
+  , F6net(vec6::Zero())
+  , M(mat6::Zero())
   , bodyId(id)
 {
 #ifdef USE_VTK
@@ -83,6 +90,7 @@ Body::setup(int number_in,
 	} else if (type == FIXED){ // fixed bodies have no need for these variables other than position...
 		bodyM = 0.0;
 		bodyV = 0.0;
+		body_rCG = vec::Zero();
 		bodyI = vec::Zero();
 		bodyCdA = vec6::Zero();
 		bodyCa = vec6::Zero();
diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..559a066 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -54,6 +54,7 @@ Line::Line(moordyn::Log* log, size_t lineId)
   : io::IO(log)
   , lineId(lineId)
   , isPb(false)
+  , t(0.0)
 {
 }
 
diff --git a/source/Point.cpp b/source/Point.cpp
index 1016252..6bfbc2e 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -48,6 +48,12 @@ namespace moordyn {
 Point::Point(moordyn::Log* log, size_t id)
   : io::IO(log)
   , seafloor(nullptr)
+  , r_ves(vec::Zero())
+  , rd_ves(vec::Zero())
+  , Fnet(vec::Zero())
+  , t(0.0)
+  , M(mat::Zero())
+  , acc(vec::Zero())
   , pointId(id)
 {
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 739060f..aca3e86 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -56,6 +56,17 @@ namespace moordyn {
 Rod::Rod(moordyn::Log* log, size_t rodId)
   : io::IO(log)
   , seafloor(nullptr)
+  , v6(vec6::Zero())
+  , FextA(vec::Zero())
+  , FextB(vec::Zero())
+  , Mext(vec::Zero())
+  , F6net(vec6::Zero())
+  , M6net(mat6::Zero())
+  , h0(0.0)
+  , t(0.0)
+  , r_ves(vec6::Zero())
+  , rd_ves(vec6::Zero())
+  , rdd_ves(vec6::Zero())
   , rodId(rodId)
 {
 }
-- 
2.43.0


From 406b9dad364636320494cb482d9f659f735a4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:47 +0000
Subject: [PATCH 11/65] fix: save the whole state of the lines, rods, points,
 bodies and local time schemes in the snapshots

---
 source/Body.cpp  |  6 ++++++
 source/Line.cpp  | 15 +++++++++++++++
 source/Point.cpp |  3 +++
 source/Rod.cpp   |  6 ++++++
 source/Time.hpp  | 33 +++++++++++++++++++++++++++++++--
 5 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 27aef7d..9f73cea 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -681,6 +681,10 @@ Body::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(OrMat);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(a6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -696,6 +700,8 @@ Body::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M);
 	ptr = io::IO::Deserialize(ptr, OrMat);
+	ptr = io::IO::Deserialize(ptr, a6);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 
 	return ptr;
 }
diff --git a/source/Line.cpp b/source/Line.cpp
index 559a066..01a782a 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1417,6 +1417,13 @@ Line::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	data.push_back(io::IO::Serialize(UnstrLen));
+	data.push_back(io::IO::Serialize(UnstrLen0));
+	data.push_back(io::IO::Serialize(UnstrLend));
+	data.push_back(io::IO::Serialize(E));
+	data.push_back(io::IO::Serialize((uint64_t)isPb));
+	subdata = io::IO::Serialize(pin);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1447,6 +1454,14 @@ Line::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, B);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, F);
+	ptr = io::IO::Deserialize(ptr, UnstrLen);
+	ptr = io::IO::Deserialize(ptr, UnstrLen0);
+	ptr = io::IO::Deserialize(ptr, UnstrLend);
+	ptr = io::IO::Deserialize(ptr, E);
+	uint64_t pressure;
+	ptr = io::IO::Deserialize(ptr, pressure);
+	isPb = pressure != 0;
+	ptr = io::IO::Deserialize(ptr, pin);
 
 	return ptr;
 }
diff --git a/source/Point.cpp b/source/Point.cpp
index 6bfbc2e..b292587 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -405,6 +405,8 @@ Point::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(M);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -419,6 +421,7 @@ Point::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, rd_ves);
 	ptr = io::IO::Deserialize(ptr, Fnet);
 	ptr = io::IO::Deserialize(ptr, M);
+	ptr = io::IO::Deserialize(ptr, acc);
 
 	return ptr;
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index aca3e86..bd68b51 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1477,6 +1477,10 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1512,6 +1516,8 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, acc6);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 
 	return ptr;
 }
diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..057caed 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,35 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		// We append the local time step counters
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies }) {
+			const auto subdata = io::IO::Serialize(*dts);
+			data.insert(data.end(), subdata.begin(), subdata.end());
+		}
+
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			ptr = io::IO::Deserialize(ptr, *dts);
+
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
@@ -1081,7 +1110,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual std::vector<uint64_t> Serialize(void)
 	{
-		std::vector<uint64_t> data = TimeSchemeBase::Serialize();
+		std::vector<uint64_t> data = LocalTimeSchemeBase::Serialize();
 		// We append the number of available steps
 		data.push_back(io::IO::Serialize((uint64_t)n_steps));
 
@@ -1097,7 +1126,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data)
 	{
-		uint64_t* ptr = TimeSchemeBase::Deserialize(data);
+		uint64_t* ptr = LocalTimeSchemeBase::Deserialize(data);
 		uint64_t n;
 		ptr = io::IO::Deserialize(ptr, n);
 		n_steps = n;
-- 
2.43.0


From 573df9dee126764b3692e95e737267b6646e5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:13 +0000
Subject: [PATCH 12/65] fix: save the floating point numbers bit by bit, so
 subnormal, infinite and NaN values are recovered

---
 source/IO.cpp | 120 +++++---------------------------------------------
 1 file changed, 10 insertions(+), 110 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..394ae01 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <fstream>
 #include <stdlib.h>
+#include <string.h>
 
 namespace moordyn {
 
@@ -47,114 +48,6 @@ namespace io {
 #define MOORDYN_MINOR_VERSION 0
 #endif
 
-/** @brief Pack a floating point number into an integer
- *
- * This operation can be reverted with unpack754(). However, the result is still
- * non-portable, since the resulting integer must have different endianness
- * @param f The floating point number
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
- * @return Packed number
- * @see unpack754()
- * @see is_big_endian()
- * @see swap_endian
- */
-long long
-pack754(long double f, unsigned bits, unsigned expbits)
-{
-	long double fnorm;
-	int shift;
-	long long sign, exp, significand;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (f == 0.0)
-		return 0; // get this special case out of the way
-
-	// check sign and begin normalization
-	if (f < 0) {
-		sign = 1;
-		fnorm = -f;
-	} else {
-		sign = 0;
-		fnorm = f;
-	}
-
-	// get the normalized form of f and track the exponent
-	shift = 0;
-	while (fnorm >= 2.0) {
-		fnorm /= 2.0;
-		shift++;
-	}
-	while (fnorm < 1.0) {
-		fnorm *= 2.0;
-		shift--;
-	}
-	fnorm = fnorm - 1.0;
-
-	// calculate the binary form (non-float) of the significant data
-	significand = fnorm * ((1LL << significandbits) + 0.5f);
-
-	// get the biased exponent
-	exp = shift + ((1 << (expbits - 1)) - 1); // shift + bias
-
-	// return the final answer
-	return (sign << (bits - 1)) | (exp << (bits - expbits - 1)) | significand;
-}
-
-/** @brief Unpack a floating point number from an integer
- *
- * This operation is the inverse of pack754()
- * @param i The packed integer
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
- * @return The unpacket floating point number
- * @see pack754()
- * @see is_big_endian()
- * @see swap_endian
- */
-long double
-unpack754(long long i, unsigned bits, unsigned expbits)
-{
-	long double result;
-	long long shift;
-	unsigned bias;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (i == 0)
-		return 0.0;
-
-	// pull the significand
-	result = (i & ((1LL << significandbits) - 1)); // mask
-	result /= (1LL << significandbits);            // convert back to float
-	result += 1.0f;                                // add the one back on
-
-	// deal with the exponent
-	bias = (1 << (expbits - 1)) - 1;
-	shift = ((i >> significandbits) & ((1LL << expbits) - 1)) - bias;
-	while (shift > 0) {
-		result *= 2.0;
-		shift--;
-	}
-	while (shift < 0) {
-		result /= 2.0;
-		shift++;
-	}
-
-	// sign it
-	result *= (i >> (bits - 1)) & 1 ? -1.0 : 1.0;
-
-	return result;
-}
-
-/// Pack IEEE754 32bits float numbers
-#define pack754_32(f) (pack754((f), 32, 8))
-/// Pack IEEE754 64bits double numbers
-#define pack754_64(f) (pack754((f), 64, 11))
-/// Unpack IEEE754 32bits float numbers
-#define unpack754_32(i) (unpack754((i), 32, 8))
-/// Unpack IEEE754 64bits double numbers
-#define unpack754_64(i) (unpack754((i), 64, 11))
-
 /** @brief CHeck if the platform is big endian
  * @return true for big endian platforms, false otherwise
  */
@@ -323,7 +216,12 @@ IO::Serialize(const int64_t& i)
 uint64_t
 IO::Serialize(const real& f)
 {
-	return Serialize((int64_t)pack754_64((double)f));
+	// Copy the bits, so every value (including the subnormals, the infinities
+	// and the NaNs) can be exactly recovered
+	const double d = (double)f;
+	uint64_t i;
+	memcpy(&i, &d, sizeof(uint64_t));
+	return Serialize(i);
 }
 
 std::vector<uint64_t>
@@ -480,7 +378,9 @@ IO::Deserialize(const uint64_t* in, real& out)
 {
 	uint64_t uout;
 	uint64_t* remaining = Deserialize(in, uout);
-	out = (real)unpack754_64(uout);
+	double d;
+	memcpy(&d, &uout, sizeof(uint64_t));
+	out = (real)d;
 	return remaining;
 }
 
-- 
2.43.0


From dd4a715a12f10a154940e0ef4dbe125d3456ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 13/65] fix: refuse to load the snapshots which does not match
 the size of the system

---
 source/IO.cpp       | 8 ++++++++
 source/IO.hpp       | 5 +++++
 source/MoorDyn2.hpp | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/source/IO.cpp b/source/IO.cpp
index 394ae01..2687856 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -175,6 +175,14 @@ IO::Load(const std::string filepath)
 		throw moordyn::input_error("Invalid size");
 	}
 
+	const uint64_t expected = LoadSize();
+	if (expected && (length != expected)) {
+		LOGERR << "The file '" << filepath << "' contains " << length
+		       << " entries, but " << expected
+		       << " are required. Was it saved from another system?" << endl;
+		throw moordyn::input_error("Invalid size");
+	}
+
 	// Read the data and close the file, which we do not need anymore
 	uint64_t* data = (uint64_t*)malloc(size);
 	if (!data) {
diff --git a/source/IO.hpp b/source/IO.hpp
index 0a0c75b..f87fd45 100644
--- a/source/IO.hpp
+++ b/source/IO.hpp
@@ -108,6 +108,11 @@ class IO : public LogUser
 	virtual uint64_t* Deserialize(const uint64_t* data) = 0;
 
   protected:
+	/** @brief The number of entries that shall be found by Load()
+	 * @return The number of entries, 0 if any number of entries is acceptable
+	 */
+	virtual uint64_t LoadSize() { return 0; }
+
 	/** @brief Pack an unsigned integer to make it writable
 	 * @param i The unsigned integer number
 	 * @return The packed number
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index db2b951..01f88aa 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -385,6 +385,11 @@ class MoorDyn final : public io::IO
 	}
 
   protected:
+	/** @brief The number of entries that shall be found by Load()
+	 * @return The number of entries of the snapshots of this system
+	 */
+	uint64_t LoadSize() { return Serialize().size(); }
+
 	/** @brief Read the input file, setting up all the required objects and
 	 * their relationships
 	 *
-- 
2.43.0


From ad7992965f3ddc667f605bd151e67b73bbacd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:39 +0000
Subject: [PATCH 14/65] fix: report the standard exceptions through the C API
 instead of aborting

---
 source/Misc.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index f2258aa..55a4c4e 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -48,6 +48,7 @@
 
 #include <memory>
 #include <limits>
+#include <exception>
 
 #ifdef OSX
 #include <sys/uio.h>
@@ -607,6 +608,11 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
-- 
2.43.0


From 8ebf864ef1de90846dce0538c116afb9a253f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:55 +0000
Subject: [PATCH 15/65] fix: keep the time and the state of the simulation when
 the time scheme is changed

MoorDyn_SetTimeScheme() restarted the clock at 0, initialised the lines again
(the getters returned the initial profile, and the automatic damping was
computed anew) and left the waves pointing to the deleted time scheme.
---
 source/MoorDyn2.cpp |  2 --
 source/MoorDyn2.hpp | 17 ++++++++++++++---
 source/Waves.hpp    |  8 ++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7f0370c..44dcba2 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2718,9 +2718,7 @@ MoorDyn_SetTimeScheme(MoorDyn system, const char* name)
 		     << err_msg << endl;
 		return err;
 	}
-	auto state = sys->GetTimeScheme()->GetState();
 	sys->SetTimeScheme(tscheme);
-	tscheme->SetState(state);
 
 	return MOORDYN_SUCCESS;
 }
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 01f88aa..4b1175d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -366,10 +366,19 @@ class MoorDyn final : public io::IO
 	inline TimeScheme* GetTimeScheme() const { return _t_integrator; }
 
 	/** @brief Set the current time integrator
-	 * @return The time integrator
+	 *
+	 * The new integrator resumes the simulation at the point (state and time)
+	 * the former one left it
+	 * @param tscheme The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
-		if (_t_integrator) delete _t_integrator;
+		MoorDynState state;
+		real time = 0.0;
+		if (_t_integrator) {
+			state = _t_integrator->GetState();
+			time = _t_integrator->GetTime();
+			delete _t_integrator;
+		}
 		_t_integrator = tscheme;
 		_t_integrator->SetGround(GroundBody);
 		for (auto obj : BodyList)
@@ -381,7 +390,9 @@ class MoorDyn final : public io::IO
 		for (auto obj : LineList)
 			_t_integrator->AddLine(obj);
 		_t_integrator->SetCFL(cfl);
-		_t_integrator->Init();
+		_t_integrator->SetState(state);
+		_t_integrator->SetTime(time);
+		waves->setTimeScheme(_t_integrator);
 	}
 
   protected:
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..62dc48f 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -674,6 +674,14 @@ class Waves : public LogUser
 	           SeafloorRef seafloor,
 	           TimeScheme* t,
 	           const char* folder = "Mooring/");
+
+	/** @brief Replace the time integration scheme
+	 *
+	 * Call this function whenever the scheme provided to Waves::setup() is not
+	 * the one driving the simulation anymore
+	 * @param t The time integration scheme
+	 */
+	inline void setTimeScheme(TimeScheme* t) { _t_integrator = t; }
 };
 
 // other relevant functions being thrown into this file for now (should move to
-- 
2.43.0


From 08732269a2ee3dd5648d7c1c50a21d0eb6040863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:32 +0000
Subject: [PATCH 16/65] fix: leave the Wilson time scheme at the end of the
 time step

The evaluation of the derivatives is carried out at t + theta * dt, so to get
to the end of the time step (1 - theta) * dt shall be added, not subtracted
---
 source/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..eb66311 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -794,7 +794,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.0 - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 03ffd69d5b0072ca1ddb05dcc313613654de51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:32 +0000
Subject: [PATCH 17/65] fix: apply the Adams-Bashforth formula of the queried
 order

n_steps is the number of former derivatives available, so the scheme of
order N takes N - 1 of them
---
 source/Time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index eb66311..165595c 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -456,7 +456,7 @@ ABScheme<order, local>::Step(real& dt)
 	shift();
 
 	// Get the new derivative
-	if (local && (n_steps == order))
+	if (local && (n_steps == order - 1))
 		SetCalcMask(dt);
 	CalcStateDeriv(0);
 
@@ -483,7 +483,7 @@ ABScheme<order, local>::Step(real& dt)
 			       rd[3] * (dt * 637.0 / 360.0) + rd[4] * (dt * 251.0 / 720.0);
 	}
 
-	n_steps = (std::min)(n_steps + 1, order);
+	n_steps = (std::min)(n_steps + 1, order - 1);
 	t += dt;
 	Update(dt, 0);
 	TimeSchemeBase::Step(dt);
-- 
2.43.0


From 42be9c5098dd779a9e5290af6825f3a24b77659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:07 +0000
Subject: [PATCH 18/65] fix: consider both the time step and the CFL when both
 are provided

The documentation states that the smaller time step is used, but the CFL was
dropped as soon as dtM was set
---
 source/MoorDyn2.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 44dcba2..5752c5b 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -87,7 +87,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , ICthresh(0.001)
   , WaveKinTemp(waves::WAVES_NONE)
   , dtM0((std::numeric_limits<real>::max)())
-  , cfl(0.5)
+  , cfl((std::numeric_limits<real>::max)())
   , dtOut(0.0)
   , _t_integrator(NULL)
   , ICgenDynamic(false)
@@ -500,8 +500,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		ix += 3;
 	}
 
-	if (dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
-		cfl = (std::numeric_limits<real>::max)(); // Is 90% of max sufficient tolerance for this check?
+	// The default CFL is considered just when neither the time step nor the CFL
+	// are provided. If both are provided the most restrictive is considered
+	const real unset = 0.9 * (std::numeric_limits<real>::max)();
+	if ((dtM0 >= unset) && (cfl >= unset))
+		cfl = 0.5;
 
 	// Compute the timestep
 	for (auto obj : LineList)
-- 
2.43.0


From c0af1d9434d0ed2acb53bd727f892c58a67a6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:09 +0000
Subject: [PATCH 19/65] fix: do not drift the orientations with the ACA and
 Wilson time schemes

---
 source/State.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..0f247b7 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -476,7 +476,12 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	ret.vel.pos = vel.pos + dt * acc_beta.head<3>();
+	// The rate of change of the quaternion is not a quaternion that might be
+	// built from the angular acceleration. On top of that, it is already known
+	// at both ends of the time step
+	ret.vel.quat.coeffs() =
+	    (1 - gamma) * vel.quat.coeffs() + gamma * visitor.vel.quat.coeffs();
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -535,8 +540,13 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	ret.vel.pos = vel.pos + 0.5 * dt * (
+		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc).head<3>();
+	// The rate of change of the quaternion is not a quaternion that might be
+	// built from the angular acceleration. On top of that, it is already known
+	// at both ends of the time step
+	ret.vel.quat.coeffs() = (1 - 0.5 * f) * vel.quat.coeffs() +
+	                        0.5 * f * visitor.vel.quat.coeffs();
 	return ret;
 }
 
-- 
2.43.0


From add384ea3c815e563a9360bdbee5db0ef680abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:50 +0000
Subject: [PATCH 20/65] fix: start the derivatives of the orientations from
 zero

---
 source/Time.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index 057caed..8f37729 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -443,7 +443,8 @@ class TimeSchemeBase : public TimeScheme
 			r[i].rods.push_back(state);
 		}
 		DRodStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel.pos = vec::Zero();
+		dstate.vel.quat.coeffs() = vec4::Zero();
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].rods.push_back(dstate);
@@ -493,7 +494,8 @@ class TimeSchemeBase : public TimeScheme
 			r[i].bodies.push_back(state);
 		}
 		DBodyStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		dstate.vel.pos = vec::Zero();
+		dstate.vel.quat.coeffs() = vec4::Zero();
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].bodies.push_back(dstate);
-- 
2.43.0


From 7df90e9c8e844da9786ad0436ae09fec822b3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:54 +0000
Subject: [PATCH 21/65] fix: keep the orientation of the free bodies and rods
 on the static initial condition solver

---
 source/State.cpp | 23 +++++++++++++----------
 source/State.hpp |  8 ++++++--
 source/Time.cpp  |  4 ++--
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 0f247b7..8d6b51a 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -401,7 +401,7 @@ StateVarDeriv<std::vector<vec>>::operator-(
 }
 
 template<>
-real StateVarDeriv<vec>::MakeStationary(const real &dt)
+real StateVarDeriv<vec>::MakeStationary(const real &dt, const vec&)
 {
 	real ret = acc.norm();
 	vel = 0.5 * dt * acc;
@@ -410,7 +410,7 @@ real StateVarDeriv<vec>::MakeStationary(const real &dt)
 }
 
 template<>
-real StateVarDeriv<vec6>::MakeStationary(const real &dt)
+real StateVarDeriv<vec6>::MakeStationary(const real &dt, const vec6&)
 {
 	real ret = acc.head<3>().norm();
 	vel = 0.5 * dt * acc;
@@ -419,16 +419,19 @@ real StateVarDeriv<vec6>::MakeStationary(const real &dt)
 }
 
 template<>
-real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
+real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt,
+                                                  const XYZQuat& pos)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	const vec6 v = 0.5 * dt * acc;
+	vel.pos = v.head<3>();
+	vel.quat = 0.5 * (quaternion(0.0, v[3], v[4], v[5]) * pos.quat).coeffs();
 	acc = vec6::Zero();
 	return ret;
 }
 
 template<>
-real StateVarDeriv<std::vector<vec>>::MakeStationary(const real &dt)
+real StateVarDeriv<std::vector<vec>>::MakeStationary(const real &dt, const std::vector<vec>&)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < vel.size(); i++) {
@@ -850,17 +853,17 @@ DMoorDynStateDt::operator-(const DMoorDynStateDt& rhs)
 }
 
 real
-DMoorDynStateDt::MakeStationary(const real &dt)
+DMoorDynStateDt::MakeStationary(const real &dt, const MoorDynState& r)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < lines.size(); i++)
-		ret += lines[i].MakeStationary(dt);
+		ret += lines[i].MakeStationary(dt, r.lines[i].pos);
 	for (unsigned int i = 0; i < points.size(); i++)
-		ret += points[i].MakeStationary(dt);
+		ret += points[i].MakeStationary(dt, r.points[i].pos);
 	for (unsigned int i = 0; i < rods.size(); i++)
-		ret += rods[i].MakeStationary(dt);
+		ret += rods[i].MakeStationary(dt, r.rods[i].pos);
 	for (unsigned int i = 0; i < bodies.size(); i++)
-		ret += bodies[i].MakeStationary(dt);
+		ret += bodies[i].MakeStationary(dt, r.bodies[i].pos);
 	return ret;
 }
 
diff --git a/source/State.hpp b/source/State.hpp
index 0bbdf95..e0dca24 100644
--- a/source/State.hpp
+++ b/source/State.hpp
@@ -165,10 +165,12 @@ class StateVarDeriv
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param pos Current position, required to compute the rate of change of
+	 * the orientations
 	 * @return The module of the linear acceleration, or their sum in case
 	 * of lists of accelerations
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const T& pos);
 
 	/** @brief Carry out a Newmark step
 	 *
@@ -374,9 +376,11 @@ class DMoorDynStateDt
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param r Current state, required to compute the rate of change of the
+	 * orientations
 	 * @return The sum of the linear acceleration norms
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const MoorDynState& r);
 
 	/** @brief Carry out a Newmark step
 	 *
diff --git a/source/Time.cpp b/source/Time.cpp
index 165595c..e287e5d 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -179,7 +179,7 @@ StationaryScheme::Step(real& dt)
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = rd[0].MakeStationary(dt, r[0]);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -192,7 +192,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = rd[0].MakeStationary(dt, r[0]);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
-- 
2.43.0


From 6dc2b7f2ad96adb419cc2fe50cbd90784b237425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 22/65] fix: subtract the states of the bodies and rods instead
 of adding them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d6b51a..ad72c5f 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From d2dd523545476848de00709bc91d01b50074b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 23/65] fix: report the lines without a stiffness table as
 constant EA ones

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index f446527..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From b31405611d0fc5074223530394489bd16d2a3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:42 +0000
Subject: [PATCH 24/65] fix: keep the last current beyond the last time instead
 of starting over

---
 source/Waves.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..e61ea91 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -219,8 +219,11 @@ CurrentGrid::getCurrentKin(const vec3& pos,
 		it = floor(quot);
 		ft = quot - it;
 		it++; // We use the upper bound
-		while (it > nt - 1)
-			it -= nt;
+		if (it > nt - 1) {
+			// Beyond the last time the nearest value is taken
+			it = nt - 1;
+			ft = 1.0;
+		}
 	}
 
 	// real stretched_z = 0.0;
-- 
2.43.0


From e525cc5eb2791080603fe2b05fcb2eed7c94a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:42 +0000
Subject: [PATCH 25/65] fix: read out of bounds when the currents are given at
 a single time

---
 source/Waves/WaveGrid.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..6b0b31c 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,12 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			// There is no lower bound if a single time is provided
+			const unsigned int it0 = iti > 0 ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][it0], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][it0], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][it0], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -865,14 +867,16 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					// There is no lower bound if a single time is provided
+					const unsigned int it0 = iti > 0 ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][it0],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][it0],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][it0],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From 208cbbf1624151282fc6bc18c2456807e48c974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:42 +0000
Subject: [PATCH 26/65] fix: skipped first grid point of the 4D currents

---
 source/Waves/WaveGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 6b0b31c..542a515 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -829,7 +829,7 @@ construct4DCurrentGrid(const std::string& folder,
 	}
 
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
+	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-- 
2.43.0


From 0c6537a757b0b91d893ae83971b778e364c0996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:42 +0000
Subject: [PATCH 27/65] fix: look for the points of the 4D currents by value,
 not by how they are written

---
 source/Waves/WaveGrid.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 542a515..8659e39 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -781,33 +781,33 @@ construct4DCurrentGrid(const std::string& folder,
 	// Need to keep track of
 
 	// And a map to keep track of coord->idx mapping...
-	map<string, unsigned int> XMap;
-	map<string, unsigned int> YMap;
-	map<string, unsigned int> ZMap;
-	map<string, unsigned int> TMap;
+	map<real, unsigned int> XMap;
+	map<real, unsigned int> YMap;
+	map<real, unsigned int> ZMap;
+	map<real, unsigned int> TMap;
 
 	auto entry = moordyn::str::split(lines[1]);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
-		XMap[entry[i]] = i;
+		XMap[UProfileX.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[2]);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
-		YMap[entry[i]] = i;
+		YMap[UProfileY.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[3]);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
-		ZMap[entry[i]] = i;
+		ZMap[UProfileZ.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[4]);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
-		TMap[entry[i]] = i;
+		TMap[UProfileT.back()] = i;
 	}
 
 	// Need 3 4D grids - one for each component of current velocity:
@@ -833,10 +833,10 @@ construct4DCurrentGrid(const std::string& folder,
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-		auto ix = XMap[entry[0]];
-		auto iy = YMap[entry[1]];
-		auto iz = ZMap[entry[2]];
-		auto it = TMap[entry[3]];
+		auto ix = XMap[stod(entry[0])];
+		auto iy = YMap[stod(entry[1])];
+		auto iz = ZMap[stod(entry[2])];
+		auto it = TMap[stod(entry[3])];
 
 		// Need to set velocity components in three separate vectors
 		// at the coordinate above
-- 
2.43.0


From 2f5af498b3899f66e039c161309870c8224b030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:37 +0000
Subject: [PATCH 28/65] fix: evaluate the water kinematics of the rods at their
 current interior nodes

---
 source/Rod.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index bd68b51..2178da3 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -570,6 +570,14 @@ Rod::setDependentStates()
 		r[N] = r[0] + rRel;
 		const vec w = v6.tail<3>();
 		rd[N] = rd[0] + w.cross(rRel);
+
+		// the interior nodes go along with the ends, so the water kinematics
+		// are evaluated where the nodes actually are
+		for (unsigned int i = 1; i < N; i++) {
+			const real f = i / (real)N;
+			r[i] = r[0] + f * (r[N] - r[0]);
+			rd[i] = rd[0] + f * (rd[N] - rd[0]);
+		}
 	}
 
 	// pass end node kinematics to any attached lines (this is just like what a
-- 
2.43.0


From c5223d445990660c33c2e6cf4a2f1565f00f4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:48 +0000
Subject: [PATCH 29/65] fix: find the files beside an input file that is given
 without a directory

---
 source/MoorDyn2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 5752c5b..0e12587 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -106,7 +106,9 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 		const std::size_t lastSlash = _filepath.find_last_of("/\\");
 		const std::size_t lastDot = _filepath.find_last_of('.');
 		_basename = _filepath.substr(lastSlash + 1, lastDot - lastSlash - 1);
-		_basepath = _filepath.substr(0, lastSlash + 1);
+		_basepath = lastSlash == std::string::npos
+		                ? "./"
+		                : _filepath.substr(0, lastSlash + 1);
 	}
 
 	LOGMSG << "\n Running MoorDyn (v"
-- 
2.43.0


From e3ee7cfd5a1c540fb1502e785ceb768f5d8b07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:50 +0000
Subject: [PATCH 30/65] fix: write the header of the output files of fixed and
 coupled bodies

---
 source/Body.cpp | 72 +++++++++++++++++++++++++++----------------------
 source/Body.hpp |  6 +++++
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 9f73cea..2bebdd5 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -173,6 +173,43 @@ Body::addRod(Rod* rod, vec6 coords)
 	r6RodRel.push_back(r6Rod);
 };
 
+void
+Body::openoutput()
+{
+	// create output file for writing output (and write channel header and units
+	// lines) if applicable
+
+	if (outfile) // check it's not null.  Null signals no individual line output
+	             // files
+	{
+		if (!outfile->is_open()) {
+			LOGERR << "Unable to write file Body" << number << ".out" << endl;
+			throw moordyn::output_file_error("Invalid line file");
+		}
+		// ------------- write channel names line --------------------
+
+		// output time
+		*outfile << "Time"
+		         << "\t ";
+
+		*outfile << "x\ty\tz\troll\tpitch\tyaw";
+
+		*outfile << "\n";
+
+		// ----------- write units line ---------------
+
+		if (env->WriteUnits > 0) {
+			// output time
+			*outfile << "(s)"
+			         << "\t ";
+
+			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
+
+			*outfile << "\n"; // should also write units at some point!
+		}
+	}
+}
+
 void
 Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 {
@@ -192,6 +229,8 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	// initialized otherwise
 	for (auto attached : attachedP)
 		attached->initialize();
+
+	openoutput();
 }
 
 std::pair<XYZQuat, vec6>
@@ -217,39 +256,8 @@ Body::initialize()
 		// initialized otherwise
 		for (auto attached : attachedP)
 			attached->initialize();
-	}
-
-	// create output file for writing output (and write channel header and units
-	// lines) if applicable
-
-	if (outfile) // check it's not null.  Null signals no individual line output
-	             // files
-	{
-		if (!outfile->is_open()) {
-			LOGERR << "Unable to write file Body" << number << ".out" << endl;
-			throw moordyn::output_file_error("Invalid line file");
-		}
-		// ------------- write channel names line --------------------
-
-		// output time
-		*outfile << "Time"
-		         << "\t ";
 
-		*outfile << "x\ty\tz\troll\tpitch\tyaw";
-
-		*outfile << "\n";
-
-		// ----------- write units line ---------------
-
-		if (env->WriteUnits > 0) {
-			// output time
-			*outfile << "(s)"
-			         << "\t ";
-
-			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
-
-			*outfile << "\n"; // should also write units at some point!
-		}
+		openoutput();
 	}
 
 	LOGDBG << "Initialized Body " << number << endl;
diff --git a/source/Body.hpp b/source/Body.hpp
index 96908a2..f885701 100644
--- a/source/Body.hpp
+++ b/source/Body.hpp
@@ -238,6 +238,12 @@ class Body final : public io::IO, public SuperCFL
 	 */
 	void addRod(Rod* rod, vec6 coords);
 
+	/** @brief Write the header (channel names and units) of the output file
+	 * @throws moordyn::output_file_error If an outfile has been provided, but
+	 * it cannot be written
+	 */
+	void openoutput();
+
 	/** @brief Initialize the body that aren't free i.e. don't have states
 	 *
 	 * Those are the bodies with types moordyn::Body::COUPLED and
-- 
2.43.0


From 5cc9aecdcca25b8af4d4e8dc6217bd02f27655ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 31/65] fix: do not read beyond the end of an input file whose
 last section is not closed

---
 source/MoorDyn2.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 0e12587..850642b 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -866,7 +866,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -889,7 +889,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -933,7 +933,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -950,7 +950,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -968,7 +968,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -990,7 +990,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1111,7 +1111,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
 			RodList.push_back(obj);
 
@@ -1129,7 +1129,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1256,7 +1256,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 4) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1356,7 +1356,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
-- 
2.43.0


From e05a8dd8fa86b750022d2245b91e6f71e3bfdce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 32/65] fix: refuse input files with invalid rods

---
 source/MoorDyn2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 850642b..086d2e5 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1113,6 +1113,8 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
+			if (!obj)
+				return MOORDYN_INVALID_INPUT;
 			RodList.push_back(obj);
 
 			i++;
-- 
2.43.0


From 3a29a3a98d39b79cd026873bc46c3d10d537f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 33/65] fix: refuse lines and rods with an invalid number of
 segments

---
 source/MoorDyn2.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 086d2e5..15a3f83 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1161,6 +1161,14 @@ moordyn::MoorDyn::ReadInFile()
 				return MOORDYN_INVALID_INPUT;
 			}
 
+			if (NumSegs < 1) {
+				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
+				       << endl
+				       << "'" << in_txt[i] << "'" << endl
+				       << "At least 1 segment is required" << endl;
+				return MOORDYN_INVALID_INPUT;
+			}
+
 			// Make the output file (if queried)
 			if ((outchannels.size() > 0) &&
 			    (strcspn(outchannels.c_str(), "pvUDctsd") <
@@ -2055,6 +2063,13 @@ moordyn::MoorDyn::readRod(string inputText)
 		return nullptr;
 	}
 
+	if (NumSegs < 0) {
+		LOGERR << "Error in " << _filepath << ":"
+		       << "'" << inputText << "'" << endl
+		       << "The number of segments cannot be negative" << endl;
+		return nullptr;
+	}
+
 	// Make the output file (if queried)
 	if ((outchannels.size() > 0) && (strcspn(outchannels.c_str(), "pvUDctsd") <
 	                                 strlen(outchannels.c_str()))) {
-- 
2.43.0


From 5e975ae6cfd64ac7c9a4fe43a8e4b9dd25ff7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 34/65] fix: refuse to simulate with a time step which is not
 positive

---
 source/MoorDyn2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 15a3f83..b7521f7 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -528,6 +528,10 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 	for (auto obj : BodyList)
 		cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
 	LOGMSG << "dtM = " << dtM0 << " s (CFL = " << cfl << ")" << endl;
+	if (dtM0 <= 0.0) {
+		LOGERR << "The time step shall be positive" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 
 	// Initialize the system state
 	_t_integrator->SetCFL(cfl);
-- 
2.43.0


From ff6fc71a7d52523568b42430b278e1f0029bc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:53 +0000
Subject: [PATCH 35/65] fix: warn about and ignore the outputs of objects and
 nodes that do not exist

---
 source/MoorDyn2.cpp | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index b7521f7..c4dad80 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1385,11 +1385,31 @@ moordyn::MoorDyn::ReadInFile()
 				OutChanProps dummy;
 				dummy.Name = entries[j];
 
+				// The object shall exist
+				dummy.ObjID = atoi(num1.c_str());
+				int nObjs = -1;
+				if (str::isOneOf(let1, { "FAIRTEN", "ANCHTEN", "L", "LINE" }))
+					nObjs = (int)LineList.size();
+				else if (str::isOneOf(let1, { "P", "POINT" }))
+					nObjs = (int)PointList.size();
+				else if (str::isOneOf(let1, { "R", "ROD" }))
+					nObjs = (int)RodList.size();
+				else if (str::isOneOf(let1, { "B", "BODY" }))
+					nObjs = (int)BodyList.size();
+				if ((nObjs >= 0) &&
+				    ((dummy.ObjID < 1) || (dummy.ObjID > nObjs))) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is not such object." << endl;
+					continue;
+				}
+
 				// figure out what type of output it is and process
 				// accordingly
 				// TODO: add checks of first char of num1,2, let1,2,3 not
-				// being NULL to below and handle errors (e.g. invalid line
-				// number)
+				// being NULL to below and handle errors
 
 				// fairlead tension case (changed to just be for single
 				// line, not all connected lines)
@@ -1596,6 +1616,21 @@ moordyn::MoorDyn::ReadInFile()
 					}
 				}
 
+				// The node shall exist
+				if (((dummy.OType == 1) &&
+				     (dummy.NodeID >
+				      (int)LineList[dummy.ObjID - 1]->getN())) ||
+				    ((dummy.OType == 3) &&
+				     (dummy.NodeID >
+				      (int)RodList[dummy.ObjID - 1]->getN()))) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is not such node." << endl;
+					continue;
+				}
+
 				if ((dummy.OType > 0) && (dummy.QType > 0))
 					outChans.push_back(dummy);
 			}
-- 
2.43.0


From 46c66e80fcd3ee6240314ea14024b417ac0a0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:58 +0000
Subject: [PATCH 36/65] fix: refuse water grid files with missing data

---
 source/Waves.cpp          | 12 +++++++++---
 source/Waves/WaveGrid.cpp |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index e61ea91..63326e4 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -76,9 +76,15 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 		n = 1;
 	else if (coordtype == Waves::GRID_LIST)
 		n = static_cast<unsigned int>(entries.size());
-	else if (coordtype == Waves::GRID_LATTICE)
-		n = static_cast<unsigned int>(stoul(entries[2]));
-	else
+	else if (coordtype == Waves::GRID_LATTICE) {
+		// Both boundaries and at least 2 points are required
+		if (entries.size() < 3)
+			return coordarray;
+		const int n_in = stoi(entries[2]);
+		if (n_in < 2)
+			return coordarray;
+		n = static_cast<unsigned int>(n_in);
+	} else
 		return coordarray;
 
 	// fill in coordinates
diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 8659e39..0003003 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -309,6 +309,14 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::input_file_error("Invalid file format");
 	}
 
+	for (unsigned int i : { 3, 5, 7 }) {
+		if (moordyn::str::split(lines[i]).empty()) {
+			LOGERR << "The line " << i + 1 << " of the waves grid file '"
+			       << filepath << "' is empty" << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
+	}
+
 	vector<string> entries;
 	Waves::coordtypes coordtype;
 
-- 
2.43.0


From 2a6e3b58a1010e494ad73c93f5ef100d776480c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:58 +0000
Subject: [PATCH 37/65] fix: refuse wave elevation files which are too short

---
 source/Waves/WaveGrid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 0003003..09f7e77 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -456,6 +456,14 @@ constructWaveGridElevationData(const std::string& folder,
 	LOGMSG << "'" << WaveFilename << "' parsed" << endl;
 
 	auto dtWave = env->waterKinOptions.dtWave;
+	// At least 2 samples are required to carry out the FFT
+	if (wavetimes.empty() || !(wavetimes.back() >= dtWave) ||
+	    !(dtWave > 0.0)) {
+		LOGERR << "The file '" << WaveFilename
+		       << "' should cover at least a time step dtWave = " << dtWave
+		       << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	// downsample to dtWave
 	// this makes the implicit assumption that dtWave >= interval between
 	// samples the 1 extra is for the point at zero, [0.0, 1.0, 2.0] is 3
-- 
2.43.0


From e5208a2b866bd24cdcc01588f377df1d8bd6ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:58 +0000
Subject: [PATCH 38/65] fix: refuse current profiles with missing data or times
 which are not sorted

---
 source/Waves/WaveGrid.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 09f7e77..021d2fe 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -721,6 +721,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 	for (unsigned int i = 1; i < ntin; i++)
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
+	if (!(dtWave > 0.0) || !(UProfileT.back() >= 0.0)) {
+		LOGERR << "The times of the file '" << CurrentsFilename
+		       << "' should be positive and sorted" << endl;
+		throw moordyn::invalid_value_error("Invalid times");
+	}
 	unsigned int nt = floor(UProfileT[ntin - 1] / dtWave) + 1;
 
 	auto currentGrid =
@@ -783,11 +788,30 @@ construct4DCurrentGrid(const std::string& folder,
 	// The first line must contain the number of x, y, z, t values in the
 	// input meshgrid (1-indexed, space delimited)
 	vector<string> gridDimensions = moordyn::str::split(lines[0]);
+	if (gridDimensions.size() < 4) {
+		LOGERR << "The first line of the file '" << CurrentsFilename
+		       << "' should have 4 entries" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
 	unsigned int nxCurGrid = stoul(gridDimensions[0]);
 	unsigned int nyCurGrid = stoul(gridDimensions[1]);
 	unsigned int nzCurGrid = stoul(gridDimensions[2]);
 	unsigned int ntCurGrid = stoul(gridDimensions[3]);
 
+	// Check that the grid points rows match the dimensions
+	const unsigned int nCurGrid[4] = {
+		nxCurGrid, nyCurGrid, nzCurGrid, ntCurGrid
+	};
+	for (unsigned int i = 0; i < 4; i++) {
+		if (!nCurGrid[i] ||
+		    (moordyn::str::split(lines[i + 1]).size() < nCurGrid[i])) {
+			LOGERR << "The file '" << CurrentsFilename << "' should have "
+			       << nCurGrid[i] << " (at least 1) entries in line "
+			       << i + 2 << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
+	}
+
 	// Next four rows specify grid points x, y, t, z
 	vector<real> UProfileX;
 	vector<real> UProfileY;
@@ -848,6 +872,12 @@ construct4DCurrentGrid(const std::string& folder,
 	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
+		if (entry.size() < 7) {
+			LOGERR << "The file '" << CurrentsFilename
+			       << "' should have 7 entries in line " << i + 1 << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
+
 		// Need to get indices (don't match coord values)
 		auto ix = XMap[stod(entry[0])];
 		auto iy = YMap[stod(entry[1])];
@@ -868,6 +898,12 @@ construct4DCurrentGrid(const std::string& folder,
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
 
+	if (!(dtWave > 0.0) || !(UProfileT.back() >= 0.0)) {
+		LOGERR << "The times of the file '" << CurrentsFilename
+		       << "' should be positive and sorted" << endl;
+		throw moordyn::invalid_value_error("Invalid times");
+	}
+
 	// set number of timesteps
 	unsigned int nt = floor(UProfileT[ntCurGrid - 1] / dtWave) + 1;
 
-- 
2.43.0


From f8d6b06ec02544f32df78481c6f5df47138e491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:58 +0000
Subject: [PATCH 39/65] fix: refuse sea bed files without the number of ticks

---
 source/Seafloor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/Seafloor.cpp b/source/Seafloor.cpp
index 3422a3f..7c6240c 100644
--- a/source/Seafloor.cpp
+++ b/source/Seafloor.cpp
@@ -68,8 +68,17 @@ Seafloor::setup(EnvCondRef env, const string& filepath)
 
 		// Setup nx, ny
 		vector<string> entries = moordyn::str::split(fLines[0]);
+		if (entries.size() < 2) {
+			LOGERR << "There should be 2 entries in line 1"
+			       << " of the input file.\n";
+			throw moordyn::input_file_error("Invalid no. of ticks");
+		}
 		nx = stoi(entries[0]);
 		ny = stoi(entries[1]);
+		if (!nx || !ny) {
+			LOGERR << "At least a tick is required at each axis.\n";
+			throw moordyn::input_file_error("Invalid no. of ticks");
+		}
 
 		// Setup px (x-axis ticks):
 		entries = moordyn::str::split(fLines[1]);
-- 
2.43.0


From cc4e4b974f50813a266405bfa3e09420dc34ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 40/65] fix: analyse the convergence of the dynamic relaxation
 over dtIC

ICdt was divided by the number of samples twice, so the tensions were
compared over a tenth of the interval asked for.
---
 source/MoorDyn2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c4dad80..78a0d63 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -224,7 +224,6 @@ moordyn::MoorDyn::icLegacy()
 	real best_score_t = 0.0;
 	unsigned int best_score_line = 0;
 
-	ICdt = ICdt / (convergence_iters+1);
 	while ((ICTmax - t) > (std::numeric_limits<real>::min)()) {
 		// Integrate one ICD timestep (ICdt)
 		real t_target = ICdt;
-- 
2.43.0


From f2ac1ba6bccd205951bf2988f9b95c7cde0ad1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:48 +0000
Subject: [PATCH 41/65] fix: release refused systems and invalid lines in the
 old API

MoorDynInit leaked the instance whose initialisation failed, and
GetFairTen returned an uninitialised value for a line which does not
exist.
---
 source/MoorDyn.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 42e2a21..b19ac93 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -148,8 +148,10 @@ MoorDynInit(const double x[], const double xd[], const char* infilename)
 		return MOORDYN_UNHANDLED_ERROR;
 
 	int err = MoorDyn_Init(instance, x, xd);
-	if (err)
+	if (err) {
+		MoorDyn_Close(instance);
 		return err;
+	}
 
 	if (md_singleton)
 		MoorDyn_Close(md_singleton); // We do not care if this fails
@@ -238,7 +240,8 @@ GetFairTen(int l)
 		return -1;
 	double t;
 	auto line = MoorDyn_GetLine(md_singleton, l);
-	MoorDyn_GetLineFairTen(line, &t);
+	if (!line || MoorDyn_GetLineFairTen(line, &t))
+		return -1;
 	return t;
 }
 
-- 
2.43.0


From 4a6ebebb897d9c5ebcc8b9a343bc5e6f269ececb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:52 +0000
Subject: [PATCH 42/65] fix: report bodies and points which get lost

Step kept returning success when the position of a free body or point was
no longer a number, unless a line or a free rod hung from it.
---
 source/Body.cpp  | 5 +++++
 source/Point.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 2bebdd5..ebb18d7 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -496,6 +496,11 @@ Body::getStateDeriv()
 		throw moordyn::invalid_value_error("Invalid body type");
 	}
 
+	if (isnan(r7.pos.sum()) || isnan(r7.quat.coeffs().sum())) {
+		LOGERR << "NaN detected" << endl << "Body " << number << endl;
+		throw moordyn::nan_error("NaN in the body position");
+	}
+
 	// Get contributions from attached points (and lines attached to
 	// them) and store in FNet:
 	doRHS();
diff --git a/source/Point.cpp b/source/Point.cpp
index b292587..bfc2b7c 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -293,6 +293,11 @@ Point::getStateDeriv()
 		throw moordyn::invalid_value_error("Invalid point type");
 	}
 
+	if (std::isnan(r.sum())) {
+		LOGERR << "NaN detected" << endl << "Point " << number << endl;
+		throw moordyn::nan_error("NaN in the point position");
+	}
+
 	// cout << "PointRHS: m: " << M[0][0] << ", f: " << Fnet[0] << " " <<
 	// Fnet[1] << " " << Fnet[2] << endl;
 	doRHS();
-- 
2.43.0


From 0b4a085283da5fd340ced332daca5fcc69b875be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 43/65] fix: output the actual roll and pitch of the rods

The angles were just computed along with the loads, so the first row of the
output file, and every row in case of the fixed rods, were uninitialized.
---
 source/Rod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 2178da3..9e15530 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -358,6 +358,12 @@ Rod::GetRodOutput(OutChanProps outChan)
 	if ((outChan.QType == FX)||(outChan.QType == FY)||(outChan.QType == FZ)||(outChan.QType == MX)||(outChan.QType == MY)||(outChan.QType == MZ))
 		Fout = getFnet();
 
+	if ((outChan.QType == RX) || (outChan.QType == RY)) {
+		// The loads might have not been computed yet, or never be
+		const auto angles = N ? orientationAngles(q) : make_pair(0.0, 0.0);
+		roll = -angles.first * sin(angles.second);
+		pitch = angles.first * cos(angles.second);
+	}
 
 	if (outChan.NodeID == -1) {
 		if (outChan.QType == PosX)
-- 
2.43.0


From 7571d227d1b4102222e52908a07e2229b8c526b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 44/65] fix: let moordyn.ExternalWaveKinGetN() return the
 number of points

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 6363779..2ce264b 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -303,7 +303,7 @@ def ExternalWaveKinGetN(instance):
     int: The number of points
     """
     import cmoordyn
-    return cmoordyn.ext_wave_init(instance)
+    return cmoordyn.ext_wave_n(instance)
 
 
 def GetWaveKinCoordinates(instance):
-- 
2.43.0


From e82d5c7fd3d44d7a841225deaef42fbf57306d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 45/65] fix: call the waves kinematics from Python with the
 arguments it takes

moordyn.GetWavesKin() always raised TypeError
---
 wrappers/python/cmoordyn.cpp       | 2 +-
 wrappers/python/moordyn/moordyn.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index d1597aa..1fccfc8 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -1018,7 +1018,7 @@ waves_getkin(PyObject*, PyObject* args)
 {
 	PyObject* capsule;
 	double x, y, z;
-	PyObject* seafloor;
+	PyObject* seafloor = Py_None;
 
 	if (!PyArg_ParseTuple(args, "Oddd|O", &capsule, &x, &y, &z, &seafloor))
 		return NULL;
diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 2ce264b..4938ac7 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -576,7 +576,7 @@ def SaveVTK(instance, filename):
 #  =============================================================================
 
 
-def GetWavesKin(instance, x, y, z, t, seafloor=None):
+def GetWavesKin(instance, x, y, z, seafloor=None):
     """ Get the wave kinematics
 
     Parameters:
@@ -584,7 +584,6 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     x (float): The x coordinate
     y (float): The y coordinate
     z (float): The z coordinate
-    t (float): The simulation time
     seafloor (cmoordyn.MoorDynSeafloor): The 3D seafloor instance
 
     Returns:
@@ -594,7 +593,7 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     pdyn: The dynamic pressure
     """
     import cmoordyn
-    return cmoordyn.waves_getkin(instance, x, y, z, t, seafloor)
+    return cmoordyn.waves_getkin(instance, x, y, z, seafloor)
 
 
 #                                  Seafloor.h
-- 
2.43.0


From cfe4826b98c8697d7a7baf07017cf63eff33a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 46/65] fix: let moordyn.UseBodyVTK() call the existing
 function

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 4938ac7..8dc3bee 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -792,7 +792,7 @@ def UseBodyVTK(instance, filename):
     int: 0 uppon success, an error code otherwise
     """
     import cmoordyn
-    return cmoordyn.use_save_vtk(instance, filename)
+    return cmoordyn.body_use_vtk(instance, filename)
 
 #                                  Rod.h
 #  =============================================================================
-- 
2.43.0


From e4575f7352ab03b16d5ce40ad4598362aed4e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 47/65] fix: let moordyn.IsLinePressBend() ask its own line

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 8dc3bee..afc962e 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1145,7 +1145,7 @@ def IsLinePressBend(instance):
     b: True if the pressure bending of the line is enabled, False otherwise
     """
     import cmoordyn
-    return cmoordyn.line_is_pbend(b)
+    return cmoordyn.line_is_pbend(instance) != 0
 
 
 def SetLinePressBend(instance, b):
-- 
2.43.0


From 192dec48b4c6508e1609ebf00816c3b324483ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 48/65] fix: let moordyn.GetLineNodeSeabedForce() return the
 seabed force

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index afc962e..7424edc 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1308,7 +1308,7 @@ def GetLineNodeSeabedForce(instance, i):
     f: The node force (a 3 components tuple)
     """
     import cmoordyn
-    return cmoordyn.line_get_node_froudekrylov(instance, i)
+    return cmoordyn.line_get_node_seabed(instance, i)
 
 
 def GetLineNodeCurv(instance, i):
-- 
2.43.0


From de1ca9b7b0975fc2f1576ed26aa5149444896284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 49/65] fix: read the whole flag of moordyn.SetLinePressBend()

The b format only writes the first byte of the int
---
 wrappers/python/cmoordyn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 1fccfc8..4fce58e 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -2235,7 +2235,7 @@ line_set_pbend(PyObject*, PyObject* args)
 	PyObject* capsule;
 	int b;
 
-	if (!PyArg_ParseTuple(args, "Ob", &capsule, &b))
+	if (!PyArg_ParseTuple(args, "Op", &capsule, &b))
 		return NULL;
 
 	MoorDynLine instance =
-- 
2.43.0


From cb5c7ecd12b3e054ea4639b7561a13c94add1306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 50/65] fix: let the bodies of the Python generator be created

The constructor used an argument, ca, which it did not take
---
 wrappers/python/moordyn/Generator/Body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 5fdd199..675b174 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -45,7 +45,7 @@ class BodyPoint():
 class Body(Entity):
     """A body
     """
-    def __init__(self, t, p, r, m, cog, inertia, cda, v):
+    def __init__(self, t, p, r, m, cog, inertia, cda, v, ca):
         """Constructor
 
         Parameters
-- 
2.43.0


From 2b19167141efd8c745652bb101c5160334cf6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 51/65] fix: write the columns of the generated bodies in the
 order of the input file

---
 wrappers/python/moordyn/Generator/Body.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 675b174..1edcd95 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -68,8 +68,8 @@ class Body(Entity):
         Entity.__init__(
             self,
             "BODIES",
-            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Volume", "Inertia", "CdA", "Ca"],
-            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(m^3)", "(kg*m^2)", "(m^2)", "(-)"])
+            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Inertia", "Volume", "CdA", "Ca"],
+            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
         self.__name = 0
         self.__t = t
         self.__p = PropsList(p, " ")
@@ -179,7 +179,7 @@ class Body(Entity):
                          self.__r,
                          self.__m,
                          self.__cog,
-                         self.__v,
                          self.__I,
+                         self.__v,
                          self.__cda,
                          self.__ca])
-- 
2.43.0


From 6888fba81490cafbd1f43955e59d7161dd60aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 52/65] fix: write the rotation of the generated bodies in
 degrees

The generator takes radians, while the input file is in degrees
---
 wrappers/python/moordyn/Generator/Body.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 1edcd95..0f19b1e 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -1,6 +1,14 @@
+import math
 from .Entity import Entity, PropsList
 
 
+class AnglesList(PropsList):
+    """A list of angles (radians), written in degrees
+    """
+    def __str__(self):
+        return str(PropsList([math.degrees(v) for v in self.values], " "))
+
+
 class BodyPoint():
     """The body point
     """
@@ -69,11 +77,11 @@ class Body(Entity):
             self,
             "BODIES",
             field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Inertia", "Volume", "CdA", "Ca"],
-            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
+            field_units=["(#)", "(name)", "(m) (m) (m)", "(deg) (deg) (deg)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
         self.__name = 0
         self.__t = t
         self.__p = PropsList(p, " ")
-        self.__r = PropsList(r, " ")
+        self.__r = AnglesList(r, " ")
         self.__m = m
         self.__cog = PropsList(cog, "|")
         self.__v = v
@@ -115,7 +123,7 @@ class Body(Entity):
 
     @r.setter
     def r(self, r):
-        self.__r = PropsList(r, " ")
+        self.__r = AnglesList(r, " ")
         self.__set_values()
 
     @property
-- 
2.43.0


From 38da2c5121e8766f839e48ce78902486e94d2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 53/65] fix: name the body which a generated point is attached
 to

---
 wrappers/python/moordyn/Generator/Body.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 0f19b1e..d9e958b 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -191,3 +191,12 @@ class Body(Entity):
                          self.__v,
                          self.__cda,
                          self.__ca])
+
+    def __str__(self):
+        """Get the string
+
+        Returns
+        -------
+        str: The name of the body as an attachment
+        """
+        return "BODY" + str(self.__name)
-- 
2.43.0


From 3141d64a892ab26899887594f9bce82b94775a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 54/65] fix: write the end of the rod which a generated line is
 attached to

---
 wrappers/python/moordyn/Generator/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Line.py b/wrappers/python/moordyn/Generator/Line.py
index 0cd76ef..95fcb86 100644
--- a/wrappers/python/moordyn/Generator/Line.py
+++ b/wrappers/python/moordyn/Generator/Line.py
@@ -176,7 +176,7 @@ class LinePoint():
         str: The point string
         """
         if isinstance(self.__obj, Rod):
-            return "R" + str(self.__obj.name)
+            return "R" + str(self.__obj.name) + self.__end_point
         return str(self.__obj.name)
 
 
-- 
2.43.0


From 889d1ace85de36b01cee8441d107314308502310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 55/65] fix: let the material of the generated rods be set

---
 wrappers/python/moordyn/Generator/Rod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Rod.py b/wrappers/python/moordyn/Generator/Rod.py
index 46c4384..d06de2a 100644
--- a/wrappers/python/moordyn/Generator/Rod.py
+++ b/wrappers/python/moordyn/Generator/Rod.py
@@ -218,7 +218,7 @@ class Rod(Entity):
         return self.__mat
 
     @material.setter
-    def d(self, material):
+    def material(self, material):
         self.__mat = material
         self.__set_values()
 
-- 
2.43.0


From d7330a7e7986f9c218510ef6a9261b2e5d093e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 56/65] fix: follow the names of the materials of the generated
 lines and rods

Renaming a material left the lines and rods with the former name
---
 wrappers/python/moordyn/Generator/Line.py | 11 ++++++++++-
 wrappers/python/moordyn/Generator/Rod.py  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Line.py b/wrappers/python/moordyn/Generator/Line.py
index 95fcb86..4db702e 100644
--- a/wrappers/python/moordyn/Generator/Line.py
+++ b/wrappers/python/moordyn/Generator/Line.py
@@ -144,6 +144,15 @@ class LineMaterial(Entity):
                          self.__cdt,
                          self.__cat])
 
+    def __str__(self):
+        """Get the string
+
+        Returns
+        -------
+        str: The name of the material
+        """
+        return str(self.__name)
+
 
 class LinePoint():
     """The line point
@@ -264,7 +273,7 @@ class Line(Entity):
 
     def __set_values(self):
         self.set_values([self.__name,
-                         self.__mat.name,
+                         self.__mat,
                          self.__point0,
                          self.__point1,
                          self.__l,
diff --git a/wrappers/python/moordyn/Generator/Rod.py b/wrappers/python/moordyn/Generator/Rod.py
index d06de2a..4bc1c19 100644
--- a/wrappers/python/moordyn/Generator/Rod.py
+++ b/wrappers/python/moordyn/Generator/Rod.py
@@ -104,6 +104,15 @@ class RodMaterial(Entity):
                          self.__cdt,
                          self.__cat])
 
+    def __str__(self):
+        """Get the string
+
+        Returns
+        -------
+        str: The name of the material
+        """
+        return str(self.__name)
+
 
 class RodPoint():
     """The rod point
@@ -260,7 +269,7 @@ class Rod(Entity):
 
     def __set_values(self):
         self.set_values([self.__name,
-                         self.__mat.name,
+                         self.__mat,
                          self.__point,
                          self.__p0,
                          self.__p1,
-- 
2.43.0


From e26622bbcdf5dbb9a9a0d75131bc42fb44b43a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:32 +0000
Subject: [PATCH 57/65] fix: look for the maximum tension of a line at all of
 its nodes

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 01a782a..981d5e1 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1852,7 +1852,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From ba7b2d791908a6b367cefb5f9401ecef2986bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:28 +0000
Subject: [PATCH 58/65] fix: bind MD_SetVerbosity() to a function that exists

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 26ebdc6..2dff8c0 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -93,7 +93,7 @@ module moordyn
       integer(c_int), intent(out) :: n
     end function MD_NCoupledDOF
 
-    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MD_SetVerbosity')
+    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MoorDyn_SetVerbosity')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
       integer(c_int), intent(in) :: n
-- 
2.43.0


From baa3b8e3a0f9699077f4580537f18a00dc482d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:23 +0000
Subject: [PATCH 59/65] fix: pass the verbosity and log levels from Fortran by
 value

---
 wrappers/fortran/MoorDyn.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 2dff8c0..88691c2 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -96,7 +96,7 @@ module moordyn
     integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MoorDyn_SetVerbosity')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetVerbosity
 
     function MoorDyn_SetLogFile(instance, f) bind(c, name='MoorDyn_SetLogFile') result(rc)
@@ -109,13 +109,13 @@ module moordyn
     integer(c_int) function MD_SetLogLevel(instance, n) bind(c, name='MoorDyn_SetLogLevel')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetLogLevel
 
     function MoorDyn_Log(instance, n, f) bind(c, name='MoorDyn_Log') result(rc)
       import :: c_ptr, c_int, c_char
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
       character(kind=c_char), intent(in) :: f(*)
       integer(c_int) :: rc
     end function MoorDyn_Log
-- 
2.43.0


From 43092ae644ec89784458b6f3223716045c47ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:23 +0000
Subject: [PATCH 60/65] fix: pass the time of the external wave kinematics from
 Fortran by value

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 88691c2..05968a8 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -186,7 +186,7 @@ module moordyn
       type(c_ptr), value, intent(in) :: instance
       type(c_ptr), value, intent(in) :: u
       type(c_ptr), value, intent(in) :: ud
-      real(c_double), intent(in) :: t
+      real(c_double), value, intent(in) :: t
       integer(c_int) :: rc
     end function MoorDyn_ExternalWaveKinSet
 
-- 
2.43.0


From 3d8f0ba6202f14ee111adfb3ef27bf6e248be4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:23 +0000
Subject: [PATCH 61/65] fix: pass the stiffness of MD_SetLineConstantEA() by
 value

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 05968a8..d3a7d51 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -554,7 +554,7 @@ module moordyn
     integer(c_int) function MD_SetLineConstantEA(instance, ea) bind(c, name='MoorDyn_SetLineConstantEA')
       import :: c_ptr, c_double, c_int
       type(c_ptr), value, intent(in) :: instance
-      real(c_double), intent(out) :: ea
+      real(c_double), value, intent(in) :: ea
     end function MD_SetLineConstantEA
 
     integer(c_int) function MD_IsLinePressBend(instance, t) bind(c, name='MoorDyn_IsLinePressBend')
-- 
2.43.0


From 566a86dc223989d7fcd8825e1ca675c6b4d7b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:23 +0000
Subject: [PATCH 62/65] fix: pass the flag of MD_SetLinePressBend() by value

---
 wrappers/fortran/MoorDyn.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index d3a7d51..fadebba 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -566,7 +566,7 @@ module moordyn
     integer(c_int) function MD_SetLinePressBend(instance, b) bind(c, name='MoorDyn_SetLinePressBend')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(out) :: b
+      integer(c_int), value, intent(in) :: b
     end function MD_SetLinePressBend
 
     function MoorDyn_SetLinePressInt(instance, p) bind(c, name='MoorDyn_SetLinePressInt') result(rc)
-- 
2.43.0


From d4a6ab22a6e669450a8e997c5018f66951e71498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:23 +0000
Subject: [PATCH 63/65] fix: read the single precision tensions of
 MoorDyn_GetFASTtens() in Fortran

---
 wrappers/fortran/MoorDyn.f90 | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index fadebba..5a43e4e 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -2,7 +2,7 @@ module moordyn
 
   use, intrinsic :: iso_fortran_env, only: int64, real32, real64, &
                                            stderr => error_unit
-  use, intrinsic :: iso_c_binding, only: c_char, c_null_char, c_int, c_double, &
+  use, intrinsic :: iso_c_binding, only: c_char, c_null_char, c_int, c_float, c_double, &
                                          c_ptr, c_loc
 
   implicit none
@@ -775,11 +775,18 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), intent(inout) :: n
-    real(c_double), intent(in), target :: fht(:)
-    real(c_double), intent(in), target :: fvt(:)
-    real(c_double), intent(in), target :: aht(:)
-    real(c_double), intent(in), target :: avt(:)
-    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(fht), c_loc(fvt), c_loc(aht), c_loc(avt))
+    real(c_double), intent(inout) :: fht(:)
+    real(c_double), intent(inout) :: fvt(:)
+    real(c_double), intent(inout) :: aht(:)
+    real(c_double), intent(inout) :: avt(:)
+    real(c_float), target :: tens(max(n, 1), 4)
+    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(tens(1, 1)), c_loc(tens(1, 2)), c_loc(tens(1, 3)), c_loc(tens(1, 4)))
+    if (MD_GetFASTtens == MD_SUCESS) then
+      fht(1:n) = tens(1:n, 1)
+      fvt(1:n) = tens(1:n, 2)
+      aht(1:n) = tens(1:n, 3)
+      avt(1:n) = tens(1:n, 4)
+    end if
   end function MD_GetFASTtens
 
   integer function MD_Save(instance, f)
-- 
2.43.0


From 44c01e3942121ff0b948a2d243b0a1069b42c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:45 +0000
Subject: [PATCH 64/65] fix: print the time of each step only if the verbosity
 allows it

---
 source/MoorDyn2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 78a0d63..84fbc31 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -625,7 +625,8 @@ moordyn::MoorDyn::Step(const double* x,
 	LOGDBG << "t = " << t << "s     \r";
 	std::cout << std::defaultfloat << setprecision(default_precision);
 
-	cout << "\rt = " << t << " " << flush;
+	if (GetLogger()->GetVerbosity() <= MOORDYN_MSG_LEVEL)
+		cout << "\rt = " << t << " " << flush;
 
 	if (dt <= 0) {
 		// Nothing to do, just recover the forces if there are coupled DOFs
-- 
2.43.0


From aca127b398d9cc71713c02809100e1cf0578a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:45 +0000
Subject: [PATCH 65/65] fix: report a log file that cannot be opened instead of
 throwing through the C API

---
 source/MoorDyn2.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 84fbc31..68d4dc3 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2432,8 +2432,17 @@ int DECLDIR
 MoorDyn_SetLogFile(MoorDyn system, const char* log_path)
 {
 	CHECK_SYSTEM(system);
-	((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0

