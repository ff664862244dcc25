From 604c217ac590962c29508b11fbb3348f6c3b7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 01/49] fix: give Lepton.hh and FileParser.hh working include
 guards

Lepton.hh had none and FileParser.hh tested a different macro than it
defined, so including either twice in a translation unit failed.
---
 Source/IO/Input/FileParser.hh | 2 +-
 Source/Particles/Lepton.hh    | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Input/FileParser.hh b/Source/IO/Input/FileParser.hh
index a3fddf0..890e021 100644
--- a/Source/IO/Input/FileParser.hh
+++ b/Source/IO/Input/FileParser.hh
@@ -1,4 +1,4 @@
-#ifndef FileParser_HH
+#ifndef FILEPARSER_HH
 #define FILEPARSER_HH
 
 #include "INIReader.hh"
diff --git a/Source/Particles/Lepton.hh b/Source/Particles/Lepton.hh
index 08b2de0..5de78c4 100644
--- a/Source/Particles/Lepton.hh
+++ b/Source/Particles/Lepton.hh
@@ -1,3 +1,6 @@
+#ifndef LEPTON_HH
+#define LEPTON_HH
+
 #include "Particle.hh"
 
 
@@ -27,4 +30,6 @@ public:
 
 private:
     std::string m_name;
-};
\ No newline at end of file
+};
+
+#endif
-- 
2.43.0


From c67faa4e4ce725126c6d9ee6cffe60ff90a58ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 02/49] fix: ThreeVector::Norm of a zero vector is zero and
 Direction is a unit vector

---
 Source/Tools/ThreeVector.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..c5e2909 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -59,7 +59,9 @@ public:
 
 	ThreeVector Norm() const
 	{
-		return *this / Mag();
+		double mag = Mag();
+		if (mag == 0.0) return ThreeVector();
+		return *this / mag;
 	}
 
 	// Returns the dot product
@@ -88,8 +90,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From 6b4ae9478d2e4ee4364177611583e6252f983237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 03/49] fix: RotateToAxis rotates onto the axis for
 antiparallel vectors along any direction

---
 Source/Tools/ThreeVector.hh | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index c5e2909..29c004e 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -100,16 +100,27 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Rotate onto the opposite of the axis (a small angle) and then turn
+			// by pi around a direction perpendicular to the axis
+			ThreeVector norm = axis.Norm();
+			ThreeVector ref = std::abs(norm[1]) < 0.9 ? ThreeVector(0, 1, 0)
+			                                          : ThreeVector(1, 0, 0);
+			ThreeVector perp = (ref - norm.Dot(ref) * norm).Norm();
+			ThreeMatrix flip;
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					flip[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
+			rotation = flip * RotateToAxis(-1.0 * norm);
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
 			ThreeVector norm2 = axis.Norm();
 			ThreeVector crossVec = norm1.Cross(norm2);
 
-			double cos = norm1.Dot(norm2);
 			ThreeMatrix skewMat;
 			skewMat[0][1] = -crossVec[2];
 			skewMat[0][2] =  crossVec[1];
@@ -120,7 +131,9 @@ public:
 
 			ThreeMatrix ident;
 			ident.Ideneity();
-			rotation = ident + skewMat + skewMat * skewMat * (1.0 / (1.0 + cos));
+			// 1 + cos = |norm1 + norm2|^2 / 2, which stays accurate near antiparallel
+			rotation = ident + skewMat + skewMat * skewMat
+				* (2.0 / (norm1 + norm2).Mag2());
 		}
 		return rotation;
 	}
-- 
2.43.0


From 43ec0e73f72d108c34232b47d2598efb2f0212ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 04/49] fix: magnetic field of plane and gaussian waves is k x
 E for any polarisation

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 Source/Physics/Fields/EMField/PlaneEMField.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..88b0789 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..ffb21a9 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 1f5b217c6ac57140dfea708e98f94b9e45ed7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 05/49] fix: laser pulses focus at the configured focus
 position

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 2 +-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..33e5cec 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 88b0789..5196e19 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 6adfd83afaa42f43e49bfd11d9dfaac23c05d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 06/49] fix: laser pulse carrier travels with the pulse instead
 of standing still

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 2 +-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 33e5cec..5811a36 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,7 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - m_t0 - position_p[2] - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 5196e19..ce096f9 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - (time - t0)) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 905c68c61666205859eaf998297dcfa9ba1a1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 07/49] fix: focusing field polarisation rotates the field and
 its coordinates together

---
 .../Physics/Fields/EMField/FocusingField.cpp  | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 5811a36..1347e5c 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -27,8 +27,11 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
     ThreeVector position_p = m_rotaion * (position - m_focusPos);
-    double xe = position_p[0] / m_waist;
-    double ye = position_p[1] / m_waist;
+    // Coordinates along and across the polarisation direction
+    double xe = (position_p[0] * std::cos(m_polAngle)
+        + position_p[1] * std::sin(m_polAngle)) / m_waist;
+    double ye = (position_p[1] * std::cos(m_polAngle)
+        - position_p[0] * std::sin(m_polAngle)) / m_waist;
     double ze = position_p[2] / m_rayleigh;
     double r2  = position_p[0] * position_p[0] + position_p[1] * position_p[1];
     double rho2 = r2 / (m_waist *  m_waist);
@@ -76,14 +79,16 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
-        - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
-        + eField[1] * std::cos(m_polAngle);
+    ThreeVector eLocal = eField;
+    eField[0] = eLocal[0] * std::cos(m_polAngle)
+        - eLocal[1] * std::sin(m_polAngle);
+    eField[1] = eLocal[0] * std::sin(m_polAngle)
+        + eLocal[1] * std::cos(m_polAngle);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
-        - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
-        + bField[1] * std::cos(m_polAngle);
+    ThreeVector bLocal = bField;
+    bField[0] = bLocal[0] * std::cos(m_polAngle)
+        - bLocal[1] * std::sin(m_polAngle);
+    bField[1] = bLocal[0] * std::sin(m_polAngle)
+        + bLocal[1] * std::cos(m_polAngle);
     bField = m_rotationInv * bField;
-}
\ No newline at end of file
+}
-- 
2.43.0


From ecc303725aaef386997259b73b582cacc91deccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 08/49] fix: stochastic emission records the configured
 fraction of photons, not its complement

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From f8a4ee4e0fb0c5a420b665873b12c9a1dd8037cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 09/49] fix: sources rotate their particles from z onto the
 source direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..8117632 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -31,7 +31,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From a2db640e7e91867e535ad968ea66e7d5f85029cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 10/49] fix: mono-energetic sources give every particle the
 configured energy

---
 Source/Particles/SourceGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 8117632..2b80f72 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -28,7 +28,8 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     } else
     {
-        m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+        // Mono-energetic source
+        m_energy = std::vector<double>(nPart, energy1);
     }
     
     m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
-- 
2.43.0


From bcb6b045a0eb105099b98b0f984cf89c7a71d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 11/49] fix: linear interpolation at and beyond the last sample
 uses the last interval

---
 Source/Tools/Numerics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..5f01ba7 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -36,12 +36,13 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 	{
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
-		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
+		queryData = sampleData[end-1] + (sampleData[end] - sampleData[end-1]) 
 									  * ((queryPoint - samplePoints[end-1])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
+		// The last interval is used if queryPoint is the last sample
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
 		for (unsigned int i = 0; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
-- 
2.43.0


From b8e85a60f73f6fe267568a26e6381db5cd11bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 12/49] fix: table bracketing accepts queries in the last table
 interval

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 5f01ba7..cbb553f 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -101,7 +101,7 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			break;
 		}
 	}
-	if (lowIndex < sampleSize - 2)
+	if (lowIndex < sampleSize - 1)
 	{
 		frac = (queryPoint - samplePoints[lowIndex]) / (samplePoints[lowIndex+1]
 			- samplePoints[lowIndex]);
-- 
2.43.0


From d2f1e9801bef0dae734442c3b92a55b89f71b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 13/49] fix: pair creation gives NaN momenta and optical depths
 no more

---
 .../Processes/NonLinearBreitWheeler.cpp        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..f8bc225 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -22,6 +24,8 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
     double chi = CalculateChi(part);
+    // No pair production without a field (log10(chi) is not defined)
+    if (!(chi > 0.0)) return;
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
@@ -29,13 +33,19 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     part->UpdateOpticalDepth(deltaOD);
 
     // Now check if process hass occured. If so then emmit and react
-    if (part->GetOpticalDepth() < 0.0)
+    // (a photon below the pair rest energy can't convert)
+    if (part->GetOpticalDepth() < 0.0 && part->GetEnergy() > 2.0)
     {
-        double split = CalculateSplit(chi);
+        // Both particles must have at least their rest energy
+        double minSplit = 1.0 / part->GetEnergy();
+        double split = std::min(std::max(CalculateSplit(chi), minSplit),
+            1.0 - minSplit);
         double pEnergy = split * part->GetEnergy();
         double eEnergy = (1.0 - split) * part->GetEnergy();
-        ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
-        ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
+        ThreeVector pMomentum =  std::sqrt(std::max(0.0, pEnergy * pEnergy - 1.0))
+            * part->GetDirection();
+        ThreeVector eMomentum =  std::sqrt(std::max(0.0, eEnergy * eEnergy - 1.0))
+            * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
             part->GetWeight(), part->GetTime(), m_track); 
         Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
-- 
2.43.0


From 40aaf897426a9c1afe423689a7324818ee06b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 14/49] fix: RandDiscrete can return the first index

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..7f98c71 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From a460e7f34194fe0ce0d3e2fc6f901626f80aabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 15/49] fix: emitted photon carries the momentum lost by a
 lepton that the recoil reverses

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index 82de4c9..2449077 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // The recoil can reverse the particle, so keep the emission direction
+        ThreeVector gammaDir = part->GetDirection();
+        ThreeVector gammaP = gammaE * gammaDir;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                gammaDir, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From a942706121ce392f58c526014a419789a1234b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 16/49] fix: random generator is seeded by SetSeed and each
 thread draws its own stream

---
 Source/Tools/MCTools.cpp | 38 ++++++++++++++++++++++++++++++++------
 Source/Tools/MCTools.hh  |  3 ---
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index 7f98c71..e5a1427 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -1,28 +1,54 @@
 #include "MCTools.hh"
+#include <atomic>
 #include <random>
 #include <iostream>
 
+// Each thread owns a generator, seeded from the base seed and the thread
+static std::atomic<unsigned int> baseSeed(std::random_device{}());
+static std::atomic<unsigned int> seedVersion(0);
+static std::atomic<unsigned int> threadCount(0);
+
+static std::mt19937 MakeGenerator(unsigned int thread)
+{
+    std::seed_seq seq{baseSeed.load(), thread};
+    return std::mt19937(seq);
+}
+
+static std::mt19937& Generator()
+{
+    thread_local unsigned int thread = threadCount++;
+    thread_local unsigned int version = seedVersion;
+    thread_local std::mt19937 generator = MakeGenerator(thread);
+    if (version != seedVersion)
+    {
+        version = seedVersion;
+        generator = MakeGenerator(thread);
+    }
+    return generator;
+}
+
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    baseSeed = seed;
+    seedVersion++;
 }
 
 double MCTools::RandDouble(double low, double high)
 {
     std::uniform_real_distribution<double> dist(low, high);
-    return dist(generator);
+    return dist(Generator());
 }
 
 double MCTools::RandNorm(double mean, double sig)
 {
     std::normal_distribution<double> dist(mean, sig);
-    return dist(generator);
+    return dist(Generator());
 }
 
 unsigned int MCTools::RandPoisson(double mean)
 {
     std::poisson_distribution<unsigned int> dist(mean);
-    return dist(generator);
+    return dist(Generator());
 }
 
 unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
@@ -100,7 +126,7 @@ std::vector<double> MCTools::SampleNorm(double mean, double sig, unsigned int nS
 
     for (unsigned int i = 0; i < nSamples; i++)
     {
-        samples[i] = normDist(generator);
+        samples[i] = normDist(Generator());
     }
     return samples;
 }
@@ -113,7 +139,7 @@ std::vector<double> MCTools::SampleUniform(double low, double high, unsigned int
 
     for (unsigned int i = 0; i < nSamples; i++)
     {
-        samples[i] = dist(generator);
+        samples[i] = dist(Generator());
     }
     return samples;
 }
diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..22d1b63 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -32,8 +32,5 @@ namespace MCTools
     Eigen::VectorXd RandSinhArcsinhNd(const Eigen::VectorXd& mean,
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
-
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 3f4ec26754ef4df674a97f4d22885448f1693ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 17/49] fix: tracked particles record the time that belongs to
 the recorded position

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From fdb4d506b3367a948b646385bb546629bd6f4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 18/49] fix: threads generating lists from one source never
 share a particle

---
 Source/Particles/SourceGenerator.cpp | 29 ++++++++++++++--------------
 Source/Particles/SourceGenerator.hh  |  3 ++-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 2b80f72..d3415a8 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -41,38 +41,40 @@ SourceGenerator::~SourceGenerator()
 
 ParticleList* SourceGenerator::GenerateList()
 {
-    if (m_partCount == m_nPart)
+    // Take the next particle, also when threads generate lists at once
+    unsigned int index = m_partCount++;
+    if (index >= m_nPart)
     {
         std::cerr << "Error: Particle source depleted." << std::endl;
         std::exit(1);
     }
-    ParticleList* list = new ParticleList(std::to_string(m_partCount));
+    ParticleList* list = new ParticleList(std::to_string(index));
 
-    ThreeVector partPosition = ThreeVector(m_xPos[m_partCount],
-                                           m_yPos[m_partCount],
-                                           m_zPos[m_partCount]);
+    ThreeVector partPosition = ThreeVector(m_xPos[index],
+                                           m_yPos[index],
+                                           m_zPos[index]);
     partPosition = m_rotaion * partPosition + m_position;
 
-    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[m_partCount])
-                                          * std::cos(m_phiDir[m_partCount]),
-                                            std::sin(m_thetaDir[m_partCount])
-                                          * std::sin(m_phiDir[m_partCount]),
-                                            std::cos(m_thetaDir[m_partCount]));
+    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[index])
+                                          * std::cos(m_phiDir[index]),
+                                            std::sin(m_thetaDir[index])
+                                          * std::sin(m_phiDir[index]),
+                                            std::cos(m_thetaDir[index]));
     partDirection = m_rotaion * partDirection;
 
     if (m_type == "Photon" || m_type == "photon")
     {
-        Photon* part = new Photon(m_energy[m_partCount], partPosition,
+        Photon* part = new Photon(m_energy[index], partPosition,
             partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Electron" || m_type == "electron")
     {
-        Lepton* part = new Lepton(1.0, -1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, -1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Positron" || m_type == "positron")
     {
-        Lepton* part = new Lepton(1.0, 1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, 1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else
@@ -81,7 +83,6 @@ ParticleList* SourceGenerator::GenerateList()
         std::cerr << "Exiting!\n";
         exit(-1);
     }
-    m_partCount++;
     return list;
 }
 
diff --git a/Source/Particles/SourceGenerator.hh b/Source/Particles/SourceGenerator.hh
index c10bd3b..8eadf97 100644
--- a/Source/Particles/SourceGenerator.hh
+++ b/Source/Particles/SourceGenerator.hh
@@ -1,6 +1,7 @@
 #ifndef SOURCEGENERATOR_HH
 #define SOURCEGENERATOR_HH
 
+#include <atomic>
 #include <vector>
 #include "ThreeVector.hh"
 #include "ParticleList.hh"
@@ -36,7 +37,7 @@ private:
     std::vector<double> m_thetaDir;
     std::vector<double> m_phiDir;
     std::vector<double> m_energy;
-    unsigned int m_partCount;
+    std::atomic<unsigned int> m_partCount;
     ThreeMatrix m_rotaion;
     bool m_track;
 };
-- 
2.43.0


From 90a2f35fb5e1b095affaede8f4e68a98f40ad4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 19/49] fix: histograms use the quantity they are configured
 with

---
 Source/IO/Output/Histogram.cpp | 58 +++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..83d6fc0 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -172,6 +172,42 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
+		} else if (m_type == "PX" || m_type == "px")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double mom =  partList->GetParticle(i)->GetMomentum()[0];
+				if (mom > m_binCentres[0] && mom < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, mom);
+					m_binValues[index]++;
+				}
+			}
+		} else if (m_type == "PY" || m_type == "py")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double mom =  partList->GetParticle(i)->GetMomentum()[1];
+				if (mom > m_binCentres[0] && mom < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, mom);
+					m_binValues[index]++;
+				}
+			}
+		} else if (m_type == "PZ" || m_type == "pz")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				m_entries++;
+				double mom =  partList->GetParticle(i)->GetMomentum()[2];
+				if (mom > m_binCentres[0] && mom < m_binCentres[m_nBins-1])
+				{
+					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, mom);
+					m_binValues[index]++;
+				}
+			}
 		} else
 		{
 			std::cerr << "Error: Particle property \"" << m_type << "\" not found\n";
-- 
2.43.0


From ab409a5ec37362a544a785aee8375fdb96b77bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 20/49] fix: histograms start with no entries and never hold
 NaN

---
 Source/IO/Output/Histogram.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 83d6fc0..b6ba94c 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,9 +26,10 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
-	double detla = (maxBin - minBin) / (m_nBins - 1.0);
+	double detla = m_nBins > 1 ? (maxBin - minBin) / (m_nBins - 1.0) : 0;
 	for (unsigned int i = 0; i < m_nBins; i++)
 	{
 		m_binCentres[i] = minBin + i * detla;
@@ -246,6 +247,10 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
+		if (sum == 0)
+		{
+			return;
+		}
 		for (unsigned int i = 0; i < m_nBins; i++)
 		{
 			m_binValues[i] /= sum;
-- 
2.43.0


From 96f50d1eb0a89d26fe50558ebce3e556bb733c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 21/49] fix: deck vectors accept any separator and exponent and
 keep their default

---
 Source/IO/Input/INIReader.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..25dd75b 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == ' ' || c == 'e' || c == 'E'
+                || std::isdigit(static_cast<unsigned char>(c)))
             {
                 return false;
             } else
@@ -102,9 +103,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
@@ -118,7 +118,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
-    return vector;
+    return i > 0 ? vector : default_value;
 }
 
 bool INIReader::HasValue(const std::string& section, const std::string& name) const
-- 
2.43.0


From d5ff1e4a8c93605b3a2bb96313fc96e90149e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 22/49] fix: decks with a time step that is not positive or
 impossible counts are refused

---
 Source/IO/Input/FileParser.cpp | 25 +++++++++++++++++++++++--
 Source/IO/Input/FileParser.hh  |  3 +++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c4ce767..d324268 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <limits>
 #include "FileParser.hh"
 #include "UnitsSystem.hh"
 #include <fstream>
@@ -60,11 +61,31 @@ void FileParser::CheckVitals()
     }
 }
 
+unsigned int FileParser::ReadCount(const std::string& section, const std::string& name,
+                                   long minimum)
+{
+    long count = m_reader->GetInteger(section, name, 1);
+    if (count < minimum || count > std::numeric_limits<unsigned int>::max())
+    {
+        std::cerr << "Input error: \"" << name << "\" of \"" << section
+                  << "\" is out of range\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
+    return count;
+}
+
 void FileParser::ReadGeneral()
 {
     m_general.units = m_reader->GetString("General", "units", "None");
     m_units = new UnitsSystem(m_general.units);
     m_general.timeStep = m_reader->GetReal("General", "time_step", 0) / m_units->RefTime();
+    if (!(m_general.timeStep > 0))
+    {
+        std::cerr << "Input error: \"time_step\" must be a positive number\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
     m_general.fileName = m_reader->GetString("General", "file_name", "out.h5");
     m_general.tracking = m_reader->GetBoolean("General", "tracking", false);
@@ -208,7 +229,7 @@ void FileParser::ReadParticles()
              != m_sections.end())
         {
             ParticleParameters source;
-            source.Number   = m_reader->GetInteger(partField, "number_particles", 1);
+            source.Number   = ReadCount(partField, "number_particles", 0);
             source.Name     = m_reader->GetString(partField, "name", partField);
             source.Type     = m_reader->GetString(partField, "particle_type", "Electron");
             source.Distro   = m_reader->GetString(partField, "energy_distribution", "mono");
@@ -267,7 +288,7 @@ void FileParser::ReadHistograms()
             histogram.Particle = m_reader->GetString(histField, "particle", "");
             histogram.Type = m_reader->GetString(histField, "type", "");
             histogram.Time = m_reader->GetReal(histField, "time", 0) / m_units->RefTime();
-            histogram.Bins = m_reader->GetInteger(histField, "bins", 1);
+            histogram.Bins = ReadCount(histField, "bins", 1);
             histogram.MinBin = m_reader->GetReal(histField, "min_bin", 0);
             histogram.MaxBin = m_reader->GetReal(histField, "max_bin", 1);
             m_histograms.push_back(histogram);
diff --git a/Source/IO/Input/FileParser.hh b/Source/IO/Input/FileParser.hh
index 890e021..4ea034a 100644
--- a/Source/IO/Input/FileParser.hh
+++ b/Source/IO/Input/FileParser.hh
@@ -88,6 +88,9 @@ private:
     // has been set
     void CheckVitals();
 
+    // Reads a number of particles or bins, which must not be negative
+    unsigned int ReadCount(const std::string& section, const std::string& name, long minimum);
+
     void ReadGeneral();
 
     void ReadField();
-- 
2.43.0


From 9ae9ceb47c6eb7f5bcdf8f61cd83fead4ae16137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 23/49] fix: output file creates its groups

---
 Source/IO/Output/HDF5Output.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..b358fd6 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -22,6 +22,7 @@ m_fileName(fileName), m_group(NULL)
 HDF5Output::~HDF5Output()
 {
     delete m_group;
+    delete m_subGroup;
     delete m_file;
 }
 
@@ -30,12 +31,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From c49d56c755181a89873d51686ecf4ce106a22512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 24/49] fix: long tracks are written from the heap, not the
 stack

---
 Source/IO/Output/OutputManager.cpp | 72 +++++++++++++++++-------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..01b3063 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -85,14 +85,19 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             time = m_units->RefTime();
         }
 
-        double posBuff[3*part->GetPosHist().size()];
-        double momBuff[3*part->GetMomHist().size()];
-        double timeBuff[part->GetTimeHist().size()];
-        double gammaBuff[part->GetGammaHist().size()];      
-        for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+        // Copy the histories once, and keep the buffers off the stack as tracks can be long
+        std::vector<ThreeVector> posHist = part->GetPosHist();
+        std::vector<ThreeVector> momHist = part->GetMomHist();
+        std::vector<double> timeHist = part->GetTimeHist();
+        std::vector<double> gammaHist = part->GetGammaHist();
+        std::vector<double> posBuff(3*posHist.size());
+        std::vector<double> momBuff(3*momHist.size());
+        std::vector<double> timeBuff(timeHist.size());
+        std::vector<double> gammaBuff(gammaHist.size());
+        for (unsigned int i = 0; i < posHist.size(); i++)
         {
-            ThreeVector pos = part->GetPosHist()[i];
-            ThreeVector mom = part->GetMomHist()[i];
+            ThreeVector pos = posHist[i];
+            ThreeVector mom = momHist[i];
             posBuff[3*i]   = pos[0] * length;
             posBuff[3*i+1] = pos[1] * length;
             posBuff[3*i+2] = pos[2] * length;
@@ -100,20 +105,20 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             momBuff[3*i+1] = mom[1] * momentum;
             momBuff[3*i+2] = mom[2] * momentum;
         }
-        for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+        for (unsigned int i = 0; i < timeHist.size(); i++)
         {
-            timeBuff[i] = part->GetTimeHist()[i] * time;
+            timeBuff[i] = timeHist[i] * time;
         }
-        for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+        for (unsigned int i = 0; i < gammaHist.size(); i++)
         {
-            gammaBuff[i] = part->GetGammaHist()[i];
+            gammaBuff[i] = gammaHist[i];
         }
         std::string groupName = "Particles/Single/" + name;
         m_outputFile->AddGroup(groupName);
-        m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-        m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-        m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-        m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+        m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+        m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+        m_outputFile->AddArray1D(timeBuff.data(), timeHist.size(), groupName + "/Time");
+        m_outputFile->AddArray1D(gammaBuff.data(), gammaHist.size(), groupName + "/Gamma");
     }
 }
 
@@ -149,38 +154,43 @@ void OutputManager::ListTracks(ParticleList* partList, std::string name)
                 time = m_units->RefTime();
             }
 
-            double posBuff[3*part->GetPosHist().size()];
-            double momBuff[3*part->GetMomHist().size()];
-            double timeBuff[part->GetTimeHist().size()];
-            double gammaBuff[part->GetGammaHist().size()];      
-            for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+            // Copy the histories once, and keep the buffers off the stack as tracks can be long
+            std::vector<ThreeVector> posHist = part->GetPosHist();
+            std::vector<ThreeVector> momHist = part->GetMomHist();
+            std::vector<double> timeHist = part->GetTimeHist();
+            std::vector<double> gammaHist = part->GetGammaHist();
+            std::vector<double> posBuff(3*posHist.size());
+            std::vector<double> momBuff(3*momHist.size());
+            std::vector<double> timeBuff(timeHist.size());
+            std::vector<double> gammaBuff(gammaHist.size());
+            for (unsigned int i = 0; i < posHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    posBuff[3*i+j] = part->GetPosHist()[i][j] * length;
+                    posBuff[3*i+j] = posHist[i][j] * length;
                 }
             }
-            for (unsigned int i = 0; i < part->GetMomHist().size(); i++)
+            for (unsigned int i = 0; i < momHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    momBuff[3*i+j] = part->GetMomHist()[i][j] * momentum;
+                    momBuff[3*i+j] = momHist[i][j] * momentum;
                 }
             }
-            for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+            for (unsigned int i = 0; i < timeHist.size(); i++)
             {
-                timeBuff[i] = part->GetTimeHist()[i] * time;
+                timeBuff[i] = timeHist[i] * time;
             }
-            for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+            for (unsigned int i = 0; i < gammaHist.size(); i++)
             {
-                gammaBuff[i] = part->GetGammaHist()[i];
+                gammaBuff[i] = gammaHist[i];
             }
             std::string groupName = "Particles/ParticleList/" + name + "/" + std::to_string(i);
             m_outputFile->AddGroup(groupName);
-            m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-            m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-            m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-            m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+            m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+            m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+            m_outputFile->AddArray1D(timeBuff.data(), timeHist.size(), groupName + "/Time");
+            m_outputFile->AddArray1D(gammaBuff.data(), gammaHist.size(), groupName + "/Gamma");
         }
     }
 }
-- 
2.43.0


From 8dc05b99dfb15b0255bfa14946e9c6b5c1f8af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 25/49] fix: event tracks keep gamma unscaled and can follow
 particle lists

---
 Source/IO/Output/OutputManager.cpp | 6 +++---
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 01b3063..ba7c671 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -441,10 +441,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
@@ -491,7 +491,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From 3d40c29e3a6ea3ffd559264c95fda92241a18f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 26/49] fix: event tables leave out photons that have been
 converted to a pair

---
 Source/IO/Output/OutputManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index ba7c671..f1a06f7 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -249,6 +249,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -261,6 +262,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
-- 
2.43.0


From 8b1ccd7b923ba42b2850b6c97a7ef90798994a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 27/49] fix: output manager frees its event and property
 buffers

---
 Source/IO/Output/OutputManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index f1a06f7..3a012be 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -215,10 +215,18 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
         dataBuff[i*5+4] = partList->GetParticle(i)->GetPosition()[2];
     }
     m_outputFile->AddArray2D(dataBuff, partList->GetNPart(), 5, groupName + "/" + setName);
+    delete [] dataBuff;
 }
 
 void OutputManager::InitSource(unsigned int nEvents)
 {
+    for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
+    {
+        delete [] m_primaryEvent[i];
+        delete [] m_electronEvent[i];
+        delete [] m_positronEvent[i];
+        delete [] m_photonEvent[i];
+    }
     m_primaryEvent  = std::vector<double*>(nEvents);
     m_electronEvent = std::vector<double*>(nEvents);
     m_positronEvent = std::vector<double*>(nEvents);
-- 
2.43.0


From 14478e3f9c407fe6e0de1348f026296de41a358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 28/49] fix: QEDCASC refuses command line arguments of fewer
 than four characters

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..f7d8d5c 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From a7ed6e6f7177cb4dface0e2f62c6b94306605b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 29/49] fix: missing QED_TABLES_PATH stops with its error
 message

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 Source/Physics/Processes/PhotonEmission.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index f8bc225..1cfdecf 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -88,6 +88,7 @@ void NonLinearBreitWheeler::LoadTables()
         std::cout << "Error: Enviromental variable \"QED_TABLES_PATH\" "; 
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory." << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..f3c9dfe 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -56,6 +56,7 @@ void PhotonEmission::LoadTables()
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory."
                   << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
-- 
2.43.0


From e08031affe8440b13b5a86dedebcb816f270493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 30/49] fix: event tables and tracks of several sources are
 written together

---
 Source/Exec/QEDCASC.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f7d8d5c..a83f6d1 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -186,12 +186,23 @@ int main(int argc, char* argv[])
     std::cout << " threads.\n";
     double startTime = omp_get_wtime();
 #endif
+    // set up the full event store, shared by all sources that are output
+    bool outputSource(false);
+    unsigned int nOutput(0);
+    for (unsigned int i = 0; i < inParticles.size(); i++)
+    {
+        if (inParticles[i].Output == true)
+        {
+            outputSource = true;
+            nOutput += generators[i]->GetSourceNumber();
+        }
+    }
+    if (outputSource == true) out->InitSource(nOutput);
+    unsigned int firstEvent(0); // index of the first output event of the source
+
     // enter main loop
     for (unsigned int i = 0; i < generators.size(); i++) // Loop sources
     {
-        // set up the full event store
-        if (inParticles[i].Output == true) out->InitSource(generators[i]->GetSourceNumber());
-
 #ifdef USEOPENMP
         int threadEvents = generators[i]->GetSourceNumber();
         #pragma omp parallel for
@@ -202,7 +213,7 @@ int main(int argc, char* argv[])
             ParticleList* event = generators[i]->GenerateList();
 
             // Store full event info
-            if (inParticles[i].Output == true) out->StoreSource(event, j, true);
+            if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);
 
             unsigned int histCount(0);
             double time(0);
@@ -250,7 +261,7 @@ int main(int argc, char* argv[])
             }
 
             // Store source data and tracking
-            if (inParticles[i].Output == true) out->StoreSource(event, j, false);
+            if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, false);
             if (inGeneral.tracking == true) out->StoreTrack(event, j);
 
             // Free up the sapce
@@ -267,12 +278,13 @@ int main(int argc, char* argv[])
             }
 #endif
         }
+        if (inParticles[i].Output == true) firstEvent += generators[i]->GetSourceNumber();
+    }
 #ifdef USEMPI
-        out->OutputEventsMPI(inParticles[i].Output, inGeneral.tracking);
+    out->OutputEventsMPI(outputSource, inGeneral.tracking);
 #else
-        out->OutputEvents(inParticles[i].Output, inGeneral.tracking);
+    out->OutputEvents(outputSource, inGeneral.tracking);
 #endif
-    }
 
 #ifdef USEOPENMP
     std::cout << "Simulation complete in time: "; 
-- 
2.43.0


From e6eeba2030c58cd9c7c74ff8bb7c6abc38d993dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 31/49] fix: particles are not pushed in the step that creates
 them

---
 Source/Exec/QEDCASC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index a83f6d1..e7ed13d 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -236,8 +236,10 @@ int main(int argc, char* argv[])
                         histCount++;
                     }
                 }
-                // Push particles and interact
-                for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
+                // Push particles and interact. Particles created during this 
+                // step start to move in the next one.
+                unsigned int nPart = event->GetNPart();
+                for (unsigned int k = 0; k < nPart; k++) // Loop particles
                 {
                     pusher->PushParticle(event->GetParticle(k));
                     for (unsigned int proc = 0; proc < processList.size(); proc++) // loop processes
-- 
2.43.0


From 86ba3b8e3b5d4d5af9731fb0325aa0f7787b547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 32/49] fix: histograms are filled at their own time, whatever
 their order and number

---
 Source/Exec/QEDCASC.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index e7ed13d..98ecf18 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -215,25 +215,24 @@ int main(int argc, char* argv[])
             // Store full event info
             if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);
 
-            unsigned int histCount(0);
+            std::vector<bool> histFilled(histograms.size(), false);
             double time(0);
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                for (unsigned int h = 0; h < histograms.size(); h++)
                 {
-                 //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
-                    if(time >= histograms[histCount]->GetTime())
+                    if(!histFilled[h] && time >= histograms[h]->GetTime())
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (histograms[h]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
-                                histograms[histCount]->AppParticle(event->GetParticle(k));
+                                histograms[h]->AppParticle(event->GetParticle(k));
                             }
                         }
-                        histCount++;
+                        histFilled[h] = true;
                     }
                 }
                 // Push particles and interact. Particles created during this 
@@ -250,8 +249,9 @@ int main(int argc, char* argv[])
                 time += inGeneral.timeStep;
             }
             // fill any non filled histograms
-            for (unsigned int k = histCount; k < histograms.size(); k++)
+            for (unsigned int k = 0; k < histograms.size(); k++)
             {
+                if (histFilled[k]) continue;
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
                     if (histograms[k]->GetParticle() == 
-- 
2.43.0


From bf1062c36ca2239398c76775449505c53aca3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 33/49] fix: histograms leave out photons that have been
 converted to a pair

---
 Source/Exec/QEDCASC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 98ecf18..6dcda1d 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -226,7 +226,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[h]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[h]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
                                 histograms[h]->AppParticle(event->GetParticle(k));
@@ -254,7 +255,8 @@ int main(int argc, char* argv[])
                 if (histFilled[k]) continue;
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
                         histograms[k]->AppParticle(event->GetParticle(l));
-- 
2.43.0


From 45ad18fc5588065a91d155a565499eeb064f02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 34/49] fix: pairs are tracked when tracking is on

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 6dcda1d..c211205 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -144,7 +144,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From 28200eb78ee6796b0a5e372dee7e90bbdbc1b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 35/49] fix: threads fill histograms and store tracks one at a
 time

---
 Source/Exec/QEDCASC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index c211205..dc50f3a 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -230,6 +230,9 @@ int main(int argc, char* argv[])
                                 histograms[h]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
+#ifdef USEOPENMP
+                                #pragma omp critical (histogram)
+#endif
                                 histograms[h]->AppParticle(event->GetParticle(k));
                             }
                         }
@@ -259,6 +262,9 @@ int main(int argc, char* argv[])
                         histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical (histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
@@ -266,7 +272,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical (track)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0


From 8a8abe02f447f8d8d0902249c7f737442d26af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 36/49] fix: QEDCASC frees its processes and sources

---
 Source/Exec/QEDCASC.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index dc50f3a..13d8370 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -319,6 +319,8 @@ int main(int argc, char* argv[])
         delete histograms[i];
     }
 
+    for (unsigned int i = 0; i < processList.size(); i++) delete processList[i];
+    for (unsigned int i = 0; i < generators.size(); i++) delete generators[i];
     delete field;
     delete pusher;
     delete out;
-- 
2.43.0


From 646fe7dfc2a74d78343f0aef5b182399210f7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 37/49] fix: sources of an unknown particle type are refused
 before anything is simulated

---
 Source/Particles/SourceGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index d3415a8..37fefff 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -13,6 +13,13 @@ SourceGenerator::SourceGenerator(std::string type, std::string distro,
                                  bool track):
 m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
 {
+    if (type != "Photon" && type != "photon" && type != "Electron" && type != "electron"
+        && type != "Positron" && type != "positron")
+    {
+        std::cerr << "Error: Unkown particle type: " << type << "\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_direction = direction.Norm();
     m_position  = position;
     m_xPos = MCTools::SampleNorm(0, deltaPos, nPart);
-- 
2.43.0


From 907518e73aec4897f574b8837bc8023462bd3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 38/49] fix: RunManager accepts the physics model "classical"

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..6e67db3 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From 95b42c84e40a4f47b740bdb493e1e678e7516b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 39/49] fix: RunManager frees the objects of the previous run
 exactly once

---
 Source/Python/RunManager.cpp | 20 +++++++++++++-------
 Source/Python/RunManager.hh  |  3 +++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 6e67db3..aac6ed1 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -26,10 +26,19 @@ m_sampleFrac(1), m_useBW(false)
 RunManager::~RunManager()
 {
     delete m_units;
-    delete m_field;
-    delete m_generator;
-    delete m_pusher;
+    ClearRun();
+}
+
+void RunManager::ClearRun()
+{
+    for (auto process : m_processList) delete process;
     m_processList.clear();
+    delete m_pusher;
+    m_pusher = nullptr;
+    delete m_generator;
+    m_generator = nullptr;
+    delete m_field;
+    m_field = nullptr;
 }
 
 void RunManager::setTime(double timeStep, double timeEnd)
@@ -129,10 +138,7 @@ void RunManager::beamOn(int events, int threads)
     }
 #endif
 
-    delete m_pusher;
-    delete m_generator;
-    delete m_field;
-    m_processList.clear();
+    ClearRun();
 
     // Check for time / field properties
     if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
diff --git a/Source/Python/RunManager.hh b/Source/Python/RunManager.hh
index d7ac645..9bef327 100644
--- a/Source/Python/RunManager.hh
+++ b/Source/Python/RunManager.hh
@@ -59,6 +59,9 @@ public:
 
 private:
 
+    // Frees the objects of the previous run
+    void ClearRun();
+
     UnitsSystem* m_units;
     EMField* m_field;
     ParticlePusher* m_pusher;
-- 
2.43.0


From 62bb8ecd22ea0af38cfb4a2b39f5aac0ccbd7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 40/49] fix: beamOn refuses a negative number of events and
 less than one thread

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index aac6ed1..954bfbd 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -127,6 +127,13 @@ void RunManager::usePairProduction(bool useBW)
 void RunManager::beamOn(int events, int threads)
 {
 
+    if (events < 0 || threads < 1)
+    {
+        std::cerr << "Error in beamOn(): events can't be negative and threads"
+                     " must be at least 1." << std::endl;
+        return;
+    }
+
     // If threads set then check for openMP install
 #ifndef USEOPENMP
     if (threads != 1)
-- 
2.43.0


From 60647553a587442a9a36ceec1b5324258f6ba488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 41/49] fix: beamOn refuses times with which the run would
 never end

---
 Source/Python/RunManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 954bfbd..7b6ed80 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -9,6 +9,7 @@
 #include "LandauPusher.hh"
 #include "ModifiedLandauPusher.hh"
 #include <pybind11/stl.h>
+#include <cmath>
 
 #ifdef USEOPENMP
     #include <omp.h>
@@ -148,7 +149,7 @@ void RunManager::beamOn(int events, int threads)
     ClearRun();
 
     // Check for time / field properties
-    if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
+    if (!(m_timeStep > 0) || !std::isfinite(m_timeEnd) || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From 14a20cc5a95806d1c1baf30f0688cee377e1606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 42/49] fix: RunManager refuses unknown particle types instead
 of ending the interpreter

---
 Source/Python/RunManager.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 7b6ed80..8e31a2d 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -95,8 +95,19 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
-    m_genSet = true;
-    m_particleType = particleType;
+    if (particleType == "Photon" || particleType == "photon" ||
+        particleType == "Electron" || particleType == "electron" ||
+        particleType == "Positron" || particleType == "positron")
+    {
+        m_genSet = true;
+        m_particleType = particleType;
+    } else
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type. Choices are: \"Electron\", "
+         "\"Positron\" or \"Photon\";" << std::endl;
+        return;
+    }
     m_energyDist = energyDist;
     m_energyParam1 = energyParam1 / m_units->RefEnergy(); 
     m_energyParam2 = energyParam2 / m_units->RefEnergy();
-- 
2.43.0


From 2fa14d0d82d24c1b3bf3d56f52d7efb5ed24ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 43/49] fix: RunManager does not push particles in the step
 that creates them

---
 Source/Python/RunManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8e31a2d..36cd104 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -252,8 +252,10 @@ void RunManager::beamOn(int events, int threads)
         double time(0);
         while(time < m_timeEnd) //loop time
         {
-            // Push particles and interact
-            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
+            // Push particles and interact. Particles created during this 
+            // step start to move in the next one.
+            unsigned int nPart = event->GetNPart();
+            for (unsigned int j = 0; j < nPart; j++) // Loop particles
             {
                 m_pusher->PushParticle(event->GetParticle(j));
                 for (unsigned int proc = 0; proc < m_processList.size(); proc++) // loop processes
-- 
2.43.0


From de2c23ff8f167b95093ad4af0b690f96c193c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 44/49] fix: RunManager results leave out photons that have
 been converted to a pair

---
 Source/Python/RunManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 36cd104..b763f3a 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -269,6 +269,7 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From 9f1cb7dca3079ebf86745521524a0034798c735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 45/49] fix: draw normal numbers of zero width without
 undefined behaviour

---
 Source/Tools/MCTools.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e5a1427..7f23d9c 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -41,8 +41,9 @@ double MCTools::RandDouble(double low, double high)
 
 double MCTools::RandNorm(double mean, double sig)
 {
-    std::normal_distribution<double> dist(mean, sig);
-    return dist(Generator());
+    // the width may be zero, which a normal_distribution must not be given
+    std::normal_distribution<double> dist(0, 1);
+    return mean + sig * dist(Generator());
 }
 
 unsigned int MCTools::RandPoisson(double mean)
@@ -121,12 +122,13 @@ Eigen::VectorXd MCTools::RandSinhArcsinhNd(const Eigen::VectorXd& mean,
 std::vector<double> MCTools::SampleNorm(double mean, double sig, unsigned int nSamples)
 {
 
-    std::normal_distribution<double> normDist(mean, sig); 
+    // the width may be zero, which a normal_distribution must not be given
+    std::normal_distribution<double> normDist(0, 1);
     std::vector<double> samples(nSamples);
 
     for (unsigned int i = 0; i < nSamples; i++)
     {
-        samples[i] = normDist(Generator());
+        samples[i] = mean + sig * normDist(Generator());
     }
     return samples;
 }
-- 
2.43.0


From 3e7e91793a7c2daf877e927168f1744797c70f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 46/49] fix: draw uniform numbers between reversed limits
 without undefined behaviour

---
 Source/Tools/MCTools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index 7f23d9c..a2fa139 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -136,12 +136,13 @@ std::vector<double> MCTools::SampleNorm(double mean, double sig, unsigned int nS
 std::vector<double> MCTools::SampleUniform(double low, double high, unsigned int nSamples)
 {
 
-    std::uniform_real_distribution<double> dist(low, high); 
+    // the limits may come in any order, which the distribution must not be given
+    std::uniform_real_distribution<double> dist(0, 1);
     std::vector<double> samples(nSamples);
 
     for (unsigned int i = 0; i < nSamples; i++)
     {
-        samples[i] = dist(Generator());
+        samples[i] = low + (high - low) * dist(Generator());
     }
     return samples;
 }
-- 
2.43.0


From c93f28881c697411286248a8cb4bd006298f807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 47/49] fix: only one thread ends the program when the tables
 are exceeded

---
 Source/Tools/Numerics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index cbb553f..2bc879f 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <iostream>
+#include <mutex>
 
 #include "Numerics.hh"
 
@@ -107,6 +108,9 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			- samplePoints[lowIndex]);
 	} else
 	{
+		// only one thread may end the program, any other waits for that
+		static std::mutex ending;
+		ending.lock();
 		std::cerr << "Error: Tables can't handle your extreme simulation."
 			<< std::endl;
 		std::exit(-1);
-- 
2.43.0


From 5e941669bb4b5b86d48363f110540384bb7dafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 48/49] fix: initialising a histogram again releases its old
 arrays

---
 Source/IO/Output/Histogram.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index b6ba94c..3037d47 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -7,7 +7,8 @@ m_nBins(0), m_entries(0), m_binCentres(NULL), m_binValues(NULL)
 }
 
 Histogram::Histogram(std::string name, std::string particle, std::string type, 
-					 double time, double minBin, double maxBin, unsigned int nBins)
+					 double time, double minBin, double maxBin, unsigned int nBins):
+m_nBins(0), m_entries(0), m_binCentres(NULL), m_binValues(NULL)
 {
 	Initialise(name, particle, type, time, minBin, maxBin, nBins);
 }
@@ -27,6 +28,8 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_time = time;
 	m_nBins = nBins;
 	m_entries = 0;
+	delete [] m_binCentres;
+	delete [] m_binValues;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = m_nBins > 1 ? (maxBin - minBin) / (m_nBins - 1.0) : 0;
-- 
2.43.0


From 54890c3f92f6cf8a2eb27a740a99a1f15771b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 49/49] fix: merging two empty histograms no longer
 dereferences null

---
 Source/IO/Output/Histogram.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 3037d47..9ba2cd8 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -224,8 +224,9 @@ void Histogram::Fill(ParticleList* partList)
 void Histogram::Merge(Histogram* hist)
 { 
 	// Check that hisograms are compitble
-	if (m_nBins == hist->m_nBins && m_binCentres[0] == hist->m_binCentres[0] &&
-		m_binCentres[m_nBins-1] == hist->m_binCentres[m_nBins-1])
+	if (m_nBins == hist->m_nBins && (m_nBins == 0 ||
+		(m_binCentres[0] == hist->m_binCentres[0] &&
+		m_binCentres[m_nBins-1] == hist->m_binCentres[m_nBins-1])))
 	{
 		m_entries += hist->m_entries;
 		for (unsigned int i = 0; i < m_nBins; i++)
-- 
2.43.0

