From 0f54a0867b1bed298e63d7e71f8d1d3c85b36a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 01/20] fix: keep the cell/face send buffers alive until the
 sends in TychoMesh complete

---
 src/TychoMeshIO.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..11360a8 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,9 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // The send buffer must not change until all the sends are complete.
     vector<MPI_Request> mpiRequests;
+    vector<UINT> cellFacesToSend(2 * c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,7 +306,7 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
+            UINT *cellFace = &cellFacesToSend[2 * c_side(cell, face)];
             cellFace[0] = cell;
             cellFace[1] = face;
             MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-- 
2.43.0


From 21b14e377dbf27d128ac99eb5da58db0c4ec4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 02/20] fix: store the adjacent cell and face of a side under
 the side they belong to

---
 src/TychoMeshIO.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 11360a8..8bb051b 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -297,8 +297,10 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     // c_adjCellFromSide, c_adjFaceFromSide
     // The send buffer must not change until all the sends are complete.
+    // The global side goes with the cell and face because the two ranks do not
+    // go through their common sides in the same order.
     vector<MPI_Request> mpiRequests;
-    vector<UINT> cellFacesToSend(2 * c_nSides);
+    vector<UINT> cellFacesToSend(3 * c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -306,10 +308,11 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT *cellFace = &cellFacesToSend[2 * c_side(cell, face)];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT *sideCellFace = &cellFacesToSend[3 * c_side(cell, face)];
+            sideCellFace[0] = c_lGSides(c_side(cell, face));
+            sideCellFace[1] = cell;
+            sideCellFace[2] = face;
+            MPI_Isend(sideCellFace, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                       MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
@@ -323,11 +326,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT sideCellFace[3];
+            MPI_Recv(sideCellFace, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT adjSide = getGLSide(sideCellFace[0]);
+            c_adjCellFromSide(adjSide) = sideCellFace[1];
+            c_adjFaceFromSide(adjSide) = sideCellFace[2];
         }
     }}
     
-- 
2.43.0


From 51fce490a696878909cbd224159af0da79ab7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 03/20] fix: getAdjFace returns the adjacent face

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 17390be0a334adec0ebc557cef357fe2c3e7d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 04/20] fix: keep the send buffers of a sweep alive until the
 sends complete

---
 src/Sweeper.cc | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..a64bb26 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -50,6 +50,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cmath>
 #include <iostream>
 #include <algorithm>
+#include <list>
 #include <omp.h>
 #include <mpi.h>
 
@@ -109,11 +110,14 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
     send
     
     Send side data.
+    The data being sent is moved to uintBuffers and doubleBuffers, which must 
+    stay unchanged until the mpiRequests are complete.
 */
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          vector<MPI_Request> &mpiRequests,
+          list<vector<UINT>> &uintBuffers, list<vector<double>> &doubleBuffers)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,7 +125,8 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
+            uintBuffers.push_back({nSides, nData});
+            const vector<UINT> &nSidesData = uintBuffers.back();
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
@@ -129,16 +134,18 @@ void send(const UINT step, const UINT angleGroup,
             Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
             mpiRequests.push_back(mpiRequest);
             if (nSides > 0) {
-                Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
-                                     tag1, mpiRequest);
+                uintBuffers.push_back(vector<UINT>());
+                uintBuffers.back().swap(commSidesAngles(angleGroup, proc));
+                doubleBuffers.push_back(vector<double>());
+                doubleBuffers.back().swap(commPsi(angleGroup, proc));
+                
+                Comm::iSendUIntVector(uintBuffers.back(), proc, tag1, 
+                                      mpiRequest);
                 mpiRequests.push_back(mpiRequest);
-                Comm::iSendDoubleVector(commPsi(angleGroup, proc), proc, 
-                                        tag2, mpiRequest);
+                Comm::iSendDoubleVector(doubleBuffers.back(), proc, tag2, 
+                                        mpiRequest);
                 mpiRequests.push_back(mpiRequest);
             }
-            
-            commSidesAngles(angleGroup, proc).clear();
-            commPsi(angleGroup, proc).clear();
         }
     }
 }
@@ -421,9 +428,12 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             // Communication (Non blocking send followed by blocking recv)
             vector<MPI_Request> mpiRequests;
+            list<vector<UINT>> uintBuffers;
+            list<vector<double>> doubleBuffers;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     uintBuffers, doubleBuffers);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -472,7 +482,10 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                list<vector<UINT>> uintBuffers;
+                list<vector<double>> doubleBuffers;
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     uintBuffers, doubleBuffers);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
-- 
2.43.0


From 295ce1068fa91e47af8fcacae3a178cdca4d48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 05/20] fix: do not send blocking before receiving in
 SweepSchedule

---
 src/SweepSchedule.cc | 77 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..2e35aee 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -51,10 +51,12 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <iostream>
 #include <set>
 #include <queue>
+#include <list>
 
 
 using namespace std;
 const static double TOL = 1.e-10;
+const static int COMM_TAG = 1;
 
 
 /*
@@ -84,6 +86,47 @@ public:
 };
 
 
+/*
+    SendRequests
+
+    Nonblocking sends to the neighbor procs and the data being sent.
+    Blocking sends can't be used since neighbors send to each other before 
+    they receive.
+*/
+struct SendRequests
+{
+    list<vector<UINT>> buffers;
+    vector<MPI_Request> requests;
+
+    void send(const UINT proc, const vector<UINT> &buffer)
+    {
+        MPI_Request request;
+        buffers.push_back(buffer);
+        Comm::iSendUIntVector(buffers.back(), proc, COMM_TAG, request);
+        requests.push_back(request);
+    }
+
+    void wait()
+    {
+        int result = MPI_Waitall(requests.size(), requests.data(), 
+                                 MPI_STATUSES_IGNORE);
+        Insist(result == MPI_SUCCESS, "SendRequests::wait MPI error.");
+    }
+};
+
+
+/*
+    recvNumSides
+*/
+static
+UINT recvNumSides(const UINT proc)
+{
+    vector<UINT> nSides(1);
+    Comm::recvUIntVector(nSides, proc, COMM_TAG);
+    return nSides[0];
+}
+
+
 /*
     calcNeighborProcs
 */
@@ -268,7 +311,8 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                SendRequests &sendRequests)
 {
     vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
     
@@ -293,9 +337,9 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
     
     for(UINT proc : neighborProcs) {
         UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
+        sendRequests.send(proc, vector<UINT>(1, nSides));
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
+            sendRequests.send(proc, commSidesAnglesLevels[proc]);
         }
     }
 }
@@ -312,11 +356,10 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
                    const set<UINT> &neighborProcs)
 {
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        UINT nSides = recvNumSides(proc);
         if (nSides > 0) {
             vector<UINT> commSidesAnglesLevels(3*nSides);
-            Comm::recvUIntVector(commSidesAnglesLevels, proc);
+            Comm::recvUIntVector(commSidesAnglesLevels, proc, COMM_TAG);
 
             for (UINT child = 0; child < nSides; ++child) {
                 const UINT globalSide = commSidesAnglesLevels[child * 3];
@@ -346,7 +389,8 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                SendRequests &sendRequests)
 {
     vector<vector<UINT> > commSidesAngles(Comm::numRanks());
     
@@ -370,9 +414,9 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
         UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
+        sendRequests.send(proc, vector<UINT>(1, nSides));
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+            sendRequests.send(proc, commSidesAngles[proc]);
             stepSendProcs.push_back(proc);
         }
     }
@@ -393,11 +437,10 @@ void recvOrders(priority_queue<PriorityWork> &availableWork,
     vector<UINT> stepRecvProcs;
     
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        UINT nSides = recvNumSides(proc);
         if (nSides > 0) {
             vector<UINT> commSidesAngles(2*nSides);
-            Comm::recvUIntVector(commSidesAngles, proc);
+            Comm::recvUIntVector(commSidesAngles, proc, COMM_TAG);
             stepRecvProcs.push_back(proc);
             
             for (UINT parent = 0; parent < nSides; ++parent) {
@@ -446,9 +489,12 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        SendRequests sendRequests;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, 
+                   sendRequests);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        sendRequests.wait();
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +539,12 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        SendRequests sendRequests;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   sendRequests);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        sendRequests.wait();
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From 80a89b1d18c2375a17cd8c536b5131607e50a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 06/20] fix: ask MPI for the thread level OriginalTycho2 needs

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..4551dcf 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -194,7 +194,8 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // SweepType_OriginalTycho2 does MPI calls from all threads, one at a time
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From e56dc618a9e0536a896137e7453171dff8cecfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 07/20] fix: receive while waiting for sends in
 CapsaicinTwoSided

---
 src/GraphTraverser.cc | 14 +++++++++-----
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..ffb0cbf 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,9 +180,11 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    Receives data while it waits for the sends since the adjacent ranks may do 
+    the same and sends may need the matching receives to complete.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers, vector<char> &dataPackets) const
 {
     vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
@@ -209,9 +211,11 @@ void GraphTraverser::sendData2Sided(
     
     
     // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
+    int sendsDone = (mpiSendRequests.size() == 0);
+    while (!sendsDone) {
+        recvData2Sided(dataPackets);
+        mpiError = MPI_Testall(mpiSendRequests.size(), mpiSendRequests.data(), 
+                               &sendsDone, MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
     }
 }
@@ -669,7 +673,7 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, dataPackets);
                 sendTimer.stop();
 
                 recvTimer.start();
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..7c42afe 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<char> &dataPackets) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From ff5bd2cc947103bdbf7fffc5275dd1adb11abbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 08/20] fix: do not read the status of a probe which found no
 message

---
 src/GraphTraverser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index ffb0cbf..6f44abe 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -242,12 +242,13 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
         // Probe for new message
         mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);
         Insist(mpiError == MPI_SUCCESS, "");
-        mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
-        Insist(mpiError == MPI_SUCCESS, "");
 
 
         // Recv message if there is one
         if (flag) {
+            mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
+            Insist(mpiError == MPI_SUCCESS, "");
+            
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
-- 
2.43.0


From 948589e19a52b606258348a54e60a79afa7bc9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 09/20] fix: refuse a parallel mesh file which is too short

---
 src/Comm.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..a7d21d5 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -47,6 +47,24 @@ static const int INT_TAG = 1;
 static const int DOUBLE_TAG = 2;
 
 
+/*
+    allTransferred
+
+    Returns true if a read or write transferred all of the elements.
+    Reading past the end of a file or writing to a full disk is not an MPI 
+    error but transfers fewer elements.
+*/
+static
+bool allTransferred(const MPI_Status &status, MPI_Datatype type, 
+                    uint64_t numElements)
+{
+    int count = 0;
+    int result = MPI_Get_count(const_cast<MPI_Status*>(&status), type, &count);
+    return result == MPI_SUCCESS && count >= 0 && 
+           (uint64_t)count == numElements;
+}
+
+
 namespace Comm
 {
 
@@ -370,9 +388,12 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    Insist(allTransferred(status, MPI_BYTE, sizeof(uint64_t)), 
+           "Comm::readSizeT file too short.\n");
 }
 
 
@@ -383,9 +404,12 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    Insist(allTransferred(status, MPI_BYTE, sizeof(uint64_t) * numData), 
+           "Comm::readSizeT[] file too short.\n");
 }
 
 
@@ -396,9 +420,12 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
+    MPI_Status status;
     int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
+                               &status);
     Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    Insist(allTransferred(status, MPI_BYTE, sizeof(char) * numData), 
+           "Comm::readChars file too short.\n");
 }
 
 
-- 
2.43.0


From 0e11b74272f09daeca00ee6a24b3e7cf0ed97929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 10/20] fix: fail if the output is not written completely

---
 src/Comm.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index a7d21d5..62f5c77 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -437,9 +437,12 @@ void readChars(const MPI_File &file, char *data, int numData)
 void writeDoublesAt(const MPI_File &file, UINT offset, double *data, 
                     UINT numData)
 {
+    MPI_Status status;
     int result = MPI_File_write_at(file, offset * 8, data, numData, MPI_DOUBLE, 
-                                   MPI_STATUS_IGNORE);
+                                   &status);
     Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error.\n");
+    Insist(allTransferred(status, MPI_DOUBLE, numData), 
+           "Comm::writeDoublesAt not all data written.\n");
 }
 
 
-- 
2.43.0


From edc78feddc3ffea63baa6deb63e2004cb6d19aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 11/20] fix: fail if a mesh file is not written completely

---
 src/ParallelMesh.cc | 4 +++-
 src/SerialMesh.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index aac98f2..89db4f4 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -260,7 +260,9 @@ void ParallelMesh::write(const std::string &filename)
     
     
     // Close file
-    fclose(file);
+    // (buffered data is only written here so this may be where writing fails)
+    int closeResult = fclose(file);
+    assert(closeResult == 0);
 }
 
 
diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index aa5ad9a..21875f3 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -197,7 +197,9 @@ void SerialMesh::write(const std::string &filename)
 
     
     // Close file
-    fclose(file);
+    // (buffered data is only written here so this may be where writing fails)
+    int closeResult = fclose(file);
+    assert(closeResult == 0);
 }
 
 
-- 
2.43.0


From 3d73c8531397724ad1e731c42028113db36a3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 12/20] fix: refine meshes with less than 1000 cells

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 13593e5a4a0695b5697def2946a4ea18333d8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 13/20] fix: faces parallel to an angle are neither incoming
 nor outgoing

---
 src/CommSides.cc      |  2 +-
 src/GraphTraverser.cc |  3 ++-
 src/TychoMesh.cc      | 10 ++++++++++
 src/TychoMesh.hh      |  2 +-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 6f44abe..c53469f 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -602,7 +602,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.cc b/src/TychoMesh.cc
index dc206c4..75dc58e 100644
--- a/src/TychoMesh.cc
+++ b/src/TychoMesh.cc
@@ -46,6 +46,10 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 using namespace std;
 
 
+// Omega dot N is 0 up to rounding if less than this
+const static double PARALLEL_TOL = 1.e-10;
+
+
 /*
     Returns c = a x b
 */
@@ -219,6 +223,12 @@ TychoMesh::TychoMesh(const std::string &filename)
             c_omegaDotN(angle, cell, face) = omega[0] * normal[0] + 
                                              omega[1] * normal[1] + 
                                              omega[2] * normal[2];
+            
+            // Nothing flows through a face parallel to omega.
+            // Rounding must not make it incoming or outgoing since the result 
+            // may not fit the result for the same face of the adjacent cell.
+            if (fabs(c_omegaDotN(angle, cell, face)) < PARALLEL_TOL)
+                c_omegaDotN(angle, cell, face) = 0.0;
         }}
     }
     
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From 20b8d30e018dff0339b55a2c12a137a026708b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 14/20] fix: sweep schedules for more threads than angles

---
 src/SweepSchedule.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 2e35aee..a74de2d 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -547,8 +547,9 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         sendRequests.wait();
     }
     
-    UINT nlevels = cellLevels[0];
-    for(unsigned i = 1; i < cellLevels.size(); i++) {
+    // (there are no levels if there are more threads than angles)
+    UINT nlevels = 0;
+    for(unsigned i = 0; i < cellLevels.size(); i++) {
         nlevels = std::max(nlevels, cellLevels[i]);
     }
     Comm::gmax(nlevels);
-- 
2.43.0


From 8c36512cf82a2f647dd1ac97ce19d23a4ff55c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 15/20] fix: refuse numbers in the input deck which are
 followed by other characters

---
 src/KeyValueReader.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..93f3ca4 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -410,7 +410,11 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t length = 0;
+        int converted = stoi(valueString, &length);
+        if (length != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to int");
@@ -438,7 +442,11 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t length = 0;
+        double converted = stod(valueString, &length);
+        if (length != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to double");
@@ -466,7 +474,11 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t length = 0;
+        float converted = stof(valueString, &length);
+        if (length != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to float");
-- 
2.43.0


From 7fcfc168b97962a9a9c9ae35f5f47b2e09a8f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 16/20] fix: refuse an unknown GaussElim in the input deck

---
 src/Main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 4551dcf..9e69e05 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,6 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
+    else
+        Insist(false, "Gauss elimination method not recognized.");
 
 }
 
-- 
2.43.0


From 47fa2c6fb705a86d1fdcd86bbb6d153c1aa82372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 17/20] fix: difference between groups was not a number when a
 rank has no flux

The difference was divided by the largest entry of the rank before the
maximum over ranks was taken.  With few iterations of parallel block Jacobi
a rank away from the source has no flux at all, so it divided 0 by 0 and the
result was NaN or not depending on the partition.
---
 src/Util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..9bca246 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -73,8 +73,11 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
+    // Relative to the largest entry of all ranks, as a rank may have no flux
     Comm::gmax(maxDiff);
+    Comm::gmax(maxEntry);
+    if (maxEntry > 0.0)
+        maxDiff = maxDiff / maxEntry;
     return maxDiff;
 }
 
-- 
2.43.0


From e84543ce03719c79e59a07215c0cda8e9c2ed4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 18/20] fix: refuse a parallel mesh with indices or sizes out
 of range

readInParallel took the cell, face, node and process numbers of the file
as they were and read outside the arrays they index.
---
 src/ParallelMesh.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index 89db4f4..9aede88 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -585,6 +585,7 @@ void ParallelMesh::readInParallel(const std::string &filename,
 {
     MPI_File file;
     uint64_t offset = 0;
+    uint64_t partSize = 0;
     vector<uint64_t> bufferUint;
     
     
@@ -612,9 +613,12 @@ void ParallelMesh::readInParallel(const std::string &filename,
     Comm::barrier();
     
     
-    // Read in bytes offset
+    // Read in bytes offset of this partition and of the end of it
+    bufferUint.resize(2);
     Comm::seek(file, 32 * sizeof(char) + (2 + Comm::rank()) * sizeof(uint64_t));
-    Comm::readUint64(file, offset);
+    Comm::readUint64(file, bufferUint.data(), 2);
+    offset = bufferUint[0];
+    partSize = bufferUint[1] - offset;
     Comm::seek(file, offset);
     
     
@@ -624,6 +628,11 @@ void ParallelMesh::readInParallel(const std::string &filename,
     partData.numCells = bufferUint[0];
     partData.numFaces = bufferUint[1];
     partData.numNodes = bufferUint[2];
+    assert(partData.numCells <= partSize / (10 * sizeof(uint64_t)));
+    assert(partData.numFaces <= partSize / (9 * sizeof(uint64_t)));
+    assert(partData.numNodes <= partSize / (4 * sizeof(uint64_t)));
+    assert(partSize == (3 + partData.numCells * 10 + partData.numFaces * 9 + 
+                        partData.numNodes * 4) * sizeof(uint64_t));
     
     
     // Cell Data
@@ -644,6 +653,11 @@ void ParallelMesh::readInParallel(const std::string &filename,
 
         partData.cellData[cell].globalID         = bufferUint[cell * 10 + 8];
         partData.cellData[cell].materialIndex    = bufferUint[cell * 10 + 9];
+        
+        for (int i = 0; i < 4; i++) {
+            assert(partData.cellData[cell].boundingFaces[i] < partData.numFaces);
+            assert(partData.cellData[cell].boundingNodes[i] < partData.numNodes);
+        }
     }
     
     
@@ -667,6 +681,18 @@ void ParallelMesh::readInParallel(const std::string &filename,
 
         partData.faceData[face].boundaryType     = bufferUint[face * 9 + 8];
         assert(partData.faceData[face].boundaryType < NumBoundaryTypes);
+        
+        if (partData.faceData[face].boundaryType == NotBoundary) {
+            assert(partData.faceData[face].boundingCells[0] < partData.numCells);
+            assert(partData.faceData[face].boundingCells[1] < partData.numCells);
+        }
+        if (partData.faceData[face].boundaryType == PartitionBoundary) {
+            assert(partData.faceData[face].partition[0] < (uint64_t)Comm::numRanks());
+            assert(partData.faceData[face].partition[1] < (uint64_t)Comm::numRanks());
+        }
+        for (int i = 0; i < 3; i++) {
+            assert(partData.faceData[face].boundingNodes[i] < partData.numNodes);
+        }
     }
     
     
-- 
2.43.0


From b672e0833cbcc4ae2a85c5500462ff622f2cd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 19/20] fix: refuse a serial mesh with indices out of range

The tools used the cell, face and node numbers of the file as they were:
they read outside their arrays or wrote a mesh from it and succeeded.
---
 src/SerialMesh.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index 21875f3..0694fe6 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -258,6 +258,11 @@ void SerialMesh::read(const std::string &filename)
         c_cellData[cell].boundingNodes[3] = bufferUint[cell * 9 + 7];
 
         c_cellData[cell].materialIndex    = bufferUint[cell * 9 + 8];
+        
+        for (int i = 0; i < 4; i++) {
+            assert(c_cellData[cell].boundingFaces[i] < c_numFaces);
+            assert(c_cellData[cell].boundingNodes[i] < c_numNodes);
+        }
     }
     
     
@@ -274,6 +279,14 @@ void SerialMesh::read(const std::string &filename)
         c_faceData[face].boundingNodes[0] = bufferUint[face * 5 + 2];
         c_faceData[face].boundingNodes[1] = bufferUint[face * 5 + 3];
         c_faceData[face].boundingNodes[2] = bufferUint[face * 5 + 4];
+        
+        for (int i = 0; i < 2; i++) {
+            assert(c_faceData[face].boundingCells[i] < c_numCells || 
+                   c_faceData[face].boundingCells[i] == UINT64_MAX);
+        }
+        for (int i = 0; i < 3; i++) {
+            assert(c_faceData[face].boundingNodes[i] < c_numNodes);
+        }
     }
     
     
-- 
2.43.0


From d272040f03ac4e02925671fddc4040e6e898612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 20/20] fix: fail if PETSc reports an error

The results of the PETSc calls were ignored.  When PETSc ran out of memory in
KSPSolve the run went on without a solution and reported success with a wrong
flux.
---
 src/KrylovSolver.cc | 39 ++++++++++++++++++++++++++-------------
 src/Main.cc         |  3 ++-
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/KrylovSolver.cc b/src/KrylovSolver.cc
index ff17f23..6f471c4 100644
--- a/src/KrylovSolver.cc
+++ b/src/KrylovSolver.cc
@@ -39,6 +39,19 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "KrylovSolver.hh"
 #include "Comm.hh"
+#include "Assert.hh"
+
+
+/*
+    check
+
+    Fails if a PETSc function returns an error (e.g. it is out of memory).
+*/
+static
+void check(PetscErrorCode error)
+{
+    Insist(error == 0, "KrylovSolver: PETSc error.\n");
+}
 
 
 static
@@ -82,23 +95,23 @@ KrylovSolver::KrylovSolver(UINT localVecSize, double rtol, UINT iterMax,
     // Create the vectors
     UINT globalVecSize = localVecSize;
     Comm::gsum(globalVecSize);
-    VecCreate(MPI_COMM_WORLD, &c_x);
-    VecSetSizes(c_x, localVecSize, globalVecSize);
-    VecSetType(c_x, VECMPI);
-    VecDuplicate(c_x, &c_b);
+    check(VecCreate(MPI_COMM_WORLD, &c_x));
+    check(VecSetSizes(c_x, localVecSize, globalVecSize));
+    check(VecSetType(c_x, VECMPI));
+    check(VecDuplicate(c_x, &c_b));
     
 
     // Create matrix shell and define it as the operator
-    MatCreateShell(MPI_COMM_WORLD, localVecSize, localVecSize, 
-                   globalVecSize, globalVecSize, (void*)(NULL), &c_mat);
-    MatShellSetOperation(c_mat, MATOP_MULT, (void(*)(void))lhsPetsc);
+    check(MatCreateShell(MPI_COMM_WORLD, localVecSize, localVecSize, 
+                         globalVecSize, globalVecSize, (void*)(NULL), &c_mat));
+    check(MatShellSetOperation(c_mat, MATOP_MULT, (void(*)(void))lhsPetsc));
     
 
     // Create ksp and set tolerances
-    KSPCreate(MPI_COMM_WORLD, &c_ksp);
-    KSPSetOperators(c_ksp, c_mat, c_mat);
-    KSPSetTolerances(c_ksp, rtol, PETSC_DEFAULT, PETSC_DEFAULT, iterMax);
-    KSPSetType(c_ksp, KSPGMRES);
+    check(KSPCreate(MPI_COMM_WORLD, &c_ksp));
+    check(KSPSetOperators(c_ksp, c_mat, c_mat));
+    check(KSPSetTolerances(c_ksp, rtol, PETSC_DEFAULT, PETSC_DEFAULT, iterMax));
+    check(KSPSetType(c_ksp, KSPGMRES));
 
 
     // Set data
@@ -109,7 +122,7 @@ KrylovSolver::KrylovSolver(UINT localVecSize, double rtol, UINT iterMax,
 void KrylovSolver::setData(void *data)
 {
     c_krylovData.data = data;
-    MatShellSetContext(c_mat, &c_krylovData);
+    check(MatShellSetContext(c_mat, &c_krylovData));
 }
 
 
@@ -165,7 +178,7 @@ double KrylovSolver::getResidualNorm()
 
 void KrylovSolver::solve()
 {
-    KSPSolve(c_ksp, c_b, c_x);
+    check(KSPSolve(c_ksp, c_b, c_x));
 }
 
 
diff --git a/src/Main.cc b/src/Main.cc
index 9e69e05..409598c 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -206,7 +206,8 @@ int main(int argc, char *argv[])
 
     // Startup Petsc
     #if USE_PETSC
-    PetscInitialize(&argc, &argv, (char*)0, NULL);
+    int petscResult = PetscInitialize(&argc, &argv, (char*)0, NULL);
+    Insist(petscResult == 0, "PetscInitialize failed.");
     PetscPopSignalHandler();
     #endif
 
-- 
2.43.0

