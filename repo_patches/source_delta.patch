From a9efcd264d7f18102b600e6129e167b387a3dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 01/34] fix: stamp data received for a truncated last time
 window at its real end

Serial coupling schemes that do not exchange substeps stamped the data of
the second participant at the end of the untruncated time window when
max-time cuts the last window short.
---
 src/cplscheme/BaseCouplingScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..083f007 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -209,7 +209,8 @@ void BaseCouplingScheme::receiveDataForWindowEnd(const m2n::PtrM2N &m2n, const D
   // buffer current time
   const impl::TimeHandler oldTime = _time;
   // set _time state to point to end of this window such that _time in receiveData is at end of window
-  _time.progressBy(_nextTimeWindowSize);
+  // The last time window may be truncated by the maximum time
+  _time.progressBy(std::min(_nextTimeWindowSize, _time.untilEnd()));
   // receive data for end of window
   this->receiveData(m2n, receiveData);
   // reset time state;
-- 
2.43.0


From c2bceacaedc223fce149e97b10fda1c1c8952917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 02/34] fix: receive zeros on ranks without any mapped vertex

PointToPointCommunication::receive returned without touching the buffer if
no remote rank maps to any vertex of this rank, hence uninitialized memory
ended up in the coupling data.
---
 src/m2n/PointToPointCommunication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index cd3392c..f048dbe 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -630,12 +630,13 @@ void PointToPointCommunication::send(precice::span<double const> itemsToSend, in
 
 void PointToPointCommunication::receive(precice::span<double> itemsToReceive, int valueDimension)
 {
+  // Vertices without any remote counterpart receive zero, also if no vertex of this rank has one
+  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
+
   if (_mappings.empty() || itemsToReceive.empty()) {
     return;
   }
 
-  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
-
   for (auto &mapping : _mappings) {
     mapping.recvBuffer.resize(mapping.indices.size() * valueDimension);
     mapping.request = _communication->aReceive(span<double>{mapping.recvBuffer}, mapping.remoteRank);
-- 
2.43.0


From 0e50cd0da83956a29e1a11dd412158abce17ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 03/34] fix: detect iterations of compositional schemes without
 comparing times

With subcycling, the time of the explicit schemes may exceed the completed
time window of the converged implicit scheme by rounding errors. The
explicit schemes then stayed on hold, and the schemes ran out of sync.
---
 src/cplscheme/CompositionalCouplingScheme.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cplscheme/CompositionalCouplingScheme.cpp b/src/cplscheme/CompositionalCouplingScheme.cpp
index e7da458..9febabb 100644
--- a/src/cplscheme/CompositionalCouplingScheme.cpp
+++ b/src/cplscheme/CompositionalCouplingScheme.cpp
@@ -203,9 +203,9 @@ void CompositionalCouplingScheme::secondExchange()
   // First complete the time window of the implicit scheme to determine if the scheme has converged
   _implicitScheme->secondExchange();
 
-  double implicitTime = _implicitScheme->getTime();
-  double explicitTime = _explicitSchemes.front()->getTime();
-  bool   iterating    = implicitTime < explicitTime; // TODO numeric check?
+  // Explicit schemes are on hold from the end of the first iteration until the implicit scheme converged.
+  // Comparing the times of the schemes is prone to rounding errors when participants subcycle.
+  bool iterating = _explicitOnHold && !_implicitScheme->hasConverged();
 
   if (iterating) {
     PRECICE_DEBUG("Implicit scheme hasn't converged. Explicit schemes remain on hold.");
-- 
2.43.0


From 000870fb2ee532b20178d9501ec7c4082c437906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 04/34] fix: keep intra-comm of other participants from
 replacing the local one

The intra-comm tag of every configured participant replaced the static
intra-participant communication, hence the last one configured decided the
communication of all participants.
---
 src/precice/config/ParticipantConfiguration.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index 0af202c..6745e56 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -338,8 +338,12 @@ void ParticipantConfiguration::xmlTagCallback(
       return;
     }
     com::CommunicationConfiguration comConfig;
-    utils::IntraComm::getCommunication() = comConfig.createCommunication(tag);
-    _isIntraCommDefined                  = true;
+    auto                            communication = comConfig.createCommunication(tag);
+    // The intra-comm of other participants must not replace the one of the local participant
+    if (_participants.back()->getName() == context.name) {
+      utils::IntraComm::getCommunication() = communication;
+    }
+    _isIntraCommDefined = true;
     _participants.back()->setUsePrimaryRank(true);
   }
 }
-- 
2.43.0


From 2815b58691fbd326f465597518908c92a64c4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 05/34] fix: aitken acceleration with a preconditioner aborted
 with a missing XML attribute

---
 src/acceleration/config/AccelerationConfiguration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index 0bda69a..ddd3bcd 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -252,7 +252,9 @@ void AccelerationConfiguration::xmlTagCallback(
   } else if (callingTag.getName() == TAG_PRECONDITIONER) {
     _userDefinitions.definedPreconditionerType = true;
     _config.preconditionerType                 = callingTag.getStringAttributeValue(ATTR_TYPE);
-    _config.preconditionerUpdateOnThreshold    = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD);
+    if (callingTag.hasAttribute(ATTR_PRECOND_UPDATE_ON_THRESHOLD)) { // not available for aitken
+      _config.preconditionerUpdateOnThreshold = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD);
+    }
     _config.preconditionerNbNonConstTWindows   = callingTag.getIntAttributeValue(ATTR_PRECOND_NONCONST_TIME_WINDOWS);
   } else if (callingTag.getName() == TAG_IMVJRESTART) {
     _userDefinitions.defineRestartType = true;
-- 
2.43.0


From 1bb59c8d035cd7abd57d14ce9e7178ce22a8af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 06/34] fix: failed asynchronous receives on sockets completed
 silently with stale data

---
 src/com/SocketCommunication.cpp | 12 ++++++------
 src/com/SocketRequest.cpp       | 13 +++++++++++++
 src/com/SocketRequest.hpp       |  7 +++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/com/SocketCommunication.cpp b/src/com/SocketCommunication.cpp
index a199f58..9da7113 100644
--- a/src/com/SocketCommunication.cpp
+++ b/src/com/SocketCommunication.cpp
@@ -608,8 +608,8 @@ PtrRequest SocketCommunication::aReceive(precice::span<double> itemsToReceive,
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(itemsToReceive.data(), itemsToReceive.size() * sizeof(double)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -670,8 +670,8 @@ PtrRequest SocketCommunication::aReceive(int &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(int)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -710,8 +710,8 @@ PtrRequest SocketCommunication::aReceive(bool &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(bool)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
diff --git a/src/com/SocketRequest.cpp b/src/com/SocketRequest.cpp
index 75d9f69..8bba92f 100644
--- a/src/com/SocketRequest.cpp
+++ b/src/com/SocketRequest.cpp
@@ -1,12 +1,20 @@
 #include "SocketRequest.hpp"
+#include "logging/LogMacros.hpp"
+#include "logging/Logger.hpp"
 
 namespace precice::com {
 
 void SocketRequest::complete()
+{
+  complete(boost::system::error_code{});
+}
+
+void SocketRequest::complete(const boost::system::error_code &error)
 {
   {
     std::lock_guard<std::mutex> lock(_completeMutex);
 
+    _error    = error;
     _complete = true;
   }
 
@@ -26,5 +34,10 @@ void SocketRequest::wait()
 
   // Lock is acquired when the predicate is evaluated.
   _completeCondition.wait(lock, [this] { return _complete; });
+
+  if (_error) {
+    logging::Logger _log{"com::SocketRequest"};
+    PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", _error.message());
+  }
 }
 } // namespace precice::com
diff --git a/src/com/SocketRequest.hpp b/src/com/SocketRequest.hpp
index 0d929fd..2db8f17 100644
--- a/src/com/SocketRequest.hpp
+++ b/src/com/SocketRequest.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <boost/system/error_code.hpp>
 #include <condition_variable>
 #include <mutex>
 #include "Request.hpp"
@@ -9,13 +10,19 @@ class SocketRequest : public Request {
 public:
   void complete();
 
+  /// Completes the request with the outcome of a receive operation
+  void complete(const boost::system::error_code &error);
+
   bool test() override;
 
+  /// Waits for the completion and throws an error if a receive operation failed
   void wait() override;
 
 private:
   bool _complete{false};
 
+  boost::system::error_code _error;
+
   std::condition_variable _completeCondition;
   std::mutex              _completeMutex;
 };
-- 
2.43.0


From 42e7d237725fbdf6443a61156f04c8fb769a361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 07/34] fix: QR3 filter read out of bounds for an empty
 least-squares system

---
 src/acceleration/impl/QRFactorization.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/acceleration/impl/QRFactorization.cpp b/src/acceleration/impl/QRFactorization.cpp
index c420e87..4bbdc8d 100644
--- a/src/acceleration/impl/QRFactorization.cpp
+++ b/src/acceleration/impl/QRFactorization.cpp
@@ -149,9 +149,8 @@ void QRFactorization::applyFilter(double singularityLimit, std::vector<int> &del
     resetFilter(singularityLimit, delIndices, V);
 
   } else if (_filter == Acceleration::QR3FILTER) {
-    int index = cols() - 1;
     // Iterate from the last column to the 2nd column from the left
-    for (size_t i = index; i > 0; i--) {
+    for (int i = cols() - 1; i > 0; i--) {
       Eigen::VectorXd v    = V.col(i);
       double          rho0 = utils::IntraComm::l2norm(v);
       if (std::fabs(_R(i, i)) < rho0 * singularityLimit) {
-- 
2.43.0


From 8d382870ebeee93e09badb3230748580a759794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 08/34] fix: keep quasi-Newton matrices consistent with their
 QR factorization for dependent columns

---
 src/acceleration/BaseQNAcceleration.cpp  | 12 +++++++-----
 src/acceleration/IQNIMVJAcceleration.cpp |  6 +++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 59ce142..27f2fcf 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -428,8 +428,8 @@ void BaseQNAcceleration::performAcceleration(
 
     // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
     auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-    for (int i : failAddedCols) {
-      removeMatrixColumn(i);
+    for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from back to front to keep the indices valid
+      removeMatrixColumn(*i);
     }
     PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
 
@@ -448,12 +448,14 @@ void BaseQNAcceleration::performAcceleration(
   // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
   _preconditioner->apply(_matrixV);
 
-  if (_preconditioner->requireNewQR()) {
+  // The newest column is missing in the QR factorization if it is linearly dependent.
+  // QR2 and QR3 filters rebuild the factorization themselves.
+  if (_preconditioner->requireNewQR() || _qrV.cols() != _matrixV.cols()) {
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
-      for (int i : failAddedCols) {
-        removeMatrixColumn(i);
+      for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from back to front to keep the indices valid
+        removeMatrixColumn(*i);
       }
       PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
     }
diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 751cdd6..b764f95 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -656,11 +656,11 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
     _preconditioner->apply(_matrixV);
 
-    if (_preconditioner->requireNewQR()) {
+    if (_preconditioner->requireNewQR() || _qrV.cols() != _matrixV.cols()) {
       if (not(_filter == Acceleration::QR2FILTER)) { // for QR2 filter, there is no need to do this twice
         auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-        for (int i : failAddedCols) {
-          removeMatrixColumn(i);
+        for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from back to front to keep the indices valid
+          removeMatrixColumn(*i);
         }
         PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
       }
-- 
2.43.0


From 8e49f6bef1efa6c1c355410d332907cf34ec5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 09/34] fix: keep profiling entries recorded before the
 events-file is open

A small flush-every wrote (or asserted on) entries recorded before startBackend
opened the file, which lost them.
---
 src/profiling/EventUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/profiling/EventUtils.cpp b/src/profiling/EventUtils.cpp
index 64f6c61..f5a595e 100644
--- a/src/profiling/EventUtils.cpp
+++ b/src/profiling/EventUtils.cpp
@@ -286,7 +286,8 @@ struct EventWriter {
 
 void EventRegistry::flush()
 try {
-  if (_mode == Mode::Off || _writeQueue.empty()) {
+  // Keep the entries of the construction until the events-file is open
+  if (_mode == Mode::Off || !_isBackendRunning || _writeQueue.empty()) {
     return;
   }
   PRECICE_ASSERT(_output, "Filestream doesn't exist.");
-- 
2.43.0


From 2bf518c8fc063c3a48b7fca9793a153f3d097473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 10/34] fix: sends to a broken socket connection never
 completed

asio leaves a write to a socket that failed before pending forever, so the
sender spun in finalize. Complete such sends without writing, as the failed one.
---
 src/com/SocketSendQueue.cpp | 13 ++++++++++++-
 src/com/SocketSendQueue.hpp |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/com/SocketSendQueue.cpp b/src/com/SocketSendQueue.cpp
index 10664bc..d6b6527 100644
--- a/src/com/SocketSendQueue.cpp
+++ b/src/com/SocketSendQueue.cpp
@@ -43,9 +43,20 @@ void SocketSendQueue::process()
   auto item = _itemQueue.front();
   _itemQueue.pop_front();
   _ready = false;
+  if (_failedSockets.count(item.sock) > 0) {
+    asio::post(item.sock->get_executor(), [item, this] {
+      item.callback();
+      this->sendCompleted();
+    });
+    return;
+  }
   asio::async_write(*(item.sock),
                     item.data,
-                    [item, this](boost::system::error_code const &, std::size_t) {
+                    [item, this](boost::system::error_code const &ec, std::size_t) {
+                      if (ec) {
+                        std::lock_guard<std::mutex> lock(_queueMutex);
+                        _failedSockets.insert(item.sock);
+                      }
                       item.callback();
                       this->sendCompleted();
                     });
diff --git a/src/com/SocketSendQueue.hpp b/src/com/SocketSendQueue.hpp
index c04b29b..7b83e2a 100644
--- a/src/com/SocketSendQueue.hpp
+++ b/src/com/SocketSendQueue.hpp
@@ -5,6 +5,7 @@
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <string>
 #include "logging/Logger.hpp"
 
@@ -42,6 +43,8 @@ private:
   std::deque<SendItem> _itemQueue;
   /// The mutex protecting access to the queue
   std::mutex _queueMutex{};
+  /// Sockets that failed to send, asio never completes any further write to them.
+  std::set<std::shared_ptr<Socket>> _failedSockets;
   /// Is the queue allowed to start another asynchronous send?
   bool _ready = true;
 };
-- 
2.43.0


From 74b757a6da1ee63f59245eb620d739d5f68dcca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 11/34] fix: IQN-IMVJ established its cyclic communication
 twice

The second ring used the names of the first one while it was still open, so a
rank could read a connection file of the first ring that was not yet removed
and fail to connect.
---
 src/acceleration/IQNIMVJAcceleration.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index b764f95..b70f250 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -750,11 +750,6 @@ void IQNIMVJAcceleration::specializedInitializeVectorsAndPreconditioner(const Da
     global_n = _dimOffsets.back();
   }
 
-  // initialize parallel matrix-matrix operation module
-  _parMatrixOps = std::make_shared<impl::ParallelMatrixOperations>();
-  _parMatrixOps->initialize(not _imvjRestart);
-  _svdJ.initialize(_parMatrixOps, global_n, getLSSystemRows());
-
   if (not _imvjRestart) {
     // only need memory for Jacobain if not in restart mode
     _invJacobian    = Eigen::MatrixXd::Zero(global_n, entries);
-- 
2.43.0


From 655e568ce11ac0417291692328db95a6fba2fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 12/34] fix: IQN-IMVJ aborted if the first time window
 converged in its first iteration

There are no columns then, neither a pseudo-inverse nor a Jacobian update.
---
 src/acceleration/IQNIMVJAcceleration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index b70f250..0f0fa96 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -673,7 +673,9 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     // |===================          ============|
 
     //              ------- RESTART/ JACOBIAN ASSEMBLY -------
-    if (_imvjRestart) {
+    if (_qrV.cols() == 0) {
+      // No new information, e.g., if the first time window converged in its first iteration. The Jacobian doesn't change.
+    } else if (_imvjRestart) {
 
       // add the matrices Wtil and Z of the converged configuration to the storage containers
       Eigen::MatrixXd Z(_qrV.cols(), _qrV.rows());
-- 
2.43.0


From 154d308536f0bfb23e13adc3295481fa64628a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 13/34] fix: size of the gradients of vector data exchanged
 with substeps

The buffer was larger than the gradients by the factor of the data dimensions. The surplus, uninitialised, went through gather-scatter communication from secondary ranks and was taken for the following data.
---
 src/com/SerializedStamples.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/SerializedStamples.cpp b/src/com/SerializedStamples.cpp
index 95f8ddb..a733884 100644
--- a/src/com/SerializedStamples.cpp
+++ b/src/com/SerializedStamples.cpp
@@ -40,7 +40,7 @@ void SerializedStamples::allocate(const cplscheme::CouplingData &data)
   _values = Eigen::VectorXd(_timeSteps * data.getSize());
 
   if (data.hasGradient()) {
-    _gradients = Eigen::VectorXd(_timeSteps * data.getSize() * data.meshDimensions() * data.getDimensions());
+    _gradients = Eigen::VectorXd(_timeSteps * data.getSize() * data.meshDimensions());
   }
 }
 
-- 
2.43.0


From 2ebbbe2a941521f1e5c79cf7b3938115f010baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 14/34] fix: report failures to write or publish connection
 files

A failed or torn write published incomplete connection information, while the acceptor waited forever. Failures to create directories or to rename left the API as exceptions of the file system.
---
 src/com/ConnectionInfoPublisher.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/com/ConnectionInfoPublisher.cpp b/src/com/ConnectionInfoPublisher.cpp
index 11b3732..4373d3c 100644
--- a/src/com/ConnectionInfoPublisher.cpp
+++ b/src/com/ConnectionInfoPublisher.cpp
@@ -121,7 +121,9 @@ void ConnectionInfoWriter::write(std::string_view info) const
   }
 
   PRECICE_DEBUG("Writing temporary connection file \"{}\"", tmp.generic_string());
-  fs::create_directories(tmp.parent_path());
+  std::error_code ec;
+  fs::create_directories(tmp.parent_path(), ec);
+  PRECICE_CHECK(!ec, "Unable to establish connection as the directory \"{}\" couldn't be created: {}", tmp.parent_path().generic_string(), ec.message());
   {
     std::ofstream ofs(tmp);
 
@@ -136,6 +138,8 @@ void ConnectionInfoWriter::write(std::string_view info) const
     fmt::print(ofs,
                "{}\nAcceptor: {}, Requester: {}, Tag: {}, Rank: {}",
                info, acceptorName, requesterName, tag, rank);
+    ofs.close();
+    PRECICE_CHECK(ofs, "Unable to establish connection as writing the temporary connection file \"{}\" failed.", tmp.generic_string());
   }
   PRECICE_CHECK(fs::exists(tmp),
                 "Unable to establish connection as the temporary connection file \"{}\" was written, but doesn't exist on disk. "
@@ -143,7 +147,8 @@ void ConnectionInfoWriter::write(std::string_view info) const
                 tmp.generic_string());
 
   PRECICE_DEBUG("Publishing connection file \"{}\"", path);
-  fs::rename(tmp, path);
+  fs::rename(tmp, path, ec);
+  PRECICE_CHECK(!ec, "Unable to establish connection as the connection file \"{}\" couldn't be published: {}", path, ec.message());
   PRECICE_WARN_IF(
       fs::exists(tmp),
       "The temporary connection file \"{}\" wasn't properly removed. "
-- 
2.43.0


From d41e966d8cfec3c7213be210ec2fe60332bc7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 15/34] fix: two-level initialization between two participants
 refused serial third participants

---
 src/m2n/config/M2NConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m2n/config/M2NConfiguration.cpp b/src/m2n/config/M2NConfiguration.cpp
index c33ae52..f2b9848 100644
--- a/src/m2n/config/M2NConfiguration.cpp
+++ b/src/m2n/config/M2NConfiguration.cpp
@@ -140,7 +140,7 @@ void M2NConfiguration::xmlTagCallback(const xml::ConfigurationContext &context,
     if (enforceGatherScatter && useTwoLevelInit) {
       throw std::runtime_error{std::string{"A gather-scatter m2n communication cannot use two-level initialization. Please switch either "} + "\"" + ATTR_ENFORCE_GATHER_SCATTER + "\" or \"" + ATTR_USE_TWO_LEVEL_INIT + "\" off."};
     }
-    if (context.size == 1 && useTwoLevelInit) {
+    if (context.size == 1 && useTwoLevelInit && (context.name == acceptor || context.name == connector)) {
       throw std::runtime_error{"To use two-level initialization, both participants need to run in parallel. If you want to run in serial please switch two-level initialization off."};
     }
 
-- 
2.43.0


From fdbba253df6cf27d8b24d4f39eb7831567c3db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 16/34] fix: a connection file may vanish right after it was
 found

A leftover of a killed run is removed by the participant which fails to
publish its own file. Reading it reports an error already, but debug builds
aborted on an assertion when the file vanished between two checks.
---
 src/com/ConnectionInfoPublisher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/com/ConnectionInfoPublisher.cpp b/src/com/ConnectionInfoPublisher.cpp
index 4373d3c..4748e00 100644
--- a/src/com/ConnectionInfoPublisher.cpp
+++ b/src/com/ConnectionInfoPublisher.cpp
@@ -58,7 +58,6 @@ std::string ConnectionInfoReader::read() const
   while (!fs::exists(path)) {
     std::this_thread::sleep_for(waitdelay);
   }
-  PRECICE_ASSERT(fs::exists(path));
   PRECICE_DEBUG("Found connection file \"{}\"", path);
 
   std::ifstream ifs(path);
-- 
2.43.0


From c345b3fa7a54d305f9373cf058ee74f585251373 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 17/34] fix: report export, watch and log files which cannot be
 written

A full disk silently truncated the exported files and aborted in the table writer. A failure to create
the export directory escaped as std::filesystem::filesystem_error.
---
 src/io/Export.cpp         | 28 ++++++++++++++++++++++------
 src/io/Export.hpp         | 12 ++++++++++++
 src/io/ExportCSV.cpp      |  9 +++------
 src/io/ExportVTK.cpp      |  8 ++------
 src/io/ExportXML.cpp      | 14 ++++----------
 src/io/TXTTableWriter.cpp | 21 +++++++++++----------
 src/io/TXTTableWriter.hpp |  5 +++++
 7 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/src/io/Export.cpp b/src/io/Export.cpp
index bf6d617..73d70ce 100644
--- a/src/io/Export.cpp
+++ b/src/io/Export.cpp
@@ -1,5 +1,7 @@
 #include "io/Export.hpp"
 #include <filesystem>
+#include <system_error>
+#include "logging/LogMacros.hpp"
 #include "utils/fmt.hpp"
 
 namespace precice::io {
@@ -23,15 +25,11 @@ void Export::writeSeriesFile(std::string_view filename) const
   if (_records.empty())
     return;
 
-  namespace fs = std::filesystem;
-  fs::path outfile(_location);
-  if (not _location.empty()) {
-    fs::create_directories(outfile);
-  }
-  outfile /= filename;
+  const auto outfile = preparePath(filename);
 
   // Prepare filestream
   std::ofstream outFile(outfile.string(), std::ios::trunc);
+  PRECICE_CHECK(outFile, "Failed to open series file \"{}\"", outfile.generic_string());
 
   outFile << R"({ "file-series-version" : "1.0", "files" : [)";
 
@@ -39,6 +37,24 @@ void Export::writeSeriesFile(std::string_view filename) const
     outFile << fmt::format(R"( {{ "name" : "{}", "time" : {} }},)", _records[i].filename, _records[i].time);
   }
   outFile << fmt::format(R"( {{ "name" : "{}", "time" : {} }} ] }})", _records.back().filename, _records.back().time);
+  closeFile(outFile, outfile);
+}
+
+std::filesystem::path Export::preparePath(std::string_view filename) const
+{
+  std::filesystem::path path(_location);
+  if (not _location.empty()) {
+    std::error_code ec;
+    std::filesystem::create_directories(path, ec);
+    PRECICE_CHECK(!ec, "Failed to create the export directory \"{}\": {}", path.generic_string(), ec.message());
+  }
+  return path / filename;
+}
+
+void Export::closeFile(std::ofstream &file, const std::filesystem::path &path) const
+{
+  file.close();
+  PRECICE_CHECK(file, "Failed to write export file \"{}\"", path.generic_string());
 }
 
 void Export::recordExport(std::string filename, double time)
diff --git a/src/io/Export.hpp b/src/io/Export.hpp
index 782efa9..bc90703 100644
--- a/src/io/Export.hpp
+++ b/src/io/Export.hpp
@@ -1,8 +1,11 @@
 #pragma once
 
+#include <filesystem>
+#include <fstream>
 #include <string>
 #include <string_view>
 #include <vector>
+#include "logging/Logger.hpp"
 
 namespace precice::mesh {
 class Mesh;
@@ -76,9 +79,18 @@ protected:
 
   std::vector<Record> _records;
 
+  /// Ensures that the export directory exists and returns the full path of the file in it
+  std::filesystem::path preparePath(std::string_view filename) const;
+
+  /// Closes the file and checks that everything was written
+  void closeFile(std::ofstream &file, const std::filesystem::path &path) const;
+
   void writeSeriesFile(std::string_view filename) const;
 
   void recordExport(std::string filename, double time);
+
+private:
+  mutable logging::Logger _log{"io::Export"};
 };
 
 } // namespace precice::io
diff --git a/src/io/ExportCSV.cpp b/src/io/ExportCSV.cpp
index e40c0d9..af7416a 100644
--- a/src/io/ExportCSV.cpp
+++ b/src/io/ExportCSV.cpp
@@ -64,15 +64,11 @@ void ExportCSV::doExport(int index, double time)
     filename = fmt::format("{}-{}.{}.csv", _mesh->getName(), _participantName, formatIndex(index));
   }
 
-  namespace fs = std::filesystem;
-  fs::path outfile(_location);
-  if (not _location.empty()) {
-    fs::create_directories(outfile);
-  }
-  outfile /= filename;
+  const auto outfile = preparePath(filename);
 
   // Prepare filestream
   std::ofstream outFile(outfile.string(), std::ios::trunc);
+  PRECICE_CHECK(outFile, "CSV export failed to open destination file \"{}\"", outfile.generic_string());
   const bool    is3d = (_mesh->getDimensions() == 3);
 
   // write header
@@ -126,6 +122,7 @@ void ExportCSV::doExport(int index, double time)
     }
     outFile << '\n';
   }
+  closeFile(outFile, outfile);
 }
 
 void ExportCSV::exportSeries() const
diff --git a/src/io/ExportVTK.cpp b/src/io/ExportVTK.cpp
index 3db3ae9..679f8f4 100644
--- a/src/io/ExportVTK.cpp
+++ b/src/io/ExportVTK.cpp
@@ -39,11 +39,7 @@ void ExportVTK::doExport(int index, double time)
 
   auto filename = fmt::format("{}-{}.{}.vtk", _mesh->getName(), _participantName, formatIndex(index));
 
-  namespace fs = std::filesystem;
-  fs::path outfile(_location);
-  if (not _location.empty())
-    fs::create_directories(outfile);
-  outfile = outfile / filename;
+  const auto    outfile = preparePath(filename);
   std::ofstream outstream(outfile.string(), std::ios::trunc);
   PRECICE_CHECK(outstream, "VTK export failed to open destination file \"{}\"", outfile.generic_string());
 
@@ -52,7 +48,7 @@ void ExportVTK::doExport(int index, double time)
   exportMesh(outstream, *_mesh);
   exportData(outstream, *_mesh);
   exportGradient(outstream, *_mesh);
-  outstream.close();
+  closeFile(outstream, outfile);
   recordExport(filename, time);
 }
 
diff --git a/src/io/ExportXML.cpp b/src/io/ExportXML.cpp
index da493fc..c8ddf62 100644
--- a/src/io/ExportXML.cpp
+++ b/src/io/ExportXML.cpp
@@ -40,8 +40,6 @@ void ExportXML::doExport(int index, double time)
   const auto &mesh = *_mesh;
 
   processDataNamesAndDimensions(mesh);
-  if (not _location.empty())
-    std::filesystem::create_directories(_location);
 
   if (isParallel()) {
     if (_rank == 0) {
@@ -116,9 +114,7 @@ void ExportXML::writeParallelFile(int index, double time)
   auto filename = fmt::format("{}-{}.{}.{}", _mesh->getName(), _participantName, formatIndex(index), getParallelExtension());
   recordExport(filename, time);
 
-  namespace fs = std::filesystem;
-  fs::path outfile(_location);
-  outfile = outfile / filename;
+  const auto    outfile = preparePath(filename);
   std::ofstream outParallelFile(outfile.string(), std::ios::trunc);
 
   PRECICE_CHECK(outParallelFile, "{} export failed to open primary file \"{}\"", getVTKFormat(), outfile.generic_string());
@@ -148,7 +144,7 @@ void ExportXML::writeParallelFile(int index, double time)
   outParallelFile << "   </P" << formatType << ">\n";
   outParallelFile << "</VTKFile>\n";
 
-  outParallelFile.close();
+  closeFile(outParallelFile, outfile);
 }
 
 void ExportXML::writeSubFile(int index, double time)
@@ -161,9 +157,7 @@ void ExportXML::writeSubFile(int index, double time)
     recordExport(filename, time);
   }
 
-  namespace fs = std::filesystem;
-  fs::path outfile(_location);
-  outfile /= filename;
+  const auto    outfile = preparePath(filename);
   std::ofstream outSubFile(outfile.string(), std::ios::trunc);
 
   PRECICE_CHECK(outSubFile, "{} export failed to open secondary file \"{}\"", getVTKFormat(), outfile.generic_string());
@@ -188,7 +182,7 @@ void ExportXML::writeSubFile(int index, double time)
   outSubFile << "   </" << formatType << "> \n";
   outSubFile << "</VTKFile>\n";
 
-  outSubFile.close();
+  closeFile(outSubFile, outfile);
 }
 
 void ExportXML::exportGradient(const mesh::PtrData data, const int spaceDim, std::ostream &outFile) const
diff --git a/src/io/TXTTableWriter.cpp b/src/io/TXTTableWriter.cpp
index ef48e95..72337bd 100644
--- a/src/io/TXTTableWriter.cpp
+++ b/src/io/TXTTableWriter.cpp
@@ -9,7 +9,8 @@ namespace precice::io {
 
 TXTTableWriter::TXTTableWriter(
     const std::string &filename)
-    : _data(),
+    : _filename(filename),
+      _data(),
       _writeIterator(_data.end()),
       _outputStream()
 {
@@ -71,9 +72,7 @@ void TXTTableWriter::writeData(
   std::string delimiter = _writeIterator == _data.begin() ? "" : "  ";
   _outputStream << delimiter << std::setw(6) << value;
   _writeIterator++;
-  if (_writeIterator == _data.end()) {
-    _outputStream.flush();
-  }
+  finishEntry();
 }
 
 void TXTTableWriter::writeData(
@@ -92,9 +91,7 @@ void TXTTableWriter::writeData(
   std::string delimiter = _writeIterator == _data.begin() ? "" : "  ";
   _outputStream << delimiter << std::setw(15) << value;
   _writeIterator++;
-  if (_writeIterator == _data.end()) {
-    _outputStream.flush();
-  }
+  finishEntry();
 }
 
 void TXTTableWriter::writeData(
@@ -117,9 +114,7 @@ void TXTTableWriter::writeData(
     _outputStream << "  " << std::setw(15) << value[i];
   }
   _writeIterator++;
-  if (_writeIterator == _data.end()) {
-    _outputStream.flush();
-  }
+  finishEntry();
 }
 
 void TXTTableWriter::writeData(
@@ -141,9 +136,15 @@ void TXTTableWriter::writeData(
     _outputStream << "  " << std::setw(15) << value[i];
   }
   _writeIterator++;
+  finishEntry();
+}
+
+void TXTTableWriter::finishEntry()
+{
   if (_writeIterator == _data.end()) {
     _outputStream.flush();
   }
+  PRECICE_CHECK(_outputStream, "TXT table writer failed to write to file \"{}\"", _filename);
 }
 
 void TXTTableWriter::close()
diff --git a/src/io/TXTTableWriter.hpp b/src/io/TXTTableWriter.hpp
index 9e086ab..8db4a8c 100644
--- a/src/io/TXTTableWriter.hpp
+++ b/src/io/TXTTableWriter.hpp
@@ -77,6 +77,9 @@ public:
   void reset();
 
 private:
+  /// Completes the row if this was its last entry and checks that everything was written.
+  void finishEntry();
+
   /// Represents one data entry to be written.
   struct Data {
 
@@ -92,6 +95,8 @@ private:
 
   logging::Logger _log{"io::TXTTableWriter"};
 
+  std::string _filename;
+
   std::vector<Data> _data;
 
   std::vector<Data>::const_iterator _writeIterator;
-- 
2.43.0


From c34b698c1ea7561eedc5c820ca5060eb045d7423 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 18/34] fix: watch integrals depend on the connectivity of all
 ranks

Ranks without edges added unscaled sums to a scaled integral. If the primary rank had no edges, then
the surface area was missing.
---
 src/precice/impl/WatchIntegral.cpp | 26 ++++++++++++++------------
 src/precice/impl/WatchIntegral.hpp |  3 +++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 7ee8079..484bc40 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -45,11 +45,19 @@ WatchIntegral::WatchIntegral(
 
 void WatchIntegral::initialize()
 {
+  // The connectivity may be limited to some ranks, so all ranks have to agree
+  int hasEdges       = _mesh->edges().empty() ? 0 : 1;
+  int ranksWithEdges = hasEdges;
+  if (utils::IntraComm::getSize() > 1) {
+    utils::IntraComm::allreduceSum(hasEdges, ranksWithEdges);
+  }
+  _hasConnectivity = ranksWithEdges > 0;
+
   // Do not add surface area column if there is no connectivity
-  if ((not utils::IntraComm::isSecondary()) and (not _mesh->edges().empty())) {
+  if ((not utils::IntraComm::isSecondary()) and _hasConnectivity) {
     _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
   }
-  PRECICE_WARN_IF(_isScalingOn && _mesh->edges().empty(),
+  PRECICE_WARN_IF(_isScalingOn && not _hasConnectivity,
                   "Watch-integral is configured with scaling option on; "
                   "however, mesh {} does not contain connectivity information. "
                   "Therefore, the integral will be calculated without scaling.",
@@ -85,7 +93,7 @@ void WatchIntegral::exportIntegralData(
   }
 
   // Calculate surface area only if there is connectivity information
-  if (not _mesh->edges().empty()) {
+  if (_hasConnectivity) {
     double surfaceArea = calculateSurfaceArea();
     if (utils::IntraComm::getSize() > 1) {
       double surfaceAreaSum = 0.0;
@@ -95,13 +103,6 @@ void WatchIntegral::exportIntegralData(
     if (not utils::IntraComm::isSecondary()) {
       _txtWriter.writeData("SurfaceArea", surfaceArea);
     }
-  } else {
-    // Empty partitions should also call reduceSum to prevent deadlock
-    if (utils::IntraComm::getSize() > 1) {
-      double surfaceArea    = 0.0;
-      double surfaceAreaSum = 0.0;
-      utils::IntraComm::reduceSum(surfaceArea, surfaceAreaSum);
-    }
   }
 }
 
@@ -111,7 +112,7 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
   const auto      sample = data->waveform().sample(time);
   Eigen::VectorXd sum    = Eigen::VectorXd::Zero(dim);
 
-  if (_mesh->edges().empty() || (not _isScalingOn)) {
+  if ((not _hasConnectivity) || (not _isScalingOn)) {
     for (const auto &vertex : _mesh->vertices()) {
       int offset = vertex.getID() * dim;
       for (int i = 0; i < dim; i++) {
@@ -119,6 +120,8 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
       }
     }
     return sum;
+  } else if (_mesh->edges().empty()) { // Only other ranks have connectivity
+    return sum;
   } else { // Connectivity information is given
     return mesh::integrateSurface(_mesh, sample.values());
   }
@@ -126,7 +129,6 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
 
 double WatchIntegral::calculateSurfaceArea() const
 {
-  PRECICE_ASSERT(not _mesh->edges().empty());
   double surfaceArea = 0.0;
   if (_mesh->getDimensions() == 3) {
     for (const auto &face : _mesh->triangles()) {
diff --git a/src/precice/impl/WatchIntegral.hpp b/src/precice/impl/WatchIntegral.hpp
index f8056af..bf53bb2 100644
--- a/src/precice/impl/WatchIntegral.hpp
+++ b/src/precice/impl/WatchIntegral.hpp
@@ -52,6 +52,9 @@ private:
 
   bool _isScalingOn;
 
+  /// Does any rank have connectivity?
+  bool _hasConnectivity = false;
+
   Eigen::VectorXd calculateIntegral(double time, const mesh::PtrData &data) const;
 
   double calculateSurfaceArea() const;
-- 
2.43.0


From 97d8f11b44de8e8d885c2954c412f73a4c27ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 19/34] fix: report advance() called in a wrong state

The state was only checked after stopping the event of the solver, which
doesn't exist before initialize() or after finalize().
---
 src/precice/impl/ParticipantImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..3857732 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -395,6 +395,10 @@ void ParticipantImpl::advance(
 
   PRECICE_TRACE(computedTimeStepSize);
 
+  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
+  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
+  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
+
   // Enforce that all user-created events are stopped to prevent incorrect nesting.
   PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
 
@@ -404,9 +408,6 @@ void ParticipantImpl::advance(
 
   Event e("advance", profiling::Fundamental, profiling::Synchronize);
 
-  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
-  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
-  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
   PRECICE_ASSERT(_couplingScheme->isInitialized());
   PRECICE_CHECK(isCouplingOngoing(), "advance() cannot be called when isCouplingOngoing() returns false.");
 
-- 
2.43.0


From e9b29d9370f354d002c5e133c75846a4fafef424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 20/34] fix: report calls which use meshes or data after
 finalize()

finalize() releases the participant configuration, which the validation of
mesh and data names dereferenced.
---
 src/precice/impl/ValidationMacros.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/precice/impl/ValidationMacros.hpp b/src/precice/impl/ValidationMacros.hpp
index 5228d9e..0e12be2 100644
--- a/src/precice/impl/ValidationMacros.hpp
+++ b/src/precice/impl/ValidationMacros.hpp
@@ -6,6 +6,17 @@
  * \attention Only include this file from ParticipantImpl.cpp
  */
 
+//
+// STATE VALIDATION
+//
+
+/** Checks that the participant isn't finalized, which releases everything that is known about meshes and data
+ *
+ * @attention Do not use this macro directly!
+ */
+#define PRECICE_VALIDATE_NOT_FINALIZED_IMPL() \
+  PRECICE_CHECK(_state != State::Finalized, "{}() cannot be called after finalize().", __func__);
+
 //
 // MESH VALIDATION
 //
@@ -16,6 +27,7 @@
  */
 #include "utils/stacktrace.hpp"
 #define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                     \
+  PRECICE_VALIDATE_NOT_FINALIZED_IMPL()                           \
   PRECICE_CHECK(_accessor->hasMesh(name),                         \
                 "The mesh named \"{}\" is unknown to preCICE.{}", \
                 name, _accessor->hintForMesh(name));
@@ -108,6 +120,7 @@
  * @attention Do not use this macro directly!
  */
 #define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data) \
+  PRECICE_VALIDATE_NOT_FINALIZED_IMPL()             \
   PRECICE_CHECK(_accessor->hasData(mesh, data),     \
                 "The given data \"{}\" is unknown to preCICE mesh \"{}\".{}", data, mesh, _accessor->hintForMeshData(mesh, data));
 
-- 
2.43.0


From ef52f257f253af5430cd771ac89210651b47f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 21/34] fix: enforce data bounds in all samples of a
 quasi-Newton update

---
 src/acceleration/BaseQNAcceleration.cpp | 18 +++++++++++++-----
 src/acceleration/BaseQNAcceleration.hpp |  6 ++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 27f2fcf..b6a6aa1 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -114,6 +114,12 @@ void BaseQNAcceleration::initialize(
   _firstTimeWindow = true;
 }
 
+Eigen::Index BaseQNAcceleration::getConcatenatedSize(DataID id, const DataMap &cplData) const
+{
+  const Eigen::Index size = cplData.at(id)->values().size();
+  return _timeGrids.has_value() ? size * _timeGrids->getTimeGridAfter(id, _windowStart).size() : size;
+}
+
 std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const
 {
   Eigen::Index        offset       = 0;
@@ -121,7 +127,7 @@ std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &dat
 
   // check for bound violations
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData);
 
     if (std::find(_idsWithBounds.begin(), _idsWithBounds.end(), id) == _idsWithBounds.end()) {
       offset += size;
@@ -152,7 +158,7 @@ void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &
 {
   Eigen::Index offset = 0;
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -179,7 +185,7 @@ void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &
   double       scaleStep = 0.0;
 
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -253,8 +259,8 @@ double BaseQNAcceleration::computeShorteningFactor(Eigen::Map<Eigen::MatrixXd> &
     }
   }
   PRECICE_ASSERT(scaleStep >= 0.0);
-  PRECICE_ASSERT(scaleStep <= 1.0);
-  return scaleStep;
+  // The values may violate the bounds without the update, in which case no part of the update is left
+  return std::min(scaleStep, 1.0);
 }
 /** ---------------------------------------------------------------------------------------------
  *         updateDifferenceMatrices()
@@ -370,6 +376,8 @@ void BaseQNAcceleration::performAcceleration(
 
   profiling::Event e("cpl.computeQuasiNewtonUpdate", profiling::Synchronize);
 
+  _windowStart = windowStart;
+
   // We can only initialize here since we need to know the time grid already.
   if (_firstTimeWindow and _firstIteration) {
     initializeVectorsAndPreconditioner(cplData, windowStart);
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 295589d..e2b7313 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -336,6 +336,12 @@ private:
   /// @brief Stores the time grids to which the primary and secondary data involved in the QN system will be interpolated to.
   std::optional<time::TimeGrids> _timeGrids;
 
+  /// Start of the time window of the current iteration, which the time grids refer to
+  double _windowStart = 0;
+
+  /// Number of entries of a data set in the long vector of all values, which holds every sample after the start of the time window
+  Eigen::Index getConcatenatedSize(DataID id, const DataMap &cplData) const;
+
   /// @brief Stores the time grids to which the primary data involved in the QN system will be interpolated to.
   /// If _reducedTimeGrids is true then this will only contain the last time stamp of the time window, see https://doi.org/10.1002/nme.6443
   std::optional<time::TimeGrids> _primaryTimeGrids;
-- 
2.43.0


From fe83e7af747279be76fd8cb7dc12fbc352c5308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 22/34] fix: reject repeated vertex IDs in triangles and
 tetrahedra

---
 src/precice/impl/ParticipantImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 3857732..f7b2930 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -967,6 +967,9 @@ void ParticipantImpl::setMeshTriangles(
     auto aid = vertices[3 * i];
     auto bid = vertices[3 * i + 1];
     auto cid = vertices[3 * i + 2];
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(aid, bid, cid)),
+                  "setMeshTriangles() was called with repeated Vertex IDs ({}, {}, {}) in triangle nr {}.",
+                  aid, bid, cid, i);
     mesh.createTriangle(mesh.vertex(aid),
                         mesh.vertex(bid),
                         mesh.vertex(cid));
@@ -1116,6 +1119,9 @@ void ParticipantImpl::setMeshTetrahedron(
   PRECICE_CHECK(mesh.isValidVertexID(second), errorInvalidVertexID(second));
   PRECICE_CHECK(mesh.isValidVertexID(third), errorInvalidVertexID(third));
   PRECICE_CHECK(mesh.isValidVertexID(fourth), errorInvalidVertexID(fourth));
+  PRECICE_CHECK(utils::unique_elements(utils::make_array(first, second, third, fourth)),
+                "setMeshTetrahedron() was called with repeated Vertex IDs ({}, {}, {}, {}).",
+                first, second, third, fourth);
   mesh::Vertex &A = mesh.vertex(first);
   mesh::Vertex &B = mesh.vertex(second);
   mesh::Vertex &C = mesh.vertex(third);
@@ -1160,6 +1166,9 @@ void ParticipantImpl::setMeshTetrahedra(
     auto bid = vertices[4 * i + 1];
     auto cid = vertices[4 * i + 2];
     auto did = vertices[4 * i + 3];
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(aid, bid, cid, did)),
+                  "setMeshTetrahedra() was called with repeated Vertex IDs ({}, {}, {}, {}) in tetrahedron nr {}.",
+                  aid, bid, cid, did, i);
     mesh.createTetrahedron(mesh.vertex(aid),
                            mesh.vertex(bid),
                            mesh.vertex(cid),
-- 
2.43.0


From 291604f8ec984654da74aaa833b3a0b8a42f8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 23/34] fix: accept provided meshes and access regions without
 extent together with API access

A serial participant with API access to a received mesh, no access region and
a mapping with a provided mesh of a single vertex failed in initialize claiming
an empty bounding box.
---
 src/partition/ReceivedPartition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition/ReceivedPartition.cpp b/src/partition/ReceivedPartition.cpp
index 4b2c750..e667d81 100644
--- a/src/partition/ReceivedPartition.cpp
+++ b/src/partition/ReceivedPartition.cpp
@@ -103,7 +103,7 @@ void ReceivedPartition::compute()
       prepareBoundingBox();
 
       // To discuss: maybe check this somewhere in the ParticipantImpl, as we have now a similar check for the parallel case
-      PRECICE_CHECK(!_bb.empty(), "You are running this participant in serial mode and the bounding box on mesh \"{}\", is empty. Did you call setMeshAccessRegion with valid data?", _mesh->getName());
+      PRECICE_CHECK(!_bb.isDefault(), "You are running this participant in serial mode and the bounding box on mesh \"{}\", is empty. Did you call setMeshAccessRegion with valid data?", _mesh->getName());
 
       // In serial mode, we keep the vertices, but filter them in the API functions
       const auto   nVerticesInBox    = mesh::countVerticesInBoundingBox(_mesh, _bb);
-- 
2.43.0


From b3d6771f195a75c1f3f269828159fad81fbc8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 24/34] fix: allow remeshing with gather-scatter communication

---
 src/m2n/GatherScatterCommunication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m2n/GatherScatterCommunication.cpp b/src/m2n/GatherScatterCommunication.cpp
index d7e5985..9264e06 100644
--- a/src/m2n/GatherScatterCommunication.cpp
+++ b/src/m2n/GatherScatterCommunication.cpp
@@ -58,7 +58,7 @@ void GatherScatterCommunication::requestConnection(
 void GatherScatterCommunication::closeConnection()
 {
   PRECICE_TRACE();
-  PRECICE_ASSERT(utils::IntraComm::isSecondary() || not _com->isConnected());
+  // The M2N owns the primary communication, which remains connected for remeshing
   _isConnected = false;
 }
 
-- 
2.43.0


From 0ed8cbaa25cdf19b68358a5efc1d16965716e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 25/34] fix: skip remote ranks without common vertices after a
 two-level initialization

---
 src/m2n/PointToPointCommunication.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index f048dbe..b197ab5 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -588,7 +588,11 @@ void PointToPointCommunication::completeSecondaryRanksConnection()
   mesh::Mesh::CommunicationMap localCommunicationMap = _mesh->getCommunicationMap();
 
   for (auto &i : _connectionDataVector) {
-    _mappings.push_back({i.remoteRank, std::move(localCommunicationMap[i.remoteRank]), i.request, {}});
+    auto &indices = localCommunicationMap[i.remoteRank];
+    if (indices.empty()) {
+      continue; // Nothing to exchange, and the remote rank may not have any vertices
+    }
+    _mappings.push_back({i.remoteRank, std::move(indices), i.request, {}});
   }
 }
 
-- 
2.43.0


From 10650c4eb2a67d3d2099a5957b9c0021301a3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 26/34] fix: reinitialize watch points for changed meshes and
 continue their files

---
 src/io/TXTTableWriter.cpp       |  7 +++++++
 src/io/TXTTableWriter.hpp       |  3 +++
 src/precice/impl/WatchPoint.cpp | 11 ++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/io/TXTTableWriter.cpp b/src/io/TXTTableWriter.cpp
index 72337bd..ce762ee 100644
--- a/src/io/TXTTableWriter.cpp
+++ b/src/io/TXTTableWriter.cpp
@@ -147,6 +147,13 @@ void TXTTableWriter::finishEntry()
   PRECICE_CHECK(_outputStream, "TXT table writer failed to write to file \"{}\"", _filename);
 }
 
+void TXTTableWriter::seekToEnd()
+{
+  PRECICE_ASSERT(_outputStream);
+  _outputStream.seekp(0, std::ios::end);
+  PRECICE_CHECK(_outputStream, "TXT table writer failed to write to file \"{}\"", _filename);
+}
+
 void TXTTableWriter::close()
 {
   PRECICE_ASSERT(_outputStream.is_open());
diff --git a/src/io/TXTTableWriter.hpp b/src/io/TXTTableWriter.hpp
index 8db4a8c..22ff6e3 100644
--- a/src/io/TXTTableWriter.hpp
+++ b/src/io/TXTTableWriter.hpp
@@ -70,6 +70,9 @@ public:
       const std::string     &name,
       const Eigen::Vector3d &value);
 
+  /// Continues writing at the end of the file, which another writer may have extended.
+  void seekToEnd();
+
   /// Closes the file, is automatically called on destruction.
   void close();
 
diff --git a/src/precice/impl/WatchPoint.cpp b/src/precice/impl/WatchPoint.cpp
index a1c1e2c..e6b94e3 100644
--- a/src/precice/impl/WatchPoint.cpp
+++ b/src/precice/impl/WatchPoint.cpp
@@ -57,6 +57,10 @@ void WatchPoint::initialize()
 {
   PRECICE_TRACE();
 
+  // The mesh may have changed since the last initialization
+  _shortestDistance = std::numeric_limits<double>::max();
+  _interpolation.reset();
+
   if (_mesh->nVertices() > 0) {
     auto match        = _mesh->index().findCellOrProjection(_point, 4);
     _shortestDistance = match.polation.distance();
@@ -85,13 +89,18 @@ void WatchPoint::initialize()
     }
   }
 
+  if (_isClosest) {
+    // Another rank may have written the file until now
+    _txtWriter.seekToEnd();
+  }
+
   PRECICE_DEBUG("Rank: {}, isClosest: {}", utils::IntraComm::getRank(), _isClosest);
 }
 
 void WatchPoint::exportPointData(
     double time)
 {
-  if (!_isClosest) {
+  if (!_isClosest || !_interpolation) {
     return;
   }
 
-- 
2.43.0


From abfac9a955e2552b09cf2fdff32b2eea8660e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 27/34] fix: keep the columns of watch integrals when
 reinitializing meshes

---
 src/precice/impl/WatchIntegral.cpp | 12 ++++++++----
 src/precice/impl/WatchIntegral.hpp |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 484bc40..8cfbbeb 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -54,8 +54,12 @@ void WatchIntegral::initialize()
   _hasConnectivity = ranksWithEdges > 0;
 
   // Do not add surface area column if there is no connectivity
-  if ((not utils::IntraComm::isSecondary()) and _hasConnectivity) {
-    _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+  // The columns are fixed by the first initialization, as the mesh may be reinitialized later
+  if (not _exportSurfaceArea.has_value()) {
+    _exportSurfaceArea = _hasConnectivity;
+    if ((not utils::IntraComm::isSecondary()) and _hasConnectivity) {
+      _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+    }
   }
   PRECICE_WARN_IF(_isScalingOn && not _hasConnectivity,
                   "Watch-integral is configured with scaling option on; "
@@ -92,8 +96,8 @@ void WatchIntegral::exportIntegralData(
     }
   }
 
-  // Calculate surface area only if there is connectivity information
-  if (_hasConnectivity) {
+  // Calculate surface area only if there was connectivity information initially
+  if (_exportSurfaceArea.value_or(false)) {
     double surfaceArea = calculateSurfaceArea();
     if (utils::IntraComm::getSize() > 1) {
       double surfaceAreaSum = 0.0;
diff --git a/src/precice/impl/WatchIntegral.hpp b/src/precice/impl/WatchIntegral.hpp
index bf53bb2..9472807 100644
--- a/src/precice/impl/WatchIntegral.hpp
+++ b/src/precice/impl/WatchIntegral.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Core>
+#include <optional>
 #include <string>
 #include <vector>
 #include "io/TXTTableWriter.hpp"
@@ -55,6 +56,9 @@ private:
   /// Does any rank have connectivity?
   bool _hasConnectivity = false;
 
+  /// Whether the surface area is exported, decided by the first initialization
+  std::optional<bool> _exportSurfaceArea;
+
   Eigen::VectorXd calculateIntegral(double time, const mesh::PtrData &data) const;
 
   double calculateSurfaceArea() const;
-- 
2.43.0


From b925c07ea7ddcc9046addfc1be05f7e2dd83d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 28/34] fix: keep iteration and convergence logs when
 reinitializing meshes

---
 src/cplscheme/BaseCouplingScheme.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 083f007..b859011 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -324,7 +324,6 @@ void BaseCouplingScheme::reinitialize()
         _acceleration->initialize(getAccelerationData());
       }
     }
-    initializeTXTWriters();
   }
 }
 
-- 
2.43.0


From 2649ba647e7f76044f0c74fc0f5d790c19a75f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 29/34] fix: keep the Aitken factor if the residuals do not
 change

---
 src/acceleration/AitkenAcceleration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/AitkenAcceleration.cpp b/src/acceleration/AitkenAcceleration.cpp
index d45ca52..eb4116b 100644
--- a/src/acceleration/AitkenAcceleration.cpp
+++ b/src/acceleration/AitkenAcceleration.cpp
@@ -95,7 +95,10 @@ void AitkenAcceleration::performAcceleration(
     // compute fraction of aitken factor with residuals and residual deltas
     double nominator   = utils::IntraComm::dot(_oldResiduals, residualDeltas);
     double denominator = utils::IntraComm::dot(residualDeltas, residualDeltas);
-    _aitkenFactor      = -_aitkenFactor * (nominator / denominator);
+    // The factor is undefined if the residuals did not change, e.g. if they are all zero
+    if (denominator > 0.0) {
+      _aitkenFactor = -_aitkenFactor * (nominator / denominator);
+    }
   }
 
   PRECICE_DEBUG("AitkenFactor: {}", _aitkenFactor);
-- 
2.43.0


From 889f19a517db85061a919612777cc212e0ca8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 30/34] fix: keep gradients of coupling data when
 reinitializing meshes

---
 src/cplscheme/CouplingData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/CouplingData.cpp b/src/cplscheme/CouplingData.cpp
index 7754d23..5135cfe 100644
--- a/src/cplscheme/CouplingData.cpp
+++ b/src/cplscheme/CouplingData.cpp
@@ -167,7 +167,8 @@ void CouplingData::reinitialize()
   // Meaning all samples are based on a different mesh.
   // Without remapping, the best we can do is setting them to zero samples.
   // We keep the timestamps not to break convergence measures, accelerations, and actions
-  auto zero = time::Sample(getDimensions(), nVertices());
+  auto zero = hasGradient() ? time::Sample(getDimensions(), nVertices(), meshDimensions())
+                            : time::Sample(getDimensions(), nVertices());
   zero.setZero();
 
   _data->waveform().setAllSamples(zero);
-- 
2.43.0


From 6f32c442439f29481a876176e27e242e726b40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 31/34] fix: let ranks take part in quasi-Newton updates once
 they have vertices

---
 src/acceleration/BaseQNAcceleration.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index b6a6aa1..0658ddf 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -897,9 +897,7 @@ void BaseQNAcceleration::initializeVectorsAndPreconditioner(const DataMap &cplDa
     PRECICE_ASSERT(utils::IntraComm::getCommunication() != nullptr);
     PRECICE_ASSERT(utils::IntraComm::getCommunication()->isConnected());
 
-    if (primaryDataSize <= 0) {
-      _hasNodesOnInterface = false;
-    }
+    _hasNodesOnInterface = primaryDataSize > 0;
 
     /** provide vertex offset information for all processors
      *  mesh->getVertexOffsets() provides an array that stores the number of mesh vertices on each processor
-- 
2.43.0


From f53100ab68a92216f3b3573620a244a568a2b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 32/34] fix: geometric multiscale mapping of unordered coarse
 vertices

The radial geometric multiscale mapping sorted the vertices of the 1D mesh along the axis, but used the
order incorrectly for spread and not at all for collect: unordered vertices led to wrong values and to an
access beyond the last vertex.
---
 src/mapping/RadialGeoMultiscaleMapping.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mapping/RadialGeoMultiscaleMapping.cpp b/src/mapping/RadialGeoMultiscaleMapping.cpp
index 30a18ee..4c92686 100644
--- a/src/mapping/RadialGeoMultiscaleMapping.cpp
+++ b/src/mapping/RadialGeoMultiscaleMapping.cpp
@@ -50,7 +50,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
       // Compute the midpoints of the 1D input mesh
       for (size_t i = 0; i < (inSize - 1); i++) {
         auto axisPositionCurrent = inputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
-        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i] + 1].coord(effectiveCoordinate);
+        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(inSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -68,7 +68,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < inSize);
           ++index;
         }
-        _vertexIndicesSpread.push_back(index);
+        _vertexIndicesSpread.push_back(ordered_vertex_indices[index]);
       }
     } else {
       PRECICE_ASSERT(_type == MultiscaleType::COLLECT);
@@ -90,8 +90,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
                        });
       // Compute the midpoints of the 1D output mesh
       for (size_t i = 0; i < (outSize - 1); i++) {
-        auto axisPositionCurrent = output()->vertex(i).coord(effectiveCoordinate);
-        auto axisPositionNext    = output()->vertex(i + 1).coord(effectiveCoordinate);
+        auto axisPositionCurrent = outputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
+        auto axisPositionNext    = outputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(outSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -108,8 +108,9 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < outSize);
           ++index;
         }
-        _vertexIndicesCollect.push_back(index);
-        counters[index] += 1;
+        const size_t vertexIndex = ordered_vertex_indices[index];
+        _vertexIndicesCollect.push_back(vertexIndex);
+        counters[vertexIndex] += 1;
       }
       _vertexCounter = std::move(counters);
     }
-- 
2.43.0


From 37f838c9ac9d93baf540ee17bc2bcd6ad9f05399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 33/34] fix: polynomial of RBF mappings with few vertices

With fewer vertices than coefficients, the separate polynomial was not unique, and the chosen solution did
not even reproduce constants away from the vertices. Axes are now dropped until it is determined.
---
 src/mapping/RadialBasisFctSolver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapping/RadialBasisFctSolver.hpp b/src/mapping/RadialBasisFctSolver.hpp
index 30ee5c9..6274055 100644
--- a/src/mapping/RadialBasisFctSolver.hpp
+++ b/src/mapping/RadialBasisFctSolver.hpp
@@ -392,8 +392,8 @@ RadialBasisFctSolver<RADIAL_BASIS_FUNCTION_T>::RadialBasisFctSolver(RADIAL_BASIS
       const double conditionNumber = svd.singularValues()(0) / std::max(svd.singularValues()(svd.singularValues().size() - 1), math::NUMERICAL_ZERO_DIFFERENCE);
       PRECICE_DEBUG("Condition number: {}", conditionNumber);
 
-      // Disable one axis
-      if (conditionNumber > 1e5) {
+      // Disable one axis if the axes are (nearly) dependent or if there are too few vertices to determine the polynomial
+      if (conditionNumber > 1e5 || polyParams > static_cast<unsigned int>(_matrixQ.rows())) {
         reduceActiveAxis(inputMesh, inputIDs, _localActiveAxis);
         polyParams = getNumberOfPolynomials();
       } else {
-- 
2.43.0


From 0a268d52bf97635e5112d0a25825f0e2679005ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 34/34] fix: report received meshes without influence on any
 mapping

---
 src/partition/ReceivedPartition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/partition/ReceivedPartition.cpp b/src/partition/ReceivedPartition.cpp
index e667d81..8d9690b 100644
--- a/src/partition/ReceivedPartition.cpp
+++ b/src/partition/ReceivedPartition.cpp
@@ -841,7 +841,11 @@ void ReceivedPartition::createOwnerInformation()
                     "(in \"setMeshAccessRegion\") and verify that it covers vertices "
                     "in the mesh or check the definition of the provided meshes.",
                     _mesh->getName());
-      PRECICE_ASSERT(ranksAtInterface != 0);
+      PRECICE_CHECK(ranksAtInterface != 0,
+                    "After repartitioning of mesh \"{}\" all ranks are empty. "
+                    "This probably means that the meshes do not match well geometry-wise: no vertex of the received mesh has an influence on any of the configured mappings. "
+                    "Please check the definition of the meshes and, for radial-basis function mappings, the support radius or the cluster size.",
+                    _mesh->getName());
       int localGuess = _mesh->getGlobalNumberOfVertices() / ranksAtInterface; // Guess for a decent load balancing
       // First round: every secondary rank gets localGuess vertices
       for (Rank rank : utils::IntraComm::allRanks()) {
-- 
2.43.0

